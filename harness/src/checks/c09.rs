use super::*;
use comrak::nodes::NodeValue;
use unicode_width::UnicodeWidthStr;

pub fn check() -> Check {
    Check {
        id: "C09",
        rule: "the document has a heading, code block or thematic break whose source style is not the configured one, or a level-2 heading after content",
        assumptions: &[
            "display widths of the model part are written down by hand; elsewhere those of the unicode-width crate",
            "comrak decides which lines of the output are headings, code blocks and thematic breaks",
        ],
        parts: vec![
            ("model", model, 80_000, 800_000),
            ("any", any, 25_000, 250_000),
            ("endings", endings, 10_000, 100_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            let out = fmt(&d, &o);
            style(&out, &o)
        }),
    }
}

const WORDS: &[(&str, usize)] = &[
    ("word", 4),
    ("a", 1),
    ("The", 3),
    ("漢字", 4),
    ("👍", 2),
    ("한국어", 6),
    ("`co de`", 7),
    ("*it*", 4),
    ("e\u{301}a", 2),
    ("don't", 5),
    ("**漢**", 6),
    ("[l](u)", 6),
    ("héllo", 5),
    ("considerable", 12),
    ("（x）", 5),
    ("<br>", 4),
    ("\\*s\\*", 5),
    ("&amp;", 5),
    ("–", 1),
];

enum B {
    Heading(u8, String, usize),
    Para(String),
    Code {
        info: &'static str,
        lines: Vec<&'static str>,
    },
    Hr,
    Html(&'static str),
    Quote(String),
    Bullets(String),
    Ordered(String),
}

fn words(g: &mut G, min: usize) -> (String, usize) {
    let n = g.usz(min, 4);
    let (mut s, mut w) = (String::new(), 0);
    for i in 0..n {
        if i > 0 {
            s.push(' ');
            w += 1;
        }
        let c = *g.pick(WORDS);
        // an HTML tag alone on its line is a block
        let c = if i == 0 && c.0.starts_with('<') {
            WORDS[0]
        } else {
            c
        };
        s.push_str(c.0);
        w += c.1;
    }
    (s, w)
}

/// Indentation that a block may have, unless it would become a part of a list before it.
fn ind(g: &mut G, list: bool) -> String {
    if list {
        String::new()
    } else {
        " ".repeat(g.w(&[6, 1, 1]))
    }
}

fn model(g: &mut G) -> Case {
    let mut o = crate::opts::plain();
    o.curly_apostrophes = false;
    o.setext_h1 = !g.p(1, 3);
    o.setext_h2 = !g.p(1, 3);
    if g.coin() {
        crate::opts::fences(g, &mut o);
    }
    if g.coin() {
        o.thematic_break_style = hongdown::ThematicBreakStyle::new(
            g.s(&[
                "---",
                "* * *",
                "___",
                "*****",
                "- - - -",
                "_ _ _",
                "----------------",
            ])
            .to_string(),
        )
        .unwrap();
        o.thematic_break_leading_spaces = hongdown::LeadingSpaces::new(g.usz(0, 3)).unwrap();
    }
    let n = g.usz(1, 8);
    let mut non = false;
    let mut src: Vec<String> = Vec::new();
    let mut want: Vec<String> = Vec::new();
    for _ in 0..[0, 0, 0, 1, 2][g.usz(0, 4)] {
        src.push(String::new());
    }
    let front = src.is_empty() && g.p(1, 8);
    if front {
        let v = vec![
            "---".to_string(),
            g.s(&["a: b", "title:  \"x--y\"", "# c"]).to_string(),
            "---".into(),
        ];
        src.extend(v.clone());
        want.extend(v);
        for _ in 0..g.usz(0, 3) {
            src.push(String::new());
        }
    }
    let mut prev = 0; // what stands before: 0 nothing, 1 heading, 2 bullets, 3 ordered, 4 other, 5 paragraph
    for i in 0..n {
        let k = loop {
            let k = g.w(&[4, 8, 4, 3, 1, 2, 2, 2]);
            if !(k == 6 && prev == 2 || k == 7 && prev == 3) {
                break k;
            }
            if g.rec.len() > 3000 {
                break 0;
            }
        };
        let b = match k {
            0 => B::Para(words(g, 1).0),
            1 => {
                let (t, w) = words(g, 0);
                B::Heading(*g.pick(&[2u8, 1, 2, 3, 4, 5, 6]), t, w)
            }
            2 => B::Code {
                info: g.s(&["", "rust", "c++", "a b", "text", "~x", "js  hl"]),
                lines: (0..g.usz(0, 3))
                    .map(|_| {
                        g.s(&[
                            "x = 1", "", "  in", "# no", "~~~", "```", "````", "~~~~~ x", "- no",
                        ])
                    })
                    .collect(),
            },
            3 => B::Hr,
            4 => B::Html(g.s(&["<!-- c -->", "<div>\n<p>x--y</p>\n</div>", "<!-- a\nb -->"])),
            5 => B::Quote(words(g, 1).0),
            6 => B::Bullets(words(g, 1).0),
            _ => B::Ordered(words(g, 1).0),
        };
        if i > 0 {
            // some blocks may follow others directly
            let close = prev == 1;
            for _ in 0..if close {
                g.usz(0, 3)
            } else {
                [1, 1, 2, 3][g.usz(0, 3)]
            } {
                src.push(g.s(&["", "", "   "]).into());
            }
        }
        let h2 = matches!(b, B::Heading(2, ..));
        if i > 0 || front {
            want.push(String::new());
            if h2 && i > 0 && prev != 1 {
                want.push(String::new());
                non = true;
            }
        }
        let after_list = match prev {
            2 => Some(4),
            3 => Some(o.ordered_list_indent_width.get()),
            _ => None,
        };
        let list = after_list.is_some();
        let before = want.is_empty();
        match &b {
            B::Heading(l, t, w) => {
                let hashes = "#".repeat(*l as usize);
                if *l <= 2 && !t.is_empty() && g.coin() {
                    let c = if *l == 1 { "=" } else { "-" };
                    src.push(format!("{}{t}", ind(g, list)));
                    src.push(format!("{}{}", c.repeat(g.usz(2, 14)), g.s(&["", "  "])));
                    non |= if *l == 1 { !o.setext_h1 } else { !o.setext_h2 };
                } else {
                    let close = if g.p(1, 4) {
                        format!(" {}", "#".repeat(g.usz(1, 8)))
                    } else {
                        String::new()
                    };
                    let sp = if t.is_empty() {
                        ""
                    } else {
                        g.s(&[" ", "  ", "    "])
                    };
                    src.push(format!("{}{hashes}{sp}{t}{close}", ind(g, list)));
                    non |= *l == 1 && o.setext_h1 || *l == 2 && o.setext_h2;
                }
                match l {
                    1 if o.setext_h1 && !t.is_empty() => want.extend([t.clone(), "=".repeat(*w)]),
                    2 if o.setext_h2 && !t.is_empty() => want.extend([t.clone(), "-".repeat(*w)]),
                    _ => want.push(format!("{hashes} {t}").trim_end().to_string()),
                }
                prev = 1;
            }
            B::Para(t) => {
                src.push(format!("{}{t}", ind(g, list)));
                want.push(t.clone());
                prev = 5;
            }
            B::Code { info, lines } => {
                let c = o.fence_char.as_char();
                let mut put = |lines: &[&str], info: &str| {
                    let run = lines
                        .iter()
                        .map(|l| l.chars().take_while(|x| *x == c).count())
                        .max()
                        .unwrap_or(0);
                    let f = c.to_string().repeat(o.min_fence_length.get().max(run + 1));
                    let info = if info.is_empty() {
                        o.default_language.as_str()
                    } else {
                        info
                    };
                    let sp = if !info.is_empty() && (o.space_after_fence || info.starts_with(c)) {
                        " "
                    } else {
                        ""
                    };
                    want.push(format!("{f}{sp}{info}"));
                    want.extend(lines.iter().map(|l| l.to_string()));
                    want.push(f);
                };
                let whole = lines.first().is_some_and(|l| !l.is_empty())
                    && lines.last().is_some_and(|l| !l.is_empty());
                if whole && matches!(prev, 0 | 1 | 4) && g.p(1, 3) {
                    put(lines, "");
                    src.extend(lines.iter().map(|l| format!("    {l}")));
                    non = true;
                    prev = 5;
                } else {
                    prev = 4;
                    put(lines, info);
                    let c = if g.coin() { '`' } else { '~' };
                    let run = lines
                        .iter()
                        .map(|l| l.trim_start().chars().take_while(|x| *x == c).count())
                        .max()
                        .unwrap_or(0);
                    let f = c.to_string().repeat(3.max(run + 1) + g.usz(0, 2));
                    let ind = if lines.iter().all(|l| !l.starts_with(' ')) {
                        ind(g, list)
                    } else {
                        String::new()
                    };
                    let sp = if info.starts_with(c) {
                        " "
                    } else {
                        g.s(&["", " ", "   "])
                    };
                    src.push(format!("{ind}{f}{sp}{info}"));
                    src.extend(lines.iter().map(|l| format!("{ind}{l}")));
                    let k = g.usz(0, 2);
                    src.push(format!("{ind}{f}{}", c.to_string().repeat(k)));
                    non |= c != o.fence_char.as_char();
                }
            }
            B::Hr => {
                let s = if before || src.iter().all(|l| l.is_empty()) {
                    g.s(&["***", "___", "_ _ _"])
                } else {
                    g.s(&["---", "***", "___", "- - -", " * * *", "-----------"])
                };
                // after a list, a rule of the same characters would be another item
                src.push(
                    if after_list.is_some() {
                        g.s(&["___", "____"])
                    } else {
                        s
                    }
                    .to_string(),
                );
                let mut lead = o.thematic_break_leading_spaces.get();
                if let Some(w) = after_list {
                    lead = lead.min(w - 1);
                }
                let st = o.thematic_break_style.as_str();
                if before && st == "---" {
                    lead = lead.max(1);
                }
                non |= s != st;
                want.push(format!("{}{st}", " ".repeat(lead)));
                prev = 4;
            }
            B::Html(h) => {
                for l in h.split('\n') {
                    src.push(l.into());
                    want.push(l.into());
                }
                prev = 4;
            }
            B::Quote(t) => {
                src.push(format!(
                    "{}{t}",
                    if list {
                        "> "
                    } else {
                        g.s(&["> ", ">", " >  "])
                    }
                ));
                want.push(format!("> {t}"));
                prev = 4;
            }
            B::Bullets(t) => {
                src.push(format!("{}{t}", g.s(&["- ", "*   ", " + ", "  -  "])));
                want.push(format!(" -  {t}"));
                prev = 2;
            }
            B::Ordered(t) => {
                src.push(format!("{}{t}", g.s(&["1. ", "7)   ", " 3. "])));
                want.push(format!("1.  {t}"));
                prev = 3;
            }
        }
    }
    let nl = g.s(&["\n", "\n", "\r\n"]);
    let mut src = src.join(nl);
    src.push_str(g.s(&["\n", "", "\n\n\n", "\n  \n"]));
    let want = want.join("\n") + "\n";
    let s = show(&o, &src);
    note(&s);
    let out = fmt(&src, &o);
    let r = match diff(&want, &out) {
        None if want == out => style(&out, &o),
        x => Err(format!(
            "not as the model prints it: {}\n--- output\n{out}\n--- model\n{want}",
            x.unwrap_or("line endings".into())
        )),
    };
    Case::of(s, non, r)
}

/// What can be seen of the styles in any output.
fn style(out: &str, o: &Options) -> Result<(), String> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, out, &copts());
    let lines: Vec<&str> = out.split('\n').collect();
    let bad = |l: usize, m: &str| {
        Err(format!(
            "line {l}: {m}: {:?}\n--- output\n{out}",
            lines.get(l - 1)
        ))
    };
    let mut raw = vec![false; lines.len() + 1];
    let mut h2: Vec<(usize, bool)> = Vec::new();
    for n in root.descendants() {
        let d = n.data.borrow();
        let p = d.sourcepos;
        let first = lines.get(p.start.line.max(1) - 1).copied().unwrap_or("");
        let at = first.get(p.start.column.max(1) - 1..).unwrap_or("");
        match &d.value {
            // elsewhere indentation may differ from line to line
            NodeValue::Heading(_)
                if n.parent()
                    .is_some_and(|p| !matches!(p.data.borrow().value, NodeValue::Document)) => {}
            NodeValue::Heading(h) => {
                let (mark, on) = match h.level {
                    1 => ("=", o.setext_h1),
                    2 => ("-", o.setext_h2),
                    _ => ("", false),
                };
                let text = at.trim_start_matches('#').trim_start_matches(' ');
                let breaks = p.end.line > p.start.line + 1;
                if h.setext {
                    let under = lines[p.end.line - 1];
                    if !on && !breaks {
                        return bad(p.start.line, "an underlined heading");
                    }
                    let col = p.start.column - 1;
                    let w = (p.start.line..p.end.line)
                        .map(|i| lines[i - 1][col..].width())
                        .max()
                        .unwrap();
                    if under[col..] != mark.repeat(w) {
                        return bad(p.end.line, "the underline is not as wide as the text");
                    }
                } else if on
                    && text.starts_with(|c: char| c.is_alphanumeric())
                    && !text.starts_with(|c: char| c.is_ascii_digit())
                    && !text.contains(": ")
                {
                    return bad(p.start.line, "a heading that is not underlined");
                }
                if h.level == 2
                    && n.parent()
                        .is_some_and(|p| matches!(p.data.borrow().value, NodeValue::Document))
                {
                    let after = n.previous_sibling().is_some_and(|p| {
                        matches!(
                            p.data.borrow().value,
                            NodeValue::Heading(_) | NodeValue::FrontMatter(_)
                        )
                    });
                    h2.push((p.start.line, after || n.previous_sibling().is_none()));
                }
            }
            NodeValue::CodeBlock(c) => {
                for i in p.start.line..=p.end.line {
                    raw[i] = true;
                }
                if !c.fenced {
                    return bad(p.start.line, "an indented code block");
                }
                let want = if c.info.contains('`') {
                    '~'
                } else {
                    o.fence_char.as_char()
                };
                let longest = c
                    .literal
                    .lines()
                    .map(|l| l.trim_start().chars().take_while(|x| *x == want).count())
                    .max()
                    .unwrap_or(0);
                if c.fence_char as char != want
                    || c.fence_length != o.min_fence_length.get().max(longest + 1)
                {
                    return bad(p.start.line, "not the configured fence");
                }
                let rest = at.trim_start_matches(want);
                let sp = !rest.is_empty() && (o.space_after_fence || c.info.starts_with(want));
                if rest.starts_with(' ') != sp {
                    return bad(p.start.line, "not the configured space after the fence");
                }
                if rest.is_empty() && !o.default_language.is_empty() {
                    return bad(p.start.line, "no default language");
                }
            }
            NodeValue::ThematicBreak => {
                if at != o.thematic_break_style.as_str() {
                    return bad(p.start.line, "not the configured thematic break");
                }
            }
            NodeValue::HtmlBlock(_) | NodeValue::HtmlInline(_) | NodeValue::FrontMatter(_) => {
                for i in p.start.line..=p.end.line {
                    raw[i.min(lines.len())] = true;
                }
            }
            _ => {}
        }
    }
    // blank lines
    let mut run = 0;
    for (i, l) in lines.iter().enumerate() {
        let l1 = i + 1;
        let end = i + 1 == lines.len();
        let blank = l.trim_matches([' ', '>']).is_empty();
        if blank && !end && !raw[l1] {
            run += 1;
            continue;
        }
        if end && (run > 0 && lines.len() > 1 || !l.is_empty()) {
            return bad(l1, "not exactly one newline at the end");
        }
        if let Some((_, near)) = h2.iter().find(|h| h.0 == l1) {
            if !near && run != 2 || run > 2 {
                return bad(l1, "not two blank lines before a section");
            }
        } else if run > 1 && !raw[l1] {
            return bad(l1, "more than one blank line");
        }
        run = 0;
    }
    Ok(())
}

fn any(g: &mut G) -> Case {
    let o = crate::opts::any(g);
    let mut c = full(&o);
    c.heading = 14;
    c.code = 8;
    c.hr = 6;
    c.max_words = 8;
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let non = g
        .labels
        .iter()
        .any(|l| ["heading", "code", "hr"].contains(l));
    Case::of(s, non, style(&out, &o))
}

/// Line endings of the input, and newlines around it, change nothing.
fn endings(g: &mut G) -> Case {
    let o = crate::opts::any(g);
    let mut c = full(&o);
    c.max_words = 8;
    c.html += 3;
    let d = D::new(g, c).doc();
    let mut e = d.replace('\n', "\r\n");
    if g.coin() {
        e.push_str("\r\n\r\n");
    }
    let s = format!(
        "{}\n--- against the same with other line endings",
        show(&o, &d)
    );
    note(&s);
    let (a, b) = (fmt(&d, &o), fmt(&e, &o));
    let r = match diff(&a, &b) {
        None if a == b => Ok(()),
        x => Err(format!(
            "line endings change {}\n--- output\n{a}\n--- with carriage returns\n{b}",
            x.unwrap_or("line endings".into())
        )),
    };
    Case::of(s, d.lines().count() > 3, r)
}
