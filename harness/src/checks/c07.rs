use super::*;
use comrak::nodes::NodeValue;

pub fn check() -> Check {
    Check {
        id: "C07",
        rule: "the document has a disabled region whose text formatting would change, and text outside of it",
        assumptions: &[
            "comrak decides where blocks, headings and directive comments are",
            "a directive is a comment of its own at the top level; directives inside of quotes, lists and code are none",
            "a label or footnote is defined once in the document",
        ],
        parts: vec![
            ("exact", exact, 50_000, 500_000),
            ("references", references, 30_000, 300_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            let out = fmt(&d, &o);
            for r in j["regions"].as_array().into_iter().flatten() {
                contains(&out, r.as_str().expect("HARNESS: region"))?;
            }
            same_meaning(&d, &out, &o)
        }),
    }
}

struct Top {
    start: usize,
    end: usize,
    level: u8,
    html: Option<String>,
    foot: bool,
}

fn top(d: &str) -> Vec<Top> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, d, &copts());
    let mut v: Vec<Top> = root
        .children()
        .map(|n| {
            let n = n.data.borrow();
            let (mut level, mut html) = (0, None);
            match &n.value {
                NodeValue::Heading(h) => level = h.level,
                NodeValue::HtmlBlock(h) => html = Some(h.literal.trim().to_string()),
                NodeValue::FrontMatter(_) => level = 99,
                _ => {}
            }
            let foot = matches!(n.value, NodeValue::FootnoteDefinition(_));
            Top {
                start: n.sourcepos.start.line,
                end: n.sourcepos.end.line,
                level,
                html,
                foot,
            }
        })
        .collect();
    v.sort_by_key(|t| t.start);
    v
}

fn contains(out: &str, region: &str) -> Result<(), String> {
    match format!("\n{out}\n").contains(&format!("\n{region}\n")) {
        true => Ok(()),
        false => Err(format!(
            "the output does not have the lines of the region\n--- region\n{region}\n--- output\n{out}"
        )),
    }
}

const NEXT: &str = "<!-- hongdown-disable-next-line -->";
const SECTION: &str = "<!-- hongdown-disable-next-section -->";
const DISABLE: &str = "<!-- hongdown-disable -->";
const ENABLE: &str = "<!-- hongdown-enable -->";
const FILE: &str = "<!-- hongdown-disable-file -->";

/// The directive as written: white space does not matter.
fn written(g: &mut G, d: &str) -> String {
    match g.w(&[6, 1, 1, 1, 1, 1]) {
        0 => d.to_string(),
        4 => d.replace(' ', "\n"),
        5 => d.replace(' ', "\t"),
        1 => d.replace("<!-- ", "<!--").replace(" -->", "-->"),
        2 => d.replace(' ', "  "),
        _ => format!(" {d}"),
    }
}

const NOISE: &[&str] = &[
    "",
    "   ",
    "\t",
    "===",
    "---",
    "<div>",
    "</div>",
    "~~~",
    "- ",
    ">",
    "* x",
    "+   y",
    "[a]: /u",
    "[^1]: f",
    "| a |b|",
    "#  H #",
    "  ### h",
    "    code",
    "\tcode",
    "text  ",
    "t\\",
    "\"q\"...",
    "<!-- x -->",
    "1) i",
    "*[A]: b",
    ":   d",
    "__s__ *e*",
    "Undefined [ref] and [^fn].",
    "http://x.y",
    "a  b   c",
    "[l](https://x.y)",
    "<b>",
    "Ünï 漢字",
    "- [ ] t",
    "<https://x.y>",
    "![i]( /u )",
    "&copy; \\* `` c ``",
];

fn quiet() -> Cfg {
    let mut c = Cfg::full();
    for f in [
        "reflink", "fnref", "footdef", "linkdef", "link", "image", "auto", "html",
    ] {
        *c.get(f) = 0;
    }
    c.front = false;
    c.max_blocks = 2;
    c.max_words = 12;
    c
}

fn loud(words: usize) -> Cfg {
    let mut c = Cfg::full();
    c.front = false;
    c.max_blocks = 4;
    c.max_words = words;
    c.hostile = 2;
    c
}

/// Any text with lines that formatting would change.
fn text(g: &mut G, next: bool) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    if g.p(2, 3) {
        v.extend(D::new(g, loud(12)).doc().lines().map(|s| s.to_string()));
    }
    for _ in 0..g.below(4) {
        let i = g.usz(0, v.len());
        let l = if next && g.p(1, 8) {
            g.s(&[NEXT, SECTION, "<!-- hongdown-no -->"])
        } else {
            g.s(NOISE)
        };
        v.insert(i, l.to_string());
    }
    v
}

/// The whole output is known: formatting the document with a plain comment for each region gives the same output,
/// with the region for the comment.
fn exact(g: &mut G) -> Case {
    let o = if g.coin() {
        crate::opts::any(g)
    } else {
        crate::opts::common(g)
    };
    // (text, the region for which it stands)
    let mut doc: Vec<String> = Vec::new();
    let mut control: Vec<String> = Vec::new();
    let mut regions: Vec<String> = Vec::new();
    // region kind, line of the directive, line after the last one
    let mut spans: Vec<(&str, usize, usize)> = Vec::new();
    if g.p(1, 12) {
        for v in [&mut doc, &mut control] {
            v.extend(["---", "t: 'x'", "---", ""].map(String::from));
        }
    }
    let n = g.usz(1, 4);
    let mut open = false;
    let mut outside = 0;
    let mut unterminated = false;
    // the line after the last directive
    let mut bare = 0;
    for k in 0..n {
        // text outside
        if g.p(4, 5) {
            outside += 1;
            let c = quiet();
            let mut b = D::new(g, c)
                .doc()
                .trim_end_matches('\n')
                .split('\n')
                .map(|s| s.to_string())
                .collect::<Vec<_>>();
            if g.p(1, 8) {
                // a directive that is none
                let decoy = g.s(&[
                    "> <!-- hongdown-disable -->\n> *x*",
                    "- a\n\n  <!-- hongdown-disable -->\n\n  *x*",
                    "~~~\n<!-- hongdown-disable -->\n~~~",
                    "`<!-- hongdown-disable -->` x",
                    "<!-- hongdown-disabled -->",
                    "<!-- hongdown-disable-file: x -->",
                ]);
                b.push(String::new());
                b.extend(decoy.split('\n').map(String::from));
                b.push(String::new());
                b.push("After".into());
            }
            b.push(String::new());
            doc.extend(b.iter().cloned());
            control.extend(b);
        }
        let last = k + 1 == n;
        let kind = match g.w(&[4, 4, 4, if last { 4 } else { 0 }]) {
            0 => NEXT,
            1 => SECTION,
            2 => DISABLE,
            _ => FILE,
        };
        open = last && kind != NEXT && (kind == FILE || g.p(1, 3));
        let at = doc.len();
        let w = written(g, kind);
        doc.extend(w.split('\n').map(String::from));
        bare = doc.len();
        let gap = g.w(&[2, 4, 1]);
        doc.extend(std::iter::repeat_n(String::new(), gap));
        match kind {
            NEXT => {
                let b = {
                    let mut d = D::new(g, loud(12));
                    d.block(2)
                };
                doc.extend(b);
            }
            _ => {
                let t = text(g, kind != FILE);
                doc.extend(t);
                if kind == FILE && g.p(1, 6) {
                    doc.extend(["", ENABLE, "", "* x"].map(String::from));
                }
            }
        }
        if kind == SECTION && !open {
            // what comes before the heading must not be a heading, nor a directive
            doc.extend(["", "L  ast"].map(String::from));
        }
        if kind == DISABLE && !open {
            doc.extend(std::iter::repeat_n(String::new(), g.w(&[3, 4, 1])));
            let w = written(g, ENABLE);
            doc.extend(w.split('\n').map(String::from));
        }
        if open {
            unterminated = g.p(1, 3);
        } else {
            while doc.last().is_some_and(|l| l.trim().is_empty()) && doc.len() > at + 1 {
                doc.pop();
            }
        }
        regions.push(doc[at..].join("\n"));
        spans.push((kind, at, doc.len()));
        control.push(format!("<!-- region {k} -->"));
        if !open {
            doc.extend(std::iter::repeat_n(String::new(), g.usz(1, 3)));
            control.push(String::new());
            let h = match kind {
                SECTION => g.s(&["Next\n====", "Next *one*\n---", "# Next #", "##   Next"]),
                NEXT => g.s(&["Next *text*", "Next\n====", "###  Next", "__Next__"]),
                _ => g.s(&[
                    "Next *text*",
                    "Next\n====",
                    "###  Next",
                    "## Next",
                    "__Next__",
                ]),
            };
            for v in [&mut doc, &mut control] {
                v.extend(h.split('\n').map(String::from));
                v.push(String::new());
            }
        }
    }
    let mut d = doc.join("\n");
    if open {
        if !unterminated || doc.len() == bare {
            d.push('\n');
            regions.last_mut().unwrap().push('\n');
        }
    }
    let control = control.join("\n");
    let s = show(&o, &d);
    // the regions are what the directives cover
    let tops = top(&d);
    let mut inside = false;
    for (i, (kind, at, end)) in spans.iter().enumerate() {
        let is_open = open && i + 1 == spans.len();
        let Some(x) = tops
            .iter()
            .position(|t| t.start == at + 1 && t.html.is_some())
        else {
            return Case::discard(s);
        };
        let next_after = tops[x + 1..].iter().find(|t| t.start > *end);
        let ok = match *kind {
            NEXT => tops.get(x + 1).is_some_and(|t| {
                t.end == *end && !t.html.as_ref().is_some_and(|h| h.contains("hongdown"))
            }),
            SECTION => {
                let h = tops[x + 1..].iter().find(|t| matches!(t.level, 1 | 2));
                !tops[x + 1..]
                    .iter()
                    .take_while(|t| t.start <= *end)
                    .any(|t| {
                        // these change where the region ends
                        t.html.as_deref().is_some_and(|h| {
                            h.contains("hongdown-disable") && !h.contains("next-section")
                        })
                    })
                    && if is_open {
                        h.is_none()
                    } else {
                        h.map(|h| h.start) == next_after.map(|t| t.start) && h.is_some()
                    }
            }
            DISABLE if is_open => true,
            DISABLE => tops[x + 1..]
                .iter()
                .any(|t| t.start == *end && t.html.is_some()),
            _ => true,
        };
        // a footnote or definition that is not a part of the tree
        let ok = ok
            && !tops
                .iter()
                .any(|t| !is_open && t.start <= *end && t.end > *end);
        let ok = ok && (*kind != NEXT || !doc[*at..*end].iter().any(|l| l.contains("]:")));
        if !ok {
            return Case::discard(s);
        }
        inside = true;
    }
    note(&s);
    let out = fmt(&d, &o);
    let mut want = fmt(&control, &o);
    let mut changes = false;
    for (k, r) in regions.iter().enumerate() {
        let mark = format!("<!-- region {k} -->");
        let mark = if open && k + 1 == regions.len() {
            format!("{mark}\n")
        } else {
            mark
        };
        if want.matches(&mark).count() != 1 {
            return Case::fail(s, format!("HARNESS: no mark in\n{want}"));
        }
        want = want.replace(&mark, r);
        let plain = r.split_once('\n').map_or("", |x| x.1);
        changes = changes || fmt(plain, &o) != plain;
    }
    let r = match diff(&want, &out) {
        None if want == out => Ok(()),
        x => Err(format!(
            "{}\n--- output\n{out}",
            x.unwrap_or("the ends of the lines differ".into())
        )),
    };
    Case::of(s, inside && changes && outside > 0, r)
}

/// Links and footnotes go across the edges of the regions: they keep their targets.
fn references(g: &mut G) -> Case {
    let mut o = if g.p(1, 3) {
        crate::opts::any(g)
    } else {
        crate::opts::common(g)
    };
    if o.leading_spaces.get() > 1 {
        // the listed finding list-after-disabled-list
        o.leading_spaces = hongdown::LeadingSpaces::new(1).unwrap();
    }
    let mut c = Cfg::full();
    c.reflink = 12;
    c.fnref = 8;
    c.max_words = 12;
    c.max_blocks = 9;
    let base = D::new(g, c).doc();
    let lines: Vec<&str> = base.trim_end_matches('\n').split('\n').collect();
    let tops: Vec<Top> = top(&base).into_iter().filter(|t| t.level != 99).collect();
    if tops.is_empty() {
        return Case::discard(base);
    }
    // where directives are inserted: before these lines
    let mut ins: Vec<(usize, &str)> = Vec::new();
    let mut k = 0;
    while k < tops.len() {
        let at = tops[k].start;
        if !g.p(1, 3) {
            k += 1;
            continue;
        }
        match g.w(&[3, 3, 3, 1]) {
            0 => {
                ins.push((at, NEXT));
                k += 1;
            }
            1 => {
                ins.push((at, SECTION));
                let e = tops[k..].iter().position(|t| matches!(t.level, 1 | 2));
                match e {
                    Some(e) => k += e.max(1),
                    None => break,
                }
            }
            2 => {
                ins.push((at, DISABLE));
                let m = g.usz(1, 4);
                if k + m >= tops.len() {
                    break;
                }
                k += m;
                ins.push((tops[k].start, ENABLE));
            }
            _ => {
                ins.push((at, FILE));
                break;
            }
        }
    }
    let mut doc: Vec<&str> = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        for (_, d) in ins.iter().filter(|(at, _)| *at == i + 1) {
            if doc.last().is_some_and(|l| !l.trim().is_empty()) {
                doc.push("");
            }
            doc.push(d);
            doc.push("");
        }
        doc.push(l);
    }
    let d = doc.join("\n") + "\n";
    let s = show(&o, &d);
    let tops = top(&d);
    // the directives must be where they were put, and end the same blocks
    let mut regions: Vec<String> = Vec::new();
    let mut changes = false;
    for (i, l) in doc.iter().enumerate() {
        if ![NEXT, SECTION, DISABLE, FILE].contains(l) {
            continue;
        }
        let Some(x) = tops
            .iter()
            .position(|t| t.start == i + 1 && t.html.as_deref() == Some(*l))
        else {
            return Case::discard(s);
        };
        let end = match *l {
            NEXT => match tops.get(x + 1) {
                Some(t) if !t.html.as_ref().is_some_and(|h| h.contains("hongdown")) => t.end,
                _ => i + 1,
            },
            SECTION => tops[x + 1..]
                .iter()
                .find(|t| matches!(t.level, 1 | 2))
                .map_or(doc.len(), |t| t.start - 1),
            DISABLE => tops[x + 1..]
                .iter()
                .find(|t| t.html.as_deref() == Some(ENABLE))
                .map_or(doc.len(), |t| t.start),
            _ => doc.len(),
        };
        let n = doc[i..end]
            .iter()
            .rposition(|l| !l.trim().is_empty())
            .unwrap_or(0)
            + 1;
        let r = doc[i..i + n].join("\n");
        changes = changes || fmt(&r[l.len()..], &o) != r[l.len()..];
        regions.push(r);
    }
    note(&s);
    let out = fmt(&d, &o);
    let mut res = same_meaning(&d, &out, &o);
    for r in &regions {
        res = res.and_then(|_| contains(&out, r));
    }
    let res = res.and_then(|_| idempotent(&out, &o));
    Case::of(
        s,
        changes && tops.iter().any(|t| t.foot) | d.contains("]: "),
        res,
    )
}
