use super::*;

pub fn check() -> Check {
    Check {
        id: "C15",
        rule: "at least one warning is expected",
        assumptions: &[
            "labels that begin with ^ or ! are footnotes and alerts, and give no warning",
            "names of abbreviations need no definition",
            "the wording of warnings is not checked, apart from the label and the kind",
        ],
        parts: vec![
            ("document", document, 30_000, 1_000_000),
            ("table", tables, 20_000, 500_000),
        ],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

/// A line of the document, with the warnings expected for it.
#[derive(Clone, Default)]
struct L {
    t: String,
    w: Vec<String>,
}

fn l(t: impl Into<String>) -> L {
    L {
        t: t.into(),
        w: vec![],
    }
}

/// What is written to the text, a part of it at a time.
struct Words {
    lines: Vec<L>,
    column: usize,
}

impl Words {
    fn glue(&mut self, s: &str, w: &[&str]) {
        let n = self.lines.last_mut().unwrap();
        n.t.push_str(s);
        n.w.extend(w.iter().map(|x| format!("ref {x}")));
        self.column += 1;
    }
    fn line(&mut self) {
        self.lines.push(L::default());
        self.column = 0;
    }
}

const LABELS: &[&str] = &[
    "u",
    "Undef",
    "no such thing",
    "a_b",
    "a & b",
    "u-1",
    "漢字",
    "it's",
    "a, b",
    "1",
    "u.v",
    "\\]",
    "a\\]b",
    "a\\[b",
    "a\\*",
    "&amp;",
    "é",
    "x--y",
    "\"q\"",
    "...",
    "HTMLx",
    "a|b",
    "u:",
    "<u",
];

fn label(g: &mut G, cell: bool) -> &'static str {
    loop {
        let x = g.s(LABELS);
        if !(cell && x.contains('|')) {
            return x;
        }
        if g.rec.len() > 5000 {
            return "u";
        }
    }
}

/// Something in running text. `cell`: on one line, and no pipes.
fn word(g: &mut G, w: &mut Words, cell: bool) {
    if w.column > 0 {
        if !cell && g.p(1, 5) {
            w.line();
        } else {
            w.glue(" ", &[]);
        }
    }
    // nothing that would be a block of its own at the start of a line
    if w.column == 0 {
        let x = g.s(&["See", "the", "text", "of", "Some"]);
        w.glue(x, &[]);
        w.glue(" ", &[]);
    }
    let u = label(g, cell);
    match g.w(&[
        6, 5, 3, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1,
    ]) {
        0 => {
            let x = g.s(&[
                "word", "text", "a", "*it*", "**b**", "x]", "[]", "漢字", "end.",
            ]);
            w.glue(x, &[])
        }
        1 => w.glue(&format!("[{u}]"), &[u]),
        2 => w.glue(&format!("[some text][{u}]"), &[u]),
        3 => w.glue(&format!("[{u}][]"), &[u]),
        4 => w.glue(&format!("![alt][{u}]"), &[u]),
        5 if !u.contains('*') => w.glue(&format!("*[{u}]*"), &[u]),
        6 => w.glue(&format!("[an [{u}] in](/u)"), &[u]),
        7 => {
            let x = g.s(&[
                "[d1]",
                "[text][d1]",
                "[D1]",
                "[d1][]",
                "[d 2]",
                "![d1]",
                "[*x*][D  2]",
                "[HTML]",
                "[`x`](/u)",
                "[x](<[u]>)",
            ]);
            w.glue(x, &[])
        }
        8 => w.glue(&format!("\\[{u}\\]"), &[]),
        9 => w.glue(&format!("\\[{u}]"), &[]),
        11 => w.glue(&format!("`[{u}]`"), &[]),
        12 => {
            let x = g.s(&["[^n1]", "[^none]", "[!NOTE]", "[!x]", "[^n1][^n1]"]);
            w.glue(x, &[])
        }
        13 => w.glue("<b title=\"[u]\">[x](/u)</b>", &[]),
        14 => w.glue("<http://example.com/[u]>", &[]),
        15 => w.glue(&format!("([{u}])"), &[u]),
        16 => w.glue(&format!("[{u}][{u}x]"), &[&format!("{u}x")]),
        17 => w.glue(&format!("[d1][{u}]"), &[u]),
        18 => w.glue(&format!("[{u}] and \\[{u}]"), &[u]),
        19 => w.glue(&format!("\\[{u}] and [{u}]"), &[u]),
        20 => w.glue(&format!("\\\\[{u}]"), &[u]),
        21 => w.glue(&format!("&#91;{u}]"), &[]),
        _ => {
            let a = label(g, cell);
            if cell {
                w.glue(&format!("[x {a}]"), &[&format!("x {a}")]);
            } else {
                // the line break is part of the label
                w.glue("[x", &[&format!("x {a} b")]);
                w.line();
                w.glue(&format!("{a} b]"), &[]);
            }
        }
    }
}

fn text(g: &mut G, one_line: bool) -> Vec<L> {
    if g.p(1, 20) {
        return vec![l(g
            .s(&[
                "Not closed: [u\\]",
                "Not closed: [u",
                "Not opened: u]",
                "[u\\] `x]`",
                "\\[u] \\[v]",
                "[](/u) [a]\\(/b)",
            ])
            .replace("[a]", "\\[a]"))];
    }
    let mut w = Words {
        lines: vec![L::default()],
        column: 0,
    };
    let n = g.usz(1, if one_line { 3 } else { 7 });
    for _ in 0..n {
        word(g, &mut w, one_line);
    }
    w.lines
}

fn table(g: &mut G) -> Vec<L> {
    let cols = g.usz(1, 4);
    let cell = |g: &mut G| -> (String, Vec<String>) {
        match g.w(&[4, 1, 2, 1]) {
            0 => (
                g.s(&[
                    "a", "xy", "漢字", "a\\|b", "`c\\|d`", "\\\\\\|", "\\|", "x\\| y", "y\\\\| z",
                    "\\\\|", "-", ":-:", "[d1]",
                ])
                .to_string(),
                vec![],
            ),
            1 => {
                let mut t = text(g, true);
                let x = t.remove(0);
                (x.t, x.w)
            }
            2 => ("w".into(), vec![]),
            _ => ("".into(), vec![]),
        }
    };
    let row = |g: &mut G, cells: Vec<String>, header: bool| -> String {
        let sp = |g: &mut G, s: &str| {
            if s.is_empty() {
                " ".to_string()
            } else if g.p(1, 6) && !s.ends_with('\\') {
                s.to_string()
            } else {
                format!(" {s} ")
            }
        };
        let parts: Vec<String> = cells.iter().map(|c| sp(g, c)).collect();
        let mut r = parts.join("|");
        let blank = |s: &String| s.trim().is_empty();
        // an outer pipe can be left out, unless the cell is empty
        let safe = |s: &String| s.trim().starts_with(|c: char| c.is_alphabetic());
        let many = cells.len() > 1 || header;
        if !(many && safe(&parts[0]) && g.p(1, 4)) || blank(&parts[0]) {
            r = format!("|{r}");
        } else {
            r = r.trim_start().to_string();
        }
        let last = parts.last().unwrap();
        let has_pipe = r.matches('|').count() > r.matches("\\|").count();
        if !(has_pipe && !blank(last) && g.p(1, 4)) {
            r.push('|');
        } else {
            r = r.trim_end().to_string();
        }
        r
    };
    let mut v = Vec::new();
    let mut make = |g: &mut G, n: usize, header: bool| {
        let mut cs = Vec::new();
        let mut ws: Vec<String> = Vec::new();
        for i in 0..n {
            let (c, w) = if i < cols {
                cell(g)
            } else {
                ("x".into(), vec![])
            };
            cs.push(c);
            ws.extend(w);
        }
        if n != cols {
            ws.push("row".into());
        }
        v.push(L {
            t: row(g, cs, header),
            w: ws,
        });
        if header {
            let sep: Vec<String> = (0..cols)
                .map(|_| g.s(&["---", ":--", "--:", ":-:", "-----"]).to_string())
                .collect();
            v.push(l(if g.p(1, 4) && cols > 1 {
                sep.join(" | ")
            } else {
                format!("|{}|", sep.join("|"))
            }));
        }
    };
    make(g, cols, true);
    for _ in 0..g.below(4) {
        let n = match g.w(&[3, 1, 1, 1]) {
            0 => cols,
            1 => cols + 1,
            2 => (cols - 1).max(1),
            _ => g.usz(1, cols + 2),
        };
        make(g, n, false);
    }
    v
}

fn indented(v: Vec<L>, first: &str, rest: &str) -> Vec<L> {
    v.into_iter()
        .enumerate()
        .map(|(i, x)| {
            let p = if i == 0 { first } else { rest };
            L {
                t: if x.t.is_empty() {
                    p.trim_end().to_string()
                } else {
                    format!("{p}{}", x.t)
                },
                w: x.w,
            }
        })
        .collect()
}

fn block(g: &mut G, depth: usize, foots: &mut Vec<L>) -> Vec<L> {
    match g.w(&[8, 3, 2, 3, 1, 1, 2, 2, 2, 1, 1, 2, 1]) {
        0 => text(g, false),
        1 => table(g),
        2 => {
            let mut t = text(g, true);
            if g.coin() {
                t[0].t = format!("{} {}", "#".repeat(g.usz(1, 6)), t[0].t);
            } else {
                t.push(l(g.s(&["===", "---"])));
            }
            t
        }
        3 => {
            let f = g.s(&["~~~", "~~~ x", "````"]);
            let mut v = vec![l(f)];
            for _ in 0..g.usz(1, 3) {
                v.push(l(g.s(&[
                    "[u]",
                    "[a]: /u",
                    "[u]: /x",
                    "[Undef]: /y",
                    "*[u]: long",
                    "| a | b",
                    "x [no such thing] y",
                    "| a | b | c | d |",
                ])));
            }
            v.push(l(f.split(' ').next().unwrap()));
            v
        }
        4 => vec![l("Text"), l(""), l("    [u] | x"), l("    [u]: /u")],
        5 => {
            let x = g.s(&[
                "<div>\n[u] | x\n[Undef]: /x\n</div>",
                "<!-- [u] -->",
                "<!-- hongdown-proper-nouns: [u] -->",
            ]);
            x.lines().map(l).collect()
        }
        6 if depth > 0 => indented(blocks(g, depth - 1, foots), "> ", "> "),
        7 if depth > 0 => {
            let m = g.s(&["- ", "* ", "1. ", "10. "]);
            let inner = blocks(g, depth - 1, foots);
            indented(
                [vec![l("Item"), l("")], inner].concat(),
                m,
                &" ".repeat(m.len()),
            )
        }
        8 if depth > 0 => {
            let inner = indented(blocks(g, depth - 1, foots), "> ", "> ");
            [vec![l(g.s(&["> [!NOTE]", "> [!WARNING] Title"]))], inner].concat()
        }
        9 if depth > 0 => {
            let inner = blocks(g, depth - 1, foots);
            let t = text(g, true);
            [
                t,
                vec![l("")],
                indented([vec![l("Text"), l("")], inner].concat(), ": ", "  "),
            ]
            .concat()
        }
        10 if depth > 0 => {
            let t = indented(text(g, false), "- [x] ", "      ");
            t
        }
        11 => {
            // a note of its own
            let id = foots.len();
            let inner = if depth > 0 {
                blocks(g, depth - 1, &mut Vec::new())
            } else {
                text(g, false)
            };
            foots.push(l(""));
            foots.extend(indented(
                [text(g, false), vec![l("")], inner].concat(),
                &format!("[^f{id}]: "),
                "    ",
            ));
            vec![l(format!("Note[^f{id}]"))]
        }
        12 if depth == 2 => vec![l("*[HTML]: Long name")],
        _ => vec![l("Short")],
    }
}

fn blocks(g: &mut G, depth: usize, foots: &mut Vec<L>) -> Vec<L> {
    let mut v: Vec<L> = Vec::new();
    for i in 0..g.usz(1, 3) {
        if i > 0 {
            v.push(l(""));
            // so that blocks do not become one
            v.push(l("Between."));
            v.push(l(""));
        }
        v.extend(block(g, depth, foots));
    }
    v
}

fn silent(v: Vec<L>) -> Vec<L> {
    v.into_iter().map(|x| l(x.t)).collect()
}

fn document(g: &mut G) -> Case {
    let mut foots: Vec<L> = Vec::new();
    let mut v: Vec<L> = Vec::new();
    if g.p(1, 10) {
        v.extend([l("---"), l("title: [u]"), l("a: | b | c"), l("---"), l("")]);
    }
    let mut section_off = false;
    let mut off = false;
    for _ in 0..g.usz(1, 5) {
        // regions in which there are none
        let kind = if section_off {
            0
        } else {
            g.w(&[8, 1, 1, 1, 1])
        };
        let quiet = off || section_off;
        let notes = foots.len();
        let mut b = match kind {
            0 => blocks(g, 2, &mut foots),
            1 => {
                let mut x = vec![l("<!-- hongdown-disable -->"), l("")];
                x.extend(silent(blocks(g, 2, &mut Vec::new())));
                x.extend([l(""), l("<!-- hongdown-enable -->")]);
                x
            }
            2 => {
                // the directive is for the next block
                let mut x = vec![l("<!-- hongdown-disable-next-line -->")];
                if g.coin() {
                    x.push(l(""));
                }
                x.extend(silent(match g.below(3) {
                    0 => text(g, false),
                    1 => table(g),
                    _ => indented(table(g), "> ", "> "),
                }));
                x
            }
            3 if !off => {
                section_off = true;
                vec![l("<!-- hongdown-disable-next-section -->")]
            }
            4 if g.p(1, 3) && !section_off => {
                off = true;
                vec![l("<!-- hongdown-disable-file -->")]
            }
            _ => {
                let r = text(g, true);
                r.into_iter().chain([l("")]).collect()
            }
        };
        if kind == 0 && section_off {
            // headings would end it
            if b.iter()
                .any(|x| x.t.starts_with('#') || x.t.starts_with("===") || x.t == "---")
            {
                b = text(g, false);
                foots.truncate(notes);
            }
        }
        if quiet {
            b = silent(b);
        }
        v.extend(b);
        v.push(l(""));
        if g.p(1, 6) {
            section_off = section_off && off;
            let h = text(g, true).remove(0);
            v.extend([if off { l(h.t) } else { h }, l("---"), l("")]);
        } else {
            v.extend([l("Between."), l("")]);
        }
    }
    let foots = if off || section_off {
        silent(foots)
    } else {
        foots
    };
    v.extend(foots);
    v.extend([
        l(""),
        l("[d1]: /one"),
        l("[d 2]: </two>"),
        l(""),
        l("[^n1]: Note."),
        l(""),
    ]);
    if g.coin() && !v.iter().any(|x| x.t.starts_with("*[HTML]")) {
        v.extend([l("*[HTML]: Long name"), l("")]);
    }
    let html = v.iter().any(|x| x.t.starts_with("*[HTML]"));
    // an abbreviation is one only if it has a definition
    for x in &mut v {
        if !html && x.t.contains("[HTML]") {
            x.t = x.t.replace("[HTML]", "[d1]");
        }
    }
    judge(g, v)
}

fn tables(g: &mut G) -> Case {
    let mut v = table(g);
    for _ in 0..g.below(3) {
        v = match g.below(4) {
            0 => indented(v, "> ", "> "),
            1 => indented(v, "- ", "  "),
            2 => indented([vec![l("x"), l("")], v].concat(), "3. ", "   "),
            _ => indented(
                [vec![l("> [!TIP]")], indented(v, "> ", "> ")].concat(),
                "",
                "",
            ),
        };
    }
    if g.coin() {
        v = [vec![l("Text"), l("")], v].concat();
    }
    if g.p(1, 4) {
        v.extend([l(""), l("Text "), l("")]);
        v.extend(table(g));
    }
    v.extend([
        l(""),
        l("[d1]: /one"),
        l("[d 2]: </two>"),
        l(""),
        l("[^n1]: Note."),
        l(""),
        l("*[HTML]: Long name"),
        l(""),
    ]);
    judge(g, v)
}

fn judge(g: &mut G, v: Vec<L>) -> Case {
    let o = crate::opts::any(g);
    let d = v
        .iter()
        .map(|x| x.t.as_str())
        .collect::<Vec<_>>()
        .join("\n")
        + "\n";
    let s = show(&o, &d);
    note(&s);
    let mut want: Vec<(usize, String)> = v
        .iter()
        .enumerate()
        .flat_map(|(i, x)| x.w.iter().map(move |w| (i + 1, w.clone())))
        .collect();
    let r = hongdown::format_with_warnings(&d, &o)
        .unwrap_or_else(|e| panic!("format returned an error: {e}"));
    let mut got: Vec<(usize, String)> = r
        .warnings
        .iter()
        .map(|w| {
            let m = &w.message;
            let x = match m
                .strip_prefix("undefined reference link: [")
                .and_then(|x| x.strip_suffix(']'))
            {
                Some(x) => format!("ref {x}"),
                None if m.contains("table row") => "row".into(),
                None => m.clone(),
            };
            (w.line, x)
        })
        .collect();
    want.sort();
    got.sort();
    let res = if want != got {
        Err(format!("warnings {got:?}\nexpected {want:?}"))
    } else if fmt(&d, &o) != r.output {
        Err("the output differs with warnings".into())
    } else {
        Ok(())
    };
    Case::of(s, !want.is_empty(), res)
}
