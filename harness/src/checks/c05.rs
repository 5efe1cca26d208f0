use super::*;
use crate::docgen::*;
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check {
        id: "C05",
        rule: "the document has at least two links or images, and at least one of them external",
        assumptions: &[
            "comrak decides which parts of input and output are links",
            "part 'sections' gives every external link a text of its own, which can be a label; links whose text cannot be a label, or is one already, are only in part 'any'",
        ],
        parts: vec![
            ("sections", sections, 45_000, 700_000),
            ("shared", shared, 35_000, 500_000),
            ("footnotes", footnotes, 25_000, 500_000),
            ("any", any, 45_000, 600_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            let out = fmt(&d, &o);
            same_links(&d, &out, &o)?;
            placed(&out)
        }),
    }
}

/// comrak expands references only up to the length of the document (cmark: at least 100,000 bytes), so short
/// documents are read with blank lines at their end.
fn padded(d: &str, f: &Fold) -> N {
    parse(&format!("{d}{}", "\n".repeat(3000)), f)
}

fn links(n: &N) -> Vec<String> {
    // Line breaks inside a link text are white space.
    n.find(&|n| n.tag.starts_with("link <") || n.tag.starts_with("image <"))
        .into_iter()
        .map(|n| n.dump())
        .collect()
}

/// The same links and images with the same text, destination and title, in the same order.
fn same_links(d: &str, out: &str, o: &Options) -> Result<(), String> {
    let f = fold_of(o);
    let (a, b) = (links(&padded(d, &f)), links(&padded(out, &f)));
    for (i, x) in a.iter().enumerate() {
        if b.get(i) != Some(x) {
            return Err(format!(
                "link {}: {x}became {}\n--- output\n{out}",
                i + 1,
                b.get(i).map(|s| s.as_str()).unwrap_or("nothing\n")
            ));
        }
    }
    match b.get(a.len()) {
        Some(x) => Err(format!("additional link: {x}\n--- output\n{out}")),
        None => Ok(()),
    }
}

/// A definition line as hongdown writes it: label and the rest.
fn definition(l: &str) -> Option<(String, String)> {
    let r = l.strip_prefix('[')?;
    if r.starts_with('^') {
        return None;
    }
    let i = r.find("]: ")?;
    Some((r[..i].to_string(), r[i + 3..].to_string()))
}

/// 1-based lines of the output that belong to code, so that they are not taken for definitions.
fn code_lines(root: &N, out: &str) -> Vec<bool> {
    let n = out.lines().count();
    let mut v = vec![false; n + 2];
    for c in root.find(&|n| n.tag.starts_with("codeblock ") || n.tag == "html") {
        for l in c.line..=(c.line + c.text.lines().count() + 1).min(n) {
            v[l] = true;
        }
    }
    v
}

struct Out {
    root: N,
    /// Section of each line: the number of level-2 and level-3 headings at or above it.
    section: Vec<usize>,
    /// (line, label, rest)
    defs: Vec<(usize, String, String)>,
}

fn read(out: &str) -> Out {
    let root = padded(out, &Fold::default());
    let n = out.lines().count();
    let mut section = vec![0; n + 2];
    for h in root.kids.iter().filter(|k| k.tag == "h2" || k.tag == "h3") {
        for s in section.iter_mut().skip(h.line) {
            *s += 1;
        }
    }
    let code = code_lines(&root, out);
    let defs = out
        .lines()
        .enumerate()
        .filter(|(i, _)| !code[i + 1])
        .filter_map(|(i, l)| definition(l).map(|(a, b)| (i + 1, a, b)))
        .collect();
    Out {
        root,
        section,
        defs,
    }
}

fn norm(l: &str) -> String {
    l.split_whitespace()
        .collect::<Vec<_>>()
        .join(" ")
        .to_lowercase()
        .to_uppercase()
}

/// Links in document order: the section, whether it is in a footnote, and the target.
fn uses(o: &Out) -> Vec<(usize, bool, String)> {
    let mut v = Vec::new();
    let mut sec = 0;
    for k in &o.root.kids {
        let foot = k.tag.starts_with("footnote ");
        if k.tag == "h2" || k.tag == "h3" {
            sec += 1;
        }
        let sec = if foot { o.section[k.line] } else { sec };
        k.walk(&mut |n| {
            if n.tag.starts_with("link <") || n.tag.starts_with("image <") {
                v.push((
                    sec,
                    foot,
                    n.tag
                        .trim_start_matches("image")
                        .trim_start_matches("link")
                        .to_string(),
                ))
            }
        });
    }
    v
}

/// What the document has without its definition lines.
fn without_defs(out: &str, o: &Out) -> N {
    let t: Vec<&str> = out
        .lines()
        .enumerate()
        .filter(|(i, _)| !o.defs.iter().any(|d| d.0 == i + 1))
        .map(|(_, l)| l)
        .collect();
    padded(&(t.join("\n") + "\n"), &Fold::default())
}

/// Every definition is there once, is used, and stands at the end of the section of its first use.
fn placed(out: &str) -> Result<(), String> {
    let o = read(out);
    let err = |m: String| Err(format!("{m}\n--- output\n{out}"));
    let lines: Vec<&str> = out.lines().collect();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let us = uses(&o);
    let mut by_section: BTreeMap<usize, Vec<(usize, Option<u64>, &str)>> = BTreeMap::new();
    for (line, label, _) in &o.defs {
        if let Some(l) = seen.insert(norm(label), *line) {
            return err(format!(
                "label {label:?} is defined on lines {l} and {line}"
            ));
        }
        // what uses this label: the links that are gone without the definition
        let t: Vec<&str> = lines
            .iter()
            .enumerate()
            .filter(|(i, _)| i + 1 != *line)
            .map(|(_, l)| *l)
            .collect();
        let w = uses(&read(&(t.join("\n") + "\n")));
        let mut j = 0;
        let mut first: Option<(usize, bool, usize)> = None;
        for (i, u) in us.iter().enumerate() {
            if w.get(j) == Some(u) {
                j += 1;
            } else if first.is_none_or(|f| (u.0, u.1) < (f.0, f.1)) {
                first = Some((u.0, u.1, i));
            }
        }
        let Some((want, foot, i)) = first else {
            return err(format!("definition {label:?} on line {line} is not used"));
        };
        let got = o.section[*line];
        if want != got {
            return err(format!(
                "label {label:?} is first used in section {want} but defined in section {got}"
            ));
        }
        let num = label.strip_prefix('#').unwrap_or(label).parse::<u64>().ok();
        // those that only footnotes use have an order of their own
        let defs = by_section.entry(got).or_default();
        if !foot {
            defs.push((i, num, label));
        }
    }
    // nothing but definitions and footnotes after the first definition of a section
    for (s, ds) in &by_section {
        let first = o.defs.iter().find(|d| o.section[d.0] == *s).unwrap().0;
        for k in o
            .root
            .kids
            .iter()
            .filter(|k| !k.tag.starts_with("footnote "))
        {
            if k.line > first && o.section[k.line] == *s {
                return err(format!(
                    "{} on line {} follows the definitions of section {s}",
                    k.tag, k.line
                ));
            }
        }
        let numbers = ds.iter().filter(|d| d.1.is_some()).count();
        let key = |d: &(usize, Option<u64>, &str)| -> (bool, u64, usize) {
            match d.1 {
                Some(n) if numbers > 1 => (true, n, d.0),
                _ => (false, 0, d.0),
            }
        };
        for w in ds.windows(2) {
            if key(&w[0]) > key(&w[1]) {
                return err(format!(
                    "definitions {:?} and {:?} are out of order",
                    w[0].2, w[1].2
                ));
            }
        }
    }
    Ok(())
}

/// One link as generated.
#[derive(Clone)]
struct L {
    src: String,
    /// How it has to look without definitions: a link (Some) or no link (None).
    inline: Option<String>,
}

struct Gen {
    n: usize,
    labels: Vec<(String, String)>,
    made: Vec<L>,
    external: usize,
}

fn dest(g: &mut G, n: usize, external: bool) -> String {
    let t = g.s(&["", "x", "a_b", "?q=1&r=2", "(p)", "a/b/", "x--y", "%20"]);
    if external {
        let p = g.s(&["https://e.x/", "http://e.x/", "https://ex.org/a_b/"]);
        format!("{p}{n}{t}")
    } else {
        let p = g.s(&[
            "./f",
            "#s",
            "/abs/",
            "img",
            "../u",
            "mailto:a@b.c?n=",
            "ftp://x/",
            "HTTPS://e.x/",
            "httpd/",
            "http:x",
            "https-",
            "//e.x/",
            "x?u=https://e.x/",
            "http:/",
            "www.e.x/",
        ]);
        format!("{p}{n}{t}")
    }
}

impl Gen {
    /// A link text that no other link has.
    fn text(&mut self, g: &mut G) -> String {
        self.n += 1;
        let n = self.n;
        let w = g.s(&[
            "word",
            "The Alpha",
            "漢字",
            "*em*",
            "**st** x",
            "`co de`",
            "it's",
            "a -- b",
            "wait...",
            "C++",
            "a  b",
            "\\*x\\*",
            "<b>x</b>",
            "x &amp; y",
        ]);
        if g.coin() {
            format!("{w} {n}")
        } else {
            format!("l{n} {w}")
        }
    }
    fn title(&mut self, g: &mut G) -> (String, String) {
        let t = g.s(&["", "", "", "T", "a title", "it's", "x -- y...", "漢字"]);
        if t.is_empty() {
            return (String::new(), String::new());
        }
        let q = g.s(&["\"\"", "()"]);
        (format!(" {}{t}{}", &q[..1], &q[1..]), t.to_string())
    }
    fn link(&mut self, g: &mut G) -> String {
        let l = match g.w(&[5, 3, 4, 2, 2, 1]) {
            0 | 1 => {
                let ext = g.w(&[5, 3]) == 0;
                let t = self.text(g);
                let d = dest(g, self.n, ext);
                let (ts, tt) = self.title(g);
                if ext {
                    self.external += 1;
                }
                L {
                    src: format!("[{t}]({d}{ts})"),
                    inline: if ext {
                        None
                    } else {
                        Some(format!("link <{d}> {tt:?}"))
                    },
                }
            }
            2 if !self.labels.is_empty() => {
                let (l, _) = g.pick(&self.labels).clone();
                self.external += 1;
                let src = match g.w(&[3, 2, 3, 1]) {
                    0 => format!("[{l}]"),
                    1 => format!("[{l}][]"),
                    2 => {
                        let t = self.text(g);
                        format!("[{t}][{l}]")
                    }
                    _ => {
                        let t = self.text(g);
                        format!("![{t}][{l}]")
                    }
                };
                L { src, inline: None }
            }
            2 | 3 => {
                let d = format!("https://auto.e.x/{}", self.n);
                self.n += 1;
                L {
                    inline: Some(format!("link <{d}> \"\"")),
                    src: format!("<{d}>"),
                }
            }
            4 => {
                let t = self.text(g);
                let d = {
                    let e = g.coin();
                    dest(g, self.n, e)
                };
                let (ts, tt) = self.title(g);
                L {
                    src: format!("![{t}]({d}{ts})"),
                    inline: Some(format!("image <{d}> {tt:?}")),
                }
            }
            _ => {
                self.n += 1;
                let d = format!("./i{}", self.n);
                L {
                    src: format!("[rel {}](<{d} x>)", self.n),
                    inline: Some(format!("link <{d} x> \"\"")),
                }
            }
        };
        let s = l.src.clone();
        self.made.push(l);
        s
    }
    fn words(&mut self, g: &mut G, max: usize) -> String {
        let mut v: Vec<String> = Vec::new();
        for _ in 0..g.usz(1, max) {
            if g.p(1, 4) {
                let l = self.link(g);
                // punctuation right after, but nothing that could continue the link
                v.push(format!("{l}{}", g.s(&["", "", ",", ".", "!", "?", ";"])));
            } else {
                v.push(g.s(PLAIN).to_string());
            }
        }
        v.join(" ")
    }
    fn block(&mut self, g: &mut G) -> Vec<String> {
        match g.w(&[8, 2, 2, 1, 1, 1]) {
            0 => vec![self.words(g, 14)],
            1 => {
                let m = g.s(&["- ", "1. ", "* "]);
                (0..g.usz(1, 3))
                    .map(|_| format!("{m}{}", self.words(g, 8)))
                    .collect()
            }
            2 => {
                let mut v = Vec::new();
                for i in 0..g.usz(1, 2) {
                    if i > 0 {
                        v.push(">".into());
                    }
                    v.push(format!("> {}", self.words(g, 8)));
                }
                v
            }
            3 => {
                let mut v = vec!["| a | b |".to_string(), "|---|---|".to_string()];
                for _ in 0..g.usz(1, 2) {
                    let (a, b) = (self.words(g, 2), self.words(g, 2));
                    v.push(format!("| {a} | {b} |"));
                }
                v
            }
            4 => vec![
                g.s(&[
                    "```\n[x]: https://in.code/\n```",
                    "***",
                    "```\n[not](https://a.link/)\n```",
                ])
                .to_string(),
            ],
            _ => {
                let t = self.words(g, 4);
                vec![format!("{} {t}", g.s(&["####", "#####", "# "]).trim())]
            }
        }
    }
}

fn make(g: &mut G, o: &Options, distinct: bool, notes: bool) -> Case {
    let mut m = Gen {
        n: 0,
        labels: Vec::new(),
        made: Vec::new(),
        external: 0,
    };
    let mut defs = Vec::new();
    for _ in 0..g.usz(0, 4) {
        let l = g.s(&[
            "1",
            "2",
            "10",
            "Some label",
            "#3",
            "label",
            "漢 字",
            "3",
            "x-y",
            "Api ref",
            "#20",
            "it's",
        ]);
        if m.labels.iter().any(|x| norm(&x.0) == norm(l)) {
            continue;
        }
        let ext = g.p(3, 4);
        let d = dest(g, 900 + m.labels.len(), ext);
        let (ts, _) = m.title(g);
        defs.push(format!("[{l}]: {d}{ts}"));
        m.labels.push((l.to_string(), d));
    }
    let mut blocks: Vec<Vec<String>> = Vec::new();
    for i in 0..g.usz(1, 4) {
        if i > 0 || g.coin() {
            let t = m.words(g, 4);
            blocks.push(vec![format!("{} {t}", g.s(&["##", "##", "###", "#"]))]);
        }
        for _ in 0..g.usz(0, 3) {
            if !distinct && g.p(1, 3) && !m.made.is_empty() {
                // a link that is there already
                let l = g.pick(&m.made).clone();
                m.made.push(l.clone());
                blocks.push(vec![format!("again {} and", l.src)]);
                continue;
            }
            blocks.push(m.block(g));
        }
    }
    if notes {
        footnote_blocks(g, &mut m, &mut blocks);
    }
    // definitions in one place, or each somewhere
    if !defs.is_empty() {
        if g.coin() {
            let at = g.usz(0, blocks.len());
            blocks.insert(at, defs);
        } else {
            for d in defs {
                let at = g.usz(0, blocks.len());
                blocks.insert(at, vec![d]);
            }
        }
    }
    let d = blocks
        .iter()
        .map(|b| b.join("\n"))
        .collect::<Vec<_>>()
        .join("\n\n")
        + "\n";
    let s = show(o, &d);
    note(&s);
    let out = fmt(&d, o);
    let r = same_links(&d, &out, o).and_then(|_| placed(&out)).and_then(|_| {
        // Without the definitions, exactly the links that were inline and must stay so are left.
        let left: Vec<String> = without_defs(&out, &read(&out))
            .find(&|n| n.tag.starts_with("link <") || n.tag.starts_with("image <"))
            .into_iter()
            .map(|n| n.tag.clone())
            .collect();
        let mut want: Vec<String> = m.made.iter().filter_map(|l| l.inline.clone()).collect();
        let mut left2 = left.clone();
        want.sort();
        left2.sort();
        if want != left2 {
            let extra: Vec<_> = left2.iter().filter(|x| !want.contains(x)).collect();
            let missing: Vec<_> = want.iter().filter(|x| !left2.contains(x)).collect();
            return Err(format!("written inline but should not be: {extra:?}; should be inline but is not: {missing:?}\n--- output\n{out}"));
        }
        Ok(())
    });
    Case::of(s, m.made.len() >= 2 && m.external >= 1, r)
}

fn opt(g: &mut G) -> Options {
    let mut o = crate::opts::common(g);
    o.heading_sentence_case = false;
    if g.coin() {
        o.line_width = hongdown::LineWidth::new(g.usz(8, 100)).unwrap();
    }
    o
}

/// Sections of paragraphs, lists, quotes, tables and headings; every external link has its own text.
fn sections(g: &mut G) -> Case {
    let o = opt(g);
    make(g, &o, true, false)
}

/// The same, and links that occur more than once.
fn shared(g: &mut G) -> Case {
    let o = opt(g);
    make(g, &o, false, false)
}

/// Footnotes with links, some of which the text or another footnote has too.
fn footnotes(g: &mut G) -> Case {
    let o = opt(g);
    let distinct = g.p(1, 3);
    make(g, &o, distinct, true)
}

fn footnote_blocks(g: &mut G, m: &mut Gen, blocks: &mut Vec<Vec<String>>) {
    let end = g.coin();
    for k in 0..g.usz(1, 4) {
        let name = g.s(&["a", "note", "1", "2"]);
        let name = format!("{name}{k}");
        let before = m.made.clone();
        let t = if g.p(1, 3) && !before.is_empty() {
            let l = g.pick(&before).clone();
            m.made.push(l.clone());
            format!("again {} there", l.src)
        } else {
            let l = m.link(g);
            format!("{} {l} {}", g.s(PLAIN), g.s(PLAIN))
        };
        // references, the first of which decides where the footnote goes
        let mut at = blocks.len();
        for _ in 0..g.usz(1, 2) {
            let i = g.usz(0, blocks.len());
            blocks.insert(i, vec![format!("See[^{name}] here")]);
            at = if end { blocks.len() } else { i + 1 };
        }
        blocks.insert(at, vec![format!("[^{name}]: {t}")]);
    }
}

/// Links of any form anywhere: the links of the document stay, each label is defined once and is used.
fn any(g: &mut G) -> Case {
    let o = crate::opts::any(g);
    let mut c = full(&o);
    c.link = 14;
    c.reflink = 10;
    c.image = 6;
    c.auto = 3;
    c.max_words = 12;
    c.heading = 8;
    c.html = 0;
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let n = links(&parse(&d, &Fold::default())).len();
    let r = same_links(&d, &out, &o);
    Case::of(s, n >= 2, r)
}
