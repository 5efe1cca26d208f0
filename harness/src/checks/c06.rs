use super::*;
use crate::docgen::*;
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check {
        id: "C06",
        rule: "the document has at least two footnotes, or one in a document with two sections",
        assumptions: &[
            "comrak decides which parts of input and output are footnotes",
            "every footnote is referenced outside footnotes, or from one that is",
        ],
        parts: vec![
            ("sections", sections, 90_000, 900_000),
            ("any", any, 40_000, 400_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            judge(&d, &fmt(&d, &o), &o)
        }),
    }
}

fn feet(n: &N) -> Vec<&N> {
    n.kids
        .iter()
        .filter(|k| k.tag.starts_with("footnote "))
        .collect()
}

/// Content of every definition by name.
fn contents(d: &str, o: &Options) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for f in feet(&parse(d, &fold_of(o))) {
        m.entry(f.tag.clone()).or_default().push(f.dump());
    }
    m
}

/// (section, name) of every reference outside footnotes, in document order.
fn refs(root: &N) -> Vec<(usize, String)> {
    let mut v = Vec::new();
    let mut sec = 0;
    for k in root.kids.iter().filter(|k| !k.tag.starts_with("footnote ")) {
        if k.tag == "h2" || k.tag == "h3" {
            sec += 1;
        }
        k.walk(&mut |n| {
            if let Some(r) = n.tag.strip_prefix("fnref ") {
                v.push((sec, r.to_string()));
            }
        });
    }
    v
}

fn names(n: &N) -> Vec<String> {
    n.find(&|n| n.tag.starts_with("fnref "))
        .into_iter()
        .map(|n| n.tag["fnref ".len()..].to_string())
        .collect()
}

fn judge(d: &str, out: &str, o: &Options) -> Result<(), String> {
    let err = |m: String| Err(format!("{m}\n--- output\n{out}"));
    let (a, b) = (contents(d, o), contents(out, o));
    for (k, v) in &a {
        match b.get(k) {
            None => return err(format!("{k} has no definition")),
            Some(w) if w.len() != 1 => return err(format!("{k} has {} definitions", w.len())),
            // Of several definitions with the same name the first counts.
            Some(w) if w[0] != v[0] => {
                return err(format!("{k} changes: {}", diff(&v[0], &w[0]).unwrap()));
            }
            _ => {}
        }
    }
    if let Some(k) = b.keys().find(|k| !a.contains_key(*k)) {
        return err(format!("{k} appears"));
    }
    let f = Fold::default();
    let (ri, ro) = (parse(d, &f), parse(out, &f));
    let (ra, rb) = (refs(&ri), refs(&ro));
    if ra != rb {
        return err(format!("references {ra:?} became {rb:?}"));
    }
    placed(&ro, out)
}

/// Where each definition stands: at the end of the section of the first reference, in order.
fn placed(root: &N, out: &str) -> Result<(), String> {
    let err = |m: String| Err(format!("{m}\n--- output\n{out}"));
    let n = out.lines().count();
    let mut section = vec![0; n + 2];
    for h in root.kids.iter().filter(|k| k.tag == "h2" || k.tag == "h3") {
        for s in section.iter_mut().skip(h.line) {
            *s += 1;
        }
    }
    let mut first: Vec<(String, usize)> = Vec::new();
    for (s, r) in refs(root) {
        if !first.iter().any(|x| x.0 == r) {
            first.push((r, s));
        }
    }
    let mut fs = feet(root);
    fs.sort_by_key(|f| f.line);
    // footnotes that only others refer to follow those that do
    let mut i = 0;
    while i < first.len() {
        if let Some(f) = fs.iter().find(|f| f.tag["footnote ".len()..] == first[i].0) {
            for m in names(f) {
                if !first.iter().any(|x| x.0 == m) {
                    let s = first[i].1;
                    first.push((m, s));
                }
            }
        }
        i += 1;
    }
    let mut by: BTreeMap<usize, Vec<(usize, Option<u64>, String)>> = BTreeMap::new();
    for f in &fs {
        let name = f.tag["footnote ".len()..].to_string();
        let Some(i) = first.iter().position(|x| x.0 == name) else {
            return err(format!("{} is not referenced", f.tag));
        };
        let got = section[f.line];
        if got != first[i].1 {
            return err(format!(
                "{} is first referenced in section {} but defined in section {got}",
                f.tag, first[i].1
            ));
        }
        let num = name.parse::<u64>().ok();
        by.entry(got).or_default().push((i, num, name));
        // only footnotes and link definitions follow it in its section
        for k in root.kids.iter().filter(|k| !k.tag.starts_with("footnote ")) {
            if k.line > f.line && section[k.line] == got {
                return err(format!(
                    "{} on line {} follows {} in its section",
                    k.tag, k.line, f.tag
                ));
            }
        }
    }
    for ds in by.values() {
        let numbers = ds.iter().filter(|d| d.1.is_some()).count();
        let key = |d: &(usize, Option<u64>, String)| match d.1 {
            Some(n) if numbers > 1 => (true, n, d.0),
            _ => (false, 0, d.0),
        };
        for w in ds.windows(2) {
            if key(&w[0]) > key(&w[1]) {
                return err(format!(
                    "footnotes {:?} and {:?} are out of order",
                    w[0].2, w[1].2
                ));
            }
        }
    }
    Ok(())
}

const NAMES: &[&str] = &[
    "1", "2", "3", "10", "note", "abc", "a-b", "9", "x1", "é", "100", "02",
];

/// Sections whose blocks refer to footnotes; the definitions stand anywhere.
fn sections(g: &mut G) -> Case {
    let mut o = crate::opts::common(g);
    if g.p(1, 3) {
        o.line_width = hongdown::LineWidth::new(g.usz(8, 100)).unwrap();
    }
    let mut all: Vec<&str> = Vec::new();
    for _ in 0..g.usz(1, 6) {
        let n = g.s(NAMES);
        if !all
            .iter()
            .any(|x| *x == n || x.parse::<u64>().is_ok() && x.parse::<u64>() == n.parse::<u64>())
        {
            all.push(n);
        }
    }
    let mut used: Vec<&str> = Vec::new();
    let mut blocks: Vec<String> = Vec::new();
    let ns = g.usz(1, 4);
    let words =
        |g: &mut G, used: &mut Vec<&'static str>, from: &[&'static str], max: usize| -> String {
            let mut v: Vec<String> = Vec::new();
            for _ in 0..g.usz(1, max) {
                let w = match g.w(&[8, 1, 1]) {
                    0 => g.s(PLAIN).to_string(),
                    1 => format!("[l{}](https://e.x/{})", g.usz(1, 3), g.usz(1, 1)),
                    _ => "*em*".to_string(),
                };
                if !from.is_empty() && g.p(1, 4) {
                    let i = g.usz(0, from.len() - 1);
                    used.push(from[i]);
                    v.push(format!("{w}[^{}]{}", from[i], g.s(&["", ".", ","])));
                } else {
                    v.push(w);
                }
            }
            v.join(" ")
        };
    for i in 0..ns {
        if i > 0 || g.coin() {
            let t = words(g, &mut used, &all, 3);
            blocks.push(format!("{} {t}", g.s(&["##", "##", "###", "#", "####"])));
        }
        for _ in 0..g.usz(0, 3) {
            let k = g.w(&[8, 2, 2, 1, 1]);
            let t = if k < 3 {
                words(g, &mut used, &all, 10)
            } else {
                String::new()
            };
            let b = match k {
                0 => t,
                1 => {
                    let u = words(g, &mut used, &all, 5);
                    format!("- {t}\n- {u}")
                }
                2 => format!("> {t}"),
                3 => {
                    let u = words(g, &mut used, &all, 2);
                    let v = words(g, &mut used, &all, 2);
                    format!("| a | b |\n|---|---|\n| {u} | {v} |")
                }
                _ => "```\n[^1]: not a footnote\n```".to_string(),
            };
            blocks.push(b);
        }
    }
    // footnotes may refer to later ones in the list
    let mut defs: Vec<String> = Vec::new();
    let mut seen = used.clone();
    for (i, n) in all.iter().enumerate() {
        if !seen.contains(n) {
            if g.coin() || i > 0 && defs.is_empty() {
                continue;
            }
            blocks.push(format!("end[^{n}]"));
            seen.push(n);
        }
        let mut inner = Vec::new();
        let rest: Vec<&'static str> = all[i + 1..]
            .iter()
            .map(|s| NAMES[NAMES.iter().position(|x| x == s).unwrap()])
            .collect();
        let from = if g.p(1, 5) { rest } else { Vec::new() };
        let mut t = words(g, &mut inner, &from, 12);
        if g.p(1, 4) {
            t.push_str(g.s(&[
                "\n\n    second paragraph",
                "\n\n    - a\n    - b",
                "\n\n    ~~~ js\n    x--y\n    ~~~",
                "\n    lazy line",
                "\n\n    > q",
            ]));
        }
        seen.extend(inner);
        defs.push(format!("[^{n}]: {t}"));
    }
    let k = defs.len();
    if g.coin() {
        blocks.extend(defs);
    } else {
        for d in defs {
            let at = g.usz(0, blocks.len());
            blocks.insert(at, d);
        }
    }
    let d = blocks.join("\n\n") + "\n";
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    Case::of(s, k >= 2 || (k == 1 && ns > 1), judge(&d, &out, &o))
}

fn any(g: &mut G) -> Case {
    let o = crate::opts::any(g);
    let mut c = full(&o);
    c.fnref = 12;
    c.footdef = 4;
    c.heading = 8;
    c.html = 0;
    c.abbr = 0;
    c.max_words = 15;
    c.rawhtml = 0;
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let k = contents(&d, &o).len();
    Case::of(s, k >= 2, judge(&d, &out, &o))
}
