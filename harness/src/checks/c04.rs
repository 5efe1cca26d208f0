use super::*;

pub fn check() -> Check {
    Check {
        id: "C04",
        rule: "the document has a code block or span that holds a fence character, markup, or something that a punctuation or case rule would change",
        assumptions: &["comrak decides which parts of input and output are code"],
        parts: vec![
            ("blocks", blocks, 90_000, 900_000),
            ("spans", spans, 60_000, 600_000),
            ("mixed", mixed, 40_000, 400_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            judge(&d, &fmt(&d, &o), &o)
        }),
    }
}

/// Code blocks (with info string) and code spans, in document order; footnotes sorted by name.
fn codes(d: &str, o: &Options) -> Vec<(String, String)> {
    let f = Fold {
        default_language: o.default_language.clone(),
        ..Fold::default()
    };
    parse(d, &f)
        .find(&|n| n.tag == "code" || n.tag.starts_with("codeblock "))
        .into_iter()
        .map(|n| {
            (
                n.tag.clone(),
                if n.tag == "code" {
                    n.text.replace('\n', " ")
                } else {
                    n.text.clone()
                },
            )
        })
        .collect()
}

fn judge(d: &str, out: &str, o: &Options) -> Result<(), String> {
    let (a, b) = (codes(d, o), codes(out, o));
    for (i, x) in a.iter().enumerate() {
        match b.get(i) {
            Some(y) if x == y => {}
            y => {
                return Err(format!(
                    "code {}: {x:?} became {y:?}\n--- output\n{out}",
                    i + 1
                ));
            }
        }
    }
    if b.len() > a.len() {
        return Err(format!(
            "additional code {:?}\n--- output\n{out}",
            b[a.len()]
        ));
    }
    fences(out, o)
}

/// Every fence of the output has the configured character and at least the configured length, and is longer than any
/// run of its character that could close it.
fn fences(out: &str, o: &Options) -> Result<(), String> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, out, &copts());
    for n in root.descendants() {
        let d = n.data.borrow();
        if let comrak::nodes::NodeValue::CodeBlock(c) = &d.value
            && c.fenced
        {
            let ch = c.fence_char as char;
            let run = |l: &str| l.trim_start().chars().take_while(|x| *x == ch).count();
            let longest = c
                .literal
                .lines()
                .filter(|l| run(l) > 0 && l.trim().chars().all(|x| x == ch))
                .map(run)
                .max()
                .unwrap_or(0);
            if c.fence_length <= longest {
                return Err(format!(
                    "a fence of {} is not longer than a line of {longest}\n--- output\n{out}",
                    c.fence_length
                ));
            }
            if c.fence_length < o.min_fence_length.get() {
                return Err(format!(
                    "a fence of {} is shorter than configured\n--- output\n{out}",
                    c.fence_length
                ));
            }
        }
    }
    Ok(())
}

fn run(d: String, o: Options) -> Case {
    let s = show(&o, &d);
    note(&s);
    let non = codes(&d, &o).iter().any(|(_, t)| {
        t.contains(['`', '~', '"', '\'', '*', '_', '[', '<', '#', '\\'])
            || t.contains("--")
            || t.contains("..")
    });
    let out = fmt(&d, &o);
    Case::of(s, non, judge(&d, &out, &o))
}

fn o(g: &mut G) -> Options {
    let mut o = crate::opts::any(g);
    if g.coin() {
        crate::opts::fences(g, &mut o);
    }
    o
}

/// Code blocks of any content, at every nesting level.
fn blocks(g: &mut G) -> Case {
    let o = o(g);
    let c = Cfg {
        code: 14,
        para: 4,
        quote: 3,
        alert: 2,
        bullets: 4,
        ordered: 4,
        dl: 3,
        footdef: 3,
        fnref: 4,
        heading: 2,
        wild_code: true,
        max_blocks: 5,
        max_words: 6,
        ..Cfg::zero()
    };
    let d = D::new(g, c).doc();
    run(d, o)
}

/// Paragraphs, headings, tables and links with code spans, at widths where wrapping decides.
fn spans(g: &mut G) -> Case {
    let mut o = o(g);
    if g.coin() {
        o.line_width = hongdown::LineWidth::new(g.usz(8, 60)).unwrap();
    }
    let c = Cfg {
        span: 25,
        para: 8,
        quote: 2,
        bullets: 2,
        ordered: 1,
        dl: 1,
        heading: 3,
        table: 3,
        emph: 4,
        link: 3,
        punct: 5,
        wild_code: true,
        max_blocks: 4,
        max_words: 20,
        no_apos: full(&o).no_apos,
        ..Cfg::zero()
    };
    let d = D::new(g, c).doc();
    run(d, o)
}

fn mixed(g: &mut G) -> Case {
    let o = o(g);
    let mut c = full(&o);
    c.code = 12;
    c.span = 12;
    c.wild_code = true;
    let d = D::new(g, c).doc();
    run(d, o)
}
