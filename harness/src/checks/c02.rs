use super::*;

pub fn check() -> Check {
    Check {
        id: "C02",
        rule: "formatting changes the document, and the document has at least two blocks or two lines",
        assumptions: &[
            "the documents avoid what is listed under C02/C03 in known-findings.txt and DESIGN.md",
        ],
        parts: vec![
            ("structured", structured, 60_000, 900_000),
            ("options", options, 34_000, 500_000),
            ("prose", prose, 28_000, 400_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            idempotent(&fmt(&d, &o), &o)
        }),
    }
}

fn run(d: String, o: Options) -> Case {
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let non = out != d && d.trim().lines().count() > 1;
    Case::of(s, non, idempotent(&out, &o))
}

/// Any document, with the options that matter for text.
fn structured(g: &mut G) -> Case {
    let o = crate::opts::common(g);
    let d = any_doc(g, &o);
    run(d, o)
}

/// Any document, with every option.
fn options(g: &mut G) -> Case {
    let o = crate::opts::any(g);
    let d = any_doc(g, &o);
    run(d, o)
}

/// Long paragraphs at small widths, where wrapping decides.
fn prose(g: &mut G) -> Case {
    let mut o = crate::opts::common(g);
    o.line_width = hongdown::LineWidth::new(g.usz(8, 60)).unwrap();
    let mut c = full(&o);
    for f in ["code", "table", "html", "hr", "dl", "abbr"] {
        *c.get(f) = 0;
    }
    c.max_blocks = 3;
    let d = D::new(g, c).doc();
    run(d, o)
}
