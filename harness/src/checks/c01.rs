use super::*;
use crate::docgen::*;

pub fn check() -> Check {
    Check {
        id: "C01",
        rule: "the document is not empty and formatting changes it",
        assumptions: &[
            "block nesting up to 40 levels, documents up to about 20 kB",
            "a run without progress for 240 s counts as no answer, not as a violation",
        ],
        parts: vec![
            ("tokens", tokens, 100_000, 2_500_000),
            ("lines", lines, 80_000, 2_000_000),
            ("mutated", mutated, 40_000, 1_000_000),
            ("structured", structured, 24_000, 400_000),
            ("deep", deep, 2_000, 60_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            total(&d, &o).1
        }),
    }
}

fn total(d: &str, o: &Options) -> (String, Result<(), String>) {
    let a = match hongdown::format(d, o) {
        Ok(a) => a,
        Err(e) => return (String::new(), Err(format!("format returned an error: {e}"))),
    };
    let r = (|| {
        let b = hongdown::format_with_warnings(d, o)
            .map_err(|e| format!("format_with_warnings returned an error: {e}"))?;
        if a != b.output {
            return Err(format!(
                "format and format_with_warnings differ\n--- format\n{a}\n--- format_with_warnings\n{}",
                b.output
            ));
        }
        let c = hongdown::format_with_warnings(d, o)
            .map_err(|e| format!("format_with_warnings returned an error: {e}"))?;
        if c.output != b.output {
            return Err(format!(
                "two runs differ\n--- first\n{}\n--- second\n{}",
                b.output, c.output
            ));
        }
        let w = |r: &hongdown::FormatResult| {
            r.warnings
                .iter()
                .map(|w| (w.line, w.message.clone()))
                .collect::<Vec<_>>()
        };
        if w(&b) != w(&c) {
            return Err(format!(
                "two runs give different warnings: {:?} and {:?}",
                w(&b),
                w(&c)
            ));
        }
        let n = d.replace("\r\n", "\n").split(['\n', '\r']).count();
        for (l, m) in w(&b) {
            if l == 0 || l > n {
                return Err(format!("warning {m:?} at line {l} of {n}"));
            }
        }
        if d.is_empty() && !a.is_empty() {
            return Err(format!("the empty document becomes {a:?}"));
        }
        Ok(())
    })();
    (a, r)
}

fn run(d: String, o: Options) -> Case {
    let s = show(&o, &d);
    note(&s);
    let (a, r) = total(&d, &o);
    let non = !d.trim().is_empty() && a != d;
    Case::of(s, non, r)
}

const PIECES: &[&str] = &[
    " ",
    "\n",
    "\n\n",
    "\t",
    "\r\n",
    "\r",
    "  \n",
    "\\\n",
    "    ",
    "> ",
    ">",
    "- ",
    "* ",
    "+ ",
    "1. ",
    "2) ",
    "99. ",
    "0. ",
    "123456789. ",
    ":",
    ":   ",
    ": ",
    "# ",
    "## ",
    "###### ",
    "####### ",
    "===",
    "---",
    "***",
    "___",
    "~~~",
    "```",
    "````",
    "| a | b |",
    "|---|:-:|",
    "|",
    "\\|",
    "[",
    "]",
    "(",
    ")",
    "![",
    "](",
    "[]",
    "][",
    "]: ",
    "[^1]",
    "[^1]: ",
    "[^",
    "[a]: http://x.y",
    "[a]",
    "[a][b]",
    "*[X]: y",
    "<!-- hongdown-disable -->",
    "<!-- hongdown-enable -->",
    "<!-- hongdown-disable-file -->",
    "<!-- hongdown-disable-next-line -->",
    "<!-- hongdown-disable-next-section -->",
    "<!-- hongdown-proper-nouns: Foo, Bar -->",
    "<!-- hongdown-common-nouns: a -->",
    "<!--",
    "-->",
    "<div>",
    "</div>",
    "<br>",
    "<b",
    "<?",
    "?>",
    "<![CDATA[",
    "<script>",
    "&amp;",
    "&#0;",
    "&",
    "*",
    "**",
    "_",
    "__",
    "`",
    "``",
    "\"",
    "'",
    "--",
    "...",
    "-",
    ".",
    "!",
    "\\",
    "a",
    "word",
    "Hello",
    "http://e.x",
    "<http://e.x>",
    "é",
    "漢字",
    "e\u{301}",
    "👩‍👩‍👧",
    "\u{200b}",
    "\u{feff}",
    "\u{0}",
    "\u{a0}",
    "\u{2028}",
    "ß",
    "İ",
    "ﬁ",
    "[ ] ",
    "[x] ",
    "[!NOTE]",
    "> [!TIP] x",
    "$",
    "{#id}",
    "^",
    "~",
    "=",
    "0",
    "\u{7f}",
    "\u{1b}",
    "\u{fffd}",
    "𝒳",
    "\u{202e}",
];

/// Any valid value of every option.
fn wild(g: &mut G) -> Options {
    if g.coin() {
        crate::opts::wild(g)
    } else {
        crate::opts::any(g)
    }
}

/// Pieces of Markdown syntax and odd characters, in any order.
fn tokens(g: &mut G) -> Case {
    let o = wild(g);
    let n = g.usz(0, 60);
    let mut d = String::new();
    for _ in 0..n {
        if g.p(1, 40) {
            let c = char::from_u32(g.below(0x3000) as u32).unwrap_or('x');
            d.push(c);
        } else {
            d.push_str(g.s(PIECES));
        }
    }
    run(d, o)
}

/// Lines that each begin with block structure.
fn lines(g: &mut G) -> Case {
    let o = wild(g);
    let n = g.usz(0, 14);
    let mut d = String::new();
    for _ in 0..n {
        for _ in 0..g.usz(0, 4) {
            d.push_str(g.s(&[
                "> ", "- ", "1. ", "    ", "  ", "   ", ":   ", "[^1]: ", "\t", ">", "10) ",
                "* [ ] ", "# ",
            ]));
        }
        for _ in 0..g.usz(0, 5) {
            d.push_str(match g.w(&[6, 3, 2, 2, 2]) {
                0 => g.s(PLAIN),
                1 => g.s(HOSTILE),
                2 => g.s(UNI),
                3 => g.s(PUNCT),
                _ => g.s(PIECES),
            });
            if g.p(2, 3) {
                d.push(' ');
            }
        }
        d.push_str(g.s(&["\n", "\n", "\n", "\n\n", "\r\n", "\\\n"]));
    }
    run(d, o)
}

/// A well-formed document with a few random edits.
fn mutated(g: &mut G) -> Case {
    let o = wild(g);
    let mut c: Vec<char> = any_doc(g, &o).chars().collect();
    c.truncate(3000);
    for _ in 0..g.usz(1, 5) {
        let i = g.usz(0, c.len());
        match g.w(&[3, 3, 2, 2]) {
            0 => {
                let j = (i + g.usz(1, 12)).min(c.len());
                c.drain(i..j);
            }
            1 => {
                let t: Vec<char> = g.s(PIECES).chars().collect();
                c.splice(i..i, t);
            }
            2 => {
                let j = (i + g.usz(1, 60)).min(c.len());
                let t = c[i..j].to_vec();
                let k = g.usz(0, c.len());
                c.splice(k..k, t);
            }
            _ => c.truncate(i),
        }
    }
    run(c.into_iter().collect(), o)
}

fn structured(g: &mut G) -> Case {
    let o = wild(g);
    let d = any_doc(g, &o);
    run(d, o)
}

/// Deep nesting and long runs of one character.
fn deep(g: &mut G) -> Case {
    let o = wild(g);
    let n = g.usz(1, 40);
    let mut d = String::new();
    if g.coin() {
        let mut indent = String::new();
        for i in 0..n {
            let m = g.s(&["- ", "> ", "1. ", "- ", "* "]);
            d.push_str(&indent);
            d.push_str(m);
            d.push_str(g.s(PLAIN));
            d.push('\n');
            indent.push_str(if m == "> " { "> " } else { &"    "[..m.len()] });
            let _ = i;
        }
    } else {
        let m = g.s(&[
            "> ", "- ", "[", "*", "_ ", "(", "![", "`", "\\", "#", "|", ">", "1. ", "**a ", "<b>",
            "\"", "'", "漢", "\u{301}", "&",
        ]);
        d = m.repeat(n * g.usz(1, 25));
        d.push_str(g.s(&["a", "", "\n", "\n---\n", "]", "](x)"]));
    }
    run(d, o)
}
