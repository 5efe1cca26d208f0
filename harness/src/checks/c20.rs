use super::*;
use crate::opts;
use comrak::nodes::NodeValue;

pub fn check() -> Check {
    Check {
        id: "C20",
        rule: "there is front matter, HTML, an entity, an abbreviation or a directive among other blocks",
        assumptions: &[
            "comrak decides what is an HTML block",
            "a line break in an inline tag is a space: it may become one, and the other way round",
            "lines of only spaces in an HTML block may come out empty",
        ],
        parts: vec![
            ("top", top, 40_000, 1_000_000),
            ("nested", nested, 20_000, 500_000),
            ("inline", inline, 30_000, 800_000),
            ("directives", directives, 15_000, 400_000),
        ],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

const TEXT: &[&str] = &[
    "don't \"touch\" -- this...",
    "'x' ---",
    "*a* _b_ **c**",
    "[l](https://example.com/a)",
    "# no heading",
    "- no item",
    "| a |b|",
    "    four",
    "\ttab",
    "two  spaces",
    "trailing  ",
    "back\\slash",
    "&amp; &copy;",
    "한국어",
    "~~~",
    "```",
    "[a]: /u",
    "<b>x</b>",
    "Setext",
    "1. one",
    "> q",
    "===",
    "[^1]",
    "<!-- in -->",
    "a very long line that goes on and on far beyond any sensible width, because HTML must not be wrapped at all, not even here",
];

/// A block of HTML: its lines, and whether a line of text may follow at once.
fn html(g: &mut G, id: usize) -> (Vec<String>, bool) {
    let mut v: Vec<String> = Vec::new();
    let n = g.below(4);
    let blank = g.p(1, 3);
    let mut body = |g: &mut G, blank: bool| -> Vec<String> {
        (0..n)
            .map(|_| {
                if blank && g.p(1, 3) {
                    String::new()
                } else {
                    format!("{}{}", g.s(&["", "", "  ", "      ", "\t"]), g.s(TEXT))
                }
            })
            .collect()
    };
    let mut closed = true;
    match g.below(9) {
        0 => {
            // no HTML comment in a comment
            v.push(format!("<!-- c{id}"));
            v.extend(
                body(g, blank)
                    .into_iter()
                    .map(|l| l.replace("<!-- in -->", "in").replace("--", "-")),
            );
            v.push(g.s(&["-->", "end -->", "--> x"]).into());
        }
        1 => v.push(format!(
            "<!-- {} c{id} -->",
            g.s(TEXT).replace("--", "-").replace("<!- in ->", "in")
        )),
        2 => {
            let t = g.s(&["script", "style", "pre", "textarea"]);
            v.push(format!("<{t} id=\"c{id}\">"));
            v.extend(body(g, blank));
            v.push(format!("</{t}>"));
        }
        3 => {
            v.push(format!("<?php c{id}"));
            v.extend(body(g, blank));
            v.push("?>".into());
        }
        4 => v.push(format!("<!DOCTYPE c{id}>")),
        5 => {
            v.push(format!("<![CDATA[ c{id}"));
            v.extend(body(g, blank));
            v.push("]]>".into());
        }
        6 => {
            let t = g.s(&["div", "details", "table", "p", "DIV", "section", "h1"]);
            v.push(format!("<{t} id='c{id}' title='a \"b\" -- c...'>"));
            v.extend(body(g, false));
            if g.coin() {
                v.push(format!("</{t}>"));
            }
            closed = false;
        }
        7 => {
            v.push(format!("</div  data-c{id}>"));
            v[0] = format!("<hr class=\"c{id}\"/>");
            v.extend(body(g, false));
            closed = false;
        }
        _ => {
            v.push(format!(
                "<{} data-x=\"c{id}\">",
                g.s(&[
                    "img src=\"a--b.png\"",
                    "a href=\"https://example.com/\"",
                    "x-y",
                    "span"
                ])
            ));
            v.extend(body(g, false));
            closed = false;
        }
    }
    if g.p(1, 5) {
        let n = g.usz(1, 3);
        v[0].insert_str(0, &" ".repeat(n));
    }
    (v, closed)
}

fn front_matter(g: &mut G) -> Vec<String> {
    let lines = &[
        "title: \"A -- B...\"",
        "tags: [a, b]",
        "- x",
        "* y",
        "",
        "  nested: 'q'",
        "# comment",
        "x: |",
        "    code",
        "[a]: /u",
        "url: https://example.com/",
        "date: 2024-01-01",
        "trailing:  ",
        "long: a very long line that is much longer than the usual eighty columns of a document, and not wrapped",
        "***",
        "한: 국",
    ];
    let mut v = vec!["---".to_string()];
    v.push("title: x".into());
    for _ in 0..g.below(5) {
        v.push(g.s(lines).into());
    }
    v.push("---".into());
    v
}

fn words(g: &mut G) -> String {
    let n = g.usz(1, 12);
    (0..n)
        .map(|_| {
            g.s(&[
                "some",
                "text",
                "of",
                "the",
                "paragraph",
                "and",
                "more",
                "words",
                "here",
            ])
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Whether the lines stand in the output, between blank lines.
fn stands(out: &str, block: &str) -> usize {
    format!("\n\n{}\n\n", out.trim_end())
        .matches(&format!("\n\n{block}\n\n"))
        .count()
}

fn clean(lines: &[String]) -> String {
    lines.join("\n")
}

fn top(g: &mut G) -> Case {
    let mut o = opts::common(g);
    if g.p(1, 6) {
        o.heading_sentence_case = true;
    }
    let mut d: Vec<String> = Vec::new();
    let mut kept: Vec<String> = Vec::new();
    // tokens of all blocks in order
    let mut order: Vec<String> = Vec::new();
    let mut fm = None;
    if g.p(1, 3) {
        let f = front_matter(g);
        d.extend(f.clone());
        d.extend(vec![String::new(); g.usz(1, 2)]);
        fm = Some(clean(&f));
    }
    let mut indents = false;
    for i in 0..g.usz(1, 6) {
        let t = format!("c{i}");
        let indents = &mut indents;
        let mut closed = true;
        let (mut b, keep): (Vec<String>, bool) = match g.w(&[8, 2, 3, 2, 1, 1, 1, 1]) {
            0 => {
                let (mut v, c) = html(g, i);
                closed = c;
                if *indents {
                    // it would be a part of the block before
                    v[0] = v[0].trim_start().into();
                }
                (v, true)
            }
            1 => (
                vec![format!(
                    "*[C{i}{}]: {}",
                    g.s(&["", " x", "--"]),
                    g.s(&[
                        "Hyper Text Markup Language",
                        "\"Quoted\" -- it's...",
                        "https://example.com/",
                        "*emphasis* and  two spaces",
                        "한국어"
                    ])
                )],
                true,
            ),
            2 => (vec![format!("{t} {}", words(g))], false),
            3 => (
                vec![format!(
                    "{t} [link {i}](https://example.com/{i}) {}",
                    words(g)
                )],
                false,
            ),
            4 => (
                vec![format!("{} {t} heading", g.s(&["#", "##", "###"]))],
                false,
            ),
            5 => {
                *indents = true;
                (vec![format!("- {t} item")], false)
            }
            6 => (vec![format!("> {t} quote")], false),
            _ => {
                *indents = true;
                (
                    vec![
                        format!("{t} note[^{i}]"),
                        String::new(),
                        format!("[^{i}]: The note {}", words(g)),
                    ],
                    false,
                )
            }
        };
        if keep {
            *indents = false;
            kept.push(clean(&b));
        }
        let t = if b[0].starts_with("*[C") {
            format!("C{i}")
        } else {
            t
        };
        order.push(t);
        if !(keep && closed && b.len() > 1 && i > 0 && g.p(1, 20)) {
            b.push(String::new());
            if g.p(1, 8) {
                b.push(String::new());
            }
        } else {
            b.push(format!("after c{i}x {}", words(g)));
            b.push(String::new());
            order.push(format!("c{i}x"));
        }
        d.extend(b);
    }
    let mut d = d.join("\n");
    d.truncate(d.trim_end().len());
    d.push('\n');
    // trailing spaces of the last line do not matter
    let s = format!("{}\n{d}", opts::show(&o));
    note(&s);
    let out = fmt(&d, &o);
    let r = (|| {
        if let Some(f) = &fm
            && !(out == format!("{f}\n") || out.starts_with(&format!("{f}\n\n")))
        {
            return Err("the front matter is not at the start as it was".to_string());
        }
        for k in &kept {
            let mut n = stands(&out, k.trim_end());
            if k.trim_end() != k {
                n += stands(&out, k);
            }
            if n != 1 {
                return Err(format!("{n} times in the output:\n{k}"));
            }
        }
        let lower = out.to_ascii_lowercase();
        let mut at = 0;
        for t in &order {
            // the token is followed by no digit or letter
            let Some(p) = lower[at..]
                .match_indices(t.to_lowercase().as_str())
                .map(|(i, _)| i)
                .find(|i| {
                    !lower[at + i + t.len()..].starts_with(|c: char| c.is_ascii_alphanumeric())
                })
            else {
                return Err(format!("block {t} is not after the one before"));
            };
            at += p + t.len();
        }
        Ok(())
    })();
    Case::of(
        s,
        !kept.is_empty() && order.len() > 1,
        r.map_err(|e| format!("{e}\n--- output\n{out}")),
    )
}

/// Contents of the HTML blocks.
fn blocks(d: &str) -> Vec<String> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, d, &copts());
    root.descendants()
        .filter_map(|n| match &n.data.borrow().value {
            NodeValue::HtmlBlock(h) => Some(
                h.literal
                    .lines()
                    .map(|l| if l.trim().is_empty() { "" } else { l })
                    .collect::<Vec<_>>()
                    .join("\n")
                    .trim_end()
                    .to_string(),
            ),
            _ => None,
        })
        .collect()
}

fn nested(g: &mut G) -> Case {
    let o = opts::common(g);
    let mut d = String::new();
    let mut n = 0;
    for i in 0..g.usz(1, 3) {
        let mut v: Vec<String> = Vec::new();
        for j in 0..g.usz(1, 3) {
            if g.coin() {
                let mut h = html(g, i * 10 + j).0;
                if j == 0 {
                    h[0] = h[0].trim_start().into();
                }
                v.extend(h);
                n += 1;
            } else {
                v.push(words(g));
            }
            v.push(String::new());
        }
        v.pop();
        // containers around it
        for _ in 0..g.usz(1, 3) {
            let (a, b) = *g.pick(&[
                ("> ", "> "),
                ("-   ", "    "),
                ("1.  ", "    "),
                ("- ", "  "),
            ]);
            let before = g.coin();
            if before {
                v.splice(0..0, [words(g), String::new()]);
            }
            v = v
                .iter()
                .enumerate()
                .map(|(i, l)| {
                    if i == 0 {
                        format!("{a}{l}")
                    } else if l.is_empty() {
                        b.trim_end().into()
                    } else {
                        format!("{b}{l}")
                    }
                })
                .collect();
        }
        d += &format!("{}\n\n{}\n\n", v.join("\n"), words(g));
    }
    let s = format!("{}\n{d}", opts::show(&o));
    note(&s);
    let out = fmt(&d, &o);
    let (want, got) = (blocks(&d), blocks(&out));
    let r = if want == got {
        Ok(())
    } else {
        Err(format!(
            "HTML blocks before: {want:#?}\nafter: {got:#?}\n--- output\n{out}"
        ))
    };
    Case::of(s, n > 0, r)
}

const PIECES: &[&str] = &[
    "<b class=\"x--y\">",
    "</b>",
    "<br>",
    "<br/>",
    "<!-- it's -- -->",
    "<!---->",
    "<kbd>",
    "<a href='https://example.com/?a=b&amp;c' title=\"say 'hi'...\">",
    "<?php 'x' ?>",
    "<![CDATA[a...b]]>",
    "<img src=\"a  b.png\" alt=\"two  spaces\">",
    "<x-y data-a=1 data-b>",
    "<!DOCTYPE x>",
    "&amp;",
    "&copy;",
    "&lt;b&gt;",
    "&#35;",
    "&#x2014;",
    "&nbsp;",
    "&fjlig;",
    "&bne;",
    "&#0;",
    "&NotEqualTilde;",
    "&#1234567;",
    "&hellip;",
    "&AMP;",
    "&ClockwiseContourIntegral;",
    "&#8217;",
    "&#42;",
    "&ndash;",
    "&ampx;",
];

fn inline(g: &mut G) -> Case {
    let mut o = opts::common(g);
    if g.p(1, 6) {
        o.heading_sentence_case = true;
    }
    let mut d = String::new();
    let mut pieces: Vec<String> = Vec::new();
    for _ in 0..g.usz(1, 3) {
        let kind = g.below(7);
        let mut t = words(g);
        for _ in 0..g.usz(1, 5) {
            let p = g.s(PIECES);
            let p = if g.p(1, 6) && p.starts_with('<') && p.contains(' ') && (kind < 2) {
                p.replacen(' ', "\n", 1)
            } else {
                p.to_string()
            };
            t += &format!("{}{p}{}", g.s(&["", " ", " "]), g.s(&["", " x ", " ", "."]));
            pieces.push(p);
            if g.p(1, 3) {
                t += &format!(" {}", words(g));
            }
        }
        let t = t.trim_end();
        d += &match kind {
            0 | 1 => format!("{t}\n\n"),
            2 => format!("{} {t}\n\n", g.s(&["#", "##", "###"])),
            3 => format!("- {t}\n\n"),
            4 => format!("> {t}\n\n"),
            5 => format!("| a | b |\n|---|---|\n| {t} | x |\n\n"),
            _ => format!("*{}* **{t}**\n\n", words(g)),
        };
    }
    let s = format!("{}\n{d}", opts::show(&o));
    note(&s);
    let out = fmt(&d, &o);
    // the containers put their own characters at line starts
    let flat = |x: &str| {
        x.lines()
            .map(|l| l.trim_start_matches(['>', ' ']))
            .collect::<Vec<_>>()
            .join(" ")
    };
    let flat = flat(&out);
    let mut at = 0;
    let mut r = Ok(());
    for p in &pieces {
        let p = p.replace('\n', " ");
        match flat[at..].find(&p) {
            Some(i) => at += i + p.len(),
            None => {
                r = Err(format!("{p:?} is not where it was\n--- output\n{out}"));
                break;
            }
        }
    }
    Case::of(s, true, r)
}

fn directives(g: &mut G) -> Case {
    let (mut d, mut e) = (Vec::new(), Vec::new());
    let sentence = g.coin();
    let n = g.usz(2, 6);
    let nouns: Vec<String> = (0..g.usz(1, 3))
        .map(|i| format!("{}{i}", g.s(&["Zzyzx", "Qwop", "--x", "It's"])))
        .collect();
    let list = nouns.join(g.s(&[", ", ",", " , "]));
    let mut has = false;
    for i in 0..n {
        if i + 1 < n && g.p(1, 2) {
            has = true;
            let k = g.s(&["proper-nouns", "common-nouns"]);
            let (a, b) = *g.pick(&[("<!-- ", " -->"), ("<!--", "-->"), ("  <!--  ", "   -->")]);
            d.push(format!("{a}hongdown-{k}: {list}{b}"));
            e.push(format!("{a}hongdoun-{k}: {list}{b}"));
        }
        let b = match g.below(6) {
            0 => format!("{} {}", g.s(&["#", "##", "###"]), words(g)),
            1 => format!("- {}\n- {}", words(g), words(g)),
            2 => format!("{} [x{i}](https://example.com/{i})", words(g)),
            3 => format!("{}[^{i}]\n\n[^{i}]: {}", words(g), words(g)),
            4 => format!("> {}", words(g)),
            _ => format!("{} and the Next Words -- x...", words(g)),
        };
        d.push(b.clone());
        e.push(b);
    }
    let (d, e) = (d.join("\n\n") + "\n", e.join("\n\n") + "\n");
    let mut o = opts::common(g);
    o.heading_sentence_case = sentence;
    let s = format!("{}\n{d}", opts::show(&o));
    note(&s);
    let out = fmt(&d, &o);
    let want = fmt(&e, &o).replace("hongdoun", "hongdown");
    let r = if out == want {
        Ok(())
    } else {
        Err(format!(
            "expected, as without a directive:\n{want}\n--- output\n{out}"
        ))
    };
    Case::of(s, has, r)
}
