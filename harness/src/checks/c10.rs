use super::*;
use comrak::nodes::{ListDelimType, ListType, NodeValue};
use hongdown::{LineWidth, OrderedMarker, UnorderedMarker};

pub fn check() -> Check {
    Check {
        id: "C10",
        rule: "the document has a list that is nested, has nine or more items, holds several blocks, or has a task box",
        assumptions: &["comrak decides which lines of the output begin list items"],
        parts: vec![
            ("model", model, 28_000, 400_000),
            ("long", long, 1_200, 15_000),
            ("flat", flat, 14_000, 200_000),
            ("wrapped", wrapped, 10_000, 150_000),
            ("any", any, 9_000, 120_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            let out = fmt(&d, &o);
            markers(&out, &o)?;
            same_meaning(&d, &out, &o)
        }),
    }
}

enum B {
    P(String),
    Code(Vec<String>),
    Quote(String),
    L(Vec<It>, bool, bool),
}
struct It {
    task: Option<bool>,
    /// Each block, with whether a blank line stands before it.
    blocks: Vec<(B, bool)>,
}

struct Gen<'a> {
    g: &'a mut G,
    big: bool,
    non: bool,
    n: usize,
}

impl Gen<'_> {
    fn text(&mut self) -> String {
        self.n += 1;
        let mut s = format!("w{}", self.n);
        for _ in 0..self.g.usz(0, 3) {
            s.push(' ');
            s.push_str(self.g.s(&[
                "one", "two", "漢字", "`code`", "**bold**", "*it*", "don't", "(x)", "e.g.",
                "[l](u)", "x",
            ]));
        }
        s
    }
    /// A list: its items, whether it is ordered, whether it is tight.
    fn list(&mut self, depth: usize, ordered: bool) -> B {
        let items = match self.g.w(&[30, 3, 1]) {
            0 => self.g.usz(1, 4),
            1 => self.g.usz(9, 12),
            _ if self.big => self.g.usz(99, 103),
            _ => 10,
        };
        let mut tight = !self.g.coin();
        let task = self.g.p(1, 5);
        let mut v = Vec::new();
        let mut gaps = false;
        for _ in 0..items {
            let mut blocks = vec![(B::P(self.text()), false)];
            let mut last = 0; // what came last: 0 paragraph, 1 code, 2 quote, 3 bullets, 4 ordered
            let more = if items > 20 {
                self.g.w(&[30, 1, 1])
            } else {
                self.g.w(&[5, 3, 2, 1])
            };
            for _ in 0..more {
                let nest = u32::from(depth < 5);
                let k = loop {
                    let k = self.g.w(&[3 * u32::from(!tight), 2, 2, 3 * nest, 3 * nest]);
                    if k != last || k < 2 {
                        break k;
                    }
                    if nest == 0 {
                        break 1;
                    }
                };
                // in a tight list nothing but a list or a fence may follow a quote or a list directly
                let k = if tight && last == 2 && k == 2 { 1 } else { k };
                let gap = !tight && (k < 3 || self.g.coin());
                gaps |= gap;
                let b = match k {
                    0 => B::P(self.text()),
                    1 => {
                        let mut c = vec![
                            self.g
                                .s(&["x = 1", "- not an item", "    deep", "1. no", "# no"])
                                .to_string(),
                        ];
                        if self.g.p(1, 3) {
                            c.push(String::new());
                            c.push("end".into());
                        }
                        B::Code(c)
                    }
                    2 => B::Quote(self.text()),
                    _ => self.list(depth + 1, k == 4),
                };
                last = k;
                blocks.push((b, gap));
            }
            self.non |= more > 0 || task || items >= 9;
            let t = if task { Some(self.g.coin()) } else { None };
            v.push(It { task: t, blocks });
        }
        // a single item makes a loose list only by a blank line between its blocks
        if items == 1 && !gaps {
            tight = true;
        }
        B::L(v, ordered, tight)
    }
}

/// The list in one of the many ways to write it.
fn source(b: &B, g: &mut G, after_list: bool) -> Vec<String> {
    match b {
        B::P(t) => vec![t.clone()],
        B::Code(c) => {
            let f = g.s(&["~~~~", "```", "~~~", "``````"]);
            let mut v = vec![f.to_string()];
            v.extend(c.iter().cloned());
            v.push(f.to_string());
            v
        }
        B::Quote(t) => vec![format!("{}{t}", g.s(&["> ", ">", " > "]))],
        B::L(items, ordered, tight) => {
            let delim = if *ordered {
                g.s(&[".", ")"])
            } else {
                g.s(&["-", "*", "+"])
            };
            let same = g.p(1, 4);
            // after another list, leading spaces could make it a part of that
            let lead = " ".repeat(if after_list { 0 } else { g.w(&[6, 1, 1, 1]) });
            let mut out = Vec::new();
            for (i, it) in items.iter().enumerate() {
                if i > 0 && !tight {
                    out.push(String::new());
                }
                let marker = match (ordered, same) {
                    (true, true) => format!("1{delim}"),
                    (true, false) => format!("{}{delim}", i + 1),
                    _ => delim.to_string(),
                };
                let first = format!("{lead}{marker}{}", " ".repeat(1 + g.w(&[6, 3, 1, 1])));
                let ind = " ".repeat(first.len());
                for (j, (b, gap)) in it.blocks.iter().enumerate() {
                    if *gap {
                        for _ in 0..1 + g.w(&[6, 1]) {
                            out.push(String::new());
                        }
                    }
                    let bx = match it.task {
                        Some(true) => g.s(&["[x] ", "[X] "]),
                        Some(false) => "[ ] ",
                        None => "",
                    };
                    let after = j > 0 && matches!(it.blocks[j - 1].0, B::L(..));
                    for (k, l) in source(b, g, after).into_iter().enumerate() {
                        if j == 0 && k == 0 {
                            out.push(format!("{first}{bx}{l}"));
                        } else if l.is_empty() {
                            out.push(l);
                        } else {
                            out.push(format!("{ind}{l}"));
                        }
                    }
                }
            }
            out
        }
    }
}

/// The list as hongdown is to write it. `col` is the column of the text around, `depth` the depth of a list here.
fn expected(b: &B, o: &Options, depth: usize, extra: usize, text_col: usize) -> Vec<String> {
    let sp = |n: usize| " ".repeat(n);
    match b {
        B::P(t) => vec![format!("{}{t}", sp(text_col))],
        B::Code(c) => {
            let f = o
                .fence_char
                .as_char()
                .to_string()
                .repeat(o.min_fence_length.get());
            let line = |l: &str| {
                if l.is_empty() {
                    String::new()
                } else {
                    format!("{}{l}", sp(text_col))
                }
            };
            let mut v = vec![line(&f)];
            v.extend(c.iter().map(|l| line(l)));
            v.push(line(&f));
            v
        }
        B::Quote(t) => vec![format!("{}> {t}", sp(text_col))],
        B::L(items, ordered, tight) => {
            let step = if *ordered {
                o.ordered_list_indent_width.get()
            } else {
                o.indent_width.get()
            };
            let start = extra + step * (depth - 1);
            let mut out = Vec::new();
            for (i, it) in items.iter().enumerate() {
                if i > 0 && !tight {
                    out.push(String::new());
                }
                let (marker, width, over) = if *ordered {
                    let d = if depth % 2 == 1 {
                        o.odd_level_marker
                    } else {
                        o.even_level_marker
                    };
                    let d = if d == OrderedMarker::Period { '.' } else { ')' };
                    let m = format!("{}{d}", i + 1);
                    // a number too wide for the fixed width still has one space after it
                    let w = step.max(m.len() + 1);
                    (format!("{m}{}", sp(w - m.len())), w, w - step)
                } else {
                    let c = match o.unordered_marker {
                        UnorderedMarker::Hyphen => '-',
                        UnorderedMarker::Asterisk => '*',
                        UnorderedMarker::Plus => '+',
                    };
                    let m = format!(
                        "{}{c}{}",
                        sp(o.leading_spaces.get()),
                        sp(o.trailing_spaces.get())
                    );
                    (m.clone(), m.len(), 0)
                };
                for (j, (b, gap)) in it.blocks.iter().enumerate() {
                    if *gap {
                        out.push(String::new());
                    }
                    let mut ls = expected(b, o, depth + 1, extra + over, start + width);
                    if j == 0 {
                        let bx = match it.task {
                            Some(true) => "[x] ",
                            Some(false) => "[ ] ",
                            None => "",
                        };
                        ls[0] = format!("{}{marker}{bx}{}", sp(start), &ls[0][start + width..]);
                    }
                    out.append(&mut ls);
                }
            }
            out
        }
    }
}

fn with(g: &mut G, o: Options, big: bool) -> Case {
    let mut o = o;
    o.line_width = LineWidth::new(300).unwrap();
    let mut q = Gen {
        g,
        big,
        non: false,
        n: 0,
    };
    let ordered = big || q.g.coin();
    let l = q.list(1, ordered);
    let l = match l {
        B::L(mut items, ordered, tight) if big => {
            while items.len() < 99 {
                let t = q.text();
                items.push(It {
                    task: None,
                    blocks: vec![(B::P(t), false)],
                });
            }
            // the items at and beyond the hundredth have several blocks too
            let mut again = false;
            for _ in 0..q.g.usz(1, 4) {
                let t = q.text();
                let sub_ordered = q.g.coin();
                let mut blocks = vec![(B::P(t), false)];
                if q.g.coin() {
                    if !tight && q.g.coin() {
                        blocks.push((B::P(q.text()), true));
                    }
                    blocks.push((q.list(2, sub_ordered), false));
                    again = true;
                }
                items.push(It { task: None, blocks });
            }
            q.non |= again;
            B::L(items, ordered, tight)
        }
        l => l,
    };
    let non = q.non;
    let mut src = source(&l, g, false);
    let mut want = expected(&l, &o, 1, 0, 0);
    let around = g.w(&[4, 1, 1]);
    if around == 1 {
        g.label("quoted");
        let p = |v: Vec<String>| {
            v.into_iter()
                .map(|l| {
                    if l.is_empty() {
                        ">".into()
                    } else {
                        format!("> {l}")
                    }
                })
                .collect::<Vec<_>>()
        };
        src = p(src);
        want = p(want);
    } else if around == 2 {
        src.insert(0, "Before:\n".into());
        want.insert(0, "Before:\n".into());
        src.push("\nAfter.".into());
        want.push("\nAfter.".into());
    }
    let src = src.join("\n") + "\n";
    let want = want.join("\n") + "\n";
    let s = show(&o, &src);
    note(&s);
    let out = fmt(&src, &o);
    let mut r = match diff(&want, &out) {
        None if want == out => Ok(()),
        x => Err(format!(
            "not as the model prints it: {}\n--- output\n{out}\n--- model\n{want}",
            x.unwrap_or("line endings".into())
        )),
    };
    if r.is_ok() && !big {
        r = same_meaning(&src, &out, &o);
    }
    Case::of(s, non, r)
}

fn options(g: &mut G) -> Options {
    let mut o = crate::opts::plain();
    o.curly_apostrophes = false;
    if g.p(3, 4) {
        crate::opts::lists(g, &mut o);
    }
    if g.p(1, 4) {
        crate::opts::fences(g, &mut o);
        o.default_language = String::new();
    }
    o
}

fn model(g: &mut G) -> Case {
    let o = options(g);
    with(g, o, false)
}

/// Lists with a hundred items and more.
fn long(g: &mut G) -> Case {
    let o = options(g);
    with(g, o, true)
}

/// Lists without nesting, under every number of spaces that gives a list item.
fn flat(g: &mut G) -> Case {
    let mut o = crate::opts::plain();
    o.leading_spaces = hongdown::LeadingSpaces::new(g.usz(0, 3)).unwrap();
    o.trailing_spaces = hongdown::TrailingSpaces::new(g.usz(1, 3)).unwrap();
    o.ordered_list_indent_width = hongdown::IndentWidth::new(g.usz(1, 6)).unwrap();
    o.indent_width = hongdown::IndentWidth::new(g.usz(1, 6)).unwrap();
    o.unordered_marker = *g.pick(&[
        UnorderedMarker::Hyphen,
        UnorderedMarker::Asterisk,
        UnorderedMarker::Plus,
    ]);
    crate::opts::markers(g, &mut o);
    o.line_width = LineWidth::new(300).unwrap();
    let ordered = g.coin();
    let n = g.usz(1, 12);
    let tight = !g.coin() || n == 1;
    let mut q = Gen {
        g,
        big: false,
        non: n >= 9,
        n: 0,
    };
    let items = (0..n)
        .map(|_| {
            let task = if q.g.p(1, 4) { Some(q.g.coin()) } else { None };
            q.non |= task.is_some();
            let t = q.text();
            let mut blocks = vec![(B::P(t), false)];
            if !tight && q.g.p(1, 3) {
                q.non = true;
                let t = q.text();
                blocks.push((B::P(t), true));
            }
            It { task, blocks }
        })
        .collect();
    let non = q.non;
    let l = B::L(items, ordered, tight);
    let src = source(&l, g, false).join("\n") + "\n";
    let want = expected(&l, &o, 1, 0, 0).join("\n") + "\n";
    let s = show(&o, &src);
    note(&s);
    let out = fmt(&src, &o);
    let r = match diff(&want, &out) {
        None if want == out => same_meaning(&src, &out, &o),
        x => Err(format!(
            "not as the model prints it: {}\n--- output\n{out}\n--- model\n{want}",
            x.unwrap_or("line endings".into())
        )),
    };
    Case::of(s, non, r)
}

/// Every list item of the output begins as configured for its kind, depth and number.
fn markers(out: &str, o: &Options) -> Result<(), String> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, out, &copts());
    let lines: Vec<&str> = out.split('\n').collect();
    for list in root.descendants() {
        let NodeValue::List(l) = list.data.borrow().value.clone() else {
            continue;
        };
        // levels count from the quote around, if there is one
        let depth = list
            .ancestors()
            .take_while(|a| {
                !matches!(
                    a.data.borrow().value,
                    NodeValue::BlockQuote | NodeValue::Alert(_)
                )
            })
            .filter(|a| matches!(a.data.borrow().value, NodeValue::List(_)))
            .count();
        if list.ancestors().any(|a| {
            matches!(
                a.data.borrow().value,
                NodeValue::DescriptionDetails | NodeValue::FootnoteDefinition(_)
            )
        }) {
            continue;
        }
        for (i, item) in list.children().enumerate() {
            let p = item.data.borrow().sourcepos.start;
            let at = &lines[p.line - 1][p.column - 1..];
            let bad = |what: &str| {
                Err(format!(
                    "line {}, item {}: {what}: {at:?}\n--- output\n{out}",
                    p.line,
                    i + 1
                ))
            };
            if l.list_type == ListType::Bullet {
                let m = o.unordered_marker.as_char();
                let want = format!("{m}{}", " ".repeat(o.trailing_spaces.get()));
                if !at.starts_with(&want) && at != m.to_string() {
                    return bad("not the configured marker and spaces");
                }
            } else {
                let want = if depth % 2 == 1 {
                    o.odd_level_marker
                } else {
                    o.even_level_marker
                };
                let is = if l.delimiter == ListDelimType::Period {
                    OrderedMarker::Period
                } else {
                    OrderedMarker::Parenthesis
                };
                if want != is {
                    return bad("not the delimiter of its level");
                }
                let m = format!("{}{}", i + 1, want.as_char());
                let w = o.ordered_list_indent_width.get().max(m.len() + 1);
                if !at.starts_with(&format!("{m:w$}")) && at != m {
                    return bad("not numbered in order with the configured width");
                }
            }
        }
    }
    Ok(())
}

fn judge(d: String, o: Options, non: bool) -> Case {
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    Case::of(
        s,
        non,
        markers(&out, &o).and_then(|_| same_meaning(&d, &out, &o)),
    )
}

/// Items with long texts at narrow widths.
fn wrapped(g: &mut G) -> Case {
    let mut o = crate::opts::common(g);
    if g.coin() {
        crate::opts::lists(g, &mut o);
    }
    o.line_width = LineWidth::new(g.usz(8, 60)).unwrap();
    let c = Cfg {
        para: 6,
        bullets: 10,
        ordered: 10,
        quote: 2,
        code: 2,
        alert: 1,
        depth: 4,
        max_blocks: 3,
        max_words: 16,
        punct: 4,
        span: 2,
        emph: 2,
        link: 2,
        ..Cfg::zero()
    };
    let mut d = D::new(g, c);
    let doc = d.doc();
    let non = g.labels.contains(&"ordered") || g.labels.contains(&"bullets");
    judge(doc, o, non)
}

fn any(g: &mut G) -> Case {
    let mut o = crate::opts::any(g);
    if g.coin() {
        crate::opts::lists(g, &mut o);
    }
    let mut c = full(&o);
    c.bullets = 14;
    c.ordered = 14;
    let doc = D::new(g, c).doc();
    let non = g.labels.contains(&"ordered") || g.labels.contains(&"bullets");
    judge(doc, o, non)
}
