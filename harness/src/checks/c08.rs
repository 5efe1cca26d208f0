use super::*;
use crate::docgen::*;

pub fn check() -> Check {
    Check {
        id: "C08",
        rule: "the paragraph has a line that is wider than the line width, or at least two lines or a hard break",
        assumptions: &[
            "display widths: the harness's own table for the words it uses (East Asian wide and emoji 2, combining 0, others 1)",
            "the marker in the first line of a list item or definition may or may not be counted (an existing test leaves it out)",
        ],
        parts: vec![
            ("words", words, 400_000, 4_000_000),
            ("rich", rich, 150_000, 1_500_000),
        ],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

/// Words with their width.
const WORDS: &[(&str, usize)] = &[
    ("a", 1),
    ("to", 2),
    ("the", 3),
    ("word", 4),
    ("alpha", 5),
    ("Markdown", 8),
    ("extraordinarily", 15),
    ("internationalization", 20),
    ("x", 1),
    ("I", 1),
    ("is", 2),
    ("end.", 4),
    ("so,", 3),
    ("what?", 5),
    ("(paren)", 7),
    ("漢字", 4),
    ("한국어", 6),
    ("日本語テキスト", 14),
    ("👍", 2),
    ("héllo", 5),
    ("Привет", 6),
    ("e\u{301}a", 2),
    ("全角", 4),
    ("中", 2),
    ("*em*", 4),
    ("**bold**", 8),
    ("`code`", 6),
    ("well-known", 10),
    ("50%", 3),
    ("it's", 4),
    ("\"q\"", 3),
    ("<https://a.b/c>", 15),
    ("\\*x", 3),
    ("&amp;", 5),
    ("❤\u{fe0f}", 2),
    ("👍🏽", 2),
    ("👨\u{200d}👩\u{200d}👧", 2),
];
const UNITS: &[(&str, usize)] = &[
    ("`a b`", 5),
    ("`let x = 1;`", 12),
    ("[a b](./x)", 10),
    ("[link](./y \"a title\")", 21),
    ("`漢 字`", 7),
    ("[漢 字](#f)", 11),
    ("![an image](i.png)", 18),
    ("[`a b` c](./z)", 14),
];

fn wide(s: &str) -> usize {
    unicode_width::UnicodeWidthStr::width(s)
}

/// One source line: tokens with the number of spaces after each.
type Line = Vec<(String, usize, usize)>;

fn text(l: &Line) -> String {
    let mut s = String::new();
    for (i, (t, _, sp)) in l.iter().enumerate() {
        s.push_str(t);
        if i + 1 < l.len() {
            s.push_str(&" ".repeat(*sp));
        }
    }
    s
}

fn width(l: &Line) -> usize {
    l.iter()
        .enumerate()
        .map(|(i, (_, w, sp))| w + if i + 1 < l.len() { *sp } else { 0 })
        .sum()
}

/// Where the paragraph stands: source prefixes, output prefixes, and the width of the marker in the first line that
/// may or may not be counted.
struct At {
    before: &'static str,
    src: (&'static str, &'static str),
    out: (&'static str, &'static str),
    marker: usize,
}

const PLACES: &[At] = &[
    At {
        before: "",
        src: ("", ""),
        out: ("", ""),
        marker: 0,
    },
    At {
        before: "",
        src: ("> ", "> "),
        out: ("> ", "> "),
        marker: 0,
    },
    At {
        before: "",
        src: ("> > ", "> > "),
        out: ("> > ", "> > "),
        marker: 0,
    },
    At {
        before: "",
        src: ("- ", "  "),
        out: (" -  ", "    "),
        marker: 4,
    },
    At {
        before: "",
        src: ("1. ", "   "),
        out: ("1.  ", "    "),
        marker: 4,
    },
    At {
        before: "x[^1]\n\n",
        src: ("[^1]: ", "    "),
        out: ("[^1]: ", "      "),
        marker: 0,
    },
    At {
        before: "> [!NOTE]\n",
        src: ("> ", "> "),
        out: ("> ", "> "),
        marker: 0,
    },
    At {
        before: "Term\n\n",
        src: (":   ", "    "),
        out: (":   ", "    "),
        marker: 4,
    },
    At {
        before: "- i\n\n",
        src: ("  ", "  "),
        out: ("    ", "    "),
        marker: 0,
    },
    At {
        before: "> - i\n>\n",
        src: (">   ", ">   "),
        out: (">     ", ">     "),
        marker: 0,
    },
    At {
        before: "- > i\n  >\n",
        src: ("  > ", "  > "),
        out: ("    > ", "    > "),
        marker: 0,
    },
];

fn words(g: &mut G) -> Case {
    let lw = *g.pick(&[20usize, 80, 8, 12, 16, 30, 40, 60, 100]) + g.usz(0, 3);
    let at = &PLACES[g.w(&[8, 2, 1, 2, 2, 2, 1, 1, 1, 1, 1])];
    let o = Options {
        line_width: hongdown::LineWidth::new(lw).unwrap(),
        ..crate::opts::plain()
    };
    // segments (between hard breaks) of lines
    let mut segs: Vec<Vec<Line>> = Vec::new();
    for _ in 0..[1, 1, 1, 2, 3][g.usz(0, 4)] {
        let mut seg = Vec::new();
        for _ in 0..g.usz(1, 4) {
            let mut l: Line = Vec::new();
            for _ in 0..g.usz(1, 14) {
                let (t, w) = if g.p(1, 6) {
                    *g.pick(UNITS)
                } else {
                    *g.pick(WORDS)
                };
                let (t, w) = if g.p(1, 8) {
                    (format!("{t},"), w + 1)
                } else {
                    (t.to_string(), w)
                };
                assert_eq!(w, wide(&t), "HARNESS: width of {t}");
                l.push((t, w, if g.p(1, 12) { 2 } else { 1 }));
            }
            seg.push(l);
        }
        segs.push(seg);
    }
    // a line never begins with what alone on it would be something else
    for (i, s) in segs.iter_mut().enumerate() {
        for (j, l) in s.iter_mut().enumerate() {
            if (i == 0 && j == 0) || l[0].0.starts_with('<') {
                l.insert(0, ("The".into(), 3, 1));
            }
        }
    }
    let mut d = String::from(at.before);
    let mut first = true;
    for (i, s) in segs.iter().enumerate() {
        for (j, l) in s.iter().enumerate() {
            d.push_str(if first { at.src.0 } else { at.src.1 });
            first = false;
            d.push_str(&text(l));
            if j + 1 == s.len() && i + 1 < segs.len() {
                d.push_str(g.s(&["\\", "  "]));
            }
            d.push('\n');
        }
    }
    let show = show(&o, &d);
    note(&show);
    let out = fmt(&d, &o);
    let non = segs.len() > 1 || segs[0].len() > 1 || width(&segs[0][0]) > lw;
    let r = judge(&segs, at, lw, &out).map_err(|m| format!("{m}\n--- output\n{out}"));
    Case::of(show, non, r)
}

fn judge(segs: &[Vec<Line>], at: &At, lw: usize, out: &str) -> Result<(), String> {
    let body: Vec<&str> = {
        let n = out.lines().count();
        // the paragraph is the last thing in the document: find where its first line starts
        let all: Vec<&str> = out.lines().collect();
        let k = (0..n).rev().find(|i| {
            all[*i]
                .trim_start_matches([' ', '>', '-', '1', '.', ':'])
                .starts_with("The ")
                || all[*i].ends_with("The")
                || all[*i].starts_with("[^1]: The")
        });
        let Some(mut k) = k else {
            return Err("the paragraph is not there".into());
        };
        // "The" is also a word of no other token, so the first such line is the first line
        while let Some(j) = (0..k).rev().find(|i| {
            all[*i]
                .trim_start_matches([' ', '>', '-', '1', '.', ':'])
                .starts_with("The")
                || all[*i].starts_with("[^1]: The")
        }) {
            k = j;
        }
        all[k..].to_vec()
    };
    let mut li = 0;
    let mut first = true;
    for (si, seg) in segs.iter().enumerate() {
        let toks: Vec<&(String, usize, usize)> = seg.iter().flatten().collect();
        let mut ti = 0;
        // the output lines of this segment
        let mut lines: Vec<(String, bool)> = Vec::new();
        let mut broke = false;
        let start_first = first;
        let mut starts: Vec<usize> = Vec::new();
        while ti < toks.len() {
            let Some(l) = body.get(li) else {
                return Err(format!("the text ends before {:?}", toks[ti].0));
            };
            li += 1;
            let p = if first { at.out.0 } else { at.out.1 };
            let Some(mut t) = l.strip_prefix(p) else {
                return Err(format!("line {l:?} does not begin with {p:?}"));
            };
            starts.push(ti);
            let is_first = first;
            first = false;
            if let Some(x) = t.strip_suffix("  ") {
                t = x;
                broke = true;
            } else if t.ends_with('\\') {
                t = &t[..t.len() - 1];
                broke = true;
            }
            lines.push((t.to_string(), is_first));
            let mut rest = t;
            loop {
                if ti == toks.len() {
                    return Err(format!("text after the end of the segment: {rest:?}"));
                }
                let Some(r) = rest.strip_prefix(toks[ti].0.as_str()) else {
                    return Err(format!("expected {:?} at {rest:?}", toks[ti].0));
                };
                ti += 1;
                if r.is_empty() {
                    break;
                }
                let sp = r.len() - r.trim_start_matches(' ').len();
                if sp == 0 || sp > 2 {
                    return Err(format!("{sp} spaces after {:?}", toks[ti - 1].0));
                }
                rest = &r[sp..];
            }
            if broke {
                break;
            }
        }
        if ti < toks.len() {
            return Err(format!("a hard line break before {:?}", toks[ti].0));
        }
        if broke != (si + 1 < segs.len()) {
            return Err(format!("hard line break after segment {}: {broke}", si + 1));
        }
        // how much of the prefix counts, at least and at most
        let pre = |is_first: bool| -> (usize, usize) {
            let p = if is_first {
                wide(at.out.0)
            } else {
                wide(at.out.1)
            };
            if is_first { (p - at.marker, p) } else { (p, p) }
        };
        for (i, (t, f)) in lines.iter().enumerate() {
            let n = starts.get(i + 1).copied().unwrap_or(toks.len()) - starts[i];
            if n > 1 && pre(*f).0 + wide(t) > lw {
                return Err(format!(
                    "line {t:?} is {} columns wide, the width is {lw}",
                    pre(*f).0 + wide(t)
                ));
            }
        }
        // lines that fit stay, up to the first that does not
        let mut k = 0;
        let mut certain = true;
        for (i, l) in seg.iter().enumerate() {
            let f = start_first && i == 0;
            if at.before.contains("[^1]") {
                // footnotes are filled anew
                break;
            }
            if pre(f).1 + width(l) <= lw {
                k += 1;
                if lines.get(i).map(|x| x.0.as_str()) != Some(text(l).as_str()) {
                    return Err(format!(
                        "line {:?} fits but became {:?}",
                        text(l),
                        lines.get(i).map(|x| x.0.as_str()).unwrap_or("")
                    ));
                }
            } else {
                certain = pre(f).0 + width(l) > lw;
                break;
            }
        }
        // from there on lines are filled
        if certain {
            for i in k..lines.len().saturating_sub(1) {
                let (t, f) = &lines[i];
                let next = toks[starts[i + 1]].1;
                if pre(*f).1 + wide(t) + 1 + next + 1 <= lw {
                    return Err(format!(
                        "line {t:?} ends early: {:?} would fit",
                        toks[starts[i + 1]].0
                    ));
                }
            }
        }
    }
    let tail = &body[li..];
    if tail.iter().any(|l| !l.trim().is_empty()) {
        return Err(format!("text after the paragraph: {:?}", tail[0]));
    }
    Ok(())
}

/// Paragraphs with every inline construct: no line is too wide if it could have been broken between two plain words.
fn rich(g: &mut G) -> Case {
    let mut o = crate::opts::common(g);
    let lw = g.usz(8, 70);
    o.line_width = hongdown::LineWidth::new(lw).unwrap();
    let mut c = Cfg {
        quote: 3,
        alert: 1,
        heading: 1,
        max_words: 40,
        max_blocks: 3,
        depth: 2,
        ..full(&o)
    };
    for f in ["code", "table", "html", "hr", "dl", "abbr", "rawhtml"] {
        *c.get(f) = 0;
    }
    c.dl = 1;
    c.front = false;
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let root = parse(&out, &Fold::default());
    let mut r = Ok(());
    let lines: Vec<&str> = out.lines().collect();
    let mut heads: Vec<usize> = root
        .find(&|n| n.tag.starts_with('h') && n.tag.len() == 2)
        .iter()
        .map(|n| n.line)
        .collect();
    for h in heads.clone() {
        // the other lines of its text, and the underline
        if !lines[h - 1].trim_start_matches(['>', ' ']).starts_with('#') {
            let n = lines[h - 1..]
                .iter()
                .take_while(|l| l.chars().any(|c| !matches!(c, '>' | ' ' | '-' | '=')))
                .count();
            heads.extend(h..=h + n);
        }
    }
    for (i, l) in lines.iter().map(|l| l.trim_end()).enumerate() {
        let bare = l.trim_start_matches(['>', ' ']);
        // the marker in the first line of an item is not counted
        let rest = bare.trim_start_matches(|c: char| {
            matches!(c, '-' | '*' | '+' | ':' | '.' | ')' | ' ') || c.is_ascii_digit()
        });
        let marker = if rest.len() < bare.len() && bare[..bare.len() - rest.len()].contains(' ') {
            wide(l) - wide(rest)
        } else {
            0
        };
        let lw = lw + marker;
        if wide(l) <= lw
            || heads.contains(&(i + 1))
            || (bare.starts_with('[') && bare.contains("]: "))
            || bare.starts_with("[!")
            || (i > 0 && heads.contains(&i))
        {
            continue;
        }
        if let Some(p) = breakable(l, lw) {
            r = Err(format!(
                "line {:?} is wider than {lw} but could be broken after {p:?}\n--- output\n{out}",
                l
            ));
            break;
        }
    }
    let non = d.lines().count() > 1 || wide(&d) > lw;
    Case::of(s, non, r)
}

/// A place in the line, within the width, between two words of letters outside every unit.
fn breakable(l: &str, lw: usize) -> Option<String> {
    let bare = l.trim_start_matches(['>', ' ']);
    let off = l.len() - bare.len();
    let c: Vec<char> = bare.chars().collect();
    let mut inside = 0i32;
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            // anything that might open a unit: be careful and look no further
            '`' | '[' | '<' | '\\' | '(' | '!' | ']' | ')' | '&' => inside += 1,
            ' ' if inside == 0 && i > 0 => {
                let prev: String = c[..i].iter().rev().take_while(|x| **x != ' ').collect();
                let next: String = c[i + 1..].iter().take_while(|x| **x != ' ').collect();
                let plain = |s: &str| !s.is_empty() && s.chars().all(|x| x.is_ascii_alphabetic());
                let head: String = c[..i].iter().collect();
                if plain(&prev) && plain(&next) && off + wide(&head) <= lw && head.contains(' ') {
                    return Some(head);
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}
