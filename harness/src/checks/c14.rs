use super::*;
use crate::fake::{self, Fake};
use comrak::nodes::NodeValue;
use hongdown::CodeFormatter;

pub fn check() -> Check {
    Check {
        id: "C14",
        rule: "at least one code block goes to a formatter that changes it, fails, or has to cope with more than a pipe holds",
        assumptions: &[
            "the stand-in formatters are this harness's own program; each case runs them in a scratch directory of its own",
            "a formatter that ends with success without having read its input has succeeded",
            "line ends of the formatter's output are line feeds; one at the end is optional",
        ],
        parts: vec![
            ("mixed", mixed, 3_000, 40_000),
            ("large", large, 500, 8_000),
            ("hang", hang, 48, 500),
        ],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

const LINES: &[&str] = &[
    "let x = 1;",
    "",
    "    indented",
    "\ttab",
    "trailing  ",
    "~~~",
    "````",
    "~~~~~ x",
    "```js",
    "<!-- hongdown-disable -->",
    "漢字 'x' \"q\"...",
    "# h",
    "> q",
    "- i",
    "| a |",
    "\\*",
    "[a]: /u",
    "a--b",
    "   ",
    "[^1]: x",
    "&amp;",
    "*/",
    "é\u{301}",
    "<div>",
];
const LANGS: &[&str] = &[
    "rust",
    "js",
    "c++",
    "py",
    "Rust",
    "text",
    "é",
    "rust,ignore",
    "a\\b",
    "sh",
];

struct Block {
    lang: &'static str,
    no_format: bool,
    disabled: bool,
    lines: Vec<String>,
}

fn code(g: &mut G, id: usize, big: bool) -> Vec<String> {
    let mut v = vec![format!("id {id}")];
    for _ in 0..g.below(6) {
        v.push(g.s(LINES).to_string());
    }
    if big {
        let l = "x".repeat(g.usz(1, 200));
        let n = *g.pick(&[65_536usize, 65_535, 70_000, 131_072, 300_000, 4096]) / (l.len() + 1);
        v.extend(std::iter::repeat_n(l, n));
    }
    v.push("end".into());
    v
}

fn fenced(g: &mut G, b: &Block) -> Vec<String> {
    let ch = *g.pick(&['~', '`']);
    let longest = b
        .lines
        .iter()
        .map(|l| l.trim_start().chars().take_while(|c| *c == ch).count())
        .max()
        .unwrap_or(0);
    let fence = ch.to_string().repeat((longest + 1).max(g.usz(3, 5)));
    let lang = b.lang.replace('\\', "\\\\");
    let meta = match (b.lang.is_empty(), g.w(&[3, 1, 1])) {
        (true, _) => "",
        (_, 0) => "",
        (_, 1) => " title=\"a b\"",
        _ => "  {1,2}",
    };
    let no = match (b.no_format, g.coin()) {
        (false, _) => "",
        (_, true) => " hongdown-no-format",
        _ => "  x hongdown-no-format y",
    };
    // with no language, what comes first would be one
    let sp = if g.coin() { " " } else { "" };
    let mut v = vec![format!("{fence}{sp}{lang}{no}{meta}")];
    v.extend(b.lines.iter().cloned());
    v.push(fence);
    v
}

fn indent(v: Vec<String>, first: &str, rest: &str) -> Vec<String> {
    v.into_iter()
        .enumerate()
        .map(|(i, l)| {
            if i == 0 {
                format!("{first}{l}")
            } else if l.is_empty() {
                rest.trim_end().to_string()
            } else {
                format!("{rest}{l}")
            }
        })
        .collect()
}

/// The code blocks of a document: (info, content).
fn blocks(d: &str) -> Vec<(String, String)> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, d, &copts());
    root.descendants()
        .filter_map(|n| match &n.data.borrow().value {
            NodeValue::CodeBlock(c) => Some((c.info.trim().to_string(), c.literal.clone())),
            _ => None,
        })
        .collect()
}

/// The same text with every line ended.
fn ended(s: &str) -> String {
    s.lines().map(|l| format!("{l}\n")).collect()
}

fn short(s: &str) -> String {
    let t = format!("{s:?}");
    match t.char_indices().nth(300) {
        Some((i, _)) => format!("{}... ({} bytes)", &t[..i], s.len()),
        None => t,
    }
}

fn run(g: &mut G, fakes: &[Fake], big: bool, timeout: u64) -> Case {
    let mut o = crate::opts::plain();
    crate::opts::fences(g, &mut o);
    let dir = tempfile::tempdir().expect("HARNESS: scratch directory");
    let path = dir.path().to_str().unwrap().to_string();
    let me = std::env::current_exe()
        .expect("HARNESS: own path")
        .to_str()
        .unwrap()
        .to_string();
    let mut conf: Vec<(&'static str, Fake)> = Vec::new();
    for f in fakes {
        let l = g.s(LANGS);
        if conf.iter().any(|c| c.0 == l) {
            continue;
        }
        let command = match f {
            Fake::Missing => vec![format!("{path}/missing")],
            Fake::Directory => vec![path.clone()],
            Fake::NotExecutable => {
                let p = format!("{path}/data");
                std::fs::write(&p, "#!/bin/sh\ncat\n").expect("HARNESS: write");
                vec![p]
            }
            _ => vec![me.clone(), "fake".into(), path.clone(), format!("{f:?}")],
        };
        let secs = if fake::HANG.contains(f) { timeout } else { 30 };
        o.code_formatters.insert(
            l.to_string(),
            CodeFormatter {
                command,
                timeout_secs: secs,
            },
        );
        conf.push((l, *f));
    }
    if g.p(1, 4) {
        o.default_language = g.pick(&conf).0.to_string();
    }
    // the document
    let n = if big { g.usz(1, 2) } else { g.usz(1, 5) };
    let mut list: Vec<Block> = Vec::new();
    let mut doc: Vec<String> = Vec::new();
    let mut foots: Vec<String> = Vec::new();
    for id in 0..n {
        let lang = match g.w(&[8, 2, 1]) {
            0 => g.pick(&conf).0,
            1 => g.s(&["go", "RUST", "rustx", "rus", "text/plain", "rust,ignore"]),
            _ => "",
        };
        let no_format = !lang.is_empty() && g.p(1, 6);
        let huge = big && (id == 0 || g.coin());
        let mut b = Block {
            lang,
            no_format,
            disabled: false,
            lines: code(g, id, huge),
        };
        if g.p(1, 3) {
            doc.extend(["Some *text*.".to_string(), String::new()]);
        }
        let f = fenced(g, &b);
        match g.w(&[6, 2, 2, 2, 1, 2, 2, 2]) {
            0 => doc.extend(f),
            1 => doc.extend(indent(f, "> ", "> ")),
            2 => doc.extend(indent(
                [vec!["item".into(), String::new()], f].concat(),
                "- ",
                "  ",
            )),
            3 => doc.extend(indent(
                [
                    vec!["item".into(), String::new(), "> q".into(), ">".into()],
                    indent(f, "> ", "> "),
                ]
                .concat(),
                "1. ",
                "   ",
            )),
            4 => doc.extend(
                [
                    vec!["Term".into(), String::new()],
                    indent([vec!["text".into(), String::new()], f].concat(), ": ", "  "),
                ]
                .concat(),
            ),
            5 => {
                foots.extend(indent(
                    [vec![format!("note {id}"), String::new()], f].concat(),
                    &format!("[^n{id}]: "),
                    "    ",
                ));
                foots.push(String::new());
                doc.push(format!("See[^n{id}]"));
            }
            6 => {
                b.disabled = true;
                doc.push("<!-- hongdown-disable-next-line -->".into());
                doc.extend(f);
            }
            _ => {
                b.disabled = true;
                doc.extend(["<!-- hongdown-disable -->".into(), String::new()]);
                doc.extend(indent(f, "- ", "  "));
                doc.extend([String::new(), "<!-- hongdown-enable -->".into()]);
            }
        }
        doc.push(String::new());
        // two lists in a row would be one
        doc.extend(["Between.".to_string(), String::new()]);
        list.push(b);
    }
    doc.extend(foots);
    let d = doc.join("\n") + "\n";
    let s = format!(
        "{}\nformatters: {conf:?}\n--- document\n{}",
        crate::opts::show(&o),
        if d.len() > 3000 { short(&d) } else { d.clone() }
    );
    note(&s);
    // what the blocks of the source must become
    let source = blocks(&d);
    if source.len() != list.len() {
        return Case::discard(s);
    }
    let mut want: Vec<(String, String)> = Vec::new();
    let mut given: Vec<(String, String)> = Vec::new();
    let (mut failures, mut interesting) = (0, false);
    // no formatter may take longer than its timeout, whatever it does; the rest is slack
    let mut limit = 20;
    for (info, literal) in &source {
        let id: usize = literal
            .lines()
            .next()
            .and_then(|l| l.strip_prefix("id "))
            .and_then(|l| l.parse().ok())
            .unwrap_or(usize::MAX);
        let Some(b) = list.get(id) else {
            return Case::discard(s);
        };
        if ended(literal) != ended(&b.lines.join("\n")) {
            // the container changed the code
            return Case::discard(s);
        }
        let lang = if b.lang.is_empty() {
            o.default_language.as_str()
        } else {
            b.lang
        };
        let f = conf
            .iter()
            .find(|c| c.0 == lang)
            .filter(|_| !b.no_format && !b.disabled);
        let info = if info.is_empty() && !b.disabled {
            o.default_language.clone()
        } else {
            info.clone()
        };
        let mut content = literal.clone();
        if let Some((_, f)) = f {
            let read = match f {
                Fake::Deaf | Fake::EarlyFail => String::new(),
                Fake::Partial => "id ".into(),
                _ => literal.clone(),
            };
            if !matches!(f, Fake::Missing | Fake::Directory | Fake::NotExecutable)
                && !fake::HANG.contains(f)
            {
                given.push((format!("{f:?}"), read));
            }
            match fake::output(*f, literal) {
                Some(x) => content = x,
                None => failures += 1,
            }
            limit += if fake::HANG.contains(f) { timeout } else { 30 };
            interesting = interesting || *f != Fake::Identity || literal.len() > 65_000;
        }
        want.push((info, ended(&content)));
    }
    let start = std::time::Instant::now();
    let (tx, rx) = std::sync::mpsc::channel();
    let (d2, o2) = (d.clone(), o.clone());
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(|| {
            hongdown::format_with_warnings(&d2, &o2)
                .unwrap_or_else(|e| panic!("format returned an error: {e}"))
        });
        let _ = tx.send(r);
    });
    let r = match rx.recv_timeout(std::time::Duration::from_secs(limit)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => std::panic::resume_unwind(e),
        Err(_) => {
            return Case::fail(
                s,
                format!(
                    "no result after {limit} s, though every formatter has a timeout of at most 30 s"
                ),
            );
        }
    };
    let took = start.elapsed().as_secs();
    let mut got: Vec<(String, String)> = blocks(&r.output);
    let mut received: Vec<(String, String)> = std::fs::read_dir(dir.path())
        .expect("HARNESS: read")
        .flatten()
        .filter_map(|e| {
            let n = e.file_name().into_string().unwrap();
            let n = n.split_once('-')?.0.to_string();
            Some((
                n,
                String::from_utf8(std::fs::read(e.path()).unwrap_or_default())
                    .unwrap_or_else(|_| "not UTF-8".into()),
            ))
        })
        .filter(|(n, _)| !n.starts_with("Hang"))
        .collect();
    for v in [&mut want, &mut got, &mut given, &mut received] {
        v.sort();
    }
    let compare =
        |what: &str, want: &[(String, String)], got: &[(String, String)]| -> Result<(), String> {
            if want == got {
                return Ok(());
            }
            let l = |v: &[(String, String)]| {
                v.iter()
                    .map(|(a, b)| format!("{a:?} {}", short(b)))
                    .collect::<Vec<_>>()
                    .join("\n  ")
            };
            Err(format!("{what}:\n  {}\nexpected:\n  {}\n", l(got), l(want)))
        };
    let res = compare("code blocks of the output", &want, &got)
        .and_then(|_| compare("what the formatters were given", &given, &received))
        .and_then(|_| {
            let w = r
                .warnings
                .iter()
                .filter(|w| w.message.contains("code formatter"))
                .count();
            if w != failures {
                return Err(format!(
                    "{w} warnings for {failures} failures: {:?}",
                    r.warnings
                        .iter()
                        .map(|w| short(&w.message))
                        .collect::<Vec<_>>()
                ));
            }
            if took > limit {
                return Err(format!("the timeouts were not kept: {took} s"));
            }
            Ok(())
        });
    Case::of(s, interesting, res)
}

fn mixed(g: &mut G) -> Case {
    let mut v = Vec::new();
    for _ in 0..g.usz(1, 3) {
        v.push(if g.coin() {
            *g.pick(fake::GOOD)
        } else {
            *g.pick(fake::BAD)
        });
    }
    run(g, &v, false, 1)
}

/// More code than pipes hold.
fn large(g: &mut G) -> Case {
    let mut v = Vec::new();
    for _ in 0..g.usz(1, 2) {
        v.push(if g.p(2, 3) {
            *g.pick(fake::GOOD)
        } else {
            *g.pick(fake::BAD)
        });
    }
    run(g, &v, true, 1)
}

/// Formatters that do not end.
fn hang(g: &mut G) -> Case {
    let mut v = vec![*g.pick(fake::HANG)];
    if g.coin() {
        v.push(*g.pick(fake::GOOD));
    }
    let big = g.coin();
    run(g, &v, big, 1)
}
