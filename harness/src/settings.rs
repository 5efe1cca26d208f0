//! The documented settings of a configuration file, and how they become options.

use crate::engine::G;
use crate::opts;
use hongdown::{CodeFormatter, Options};
use std::collections::BTreeMap;
use toml::Value;

pub enum Kind {
    Bool,
    /// Smallest and largest value.
    Int(i64, i64),
    Enum(&'static [&'static str]),
    Words(&'static [&'static str]),
    Text(&'static [&'static str]),
    Style,
    Dash,
}

pub struct Setting {
    /// Name in a configuration file.
    pub path: &'static str,
    /// Name in `Options`; none for the choice of files.
    pub opt: Option<&'static str>,
    /// Name in JavaScript.
    pub js: Option<&'static str>,
    pub kind: Kind,
}

const fn s(path: &'static str, opt: &'static str, js: &'static str, kind: Kind) -> Setting {
    Setting {
        path,
        opt: Some(opt),
        js: Some(js),
        kind,
    }
}

const NOUNS: &[&str] = &["MyCompany", "Working", "Go", "Swift", "HONGDOWN", "Title"];
const GLOBS: &[&str] = &["*.md", "**/*.md", "docs/*.md", "a.md", "*.txt"];
const NO_MAX: i64 = 1_000_000;

pub const SETTINGS: &[Setting] = &[
    Setting {
        path: "include",
        opt: None,
        js: None,
        kind: Kind::Words(GLOBS),
    },
    Setting {
        path: "exclude",
        opt: None,
        js: None,
        kind: Kind::Words(GLOBS),
    },
    Setting {
        path: "git_aware",
        opt: None,
        js: None,
        kind: Kind::Bool,
    },
    s(
        "line_width",
        "line_width",
        "lineWidth",
        Kind::Int(8, NO_MAX),
    ),
    s("heading.setext_h1", "setext_h1", "setextH1", Kind::Bool),
    s("heading.setext_h2", "setext_h2", "setextH2", Kind::Bool),
    s(
        "heading.sentence_case",
        "heading_sentence_case",
        "headingSentenceCase",
        Kind::Bool,
    ),
    s(
        "heading.proper_nouns",
        "heading_proper_nouns",
        "headingProperNouns",
        Kind::Words(NOUNS),
    ),
    s(
        "heading.common_nouns",
        "heading_common_nouns",
        "headingCommonNouns",
        Kind::Words(NOUNS),
    ),
    s(
        "unordered_list.unordered_marker",
        "unordered_marker",
        "unorderedMarker",
        Kind::Enum(&["-", "*", "+"]),
    ),
    s(
        "unordered_list.leading_spaces",
        "leading_spaces",
        "leadingSpaces",
        Kind::Int(0, 3),
    ),
    s(
        "unordered_list.trailing_spaces",
        "trailing_spaces",
        "trailingSpaces",
        Kind::Int(0, 3),
    ),
    s(
        "unordered_list.indent_width",
        "indent_width",
        "indentWidth",
        Kind::Int(1, NO_MAX),
    ),
    s(
        "ordered_list.odd_level_marker",
        "odd_level_marker",
        "oddLevelMarker",
        Kind::Enum(&[".", ")"]),
    ),
    s(
        "ordered_list.even_level_marker",
        "even_level_marker",
        "evenLevelMarker",
        Kind::Enum(&[".", ")"]),
    ),
    s(
        "ordered_list.pad",
        "ordered_list_pad",
        "orderedListPad",
        Kind::Enum(&["start", "end"]),
    ),
    s(
        "ordered_list.indent_width",
        "ordered_list_indent_width",
        "orderedListIndentWidth",
        Kind::Int(1, NO_MAX),
    ),
    s(
        "code_block.fence_char",
        "fence_char",
        "fenceChar",
        Kind::Enum(&["~", "`"]),
    ),
    s(
        "code_block.min_fence_length",
        "min_fence_length",
        "minFenceLength",
        Kind::Int(3, NO_MAX),
    ),
    s(
        "code_block.space_after_fence",
        "space_after_fence",
        "spaceAfterFence",
        Kind::Bool,
    ),
    s(
        "code_block.default_language",
        "default_language",
        "defaultLanguage",
        Kind::Text(&["", "text", "rust", "c++"]),
    ),
    s(
        "thematic_break.style",
        "thematic_break_style",
        "thematicBreakStyle",
        Kind::Style,
    ),
    s(
        "thematic_break.leading_spaces",
        "thematic_break_leading_spaces",
        "thematicBreakLeadingSpaces",
        Kind::Int(0, 3),
    ),
    s(
        "punctuation.curly_double_quotes",
        "curly_double_quotes",
        "curlyDoubleQuotes",
        Kind::Bool,
    ),
    s(
        "punctuation.curly_single_quotes",
        "curly_single_quotes",
        "curlySingleQuotes",
        Kind::Bool,
    ),
    s(
        "punctuation.curly_apostrophes",
        "curly_apostrophes",
        "curlyApostrophes",
        Kind::Bool,
    ),
    s("punctuation.ellipsis", "ellipsis", "ellipsis", Kind::Bool),
    s("punctuation.en_dash", "en_dash", "enDash", Kind::Dash),
    s("punctuation.em_dash", "em_dash", "emDash", Kind::Dash),
];

fn text(x: &str) -> Value {
    Value::String(x.into())
}

fn words(v: &[&str]) -> Value {
    Value::Array(v.iter().map(|x| text(x)).collect())
}

/// A value in the documented range.
pub fn valid(g: &mut G, k: &Kind) -> Value {
    match k {
        Kind::Bool => Value::Boolean(g.coin()),
        Kind::Int(lo, hi) => Value::Integer(
            if *hi < NO_MAX || g.coin() {
                lo + g.below(6.min(hi - lo + 1) as u64) as i64
            } else {
                *g.pick(&[10, 20, 40, 60, 80, 100, 4])
            }
            .max(*lo),
        ),
        Kind::Enum(v) | Kind::Text(v) => text(g.s(v)),
        Kind::Words(v) => words(&(0..g.below(4)).map(|_| g.s(v)).collect::<Vec<_>>()),
        Kind::Style => {
            let c = g.s(&["*", "-", "_"]);
            let sep = g.s(&["", " ", "  ", "\t"]);
            text(&vec![c; g.usz(3, 8)].join(sep))
        }
        Kind::Dash => {
            if g.p(1, 4) {
                Value::Boolean(false)
            } else {
                text(g.s(&["--", "---", "-", "~~", "<->", "\\", "&-"]))
            }
        }
    }
}

/// A value outside of it.
pub fn invalid(g: &mut G, k: &Kind) -> Value {
    let int = |g: &mut G| Value::Integer(*g.pick(&[0, 1, 5, -1]));
    match k {
        Kind::Bool => match g.below(4) {
            0 => text(g.s(&["true", "false", "yes", ""])),
            1 => int(g),
            2 => words(&[]),
            _ => Value::Float(1.0),
        },
        Kind::Int(lo, hi) => match g.below(8) {
            0 => text(&valid(g, k).to_string()),
            1 => Value::Float(4.0),
            2 => Value::Boolean(g.coin()),
            3 => Value::Integer(-1 - g.below(5) as i64),
            4 => Value::Integer(i64::MIN),
            5 | 6 if *hi < NO_MAX => Value::Integer(hi + 1 + g.below(5) as i64),
            7 if *hi < NO_MAX => Value::Integer(i64::MAX),
            _ => Value::Integer(lo - 1 - g.below(*lo as u64 + 1) as i64),
        },
        Kind::Enum(v) => match g.below(6) {
            0 => int(g),
            1 => Value::Boolean(g.coin()),
            2 => text(""),
            3 => text(&format!("{} ", g.s(v))),
            4 => text(&g.s(v).repeat(2)),
            _ => text(g.s(&["#", "dash", "tilde", "START", "End", ":", "–", "x", "left"])),
        },
        Kind::Words(v) => match g.below(5) {
            0 => text(g.s(v)),
            1 => Value::Boolean(g.coin()),
            2 => Value::Array(vec![text(g.s(v)), Value::Integer(1)]),
            3 => Value::Array(vec![words(&[g.s(v)])]),
            _ => int(g),
        },
        Kind::Text(_) => match g.below(3) {
            0 => int(g),
            1 => Value::Boolean(g.coin()),
            _ => words(&["text"]),
        },
        Kind::Style => match g.below(4) {
            0 => int(g),
            1 => words(&["-", "-", "-"]),
            _ => {
                let c = g.s(&["*", "-", "_"]);
                let o = g.s(&["*", "-", "_", "=", "+", "x", "–"]);
                let mut v = vec![c; g.usz(0, 5)];
                if v.len() > 2 {
                    if o == c {
                        v.truncate(2);
                    } else {
                        let i = g.usz(0, v.len());
                        v.insert(i, o);
                    }
                }
                text(&v.join(g.s(&["", " "])))
            }
        },
        Kind::Dash => match g.below(4) {
            0 => Value::Boolean(true),
            1 => int(g),
            2 => words(&["--"]),
            _ => text(g.s(&["", " ", "- -", "--\t", "–", "—", "-\n-", "é"])),
        },
    }
}

fn shuffle(g: &mut G, v: &mut [String]) {
    for i in 1..v.len() {
        v.swap(i, g.usz(0, i));
    }
}

/// Settings by name. Formatters are `code_block.formatters.LANGUAGE`.
pub type Map = BTreeMap<String, Value>;

/// The configuration file with these settings, written in some way.
pub fn render(g: &mut G, m: &Map, extra: &str) -> String {
    let mut top: Vec<String> = Vec::new();
    if !extra.is_empty() {
        top.push(extra.into());
    }
    let mut sections: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (p, v) in m {
        match p.split_once('.') {
            None => top.push(format!("{p} = {v}")),
            Some((a, b)) => sections.entry(a).or_default().push(format!("{b} = {v}")),
        }
    }
    let mut rest: Vec<String> = Vec::new();
    for (a, v) in sections {
        match g.below(4) {
            0 => top.extend(v.iter().map(|x| format!("{a}.{x}"))),
            1 => top.push(format!("{a} = {{ {} }}", v.join(", "))),
            _ => rest.push(format!("\n[{a}]\n{}", v.join("\n"))),
        }
    }
    shuffle(g, &mut top);
    shuffle(g, &mut rest);
    top.extend(rest);
    if g.p(1, 5) {
        top.insert(0, "# Settings".into());
    }
    top.join("\n") + "\n"
}

/// Some settings with values in range. The two dashes are not the same.
pub fn some(g: &mut G, n: u64, d: u64) -> Map {
    let mut m = Map::new();
    for s in SETTINGS {
        if g.p(n, d) {
            m.insert(s.path.into(), valid(g, &s.kind));
        }
    }
    for l in ["rust", "c++", "text"] {
        if g.p(n, d * 2) {
            let c = words(*g.pick(&[
                &["/usr/bin/tr", "a-z", "A-Z"] as &[&str],
                &["/bin/cat"],
                &["/usr/bin/tr", "a-z", "b-za"],
                &["/bin/false"],
            ]));
            let v = if g.coin() {
                c
            } else {
                let mut t = toml::Table::new();
                t.insert("command".into(), c);
                t.insert("timeout".into(), Value::Integer(*g.pick(&[5, 10, 60])));
                Value::Table(t)
            };
            m.insert(
                format!(
                    "code_block.formatters.{}",
                    if l == "c++" { "\"c++\"" } else { l }
                ),
                v,
            );
        }
    }
    m
}

/// Whether both dashes are written the same.
pub fn same_dashes(m: &Map) -> bool {
    let em = m.get("punctuation.em_dash").cloned().unwrap_or(text("--"));
    m.get("punctuation.en_dash") == Some(&em) && em != Value::Boolean(false)
}

/// The options for these settings.
pub fn options(m: &Map) -> Options {
    let mut j = serde_json::Map::new();
    for s in SETTINGS {
        if let (Some(o), Some(v)) = (s.opt, m.get(s.path)) {
            let v = if *v == Value::Boolean(false) && matches!(s.kind, Kind::Dash) {
                serde_json::Value::String(String::new())
            } else {
                serde_json::to_value(v).expect("HARNESS: value")
            };
            j.insert(o.into(), v);
        }
    }
    let mut o = opts::from_json(&serde_json::Value::Object(j));
    for (p, v) in m {
        if let Some(l) = p.strip_prefix("code_block.formatters.") {
            let strings = |v: &Value| {
                v.as_array()
                    .unwrap()
                    .iter()
                    .map(|x| x.as_str().unwrap().to_string())
                    .collect()
            };
            let f = match v {
                Value::Table(t) => CodeFormatter {
                    command: strings(&t["command"]),
                    timeout_secs: t
                        .get("timeout")
                        .map(|x| x.as_integer().unwrap() as u64)
                        .unwrap_or(5),
                },
                v => CodeFormatter {
                    command: strings(v),
                    timeout_secs: 5,
                },
            };
            o.code_formatters.insert(l.trim_matches('"').into(), f);
        }
    }
    o
}

/// A document that shows most settings.
pub const DOC: &str = r#"Title Of The HONGDOWN Document
==============================

Working With Go And Swift
-------------------------

Text with "double" and 'single' quotations, it's an apostrophe... And a dash -- or---two - or ~~ and <-> or \\ &-.
A [link](https://example.com/x) in a paragraph that is long enough to need wrapping at the widths people usually choose for it.

### Third MyCompany Title

 -  One
     -  Two
         -  Three

 1. First
     1. Nested
         1. Deep
 2. Second
 3. x
 4. x
 5. x
 6. x
 7. x
 8. x
 9. x
 10. x

---

~~~~
no language
~~~~

~~~~ rust
fn main() {}
~~~~

~~~~ c++
int i;
~~~~

~~~~~~ text
~~~~
~~~~~~
"#;
