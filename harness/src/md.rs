//! Canonical trees: what a Markdown document means in hongdown's dialect, as comrak parses it.

use comrak::nodes::{AstNode, ListType, NodeValue, TableAlignment};
use comrak::{Arena, parse_document};

pub fn copts() -> comrak::Options<'static> {
    let mut o = comrak::Options::default();
    o.extension.front_matter_delimiter = Some("---".to_string());
    o.extension.table = true;
    o.extension.description_lists = true;
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.tasklist = true;
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct N {
    pub tag: String,
    pub text: String,
    pub kids: Vec<N>,
    pub line: usize,
}

impl N {
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.dump_into(0, &mut s);
        s
    }
    fn dump_into(&self, d: usize, s: &mut String) {
        for _ in 0..d {
            s.push_str("  ");
        }
        s.push_str(&self.tag);
        if !self.text.is_empty() {
            s.push(' ');
            s.push_str(&format!("{:?}", self.text));
        }
        s.push('\n');
        for k in &self.kids {
            k.dump_into(d + 1, s);
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
    pub fn find<'a>(&'a self, pred: &dyn Fn(&N) -> bool) -> Vec<&'a N> {
        let mut v = Vec::new();
        self.walk(&mut |n| {
            if pred(n) {
                v.push(n)
            }
        });
        v
    }
    pub fn all_text(&self) -> String {
        let mut s = String::new();
        self.walk(&mut |n| {
            if n.tag == "text" || n.tag == "code" {
                s.push_str(&n.text)
            }
        });
        s
    }
}

/// How trees are folded before they are compared.
#[derive(Clone)]
pub struct Fold {
    /// Map every typographic replacement back to a common form.
    pub punct: bool,
    pub em: Option<String>,
    pub en: Option<String>,
    /// Lowercase heading text and unify its quotes.
    pub heading_case: bool,
    pub default_language: String,
}

impl Default for Fold {
    fn default() -> Self {
        Fold {
            punct: false,
            em: None,
            en: None,
            heading_case: false,
            default_language: String::new(),
        }
    }
}

pub fn fold_of(o: &hongdown::Options) -> Fold {
    use hongdown::DashSetting;
    let pat = |d: &DashSetting| match d {
        DashSetting::Pattern(p) => Some(p.as_str().to_string()),
        DashSetting::Disabled => None,
    };
    Fold {
        punct: o.curly_double_quotes
            || o.curly_single_quotes
            || o.curly_apostrophes
            || o.ellipsis
            || pat(&o.em_dash).is_some()
            || pat(&o.en_dash).is_some(),
        em: pat(&o.em_dash),
        en: pat(&o.en_dash),
        heading_case: o.heading_sentence_case,
        default_language: o.default_language.clone(),
    }
}

pub fn fold_text(s: &str, f: &Fold) -> String {
    if !f.punct {
        return s.to_string();
    }
    let mut t = s
        .replace(['\u{2018}', '\u{2019}'], "'")
        .replace(['\u{201c}', '\u{201d}'], "\"")
        .replace('\u{2026}', "...");
    if let Some(p) = &f.em {
        t = t.replace('\u{2014}', p);
    }
    if let Some(p) = &f.en {
        t = t.replace('\u{2013}', p);
    }
    t
}

pub fn squash(s: &str) -> String {
    let mut out = String::new();
    let mut sp = false;
    for c in s.chars() {
        if c == ' ' || c == '\t' || c == '\n' {
            if !sp {
                out.push(' ');
            }
            sp = true;
        } else {
            out.push(c);
            sp = false;
        }
    }
    out
}

pub fn parse(src: &str, f: &Fold) -> N {
    let arena = Arena::new();
    let root = parse_document(&arena, src, &copts());
    let mut feet: Vec<N> = Vec::new();
    let mut n = conv(root, f, false, &mut feet);
    feet.sort_by(|a, b| a.tag.cmp(&b.tag));
    n.kids.extend(feet);
    n
}

/// Whether comrak's own renderer sees the same thing; used as a second opinion in tests of the harness.
pub fn html(src: &str) -> String {
    let mut o = copts();
    o.render.r#unsafe = true;
    comrak::markdown_to_html(src, &o)
}

fn inline_kids<'a>(node: &'a AstNode<'a>, f: &Fold, heading: bool, feet: &mut Vec<N>) -> Vec<N> {
    let mut v: Vec<N> = Vec::new();
    for c in node.children() {
        let n = conv(c, f, heading, feet);
        if n.tag == "text" {
            if let Some(l) = v.last_mut()
                && l.tag == "text"
            {
                l.text.push_str(&n.text);
                continue;
            }
        }
        v.push(n);
    }
    let m = v.len();
    for i in 0..m {
        if v[i].tag == "text" {
            let mut t = squash(&v[i].text);
            if i + 1 < m && v[i + 1].tag == "br" {
                t = t.trim_end().to_string();
            }
            if i > 0 && v[i - 1].tag == "br" {
                t = t.trim_start().to_string();
            }
            t = fold_text(&t, f);
            if heading && f.heading_case {
                t = fold_text(
                    &t,
                    &Fold {
                        punct: true,
                        ..f.clone()
                    },
                )
                .to_uppercase()
                .to_lowercase();
            }
            v[i].text = t;
        }
    }
    v.retain(|n| n.tag != "text" || !n.text.is_empty());
    v
}

fn conv<'a>(node: &'a AstNode<'a>, f: &Fold, heading: bool, feet: &mut Vec<N>) -> N {
    let d = node.data.borrow();
    let line = d.sourcepos.start.line;
    let mk = |tag: String, text: String, kids: Vec<N>| N {
        tag,
        text,
        kids,
        line,
    };
    let blocks = |feet: &mut Vec<N>| -> Vec<N> {
        let mut v = Vec::new();
        for c in node.children() {
            let is_foot = matches!(c.data.borrow().value, NodeValue::FootnoteDefinition(_));
            let n = conv(c, f, false, feet);
            if is_foot {
                feet.push(n);
            } else {
                v.push(n);
            }
        }
        v
    };
    match &d.value {
        NodeValue::Document => {
            let k = blocks(feet);
            mk("doc".into(), String::new(), k)
        }
        NodeValue::FrontMatter(s) => mk("front".into(), s.trim().to_string(), vec![]),
        NodeValue::BlockQuote => {
            let k = blocks(feet);
            mk("quote".into(), String::new(), k)
        }
        NodeValue::Alert(a) => {
            let k = blocks(feet);
            mk(
                format!("alert {:?}", a.alert_type),
                a.title.clone().unwrap_or_default(),
                k,
            )
        }
        NodeValue::List(l) => {
            let k = blocks(feet);
            let kind = match l.list_type {
                ListType::Bullet => "ul",
                ListType::Ordered => "ol",
            };
            // A blank line is put between a paragraph of an item and a block that is not a list, which makes
            // a tight list loose.
            let other = k.iter().any(|i| {
                i.kids
                    .iter()
                    .skip(1)
                    .any(|b| !(b.tag.starts_with("ul ") || b.tag.starts_with("ol ")))
            });
            let t = if other {
                "any"
            } else if l.tight {
                "tight"
            } else {
                "loose"
            };
            mk(format!("{kind} {t}"), String::new(), k)
        }
        NodeValue::Item(_) => {
            let k = blocks(feet);
            mk("li".into(), String::new(), k)
        }
        NodeValue::TaskItem(t) => {
            let k = blocks(feet);
            mk(
                format!("li [{}]", if t.symbol.is_some() { "x" } else { " " }),
                String::new(),
                k,
            )
        }
        NodeValue::DescriptionList => {
            let k = blocks(feet);
            mk("dl".into(), String::new(), k)
        }
        NodeValue::DescriptionItem(_) => {
            let k = blocks(feet);
            mk("di".into(), String::new(), k)
        }
        NodeValue::DescriptionTerm => {
            let k = blocks(feet);
            mk("dt".into(), String::new(), k)
        }
        NodeValue::DescriptionDetails => {
            let k = blocks(feet);
            mk("dd".into(), String::new(), k)
        }
        NodeValue::CodeBlock(c) => {
            let mut info = c.info.trim().to_string();
            if info.is_empty() {
                info = f.default_language.clone();
            }
            mk(format!("codeblock {info:?}"), c.literal.clone(), vec![])
        }
        NodeValue::HtmlBlock(h) => mk("html".into(), dedent(&h.literal), vec![]),
        NodeValue::Paragraph => {
            let k = inline_kids(node, f, false, feet);
            mk("p".into(), String::new(), k)
        }
        NodeValue::Heading(h) => {
            let k = inline_kids(node, f, true, feet);
            mk(format!("h{}", h.level), String::new(), k)
        }
        NodeValue::ThematicBreak => mk("hr".into(), String::new(), vec![]),
        NodeValue::FootnoteDefinition(n) => {
            let k = blocks(feet);
            mk(format!("footnote {}", n.name), String::new(), k)
        }
        NodeValue::Table(t) => {
            let al: String = t
                .alignments
                .iter()
                .map(|a| match a {
                    TableAlignment::None => 'n',
                    TableAlignment::Left => 'l',
                    TableAlignment::Center => 'c',
                    TableAlignment::Right => 'r',
                })
                .collect();
            let k = blocks(feet);
            mk(format!("table {al}"), String::new(), k)
        }
        NodeValue::TableRow(h) => {
            let k = blocks(feet);
            mk(if *h { "th" } else { "tr" }.into(), String::new(), k)
        }
        NodeValue::TableCell => {
            let k = inline_kids(node, f, false, feet);
            mk("td".into(), String::new(), k)
        }
        NodeValue::Text(t) => mk("text".into(), t.to_string(), vec![]),
        NodeValue::SoftBreak => mk("text".into(), " ".into(), vec![]),
        NodeValue::LineBreak => mk("br".into(), String::new(), vec![]),
        NodeValue::Code(c) => mk("code".into(), c.literal.clone(), vec![]),
        NodeValue::HtmlInline(h) => mk("rawhtml".into(), squash(h), vec![]),
        NodeValue::Emph => {
            let k = inline_kids(node, f, heading, feet);
            mk("em".into(), String::new(), k)
        }
        NodeValue::Strong => {
            let k = inline_kids(node, f, heading, feet);
            mk("strong".into(), String::new(), k)
        }
        NodeValue::Link(l) => {
            let k = inline_kids(node, f, heading, feet);
            mk(format!("link <{}> {:?}", l.url, l.title), String::new(), k)
        }
        NodeValue::Image(l) => {
            let k = inline_kids(node, f, heading, feet);
            mk(format!("image <{}> {:?}", l.url, l.title), String::new(), k)
        }
        NodeValue::FootnoteReference(r) => mk(format!("fnref {}", r.name), String::new(), vec![]),
        other => mk(format!("other {other:?}"), String::new(), vec![]),
    }
}

/// Without trailing blank lines and the indentation that all lines share (nesting may add to it).
pub fn dedent(s: &str) -> String {
    let s = s.trim_end();
    let ind = |l: &str| l.len() - l.trim_start_matches(' ').len();
    let k = s
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(ind)
        .min()
        .unwrap_or(0);
    s.lines()
        .map(|l| {
            if l.len() >= k && l.is_char_boundary(k) {
                &l[k..]
            } else {
                ""
            }
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// First differing line of two dumps, with context.
pub fn diff(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut i = 0;
    while i < x.len() && i < y.len() && x[i] == y[i] {
        i += 1;
    }
    Some(format!(
        "line {}: {:?} became {:?}",
        i + 1,
        x.get(i).copied().unwrap_or("(nothing)"),
        y.get(i).copied().unwrap_or("(nothing)")
    ))
}
