use super::*;
use std::sync::OnceLock;

pub fn check() -> Check {
    Check {
        id: "C13",
        rule: "the heading has at least two words whose case a rule decides",
        assumptions: &["the built-in proper nouns are the lines of data/proper-nouns.tsv"],
        parts: vec![
            ("words", words, 150_000, 2_000_000),
            ("directives", directives, 40_000, 400_000),
            ("any", any, 60_000, 600_000),
            ("off", off, 30_000, 300_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            same_meaning(&d, &fmt(&d, &o), &o)
        }),
    }
}

/// Built-in nouns: of one word, and of several.
fn builtin() -> &'static (Vec<String>, Vec<String>) {
    static L: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();
    L.get_or_init(|| {
        let t = include_str!("/repo/data/proper-nouns.tsv");
        let all = t
            .lines()
            .map(str::trim)
            .filter(|l| !l.is_empty() && !l.starts_with('#'));
        let plain = |l: &&str| {
            l.chars()
                .all(|c| c.is_alphanumeric() || " .+-/".contains(c))
                && l.chars().next().unwrap().is_alphanumeric()
                && l.chars().last().unwrap().is_alphanumeric()
        };
        let (a, b): (Vec<&str>, Vec<&str>) = all.filter(plain).partition(|l| !l.contains(' '));
        // A word that is also the beginning of a longer noun is left to that.
        (
            a.iter().map(|s| s.to_string()).collect(),
            b.iter().map(|s| s.to_string()).collect(),
        )
    })
}

const COMMON: &[&str] = &[
    "word",
    "considerable",
    "the",
    "of",
    "début",
    "über",
    "naïve",
    "ñandú",
    "formatter",
    "zq",
];
const KEPT: &[&str] = &[
    "API",
    "NASA",
    "XYZQ",
    "APIs",
    "PDFs",
    "U.S.",
    "Ph.D.",
    "R.O.K.",
    "HTTP2",
    "漢字",
    "한국어",
    "日本語",
    "42",
    "1.5",
    "C3PO",
];

/// Stands for an apostrophe that is curly if the option is on.
const APOSTROPHE: &str = "\u{e000}";

struct H<'a> {
    g: &'a mut G,
    proper: Vec<String>,
    common: Vec<String>,
    first: bool,
    /// The word before ended with a delimiter: capitals are kept.
    after: bool,
    rules: usize,
    /// Mostly nouns of several words.
    dense: bool,
}

fn cap(w: &str) -> String {
    let mut c = w.chars();
    let f = c.next().unwrap();
    f.to_uppercase().collect::<String>() + &c.as_str().to_lowercase()
}

impl H<'_> {
    fn case(&mut self, w: &str) -> String {
        match self.g.w(&[3, 3, 1]) {
            0 => cap(w),
            1 => w.to_lowercase(),
            // alternating, beginning with a small letter: neither an acronym nor all capitals
            _ => w
                .chars()
                .enumerate()
                .map(|(i, c)| {
                    if i % 2 == 1 {
                        c.to_uppercase().collect::<String>()
                    } else {
                        c.to_lowercase().collect()
                    }
                })
                .collect(),
        }
    }

    /// The rule for a word that is not special.
    fn plain(&mut self, src: &str) -> String {
        let up = src
            .chars()
            .find(|c| c.is_alphanumeric())
            .is_some_and(|c| c.is_uppercase());
        let r = if self.first || self.after && up {
            cap(src)
        } else {
            src.to_lowercase()
        };
        self.rules += 1;
        r
    }

    /// One word or noun: source and what it becomes.
    fn word(&mut self) -> (String, String) {
        let several = if self.dense { 40 } else { 2 };
        let r = match self.g.w(&[8, 3, 3, several, 2, 2, 1]) {
            0 => {
                let w = self.g.s(COMMON);
                let s = self.case(w);
                let e = self.plain(&s);
                (s, e)
            }
            1 => {
                let w = self.g.s(KEPT);
                (w.to_string(), w.to_string())
            }
            2 => {
                let b = &builtin().0;
                let i = self.g.usz(0, b.len() - 1);
                let w = b[i].clone();
                let s = self.noun_case(&w);
                let listed = self
                    .common
                    .iter()
                    .any(|c| c.to_lowercase() == w.to_lowercase());
                let user = self
                    .proper
                    .iter()
                    .find(|c| c.to_lowercase() == w.to_lowercase())
                    .cloned();
                let e = if s == w.to_uppercase() && w.chars().any(|c| c.is_alphabetic())
                    || acronym(&s)
                {
                    s.clone()
                } else if listed {
                    // parts of compounds follow the rules one by one
                    if w.contains(['-', '/', '.']) {
                        return self.word();
                    }
                    self.plain(&s)
                } else {
                    user.unwrap_or(w)
                };
                self.rules += 1;
                (s, e)
            }
            3 => {
                let b = &builtin().1;
                let i = self.g.usz(0, b.len() - 1);
                let w = b[i].clone();
                if self
                    .common
                    .iter()
                    .any(|c| w.to_lowercase().contains(&c.to_lowercase()))
                {
                    return self.word();
                }
                let s = w
                    .split(' ')
                    .map(|p| self.noun_case(p))
                    .collect::<Vec<_>>()
                    .join(" ");
                self.rules += 1;
                (s, w)
            }
            4 => {
                if self.proper.is_empty() {
                    return self.word();
                }
                let i = self.g.usz(0, self.proper.len() - 1);
                let w = self.proper[i].clone();
                if self
                    .common
                    .iter()
                    .any(|c| c.to_lowercase() == w.to_lowercase())
                {
                    return self.word();
                }
                let mut s = w
                    .split(' ')
                    .map(|p| self.noun_case(p))
                    .collect::<Vec<_>>()
                    .join(" ");
                self.rules += 1;
                if s.contains('\'') && self.g.p(1, 3) {
                    s = s.replace('\'', "\u{2019}");
                }
                let e = if !w.contains([' ', '\'', ':', '+', '!'])
                    && !w.starts_with('.')
                    && acronym(&s)
                {
                    s.clone()
                } else {
                    w
                };
                (s, e)
            }
            5 => {
                let (s, e) = *self.g.pick(&[
                    ("I", "I"),
                    ("i", "I"),
                    ("I'm", "I\u{e000}m"),
                    ("i've", "I\u{e000}ve"),
                    ("I'LL", "I'LL"),
                    ("i'd", "I\u{e000}d"),
                ]);
                self.rules += 1;
                (s.into(), e.replace('\'', APOSTROPHE))
            }
            _ => {
                let (a, b) = (self.g.s(COMMON), self.g.s(COMMON));
                let (a, b) = (cap(a), self.case(b));
                let sep = self.g.s(&["-", "/"]);
                let x = self.plain(&a);
                (
                    format!("{a}{sep}{b}"),
                    format!("{x}{sep}{}", b.to_lowercase()),
                )
            }
        };
        r
    }

    fn noun_case(&mut self, w: &str) -> String {
        match self.g.w(&[2, 2, 2]) {
            0 => w.to_string(),
            1 => w.to_lowercase(),
            _ => cap(w),
        }
    }

    fn unit(&mut self) -> (String, String) {
        let k = self.g.w(&[12, 2, 2, 2, 1, 2, 1]);
        match k {
            0 | 1 => {
                let (mut s, mut e) = self.word();
                if k == 1 {
                    let t = self.g.s(&["'s", "\u{2019}s", ",", "!", "?", "."]);
                    // what follows the pronoun makes it another word, unless it is a capital already
                    let pronoun = s.to_lowercase() == "i"
                        || s.to_lowercase().starts_with("i'")
                        || s.ends_with("'s")
                        || s.ends_with("\u{2019}s");
                    let digits = s.chars().any(|c| c.is_ascii_digit());
                    let last = s.chars().last().unwrap();
                    if !pronoun
                        && !(t.ends_with('s')
                            && (digits || !last.is_alphabetic() && !"+!".contains(last)))
                    {
                        s.push_str(t);
                        e.push_str(&t.replace('\'', APOSTROPHE));
                    }
                }
                self.first = false;
                self.after = false;
                (s, e)
            }
            2 => {
                let w = self.g.s(&["`Code Span`", "`x`", "`API \"q\"`", "``A`B``"]);
                self.first = false;
                self.after = false;
                (w.into(), w.into())
            }
            3 => {
                // quoted: sentence case of its own if it begins with a capital, as it is otherwise
                let (f, a) = (self.first, self.after);
                let double = self.g.coin();
                let w = self.g.s(COMMON);
                let up = self.g.coin();
                let mut s = if up { cap(w) } else { w.to_lowercase() };
                let mut e = s.clone();
                for _ in 0..self.g.usz(0, 2) {
                    let w = self.g.s(COMMON);
                    let w = self.case(w);
                    e = format!("{e} {}", if up { w.to_lowercase() } else { w.clone() });
                    s = format!("{s} {w}");
                }
                let _ = (f, a);
                self.first = false;
                self.after = false;
                self.rules += 1;
                if double {
                    (format!("\"{s}\""), format!("\u{201c}{e}\u{201d}"))
                } else {
                    (format!("'{s}'"), format!("\u{2018}{e}\u{2019}"))
                }
            }
            4 => {
                let (mut s, mut e) = self.word();
                if s.to_lowercase().starts_with('i') {
                    (s, e) = ("API".into(), "API".into());
                }
                let (a, b) = *self.g.pick(&[
                    ("(", ")"),
                    ("*", "*"),
                    ("**", "**"),
                    ("[", "](https://x.y/Z)"),
                    ("[", "](./Z)"),
                ]);
                self.first = false;
                self.after = false;
                (format!("{a}{s}{b}"), format!("{a}{e}{b}"))
            }
            5 => {
                let (s, e) = self.word();
                let d = self.g.s(&[":", ";", " —", " –"]);
                self.first = false;
                self.after = true;
                (format!("{s}{d}"), format!("{e}{d}"))
            }
            _ => {
                let s = self.g.s(&["🚀", "+", "=", "&"]);
                (s.into(), s.into())
            }
        }
    }
}

/// Begins with two capitals, or has letters separated by periods.
fn acronym(w: &str) -> bool {
    let c: Vec<char> = w.chars().collect();
    c.len() > 1 && c[0].is_uppercase() && c[1].is_uppercase()
        || c.len() > 2
            && c.windows(2).any(|p| p[0] == '.' && p[1].is_alphabetic())
            && c.iter().any(|c| c.is_uppercase())
}

fn nouns(g: &mut G) -> (Vec<String>, Vec<String>) {
    let mut p = Vec::new();
    for _ in 0..g.usz(0, 2) {
        p.push(
            g.s(&[
                "Gamma",
                "Foo Bar",
                "zEta",
                "MyCompany",
                "my-Lib",
                "Qux Quux Corge",
                "iThing",
                "@Foo/bar",
                "Æther",
                "React",
                "C++",
                ".Net",
                "Yahoo!",
                "O'Reilly",
                "McDonald's",
                "Re:Zero",
                "l'Oréal Foo",
            ])
            .to_string(),
        );
    }
    let mut c = Vec::new();
    for _ in 0..g.usz(0, 2) {
        c.push(
            g.s(&[
                "Go", "swift", "Python", "France", "MARKDOWN", "zeta", "React", "Rust",
            ])
            .to_string(),
        );
    }
    (p, c)
}

/// The text of the first heading of the output, as written.
fn heading(out: &str) -> String {
    let l = out
        .lines()
        .find(|l| !l.trim().is_empty() && !l.starts_with("<!--"))
        .unwrap_or_default();
    l.trim_start_matches('#').trim().to_string()
}

/// Whether the end of one unit and the beginning of the next make a noun of several words.
fn straddled(a: &str, b: &str) -> bool {
    let (a, b) = (a.to_lowercase(), b.to_lowercase());
    builtin().1.iter().any(|n| {
        let n = n.to_lowercase();
        n.match_indices(' ')
            .any(|(i, _)| a.ends_with(&n[..i]) && b.starts_with(&n[i + 1..]))
    })
}

fn make(g: &mut G) -> (String, String, Vec<String>, Vec<String>, usize) {
    let (p, c) = nouns(g);
    let dense = g.p(1, 40);
    let n = if dense { g.usz(12, 40) } else { g.usz(1, 7) };
    let mut h = H {
        g,
        proper: p,
        common: c,
        first: true,
        after: false,
        rules: 0,
        dense,
    };
    let (mut s, mut e) = (String::new(), String::new());
    for i in 0..n {
        let (a, b) = h.unit();
        if i > 0 {
            let sep = if straddled(&s, &a) { " + " } else { " " };
            s.push_str(sep);
            e.push_str(sep);
        }
        s.push_str(&a);
        e.push_str(&b);
    }
    (s, e, h.proper, h.common, h.rules)
}

fn apostrophes(e: &str, o: &Options) -> String {
    let curly = o.curly_apostrophes && o.heading_sentence_case;
    e.replace(APOSTROPHE, if curly { "\u{2019}" } else { "'" })
}

fn options(g: &mut G) -> Options {
    let mut o = crate::opts::plain();
    o.curly_apostrophes = g.p(1, 3);
    o.heading_sentence_case = true;
    o.setext_h1 = g.coin();
    o.setext_h2 = g.coin();
    o
}

/// Links of headings become references.
fn inline_links(s: &str) -> String {
    let mut t = s.replace("](https://x.y/Z)", "]");
    // a text that is in use as the label of something else gets a numbered one
    for i in 1..9 {
        t = t.replace(&format!("][{i}]"), "]");
    }
    t
}

fn words(g: &mut G) -> Case {
    let (s, e, p, c, rules) = make(g);
    let mut o = options(g);
    o.heading_proper_nouns = p;
    o.heading_common_nouns = c;
    let d = format!("{} {s}\n", "#".repeat(g.usz(1, 6)));
    let sh = show(&o, &d);
    note(&sh);
    let out = fmt(&d, &o);
    let e = apostrophes(&e, &o);
    let (got, want) = (inline_links(&heading(&out)), inline_links(&e));
    let r = if got == want {
        Ok(())
    } else {
        Err(format!("expected {want:?}\n     got {got:?}"))
    };
    Case::of(sh, rules >= 2, r)
}

/// Directives act like the lists of the options, from where they stand on.
fn directives(g: &mut G) -> Case {
    let (s, e, p, c, rules) = make(g);
    let o = options(g);
    let mut top = Vec::new();
    let sp = |g: &mut G| g.s(&[", ", ",", " , "]);
    if !p.is_empty() {
        let j = sp(g);
        top.push(format!("<!-- hongdown-proper-nouns: {} -->", p.join(j)));
    }
    if !c.is_empty() {
        let j = sp(g);
        top.push(format!("<!-- hongdown-common-nouns: {} -->", c.join(j)));
    }
    if top.len() == 2 && g.coin() {
        top.swap(0, 1);
    }
    top.push(format!("{} {s}", "#".repeat(g.usz(1, 6))));
    let d = top.join("\n\n") + "\n";
    let sh = show(&o, &d);
    note(&sh);
    let out = fmt(&d, &o);
    let e = apostrophes(&e, &o);
    let (got, want) = (inline_links(&heading(&out)), inline_links(&e));
    let mut r = if got == want {
        Ok(())
    } else {
        Err(format!("expected {want:?}\n     got {got:?}"))
    };
    for t in &top[..top.len() - 1] {
        if r.is_ok() && out.matches(t.as_str()).count() != 1 {
            r = Err(format!("{t} is not kept\n--- output\n{out}"));
        }
    }
    Case::of(sh, top.len() > 1 && rules >= 2, r)
}

/// Headings of any content differ only in case and quotation marks.
fn any(g: &mut G) -> Case {
    let mut o = crate::opts::any(g);
    crate::opts::sentence_case(g, &mut o);
    let mut c = full(&o);
    c.heading = 60;
    c.max_words = 6;
    c.max_blocks = 4;
    // compared by what headings alone show
    c.footdef = 0;
    c.fnref = 0;
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let f = fold_of(&o);
    let pick = |d: &str| -> Vec<String> {
        parse(d, &f)
            .find(&|n| n.tag.len() == 2 && n.tag.starts_with('h') && n.tag != "hr")
            .iter()
            .map(|n| n.dump())
            .collect()
    };
    let (a, b) = (pick(&d), pick(&out));
    let r = if a == b {
        Ok(())
    } else {
        let i = (0..a.len().max(b.len()))
            .find(|i| a.get(*i) != b.get(*i))
            .unwrap();
        Err(format!(
            "heading {i}: {:?} became {:?}\n--- output\n{out}",
            a.get(i),
            b.get(i)
        ))
    };
    Case::of(s, a.len() >= 2, r)
}

/// With sentence case off, lists and directives do nothing.
fn off(g: &mut G) -> Case {
    let (s, _, p, c, _) = make(g);
    let mut o = crate::opts::plain();
    let lvl = "#".repeat(g.usz(1, 6));
    let mut d = format!("{lvl} {s}\n");
    if g.coin() && !p.is_empty() {
        d = format!("<!-- hongdown-proper-nouns: {} -->\n\n{d}", p.join(", "));
    } else {
        o.heading_proper_nouns = p;
        o.heading_common_nouns = c;
    }
    let sh = show(&o, &d);
    note(&sh);
    let out = fmt(&d, &o);
    let (got, want) = (inline_links(&heading(&out)), inline_links(&s));
    let r = if got == want {
        Ok(())
    } else {
        Err(format!("expected {want:?}\n     got {got:?}"))
    };
    Case::of(sh, s.contains(' '), r)
}
