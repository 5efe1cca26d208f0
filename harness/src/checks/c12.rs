use super::*;
use hongdown::DashSetting;

pub fn check() -> Check {
    Check {
        id: "C12",
        rule: "the text has at least one pattern that an enabled option replaces",
        assumptions: &["a dash pattern does not contain another one that is replaced before it"],
        parts: vec![
            ("alphabet", alphabet, 180_000, 3_000_000),
            ("sentences", sentences, 90_000, 2_000_000),
            ("inlines", inlines, 80_000, 1_500_000),
            ("any", any, 80_000, 800_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            reversible(&d, &fmt(&d, &o), &o)
        }),
    }
}

fn pat(d: &DashSetting) -> Option<&str> {
    match d {
        DashSetting::Pattern(p) => Some(p.as_str()),
        DashSetting::Disabled => None,
    }
}

/// Whether `b` is `a` with patterns of enabled options replaced by their characters.
fn aligned(a: &str, b: &str, o: &Options) -> Result<(), String> {
    let mut rest = a;
    for c in b.chars() {
        if let Some(r) = rest.strip_prefix(c) {
            rest = r;
            continue;
        }
        let p = match c {
            '\u{201c}' | '\u{201d}' if o.curly_double_quotes => Some("\""),
            '\u{2018}' if o.curly_single_quotes => Some("'"),
            '\u{2019}' if o.curly_single_quotes || o.curly_apostrophes => Some("'"),
            '\u{2026}' if o.ellipsis => Some("..."),
            '\u{2014}' => pat(&o.em_dash),
            '\u{2013}' => pat(&o.en_dash),
            _ => None,
        };
        match p.and_then(|p| rest.strip_prefix(p)) {
            Some(r) => rest = r,
            None => {
                return Err(format!(
                    "{c:?} stands where the source has {:?}",
                    rest.chars().take(8).collect::<String>()
                ));
            }
        }
    }
    if rest.is_empty() {
        Ok(())
    } else {
        Err(format!("{rest:?} is missing"))
    }
}

/// Trees equal except for replacements in text.
fn reversible(d: &str, out: &str, o: &Options) -> Result<(), String> {
    let f = Fold {
        default_language: o.default_language.clone(),
        ..Fold::default()
    };
    let (a, b) = (parse(d, &f), parse(out, &f));
    both(&a, &b, o).map_err(|m| format!("{m}\n--- output\n{out}"))
}

fn both(a: &N, b: &N, o: &Options) -> Result<(), String> {
    if a.tag != b.tag || a.kids.len() != b.kids.len() {
        return Err(format!(
            "{:?} with {} children became {:?} with {}",
            a.tag,
            a.kids.len(),
            b.tag,
            b.kids.len()
        ));
    }
    if a.tag == "text" {
        aligned(&a.text, &b.text, o)
            .map_err(|m| format!("{:?} became {:?}: {m}", a.text, b.text))?;
    } else if a.text != b.text {
        return Err(format!("{} {:?} became {:?}", a.tag, a.text, b.text));
    }
    for (x, y) in a.kids.iter().zip(&b.kids) {
        both(x, y, o)?;
    }
    Ok(())
}

/// Nothing that an enabled option replaces is left in text.
fn complete(out: &str, o: &Options) -> Result<(), String> {
    let r = parse(out, &Fold::default());
    let mut e = None;
    // The texts of reference links are kept as written.
    let mut skip = std::collections::HashSet::new();
    r.walk(&mut |n| {
        if n.tag.starts_with("link ") || n.tag.starts_with("image ") {
            n.walk(&mut |m| {
                skip.insert(m as *const N);
            });
        }
        if skip.contains(&(n as *const N)) {
            return;
        }
        if n.tag == "text" && e.is_none() {
            if o.curly_double_quotes && n.text.contains('"') {
                e = Some(format!("a straight double quote is left in {:?}", n.text));
            }
            if o.ellipsis && n.text.contains("...") {
                e = Some(format!("three dots are left in {:?}", n.text));
            }
            for p in [pat(&o.em_dash), pat(&o.en_dash)].into_iter().flatten() {
                if p.len() > 1 && n.text.contains(p) {
                    e = Some(format!("{p:?} is left in {:?}", n.text));
                }
            }
        }
    });
    e.map_or(Ok(()), |e| Err(format!("{e}\n--- output\n{out}")))
}

fn opts(g: &mut G) -> Options {
    let mut o = Options {
        curly_double_quotes: g.coin(),
        curly_single_quotes: g.coin(),
        curly_apostrophes: g.coin(),
        ellipsis: g.coin(),
        line_width: hongdown::LineWidth::new(1000).unwrap(),
        ..Options::default()
    };
    let (em, en) = *g.pick(&[
        ("--", ""),
        ("", ""),
        ("---", "--"),
        ("", "--"),
        ("-", ""),
        ("--", "-"),
        ("", "-"),
        ("-", "--"),
    ]);
    o.em_dash = crate::opts::dash(em);
    o.en_dash = crate::opts::dash(en);
    o
}

/// The dash rules: longer patterns anywhere, single characters between white space; em dashes first.
fn dashes(t: &str, o: &Options) -> String {
    let mut t = t.to_string();
    for (p, c) in [(pat(&o.em_dash), "\u{2014}"), (pat(&o.en_dash), "\u{2013}")] {
        let Some(p) = p else { continue };
        if p.len() > 1 {
            t = t.replace(p, c);
        } else {
            t = t
                .split(' ')
                .map(|w| if w == p { c } else { w })
                .collect::<Vec<_>>()
                .join(" ");
        }
    }
    t
}

fn one_line(d: &str, out: &str) -> Result<String, String> {
    let r = parse(out, &Fold::default());
    match r.kids.as_slice() {
        [p] if p.tag == "p" && p.kids.len() == 1 && p.kids[0].tag == "text" => {
            Ok(p.kids[0].text.clone())
        }
        _ => Err(format!(
            "{d:?} is no longer one paragraph of text\n--- output\n{out}"
        )),
    }
}

/// Any short text over an alphabet of what the rules look at.
fn alphabet(g: &mut G) -> Case {
    let o = opts(g);
    let mut t = String::from("x ");
    for _ in 0..g.usz(1, 14) {
        t.push_str(g.s(&[
            "a", "'", "\"", " ", "s", "-", "--", "...", ".", "9", "(", ")", ",", "S", "é", "漢",
            "?", "{", "}", "---", "'s", "n't", "\u{2019}", "\u{201c}", "\u{2026}", "\u{2014}",
        ]));
    }
    t.push_str(" x");
    let t = squash(&t);
    let s = show(&o, &t);
    note(&s);
    let out = fmt(&t, &o);
    let r = (|| {
        let got = one_line(&t, &out)?;
        let err = |m: String| Err(format!("{m}\n--- output\n{out}"));
        if let Err(m) = aligned(&t, &got, &o) {
            return err(m);
        }
        complete(&out, &o)?;
        let mut want = dashes(&t, &o);
        if o.ellipsis && !t.contains(".....") {
            want = want.replace("...", "\u{2026}");
        }
        let q = |s: &str| {
            s.replace(['\u{2018}', '\u{2019}'], "'")
                .replace(['\u{201c}', '\u{201d}'], "\"")
        };
        if !t.contains(".....") && q(&got) != q(&want) {
            return err(format!("expected {want:?} apart from quotes, got {got:?}"));
        }
        Ok(())
    })();
    Case::of(
        s,
        dashes(&t, &o) != t
            || o.ellipsis && t.contains("...")
            || o.curly_double_quotes && t.contains('"')
            || (o.curly_single_quotes || o.curly_apostrophes) && t.contains('\''),
        r,
    )
}

const W: &[&str] = &[
    "word",
    "The",
    "a",
    "I",
    "naïve",
    "漢字",
    "GitHub",
    "x",
    "2024",
    "considerable",
];

struct S<'a> {
    g: &'a mut G,
    o: Options,
    hits: usize,
}

/// Source and expected text.
type P = (String, String);

impl S<'_> {
    fn same(&self, s: &str) -> P {
        (s.to_string(), s.to_string())
    }

    fn apostrophe(&mut self, s: &str) -> P {
        self.hits += 1;
        (
            s.to_string(),
            if self.o.curly_apostrophes {
                s.replace('\'', "\u{2019}")
            } else {
                s.to_string()
            },
        )
    }

    fn unit(&mut self) -> P {
        match self.g.w(&[6, 3, 2, 2]) {
            0 => {
                let w = self.g.s(W);
                self.same(w)
            }
            1 => {
                let w = self.g.s(&[
                    "don't",
                    "it's",
                    "rock'n'roll",
                    "l'été",
                    "John's",
                    "o'clock",
                    "you're",
                    "1990's",
                    "v1.2's",
                    "(term)'s",
                    "{item}'s",
                    "C++'s",
                    "F#'s",
                    "Yahoo!'s",
                    "Inc.'s",
                    "Foo™'s",
                ]);
                self.apostrophe(w)
            }
            2 => {
                let (a, b) = *self.g.pick(&[
                    ("etc...", "etc…"),
                    ("so....", "so…."),
                    ("e.g.", "e.g."),
                    ("no..", "no.."),
                    ("...and", "…and"),
                    ("a...b", "a…b"),
                ]);
                self.hits += 1;
                (
                    a.to_string(),
                    if self.o.ellipsis { b } else { a }.to_string(),
                )
            }
            _ => {
                let w = self.g.s(&[
                    "--",
                    "a--b",
                    "-",
                    "well-known",
                    "---",
                    "1--2",
                    "x---y",
                    "----",
                ]);
                self.hits += 1;
                (w.to_string(), dashes(w, &self.o))
            }
        }
    }

    fn join(&mut self, a: P, b: P, brk: bool) -> P {
        let sep = if brk && !b.0.starts_with('-') && self.g.p(1, 8) {
            "\n"
        } else {
            " "
        };
        (format!("{}{sep}{}", a.0, b.0), format!("{} {}", a.1, b.1))
    }

    fn units(&mut self, n: usize) -> P {
        let mut p = self.unit();
        for _ in 1..n {
            let q = self.unit();
            p = self.join(p, q, true);
        }
        p
    }

    /// A quotation; the words at its edges are plain.
    fn quote(&mut self, double: bool, depth: usize) -> P {
        let on = if double {
            self.o.curly_double_quotes
        } else {
            self.o.curly_single_quotes
        };
        self.hits += 1;
        let first = self.g.s(&["alpha", "The", "é", "word"]);
        let mut p = self.same(first);
        for _ in 0..self.g.usz(0, 3) {
            let q = if depth > 0 && self.g.p(1, 4) {
                self.quote(!double, 0)
            } else {
                // few and short, so that single quotations stay within their limit
                match self.g.w(&[4, 2]) {
                    0 => {
                        let w = self.g.s(&["a", "to", "beta", "x-y"]);
                        self.same(w)
                    }
                    _ => {
                        let w = self.g.s(&["don't", "it's"]);
                        self.apostrophe(w)
                    }
                }
            };
            p = self.join(p, q, true);
        }
        if self.g.coin() {
            let w = self.g.s(&["end", "z", "Q"]);
            let q = self.same(w);
            p = self.join(p, q, true);
        } else if p.0.ends_with(['\'', '"']) {
            let q = self.same("z");
            p = self.join(p, q, false);
        }
        // an opening single quotation mark looks 50 characters ahead for its partner
        if !double && p.0.chars().count() > 45 {
            p = self.same("alpha");
        }
        if self.g.p(1, 5) {
            let e = self.g.s(&[".", ",", "!", "?"]);
            p = (p.0 + e, p.1 + e);
        }
        let (s, (a, b)) = if double {
            ("\"", ("\u{201c}", "\u{201d}"))
        } else {
            ("'", ("\u{2018}", "\u{2019}"))
        };
        if on {
            (format!("{s}{}{s}", p.0), format!("{a}{}{b}", p.1))
        } else {
            (format!("{s}{}{s}", p.0), format!("{s}{}{s}", p.1))
        }
    }
}

/// Sentences of contractions, possessives, quotations, dashes and dots whose replacement is known by construction.
fn run(s: &mut S, first: Option<P>) -> P {
    let n = s.g.usz(1, 6);
    let mut whole = first;
    for _ in 0..n {
        let k = s.g.w(&[4, 3, 3, 1, 1]);
        let mut q = match k {
            0 => {
                let n = s.g.usz(1, 3);
                s.units(n)
            }
            1 => s.quote(true, 1),
            2 => s.quote(false, 1),
            3 => {
                s.hits += 1;
                (
                    "'90s".to_string(),
                    if s.o.curly_single_quotes {
                        "\u{2019}90s".to_string()
                    } else {
                        "'90s".to_string()
                    },
                )
            }
            // only unambiguous when quotations have been replaced before
            _ if s.o.curly_single_quotes => {
                let w = s.g.s(&["dogs'", "goin'"]);
                s.apostrophe(w)
            }
            _ => s.unit(),
        };
        if (k == 1 || k == 2) && s.g.p(1, 4) {
            let (a, b) = *s.g.pick(&[
                ("(", ")"),
                ("", "."),
                ("", ","),
                ("", ";"),
                ("", ":"),
                ("(", ")."),
                ("{", "}"),
            ]);
            q = (format!("{a}{}{b}", q.0), format!("{a}{}{b}", q.1));
        } else if k == 4 && q.0.ends_with('\'') && s.g.p(1, 2) && !s.o.curly_apostrophes {
            let e = s.g.s(&[".", ",", "...", "--x", ")"]);
            let d = dashes(e, &s.o);
            q = (
                q.0 + e,
                q.1 + &if s.o.ellipsis {
                    d.replace("...", "…")
                } else {
                    d
                },
            );
        }
        let Some(p) = whole else {
            whole = Some(q);
            continue;
        };
        // quotations joined by dashes
        let dash = pat(&s.o.em_dash) == Some("--")
            && (k == 1 || k == 2 && s.o.curly_single_quotes)
            && s.g.p(1, 5)
            && !p.0.ends_with(['-', '.'])
            && (!p.0.ends_with("dogs'") && !p.0.ends_with("goin'"));
        whole = Some(if dash {
            (
                format!("{}--{}", p.0, q.0),
                format!("{}\u{2014}{}", p.1, q.1),
            )
        } else {
            s.join(p, q, true)
        });
    }
    whole.expect("HARNESS: at least one")
}

fn sentences(g: &mut G) -> Case {
    let o = opts(g);
    let mut s = S { g, o, hits: 0 };
    let intro = s.same("Intro");
    let mut p = run(&mut s, Some(intro));
    if s.g.coin() {
        let q = s.same("z");
        p = s.join(p, q, false);
    }
    finish(s, p)
}

/// The same in emphasis, links and between code spans: each text is replaced by itself.
fn inlines(g: &mut G) -> Case {
    let o = opts(g);
    let mut s = S { g, o, hits: 0 };
    let mut p: P = ("Intro".into(), "Intro".into());
    let mut plain = true;
    for _ in 0..s.g.usz(1, 4) {
        if plain {
            let (a, b, q) = match s.g.below(5) {
                0 => ("*", "*", run(&mut s, None)),
                1 => ("**", "**", run(&mut s, None)),
                2 => ("[", "](x.md)", run(&mut s, None)),
                3 => ("*`x`", "*", s.same("")),
                _ => ("`", "`", s.same("a'b\"c...d--e")),
            };
            let code = if a == "*`x`" { "x" } else { "" };
            p = (
                format!("{} {a}{}{b}", p.0, q.0),
                format!("{} {code}{}", p.1, q.1),
            );
        } else {
            if s.g.p(1, 3) {
                let q = s.apostrophe("'s");
                p = (p.0 + &q.0, p.1 + &q.1);
            }
            if s.g.p(3, 4) {
                let q = run(&mut s, None);
                p = (format!("{} {}", p.0, q.0), format!("{} {}", p.1, q.1));
            }
        }
        plain = !plain;
    }
    finish(s, p)
}

fn finish(s: S, p: P) -> Case {
    let (o, hits) = (s.o, s.hits);
    let sh = show(&o, &p.0);
    note(&sh);
    let out = fmt(&p.0, &o);
    let got = squash(&parse(&out, &Fold::default()).all_text());
    let r = if got == p.1 {
        reversible(&p.0, &out, &o)
    } else {
        Err(format!("expected {:?}\n     got {got:?}", p.1))
    };
    Case::of(sh, hits > 0, r)
}

fn any(g: &mut G) -> Case {
    let mut o = opts(g);
    o.line_width = hongdown::LineWidth::new(*g.pick(&[80usize, 20, 1000, 40])).unwrap();
    let mut c = full(&o);
    c.punct = 25;
    c.max_words = 15;
    let literal = g.coin();
    if !literal {
        c.escape = 0;
        c.entity = 0;
        c.abbr = 0;
    }
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let r =
        reversible(&d, &out, &o).and_then(|_| if literal { Ok(()) } else { complete(&out, &o) });
    Case::of(s, d.contains(['\'', '"']) || d.contains("..."), r)
}
