//! Structured generator of Markdown documents.

use crate::engine::G;

/// What the generator may produce. Each number is a weight; 0 switches the construct off.
#[derive(Clone)]
pub struct Cfg {
    pub depth: usize,
    pub max_blocks: usize,
    pub max_words: usize,
    // blocks
    pub heading: u32,
    pub para: u32,
    pub code: u32,
    pub quote: u32,
    pub alert: u32,
    pub bullets: u32,
    pub ordered: u32,
    pub table: u32,
    pub html: u32,
    pub hr: u32,
    pub dl: u32,
    pub footdef: u32,
    pub linkdef: u32,
    pub abbr: u32,
    // inlines
    pub unicode: u32,
    pub punct: u32,
    pub escape: u32,
    pub hostile: u32,
    pub span: u32,
    pub emph: u32,
    pub link: u32,
    pub reflink: u32,
    pub image: u32,
    pub auto: u32,
    pub rawhtml: u32,
    pub fnref: u32,
    pub hard: u32,
    pub entity: u32,
    pub front: bool,
    /// Leave out apostrophes at the edge of a word.
    pub no_apos: bool,
    /// Code of any content, instead of from a fixed list.
    pub wild_code: bool,
}

impl Cfg {
    pub fn zero() -> Cfg {
        Cfg {
            depth: 3,
            max_blocks: 6,
            max_words: 30,
            heading: 0,
            para: 10,
            code: 0,
            quote: 0,
            alert: 0,
            bullets: 0,
            ordered: 0,
            table: 0,
            html: 0,
            hr: 0,
            dl: 0,
            footdef: 0,
            linkdef: 0,
            abbr: 0,
            unicode: 0,
            punct: 0,
            escape: 0,
            hostile: 0,
            span: 0,
            emph: 0,
            link: 0,
            reflink: 0,
            image: 0,
            auto: 0,
            rawhtml: 0,
            fnref: 0,
            hard: 0,
            entity: 0,
            front: false,
            no_apos: false,
            wild_code: false,
        }
    }
    pub fn full() -> Cfg {
        Cfg {
            depth: 3,
            max_blocks: 7,
            max_words: 30,
            heading: 6,
            para: 12,
            code: 5,
            quote: 4,
            alert: 2,
            bullets: 5,
            ordered: 4,
            table: 3,
            html: 2,
            hr: 2,
            dl: 2,
            footdef: 2,
            linkdef: 2,
            abbr: 1,
            unicode: 4,
            punct: 6,
            escape: 2,
            hostile: 0,
            span: 4,
            emph: 4,
            link: 4,
            reflink: 3,
            image: 2,
            auto: 1,
            rawhtml: 1,
            fnref: 2,
            hard: 1,
            entity: 1,
            front: true,
            no_apos: false,
            wild_code: false,
        }
    }
}

pub const PLAIN: &[&str] = &[
    "a",
    "word",
    "The",
    "alpha",
    "beta",
    "Gamma",
    "to",
    "of",
    "delta",
    "epsilon",
    "formatter",
    "Markdown",
    "is",
    "document",
    "considerable",
    "in",
    "extraordinarily",
    "line",
    "internationalization",
    "I",
    "zeta",
    "API",
    "x",
];
pub const UNI: &[&str] = &[
    "héllo",
    "漢字",
    "한국어",
    "👍",
    "naïve",
    "日本語テキスト",
    "Ünïcödé",
    "café",
    "Ελληνικά",
    "Привет",
    "中文",
    "e\u{301}a",
    "ﬁn",
    "全角",
    "全角\u{3000}空白",
    "10\u{a0}km",
    "🎉🎉",
    "–",
    "…",
    "ß",
    "İstanbul",
];
pub const PUNCT: &[&str] = &[
    "don't",
    "\"quoted\"",
    "'single'",
    "wait...",
    "a--b",
    "end.",
    "what?",
    "so,",
    "semi;",
    "colon:",
    "(paren)",
    "50%",
    "$5",
    "user@host",
    "a/b",
    "C++",
    "key=value",
    "it's",
    "dogs'",
    "'90s",
    "5'",
    "\"two",
    "words\"",
    "--",
    "well-known",
    "e.g.",
    "1.5",
    "#tag",
    "AT&T",
    "a+b",
    "x=1",
    "foo_bar",
    "A.B.",
    "note:",
    "..",
    "....",
    "!",
];
pub const HOSTILE: &[&str] = &[
    "*", "_", "`", "[", "]", "<", ">", "&", "#", "+", "-", "1.", "2)", "\\", "|", "~", "!", "**",
    "__", "``", "[x]", "[ ]", "<b", "&amp", "=", "==", "---", "***", "~~~", "```", "~~", "a*b",
    "a_b_", "_c_d", "*e*f", "]:", "[^", "(", ")", "!]", "\\\\", ":", "=>", "|-|", "::", "<!--",
    "-->", "$", "^", "\u{a0}", "C:\\dir", "\\d", "{", "}",
];
pub const ESCAPES: &[&str] = &[
    "\\*",
    "\\_",
    "\\`",
    "\\[",
    "\\]",
    "\\\\",
    "\\<",
    "\\#",
    "\\>",
    "\\.",
    "\\-",
    "\\+",
    "\\!",
    "\\(",
    "\\)",
    "\\&",
    "\\~",
    "\\\"",
    "\\'",
    "\\*not\\*",
    "\\[not\\]",
    "1\\.",
    "\\|",
    "\\$",
];
pub const ENTITIES: &[&str] = &[
    "&amp;",
    "&fjlig;",
    "&nvlt;",
    "&ThickSpace;",
    "&lt;",
    "&gt;",
    "&nbsp;",
    "&copy;",
    "&#42;",
    "&quot;",
    "&hellip;",
    "&#x2a;",
    "&ast;",
];

pub struct D<'a> {
    pub g: &'a mut G,
    pub c: Cfg,
    pub foots: Vec<String>,
    pub labels: Vec<String>,
    pub in_link: bool,
    pub in_table: bool,
    pub in_heading: bool,
    pub oneline: bool,
    pub last: usize,
    interrupts: bool,
    no_indent: bool,
    used: Vec<String>,
}

pub const FEATURES: &[&str] = &[
    "heading", "code", "quote", "alert", "bullets", "ordered", "table", "html", "hr", "dl",
    "footdef", "linkdef", "abbr", "unicode", "punct", "escape", "hostile", "span", "emph", "link",
    "reflink", "image", "auto", "rawhtml", "fnref", "hard", "entity", "front",
];

impl Cfg {
    pub fn get(&mut self, name: &str) -> &mut u32 {
        match name {
            "heading" => &mut self.heading,
            "para" => &mut self.para,
            "code" => &mut self.code,
            "quote" => &mut self.quote,
            "alert" => &mut self.alert,
            "bullets" => &mut self.bullets,
            "ordered" => &mut self.ordered,
            "table" => &mut self.table,
            "html" => &mut self.html,
            "hr" => &mut self.hr,
            "dl" => &mut self.dl,
            "footdef" => &mut self.footdef,
            "linkdef" => &mut self.linkdef,
            "abbr" => &mut self.abbr,
            "unicode" => &mut self.unicode,
            "punct" => &mut self.punct,
            "escape" => &mut self.escape,
            "hostile" => &mut self.hostile,
            "span" => &mut self.span,
            "emph" => &mut self.emph,
            "link" => &mut self.link,
            "reflink" => &mut self.reflink,
            "image" => &mut self.image,
            "auto" => &mut self.auto,
            "rawhtml" => &mut self.rawhtml,
            "fnref" => &mut self.fnref,
            "hard" => &mut self.hard,
            "entity" => &mut self.entity,
            _ => panic!("HARNESS: no feature {name}"),
        }
    }
}

impl<'a> D<'a> {
    pub fn new(g: &'a mut G, c: Cfg) -> D<'a> {
        D {
            g,
            c,
            foots: Vec::new(),
            labels: Vec::new(),
            in_link: false,
            in_table: false,
            in_heading: false,
            oneline: false,
            last: 0,
            interrupts: false,
            no_indent: false,
            used: Vec::new(),
        }
    }

    pub fn doc(&mut self) -> String {
        let mut lines: Vec<String> = Vec::new();
        if self.c.front && self.g.p(1, 12) {
            self.g.label("front");
            lines.push("---".into());
            for _ in 0..self.g.usz(1, 3) {
                lines.push(
                    self.g
                        .s(&["title: x", "a:  [1,2]", "# c", "key: \"v\"..."])
                        .into(),
                );
            }
            lines.push("---".into());
            lines.push(String::new());
        }
        // names that references may use
        let nf = self.g.usz(0, 3);
        for i in 0..nf {
            let n = self.g.s(&["1", "2", "note", "10", "abc", "fn-a", "é"]);
            if self.c.fnref > 0 && !self.foots.iter().any(|x| x == n) {
                self.foots.push(n.to_string());
            }
            let _ = i;
        }
        let mut defs: Vec<String> = Vec::new();
        if self.c.reflink > 0 {
            for _ in 0..self.g.usz(0, 3) {
                let l = self
                    .g
                    .s(&["label", "Foo bar", "1", "2", "x-y", "漢字", "Api ref"]);
                if !self.labels.iter().any(|x| x == l) {
                    self.labels.push(l.to_string());
                    let u = self.url();
                    let t = self.title();
                    defs.push(format!("[{l}]: {u}{t}"));
                }
            }
        }
        let nb = self.g.usz(1, self.c.max_blocks);
        let mut body = self.blocks(nb, self.c.depth);
        lines.append(&mut body);
        let fs = self.foots.clone();
        // A footnote that only unreferenced footnotes refer to is out of domain.
        for f in &fs {
            if !self.used.contains(f) {
                lines.push(String::new());
                lines.push(format!("See[^{f}]"));
            }
        }
        for f in &fs {
            lines.push(String::new());
            let mut b = self.footdef(f);
            lines.append(&mut b);
        }
        if !defs.is_empty() {
            lines.push(String::new());
            lines.extend(defs);
        }
        let mut s = lines.join("\n");
        if s.starts_with("---") && !self.g.labels.contains(&"front") {
            // would begin front matter
            s.insert_str(0, "Intro\n\n");
        }
        match self.g.w(&[12, 2, 1]) {
            0 => s.push('\n'),
            1 => {}
            _ => s.push_str("\n\n\n"),
        }
        s
    }

    pub fn blocks(&mut self, n: usize, depth: usize) -> Vec<String> {
        let mut out: Vec<String> = Vec::new();
        let mut prev = 0;
        for i in 0..n {
            let mut b = self.block_after(depth, prev);
            prev = self.last;
            if i > 0 {
                for _ in 0..[1, 1, 1, 2, 3][self.g.usz(0, 4)] {
                    out.push(String::new());
                }
            }
            out.append(&mut b);
        }
        out
    }

    pub fn block(&mut self, depth: usize) -> Vec<String> {
        self.block_after(depth, 0)
    }

    /// `prev` is what stands right before. Two lists of the same type in a row are not generated: hongdown writes
    /// both with the same marker, so they become one (a listed finding).
    pub fn block_after(&mut self, depth: usize, prev: usize) -> Vec<String> {
        let c = &self.c;
        let nest = if depth == 0 { 0 } else { 1 };
        let top = if depth == self.c.depth { 1 } else { 0 };
        let ws = [
            c.para,
            c.heading * top,
            c.code,
            c.hr * top,
            c.quote * nest,
            c.alert * nest,
            c.bullets * nest,
            c.ordered * nest,
            c.table * top,
            c.html * top,
            c.dl * top,
            c.abbr * top,
        ];
        let mut k = self.g.w(&ws);
        if k == prev && (k == 6 || k == 7) {
            k = 0;
        }
        let b = self.block_of(k, depth);
        self.last = k;
        b
    }

    fn block_of(&mut self, k: usize, depth: usize) -> Vec<String> {
        match k {
            0 => self.para(),
            1 => self.heading(),
            2 => self.code(),
            3 => {
                self.g.label("hr");
                vec![
                    self.g
                        .s(&["---", "***", "___", "- - -", " * * *", "-----------"])
                        .to_string(),
                ]
            }
            4 => self.quote(depth - 1),
            5 => self.alert(depth - 1),
            6 => self.list(false, depth - 1),
            7 => self.list(true, depth - 1),
            8 => self.table(),
            9 => self.html(),
            10 => self.dl(),
            _ => {
                self.g.label("abbr");
                vec![
                    self.g
                        .s(&[
                            "*[HTML]: Hyper Text Markup Language",
                            "*[API]: An \"interface\"...",
                        ])
                        .to_string(),
                ]
            }
        }
    }

    pub fn para(&mut self) -> Vec<String> {
        let n = self.g.usz(1, self.c.max_words);
        let mut v = Vec::new();
        if self.c.linkdef > 0 && self.c.reflink > 0 && self.g.p(1, 40) {
            // definitions right before the text
            self.g.label("linkdef");
            for _ in 0..self.g.usz(1, 2) {
                let l = format!("def {}", self.labels.len());
                let u = self.url();
                let t = self.title();
                match (t.is_empty(), self.g.p(1, 3)) {
                    (false, true) => v.extend([format!("[{l}]: {u}"), format!("  {}", t.trim())]),
                    _ => v.push(format!("[{l}]: {u}{t}")),
                }
                self.labels.push(l);
            }
        }
        let mut t = self.inlines(n, true);
        t = self.edge_space(t);
        if !v.is_empty() && t.trim_start().starts_with(['"', '\'', '(', '<', '&']) {
            // would be a title, or an HTML block
            t.insert_str(0, "so, ");
        }
        v.extend(t.split('\n').map(|s| s.to_string()));
        v
    }

    /// Spaces other than the ASCII one are text, also at the beginning and end of a block.
    fn edge_space(&mut self, t: String) -> String {
        if self.c.unicode == 0 || !self.g.p(1, 50) {
            return t;
        }
        self.g.label("edge-space");
        let s = self
            .g
            .s(&["\u{a0}", "\u{3000}", "\u{2003}", "\u{202f}", "\u{2028}"]);
        match self.g.w(&[4, 3, 1]) {
            0 => format!("{s}{t}"),
            2 if !t.contains('[') => s.to_string(),
            _ => format!("{t}{s}"),
        }
    }

    pub fn heading(&mut self) -> Vec<String> {
        self.g.label("heading");
        let lvl = [2, 1, 2, 3, 2, 4, 3, 5, 6][self.g.usz(0, 8)];
        self.in_heading = true;
        let n = self.g.usz(1, 5);
        let t = self.inlines(n, false);
        let t = self.edge_space(t);
        self.in_heading = false;
        if lvl <= 2 && self.g.coin() {
            let ch = if lvl == 1 { "=" } else { "-" };
            let k = self.g.usz(3, 12);
            vec![t, ch.repeat(k)]
        } else if self.g.p(1, 5) {
            vec![format!("{} {} {}", "#".repeat(lvl), t, "#".repeat(lvl))]
        } else {
            vec![format!("{} {}", "#".repeat(lvl), t)]
        }
    }

    /// Lines made of runs of fence characters, indentation, markup and odd characters.
    fn wild_code_lines(&mut self) -> Vec<String> {
        let n = self.g.usz(0, 5);
        let mut v = Vec::new();
        for _ in 0..n {
            let mut l = " ".repeat([0, 0, 0, 1, 2, 3, 4, 7][self.g.usz(0, 7)]);
            for _ in 0..self.g.usz(0, 3) {
                match self.g.w(&[4, 3, 2, 2, 1, 2, 1]) {
                    0 => {
                        let c = if self.g.coin() { "`" } else { "~" };
                        l.push_str(&c.repeat(self.g.usz(1, 8)));
                    }
                    1 => l.push_str(self.g.s(PLAIN)),
                    2 => l.push_str(self.g.s(PUNCT)),
                    3 => l.push_str(self.g.s(HOSTILE)),
                    4 => l.push_str(self.g.s(UNI)),
                    5 => l.push_str(self.g.s(&[
                        "# h",
                        "- i",
                        "> q",
                        "1. o",
                        "[^1]: f",
                        "[a]: http://x.y",
                        "| a |",
                        "---",
                        "<div>",
                        "<!-- hongdown-disable -->",
                        "<!-- hongdown-enable -->",
                        "    ",
                        "\t",
                        "*[A]: b",
                        ":   d",
                        "```",
                        "~~~",
                    ])),
                    _ => l.push_str("  "),
                }
                if self.g.coin() {
                    l.push(' ');
                }
            }
            if l.trim().is_empty() && self.g.coin() {
                l.clear();
            }
            v.push(l);
        }
        v
    }

    pub fn code_lines(&mut self) -> Vec<String> {
        if self.c.wild_code {
            return self.wild_code_lines();
        }
        let n = self.g.usz(0, 4);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(
                self.g
                    .s(&[
                        "x = 1",
                        "  indented();",
                        "",
                        "\"a\" -- 'b'...",
                        "~~~",
                        "```",
                        "~~~~",
                        "````",
                        "~~~~~",
                        "# not a heading",
                        "- not a list",
                        "> not a quote",
                        "漢字",
                        "</div>",
                        "    deep",
                        "[ref]",
                        "[^1]",
                        "tab\there",
                        "trailing  ",
                        "\\*",
                        "| a | b |",
                        "<!-- hongdown-disable -->",
                        "~~~~~~ x",
                        "`````",
                        "it's",
                    ])
                    .to_string(),
            );
        }
        v
    }

    pub fn code(&mut self) -> Vec<String> {
        self.g.label("code");
        let body = self.code_lines();
        if self.g.p(1, 6)
            && !self.no_indent
            && !matches!(self.last, 6 | 7 | 10)
            && body.first().is_some_and(|l| !l.trim().is_empty())
            && body.last().is_some_and(|l| !l.trim().is_empty())
        {
            self.g.label("indented-code");
            return body.iter().map(|l| format!("    {l}")).collect();
        }
        let ch = if self.g.coin() { '`' } else { '~' };
        let longest = body
            .iter()
            .map(|l| l.trim_start().chars().take_while(|c| *c == ch).count())
            .max()
            .unwrap_or(0);
        let n = (longest + 1).max(3 + self.g.usz(0, 2));
        let info = if self.c.wild_code && self.g.coin() {
            self.g.s(&[
                "",
                "rust",
                "c++",
                "a b  c",
                "{.x #y}",
                "r\"q\"",
                "it's--x...",
                "~~",
                "x~~~",
                "漢字",
                "a|b",
                "<b>",
                "*e*",
                "[l]",
            ])
        } else if self.g.p(1, 30) && ch == '~' {
            "a`b"
        } else {
            self.g.s(&[
                "",
                "rust",
                "js",
                "c++",
                "text",
                "rust,ignore",
                "python title=\"x\"",
                "sh hongdown-no-format",
            ])
        };
        let sp = if info.is_empty() {
            ""
        } else if info.starts_with(ch) {
            " "
        } else {
            self.g.s(&["", " "])
        };
        let fence: String = std::iter::repeat_n(ch, n).collect();
        let mut v = vec![format!("{fence}{sp}{info}")];
        v.extend(body);
        v.push(fence);
        v
    }

    fn prefix(lines: Vec<String>, p: &str, lazy_blank: bool) -> Vec<String> {
        lines
            .into_iter()
            .map(|l| {
                if l.is_empty() && lazy_blank {
                    p.trim_end().to_string()
                } else {
                    format!("{p}{l}")
                }
            })
            .collect()
    }

    pub fn quote(&mut self, depth: usize) -> Vec<String> {
        self.g.label("quote");
        let n = self.g.usz(1, 3);
        let b = self.blocks(n, depth);
        let p = if self.g.p(1, 8) && !b.iter().any(|l| l.starts_with([' ', '\t'])) {
            ">"
        } else {
            "> "
        };
        Self::prefix(b, p, true)
    }

    pub fn alert(&mut self, depth: usize) -> Vec<String> {
        self.g.label("alert");
        let n = self.g.usz(1, 2);
        let b = self.blocks(n, depth);
        let k = self
            .g
            .s(&["NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION", "note"]);
        let title = if self.g.p(1, 6) { " Custom title" } else { "" };
        let mut v = vec![format!("> [!{k}]{title}")];
        v.extend(Self::prefix(b, "> ", true));
        v
    }

    pub fn list(&mut self, ordered: bool, depth: usize) -> Vec<String> {
        self.g.label(if ordered { "ordered" } else { "bullets" });
        let n = if self.g.p(1, 20) {
            self.g.usz(9, 12)
        } else {
            self.g.usz(1, 4)
        };
        let loose = self.g.coin();
        let task = !ordered && self.g.p(1, 5);
        // only a list that starts with 1 can follow a paragraph directly
        let start = if ordered && self.interrupts {
            1
        } else if ordered {
            self.g
                .s(&["1", "1", "1", "0", "3", "9"])
                .parse::<usize>()
                .unwrap()
        } else {
            0
        };
        self.interrupts = false;
        let delim = if ordered {
            self.g.s(&[".", ")"])
        } else {
            self.g.s(&["-", "*", "+"])
        };
        let mut out = Vec::new();
        for i in 0..n {
            if i > 0 && loose {
                out.push(String::new());
            }
            let nb = if depth > 0 {
                self.g.w(&[0, 10, 3, 1])
            } else {
                1
            };
            let b = self.item_blocks(nb, depth, loose);
            let lead = if ordered {
                " ".repeat(self.g.w(&[6, 1]))
            } else {
                " ".repeat(self.g.w(&[6, 2]))
            };
            let marker = if ordered {
                format!("{}{}", start + i, delim)
            } else {
                delim.to_string()
            };
            let sp = " ".repeat(1 + self.g.w(&[6, 3, 1]));
            let bx = if task {
                self.g.s(&["[ ] ", "[x] ", "[X] "])
            } else {
                ""
            };
            let first = format!("{lead}{marker}{sp}");
            let ind = " ".repeat(first.len());
            for (j, l) in b.into_iter().enumerate() {
                if j == 0 {
                    out.push(format!("{first}{bx}{l}"));
                } else if l.is_empty() {
                    out.push(String::new());
                } else {
                    out.push(format!("{ind}{l}"));
                }
            }
        }
        out
    }

    fn item_blocks(&mut self, n: usize, depth: usize, loose: bool) -> Vec<String> {
        let mut out = self.para();
        if out[0].starts_with('<') {
            // alone on its line it would be an HTML block, which a nested list does not end
            out[0].insert_str(0, "so, ");
        }
        let mut prev = 0;
        for _ in 1..n {
            if loose {
                out.push(String::new());
                let mut b = self.block_after(depth, prev);
                prev = self.last;
                out.append(&mut b);
            } else {
                // tight: only a nested list can follow
                if self.c.bullets + self.c.ordered == 0 || depth == 0 {
                    break;
                }
                let o = self.c.bullets == 0 || (self.c.ordered > 0 && self.g.coin());
                self.interrupts = true;
                let mut b = self.list(o, depth - 1);
                out.append(&mut b);
                break;
            }
        }
        out
    }

    pub fn table(&mut self) -> Vec<String> {
        self.g.label("table");
        let cols = self.g.usz(1, 4);
        let rows = self.g.usz(0, 3);
        let mut v = Vec::new();
        self.in_table = true;
        let row = |me: &mut Self| -> String {
            let mut s = String::from("|");
            for _ in 0..cols {
                let n = me.g.usz(0, 3);
                let t = if n == 0 {
                    String::new()
                } else {
                    me.inlines(n, false)
                };
                s.push_str(&format!(" {t} |"));
            }
            s
        };
        v.push(row(self));
        let mut s = String::from("|");
        for _ in 0..cols {
            s.push_str(self.g.s(&[" --- |", ":--|", ":-:|", "---:|", "-|"]));
        }
        v.push(s);
        for _ in 0..rows {
            v.push(row(self));
        }
        self.in_table = false;
        v
    }

    pub fn html(&mut self) -> Vec<String> {
        self.g.label("html");
        let s = self.g.s(&[
            "<div class=\"x\">\n  <p>don't -- touch...</p>\n</div>",
            "<!-- a comment -->",
            "<!-- multi\nline \"comment\" -->",
            "<img src=\"a.png\">",
            "<script>\nlet a = '--';\n</script>",
            "<details>\n<summary>x</summary>",
            "</details>",
            "<?php echo 1 ?>",
        ]);
        s.split('\n').map(|s| s.to_string()).collect()
    }

    pub fn dl(&mut self) -> Vec<String> {
        self.g.label("dl");
        let mut v = Vec::new();
        let n = self.g.usz(1, 3);
        for i in 0..n {
            if i > 0 {
                v.push(String::new());
            }
            let k = self.g.usz(1, 3);
            let mut t = self.inlines(k, false);
            if t.starts_with('<') {
                // alone on its line it would be an HTML block
                t.insert_str(0, "term ");
            }
            v.push(t);
            v.push(String::new());
            let nb = self.g.w(&[0, 8, 2]);
            self.no_indent = true;
            let mut b = self.blocks(nb, 0);
            self.no_indent = false;
            let rest = b.split_off(1.min(b.len()));
            v.push(format!(":   {}", b.first().cloned().unwrap_or_default()));
            for l in rest {
                v.push(if l.is_empty() { l } else { format!("    {l}") });
            }
        }
        v
    }

    pub fn footdef(&mut self, name: &str) -> Vec<String> {
        self.g.label("footdef");
        let mut v = Vec::new();
        let depth = self.g.usz(0, self.c.depth.min(1));
        let b = if self.g.p(1, 12) {
            // from the line of the label on, whatever it is
            let n = self.g.usz(1, 3);
            self.no_indent = true;
            let b = self.blocks(n, depth);
            self.no_indent = false;
            b
        } else if self.g.p(1, 4) {
            let n = self.g.usz(1, 2);
            let mut p = self.para();
            p.push(String::new());
            self.no_indent = true;
            p.append(&mut self.blocks(n, depth));
            self.no_indent = false;
            p
        } else {
            self.para()
        };
        for (i, l) in b.into_iter().enumerate() {
            if i == 0 {
                v.push(format!("[^{name}]: {l}"));
            } else if l.is_empty() {
                v.push(l);
            } else {
                v.push(format!("    {l}"));
            }
        }
        v
    }

    pub fn url(&mut self) -> String {
        self.g
            .s(&[
                "https://example.com/",
                "http://a.b/c?d=e&f=g",
                "./local.md",
                "#frag",
                "https://example.com/a_b_c",
                "https://ex.org/x--y...",
                "/abs/path",
                "mailto:a@b.c",
                "https://ex.org/(paren)",
                "img.png",
                "HTTPS://UP.CASE/",
                "httpd.conf",
                "//host/p",
                "a?u=http://b.c",
            ])
            .to_string()
    }

    pub fn title(&mut self) -> String {
        if self.g.p(1, 5) {
            self.g
                .s(&[
                    " \"Title\"",
                    " 'a title'",
                    " (paren)",
                    " \"it's -- x...\"",
                    " 'say \"hi\"'",
                ])
                .to_string()
        } else {
            String::new()
        }
    }

    /// Words and inline markup separated by spaces or (when allowed) line breaks.
    pub fn inlines(&mut self, n: usize, breaks: bool) -> String {
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                let k = if breaks && !self.oneline && !self.in_table && !self.in_heading {
                    self.g
                        .w(&[30, 3, self.c.hard.min(1), self.c.hard.min(1), 1])
                } else {
                    0
                };
                match k {
                    0 => s.push(' '),
                    1 => s.push('\n'),
                    2 => {
                        self.g.label("hard");
                        s.push_str("\\\n")
                    }
                    3 => {
                        self.g.label("hard");
                        s.push_str("  \n")
                    }
                    _ => s.push_str("  "),
                }
            }
            let t = self.inline(breaks, 2);
            if t == "--" && (s.is_empty() || s.ends_with('\n')) {
                // would be an underline, or with a list marker a thematic break
                s.push_str("so,");
                continue;
            }
            if t.starts_with("<!--") && (s.is_empty() || s.ends_with('\n')) {
                // would be an HTML block, with everything on its line
                s.push_str("so, ");
            }
            s.push_str(&t);
        }
        s
    }

    pub fn inline(&mut self, breaks: bool, depth: usize) -> String {
        let c = &self.c;
        let l = if self.in_link { 0 } else { 1 };
        let e = if depth > 0 { 1 } else { 0 };
        let ws = [
            60,
            c.unicode * 3,
            c.punct * 3,
            c.escape,
            c.hostile,
            c.span,
            c.emph * e,
            c.link * l * e,
            c.reflink * l,
            c.image * e,
            c.auto * l,
            c.rawhtml,
            c.fnref * l,
            c.entity,
        ];
        match self.g.w(&ws) {
            0 => self.g.s(PLAIN).to_string(),
            1 => {
                self.g.label("unicode");
                self.g.s(UNI).to_string()
            }
            2 => {
                self.g.label("punct");
                let w = self.g.s(PUNCT);
                let edge = w.starts_with('\'') || w.ends_with('\'');
                if edge && self.c.no_apos {
                    "don't".to_string()
                } else {
                    w.to_string()
                }
            }
            3 => {
                self.g.label("escape");
                self.g.s(ESCAPES).to_string()
            }
            4 => {
                self.g.label("hostile");
                self.g.s(HOSTILE).to_string()
            }
            5 => {
                self.g.label("span");
                self.span()
            }
            6 => {
                self.g.label("emph");
                let d = self.g.s(&["*", "_", "**", "__", "***"]);
                let k = self.g.usz(1, 3);
                let t = self.some(k, breaks, depth - 1);
                // emphasis right inside emphasis is only clear with different characters
                let clash = |c: char| t.starts_with(c) || t.ends_with(c);
                match (d.starts_with('*'), clash('*'), clash('_')) {
                    (_, true, true) => t,
                    (true, true, _) => format!("_{t}_"),
                    (false, _, true) => format!("*{t}*"),
                    _ => format!("{d}{t}{d}"),
                }
            }
            7 => {
                self.g.label("link");
                self.in_link = true;
                let k = self.g.usz(1, 3);
                let t = self.some(k, breaks, depth - 1);
                self.in_link = false;
                let u = self.url();
                let ti = self.title();
                format!("[{t}]({u}{ti})")
            }
            8 => {
                if self.labels.is_empty() {
                    return "ref".into();
                }
                self.g.label("reflink");
                let i = self.g.usz(0, self.labels.len() - 1);
                let l = self.labels[i].clone();
                match self.g.w(&[3, 2, 3]) {
                    0 => format!("[{l}]"),
                    1 => format!("[{l}][]"),
                    _ => {
                        self.in_link = true;
                        let k = self.g.usz(1, 2);
                        let t = self.some(k, breaks, 0);
                        self.in_link = false;
                        format!("[{t}][{l}]")
                    }
                }
            }
            9 => {
                self.g.label("image");
                let k = self.g.usz(0, 2);
                let t = if k == 0 {
                    String::new()
                } else {
                    self.some(k, false, 0)
                };
                let u = self.url();
                let ti = self.title();
                format!("![{t}]({u}{ti})")
            }
            10 => {
                self.g.label("auto");
                self.g
                    .s(&[
                        "<https://auto.link/x>",
                        "<me@host.org>",
                        "<http://a.b/c?d&e>",
                    ])
                    .to_string()
            }
            11 => {
                self.g.label("rawhtml");
                self.g
                    .s(&[
                        "<br>",
                        "<b>bold</b>",
                        "<!-- c -->",
                        "<kbd>Ctrl</kbd>",
                        "<a href=\"x--y...\">z</a>",
                    ])
                    .to_string()
            }
            12 => {
                if self.foots.is_empty() {
                    return "note".into();
                }
                self.g.label("fnref");
                let i = self.g.usz(0, self.foots.len() - 1);
                let f = self.foots[i].clone();
                self.used.push(f.clone());
                format!("x[^{f}]")
            }
            _ => {
                self.g.label("entity");
                self.g.s(ENTITIES).to_string()
            }
        }
    }

    fn some(&mut self, n: usize, breaks: bool, depth: usize) -> String {
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(self.inline(breaks, depth));
        }
        if breaks && !self.in_table && !self.in_heading && !self.oneline && self.g.p(1, 10) {
            v.join("\n")
        } else {
            v.join(" ")
        }
    }

    pub fn span(&mut self) -> String {
        if self.c.wild_code && self.g.coin() {
            let mut t = String::new();
            for i in 0..self.g.usz(1, 3) {
                let one = self.oneline || self.in_table || self.in_heading || self.in_link;
                let broken = i > 0 && !one && self.g.p(1, 6);
                if i > 0 {
                    t.push(if broken { '\n' } else { ' ' });
                }
                t.push_str(match self.g.w(&[3, 2, 2, 1, 1]) {
                    0 => self.g.s(PLAIN),
                    // not at the start of a line, where it could be block markup
                    1 | 2 if broken => self.g.s(&["`a", "a`", "a``", "b"]),
                    1 => self.g.s(PUNCT),
                    2 => self.g.s(HOSTILE),
                    3 => self.g.s(UNI),
                    _ => self.g.s(&["`a", "a`", "a``b", "``a", "a``"]),
                });
            }
            if self.in_table {
                t = t.replace('|', "\\|");
            }
            // At the start of a link text it can look like a label and a definition (a listed finding).
            t = t.replace("]:", "]");
            let runs: Vec<usize> = t.split(|c| c != '`').map(|r| r.len()).collect();
            let mut n = 1;
            while runs.contains(&n) {
                n += 1;
            }
            if n > 2 {
                // the first line would begin a code block
                t = t.replace('\n', " ");
            }
            let q = "`".repeat(n);
            let pad = if t.starts_with('`') || t.ends_with('`') || self.g.p(1, 6) {
                " "
            } else {
                ""
            };
            return format!("{q}{pad}{t}{pad}{q}");
        }
        if self.in_table {
            return self
                .g
                .s(&[
                    "`code`",
                    "`a b`",
                    "`x--y...`",
                    "`it's`",
                    "``a`b``",
                    "`a\\|b`",
                ])
                .to_string();
        }
        self.g
            .s(&[
                "`code`",
                "`a b`",
                "`x--y...`",
                "`it's \"q\"`",
                "``a`b``",
                "`` `x` ``",
                "` lead`",
                "`[a]`",
                "`**x**`",
                "`<b>`",
                "`a\\`",
                "```a``b```",
                "`\\*`",
                "`漢字 x`",
                "`a  b`",
            ])
            .to_string()
    }
}
