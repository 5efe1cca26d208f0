//! Random option sets.

use crate::engine::G;
use hongdown::*;

pub fn show(o: &Options) -> String {
    let d = Options::default();
    let mut v = Vec::new();
    macro_rules! f {
        ($($n:ident),*) => {$(
            if format!("{:?}", o.$n) != format!("{:?}", d.$n) { v.push(format!("{}={:?}", stringify!($n), o.$n)); }
        )*};
    }
    f!(
        line_width,
        setext_h1,
        setext_h2,
        heading_sentence_case,
        heading_proper_nouns,
        heading_common_nouns,
        unordered_marker,
        leading_spaces,
        trailing_spaces,
        indent_width,
        odd_level_marker,
        even_level_marker,
        ordered_list_pad,
        ordered_list_indent_width,
        fence_char,
        min_fence_length,
        space_after_fence,
        default_language,
        thematic_break_style,
        thematic_break_leading_spaces,
        curly_double_quotes,
        curly_single_quotes,
        curly_apostrophes,
        ellipsis,
        en_dash,
        em_dash
    );
    if !o.code_formatters.is_empty() {
        v.push(format!("code_formatters={:?}", o.code_formatters));
    }
    if v.is_empty() {
        "(defaults)".into()
    } else {
        v.join(", ")
    }
}

pub fn dash(s: &str) -> DashSetting {
    if s.is_empty() {
        DashSetting::Disabled
    } else {
        DashSetting::Pattern(DashPattern::new(s.to_string()).unwrap())
    }
}

pub fn plain() -> Options {
    Options {
        curly_double_quotes: false,
        curly_single_quotes: false,
        ellipsis: false,
        em_dash: DashSetting::Disabled,
        ..Options::default()
    }
}

/// Width, heading, fence, thematic break and punctuation options.
pub fn common(g: &mut G) -> Options {
    let mut o = Options::default();
    if g.p(1, 3) {
        o.line_width = LineWidth::new(*g.pick(&[80usize, 40, 20, 30, 60, 100, 12, 8])).unwrap();
    }
    if g.p(1, 6) {
        o.setext_h1 = false;
    }
    if g.p(1, 6) {
        o.setext_h2 = false;
    }
    if g.p(1, 3) {
        punct(g, &mut o);
    }
    if g.p(1, 4) {
        fences(g, &mut o);
    }
    if g.p(1, 6) {
        o.thematic_break_style = ThematicBreakStyle::new(
            g.s(&["---", "* * *", "___", "*****", "- - - -"])
                .to_string(),
        )
        .unwrap();
        o.thematic_break_leading_spaces = LeadingSpaces::new(g.usz(0, 3)).unwrap();
    }
    o
}

pub fn fences(g: &mut G, o: &mut Options) {
    o.fence_char = if g.coin() {
        FenceChar::Backtick
    } else {
        FenceChar::Tilde
    };
    o.min_fence_length = MinFenceLength::new(g.usz(3, 6)).unwrap();
    o.space_after_fence = !g.coin();
    o.default_language = g.s(&["", "text"]).to_string();
}

pub fn punct(g: &mut G, o: &mut Options) {
    o.curly_double_quotes = g.coin();
    o.curly_single_quotes = g.coin();
    o.curly_apostrophes = g.coin();
    o.ellipsis = g.coin();
    let k = g.w(&[3, 3, 2, 2]);
    let (em, en) = [("--", ""), ("", ""), ("---", "--"), ("", "--")][k];
    o.em_dash = dash(em);
    o.en_dash = dash(en);
}

/// List options for which nested lists come out as valid CommonMark: the marker ends before the content column, and
/// nested markers stand at or up to three columns right of it.
pub fn lists(g: &mut G, o: &mut Options) {
    let (lead, trail) = *g.pick(&[
        (1usize, 2usize),
        (0, 1),
        (0, 2),
        (0, 3),
        (1, 1),
        (1, 3),
        (2, 1),
        (2, 2),
        (2, 3),
        (3, 1),
        (3, 2),
    ]);
    let k = (lead + 1 + trail + g.usz(0, 3)).clamp(4, 6.min(trail + 4).max(lead + 1 + trail));
    o.unordered_marker = *g.pick(&[
        UnorderedMarker::Hyphen,
        UnorderedMarker::Asterisk,
        UnorderedMarker::Plus,
    ]);
    o.leading_spaces = LeadingSpaces::new(lead).unwrap();
    o.trailing_spaces = TrailingSpaces::new(trail).unwrap();
    o.indent_width = IndentWidth::new(k).unwrap();
    o.ordered_list_indent_width = IndentWidth::new(k).unwrap();
    markers(g, o);
}

pub fn markers(g: &mut G, o: &mut Options) {
    let m = [OrderedMarker::Period, OrderedMarker::Parenthesis];
    o.odd_level_marker = *g.pick(&m);
    o.even_level_marker = *g.pick(&m);
    if g.coin() {
        o.ordered_list_pad = OrderedListPad::End;
    }
}

pub fn sentence_case(g: &mut G, o: &mut Options) {
    o.heading_sentence_case = true;
    for _ in 0..g.usz(0, 2) {
        o.heading_proper_nouns
            .push(g.s(&["Gamma", "Foo Bar", "zEta", "word API"]).to_string());
    }
    for _ in 0..g.usz(0, 1) {
        o.heading_common_nouns
            .push(g.s(&["Markdown", "Swift", "API", "Go"]).to_string());
    }
}

/// Every option, over the values for which hongdown's output is meant to be stable and equivalent.
pub fn any(g: &mut G) -> Options {
    let mut o = common(g);
    if g.p(1, 3) {
        lists(g, &mut o);
    }
    if g.p(1, 6) {
        sentence_case(g, &mut o);
    }
    o
}

/// Any value the option types accept, in reasonable magnitude.
pub fn wild(g: &mut G) -> Options {
    let mut o = any(g);
    if g.coin() {
        o.line_width = LineWidth::new(*g.pick(&[8usize, 9, 10, 11, 13, 17, 80, 1000])).unwrap();
    }
    if g.coin() {
        o.leading_spaces = LeadingSpaces::new(g.usz(0, 3)).unwrap();
        o.trailing_spaces = TrailingSpaces::new(g.usz(0, 3)).unwrap();
        o.indent_width = IndentWidth::new(*g.pick(&[4usize, 1, 2, 3, 8, 16, 100])).unwrap();
        o.ordered_list_indent_width =
            IndentWidth::new(*g.pick(&[4usize, 1, 2, 3, 8, 16, 100])).unwrap();
    }
    if g.coin() {
        o.min_fence_length = MinFenceLength::new(*g.pick(&[4usize, 3, 9, 200])).unwrap();
    }
    if g.p(1, 4) {
        let a = g.s(&[
            "--", "---", "-", "x", "~~", "->", "\"", "'", "...", ".", "\\", "*", "a", "<!--",
        ]);
        let b = g.s(&["", "--", "-", "y", "==", "'", "..", "]", "word"]);
        o.em_dash = dash(a);
        o.en_dash = if a == b {
            DashSetting::Disabled
        } else {
            dash(b)
        };
    }
    if g.p(1, 4) {
        o.default_language = g
            .s(&["", "text", "a b", "`", "~~~", "\n", "漢字"])
            .to_string();
    }
    if g.p(1, 6) {
        sentence_case(g, &mut o);
        for _ in 0..g.usz(0, 2) {
            o.heading_proper_nouns.push(
                g.s(&[
                    "",
                    " ",
                    "a",
                    "İstanbul",
                    "ß",
                    "C++",
                    ".NET",
                    "漢字",
                    "don't",
                    "x-y",
                ])
                .to_string(),
            );
            o.heading_common_nouns
                .push(g.s(&["", " ", "a", "İstanbul", "ﬁn", "I"]).to_string());
        }
    }
    o
}

/// `Options` from a JSON object of fields, as written in findings.
pub fn from_json(j: &serde_json::Value) -> Options {
    let mut o = Options::default();
    let Some(m) = j.as_object() else { return o };
    for (k, v) in m {
        let n = || v.as_u64().expect("HARNESS: number") as usize;
        let b = || v.as_bool().expect("HARNESS: bool");
        let s = || v.as_str().expect("HARNESS: string").to_string();
        let l = || {
            v.as_array()
                .expect("HARNESS: array")
                .iter()
                .map(|x| x.as_str().expect("HARNESS: string").to_string())
                .collect()
        };
        let om = || {
            if s() == ")" {
                OrderedMarker::Parenthesis
            } else {
                OrderedMarker::Period
            }
        };
        match k.as_str() {
            "line_width" => o.line_width = LineWidth::new(n()).unwrap(),
            "setext_h1" => o.setext_h1 = b(),
            "setext_h2" => o.setext_h2 = b(),
            "heading_sentence_case" => o.heading_sentence_case = b(),
            "heading_proper_nouns" => o.heading_proper_nouns = l(),
            "heading_common_nouns" => o.heading_common_nouns = l(),
            "leading_spaces" => o.leading_spaces = LeadingSpaces::new(n()).unwrap(),
            "trailing_spaces" => o.trailing_spaces = TrailingSpaces::new(n()).unwrap(),
            "indent_width" => o.indent_width = IndentWidth::new(n()).unwrap(),
            "ordered_list_indent_width" => {
                o.ordered_list_indent_width = IndentWidth::new(n()).unwrap()
            }
            "unordered_marker" => {
                o.unordered_marker = match s().as_str() {
                    "*" => UnorderedMarker::Asterisk,
                    "+" => UnorderedMarker::Plus,
                    _ => UnorderedMarker::Hyphen,
                }
            }
            "odd_level_marker" => o.odd_level_marker = om(),
            "even_level_marker" => o.even_level_marker = om(),
            "ordered_list_pad" => {
                o.ordered_list_pad = if s() == "end" {
                    OrderedListPad::End
                } else {
                    OrderedListPad::Start
                }
            }
            "fence_char" => {
                o.fence_char = if s() == "`" {
                    FenceChar::Backtick
                } else {
                    FenceChar::Tilde
                }
            }
            "min_fence_length" => o.min_fence_length = MinFenceLength::new(n()).unwrap(),
            "space_after_fence" => o.space_after_fence = b(),
            "default_language" => o.default_language = s(),
            "thematic_break_style" => {
                o.thematic_break_style = ThematicBreakStyle::new(s()).unwrap()
            }
            "thematic_break_leading_spaces" => {
                o.thematic_break_leading_spaces = LeadingSpaces::new(n()).unwrap()
            }
            "curly_double_quotes" => o.curly_double_quotes = b(),
            "curly_single_quotes" => o.curly_single_quotes = b(),
            "curly_apostrophes" => o.curly_apostrophes = b(),
            "ellipsis" => o.ellipsis = b(),
            "en_dash" => o.en_dash = dash(&s()),
            "em_dash" => o.em_dash = dash(&s()),
            _ => panic!("HARNESS: option {k}"),
        }
    }
    o
}
