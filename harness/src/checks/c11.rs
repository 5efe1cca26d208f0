use super::*;
use comrak::nodes::{NodeValue, TableAlignment};
use unicode_width::UnicodeWidthStr;

pub fn check() -> Check {
    Check {
        id: "C11",
        rule: "the table has a cell that is empty, has wide characters, markup or a pipe, a row of another length, or an alignment",
        assumptions: &[
            "display widths of the model part are written down by hand; elsewhere those of the unicode-width crate",
            "comrak decides which lines of the output are tables",
        ],
        parts: vec![
            ("model", model, 70_000, 700_000),
            ("any", any, 25_000, 250_000),
        ],
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            let (d, o) = direct_doc(j);
            let out = fmt(&d, &o);
            aligned(&out)?;
            same_meaning(&d, &out, &o)
        }),
    }
}

/// As written in the source, as it is to come out, and its display width then.
const CELLS: &[(&str, &str, usize)] = &[
    ("a", "a", 1),
    ("word", "word", 4),
    ("The", "The", 3),
    ("considerable", "considerable", 12),
    ("1.5", "1.5", 3),
    ("漢字", "漢字", 4),
    ("한국어", "한국어", 6),
    ("👍", "👍", 2),
    ("héllo", "héllo", 5),
    ("Ελ", "Ελ", 2),
    ("e\u{301}a", "e\u{301}a", 2),
    ("全角", "全角", 4),
    ("a\\|b", "a\\|b", 4),
    ("`x\\|y`", "`x\\|y`", 6),
    ("`code`", "`code`", 6),
    ("`漢`", "`漢`", 4),
    ("*it*", "*it*", 4),
    ("_em_", "_em_", 4),
    ("__b__", "__b__", 5),
    ("**漢**", "**漢**", 6),
    ("[l](u)", "[l](u)", 6),
    ("[Text](https://e.org/)", "[Text]", 6),
    ("![i](p.png)", "![i](p.png)", 11),
    ("<br>", "<br>", 4),
    ("\\*s\\*", "\\*s\\*", 5),
    ("don't", "don't", 5),
    ("``a`b``", "``a`b``", 7),
    ("¡", "¡", 1),
    ("--", "--", 2),
    ("-", "-", 1),
    ("\\|", "\\|", 2),
    ("`\\|`", "`\\|`", 4),
    ("**a\\|b**", "**a\\|b**", 8),
    ("[a\\|b](u)", "[a\\|b](u)", 9),
    ("…", "…", 1),
    ("ß", "ß", 1),
    ("❤\u{fe0f}", "❤\u{fe0f}", 2),
    ("👍🏽", "👍🏽", 2),
    ("👨\u{200d}👩\u{200d}👧", "👨\u{200d}👩\u{200d}👧", 2),
    ("🇰🇷", "🇰🇷", 2),
    ("（", "（", 2),
];

fn cell(g: &mut G) -> (String, String, usize) {
    let n = g.w(&[2, 6, 3, 1]);
    let (mut s, mut o, mut w) = (String::new(), String::new(), 0);
    for i in 0..n {
        if i > 0 {
            s.push(' ');
            o.push(' ');
            w += 1;
        }
        let c = *g.pick(CELLS);
        s.push_str(c.0);
        o.push_str(c.1);
        w += c.2;
    }
    (s, o, w)
}

fn model(g: &mut G) -> Case {
    let mut o = crate::opts::plain();
    o.curly_apostrophes = false;
    if g.p(1, 4) {
        o.line_width = hongdown::LineWidth::new(g.usz(8, 40)).unwrap();
    }
    let cols = g.usz(1, 5);
    let rows = g.usz(0, 4);
    let al: Vec<usize> = (0..cols).map(|_| g.usz(0, 3)).collect();
    let mut non = al.iter().any(|a| *a > 0);
    let outer = g.w(&[6, 1, 1, 1]); // which outer pipes are written: both, left only, right only, none
    let (left, right) = (outer == 0 || outer == 1, outer == 0 || outer == 2);
    // one column without pipes would not be a table
    let (left, right) = if cols == 1 {
        (true, true)
    } else {
        (left, right)
    };
    let line = |cells: &[String], g: &mut G| {
        let mut s = String::new();
        for (i, c) in cells.iter().enumerate() {
            if i > 0 || left {
                s.push('|');
            }
            let pad = |g: &mut G| " ".repeat(g.w(&[1, 6, 1]));
            s.push_str(&pad(g));
            s.push_str(c);
            s.push_str(&pad(g));
        }
        // an empty last cell needs its pipe
        if right || cells.last().is_some_and(|c| c.is_empty()) {
            s.push('|');
        }
        let t = s.trim();
        if t.is_empty() {
            "|".to_string()
        } else {
            t.to_string()
        }
    };
    let mut src = Vec::new();
    let mut table: Vec<Vec<(String, usize)>> = Vec::new();
    let mut widths = vec![3; cols];
    for r in 0..=rows {
        let mut cs = Vec::new();
        let mut out = Vec::new();
        // rows of another length: missing cells are empty, additional ones do not belong to the table
        let n = if r > 0 && left && right && g.p(1, 8) {
            g.usz(1, cols + 2)
        } else {
            cols
        };
        non |= n != cols;
        for i in 0..n {
            let (mut s, mut o, mut w) = cell(g);
            if s.is_empty() && (i == 0 && !left || r == 0 && cols == 1) {
                (s, o, w) = ("a".into(), "a".into(), 1);
            }
            // the first cell of a row must not begin another block
            if i == 0 && !left && !s.starts_with(|c: char| c.is_alphabetic()) {
                s.insert_str(0, "x ");
                o.insert_str(0, "x ");
                w += 2;
            }
            non |= s.is_empty() || s.contains('|') || w != s.chars().count();
            if i < cols {
                widths[i] = widths[i].max(w);
                out.push((o, w));
            }
            cs.push(s);
        }
        while out.len() < cols {
            out.push((String::new(), 0));
        }
        src.push(line(&cs, g));
        table.push(out);
        if r == 0 {
            let d: Vec<String> = al
                .iter()
                .map(|a| {
                    let n = g.usz(if left { 1 } else { 2 }, 6);
                    let m = "-".repeat(n);
                    match a {
                        0 => m,
                        1 => format!(":{m}"),
                        2 => format!("{m}:"),
                        _ => format!(":{m}:"),
                    }
                })
                .collect();
            src.push(line(&d, g));
        }
    }
    let mut want = Vec::new();
    for (r, row) in table.iter().enumerate() {
        let mut l = String::from("|");
        for (i, (t, w)) in row.iter().enumerate() {
            let free = widths[i] - w;
            let before = match al[i] {
                2 => free,
                3 => free / 2,
                _ => 0,
            };
            l.push_str(&format!(
                " {}{t}{} |",
                " ".repeat(before),
                " ".repeat(free - before)
            ));
        }
        want.push(l);
        if r == 0 {
            let mut l = String::from("|");
            for (i, a) in al.iter().enumerate() {
                let n = widths[i];
                l.push_str(&match a {
                    0 => format!(" {} |", "-".repeat(n)),
                    1 => format!(" :{} |", "-".repeat(n - 1)),
                    2 => format!(" {}: |", "-".repeat(n - 1)),
                    _ => format!(" :{}: |", "-".repeat(n - 2)),
                });
            }
            want.push(l);
        }
    }
    // where the table stands
    let at = g.w(&[5, 2, 2, 1, 1, 1]);
    let (pre, ps, pw): (&[&str], &str, &str) = match at {
        0 => (&[], "", ""),
        1 => (&[], "> ", "> "),
        2 => (&[" -  item", ""], "    ", "    "),
        3 => (&["> > quote", "> >"], "> > ", "> > "),
        4 => (
            &[" -  item", "", "    > quote", "    >"],
            "    > ",
            "    > ",
        ),
        _ => (&["> [!NOTE]"], "> ", "> "),
    };
    let put = |p: &str, v: &[String]| {
        pre.iter()
            .map(|s| s.to_string())
            .chain(v.iter().map(|l| format!("{p}{l}")))
            .collect::<Vec<_>>()
    };
    let (src, want) = (
        put(ps, &src).join("\n") + "\n",
        put(pw, &want).join("\n") + "\n",
    );
    let s = show(&o, &src);
    note(&s);
    let out = fmt(&src, &o);
    let r = if out == want || out.strip_prefix(&want).is_some_and(|r| r.starts_with('\n')) {
        same_meaning(&src, &out, &o)
    } else {
        Err(format!(
            "not as the model prints it: {}\n--- output\n{out}\n--- model\n{want}",
            diff(&want, &out).unwrap_or("line endings".into())
        ))
    };
    Case::of(s, non, r)
}

/// The columns of the unescaped pipes of a line, and the widths of the cells without their padding.
fn pipes(l: &str) -> (Vec<usize>, Vec<usize>) {
    let mut at = Vec::new();
    let mut starts = Vec::new();
    let mut prev = '\0';
    for (i, c) in l.char_indices() {
        if c == '|' && prev != '\\' {
            at.push(l[..i].width());
            starts.push(i);
        }
        prev = c;
    }
    let w = starts
        .windows(2)
        .map(|p| l[p[0] + 1..p[1]].trim_matches(' ').width())
        .collect();
    (at, w)
}

/// The pipes of every table stand in the same columns, and the columns are as narrow as they can be.
fn aligned(out: &str) -> Result<(), String> {
    let arena = comrak::Arena::new();
    let root = comrak::parse_document(&arena, out, &copts());
    let lines: Vec<&str> = out.split('\n').collect();
    for t in root.descendants() {
        let NodeValue::Table(table) = t.data.borrow().value.clone() else {
            continue;
        };
        let p = t.data.borrow().sourcepos;
        let n = 1 + t.children().count();
        let rows = &lines[p.start.line - 1..p.start.line - 1 + n];
        let (at, _) = pipes(&rows[0][p.start.column - 1..]);
        let bad = |l: &str, m: &str| Err(format!("{m}: {l:?}\n--- output\n{out}"));
        if at.len() != table.num_columns + 1 {
            return bad(rows[0], "not one pipe around every cell");
        }
        let mut max = vec![3; table.num_columns];
        for (i, r) in rows.iter().enumerate() {
            let skip = r.len().min(p.start.column - 1);
            let (a, w) = pipes(&r[skip..]);
            if a != at {
                return bad(r, "pipes are not aligned");
            }
            if r.ends_with(' ') {
                return bad(r, "trailing space");
            }
            for (k, w) in w.iter().enumerate() {
                if i != 1 {
                    max[k] = max[k].max(*w);
                } else if *w + 2 != at[k + 1] - at[k] - 1 {
                    return bad(r, "the separator does not fill its column");
                }
            }
            if i == 1 {
                for (k, c) in r[skip..].trim_matches('|').split('|').enumerate() {
                    let c = c.trim();
                    let want = match table.alignments[k] {
                        TableAlignment::None => (false, false),
                        TableAlignment::Left => (true, false),
                        TableAlignment::Right => (false, true),
                        TableAlignment::Center => (true, true),
                    };
                    if (c.starts_with(':'), c.ends_with(':')) != want {
                        return bad(r, "alignment");
                    }
                }
            }
        }
        for k in 0..table.num_columns {
            if at[k + 1] - at[k] - 3 != max[k] {
                return bad(rows[1], "a column is wider or narrower than needed");
            }
        }
    }
    Ok(())
}

fn any(g: &mut G) -> Case {
    let o = crate::opts::any(g);
    let mut c = full(&o);
    c.table = 40;
    c.max_words = 8;
    c.max_blocks = 4;
    let d = D::new(g, c).doc();
    let s = show(&o, &d);
    note(&s);
    let out = fmt(&d, &o);
    let r = aligned(&out).and_then(|_| same_meaning(&d, &out, &o));
    let non = g.labels.contains(&"table");
    Case::of(s, non, r)
}
