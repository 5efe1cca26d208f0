use super::*;
use crate::cli;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::time::{Duration, SystemTime};

pub fn check() -> Check {
    Check {
        id: "C16",
        rule: "at least one file is not formatted, or cannot be read or written",
        assumptions: &[
            "what a file becomes is what the library makes of it (decided by the other properties)",
            "stdin, stdout and diff are not combined with check and write; after a file that cannot be read they may stop",
            "permissions are tested as an unprivileged user, where the sandbox has one",
        ],
        parts: vec![
            ("modes", modes, 1_500, 60_000),
            ("stdin", stdin, 800, 30_000),
        ],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

#[derive(Clone, PartialEq)]
enum Kind {
    Text,
    Missing,
    Unreadable,
    ReadOnly,
    Link(String),
}

#[derive(Clone)]
struct F {
    content: Vec<u8>,
    kind: Kind,
}

fn content(g: &mut G, o: &Options) -> Vec<u8> {
    let c = Cfg {
        max_words: 8,
        ..full(o)
    };
    match g.w(&[6, 5, 1, 1, 2, 2, 1, 1, 2, 1]) {
        0 => D::new(g, c).doc().into_bytes(),
        1 => {
            let d = D::new(g, c).doc();
            fmt(&d, o).into_bytes()
        }
        2 => vec![],
        3 => g.s(&["\n", "   \n", "\n\n\n", "\t"]).into(),
        4 => D::new(g, c).doc().replace('\n', "\r\n").into_bytes(),
        5 => {
            let d = D::new(g, c).doc();
            let f = fmt(&d, o);
            f.trim_end_matches('\n').as_bytes().to_vec()
        }
        6 => {
            let mut v = g.s(&["# x\n\ntext \u{e9}", "ok\n"]).as_bytes().to_vec();
            let x: &[u8] = g.pick(&[
                &b"\xff"[..],
                b"\xc3",
                b"\xe2\x80",
                b"\x80 x\n",
                b"\xed\xa0\x80",
            ]);
            v.extend(x);
            v
        }
        7 => g
            .s(&[
                "a\rb\r* c\r",
                "\u{feff}# t\n",
                "a\0b\n",
                "x\n-- y\n",
                "+++\n- a\n",
                "@@ -1 +1 @@\n* x\n\\ No newline at end of file\n",
            ])
            .into(),
        8 => {
            // a long file with few changes
            let mut t: Vec<String> = (0..g.usz(10, 60))
                .map(|i| format!("Paragraph {i}.\n"))
                .collect();
            for _ in 0..g.usz(1, 3) {
                let i = g.usz(0, t.len() - 1);
                t[i] = g
                    .s(&[
                        "* x\n",
                        "a\\\nb   c\n",
                        "***\n",
                        "Title\n===\n",
                        "same.\n\n\n",
                    ])
                    .into();
            }
            t.join("\n").into_bytes()
        }
        _ => b"Text.\n".to_vec(),
    }
}

/// Applies a unified diff of several files; the order of the files is that of the diff.
pub fn apply(
    diff: &str,
    files: &BTreeMap<String, String>,
) -> Result<Vec<(String, String)>, String> {
    let mut lines = diff.split_inclusive('\n').peekable();
    let mut res = Vec::new();
    while let Some(l) = lines.next() {
        let name = l
            .strip_prefix("--- ")
            .and_then(|x| x.strip_suffix('\n'))
            .ok_or(format!("no file header: {l:?}"))?;
        if lines.next() != Some(&format!("+++ {name}\n")) {
            return Err("the headers do not belong together".into());
        }
        let old: Vec<&str> = files
            .get(name)
            .ok_or(format!("diff of {name:?}"))?
            .split_inclusive('\n')
            .collect();
        let mut new = String::new();
        let mut at = 0;
        while let Some(h) = lines.peek().copied()
            && h.starts_with("@@ ")
        {
            lines.next();
            let bad = || format!("hunk header {h:?}");
            let mut it = h
                .trim_end()
                .strip_prefix("@@ -")
                .and_then(|x| x.strip_suffix(" @@"))
                .ok_or_else(bad)?
                .split(" +");
            let mut range = || -> Option<(usize, usize)> {
                let r = it.next()?;
                Some(match r.split_once(',') {
                    Some((a, b)) => (a.parse().ok()?, b.parse().ok()?),
                    None => (r.parse().ok()?, 1),
                })
            };
            let (a, mut n) = range().ok_or_else(bad)?;
            let (b, mut m) = range().ok_or_else(bad)?;
            let start = if n == 0 { a } else { a - 1 };
            if start < at || start > old.len() {
                return Err(bad());
            }
            old[at..start].iter().for_each(|x| new.push_str(x));
            at = start;
            if new.matches('\n').count() != if m == 0 { b } else { b - 1 } {
                return Err(format!("{h:?} begins at another line"));
            }
            while n > 0 || m > 0 {
                let l = lines.next().ok_or("the hunk ends early")?;
                let (sign, mut text) = (l.chars().next().unwrap(), l[1..].to_string());
                if lines.peek() == Some(&"\\ No newline at end of file\n") {
                    lines.next();
                    text.pop();
                }
                if sign == ' ' || sign == '-' {
                    if old.get(at) != Some(&&text[..]) {
                        return Err(format!("{l:?} is not line {}: {:?}", at + 1, old.get(at)));
                    }
                    at += 1;
                    n = n.checked_sub(1).ok_or("too many old lines")?;
                }
                if sign == ' ' || sign == '+' {
                    new.push_str(&text);
                    m = m.checked_sub(1).ok_or("too many new lines")?;
                }
                if !" +-".contains(sign) {
                    return Err(format!("line {l:?}"));
                }
            }
        }
        old[at..].iter().for_each(|x| new.push_str(x));
        res.push((name.to_string(), new));
    }
    Ok(res)
}

fn put(dir: &Path, name: &str, f: &F, uid: Option<u32>) {
    let p = dir.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).expect("HARNESS: mkdir");
    match &f.kind {
        Kind::Missing => return,
        Kind::Link(to) => {
            std::os::unix::fs::symlink(dir.join(to), &p).expect("HARNESS: link");
            return;
        }
        _ => std::fs::write(&p, &f.content).expect("HARNESS: write"),
    }
    if let Some(u) = uid {
        cli::own(&p, u);
        let mut q = p.parent().unwrap();
        while q != dir {
            cli::own(q, u);
            q = q.parent().unwrap();
        }
    }
    let mode = match f.kind {
        Kind::Unreadable => 0o000,
        Kind::ReadOnly => 0o444,
        _ => 0o644,
    };
    std::fs::File::open(&p)
        .expect("HARNESS: open")
        .set_modified(old())
        .expect("HARNESS: time");
    std::fs::set_permissions(&p, PermissionsExt::from_mode(mode)).expect("HARNESS: mode");
}

fn old() -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000)
}

fn clip(s: &str) -> String {
    let t: String = s.chars().take(1500).collect();
    if t.len() < s.len() {
        format!("{t}...({} bytes)", s.len())
    } else {
        t
    }
}

fn modes(g: &mut G) -> Case {
    let mut o = Options::default();
    let mut extra: Vec<String> = Vec::new();
    if g.p(1, 3) {
        let w = *g.pick(&[40usize, 20, 100]);
        o.line_width = hongdown::LineWidth::new(w).unwrap();
        extra = vec!["--line-width".into(), w.to_string()];
    }
    let uid = cli::user();
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let dir = scratch.path().join("w");
    std::fs::create_dir(&dir).unwrap();
    if let Some(u) = uid {
        cli::own(scratch.path(), u);
        cli::own(&dir, u);
    }
    let mut files: BTreeMap<String, F> = BTreeMap::new();
    for i in 0..g.usz(1, 7) {
        let sub = g.s(&["", "", "d/", "d/e f/", "d/\u{e9}/"]);
        let name = format!(
            "{sub}{}{i}.{}",
            g.s(&["a", "z", "B c", "\u{6f22}", "-x"]),
            g.s(&["md", "md", "markdown", "MD", "txt"])
        );
        let name = if name.starts_with('-') {
            format!("./{name}")
        } else {
            name
        };
        let kind = match g.w(&[
            12,
            1,
            if uid.is_some() { 1 } else { 0 },
            if uid.is_some() { 1 } else { 0 },
            1,
        ]) {
            0 => Kind::Text,
            1 => Kind::Missing,
            2 => Kind::Unreadable,
            3 => Kind::ReadOnly,
            _ => match files.iter().find(|f| f.1.kind == Kind::Text) {
                Some(f) => Kind::Link(f.0.clone()),
                None => Kind::Text,
            },
        };
        let content = if matches!(kind, Kind::Link(_) | Kind::Missing) {
            vec![]
        } else {
            content(g, &o)
        };
        let f = F { content, kind };
        put(&dir, &name, &f, uid);
        files.insert(name, f);
    }
    let mut s = format!("line width {}\n", o.line_width.get());
    for (n, f) in &files {
        let k = match &f.kind {
            Kind::Text => "".to_string(),
            Kind::Missing => " (missing)".into(),
            Kind::Unreadable => " (unreadable)".into(),
            Kind::ReadOnly => " (read-only)".into(),
            Kind::Link(t) => format!(" -> {t}"),
        };
        s += &format!(
            "--- {n}{k}\n{}",
            match std::str::from_utf8(&f.content) {
                Ok(t) => clip(t),
                Err(_) => format!("{:?}\n", f.content),
            }
        );
    }
    let mut interesting = false;
    for _ in 0..g.usz(1, 4) {
        let mode = g.s(&["--check", "--write", "--diff", "", "-w", "-c", "-d"]);
        let mode = match mode {
            "-w" => "--write",
            "-c" => "--check",
            "-d" => "--diff",
            m => m,
        };
        // the files of this run, in order
        let mut names: Vec<String> = Vec::new();
        let mut args: Vec<String> = Vec::new();
        if !mode.is_empty() {
            args.push(if g.p(1, 4) {
                mode[1..3].to_string()
            } else {
                mode.to_string()
            });
        }
        args.extend(extra.iter().cloned());
        if g.p(1, 4) {
            // whole directories
            let d = g.s(&[".", "d", "./d"]);
            args.push(d.into());
            if !dir.join(d).is_dir() {
                continue;
            }
            let md = |n: &str| {
                n.to_lowercase().ends_with(".md") || n.to_lowercase().ends_with(".markdown")
            };
            let base = d.strip_prefix("./").unwrap_or(d);
            let mut v: Vec<String> = files
                .iter()
                .filter(|(n, f)| f.kind != Kind::Missing && md(n))
                .map(|(n, _)| n.strip_prefix("./").unwrap_or(n))
                .filter(|n| base == "." || n.starts_with("d/"))
                .map(|n| {
                    if base == "." {
                        format!("./{n}")
                    } else {
                        format!("{d}{}", &n[1..])
                    }
                })
                .collect();
            v.sort_by(|a, b| Path::new(a).cmp(Path::new(b)));
            names = v;
        } else {
            let all: Vec<String> = files.keys().cloned().collect();
            for n in &all {
                if g.p(3, 4) {
                    names.push(n.clone());
                }
            }
            if names.is_empty() {
                names.push(all[0].clone());
            }
            if g.p(1, 4) {
                names.reverse();
            }
            if g.p(1, 8) && !mode.is_empty() && mode != "--diff" {
                names.push(names[0].clone());
            }
            args.extend(names.iter().cloned());
        }
        if !mode.is_empty() && g.p(1, 6) {
            // options can come last
            let m = args.remove(0);
            args.push(m);
        }
        let line = format!(
            "$ hongdown {}\n",
            args.iter()
                .map(|a| format!("{a:?}"))
                .collect::<Vec<_>>()
                .join(" ")
        );
        s += &line;
        note(&s);
        let out = cli::run(&dir, scratch.path(), &args, None, uid, None);
        // what it must do
        let key = |n: &str| -> String {
            let k = n.strip_prefix("./").unwrap_or(n);
            let k = if files.contains_key(k) {
                k.to_string()
            } else {
                format!("./{k}")
            };
            match &files[&k].kind {
                Kind::Link(t) => t.clone(),
                _ => k,
            }
        };
        let mut once: Vec<&String> = Vec::new();
        for n in &names {
            let k = key(n);
            if mode == "--diff" || mode.is_empty() || !once.iter().any(|m| key(m) == k) {
                once.push(n);
            }
        }
        let (mut stdout, mut listed, mut errors, mut unformatted, mut warnings) = (
            String::new(),
            Vec::new(),
            Vec::new(),
            Vec::new(),
            Vec::new(),
        );
        let mut diffs = Vec::new();
        let mut stopped = false;
        let mut changed: Vec<(String, Vec<u8>)> = Vec::new();
        for n in once {
            let k = key(n);
            let f = &files[&k];
            let text = match (&f.kind, std::str::from_utf8(&f.content)) {
                (Kind::Missing | Kind::Unreadable, _) | (_, Err(_)) => {
                    errors.push(n.clone());
                    interesting = true;
                    stopped = true;
                    continue;
                }
                (_, Ok(t)) => t,
            };
            if stopped && (mode.is_empty() || mode == "--diff") {
                continue;
            }
            let r = hongdown::format_with_warnings(text, &o).unwrap();
            warnings.extend(
                r.warnings
                    .iter()
                    .map(|w| format!("{n}:{}: warning: {}", w.line, w.message)),
            );
            interesting = interesting || r.output != text;
            match mode {
                "" => stdout += &r.output,
                "--diff" if r.output != text => diffs.push((n.clone(), r.output)),
                "--check" if r.output != text => unformatted.push(n.clone()),
                "--write" if r.output != text => {
                    if f.kind == Kind::ReadOnly {
                        errors.push(n.clone());
                    } else {
                        listed.push(n.clone());
                        changed.push((k, r.output.into_bytes()));
                    }
                }
                _ => {}
            }
        }
        let got = String::from_utf8_lossy(&out.stdout).into_owned();
        let stderr: Vec<&str> = out.stderr.lines().collect();
        let e = |m: String| {
            Err::<(), String>(format!(
                "{line}{m}\nexit code {:?}\nstdout:\n{}\nstderr:\n{}",
                out.code,
                clip(&got),
                clip(&out.stderr)
            ))
        };
        let sorted = |v: &[String]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        let mut res = Ok(());
        if out.code != Some((!errors.is_empty() || !unformatted.is_empty()) as i32) {
            res = e("wrong exit code".into());
        }
        // one line for each file that cannot be processed or is not formatted, one for each warning
        let free = stopped && (mode.is_empty() || mode == "--diff");
        let mut rest: Vec<String> = stderr.iter().map(|x| x.to_string()).collect();
        for w in &warnings {
            match rest.iter().position(|x| x == w) {
                Some(i) => {
                    rest.remove(i);
                }
                None => res = e(format!("no line {w:?}")),
            }
        }
        for (n, what) in errors
            .iter()
            .map(|n| (n, "rror"))
            .chain(unformatted.iter().map(|n| (n, "not formatted")))
        {
            match rest.iter().position(|x| {
                x.contains(n.as_str()) && x.contains(what) && !x.contains(": warning: ")
            }) {
                Some(i) => {
                    rest.remove(i);
                }
                None if free => {}
                None => res = e(format!("{n:?} is not reported ({what})")),
            }
        }
        if !rest.is_empty() && !free {
            res = e(format!("unexpected: {rest:?}"));
        }
        match mode {
            "" if free => {
                if !got.starts_with(&stdout) {
                    res = e(format!("expected on stdout:\n{}", clip(&stdout)));
                }
            }
            "" => {
                if got != stdout {
                    res = e(format!("expected on stdout:\n{}", clip(&stdout)));
                }
            }
            "--diff" if !free => {
                let texts: BTreeMap<String, String> = names
                    .iter()
                    .map(|n| {
                        (
                            n.clone(),
                            String::from_utf8(files[&key(n)].content.clone()).unwrap_or_default(),
                        )
                    })
                    .collect();
                match apply(&got, &texts) {
                    Ok(v) if v == diffs => {}
                    Ok(v) => {
                        res = e(format!(
                            "the diff makes {}\nexpected {}",
                            clip(&format!("{v:?}")),
                            clip(&format!("{diffs:?}"))
                        ))
                    }
                    Err(m) => res = e(format!("the diff cannot be applied: {m}")),
                }
            }
            "--diff" => {}
            "--check" => {
                if !got.is_empty() {
                    res = e("nothing was expected on stdout".into());
                }
            }
            _ => {
                let l: Vec<String> = got.lines().map(|x| x.to_string()).collect();
                if sorted(&l) != sorted(&listed) {
                    res = e(format!("listed {l:?}, expected {listed:?}"));
                }
            }
        }
        for (k, c) in changed {
            files.get_mut(&k).unwrap().content = c;
            s += &format!("({k} is written)\n");
            // so that the next change is seen
            let p = dir.join(&k);
            match std::fs::read(&p) {
                Ok(x) if x == files[&k].content => std::fs::File::options()
                    .append(true)
                    .open(&p)
                    .and_then(|f| f.set_modified(old()))
                    .expect("HARNESS: time"),
                Ok(x) => res = e(format!("{k} is now {}", clip(&String::from_utf8_lossy(&x)))),
                Err(x) => res = e(format!("{k}: {x}")),
            }
        }
        // all others are as they were
        for (k, f) in &files {
            let p = dir.join(k);
            if f.kind == Kind::Missing {
                if p.exists() {
                    res = e(format!("{k} was created"));
                }
                continue;
            }
            if let Kind::Link(_) = f.kind {
                if !p.is_symlink() {
                    res = e(format!("{k} is no link any more"));
                }
                continue;
            }
            let m = std::fs::metadata(&p).map_err(|x| format!("{k}: {x}"));
            match m {
                Err(x) => res = e(x),
                Ok(m) => {
                    if std::fs::read(&p).ok().as_ref() != Some(&f.content) {
                        res = e(format!("{k} was changed"));
                    } else if m.modified().unwrap() != old() {
                        res = e(format!("{k} was written"));
                    }
                }
            }
        }
        if res.is_err() {
            return Case::of(s, interesting, res);
        }
    }
    Case::of(s, interesting, Ok(()))
}

fn stdin(g: &mut G) -> Case {
    let o = Options::default();
    let input = content(g, &o);
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let mut args: Vec<String> = vec![g.s(&["-", "--stdin"]).into()];
    let diff = g.coin();
    if diff {
        args.push("--diff".into());
    }
    let s = format!("{args:?}\n{}", String::from_utf8_lossy(&input));
    note(&s);
    let out = cli::run(
        scratch.path(),
        scratch.path(),
        &args,
        Some(&input),
        None,
        None,
    );
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    let bad = |m: String| {
        Err(format!(
            "{m}\nexit code {:?}\nstdout:\n{}\nstderr:\n{}",
            out.code,
            clip(&got),
            clip(&out.stderr)
        ))
    };
    let Ok(text) = std::str::from_utf8(&input) else {
        let r = if out.code != Some(1) || !got.is_empty() || out.stderr.is_empty() {
            bad("input that is not UTF-8 must fail".into())
        } else {
            Ok(())
        };
        return Case::of(s, true, r);
    };
    let r = hongdown::format_with_warnings(text, &o).unwrap();
    let w: Vec<String> = r
        .warnings
        .iter()
        .map(|w| format!("<stdin>:{}: warning: {}", w.line, w.message))
        .collect();
    let res = if out.code != Some(0) {
        bad("failed".into())
    } else if out.stderr.lines().collect::<Vec<_>>() != w {
        bad(format!("expected on stderr: {w:?}"))
    } else if diff {
        let files = BTreeMap::from([("<stdin>".to_string(), text.to_string())]);
        match apply(&got, &files) {
            Ok(v) if v.is_empty() && r.output == text => Ok(()),
            Ok(v) if v.len() == 1 && v[0].1 == r.output && r.output != text => Ok(()),
            Ok(v) => bad(format!("the diff makes {v:?}\nexpected {:?}", r.output)),
            Err(m) => bad(format!("the diff cannot be applied: {m}")),
        }
    } else if got != r.output {
        bad(format!("expected on stdout:\n{}", clip(&r.output)))
    } else {
        Ok(())
    };
    Case::of(s, r.output != text, res)
}
