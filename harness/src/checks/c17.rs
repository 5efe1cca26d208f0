use super::*;
use crate::cli;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn check() -> Check {
    Check {
        id: "C17",
        rule: "some files are selected and some are not",
        assumptions: &[
            "patterns are those of gitignore: without a slash they match at any depth, otherwise from the configuration's directory",
            "what Git ignores is asked from the installed git command",
            "links to directories are followed for directory arguments only; no nested repositories",
            "the configuration's directory is not itself ignored in a repository around it",
        ],
        parts: vec![
            ("patterns", patterns, 3_000, 60_000),
            ("arguments", arguments, 1_500, 30_000),
        ],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

/// Whether a segment of a pattern matches a name.
fn segment(p: &[char], n: &[char]) -> bool {
    match p.first() {
        None => n.is_empty(),
        Some('*') => (0..=n.len()).any(|i| segment(&p[1..], &n[i..])),
        Some('?') => !n.is_empty() && segment(&p[1..], &n[1..]),
        Some('[') => {
            let end = p.iter().position(|c| *c == ']').expect("HARNESS: class");
            let (not, set) = if p[1] == '!' {
                (true, &p[2..end])
            } else {
                (false, &p[1..end])
            };
            let mut has = false;
            if let Some(c) = n.first() {
                let mut i = 0;
                while i < set.len() {
                    if i + 2 < set.len() && set[i + 1] == '-' {
                        has = has || (set[i] <= *c && *c <= set[i + 2]);
                        i += 3;
                    } else {
                        has = has || set[i] == *c;
                        i += 1;
                    }
                }
            }
            !n.is_empty() && has != not && segment(&p[end + 1..], &n[1..])
        }
        Some(c) => n.first() == Some(c) && segment(&p[1..], &n[1..]),
    }
}

fn segments(p: &[&str], path: &[&str]) -> bool {
    match p.first() {
        None => path.is_empty(),
        Some(&"**") if p.len() == 1 => !path.is_empty(),
        Some(&"**") => (0..=path.len()).any(|i| segments(&p[1..], &path[i..])),
        Some(s) => {
            let c = |x: &str| x.chars().collect::<Vec<_>>();
            !path.is_empty() && segment(&c(s), &c(path[0])) && segments(&p[1..], &path[1..])
        }
    }
}

/// Whether a pattern matches a path, as in a gitignore file.
fn matches(pattern: &str, path: &str, dir: bool) -> bool {
    let (p, only_dir) = match pattern.strip_suffix('/') {
        Some(p) => (p, true),
        None => (pattern, false),
    };
    let anchored = p.contains('/');
    let p = p.strip_prefix('/').unwrap_or(p);
    let mut v: Vec<&str> = p.split('/').collect();
    if !anchored {
        v.insert(0, "**");
    }
    let path: Vec<&str> = path.split('/').collect();
    (dir || !only_dir) && segments(&v, &path)
}

const DIRS: &[&str] = &[
    "docs",
    "src",
    "node_modules",
    ".hid",
    "a b",
    "Docs",
    "api",
    "d.md",
];
const FILES: &[&str] = &[
    "README.md",
    "a.md",
    "b.markdown",
    "c.MD",
    "x.txt",
    ".h.md",
    "b.md",
    "z.Markdown",
    "md",
    "e\u{301}.md",
    "a.mdx",
    "a-b.md",
];
const PATTERNS: &[&str] = &[
    "*.md",
    "**/*.md",
    "docs/*.md",
    "/README.md",
    "docs/**",
    "docs/**/*.md",
    "**/docs/*.md",
    "src/?.md",
    "[ab].md",
    "docs",
    "*.markdown",
    "README.md",
    "**",
    "a b/*.md",
    "[dD]*/**/*.md",
    "node_modules",
    "node_modules/",
    "docs/api/",
    ".hid/**",
    "*",
    "*.[mM]*",
    "**/api/**",
    "/*.md",
    "[!a-b].md",
    "src/",
    "/docs",
    "**/README.md",
    "d.md",
    "docs/*",
];
const SEGMENTS: &[&str] = &[
    "*",
    "**",
    "docs",
    "?.md",
    "*.md",
    "a*",
    "[!a]*.md",
    "api",
    "src",
    "*.m*",
    "README.md",
];

fn pattern(g: &mut G) -> String {
    if g.p(2, 3) {
        return g.s(PATTERNS).into();
    }
    let v: Vec<&str> = (0..g.usz(1, 3)).map(|_| g.s(SEGMENTS)).collect();
    format!(
        "{}{}{}",
        if g.p(1, 5) { "/" } else { "" },
        v.join("/"),
        if g.p(1, 5) { "/" } else { "" }
    )
}

struct Tree {
    /// Path from the top and what is in it.
    files: BTreeMap<String, String>,
    dirs: BTreeSet<String>,
}

fn tree(g: &mut G, top: &Path) -> Tree {
    let mut dirs: Vec<String> = vec![String::new()];
    for _ in 0..g.below(6) {
        let d = format!("{}{}", g.pick(&dirs).clone(), g.s(DIRS));
        if d.matches('/').count() < 3 {
            dirs.push(d + "/");
        }
    }
    let mut t = Tree {
        files: BTreeMap::new(),
        dirs: BTreeSet::new(),
    };
    for d in &dirs {
        std::fs::create_dir_all(top.join(d)).expect("HARNESS: mkdir");
        t.dirs.insert(d.trim_end_matches('/').to_string());
    }
    for i in 0..g.usz(1, 12) {
        let f = format!("{}{}", g.pick(&dirs).clone(), g.s(FILES));
        if !t.files.contains_key(&f) && !t.dirs.contains(&f) {
            let c = format!("File {i}.\n");
            std::fs::write(top.join(&f), &c).expect("HARNESS: write");
            t.files.insert(f, c);
        }
    }
    t
}

fn sorted(v: &mut [String]) {
    v.sort_by(|a, b| Path::new(a).cmp(Path::new(b)));
}

/// The files that Git ignores.
fn ignored(top: &Path, files: &[String]) -> Option<BTreeSet<String>> {
    let mut c = Command::new("git");
    c.args([
        "-c",
        "core.excludesFile=/dev/null",
        "check-ignore",
        "--no-index",
        "--stdin",
        "-z",
    ])
    .current_dir(top);
    c.env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("HOME", top)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", "/dev/null");
    c.stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    let mut p = c.spawn().ok()?;
    use std::io::Write;
    let mut s = p.stdin.take()?;
    s.write_all(files.join("\0").as_bytes()).ok()?;
    drop(s);
    let o = p.wait_with_output().ok()?;
    if !matches!(o.status.code(), Some(0 | 1)) {
        return None;
    }
    Some(
        String::from_utf8(o.stdout)
            .ok()?
            .split('\0')
            .filter(|x| !x.is_empty())
            .map(|x| x.to_string())
            .collect(),
    )
}

fn patterns(g: &mut G) -> Case {
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let up = scratch.path().join("up");
    let top = up.join("w");
    std::fs::create_dir_all(&top).expect("HARNESS: mkdir");
    let mut t = tree(g, &top);
    let mut s = String::new();
    // Git
    let repo = match g.w(&[3, 1, 2]) {
        0 => Some(top.clone()),
        1 => Some(up.clone()),
        _ => None,
    };
    if let Some(r) = &repo {
        for d in ["objects", "refs/heads", "info"] {
            std::fs::create_dir_all(r.join(".git").join(d)).expect("HARNESS: mkdir");
        }
        std::fs::write(r.join(".git/HEAD"), "ref: refs/heads/main\n").expect("HARNESS: write");
        s += &format!("repository: {}\n", if *r == top { "." } else { ".." });
        if *r == top && g.coin() {
            std::fs::write(r.join(".git/notes.md"), "Note.\n").expect("HARNESS: write");
            t.files.insert(".git/notes.md".into(), "Note.\n".into());
        }
    }
    let lines = &[
        "a.md",
        "*.markdown",
        "docs/",
        "/docs/",
        "!README.md",
        "node_modules",
        "*.md",
        "# README.md",
        "docs/*.md",
        "**/api",
        "\\!x.md",
        "src/*",
        "!src/a.md",
        "a.md  ",
        "/*",
        "!/docs",
        "*.txt",
        "api/",
        "!*.md",
        "Docs",
        "docs/**/a.md",
        "",
        "[ab].md",
    ];
    let ignore = |g: &mut G| {
        (0..g.usz(1, 3))
            .map(|_| format!("{}\n", g.s(lines)))
            .collect::<String>()
    };
    let mut put = |g: &mut G, p: &str, s: &mut String| {
        let c = ignore(g);
        if !up.join(p).parent().unwrap().is_dir() {
            return;
        }
        std::fs::write(up.join(p), &c).expect("HARNESS: write");
        *s += &format!("{p}: {c:?}\n");
        // such a file can be selected too
        if let Some(x) = p.strip_prefix("w/")
            && !x.starts_with(".git/")
        {
            let o = Options::default();
            t.files.insert(x.into(), fmt(&c, &o));
        }
    };
    if g.p(2, 3) {
        put(g, "w/.gitignore", &mut s);
    }
    if g.p(1, 6) {
        put(g, ".gitignore", &mut s);
    }
    let ds: Vec<String> = t.dirs.iter().filter(|d| !d.is_empty()).cloned().collect();
    if !ds.is_empty() && g.p(1, 4) {
        let d = g.pick(&ds).clone();
        put(g, &format!("w/{d}/.gitignore"), &mut s);
    }
    if repo.is_some() && g.p(1, 6) {
        put(
            g,
            if repo.as_ref() == Some(&top) {
                "w/.git/info/exclude"
            } else {
                ".git/info/exclude"
            },
            &mut s,
        );
        if g.coin() {
            put(g, "w/.ignore", &mut s);
        }
    }
    // configuration
    let include: Vec<String> = (0..g.usz(1, 3)).map(|_| pattern(g)).collect();
    let exclude: Vec<String> = if g.coin() {
        (0..g.usz(1, 2)).map(|_| pattern(g)).collect()
    } else {
        vec![]
    };
    let git_aware = !g.p(1, 4);
    let mut conf = format!("include = {include:?}\nexclude = {exclude:?}\n");
    if !git_aware || g.p(1, 4) {
        conf += &format!("git_aware = {git_aware}\n");
    }
    let mut args: Vec<String> = Vec::new();
    let mut cwd = top.clone();
    let name = if g.p(1, 3) {
        let (a, c) = match g.below(4) {
            0 => ("my.toml".to_string(), top.clone()),
            1 => ("./my.toml".to_string(), top.clone()),
            2 => ("w/my.toml".to_string(), up.clone()),
            _ => (
                top.join("my.toml").to_str().unwrap().to_string(),
                up.clone(),
            ),
        };
        args = vec!["--config".into(), a];
        cwd = c;
        "my.toml"
    } else {
        if g.p(1, 4) {
            cwd = top.join(g.pick(&t.dirs.iter().cloned().collect::<Vec<_>>()));
        }
        ".hongdown.toml"
    };
    std::fs::write(top.join(name), &conf).expect("HARNESS: write");
    t.files.insert(name.into(), fmt(&conf, &Options::default()));
    s += &format!(
        "{name}:\n{conf}$ (in {:?}) hongdown {args:?}\nfiles: {:?}\n",
        cwd.strip_prefix(scratch.path()).unwrap(),
        t.files.keys().collect::<Vec<_>>()
    );
    note(&s);
    // what it must select
    let names: Vec<String> = t.files.keys().cloned().collect();
    let by_git = if git_aware && repo.is_some() {
        if repo.as_ref() == Some(&up) && ignored(&up, &["w".into()]).is_none_or(|x| !x.is_empty()) {
            return Case::discard(s);
        }
        let v: Vec<String> = names
            .iter()
            .filter(|n| !n.starts_with(".git/"))
            .cloned()
            .collect();
        match ignored(&top, &v) {
            Some(x) => x,
            None => return Case::discard(s),
        }
    } else {
        BTreeSet::new()
    };
    let mut want: Vec<String> = names
        .iter()
        .filter(|n| {
            let parents = n.match_indices('/').map(|(i, _)| &n[..i]);
            include.iter().any(|p| matches(p, n, false))
                && !exclude
                    .iter()
                    .any(|p| matches(p, n, false) || parents.clone().any(|d| matches(p, d, true)))
                && !by_git.contains(*n)
                && !(git_aware && n.starts_with(".git/"))
        })
        // the repository's own files
        .filter(|n| !n.starts_with(".git/") || *n == ".git/notes.md")
        .cloned()
        .collect();
    sorted(&mut want);
    let text: String = want.iter().map(|n| t.files[n].as_str()).collect();
    let out = cli::run(&cwd, scratch.path(), &args, None, None, None);
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    // files of the repository that are not listed above can match too
    if !git_aware
        && repo.as_ref() == Some(&top)
        && include.iter().any(|p| {
            [".git/HEAD", ".git/info/exclude"]
                .iter()
                .any(|n| matches(p, n, false))
        })
    {
        return Case::discard(s);
    }
    let interesting = !want.is_empty() && want.len() < names.len();
    let r = if out.code != Some(0) || got != text {
        Err(format!(
            "expected {want:?}:\n{text}exit code {:?}\nstdout:\n{got}stderr:\n{}",
            out.code, out.stderr
        ))
    } else {
        Ok(())
    };
    Case::of(s, interesting, r)
}

/// The files of a directory argument, following links.
fn walk(dir: &Path, above: &mut Vec<PathBuf>, res: &mut Vec<PathBuf>) {
    let Ok(me) = std::fs::canonicalize(dir) else {
        return;
    };
    if above.contains(&me) {
        return;
    }
    above.push(me);
    for e in std::fs::read_dir(dir).expect("HARNESS: read").flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, above, res);
        } else if p.is_file() {
            let n = e.file_name().to_string_lossy().to_lowercase();
            let stem = n.rsplit_once('.');
            if matches!(stem, Some((s, "md" | "markdown")) if !s.is_empty()) {
                res.push(p);
            }
        }
    }
    above.pop();
}

fn arguments(g: &mut G) -> Case {
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let top = scratch.path().join("w");
    std::fs::create_dir_all(&top).expect("HARNESS: mkdir");
    let t = tree(g, &top);
    let mut s = format!("files: {:?}\n", t.files.keys().collect::<Vec<_>>());
    let files: Vec<String> = t.files.keys().cloned().collect();
    let dirs: Vec<String> = t.dirs.iter().cloned().collect();
    let mut looped = false;
    for (i, n) in ["l.md", "ld", "l.txt"].iter().enumerate() {
        if g.p(1, 3) {
            let at = g.pick(&dirs).clone();
            let to = if i == 1 {
                g.pick(&dirs).clone()
            } else {
                g.pick(&files).clone()
            };
            // a loop is found only below the argument: then everything is walked from the top
            let above = i == 1 && (to.is_empty() || at == to || at.starts_with(&format!("{to}/")));
            if std::os::unix::fs::symlink(top.join(&to), top.join(&at).join(n)).is_ok() {
                looped = looped || above;
                s += &format!("{at}/{n} -> {to}\n");
            }
        }
    }
    if g.p(1, 4) {
        std::fs::write(top.join(".gitignore"), "*\n").expect("HARNESS: write");
    }
    let conf = g.p(1, 3);
    if conf {
        std::fs::write(
            top.join(".hongdown.toml"),
            "include = [\"*.md\"]\nexclude = [\"*\"]\n",
        )
        .expect("HARNESS: write");
        s += "with a configuration that excludes everything\n";
    }
    let mut args: Vec<String> = Vec::new();
    for _ in 0..g.usz(1, 3) {
        let a = match g.below(4) {
            0 => {
                let d = if looped {
                    String::new()
                } else {
                    g.pick(&dirs).clone()
                };
                if d.is_empty() {
                    g.s(&[".", "./", "../w"]).to_string()
                } else {
                    format!("{d}{}", g.s(&["", "/"]))
                }
            }
            1 if !looped => top.join(g.pick(&dirs)).to_str().unwrap().to_string(),
            1 | 2 => ".".into(),
            _ => g.pick(&files).clone(),
        };
        args.push(a);
    }
    s += &format!("$ hongdown {args:?}\n").replace(scratch.path().to_str().unwrap(), "/...");
    note(&s);
    let mut text = String::new();
    let mut n = 0;
    for a in &args {
        let p = top.join(a);
        let mut v = vec![p.clone()];
        if p.is_dir() {
            v.clear();
            walk(&p, &mut Vec::new(), &mut v);
            v.sort();
        }
        n += v.len();
        for f in v {
            text += &std::fs::read_to_string(f).expect("HARNESS: read");
        }
    }
    let out = cli::run(&top, scratch.path(), &args, None, None, None);
    let got = String::from_utf8_lossy(&out.stdout).into_owned();
    let r = if out.code != Some(0) || got != text {
        Err(format!(
            "expected:\n{text}exit code {:?}\nstdout:\n{got}stderr:\n{}",
            out.code, out.stderr
        ))
    } else {
        Ok(())
    };
    Case::of(s, n > 0 && n < files.len(), r)
}
