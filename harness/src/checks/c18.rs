use super::*;
use crate::cli;
use crate::opts;
use crate::settings::{self, Map};
use std::path::Path;

pub fn check() -> Check {
    Check {
        id: "C18",
        rule: "some setting differs between two files that are in effect, or a file in effect is ignored",
        assumptions: &[
            "there is no configuration file in the directories above the scratch directory",
            "the system-wide file is stood in for by a file in the scratch directory (calls of the C library naming /etc/hongdown/config.toml are redirected)",
            "a formatter given as a table has both its command and its timeout",
        ],
        parts: vec![("layers", layers, 3_000, 80_000)],
        threads: 8,
        level: "exploration",
        direct: None,
    }
}

const GARBAGE: &[&str] = &[
    "line_width = \n",
    "line_width = 3\n",
    "[[heading]]\n",
    "x",
    "unordered_list = 1\n",
];

fn put(p: &Path, c: &str) {
    std::fs::create_dir_all(p.parent().unwrap()).expect("HARNESS: mkdir");
    std::fs::write(p, c).expect("HARNESS: write");
}

fn layers(g: &mut G) -> Case {
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let top = std::fs::canonicalize(scratch.path()).expect("HARNESS: path");
    let home = top.join("home");
    let cwd = top.join(g.s(&[
        "home/p/a/b",
        "home",
        "home/p",
        "work/p/a",
        "work",
        "home/p/a",
    ]));
    for d in [&home, &cwd] {
        std::fs::create_dir_all(d).expect("HARNESS: mkdir");
    }
    let xdg = g.coin().then(|| top.join("xdg"));
    let mut s = String::new();
    let show = |p: &Path| p.strip_prefix(&top).unwrap().display().to_string();
    // files from the lowest to the highest priority
    let lower = [
        top.join("etc/config.toml"),
        home.join(".hongdown.toml"),
        xdg.clone()
            .unwrap_or(home.join(".config"))
            .join("hongdown/config.toml"),
    ];
    // project files upwards
    let ups: Vec<_> = cwd
        .ancestors()
        .take_while(|p| p.starts_with(&top))
        .map(|p| p.join(".hongdown.toml"))
        .collect();
    // what else is in these directories makes no difference
    for p in &ups {
        let dir = p.parent().unwrap();
        if g.p(1, 4) {
            let x = g.s(&[
                ".git/HEAD",
                ".git",
                ".hg/x",
                "package.json",
                "Cargo.toml",
                ".editorconfig",
                "hongdown.toml",
                ".hongdown.toml.bak",
                ".hongdown/config.toml",
                ".config/other/config.toml",
                "config.toml",
            ]);
            put(
                &dir.join(x),
                g.s(&["", "line_width = 31\n", "root = true\n"]),
            );
            s += &format!("{}\n", show(&dir.join(x)));
        }
    }
    let explicit = g.p(1, 5);
    let no_inherit = g.p(1, 4);
    let mut nearest = None;
    for p in &ups {
        if nearest.is_none() && g.p(1, 3) {
            nearest = Some(p.clone());
        }
    }
    // where the user's own file is found as a project's
    let in_home = ups.contains(&lower[1]);
    let (n, d) = *g.pick(&[(1, 8), (1, 3), (1, 20)]);
    let mut model = Map::new();
    let mut seen = Map::new();
    let mut differs = false;
    let mut used = 0;
    let mut apply = |m: Map| {
        for (k, v) in m {
            differs = differs || model.get(&k).is_some_and(|x| *x != v);
            model.insert(k, v);
        }
        used += 1;
    };
    let mut files: Vec<(std::path::PathBuf, Option<Map>)> = Vec::new();
    for p in &lower {
        if g.coin() && !(nearest.as_ref() == Some(p)) {
            files.push((p.clone(), Some(settings::some(g, n, d))));
        }
    }
    // the nearest file found upwards
    if nearest.is_none() && in_home && files.iter().any(|(p, _)| *p == lower[1]) {
        nearest = Some(lower[1].clone());
    } else if let Some(p) = &nearest {
        let i = ups.iter().position(|x| x == p).unwrap();
        if let Some(j) = ups.iter().position(|x| *x == lower[1])
            && j < i
            && files.iter().any(|(p, _)| *p == lower[1])
        {
            nearest = Some(lower[1].clone());
        } else {
            files.push((p.clone(), Some(settings::some(g, n, d))));
        }
    }
    let alone = nearest.is_some() && no_inherit;
    for (p, m) in &mut files {
        let project = nearest.as_ref() == Some(p);
        let ignored = explicit || (alone && !project);
        let c = if ignored && g.p(1, 3) {
            g.s(GARBAGE).to_string()
        } else {
            let m = m.as_ref().unwrap();
            let extra = if project && no_inherit {
                "no_inherit = true"
            } else if g.p(1, 8) {
                "no_inherit = false"
            } else {
                ""
            };
            let c = settings::render(g, m, extra);
            if ignored {
                seen.extend(m.clone());
            }
            c
        };
        put(p, &c);
        s += &format!("{}:\n{c}\n", show(p));
        if ignored {
            *m = None;
        }
    }
    // farther ones are not read
    if let Some(i) = nearest
        .as_ref()
        .and_then(|p| ups.iter().position(|x| x == p))
    {
        for p in &ups[i + 1..] {
            if g.p(1, 4) && *p != lower[1] {
                put(p, g.s(GARBAGE));
                s += &format!("{}: not read\n", show(p));
            }
        }
    }
    for p in lower.iter().chain(nearest.iter()) {
        if let Some((_, Some(m))) = files.iter().find(|(x, _)| x == p) {
            apply(m.clone());
        }
    }
    let mut args = vec!["-".to_string()];
    if explicit {
        let m = settings::some(g, n, d);
        let p = top.join("my.toml");
        let extra = if g.p(1, 6) { "no_inherit = true" } else { "" };
        let c = settings::render(g, &m, extra);
        put(&p, &c);
        s += &format!("{}:\n{c}\n", show(&p));
        args.extend(["--config".into(), p.to_str().unwrap().into()]);
        apply(m);
    }
    // what the command shows
    let want_toml = settings::render(g, &model, "");
    let mut options = if settings::same_dashes(&model) {
        None
    } else {
        Some(settings::options(&model))
    };
    if g.p(1, 4) {
        let w = *g.pick(&[8usize, 20, 33, 80, 120]);
        args.extend(["--line-width".into(), w.to_string()]);
        if let Some(o) = &mut options {
            o.line_width = hongdown::LineWidth::new(w).unwrap();
        }
    }
    s += &format!(
        "$ (in {}) hongdown {}\n",
        show(&cwd),
        args.join(" ").replace(top.to_str().unwrap(), "/...")
    );
    note(&s);
    let interesting = differs || !seen.is_empty();
    let run = |prog: &Path, args: &[String], stdin: &str| {
        cli::exec(
            prog,
            &cwd,
            &home,
            args,
            Some(stdin.as_bytes()),
            None,
            xdg.as_deref(),
            Some(&lower[0]),
        )
    };
    let hv = std::env::current_exe().expect("HARNESS: own path");
    let r = (|| {
        if !explicit {
            let o = run(
                &hv,
                &["cascade".into(), cwd.to_str().unwrap().into()],
                &want_toml,
            );
            let got = String::from_utf8_lossy(&o.stdout).into_owned();
            if o.code != Some(0) {
                return Err(format!(
                    "loading the configuration failed: {:?}\n{}\n{got}",
                    o.code, o.stderr
                ));
            }
            let want = format!(
                "project: {}\n",
                nearest
                    .as_ref()
                    .map(|p| p.display().to_string())
                    .unwrap_or_default()
            );
            if got != want {
                return Err(format!("Config::load_cascading: {want}{got}"));
            }
        }
        let o = run(Path::new(&cli::bin()), &args, settings::DOC);
        let got = String::from_utf8_lossy(&o.stdout).into_owned();
        match &options {
            None if o.code == Some(1) && o.stderr.contains("dash") && got.is_empty() => Ok(()),
            None => Err(format!(
                "equal dashes accepted: {:?}\n{got}\n{}",
                o.code, o.stderr
            )),
            Some(x) => {
                let want = fmt(settings::DOC, x);
                if o.code != Some(0) || got != want {
                    return Err(format!(
                        "expected with {}:\n{want}\nexit code {:?}\nstdout:\n{got}\nstderr:\n{}",
                        opts::show(x),
                        o.code,
                        o.stderr
                    ));
                }
                Ok(())
            }
        }
    })();
    Case::of(
        s,
        interesting,
        r.map_err(|e: String| e.replace(top.to_str().unwrap(), "/...")),
    )
}
