use super::*;
use crate::cli;
use crate::opts;
use crate::settings::{self, Kind, Map, SETTINGS};
use toml::Value;

pub fn check() -> Check {
    let mut parts: Vec<(&'static str, fn(&mut G) -> Case, u64, u64)> = vec![
        ("values", values, 4_000, 80_000),
        ("arguments", arguments, 300, 3_000),
    ];
    if cfg!(feature = "js") {
        parts.push(("javascript", javascript, 20_000, 1_000_000));
    }
    Check {
        id: "C19",
        rule: "some setting is given; about half of the configuration files have one value out of range",
        assumptions: &[
            "ranges are those of README.md (configuration options)",
            "names that are no settings are not looked at; neither are thematic breaks with space at their ends",
            "JavaScript values of a wrong type are rejected by the bindings and are not generated; what an invalid dash pattern does there is not specified",
        ],
        parts,
        threads: 8,
        level: "exploration",
        direct: Some(|j| {
            // a setting with two different values must make a difference
            let (d, o) = direct_doc(j);
            let v = |x: &str| {
                fmt(
                    &d,
                    &Options {
                        ordered_list_pad: opts::from_json(
                            &serde_json::json!({ "ordered_list_pad": x }),
                        )
                        .ordered_list_pad,
                        ..o.clone()
                    },
                )
            };
            if v("start") == v("end") {
                Err(format!(
                    "ordered_list.pad \"start\" and \"end\" give the same:\n{}",
                    v("end")
                ))
            } else {
                Ok(())
            }
        }),
    }
}

/// A value that is no formatter.
fn no_formatter(g: &mut G) -> Value {
    let t = |x: &[(&str, Value)]| {
        Value::Table(x.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
    };
    let s = |x: &str| Value::String(x.into());
    let a = |x: &[Value]| Value::Array(x.to_vec());
    match g.below(9) {
        0 => s("rustfmt"),
        1 => a(&[]),
        2 => t(&[("timeout", Value::Integer(5))]),
        3 => t(&[("command", a(&[]))]),
        4 => t(&[("command", a(&[Value::Integer(1)]))]),
        5 => t(&[("command", s("rustfmt"))]),
        6 => t(&[
            ("command", a(&[s("/bin/cat")])),
            ("timeout", Value::Integer(-1)),
        ]),
        7 => t(&[("command", a(&[s("/bin/cat")])), ("timeout", s("5"))]),
        _ => Value::Boolean(false),
    }
}

fn values(g: &mut G) -> Case {
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let top = scratch.path().join("w");
    std::fs::create_dir_all(&top).expect("HARNESS: mkdir");
    let (n, d) = *g.pick(&[(1, 3), (1, 12), (0, 1), (1, 30)]);
    let mut m = settings::some(g, n, d);
    // one setting more, possibly with a bad value
    let bad = g.coin();
    let set = g.pick(SETTINGS);
    let mut name = set.path.to_string();
    let v = if !bad {
        settings::valid(g, &set.kind)
    } else if g.p(1, 12) {
        name = "code_block.formatters.go".into();
        no_formatter(g)
    } else {
        settings::invalid(g, &set.kind)
    };
    m.insert(name.clone(), v.clone());
    let clash = !bad && settings::same_dashes(&m);
    let conf = settings::render(g, &m, "");
    let explicit = g.coin();
    let file = top.join(if explicit {
        "my.toml"
    } else {
        ".hongdown.toml"
    });
    std::fs::write(&file, &conf).expect("HARNESS: write");
    let doc = top.join("doc.md");
    std::fs::write(&doc, settings::DOC).expect("HARNESS: write");
    let mut args: Vec<String> = Vec::new();
    if explicit {
        args.extend(["--config".into(), "my.toml".into()]);
    }
    let write = g.p(1, 3);
    let stdin = !write && g.coin();
    args.extend(match (write, stdin) {
        (true, _) => vec!["--write".into(), "doc.md".into()],
        (_, true) => vec!["-".to_string()],
        _ => vec!["doc.md".into()],
    });
    let s = format!(
        "{}:\n{conf}{}: {}\n$ hongdown {}\n",
        file.file_name().unwrap().to_str().unwrap(),
        name,
        if bad { "not valid" } else { "valid" },
        args.join(" ")
    );
    note(&s);
    let out = cli::run(
        &top,
        scratch.path(),
        &args,
        stdin.then_some(settings::DOC.as_bytes()),
        None,
        None,
    );
    let after = std::fs::read_to_string(&doc).expect("HARNESS: read");
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let all = format!(
        "exit code {:?}\nstdout:\n{stdout}\nstderr:\n{}\nfile:\n{after}",
        out.code, out.stderr
    );
    let r = (|| {
        if bad || clash {
            if out.code != Some(1) || !stdout.is_empty() || after != settings::DOC {
                return Err(format!("not rejected\n{all}"));
            }
            // the message names the setting and the value
            let key = name.rsplit('.').next().unwrap();
            let v = v.to_string();
            if clash && !out.stderr.contains("dash") {
                return Err(format!("the dash settings are not named\n{all}"));
            }
            if bad
                && (!out.stderr.contains(key)
                    || (!v.contains('\n')
                        && !name.contains("formatters")
                        && !out.stderr.contains(&v)))
            {
                return Err(format!("{key} or {v} is not named\n{all}"));
            }
            // the library agrees
            if bad
                && !name.contains("formatters")
                && hongdown::config::Config::from_toml(&conf).is_ok()
            {
                return Err("Config::from_toml accepts it".into());
            }
            return Ok(());
        }
        let o = settings::options(&m);
        let want = fmt(settings::DOC, &o);
        let got = if write { &after } else { &stdout };
        if out.code != Some(0) || *got != want {
            return Err(format!("expected with {}:\n{want}\n{all}", opts::show(&o)));
        }
        Ok(())
    })();
    Case::of(s, true, r)
}

fn arguments(g: &mut G) -> Case {
    let scratch = tempfile::tempdir().expect("HARNESS: scratch directory");
    let top = scratch.path();
    let m = settings::some(g, 1, 8);
    std::fs::write(top.join(".hongdown.toml"), settings::render(g, &m, ""))
        .expect("HARNESS: write");
    let w = g.s(&[
        "0",
        "1",
        "5",
        "7",
        "8",
        "9",
        "20",
        "79",
        "120",
        "100000",
        "-1",
        "x",
        "",
        "8.0",
        "99999999999999999999999",
        "+20",
        " 20",
        "020",
    ]);
    let ok = w.parse::<usize>().is_ok_and(|n| n >= 8);
    let args = ["-".to_string(), format!("--line-width={w}")];
    let s = format!("{m:?}\n$ hongdown {args:?}\n");
    note(&s);
    if settings::same_dashes(&m) {
        return Case::discard(s);
    }
    let out = cli::run(top, top, &args, Some(settings::DOC.as_bytes()), None, None);
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let all = format!(
        "exit code {:?}\nstdout:\n{stdout}\nstderr:\n{}",
        out.code, out.stderr
    );
    let r = if ok {
        let mut o = settings::options(&m);
        o.line_width = hongdown::LineWidth::new(w.parse().unwrap()).unwrap();
        let want = fmt(settings::DOC, &o);
        if out.code == Some(0) && stdout == want {
            Ok(())
        } else {
            Err(format!("expected:\n{want}\n{all}"))
        }
    } else if out.code.is_some_and(|c| c != 0)
        && stdout.is_empty()
        && out.stderr.replace(['-', '_'], "").contains("linewidth")
        && out.stderr.contains(w)
    {
        Ok(())
    } else {
        Err(format!("not rejected\n{all}"))
    };
    Case::of(s, true, r)
}

#[cfg(not(feature = "js"))]
fn javascript(_: &mut G) -> Case {
    unreachable!()
}

#[cfg(feature = "js")]
fn javascript(g: &mut G) -> Case {
    use serde_json::Value as J;
    let mut j = serde_json::Map::new();
    let mut m = Map::new();
    let (n, d) = *g.pick(&[(1, 2), (1, 6), (1, 25)]);
    let mut bad = false;
    for s in SETTINGS {
        let Some(name) = s.js else { continue };
        if !g.p(n, d) {
            continue;
        }
        if g.p(1, 10) {
            j.insert(name.into(), J::Null);
            continue;
        }
        if g.p(1, 4) {
            // of the right type, but out of range
            let v = settings::invalid(g, &s.kind);
            let right = match s.kind {
                Kind::Int(..) => v.as_integer().is_some_and(|x| x >= 0),
                Kind::Enum(_) | Kind::Style => v.is_str(),
                _ => false,
            };
            if right {
                bad = true;
                j.insert(
                    name.into(),
                    serde_json::to_value(&v).expect("HARNESS: value"),
                );
                continue;
            }
        }
        let v = settings::valid(g, &s.kind);
        j.insert(
            name.into(),
            serde_json::to_value(&v).expect("HARNESS: value"),
        );
        m.insert(s.path.into(), v);
    }
    let s = format!(
        "{}\n{}",
        J::Object(j.clone()),
        if bad { "some are not valid" } else { "" }
    );
    note(&s);
    let want = format!("{:?}", settings::options(&m));
    // options that nest lists invalidly and the like do not matter here
    let doc = if g.p(1, 4) {
        super::any_doc(g, &settings::options(&m))
    } else {
        String::new()
    };
    let s = format!("{s}\n{doc}");
    note(&s);
    let r = match hongdown::verif_js_options(J::Object(j)) {
        Err(e) => Err(format!("rejected: {e}")),
        Ok(o) => {
            let got = format!("{o:?}");
            if got != want {
                Err(format!("expected {want}\n     got {got}"))
            } else {
                same_formatting(&doc, &o)
            }
        }
    };
    Case::of(s, !m.is_empty(), r)
}

/// The JavaScript entry point with a code formatter does the same as the others.
#[cfg(feature = "js")]
fn same_formatting(doc: &str, o: &hongdown::Options) -> Result<(), String> {
    if doc.is_empty() {
        return Ok(());
    }
    let a = hongdown::format_with_warnings(doc, o).map_err(|e| e.to_string())?;
    let b = hongdown::verif_js_format(doc, o);
    let w = |r: &hongdown::FormatResult| -> Vec<(usize, String)> {
        r.warnings
            .iter()
            .map(|w| (w.line, w.message.clone()))
            .collect()
    };
    if a.output != b.output {
        Err(format!(
            "with a JavaScript formatter\n{}\nwithout\n{}",
            b.output, a.output
        ))
    } else if w(&a) != w(&b) {
        Err(format!(
            "warnings {:?}, with a JavaScript formatter {:?}",
            w(&a),
            w(&b)
        ))
    } else {
        Ok(())
    }
}
