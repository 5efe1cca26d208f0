use crate::docgen::*;
use crate::engine::*;
use crate::md::*;
use crate::opts;
use std::cell::RefCell;
use std::sync::OnceLock;

static CFG: OnceLock<(Vec<String>, String, bool)> = OnceLock::new();
thread_local! { static X: RefCell<u32> = const { RefCell::new(0) }; }

pub fn fmt(d: &str, o: &hongdown::Options) -> String {
    hongdown::format(d, o).unwrap()
}

fn case(g: &mut G) -> Case {
    let (feats, oracle, ropts) = CFG.get().unwrap();
    let mut c = Cfg::zero();
    let full = Cfg::full();
    for f in feats {
        if f == "-x" {
        } else if f == "all" {
            c = full.clone();
        } else if f == "short" {
            c.max_words = 4
        } else if f == "front" {
            c.front = true
        } else if let Some(f) = f.strip_prefix('-') {
            *c.get(f) = 0;
        } else {
            let mut x = full.clone();
            *c.get(f) = (*x.get(f)).max(3);
        }
    }
    let mut o = if *ropts {
        opts::common(g)
    } else {
        opts::plain()
    };
    if feats.iter().any(|f| f == "-x") {
        o = hongdown::Options::default();
    }
    let d = D::new(g, c).doc();
    note(&d);
    let show = format!("options: {}\n{}", opts::show(&o), d);
    let out = fmt(&d, &o);
    let r = match oracle.as_str() {
        "idem" => {
            let o2 = fmt(&out, &o);
            if o2 == out {
                Ok(())
            } else {
                Err(format!(
                    "{}\n--once\n{out}\n--twice\n{o2}",
                    diff(&out, &o2).unwrap_or_default()
                ))
            }
        }
        _ => {
            let f = fold_of(&o);
            let a = parse(&d, &f).dump();
            let b = parse(&out, &f).dump();
            match diff(&a, &b) {
                None => Ok(()),
                Some(x) => Err(format!("{x}\n--out\n{out}")),
            }
        }
    };
    Case::of(show, true, r)
}

pub fn run(args: &[String]) {
    // explore ORACLE n opts? features...
    let oracle = args[0].clone();
    let n: u64 = args[1].parse().unwrap();
    let ropts = args[2] == "r";
    let feats = args[3..].to_vec();
    let _ = CFG.set((feats, oracle, ropts));
    let ck = Check {
        id: "X",
        rule: "",
        assumptions: &[],
        parts: vec![("x", case, n, n)],
        threads: 8,
        level: "",
        direct: None,
    };
    let (st, found) = search(&ck, 7, false, 200, 1.0);
    println!("evals {} found {}", st.evals, found.len());
    let mut seen = std::collections::HashMap::new();
    let shrunk: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = found
            .iter()
            .take(16)
            .map(|f| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        shrink(case, f.choices.clone(), std::time::Duration::from_secs(8)).1
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for c in shrunk {
        let e = seen
            .entry(c.show.clone())
            .or_insert((0, c.fail.clone().unwrap_or_default()));
        e.0 += 1;
    }
    let mut v: Vec<_> = seen.into_iter().collect();
    v.sort_by_key(|x| -(x.1.0));
    for (s, (n, m)) in v.iter().take(25) {
        println!("=== x{n}\n{s}\n-> {m}");
    }
}
