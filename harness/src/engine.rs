//! Choice-sequence generation, parallel search, shrinking, replay and evidence.

use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Source of choices: random while searching, recorded while shrinking and replaying.
pub struct G {
    rng: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    pub labels: Vec<&'static str>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl G {
    pub fn random(seed: u64) -> G {
        let mut s = seed;
        splitmix(&mut s);
        G {
            rng: s,
            replay: None,
            rec: Vec::new(),
            labels: Vec::new(),
        }
    }
    pub fn replay(choices: &[u64]) -> G {
        G {
            rng: 0,
            replay: Some(choices.to_vec()),
            rec: Vec::new(),
            labels: Vec::new(),
        }
    }
    /// A value in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => splitmix(&mut self.rng) % n,
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usz(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// True with probability num/den; false is the simplest.
    pub fn p(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn s(&mut self, xs: &[&'static str]) -> &'static str {
        let i = self.below(xs.len() as u64) as usize;
        xs[i]
    }
    /// Index with the given weights.
    pub fn w(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub struct Case {
    /// What the case is, in full: enough to rerun it by hand.
    pub show: String,
    /// Whether the case counts as non-trivial by the check's rule.
    pub nontrivial: bool,
    /// None: the property held. Some: how it failed.
    pub fail: Option<String>,
    /// The case was outside the property's domain (counted separately).
    pub discard: bool,
}

impl Case {
    pub fn ok(show: String, nontrivial: bool) -> Case {
        Case {
            show,
            nontrivial,
            fail: None,
            discard: false,
        }
    }
    pub fn fail(show: String, msg: String) -> Case {
        Case {
            show,
            nontrivial: true,
            fail: Some(msg),
            discard: false,
        }
    }
    pub fn discard(show: String) -> Case {
        Case {
            show,
            nontrivial: false,
            fail: None,
            discard: true,
        }
    }
    pub fn of(show: String, nontrivial: bool, r: Result<(), String>) -> Case {
        match r {
            Ok(()) => Case::ok(show, nontrivial),
            Err(m) => Case::fail(show, m),
        }
    }
}

pub type CaseFn = fn(&mut G) -> Case;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// (name, case function, quick count, thorough count)
    pub parts: Vec<(&'static str, CaseFn, u64, u64)>,
    pub threads: usize,
    pub level: &'static str,
    /// Runs a listed finding (a JSON case) directly.
    pub direct: Option<fn(&serde_json::Value) -> Result<(), String>>,
}

fn run_case(f: CaseFn, g: &mut G) -> Case {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(c) => c,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".to_string()
            };
            // "HARNESS:" panics are errors of the harness, not of the code under test.
            if m.starts_with("HARNESS:") {
                eprintln!("harness error: {m}");
                std::process::exit(2);
            }
            Case::fail(CURRENT.with(|c| c.borrow().clone()), format!("panic: {m}"))
        }
    }
}

thread_local! {
    pub static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Note what is being run, so that a panic can be attributed.
pub fn note(s: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
}

pub fn seed_for(seed: u64, id: &str, part: &str, i: u64) -> u64 {
    let mut s = seed ^ hash_str(id).rotate_left(17) ^ hash_str(part).rotate_left(31);
    let a = splitmix(&mut s);
    let mut t = a ^ i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut t)
}

pub struct Found {
    pub part: &'static str,
    pub index: u64,
    pub choices: Vec<u64>,
    pub case: Case,
}

pub fn shrink(f: CaseFn, choices: Vec<u64>, budget: Duration) -> (Vec<u64>, Case) {
    let t0 = Instant::now();
    let mut g = G::replay(&choices);
    let mut best_case = run_case(f, &mut g);
    let mut best = g.rec.clone();
    if best_case.fail.is_none() {
        return (choices, best_case);
    }
    let better = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_case: &mut Case| -> bool {
            let mut g = G::replay(&cand);
            tick();
            let c = run_case(f, &mut g);
            if c.fail.is_some() && better(&g.rec, best) {
                *best = g.rec.clone();
                *best_case = c;
                true
            } else {
                false
            }
        };
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let mut cand = best.clone();
                let e = (i + k).min(cand.len());
                cand.drain(i..e);
                if attempt(cand, &mut best, &mut best_case) {
                    improved = true;
                } else {
                    i += if k > 4 { k / 2 } else { 1 };
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() && t0.elapsed() < budget {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + k].fill(0);
                    improved |= attempt(cand, &mut best, &mut best_case);
                }
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let mut lo = 0;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(cand, &mut best, &mut best_case) {
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
            // lower a value while deleting a later one (list lengths)
            if i < best.len() && best[i] > 0 {
                let n = best.len();
                for j in (i + 1)..n.min(i + 40) {
                    for d in 1..=6usize {
                        if j + d > best.len() || i >= best.len() || best[i] == 0 {
                            continue;
                        }
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(j..j + d);
                        if attempt(cand, &mut best, &mut best_case) {
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, best_case)
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub discards: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub per_part: BTreeMap<&'static str, u64>,
}

pub fn search(
    check: &Check,
    seed: u64,
    thorough: bool,
    max_found: usize,
    scale: f64,
) -> (Stats, Vec<Found>) {
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    // after the first failure the search goes on for a short time only
    let first: Mutex<Option<Instant>> = Mutex::new(None);
    let over = || {
        first
            .lock()
            .unwrap()
            .is_some_and(|t| t.elapsed() > Duration::from_secs(20))
    };
    for (name, f, q, t) in &check.parts {
        let n = ((if thorough { *t } else { *q }) as f64 * scale).ceil() as u64;
        let chunk = (n / 128).clamp(1, 16);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..check.threads {
                let (stats, found, next, stop, first, over) =
                    (&stats, &found, &next, &stop, &first, &over);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Stats::default();
                        loop {
                            let a = next.fetch_add(chunk, Ordering::SeqCst);
                            if a >= n {
                                break;
                            }
                            if stop.load(Ordering::SeqCst) || over() {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                if chunk > 1 && i > a && over() {
                                    break;
                                }
                                let mut g = G::random(seed_for(seed, check.id, name, i));
                                at(name, i);
                                let c = run_case(*f, &mut g);
                                local.evals += 1;
                                *local.per_part.entry(name).or_default() += 1;
                                for l in &g.labels {
                                    *local.labels.entry(l).or_default() += 1;
                                }
                                if c.discard {
                                    local.discards += 1;
                                }
                                if c.nontrivial {
                                    local.distinct.insert(hash_str(&c.show));
                                    if local.samples.is_empty() && c.show.len() < 1500 {
                                        local.samples.push(c.show.clone());
                                    }
                                }
                                if c.fail.is_some() {
                                    first.lock().unwrap().get_or_insert_with(Instant::now);
                                    let mut fd = found.lock().unwrap();
                                    fd.push(Found {
                                        part: name,
                                        index: i,
                                        choices: g.rec.clone(),
                                        case: c,
                                    });
                                    if fd.len() >= max_found {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                        let mut s = stats.lock().unwrap();
                        s.evals += local.evals;
                        s.discards += local.discards;
                        s.distinct.extend(local.distinct);
                        if s.samples.len() < 5 {
                            s.samples.extend(local.samples);
                        }
                        for (k, v) in local.labels {
                            *s.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in local.per_part {
                            *s.per_part.entry(k).or_default() += v;
                        }
                    })
                    .unwrap();
            }
        });
    }
    let mut f = found.into_inner().unwrap();
    f.sort_by(|a, b| (a.part, a.index).cmp(&(b.part, b.index)));
    (stats.into_inner().unwrap(), f)
}

// ---------------------------------------------------------------------------------------------
// Running a registered check: search, shrink, replay files, known findings, evidence.

pub struct Finding {
    pub name: String,
    pub what: String,
}

thread_local! {
    static WHERE: std::cell::RefCell<(String, u64)> = const { std::cell::RefCell::new((String::new(), 0)) };
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

fn replay_dir() -> std::path::PathBuf {
    let d = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&d);
    d
}

static ABORT_ID: Mutex<Option<(String, u64)>> = Mutex::new(None);

extern "C" fn on_abort(_sig: i32) {
    // A stack overflow or abort inside the code under test: report what was being run, then leave.
    let (part, index) = WHERE.with(|w| w.borrow().clone());
    let shown = CURRENT.with(|c| c.borrow().clone());
    if part.is_empty() {
        unsafe { libc::_exit(2) }
    }
    let (id, seed) = match ABORT_ID.try_lock() {
        Ok(g) => g.clone().unwrap_or_default(),
        Err(_) => unsafe { libc::_exit(2) },
    };
    let p = replay_dir().join(format!("{id}-abort.json"));
    let j = serde_json::json!({"property": id, "part": part, "seed": seed, "index": index, "shown": shown,
        "message": "the process aborted (stack overflow or abort)"});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    println!("VIOLATION property={id} replay={}", p.display());
    unsafe { libc::_exit(1) }
}

static CASE_START: AtomicU64 = AtomicU64::new(0);

fn watchdog(limit: Duration) {
    // No case finishing for this long means the run is stuck: inconclusive, so an error exit.
    let t0 = Instant::now();
    CASE_START.store(0, Ordering::SeqCst);
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let last = CASE_START.load(Ordering::SeqCst);
            if t0.elapsed().as_secs().saturating_sub(last) > limit.as_secs() {
                eprintln!(
                    "watchdog: no case finished for {} s; inconclusive",
                    limit.as_secs()
                );
                unsafe { libc::_exit(2) }
            }
        }
    });
    T0.set(t0).ok();
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub fn tick() {
    if let Some(t) = T0.get() {
        CASE_START.store(t.elapsed().as_secs(), Ordering::SeqCst);
    }
}

fn at(part: &str, index: u64) {
    WHERE.with(|w| {
        let mut w = w.borrow_mut();
        if w.0 != part {
            w.0 = part.to_string();
        }
        w.1 = index;
    });
    tick();
}

/// Known findings of a property: lines `finding: property=<id> name=<name> <what fails>`; the failing case is
/// findings/<name>.json, a replay file (part and shown case).
pub fn known(id: &str) -> Vec<Finding> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&format!("finding: property={id} name=")) {
            let (name, what) = r.split_once(' ').unwrap_or((r, ""));
            v.push(Finding {
                name: name.into(),
                what: what.into(),
            });
        }
    }
    v
}

fn safe<T: Default>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    }
}

pub fn run_check(check: &Check, thorough: bool) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let scale: f64 = std::env::var("HV_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let t0 = Instant::now();
    *ABORT_ID.lock().unwrap() = Some((check.id.to_string(), seed));
    unsafe {
        libc::signal(libc::SIGABRT, on_abort as *const () as usize);
    }
    watchdog(Duration::from_secs(240));
    let mut suppressed: Vec<String> = Vec::new();
    for f in known(check.id) {
        let p = verif_dir()
            .join("findings")
            .join(format!("{}.json", f.name));
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&p).expect("HARNESS: finding file"))
                .expect("HARNESS: finding file is JSON");
        let run = check.direct.expect("HARNESS: check has no direct runner");
        let r = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || safe(|| run(&j)))
            .unwrap()
            .join()
            .unwrap();
        tick();
        match r {
            Err(_) => println!("KNOWN-FINDING: property={} {}", check.id, f.what),
            Ok(_) => println!("note: listed finding no longer fails: {}", f.name),
        }
        suppressed.push(f.name);
    }
    let (st, found) = search(check, seed, thorough, 12, scale);
    let mut violations = 0;
    let mut seen = HashSet::new();
    let shrunk: Vec<(&Found, Vec<u64>, Case)> = std::thread::scope(|s| {
        let hs: Vec<_> = found
            .iter()
            .take(check.threads.clamp(1, 6))
            .map(|f| {
                let func = check.parts.iter().find(|p| p.0 == f.part).unwrap().1;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        at(f.part, f.index);
                        // A failure must be seen again before it is believed.
                        let t = Instant::now();
                        let again = (0..10)
                            .any(|_| run_case(func, &mut G::replay(&f.choices)).fail.is_some());
                        if !again {
                            return (
                                f,
                                f.choices.clone(),
                                Case::ok(f.case.show.clone(), true),
                                false,
                            );
                        }
                        if t.elapsed() > Duration::from_secs(5) {
                            // too slow to be made smaller
                            let k = Case::fail(
                                f.case.show.clone(),
                                f.case.fail.clone().unwrap_or_default(),
                            );
                            return (f, f.choices.clone(), k, true);
                        }
                        let (c, k) = shrink(func, f.choices.clone(), Duration::from_secs(15));
                        let k = if k.fail.is_some() {
                            k
                        } else {
                            run_case(func, &mut G::replay(&c))
                        };
                        if k.fail.is_some() {
                            (f, c, k, true)
                        } else {
                            let k = Case::fail(
                                f.case.show.clone(),
                                f.case.fail.clone().unwrap_or_default(),
                            );
                            (f, f.choices.clone(), k, true)
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter()
            .filter_map(|h| {
                let (f, c, k, ok) = h.join().unwrap();
                if !ok {
                    eprintln!(
                        "not reproduced, ignored: {}\n{}",
                        f.case.show,
                        f.case.fail.clone().unwrap_or_default()
                    );
                    return None;
                }
                Some((f, c, k))
            })
            .collect()
    });
    for (f, choices, case) in &shrunk {
        if !seen.insert(case.show.clone()) {
            continue;
        }
        violations += 1;
        let p = replay_dir().join(format!(
            "{}-{}-{:016x}.json",
            check.id,
            f.part,
            hash_str(&case.show)
        ));
        let j = serde_json::json!({
            "property": check.id, "part": f.part, "seed": seed, "index": f.index, "choices": choices,
            "shown": case.show, "message": case.fail, "original": f.case.show,
        });
        std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap())
            .expect("HARNESS: replay file");
        println!("VIOLATION property={} replay={}", check.id, p.display());
        println!(
            "{}\n-> {}",
            case.show,
            case.fail.clone().unwrap_or_default()
        );
    }
    let mut samples: Vec<serde_json::Value> = st
        .samples
        .iter()
        .take(5)
        .map(|s| serde_json::json!(s))
        .collect();
    if samples.is_empty() {
        samples.push(serde_json::json!("(none)"));
    }
    let ev = serde_json::json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": check.rule,
            "samples": samples,
            "out_of_domain": st.discards,
            "per_part": st.per_part,
            "labels": st.labels,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("HARNESS: evidence file");
    println!(
        "{}: {} cases, {} distinct non-trivial, {} out of domain, {:.1} s",
        check.id,
        st.evals,
        st.distinct.len(),
        st.discards,
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 { 1 } else { 0 }
}

pub fn run_replay(checks: &[Check], path: &str) -> i32 {
    let j: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("file")).expect("JSON");
    let id = j["property"].as_str().expect("property");
    let check = checks.iter().find(|c| c.id == id).expect("known property");
    let part = j["part"].as_str().unwrap_or("");
    let Some(p) = check.parts.iter().find(|p| p.0 == part) else {
        let run = check.direct.expect("direct runner");
        return match safe(|| run(&j)) {
            Ok(_) => {
                println!("held");
                0
            }
            Err(m) => {
                println!("{m}\nVIOLATION property={id} replay={path}");
                1
            }
        };
    };
    let f = p.1;
    let mut g = match j["choices"].as_array() {
        Some(a) => G::replay(&a.iter().map(|v| v.as_u64().unwrap()).collect::<Vec<_>>()),
        None => G::random(seed_for(
            j["seed"].as_u64().unwrap(),
            check.id,
            p.0,
            j["index"].as_u64().unwrap(),
        )),
    };
    let c = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || run_case(f, &mut g))
            .unwrap()
            .join()
            .unwrap()
    });
    println!("{}", c.show);
    match c.fail {
        Some(m) => {
            println!("-> {m}\nVIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("held");
            0
        }
    }
}
