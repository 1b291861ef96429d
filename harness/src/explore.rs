//! Driving generated cases with proptest: seeded workers, shrinking, replay
//! files, evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub prop: &'static str,
    pub tier: String,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Number of cases: scaled for the thorough tier.
    pub fn cases(&self, quick: usize) -> usize {
        let f: f64 = std::env::var("KS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = if self.thorough() { quick * 15 } else { quick };
        ((n as f64 * f) as usize).max(8)
    }
}

/// What the evaluation of a case reports besides its verdict.
#[derive(Default, Debug)]
pub struct Note {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}

impl Note {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    pub fn nontrivial(&mut self, c: impl Into<String>) {
        self.nontrivial = true;
        self.classes.push(c.into());
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: usize,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, usize>,
    pub samples: Vec<serde_json::Value>,
    pub shrink_evals: usize,
    pub regress: usize,
    pub rules: Vec<String>,
    pub extra: BTreeMap<String, serde_json::Value>,
}

pub struct Report {
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<(String, String)>>, // message, replay path
}

impl Report {
    pub fn new() -> Self {
        Report { stats: Mutex::new(Stats::default()), violations: Mutex::new(vec![]) }
    }
    pub fn rule(&self, s: &str) {
        self.stats.lock().unwrap().rules.push(s.into());
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub type Eval<C> = dyn Fn(&C, usize, &mut Note) -> Result<(), String> + Sync;

#[derive(Serialize, serde::Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    pub case: serde_json::Value,
}

fn save_replay(prop: &str, kind: &str, msg: &str, case: &impl Serialize) -> String {
    let r = Replay { property: prop.into(), kind: kind.into(), message: msg.into(), case: serde_json::to_value(case).unwrap() };
    let js = serde_json::to_string_pretty(&r).unwrap();
    let dir = std::env::var("KS_REPLAYS").unwrap_or("/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{kind}-{:08x}.json", fnv(&js) as u32);
    if let Err(e) = std::fs::write(&path, js) {
        crate::proc::harness_error(&format!("cannot write replay {path}: {e}"));
    }
    path
}

/// Explores `cases` generated cases of one kind. Regression cases of the same
/// kind (harness/regress/<prop>-*.json) run first.
pub fn explore<C, S, M>(cx: &Ctx, rep: &Report, kind: &'static str, cases: usize, mk: M, eval: &Eval<C>)
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync,
    S: Strategy<Value = C>,
    M: Fn() -> S + Sync,
{
    let stop = AtomicBool::new(!rep.violations.lock().unwrap().is_empty());
    if stop.load(Ordering::SeqCst) {
        return;
    }
    let done = AtomicUsize::new(0);
    let trace = std::env::var("KS_TRACE").is_ok();

    // Saved cases.
    let dir = std::env::var("KS_REGRESS").unwrap_or("/verif/harness/regress".into());
    let mut saved: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    saved.sort();
    let pre = format!("{}-", cx.prop);
    for p in saved {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if !name.starts_with(&pre) {
            continue;
        }
        let txt = std::fs::read_to_string(&p).unwrap_or_default();
        let case: C = match serde_json::from_str::<Replay>(&txt).map_err(|e| e.to_string()) {
            Ok(r) if r.kind != kind => continue,
            Ok(r) => match serde_json::from_value(r.case) {
                Ok(c) => c,
                Err(e) => crate::proc::harness_error(&format!("regression case {name}: {e}")),
            },
            Err(e) => crate::proc::harness_error(&format!("regression case {name}: {e}")),
        };
        let mut note = Note::default();
        rep.stats.lock().unwrap().regress += 1;
        if let Err(m) = eval(&case, 0, &mut note) {
            let path = save_replay(cx.prop, kind, &m, &case);
            rep.violations.lock().unwrap().push((m, path));
            return;
        }
    }

    let threads = cx.threads;
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (stop, done, mk) = (&stop, &done, &mk);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                let n = cases / threads + usize::from(t < cases % threads);
                if n == 0 {
                    return;
                }
                let cfg = Config {
                    cases: n as u32,
                    failure_persistence: None,
                    max_shrink_iters: 400,
                    max_global_rejects: 0,
                    rng_seed: RngSeed::Fixed(cx.seed.wrapping_mul(1_000_003).wrapping_add(t as u64).wrapping_add(fnv(kind) << 8)),
                    ..Config::default()
                };
                let mut runner = TestRunner::new(cfg);
                let failed = std::cell::Cell::new(false);
                let shrink_start = std::cell::Cell::new(None::<Instant>);
                let res = runner.run(&mk(), |case| {
                    if !failed.get() && stop.load(Ordering::SeqCst) {
                        return Ok(());
                    }
                    if let Some(s) = shrink_start.get() {
                        // Bounded shrinking: keep what we have.
                        if s.elapsed().as_secs() > 60 {
                            return Ok(());
                        }
                    }
                    let mut note = Note::default();
                    let r = eval(&case, t, &mut note);
                    let mut st = rep.stats.lock().unwrap();
                    if failed.get() {
                        st.shrink_evals += 1;
                    } else {
                        st.evaluations += 1;
                        for c in &note.classes {
                            *st.classes.entry(c.clone()).or_default() += 1;
                        }
                        if note.nontrivial {
                            let js = serde_json::to_string(&case).unwrap();
                            let new = st.nontrivial.insert(fnv(&format!("{kind}{js}")));
                            if new && st.samples.iter().filter(|s| s["kind"] == kind).count() < 2 && js.len() < 6000 {
                                st.samples.push(serde_json::json!({"kind": kind, "case": case}));
                            }
                        }
                    }
                    drop(st);
                    let d = done.fetch_add(1, Ordering::SeqCst);
                    if trace && d % 50 == 0 {
                        eprintln!("[{}] {d} of {cases} {:?}", cx.prop, cx.start.elapsed());
                    }
                    match r {
                        Ok(()) => Ok(()),
                        Err(m) => {
                            if trace {
                                eprintln!("[{}] fails: {m}", cx.prop);
                            }
                            if !failed.get() {
                                failed.set(true);
                                shrink_start.set(Some(Instant::now()));
                                if stop.swap(true, Ordering::SeqCst) {
                                    // Someone else is already shrinking.
                                    failed.set(false);
                                    shrink_start.set(None);
                                    return Ok(());
                                }
                            }
                            Err(TestCaseError::fail(m))
                        }
                    }
                });
                match res {
                    Ok(()) => {}
                    Err(TestError::Fail(_, case)) => {
                        // Message of the minimal case.
                        let mut note = Note::default();
                        let m = match eval(&case, t, &mut note) {
                            Err(m) => m,
                            Ok(()) => "failed before, but not when repeated: the minimal case is not deterministic".to_string(),
                        };
                        let path = save_replay(cx.prop, kind, &m, &case);
                        rep.violations.lock().unwrap().push((m, path));
                    }
                    Err(TestError::Abort(r)) => crate::proc::harness_error(&format!("proptest aborted: {r}")),
                }
            }).unwrap();
        }
    });
}

pub fn finish(cx: &Ctx, rep: &Report, level: &str, assumptions: &[&str]) -> i32 {
    let st = rep.stats.lock().unwrap();
    let vs = rep.violations.lock().unwrap();
    let mut cov = serde_json::json!({
        "evaluations": st.evaluations,
        "distinct_nontrivial": st.nontrivial.len(),
        "rule": st.rules.join(" | "),
        "samples": st.samples,
        "classes": st.classes,
        "saved_cases_replayed": st.regress,
        "shrink_evaluations": st.shrink_evals,
        "workers": cx.threads,
    });
    for (k, v) in &st.extra {
        cov[k] = v.clone();
    }
    let ev = serde_json::json!({
        "property": cx.prop,
        "tier": if cx.thorough() {"thorough"} else {"quick"},
        "seed": cx.seed,
        "level": level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": (cx.start.elapsed().as_millis() as f64) / 1000.0,
        "violations": vs.len(),
    });
    let dir = std::env::var("KS_EVIDENCE").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", cx.prop), serde_json::to_string_pretty(&ev).unwrap()) {
        crate::proc::harness_error(&format!("cannot write evidence: {e}"));
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} saved, {:.1}s",
        cx.prop,
        cx.tier,
        st.evaluations,
        st.nontrivial.len(),
        st.regress,
        cx.start.elapsed().as_secs_f32()
    );
    for (m, p) in vs.iter() {
        println!("  {m}");
        println!("VIOLATION property={} replay={}", cx.prop, p);
    }
    if vs.is_empty() {
        0
    } else {
        1
    }
}
