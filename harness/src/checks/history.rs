//! Checks that are histories judged by the engine's oracles.
use super::Check;
use ksharness::explore::*;
use ksharness::gen::*;
use ksharness::hist::*;
use proptest::prelude::*;

const ASSUME: &[&str] = &[
    "the kernel's file-system calls are atomic and take effect in program order (process kills, not power loss)",
    "a source never reuses a URI for other content",
    "the shim sees all mutating libc calls of the process",
];

macro_rules! hist_check {
    ($id:literal, $cases:expr, $gen:expr, $rule:literal) => {
        Check {
            id: $id,
            level: "exploration",
            assumptions: ASSUME,
            run: |cx: &Ctx, rep: &Report| {
                rep.rule($rule);
                explore(cx, rep, "hist", cx.cases($cases), || $gen, &|h: &Hist, t, n| play($id, h, t, n));
            },
            replay: |_k, v, n| play($id, &serde_json::from_value(v).unwrap(), 99, n),
        }
    };
}

macro_rules! sweep_check {
    ($id:literal, $cases:expr, $gen:expr, $sweeps:expr, $sgen:expr, $rule:literal) => {
        Check {
            id: $id,
            level: "exploration",
            assumptions: ASSUME,
            run: |cx: &Ctx, rep: &Report| {
                rep.rule(concat!("hist: ", $rule));
                rep.rule("sweep: a short random history whose last run is repeated from scratch once for each of its mutating operations, interrupted there (kill, partial write and kill, I/O error, full disk), then followed by further source changes and an undisturbed run; non-trivial: at least one operation was interrupted");
                explore(cx, rep, "hist", cx.cases($cases), || $gen, &|h: &Hist, t, n| play($id, h, t, n));
                explore(cx, rep, "sweep", cx.cases($sweeps), || $sgen, &|h: &Sweep, t, n| sweep($id, h, t, n));
            },
            replay: |k, v, n| match k {
                "sweep" => sweep($id, &serde_json::from_value(v).unwrap(), 99, n),
                _ => play($id, &serde_json::from_value(v).unwrap(), 99, n),
            },
        }
    };
}

fn with_rsync() -> BoxedStrategy<Cfg> {
    cfg().prop_map(|mut c| { c.rsync = true; c }).boxed()
}

pub fn checks() -> Vec<Check> {
    vec![
        sweep_check!("C01", 2500, hist(W { fault: 25, back: 1, lose: 1, ..BASE }), 300, sweeps(cfg().boxed()), "random histories of source updates, session changes, delta-window changes, clock steps and runs (one in four killed, cut or failing at a random operation); the public RRDP tree is re-read before every mutating operation; non-trivial: at least two versions were published"),
        hist_check!("C02", 4000, hist(W { back: 1, lose: 1, ..BASE }), "as C01 without faults; non-trivial: at least one run published a version, judged against the source's notification and the previously public one"),
        hist_check!("C03", 4000, hist_with(W { back: 1, lose: 1, ..BASE }, cfg().prop_map(|mut c| { c.rsync = true; c }).boxed()), "as C01 without faults, rsync always enabled; non-trivial: at least one run published"),
        sweep_check!("C04", 2500, hist_with(W { fault: 30, back: 1, lose: 1, ..BASE }, cfg().prop_map(|mut c| { c.rsync = true; c }).boxed()), 300, sweeps(with_rsync()), "as C01, rsync enabled, 30% of runs interrupted; non-trivial: at least two publications"),
        hist_check!("C05", 5000, hist(W { fault: 10, tick: 6, ..BASE }), "as C01 with more clock steps and 10% interrupted runs; non-trivial: at least one published file was superseded"),
        hist_check!("C06", 6000, hist(W { tick: 8, ..BASE }), "as C01 without faults; non-trivial: at a publishing run something was due for clean-up"),
        hist_check!("C07", 5000, hist(W { rollback: 5, lower: 4, session: 2, back: 1, ..BASE }), "histories with serial rollbacks; non-trivial: a run saw a lower serial than published"),
        hist_check!("C08", 5000, hist(W { fmt: 5, tick: 6, publish: 6, back: 1, ..BASE }), "histories with repeated runs, notification reformatting and clock steps; non-trivial: a run without source change happened"),
        sweep_check!("C10", 3000, hist(W { fault: 40, flip: 6, session: 4, back: 1, lose: 1, ..BASE }), 300, sweeps(cfg().boxed()), "histories in which 40% of runs are killed, cut or fail at a random operation; non-trivial: an undisturbed run followed an interrupted one"),
        Check {
            id: "C09",
            level: "exploration",
            assumptions: ASSUME,
            run: |cx: &Ctx, rep: &Report| {
                rep.rule("hist: histories with runs against a damaged source (missing, altered, broken, incomplete, misplaced or mislabelled notification, snapshot or delta that this run needs), each followed by a run against the corrected source; non-trivial: a damaged source was met");
                explore(cx, rep, "hist", cx.cases(2500), || hist(W { bad: 12, publish: 14, ..BASE }), &|h: &Hist, t, n| play("C09", h, t, n));
                super::net::c09_net(cx, rep, 700);
            },
            replay: |k, v, n| match k {
                "net" => super::net::c09_replay(v, n),
                _ => play("C09", &serde_json::from_value(v).unwrap(), 99, n),
            },
        },
        hist_check!("C19", 3000, hist_with(W { fault: 5, midtick: 20, ..BASE }, cfg().prop_map(|mut c| { c.delay = 1 + c.delay % 997; c }).boxed()), "histories with a delay; non-trivial: a delayed publication was timed on the virtual clock"),
        hist_check!("C25", 2500, hist_with(W { recfg: 2, fault: 15, ..BASE }, (cfg(), 0u8..5).prop_map(|(mut c, u)| { c.umask = u; c.rsync |= u % 2 == 0; c }).boxed()), "as C01 with file mode creation masks 022, 002, 027, 077 and 000 and some configuration changes; non-trivial: something was published"),
        hist_check!("C22", 4000, hist(W { recfg: 8, fault: 0, ..BASE }), "histories with configuration changes; non-trivial: a successful run after a change"),
    ]
}
