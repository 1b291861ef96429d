//! Generators of histories.
use crate::hist::*;
use proptest::prelude::*;

/// Weights of the steps of a history.
#[derive(Clone, Copy)]
pub struct W {
    pub publish: u32,
    pub session: u32,
    pub flip: u32,
    pub rollback: u32,
    pub lower: u32,
    pub window: u32,
    pub tick: u32,
    pub fmt: u32,
    pub recfg: u32,
    pub run: u32,
    /// The clock is set back; saved state is lost.
    pub back: u32,
    pub lose: u32,
    pub bad: u32,
    /// Probability (of 100) that a run has a fault.
    pub fault: u32,
    /// Probability (of 100) that time passes in the middle of a run.
    pub midtick: u32,
    pub max_steps: usize,
}

pub const BASE: W = W { publish: 10, session: 2, flip: 2, rollback: 0, lower: 0, window: 2, tick: 3, fmt: 1, recfg: 0, run: 12, back: 0, lose: 0, bad: 0, fault: 0, midtick: 5, max_steps: 18 };

pub fn cfg() -> impl Strategy<Value = Cfg> {
    (
        prop_oneof![3 => Just(None), 4 => (0u8..6).prop_map(Some)],
        prop_oneof![2 => Just(0u32), 3 => 1u32..10, 3 => Just(600), 2 => Just(3600)],
        prop_oneof![5 => Just(0u32), 1 => 1u32..20, 1 => Just(900)],
        prop_oneof![9 => Just(true), 1 => Just(false)],
        any::<bool>(),
        prop_oneof![4 => Just(false), 1 => Just(true)],
        prop_oneof![3 => 0u8..10, 2 => 10u8..40],
        0u8..9,
        any::<bool>(),
        (any::<bool>(), prop_oneof![4 => Just(0u8), 4 => 1u8..8]),
    )
        .prop_map(|(max_deltas, cleanup, delay, rsync, include_host, exdev, style, notif, purge, (foreign, verb))| Cfg {
            max_deltas,
            cleanup,
            delay,
            rsync,
            include_host,
            exdev,
            style,
            notif,
            purge,
            foreign,
            verb,
            umask: 0,
        })
}

pub fn changes() -> impl Strategy<Value = Vec<(u8, Option<u8>)>> {
    prop::collection::vec((0u8..12, prop_oneof![3 => any::<u8>().prop_map(Some), 2 => Just(None)]), 0..4)
}

pub fn fault() -> impl Strategy<Value = Fault> {
    (
        prop_oneof![4 => 0u16..40, 3 => 0u16..90],
        prop_oneof![4 => Just(Kind::Kill), 2 => any::<u8>().prop_map(Kind::PartialKill), 2 => (0u8..4).prop_map(Kind::Io), 1 => Just(Kind::Full)],
    )
        .prop_map(|(at, kind)| Fault { at, kind })
}

pub fn run(w: W) -> impl Strategy<Value = Step> {
    let f = w.fault;
    let m = w.midtick;
    (
        prop_oneof![100 - f => Just(None), f.max(1) => fault().prop_map(Some)],
        prop_oneof![100 - m => Just(None), m.max(1) => (0u16..60, 1u16..2000).prop_map(Some)],
    )
        .prop_map(move |(fault, tick)| Step::Run { fault: if f == 0 { None } else { fault }, tick: if m == 0 { None } else { tick } })
}

pub fn serial() -> impl Strategy<Value = u64> {
    prop_oneof![6 => 1u64..12, 2 => 90u64..110, 1 => Just(u64::MAX / 2), 1 => Just(4294967290u64), 1 => (0u64..6).prop_map(|n| u64::MAX - n)]
}

pub fn re() -> impl Strategy<Value = Re> {
    prop_oneof![
        2 => (0u8..2).prop_map(|n| Re { rrdp: Some(n), ..Re::default() }),
        1 => (0u8..2).prop_map(|n| Re { rsync: Some(n), ..Re::default() }),
        2 => (0u8..3).prop_map(|n| Re { name: Some(n), ..Re::default() }),
        2 => (0u8..3).prop_map(|n| Re { base: Some(n), ..Re::default() }),
        2 => any::<bool>().prop_map(|n| Re { include_host: Some(n), ..Re::default() }),
        1 => any::<bool>().prop_map(|n| Re { rsync_on: Some(n), ..Re::default() }),
        2 => prop::option::of(0u8..4).prop_map(|n| Re { max_deltas: Some(n), ..Re::default() }),
        1 => prop_oneof![Just(0u32), Just(5), Just(600)].prop_map(|n| Re { cleanup: Some(n), ..Re::default() }),
    ]
}

fn opt(w: u32, s: BoxedStrategy<Step>) -> Option<(u32, BoxedStrategy<Step>)> {
    if w == 0 {
        None
    } else {
        Some((w, s))
    }
}

pub fn step(w: W) -> BoxedStrategy<Step> {
    let v: Vec<_> = [
        opt(w.publish, changes().prop_map(Step::Publish).boxed()),
        opt(w.session, (serial(), any::<bool>()).prop_map(|(serial, keep)| Step::NewSession { serial, keep }).boxed()),
        opt(w.flip, (0u8..4).prop_map(Step::Flip).boxed()),
        opt(w.rollback, (1u8..3).prop_map(Step::Rollback).boxed()),
        opt(w.lower, prop_oneof![2 => (any::<u8>(), any::<bool>()), 1 => (Just(255), any::<bool>())].prop_map(|(n, d)| Step::BadRun(Bad::Lower(n, d))).boxed()),
        opt(w.window, prop_oneof![0u8..5, Just(100)].prop_map(Step::Window).boxed()),
        opt(w.tick, prop_oneof![2 => 1u32..12, 1 => Just(600), 1 => Just(4000)].prop_map(Step::Tick).boxed()),
        opt(w.fmt, any::<u8>().prop_map(Step::Fmt).boxed()),
        opt(w.recfg, re().prop_map(Step::Recfg).boxed()),
        opt(w.back, prop_oneof![2 => 1u32..20, 1 => Just(600), 1 => Just(100_000)].prop_map(Step::Back).boxed()),
        opt(w.lose, any::<u8>().prop_map(|n| Step::Lose(n % 4)).boxed()),
        opt(w.run, run(w).boxed()),
        opt(w.bad, bad().prop_map(Step::BadRun).boxed()),
    ]
    .into_iter()
    .flatten()
    .collect();
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn hist(w: W) -> BoxedStrategy<Hist> {
    hist_with(w, cfg().boxed())
}

/// Steps that rarely come up one after another by chance.
fn motif(w: W) -> BoxedStrategy<Vec<Step>> {
    let full = |n: usize| prop::collection::vec((0u8..12, any::<u8>().prop_map(Some)), 1..n);
    // Many published versions.
    let busy = prop::collection::vec((full(3), prop_oneof![3 => Just(0u32), 1 => 1u32..20], run(w)), 3..12).prop_map(|v| {
        v.into_iter()
            .flat_map(|(c, t, r)| [Some(Step::Publish(c)), (t > 0).then_some(Step::Tick(t)), Some(r)].into_iter().flatten())
            .collect::<Vec<_>>()
    });
    // There and back again.
    let recfg = if w.recfg > 0 { prop_oneof![1 => Just(None), 3 => re().prop_map(Some), 2 => any::<bool>().prop_map(|n| Some(Re { include_host: Some(n), ..Re::default() }))].boxed() } else { Just(None).boxed() };
    let back = (full(4), run(w), serial(), any::<bool>(), run(w), recfg, prop_oneof![3 => Just(0u32), 1 => 1u32..700], 0u8..4, prop::option::of(full(3)), run(w)).prop_map(|(c, r1, serial, keep, r2, re, t, n, c2, r3)| {
        [Some(Step::Publish(c)), Some(r1), Some(Step::NewSession { serial, keep }), Some(r2), re.map(Step::Recfg), (t > 0).then_some(Step::Tick(t)), Some(Step::Flip(n)), c2.map(Step::Publish), Some(r3)]
            .into_iter()
            .flatten()
            .collect::<Vec<_>>()
    });
    // Numbers of versions and objects which are out of the ordinary.
    let many = (20u8..130, run(w), full(3), run(w), 0u8..20, run(w)).prop_map(|(n, r, c, r2, m, r3)| {
        let mut v = vec![Step::Many(n), r, Step::Publish(c), r2];
        if m > 0 {
            v.extend([Step::Many(m), r3]);
        }
        v
    });
    let bulk = (any::<u8>(), run(w), prop_oneof![Just(0u8), any::<u8>()], run(w)).prop_map(|(n, r, m, r2)| vec![Step::Bulk(n), r, Step::Bulk(m), r2]);
    if w.publish == 0 || w.run == 0 || w.max_steps <= 5 {
        return Just(vec![]).boxed();
    }
    prop_oneof![72 => Just(vec![]), 12 => busy, 12 => back, 1 => many, 2 => bulk].boxed()
}

pub fn hist_with(w: W, c: BoxedStrategy<Cfg>) -> BoxedStrategy<Hist> {
    (
        c,
        serial(),
        prop::collection::vec((0u8..12, any::<u8>()), 0..7),
        prop_oneof![6 => prop::collection::vec(changes(), 0..3), 1 => prop::collection::vec(changes(), 6..16)],
        prop::collection::vec(step(w), 1..w.max_steps),
        (any::<u8>(), motif(w)),
        run(w),
    )
        .prop_map(move |(cfg, serial, objects, pre, mut steps, (at, motif), last)| {
            let at = at as usize % (steps.len() + 1);
            steps.splice(at..at, motif);
            // A few versions before the first run give it deltas.
            for p in pre {
                steps.insert(0, Step::Publish(p));
            }
            steps.push(last);
            Hist { cfg, serial, objects, steps }
        })
        .boxed()
}

/// Short histories for crash sweeps.
pub fn sweeps(c: BoxedStrategy<Cfg>) -> BoxedStrategy<Sweep> {
    let w = W { fault: 0, max_steps: 5, midtick: 0, flip: 5, ..BASE };
    (
        hist_with(w, c),
        prop_oneof![4 => Just(Kind::Kill), 2 => any::<u8>().prop_map(Kind::PartialKill), 2 => (0u8..4).prop_map(Kind::Io), 1 => Just(Kind::Full)],
        prop::collection::vec(step(W { run: 0, ..w }), 0..3),
    )
        .prop_map(|(hist, kind, between)| Sweep { hist, kind, between })
        .boxed()
}

pub fn bad() -> impl Strategy<Value = Bad> {
    let how = || {
        prop_oneof![
            3 => any::<u16>().prop_map(How::Flip),
            2 => any::<u16>().prop_map(How::Truncate),
            1 => Just(How::Append),
            1 => Just(How::Empty),
            1 => Just(How::Other),
        ]
    };
    prop_oneof![
        1 => Just(Bad::SnapMissing),
        2 => how().prop_map(Bad::SnapAltered),
        2 => any::<u8>().prop_map(Bad::DeltaMissing),
        3 => (any::<u8>(), how()).prop_map(|(n, h)| Bad::DeltaAltered(n, h)),
        1 => Just(Bad::NotifMissing),
        2 => any::<u8>().prop_map(Bad::NotifBroken),
        3 => any::<u8>().prop_map(Bad::Gap),
        2 => any::<u8>().prop_map(Bad::SnapOutside),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(n, k)| Bad::DeltaOutside(n, k)),
        3 => any::<u8>().prop_map(Bad::SnapWrong),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(n, k)| Bad::DeltaWrong(n, k)),
    ]
}
