//! C21, C24.
use super::val::{ca, muts, some};
use super::Check;
use ksharness::explore::*;
use ksharness::forn::*;
use ksharness::gen;
use ksharness::pki::*;
use proptest::prelude::*;

#[derive(Clone, Copy)]
struct FW {
    tick_short: u32,
    tick_long: u32,
    fault: u32,
    offline: u32,
    bump: u32,
}

fn manner(pct: u32) -> impl Strategy<Value = Manner> {
    let list = prop_oneof![3 => (0u8..6).prop_map(ListF::Window), 2 => any::<u8>().prop_map(ListF::Gap), 1 => Just(ListF::None), 2 => any::<u8>().prop_map(ListF::Short)];
    (
        prop_oneof![(100 - pct / 4) => Just(false), (pct / 4) => Just(true)],
        some(pct / 4, 0u8..5),
        some(pct, list),
        some(pct, (0u8..4, 0u8..12)),
        some(pct / 3, 0u8..6),
        any::<bool>(),
    )
        .prop_map(|(down, notif, list, delta, snap, etag)| Manner { down, notif, list, delta, snap, etag })
}

fn fstep(w: FW) -> impl Strategy<Value = FStep> {
    prop_oneof![
        6 => muts().prop_map(FStep::Change),
        w.bump => any::<u8>().prop_map(FStep::Bump),
        1 => any::<u8>().prop_map(FStep::Session),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| FStep::Back(a, b)),
        w.fault => (any::<u8>(), manner(40)).prop_map(|(a, m)| FStep::Manner(a, m)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, etag)| FStep::Manner(a, Manner { etag, ..Default::default() })),
        w.tick_short => prop_oneof![0u32..600, 600u32..3700].prop_map(FStep::Tick),
        w.tick_long => (3700u32..20000).prop_map(FStep::Tick),
        8 => (0u32..100).prop_map(move |x| FStep::Run { offline: x < w.offline }),
        1 => prop_oneof![1 => Just(FStep::Plain), 2 => Just(FStep::Run { offline: false })],
    ]
}

/// One repository moves on some hours after a run, and is looked at again.
fn hop() -> impl Strategy<Value = Vec<FStep>> {
    let kind = prop_oneof![
        4 => Just(0u8),
        1 => Just(1u8),
        2 => Just(2u8),
    ];
    (any::<u8>(), kind, prop::collection::vec(prop::option::weighted(0.4, muts()), 1..5), prop::option::weighted(0.6, manner(50)), 3700u32..9000, any::<bool>()).prop_map(|(k, kind, vers, m, t, first)| {
        let mut v = vec![];
        if first {
            v.push(FStep::Manner(k, Manner::default()));
            v.push(FStep::Run { offline: false });
        }
        for x in vers {
            v.push(match x {
                Some(m) => FStep::Change(m),
                None => FStep::Bump(k),
            });
        }
        match kind {
            1 => v.push(FStep::Session(k)),
            2 if !first => v.push(FStep::Back(k, t as u8)),
            _ => {}
        }
        if let Some(m) = m {
            v.push(FStep::Manner(k, m));
        }
        v.push(FStep::Tick(t));
        v.push(FStep::Run { offline: false });
        v
    })
}

fn fsteps(w: FW) -> impl Strategy<Value = Vec<FStep>> {
    let one = fstep(w).prop_map(|s| vec![s]);
    let many = prop_oneof![(w.tick_short * 5) => one, w.tick_long => hop()];
    prop::collection::vec(many, 3..18).prop_map(|v| v.concat())
}

fn fcase(w: FW) -> impl Strategy<Value = FCase> {
    let cas = prop_oneof![5 => prop::collection::vec(ca(0, false), 2..7), 1 => prop::collection::vec(ca(10, false), 2..7)];
    (gen::cfg(), cas, 2u8..4, prop_oneof![3 => Just(0u8), 1 => 0u8..4], fsteps(w), super::val::roots()).prop_map(|(mut cfg, mut cas, nrepos, own, steps, roots)| {
        cfg.verb = 0;
        cfg.delay = 0;
        cas[0].repo = if cas[0].mask & 3 == 0 { cas[0].repo } else { own };
        let far = cas.len() - 1;
        if (0..cas.len()).all(|i| cas[i].repo % nrepos == own % nrepos) {
            cas[far].repo = (own + 1) % nrepos;
        }
        FCase { cfg, tree: Tree { cas, ta: None, version: 0, roots, ta_at: 0, tal_style: roots }, nrepos, own, steps }
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C21",
            level: "exploration",
            assumptions: &["runs validate an update and invalid content is not rejected, so that each run saves its state", "servers do not redirect", "repositories do not reuse a URI for other content within a session"],
            run: |cx, rep| {
                rep.rule("contacts: histories of several repositories (new versions, sessions, going back, faulty or absent notifications, deltas and snapshots), time passing and runs with or without offline validation; non-trivial: some other repository was reached by validation");
                explore(cx, rep, "contacts", cx.cases(2500), || fcase(FW { tick_short: 4, tick_long: 4, fault: 3, offline: 25, bump: 2 }), &|c: &FCase, t, n| play_foreign("C21", c, t, n));
            },
            replay: |_k, v, n| play_foreign("C21", &serde_json::from_value(v).unwrap(), 99, n),
        },
        Check {
            id: "C24",
            level: "exploration",
            assumptions: &["runs validate an update and invalid content is not rejected, so that each run saves its state", "repositories do not reuse a URI for other content within a session", "a delta that is announced with its hash, of the right session and serial, and fits, leads to what the snapshot has"],
            run: |cx, rep| {
                rep.rule("copies: histories as for C21 with more versions between runs, hours apart, and more faulty deltas; non-trivial: some other repository was reached by validation");
                explore(cx, rep, "copies", cx.cases(1300), || fcase(FW { tick_short: 1, tick_long: 8, fault: 4, offline: 5, bump: 4 }), &|c: &FCase, t, n| play_foreign("C24", c, t, n));
            },
            replay: |_k, v, n| play_foreign("C24", &serde_json::from_value(v).unwrap(), 99, n),
        },
    ]
}
