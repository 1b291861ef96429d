//! C16.
use super::Check;
use ksharness::explore::*;
use ksharness::gen;
use ksharness::mtime::*;
use proptest::prelude::*;

fn time() -> impl Strategy<Value = i64> {
    prop_oneof![
        // Usual ones, and the whole range of both encodings.
        6 => 1_600_000_000i64..1_760_000_000,
        2 => -631_152_000i64..2_524_607_999,
        2 => 2_524_608_000i64..253_402_300_799,
        1 => prop::sample::select(vec![-631_152_000i64, -1, 0, 1, 951_782_400, 946_684_799, 2_147_483_647, 2_147_483_648, 2_524_607_999, 2_524_608_000, 4_294_967_295, 4_294_967_296, 253_402_300_799]),
    ]
}

fn obj() -> impl Strategy<Value = MObj> {
    let broken = prop_oneof![
        10 => Just(None),
        1 => any::<u8>().prop_map(|k| Some(Broken::Garbage(k))),
        1 => any::<u8>().prop_map(|k| Some(Broken::Truncated(k))),
        1 => any::<u8>().prop_map(|k| Some(Broken::Other(k))),
    ];
    (0u8..8, any::<u8>(), time(), prop_oneof![-100i32..100, any::<i32>()], any::<u8>(), broken).prop_map(|(kind, ext, time, other, n, broken)| MObj { kind, ext, time, other, n, broken })
}

fn step() -> impl Strategy<Value = MStep> {
    prop_oneof![
        4 => prop::collection::vec((0u8..8, prop::option::weighted(0.8, obj())), 1..4).prop_map(MStep::Change),
        1 => (0u8..8, 0u8..8).prop_map(|(a, b)| MStep::Copy(a, b)),
        1 => Just(MStep::Session),
        5 => Just(MStep::Run),
        3 => (0u16..60).prop_map(MStep::Crash),
        2 => prop_oneof![0u32..100, 100u32..10000, any::<u32>().prop_map(|t| t % 400_000_000)].prop_map(MStep::Tick),
        1 => any::<u8>().prop_map(MStep::Lose),
    ]
}

fn case() -> impl Strategy<Value = MCase> {
    (gen::cfg(), any::<u8>(), prop::collection::vec((0u8..8, obj()), 0..7), prop::collection::vec(step(), 1..9)).prop_map(|(cfg, tz, objs, steps)| MCase { cfg: ksharness::hist::Cfg { delay: 0, ..cfg }, tz, objs, steps })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C16",
        level: "exploration",
        assumptions: &["the name of a file says of which kind an object is (.cer, .crl, all others signed objects)", "objects are properly encoded"],
        run: |cx, rep| {
            rep.rule("mtimes: generated CA, EE and router certificates, CRLs, manifests, ROAs, ASPAs and other signed objects with times from 1950 to 9999 and other times in the same object that differ, garbage, truncated and misnamed objects, over updates, new sessions, interrupted runs, lost state and time zones; non-trivial: a run left at least one object with a defined time");
            explore(cx, rep, "mtimes", cx.cases(6000), case, &|c: &MCase, t, n| play(c, t, n));
        },
        replay: |_k, v, n| play(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
