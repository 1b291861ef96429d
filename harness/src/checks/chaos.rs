//! C20.
use super::Check;
use ksharness::chaos::*;
use ksharness::explore::*;
use ksharness::gen;
use proptest::prelude::*;

fn tmut() -> impl Strategy<Value = TMut> {
    let (p, q) = (any::<u16>, any::<u8>);
    prop_oneof![
        3 => (p(), q()).prop_map(|(a, b)| TMut::Flip(a, b)),
        1 => (p(), 0u8..40).prop_map(|(a, b)| TMut::Delete(a, b)),
        2 => (p(), q()).prop_map(|(a, b)| TMut::Insert(a, b)),
        1 => p().prop_map(TMut::Truncate),
        1 => (p(), q(), prop_oneof![4 => 0u8..3, 1 => q()]).prop_map(|(a, b, c)| TMut::Repeat(a, b, c)),
        8 => (p(), q()).prop_map(|(a, b)| TMut::Attr(a, b)),
        1 => p().prop_map(TMut::NoAttr),
        1 => p().prop_map(TMut::DupAttr),
        2 => p().prop_map(TMut::NoTag),
        2 => p().prop_map(TMut::DupTag),
        1 => (p(), p()).prop_map(|(a, b)| TMut::MoveTag(a, b)),
        2 => (p(), q()).prop_map(|(a, b)| TMut::Text(a, b)),
        3 => (p(), q()).prop_map(|(a, b)| TMut::Num(a, b)),
        1 => q().prop_map(TMut::Wrap),
        1 => q().prop_map(TMut::Whole),
    ]
}

fn tmuts() -> impl Strategy<Value = Vec<TMut>> {
    prop_oneof![3 => prop::collection::vec(tmut(), 1..2), 2 => prop::collection::vec(tmut(), 2..6)]
}

fn input() -> impl Strategy<Value = Input> {
    prop_oneof![
        6 => (any::<u8>(), prop::bool::weighted(0.9), tmuts()).prop_map(|(k, f, m)| Input::Doc(k, f, m)),
        2 => prop::collection::vec((any::<u8>(), tmuts()), 1..6).prop_map(Input::Objects),
        4 => (any::<u8>(), prop::collection::vec((any::<u16>(), any::<u8>()).prop_map(|(a, b)| JMut(a, b)), 1..3)).prop_map(|(k, m)| Input::Json(k, m)),
        1 => (any::<u8>(), tmuts()).prop_map(|(k, m)| Input::State(k, m)),
        1 => tmuts().prop_map(Input::Tal),
        1 => tmuts().prop_map(Input::Ta),
        2 => prop::collection::vec((prop_oneof![1 => 0u8..3, 2 => any::<u8>()], any::<u8>()), 1..4).prop_map(Input::Cli),
    ]
}

fn case() -> impl Strategy<Value = BCase> {
    (gen::cfg(), prop_oneof![1 => Just(0u8), 6 => 1u8..4], 0u8..3, prop::bool::weighted(0.2), prop::bool::weighted(0.4), any::<bool>(), input(), prop_oneof![6 => Just(0u64), 1 => (0u64..5).prop_map(|n| u64::MAX - n), 1 => Just(4294967294u64)]).prop_map(|(mut cfg, first, more, session, tal, reject, input, serial)| {
        cfg.verb = 0;
        cfg.exdev = false;
        BCase { cfg, first, more, session, tal, reject, serial, input }
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        level: "exploration",
        assumptions: &["30 s of processor time, 4 GB of memory and files of 256 MB are enough for inputs of at most a few MB", "a run that waits without using the processor for longer than the watchdog makes the check inconclusive"],
        run: |cx, rep| {
            rep.rule("bytes: after up to three regular runs, one input (notification, snapshot, delta, objects, either saved state, TAL, TA certificate, options) is changed by one to five structured or byte-wise changes (extreme values of attributes, numbers and JSON values, tags and attributes left out, repeated or moved, nesting, encodings, huge values, truncation, bit flips), hashes following; non-trivial: the input really differs");
            explore(cx, rep, "bytes", cx.cases(6000), case, &|c: &BCase, t, n| play(c, t, n));
        },
        replay: |_k, v, n| play(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
