//! C11.
use super::Check;
use ksharness::conc::*;
use ksharness::explore::*;
use proptest::prelude::*;

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        6 => (0u8..7).prop_map(Op::Start),
        8 => (0u8..4, prop_oneof![3 => 1u8..6, 2 => 6u8..60]).prop_map(|(i, n)| Op::Step(i, n)),
        3 => (0u8..4).prop_map(Op::Finish),
        1 => (0u8..4).prop_map(Op::Kill),
        2 => (0u8..4, 0u8..50).prop_map(|(a, b)| Op::Publish(a, b)),
        1 => (0u8..8).prop_map(Op::NewSession),
    ]
}

fn case() -> impl Strategy<Value = CCase> {
    (any::<bool>(), prop_oneof![4 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(0u8), 1 => 1u8..100], prop_oneof![Just(0u32), 1u32..100, Just(3600u32)], prop::collection::vec(op(), 2..14))
        .prop_map(|(synced, rsync, delay, cleanup, ops)| CCase { synced, rsync, delay, cleanup, ops })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C11",
        level: "exploration",
        assumptions: &["invocations interleave at their file-system, lock and sleep calls (one of them runs at a time between two such calls)", "a process that uses no CPU for 10 s while it should either end or go on is waiting for another one"],
        run: |cx, rep| {
            rep.rule("sched: up to four invocations (same state directory, partly under other spellings or options) under a scheduler which lets them step, finish or be killed in a generated order, with the source moving on; at most one may work at a time, one that met another at work must fail, and a later run on its own must succeed and publish the source's version; non-trivial: an invocation was started while another one was running");
            explore(cx, rep, "sched", cx.cases(6000), case, &|c: &CCase, t, n| play(c, t, n));
        },
        replay: |_k, v, n| play(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
