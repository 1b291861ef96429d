//! C12.
use super::Check;
use ksharness::explore::*;
use ksharness::hostile::*;
use ksharness::net::Via;
use proptest::prelude::*;

fn odd() -> impl Strategy<Value = Odd> {
    prop_oneof![3 => Just(Odd(0, 0)), 5 => (0u8..12, 0u8..40).prop_map(|(a, b)| Odd(a, b)), 1 => (0u8..40).prop_map(|b| Odd(11, b))]
}

fn obj() -> impl Strategy<Value = OddObj> {
    prop_oneof![2 => (0u8..3, 0u8..3, 0u8..5), 1 => (0u8..10, 0u8..8, 0u8..5), 1 => (0u8..3, 0u8..3, 0u8..16), 1 => (0u8..10, 0u8..8, 0u8..16)].prop_map(|(a, b, c)| OddObj(a, b, c))
}

fn ver() -> impl Strategy<Value = HVer> {
    (
        prop_oneof![2 => Just(false), 1 => Just(true)],
        odd(),
        prop::collection::vec(odd(), 0..3),
        prop::collection::vec(obj(), 0..4),
        prop_oneof![4 => Just(false), 1 => Just(true)],
        prop_oneof![2 => Just(false), 1 => Just(true)],
        prop_oneof![1 => Just(0u32), 2 => 1u32..100],
    )
        .prop_map(|(new_session, snap, deltas, objs, broken, again, tick)| HVer { new_session, snap, deltas, objs, broken, again, tick })
}

fn case() -> impl Strategy<Value = HCase> {
    (
        any::<bool>(),
        prop_oneof![9 => Just(true), 1 => Just(false)],
        prop_oneof![3 => Just(false), 1 => Just(true)],
        prop_oneof![3 => Just(0u32), 1 => 1u32..60, 1 => Just(3600u32)],
        prop_oneof![2 => Just(Via::File), 2 => Just(Via::Direct), 1 => Just(Via::Mapped(0))],
        0u8..9,
        any::<bool>(),
        prop::collection::vec(ver(), 1..5),
    )
        .prop_map(|(include_host, rsync, exdev, cleanup, via, notif, first_clean, vers)| HCase { include_host, rsync, exdev, cleanup, via, notif, first_clean, vers })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C12",
        level: "exploration",
        assumptions: &[
            "the shim sees all mutating libc calls of the process; the process runs as an unprivileged user owning only its scratch directory",
            "one loopback TLS server stands in for all hosts",
        ],
        run: |cx, rep| {
            rep.rule("uri: histories of versions whose snapshot, delta and object URIs come from templates of traversal, absolute, empty-segment, dot, reserved-name, encoded, overlong and foreign forms, over directory, direct and mapped HTTPS sources which deliver matching content for them; every mutating call is checked for its place and the public notification for consistency, and two clean versions follow; non-trivial: a run met an unusual URI");
            explore(cx, rep, "uri", cx.cases(3000), case, &|c: &HCase, t, n| play(c, t, n));
        },
        replay: |_k, v, n| play(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
