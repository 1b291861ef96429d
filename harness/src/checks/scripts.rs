//! C13.
use super::Check;
use ksharness::explore::*;
use ksharness::gen::*;
use ksharness::scripts::*;
use proptest::prelude::*;

fn case() -> impl Strategy<Value = SCase> {
    (
        hist_with(W { bad: 2, rollback: 1, publish: 12, max_steps: 10, ..BASE }, cfg().boxed()),
        any::<bool>(),
        0u8..4,
        prop::collection::vec(prop::collection::vec(prop_oneof![3 => 0u8..4, 1 => 8u8..9, 2 => 4u8..8, 1 => 9u8..10], 0..4), 0..5),
    )
        .prop_map(|(hist, reject, scripts, outs)| SCase { hist, reject, scripts, outs })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C13",
        level: "exploration",
        assumptions: &["scripts can be started and end by themselves", "what a script sees is what cp -a copies when it is run"],
        run: |cx, rep| {
            rep.rule("scripts: random histories (updates, session changes, bad sources, rollbacks) run with up to three shell scripts which copy the staging area and both public trees when they run and then succeed, fail, are killed or write a lot or odd bytes, with and without rejection; non-trivial: an update was seen by at least one script");
            explore(cx, rep, "scripts", cx.cases(2500), case, &|c: &SCase, t, n| play(c, t, n));
        },
        replay: |_k, v, n| play(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
