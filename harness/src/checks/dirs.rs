//! C23.
use super::Check;
use ksharness::dirs::*;
use ksharness::explore::*;
use proptest::prelude::*;

fn shape() -> impl Strategy<Value = Shape> {
    (any::<bool>(), prop::collection::vec(0u8..18, 0..4), 0u8..8, prop_oneof![3 => Just(false), 1 => Just(true)], 0u8..3, prop_oneof![2 => Just(false), 1 => Just(true)])
        .prop_map(|(absolute, comps, style, inside_state, opt, exists)| Shape { absolute, comps, style, inside_state, opt, exists })
}

fn case() -> impl Strategy<Value = DCase> {
    (
        (shape().prop_map(|s| Shape { inside_state: false, ..s }), prop::option::of(shape()), prop::option::of(shape()), any::<bool>(), prop_oneof![4 => Just(true), 1 => Just(false)]),
        (0u8..5, 0u8..9, prop::collection::vec((0u8..12, any::<u8>()), 0..4), ksharness::gen::changes(), 0u8..4),
        prop_oneof![3 => Just(None), 1 => (0u8..11).prop_map(|k| Some(Refuse::Source(k))), 1 => (0u8..10).prop_map(|k| Some(Refuse::Uri(k)))],
    )
        .prop_map(|((state, rrdp, rsync, include_host, rsync_on), (style, notif, objects, change, src), refuse)| DCase { state, rrdp, rsync, include_host, rsync_on, style, notif, objects, change, src, refuse })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        level: "exploration",
        assumptions: &["the directories differ from each other and from the built-in default values", "the state directory is always given (the built-in default lies outside the scratch area)"],
        run: |cx, rep| {
            rep.rule("dirs: generated relative and absolute directories (nested, doubled and trailing slashes, odd and non-UTF-8 names, names containing the built-in defaults, existing or not, below the state directory or not) given or not given in several spellings, two runs each, with a complete listing of what came into being; or a source base or notification URI that must be refused; non-trivial: every case, as each of them decides a statement");
            explore(cx, rep, "dirs", cx.cases(6000), case, &|c: &DCase, t, n| play(c, t, n));
        },
        replay: |_k, v, n| play(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
