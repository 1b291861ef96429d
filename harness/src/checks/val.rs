//! C14, C15.
use super::Check;
use ksharness::explore::*;
use ksharness::gen;
use ksharness::pki::*;
use ksharness::val::*;
use proptest::prelude::*;

fn objf() -> impl Strategy<Value = ObjF> {
    prop_oneof![
        Just(ObjF::Missing),
        Just(ObjF::Altered),
        Just(ObjF::Rehashed),
        any::<u8>().prop_map(ObjF::Garbage),
        any::<u8>().prop_map(ObjF::Truncated),
        Just(ObjF::OtherIssuer),
        Just(ObjF::CertSig),
        Just(ObjF::CmsSig),
        Just(ObjF::Expired),
        Just(ObjF::NotYet),
        (60u32..20000).prop_map(ObjF::Until),
        Just(ObjF::Revoked),
        Just(ObjF::Overclaim),
        any::<u8>().prop_map(ObjF::WrongExt),
    ]
}

fn cerf() -> impl Strategy<Value = CerF> {
    prop_oneof![
        Just(CerF::Missing),
        Just(CerF::Altered),
        Just(CerF::Rehashed),
        any::<u8>().prop_map(CerF::Garbage),
        any::<u8>().prop_map(CerF::Truncated),
        Just(CerF::OtherIssuer),
        Just(CerF::CertSig),
        Just(CerF::Expired),
        Just(CerF::NotYet),
        (60u32..20000).prop_map(CerF::Until),
        Just(CerF::Revoked),
        Just(CerF::Overclaim),
        Just(CerF::NoMft),
        Just(CerF::NoRepo),
        Just(CerF::NoRrdp),
        Just(CerF::NotListed),
    ]
}

fn ppf() -> impl Strategy<Value = PpF> {
    prop_oneof![
        Just(PpF::MftMissing),
        any::<u8>().prop_map(PpF::MftGarbage),
        any::<u8>().prop_map(PpF::MftTruncated),
        Just(PpF::MftOtherIssuer),
        Just(PpF::MftCertSig),
        Just(PpF::MftCmsSig),
        Just(PpF::MftExpired),
        Just(PpF::MftNotYet),
        (60u32..20000).prop_map(PpF::MftUntil),
        Just(PpF::MftRevoked),
        Just(PpF::MftStale),
        Just(PpF::CrlNotListed),
        Just(PpF::CrlMissing),
        Just(PpF::CrlAltered),
        Just(PpF::CrlRehashed),
        any::<u8>().prop_map(PpF::CrlGarbage),
        any::<u8>().prop_map(PpF::CrlTruncated),
        Just(PpF::CrlSig),
        Just(PpF::CrlStale),
        any::<u8>().prop_map(PpF::OddName),
    ]
}

pub fn some<T: Clone + std::fmt::Debug + 'static>(pct: u32, s: impl Strategy<Value = T> + 'static) -> BoxedStrategy<Option<T>> {
    prop_oneof![100 - pct => Just(None), pct => s.prop_map(Some)].boxed()
}

fn obj(pct: u32) -> impl Strategy<Value = Obj> {
    (0u8..6, 0u8..16, any::<u8>(), some(pct, objf())).prop_map(|(kind, unit, n, fault)| Obj { kind, unit, n, fault })
}

pub fn ca(pct: u32, cycles: bool) -> impl Strategy<Value = Ca> {
    (
        any::<u8>(),
        prop_oneof![2 => Just(0u8), 3 => 0u8..4],
        prop_oneof![2 => any::<u16>(), 1 => Just(0xffffu16), 1 => (0u16..16).prop_map(|b| 1 << b)],
        0u8..3,
        some(pct, cerf()),
        some(pct * 2 / 3, ppf()),
        prop::collection::vec(obj(pct), 0..6),
        some(if cycles { 5 } else { 0 }, 0u8..8),
    )
        .prop_map(|(parent, repo, mask, how, fault, pp, objs, cycle)| Ca { parent, repo, mask, how, fault, pp, objs, cycle })
}

fn taf() -> impl Strategy<Value = TaF> {
    prop_oneof![Just(TaF::Missing), any::<u8>().prop_map(TaF::Garbage), Just(TaF::Expired), Just(TaF::NotYet), Just(TaF::OtherKey), Just(TaF::Inherit)]
}

pub fn tree(ta: u32) -> impl Strategy<Value = Tree> {
    let cas = prop_oneof![1 => prop::collection::vec(ca(0, false), 1..8), 5 => prop::collection::vec(ca(10, true), 1..8), 2 => prop::collection::vec(ca(25, true), 1..12)];
    (cas, some(ta, taf()), 0u8..4, roots(), any::<u8>(), any::<u8>()).prop_map(|(cas, ta, version, roots, ta_at, tal_style)| Tree { cas, ta, version, roots, ta_at, tal_style })
}

/// Further trust anchors.
pub fn roots() -> impl Strategy<Value = u8> {
    prop_oneof![3 => Just(0u8), 1 => 1u8..3]
}

fn tree_case() -> impl Strategy<Value = TreeCase> {
    (gen::cfg(), tree(4), 1u8..4, 0u8..4, prop_oneof![4 => Just(0u8), 1 => any::<u8>()], any::<bool>()).prop_map(|(mut cfg, tree, nrepos, own, absent, reject)| {
        cfg.verb = 0;
        cfg.delay = 0;
        TreeCase { cfg, tree, nrepos, own, absent, reject }
    })
}

pub fn muts() -> impl Strategy<Value = Vec<Mut>> {
    let one = prop_oneof![
        2 => (any::<u8>(), some(60, ppf())).prop_map(|(c, f)| Mut::Pp(c, f)),
        2 => (any::<u8>(), some(60, cerf())).prop_map(|(c, f)| Mut::Cer(c, f)),
        3 => (any::<u8>(), any::<u8>(), some(60, objf())).prop_map(|(c, o, f)| Mut::Obj(c, o, f)),
        3 => (any::<u8>(), 0u8..6, 0u8..16, any::<u8>()).prop_map(|(c, k, u, n)| Mut::Add(c, k, u, n)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(c, o)| Mut::Del(c, o)),
        3 => Just(Mut::Mend),
    ];
    prop::collection::vec(one, 1..4)
}

fn vstep() -> impl Strategy<Value = VStep> {
    prop_oneof![
        6 => muts().prop_map(VStep::Change),
        1 => Just(VStep::Session),
        2 => prop_oneof![1u32..60, 60u32..3600, 3600u32..20000].prop_map(VStep::Tick),
        1 => some(40, taf()).prop_map(VStep::Ta),
        1 => (any::<u8>(), some(40, any::<u8>())).prop_map(|(s, o)| VStep::Tals(s, o)),
        8 => (prop_oneof![6 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(true), 1 => Just(false)], (prop_oneof![1 => Just(0u8), 1 => 0u8..8], prop_oneof![3 => Just(0u8), 1 => Just(0x80u8)]).prop_map(|(a, b)| a | b)).prop_map(|(tal, reject, tals)| VStep::Run { tal, reject, tals }),
    ]
}

fn gate_case() -> impl Strategy<Value = GateCase> {
    let cas = prop_oneof![3 => prop::collection::vec(ca(0, false), 1..5), 1 => prop::collection::vec(ca(10, false), 1..6)];
    (gen::cfg(), cas, 1u8..4, 0u8..4, prop::collection::vec(vstep(), 2..14), (roots(), any::<u8>(), any::<u8>())).prop_map(|(mut cfg, cas, nrepos, own, steps, (roots, ta_at, tal_style))| {
        cfg.verb = 0;
        cfg.delay = 0;
        GateCase { cfg, tree: Tree { cas, ta: None, version: 0, roots, ta_at, tal_style }, nrepos, own, steps }
    })
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C14",
        level: "exploration",
        assumptions: &["other repositories do not change and are available (they are the subject of C21 and C24)", "no two versions of a file of the source have the same URI"],
        run: |cx, rep| {
            rep.rule("gate: histories of versions of a CA tree whose faults come and go and expire with time, a trust anchor that may fail, and runs with and without TAL and rejection; non-trivial: some run validated an update");
            explore(cx, rep, "gate", cx.cases(3500), gate_case, &|c: &GateCase, t, n| play_gate(c, t, n));
        },
        replay: |_k, v, n| play_gate(&serde_json::from_value(v).unwrap(), 99, n),
    }, Check {
        id: "C15",
        level: "exploration",
        assumptions: &["RSA keys are valid, and files do not collide under SHA-256"],
        run: |cx, rep| {
            rep.rule("tree: generated trees of 1 to 11 CAs over 1 to 4 repositories, with faults of objects, certificates, manifests, CRLs, trust anchors and repositories; non-trivial: some object of the repository under test is valid");
            explore(cx, rep, "tree", cx.cases(4500), tree_case, &|c: &TreeCase, t, n| play_tree(c, t, n));
        },
        replay: |_k, v, n| play_tree(&serde_json::from_value(v).unwrap(), 99, n),
    }]
}
