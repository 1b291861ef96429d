//! C17, C18 and the network part of C09.
use super::Check;
use ksharness::explore::*;
use ksharness::gen::*;
use ksharness::net::*;
use ksharness::tls::Cert;
use proptest::prelude::*;

const ASSUME: &[&str] = &[
    "the kernel's file-system calls are atomic and take effect in program order",
    "one loopback TLS server stands in for all hosts; name resolution and connections of the process are redirected to it",
    "the source does not redirect",
];

fn via(files: u32) -> BoxedStrategy<Via> {
    prop_oneof![
        files => prop_oneof![Just(Via::File), any::<bool>().prop_map(Via::RelFile)],
        3 => any::<u8>().prop_map(Via::Mapped),
        2 => Just(Via::Direct),
    ]
    .boxed()
}

fn cert() -> impl Strategy<Value = Cert> {
    proptest::sample::select(Cert::BAD.to_vec())
}

fn twist(want: &'static str) -> BoxedStrategy<Twist> {
    match want {
        "C17" => prop_oneof![2 => Just(Twist::Plain), 2 => (any::<u8>(), any::<bool>()).prop_map(|(at, right)| Twist::Staged { at, right })].boxed(),
        "C18" => prop_oneof![
            1 => Just(Twist::Plain),
            5 => (0u8..6, cert(), any::<bool>()).prop_map(|(at, kind, rest)| Twist::BadCert { at, kind, rest }),
            2 => any::<u8>().prop_map(Twist::Altered),
        ]
        .boxed(),
        _ => prop_oneof![
            1 => Just(Twist::Plain),
            5 => (
                any::<u8>(),
                prop_oneof![
                    3 => proptest::sample::select(vec![304u16, 404, 403, 500, 503, 204, 206, 201]).prop_map(NetFault::Status),
                    3 => any::<u16>().prop_map(NetFault::Short),
                    1 => Just(NetFault::Close),
                    1 => Just(NetFault::NotHttp),
                    1 => any::<u16>().prop_map(NetFault::Stall),
                ],
                any::<bool>()
            )
                .prop_map(|(at, fault, stale)| Twist::Fault { at, fault, stale }),
        ]
        .boxed(),
    }
}

fn case(want: &'static str) -> BoxedStrategy<NetCase> {
    let w = W { fault: if want == "C17" { 10 } else { 0 }, midtick: 0, publish: 12, max_steps: 10, ..BASE };
    let files = if want == "C17" { 4 } else { 0 };
    (hist(w), via(files), any::<bool>(), prop_oneof![3 => Just(false), 1 => Just(true)], if want == "C18" { any::<bool>().boxed() } else { prop_oneof![4 => Just(false), 1 => Just(true)].boxed() }, prop::collection::vec(twist(want), 6..10))
        .prop_map(|(mut hist, via, etag, chunked, insecure, twists)| {
            hist.cfg.delay = 0;
            hist.cfg.exdev = false;
            NetCase { hist, via, etag, chunked, insecure, twists }
        })
        .boxed()
}

fn net(want: &'static str, cx: &Ctx, rep: &Report, cases: usize) {
    explore(cx, rep, "net", cx.cases(cases), || case(want), &move |c: &NetCase, t: usize, n: &mut Note| play_net(want, c, t, n));
}

pub fn c09_net(cx: &Ctx, rep: &Report, cases: usize) {
    rep.rule("net: histories over HTTPS in which requests the run needs are answered by error statuses, short bodies, closed connections or non-HTTP, also with another rendering of the file left in the staging area by a failed run; non-trivial: such an answer was met");
    net("C09", cx, rep, cases);
}

pub fn c09_replay(v: serde_json::Value, n: &mut Note) -> Result<(), String> {
    play_net("C09", &serde_json::from_value(v).unwrap(), 99, n)
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            level: "exploration",
            assumptions: ASSUME,
            run: |cx, rep| {
                rep.rule("net: random histories against directory, mapped HTTPS and unmapped HTTPS sources, with files pre-staged with right or other content and 10% interrupted runs; every file opened and every request made is compared with the exact set needed; non-trivial: an undisturbed run was judged");
                net("C17", cx, rep, 4000);
            },
            replay: |_k, v, n| play_net("C17", &serde_json::from_value(v).unwrap(), 99, n),
        },
        Check {
            id: "C18",
            level: "exploration",
            assumptions: ASSUME,
            run: |cx, rep| {
                rep.rule("net: random histories against HTTPS sources (mapped or not, with or without --insecure) whose n-th connection presents a self-signed, untrusted, expired, not yet valid or misnamed certificate, or that deliver altered files; non-trivial: such a certificate or file was met");
                net("C18", cx, rep, 3000);
            },
            replay: |_k, v, n| play_net("C18", &serde_json::from_value(v).unwrap(), 99, n),
        },
    ]
}
