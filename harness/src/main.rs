mod checks;
use ksharness::explore::*;
use ksharness::proc;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let threads = std::env::var("KS_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a[2].clone();
            let c = match checks::find(&id) {
                Some(c) => c,
                None => proc::harness_error(&format!("no check {id}")),
            };
            proc::init_env();
            let cx = Ctx { prop: c.id, tier, seed, threads, start: Instant::now() };
            let rep = Report::new();
            (c.run)(&cx, &rep);
            let rc = finish(&cx, &rep, c.level, c.assumptions);
            proc::clean_env();
            std::process::exit(rc);
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).expect("replay file");
            let r: Replay = serde_json::from_str(&txt).expect("replay json");
            let c = match checks::find(&r.property) {
                Some(c) => c,
                None => proc::harness_error("no such check"),
            };
            proc::init_env();
            let mut note = Note::default();
            let res = (c.replay)(&r.kind, r.case, &mut note);
            println!("{res:?} {note:?}");
            if std::env::var("KS_KEEP").is_err() {
                proc::clean_env();
            }
            std::process::exit(if res.is_err() { 1 } else { 0 });
        }
        Some("pki") => {
            // Generated objects for demonstrations: {"notify": [URI], "trees": [Tree]}.
            use ksharness::{hist::T0, model::b64, pki};
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("file")).expect("json");
            let notify: Vec<String> = serde_json::from_value(v["notify"].clone()).expect("notify");
            let trees: Vec<pki::Tree> = serde_json::from_value(v["trees"].clone()).expect("trees");
            let out: Vec<_> = trees
                .iter()
                .map(|t| {
                    let b = pki::build(t, &pki::Hosts { notify: &notify }, T0);
                    let tas: Vec<_> = b.tas.iter().map(|a| serde_json::json!({"uri": a.uri, "cert": a.cert.as_ref().map(|c| b64(c)), "tal": a.tal})).collect();
                    let repos: Vec<std::collections::BTreeMap<String, String>> = b.repos.iter().map(|r| r.iter().map(|(u, b)| (u.clone(), b64(b))).collect()).collect();
                    serde_json::json!({"tas": tas, "repos": repos})
                })
                .collect();
            println!("{}", serde_json::json!({"now": T0, "trees": out}));
        }
        _ => {
            eprintln!("usage: ks check ID | replay FILE");
            std::process::exit(2);
        }
    }
}
