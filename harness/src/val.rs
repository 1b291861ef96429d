//! Runs with trust anchors: a tree of CAs over several repositories, the
//! first of which krill-sync republishes.
use crate::explore::Note;
use crate::fsx;
use crate::hist::*;
use crate::model::*;
use crate::pki::*;
use crate::tls::{self, Resp, Tls};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub fn foreign_notify(i: usize) -> String {
    format!("https://f{i}.example/rrdp/notification.xml")
}

pub fn tal_file(k: usize) -> String {
    if k == 0 {
        "ta.tal".into()
    } else {
        format!("ta{k}.tal")
    }
}

pub struct World<'a> {
    pub e: Engine,
    pub tls: &'a Tls,
    pub own: usize,
    pub notify: Vec<String>,
    /// Sources of the other repositories; that of our own is unused.
    pub repos: Vec<Source>,
    pub built: Built,
    /// In which TAL file the TAL for each trust anchor is.
    pub shift: usize,
}

impl<'a> World<'a> {
    /// Nothing is offered before the first publish().
    pub fn new(want: &'static str, cfg: &Cfg, tree: &Tree, nrepos: usize, own: usize, t: usize, tls: &'a Tls) -> World<'a> {
        let root = case_dir(t);
        let base = BASES[(cfg.notif / 3) as usize % BASES.len()];
        let name = NAMES[cfg.notif as usize % NAMES.len()];
        let notify: Vec<String> = (0..nrepos).map(|i| if i == own { format!("{base}{name}") } else { foreign_notify(i) }).collect();
        let built = build(tree, &Hosts { notify: &notify }, T0);
        let src = Source::new(base, name, cfg.style, 1 + cfg.max_deltas.unwrap_or(0) as u64, built.repos[own].clone());
        let repos = (0..nrepos).map(|i| Source::new(&format!("https://f{i}.example/rrdp/"), "notification.xml", i as u8 + 10 * ((cfg.style / 10 + i as u8) % 4), 1, built.repos[i].clone())).collect();
        let mut e = Engine::with_source(want, cfg.clone(), src, root);
        e.tls_port = Some(tls.port);
        e.env.push(("SSL_CERT_FILE".into(), tls.ca_file.display().to_string()));
        e.env.push(("SSL_CERT_DIR".into(), "/nonexistent".into()));
        tls.reset();
        for (k, a) in built.tas.iter().enumerate() {
            fsx::write(&e.root.join(format!("w/{}", tal_file(k))), a.tal.as_bytes());
        }
        World { e, tls, own, notify, repos, built, shift: 0 }
    }

    pub fn tal_args(&mut self, tal: bool, reject: bool, offline: bool) {
        let mut a: Vec<std::ffi::OsString> = vec!["-v".into()];
        if tal {
            let n = self.built.tas.len();
            let mut files: Vec<usize> = (0..n).filter(|k| self.built.uses(*k)).map(|k| (k + self.shift) % n).collect();
            files.sort();
            for k in files {
                a.push("--tal".into());
                a.push(tal_file(k).into());
            }
        }
        if reject {
            a.push("--tal-reject-invalid".into());
        }
        if offline {
            a.push("--offline-validation".into());
        }
        self.e.extra_args = a;
    }

    /// The TA certificates at their places.
    pub fn offer_tas(&self) {
        for a in &self.built.tas {
            self.offer_ta(&a.uri, a.cert.as_ref());
        }
    }

    pub fn offer_ta(&self, uri: &str, cert: Option<&Vec<u8>>) {
        self.tls.with(|s| match cert {
            Some(b) => s.routes.insert(uri.into(), Resp::Data { bytes: b.clone(), etag: None }),
            None => s.routes.remove(uri),
        });
    }

    /// A foreign repository as it is now.
    pub fn offer(&self, i: usize, etag: bool) {
        if i == self.own {
            return;
        }
        let r = &self.repos[i];
        let n = r.notification();
        let tag = etag.then(|| format!("\"{}\"", &fsx::hex(&fsx::sha(&n))[..16]));
        self.tls.with(|s| {
            s.routes.retain(|u, _| !u.starts_with(&r.base));
            for (f, b) in r.files(false) {
                s.routes.insert(format!("{}{f}", r.base), Resp::Data { bytes: b, etag: None });
            }
            s.routes.insert(r.notification_uri(), Resp::Data { bytes: n, etag: tag });
        });
    }

    pub fn withhold(&self, i: usize) {
        let b = self.repos[i].base.clone();
        self.tls.with(|s| s.routes.retain(|u, _| !u.starts_with(&b)));
    }

    pub fn own_source(&self) {
        self.e.src.write(&self.e.src_dir(), self.e.cfg.purge);
    }
}

/// What a run said about its own repository.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Said {
    /// issues, certs, roas, vrps, aspas, router certs
    pub counts: Option<[usize; 6]>,
    pub issues: Vec<String>,
    pub lines: Vec<String>,
}

pub fn said(stdout: &str, uri: &str) -> Said {
    let mut s = Said::default();
    let labels = ["issues", "certs", "roas", "vrps", "aspas", "router certs"];
    let head = format!("{uri}: ");
    for l in stdout.lines() {
        s.lines.push(l.into());
        if let Some(p) = l.find(&head) {
            let parts: Vec<&str> = l[p + head.len()..].split(", ").collect();
            if parts.len() == 6 {
                let mut c = [0; 6];
                let mut good = true;
                for (i, p) in parts.iter().enumerate() {
                    match p.trim().split_once(' ') {
                        Some((n, w)) if w == labels[i] && n.parse::<usize>().is_ok() => c[i] = n.parse().unwrap(),
                        _ => good = false,
                    }
                }
                if good {
                    s.counts = Some(c);
                    continue;
                }
            }
        }
        // "<date> <time> LEVEL[:] [target]    <uri> : <message>"
        if let Some(p) = l.find("rsync://") {
            if l.contains("ERROR") || l.contains("WARN") {
                if let Some((u, _)) = l[p..].split_once(" : ") {
                    s.issues.push(u.to_string());
                }
            }
        }
    }
    s
}

/// Compares issues and counts of one repository with what has to be there.
pub fn judge(r: &RepoExp, counts: [usize; 6], issues: &[String]) -> Result<(), String> {
    let got: BTreeSet<&str> = issues.iter().map(|s| s.as_str()).collect();
    for alt in &r.issues {
        if !alt.iter().any(|u| got.contains(u.as_str())) {
            return Err(format!("no issue is reported for {}", alt.iter().next_back().unwrap()));
        }
    }
    let all: BTreeSet<&str> = r.issues.iter().flatten().chain(r.maybe.iter()).map(|s| s.as_str()).collect();
    for u in &got {
        if !all.contains(u) {
            return Err(format!("an issue is reported for {u}, which is in order"));
        }
    }
    if counts[0] != issues.len() {
        return Err(format!("{} issues are listed, but {} were counted", issues.len(), counts[0]));
    }
    let (c, max) = (r.certs.len(), r.certs.len() + r.maybe.len());
    if counts[1] < c || counts[1] > max {
        return Err(format!("{} CA certificates are accepted instead of {c}", counts[1]));
    }
    for (n, want, what) in [(2, r.roas.len(), "ROAs"), (3, r.vrps(), "VRPs"), (4, r.aspas.len(), "ASPAs"), (5, r.routers.len(), "router certificates")] {
        if counts[n] != want {
            return Err(format!("{} {what} are accepted instead of {want}", counts[n]));
        }
    }
    Ok(())
}

pub fn judge_said(r: Option<&RepoExp>, s: &Said) -> Result<(), String> {
    match (r, s.counts) {
        (Some(r), Some(c)) => judge(r, c, &s.issues),
        (None, None) => Ok(()),
        (Some(_), None) => Err("the source repository is reached, but nothing is reported about it".into()),
        (None, Some(_)) => Err("the source repository is not reached, but there is a report about it".into()),
    }
}

pub fn show_lines(s: &Said) -> String {
    let mut v: Vec<&str> = s.lines.iter().map(|l| l.as_str()).filter(|l| !l.contains("Writing file") && !l.contains("Retrieving")).collect();
    v.truncate(12);
    v.join(" | ")
}

//------------ C15 -----------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreeCase {
    pub cfg: Cfg,
    pub tree: Tree,
    pub nrepos: u8,
    pub own: u8,
    /// Foreign repositories that cannot be had.
    pub absent: u8,
    pub reject: bool,
}

impl TreeCase {
    fn dims(&self) -> (usize, usize) {
        let n = self.nrepos.clamp(1, 4) as usize;
        (n, self.own as usize % n)
    }
}

fn readings(b: &Built, when: i64, absent: &[usize]) -> Vec<Expect> {
    let mut v = vec![b.expect(when, true, absent)];
    if b.has_odd() {
        v.push(b.expect(when, false, absent));
    }
    v
}

pub fn play_tree(c: &TreeCase, t: usize, note: &mut Note) -> Result<(), String> {
    tls::server(|tls| {
        let (n, own) = c.dims();
        let mut w = World::new("C15", &c.cfg, &c.tree, n, own, t, tls);
        let absent: Vec<usize> = (0..n).filter(|i| *i != own && c.absent & (1 << i) != 0).collect();
        w.offer_tas();
        for i in 0..n {
            if !absent.contains(&i) {
                w.offer(i, false);
            }
        }
        w.own_source();
        let offline = n == 1 && c.tree.tal_style & 0x80 != 0;
        if offline {
            note.class("offline");
        }
        w.tal_args(true, c.reject, offline);
        let info = w.e.exec(None, None, &mut Engine::none)?;
        let what = |m: String| -> String { format!("{m} [{}]", c.tree_show()) };
        if info.out.crashed() {
            return Err(what(format!("validation crashed: {}", info.out.show())));
        }
        let s = said(&info.out.stdout, &w.notify[own]);
        let exps = readings(&w.built, T0, &absent);
        let mut last = String::new();
        let mut fine = false;
        for e in &exps {
            match judge_said(e.as_ref().and_then(|m| m.get(&own)), &s) {
                Ok(()) => fine = true,
                Err(m) => last = m,
            }
        }
        if !fine {
            return Err(what(format!("{last}; output: {}", show_lines(&s))));
        }
        play_inproc(c, &mut w, &absent, &exps).map_err(what)?;
        if let Some(Some(r)) = exps.first().map(|e| e.as_ref().and_then(|m| m.get(&own))) {
            note_exp(r, &w.built, &c.tree, note);
        } else {
            note.class("not-reached");
        }
        Ok(())
    })
}

impl TreeCase {
    fn tree_show(&self) -> String {
        let mut v = vec![];
        if let Some(f) = self.tree.ta {
            v.push(format!("TA: {f:?}"));
        }
        for (i, c) in self.tree.cas.iter().enumerate() {
            if let Some(f) = c.fault.filter(|_| i > 0) {
                v.push(format!("certificate of CA {i}: {f:?}"));
            }
            if let Some(f) = c.pp {
                v.push(format!("CA {i}: {f:?}"));
            }
            if c.cycle.is_some() {
                v.push(format!("CA {i} certifies an ancestor"));
            }
            for (k, o) in c.objs.iter().enumerate() {
                if let Some(f) = o.fault {
                    v.push(format!("CA {i} object {k} (kind {}): {f:?}", o.kind % 6));
                }
            }
        }
        format!("{} CAs; faults: {}", self.tree.cas.len(), v.join(", "))
    }
}

fn variant(d: String) -> String {
    d.split(['(', ' ']).next().unwrap().to_string()
}

fn note_exp(r: &RepoExp, b: &Built, t: &Tree, note: &mut Note) {
    let valid = r.certs.len() + r.roas.len() + r.aspas.len() + r.routers.len();
    if valid > 0 && !r.issues.is_empty() {
        note.nontrivial("valid-beside-faulty");
    } else if valid > 0 {
        note.nontrivial("valid-only");
    } else {
        note.class("nothing-valid");
    }
    if b.n_faults() == 0 {
        note.class("no-fault");
    }
    for c in &t.cas {
        if let Some(f) = c.pp {
            note.class(format!("point:{}", variant(format!("{f:?}"))));
        }
        if let Some(f) = c.fault {
            note.class(format!("ca:{}", variant(format!("{f:?}"))));
        }
        for o in &c.objs {
            if let Some(f) = o.fault {
                note.class(format!("object:{}", variant(format!("{f:?}"))));
            }
        }
        if c.cycle.is_some() {
            note.class("cycle");
        }
    }
}

/// The validator as a library: its report has the content of the objects.
fn play_inproc(c: &TreeCase, w: &mut World, absent: &[usize], exps: &[Expect]) -> Result<(), String> {
    let bin = match &crate::proc::env().inproc {
        Some(b) => b.clone(),
        None => return Ok(()),
    };
    let wd = w.e.root.join("w");
    let mut repos = vec![];
    for (i, n) in w.notify.iter().enumerate() {
        let d = wd.join(format!("repo{i}"));
        if !absent.contains(&i) {
            let mut s = Source::new(&n[..n.rfind('/').unwrap() + 1], &n[n.rfind('/').unwrap() + 1..], i as u8, 7, Objects::new());
            s.publish(w.built.repos[i].clone());
            s.write(&d, false);
        }
        repos.push(serde_json::json!([n, d.to_str().unwrap()]));
    }
    let mut tas = vec![];
    for (k, a) in w.built.tas.iter().enumerate() {
        let ta = wd.join(format!("ta{k}.cer"));
        if let Some(b) = &a.cert {
            fsx::write(&ta, b);
        }
        tas.push(serde_json::json!([a.tal, ta.to_str().unwrap()]));
    }
    let j = serde_json::json!({"tals": tas, "repos": repos, "when": T0});
    fsx::write(&wd.join("in.json"), j.to_string().as_bytes());
    let spec = crate::proc::Spec { args: vec!["in.json".into()], cwd: &wd, root: &w.e.root, now: T0, reads: false, tls_port: Some(w.tls.port), env: vec![], bin: Some(&bin) };
    let out = crate::proc::run(&spec, &mut |_, _| (crate::proc::Act::Go, 0));
    if out.crashed() {
        return Err(format!("validation (as a library) crashed: {}", out.show()));
    }
    let _ = c;
    let mut last = String::new();
    for e in exps {
        let r = match (e, out.ok()) {
            (None, false) => Ok(()),
            (None, true) => Err("the trust anchor is no good, but validation (as a library) succeeded".into()),
            (Some(_), false) => Err(format!("validation (as a library) failed: {}", out.show())),
            (Some(m), true) => {
                let v: serde_json::Value = serde_json::from_str(&out.stdout).map_err(|e| format!("unreadable report: {e}"))?;
                judge_report(m, &w.notify, &v)
            }
        };
        match r {
            Ok(()) => return Ok(()),
            Err(m) => last = m,
        }
    }
    Err(last)
}

fn number(v: &serde_json::Value) -> Option<u32> {
    v.as_u64().map(|n| n as u32).or_else(|| v.as_str().and_then(|s| s.trim_start_matches("AS").parse().ok()))
}

fn judge_report(exp: &std::collections::BTreeMap<usize, RepoExp>, notify: &[String], v: &serde_json::Value) -> Result<(), String> {
    let reps = v["rrdp_repositories"].as_object().ok_or("report without repositories")?;
    for (i, r) in exp {
        let rep = reps.get(&notify[*i]).ok_or_else(|| format!("there is no report for {}", notify[*i]))?;
        let n = |k: &str| rep[k].as_u64().unwrap_or(u64::MAX) as usize;
        let issues: Vec<String> = rep["issues"].as_array().map(|a| a.iter().map(|i| i["uri"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let msgs: Vec<&str> = rep["issues"].as_array().map(|a| a.iter().map(|i| i["msg"].as_str().unwrap_or("")).collect()).unwrap_or_default();
        judge(r, [issues.len(), n("nr_ca_certs"), n("nr_roas"), n("nr_vrps"), n("nr_aspas"), n("nr_router_certs")], &issues).map_err(|m| format!("{}: {m}; issues: {}", notify[*i], msgs.join(" | ")))?;
    }
    for u in reps.keys() {
        if !notify.iter().enumerate().any(|(i, n)| n == u && exp.contains_key(&i)) {
            return Err(format!("there is a report for {u}, which no valid certificate leads to"));
        }
    }
    let (mut certs, mut routers, mut roas, mut aspas) = (vec![], vec![], vec![], vec![]);
    let arr = |v: &serde_json::Value| v.as_array().cloned().unwrap_or_default();
    let uri = |v: &serde_json::Value| v["uri"].as_str().unwrap_or("").to_string();
    for c in arr(&v["certs"]) {
        certs.extend(arr(&c["children"]).iter().map(uri));
        routers.extend(arr(&c["router_certs"]).iter().map(uri));
        for r in arr(&c["roas"]) {
            let mut vrps: Vec<Vrp> = vec![];
            for p in arr(&r["vrps"]) {
                vrps.push((number(&p["asn"]).unwrap_or(0), p["prefix"].as_str().unwrap_or("").into(), p["max_length"].as_u64().map(|n| n as u8)));
            }
            vrps.sort();
            roas.push((uri(&r), vrps));
        }
        for a in arr(&c["aspas"]) {
            let p: Vec<u32> = arr(&a["providers"]).iter().filter_map(number).collect();
            aspas.push((uri(&a), number(&a["customer"]).unwrap_or(0), p));
        }
    }
    certs.sort();
    routers.sort();
    roas.sort();
    aspas.sort();
    let want: Vec<String> = exp.values().flat_map(|r| r.routers.iter().cloned()).collect();
    same("router certificates", &routers, want)?;
    let want: Vec<_> = exp.values().flat_map(|r| r.roas.iter().map(|(u, v)| (u.clone(), v.iter().cloned().collect::<Vec<_>>()))).collect();
    same("ROAs", &roas, want)?;
    let want: Vec<_> = exp.values().flat_map(|r| r.aspas.iter().map(|(u, v)| (u.clone(), v.0, v.1.clone()))).collect();
    same("ASPAs", &aspas, want)?;
    let maybe: BTreeSet<String> = exp.values().flat_map(|r| r.maybe.iter().cloned()).collect();
    certs.retain(|c| !maybe.contains(c));
    same("CA certificates", &certs, exp.values().flat_map(|r| r.certs.iter().cloned()).collect())
}

fn same<T: Ord + std::fmt::Debug>(what: &str, got: &[T], mut want: Vec<T>) -> Result<(), String> {
    want.sort();
    if got == want {
        return Ok(());
    }
    let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
    Err(format!("the {what} accepted are not those which are valid: {:?} instead of {:?}", got.get(i), want.get(i)))
}

//------------ C14 -----------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    Pp(u8, Option<PpF>),
    Cer(u8, Option<CerF>),
    Obj(u8, u8, Option<ObjF>),
    Add(u8, u8, u8, u8),
    Del(u8, u8),
    /// No fault anywhere.
    Mend,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum VStep {
    Change(Vec<Mut>),
    Session,
    Tick(u32),
    Ta(Option<TaF>),
    /// The TALs move to other files; one of them may be for another key.
    Tals(u8, Option<u8>),
    Run {
        tal: bool,
        reject: bool,
        /// Which trust anchors, 0 for all.
        #[serde(default)]
        tals: u8,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GateCase {
    pub cfg: Cfg,
    pub tree: Tree,
    pub nrepos: u8,
    pub own: u8,
    pub steps: Vec<VStep>,
}

/// Changes at CAs whose objects are in the given repository only.
pub fn mutate(t: &Tree, muts: &[Mut], ok: impl Fn(&Tree, &Tree) -> bool) -> Tree {
    let mut cur = t.clone();
    for m in muts {
        let mut n = cur.clone();
        let len = n.cas.len();
        match m {
            Mut::Pp(c, f) => n.cas[*c as usize % len].pp = *f,
            Mut::Cer(c, f) => n.cas[*c as usize % len].fault = *f,
            Mut::Obj(c, o, f) => {
                let ca = &mut n.cas[*c as usize % len];
                let k = ca.objs.len();
                if k > 0 {
                    ca.objs[*o as usize % k].fault = *f;
                }
            }
            Mut::Add(c, kind, unit, x) => n.cas[*c as usize % len].objs.push(Obj { kind: *kind, unit: *unit, n: *x, fault: None }),
            Mut::Del(c, o) => {
                let ca = &mut n.cas[*c as usize % len];
                let k = ca.objs.len();
                if k > 0 {
                    ca.objs.remove(*o as usize % k);
                }
            }
            Mut::Mend => {
                for c in &mut n.cas {
                    let mut d = c.clone();
                    d.pp = None;
                    d.fault = None;
                    d.objs.iter_mut().for_each(|o| o.fault = None);
                    *c = d;
                }
            }
        }
        if ok(&cur, &n) {
            cur = n;
        }
    }
    cur
}

fn untils(t: &Tree) -> Vec<i64> {
    let mut v = vec![];
    for c in &t.cas {
        if let Some(CerF::Until(s)) = c.fault {
            v.push(s as i64);
        }
        if let Some(PpF::MftUntil(s)) = c.pp {
            v.push(s as i64);
        }
        for o in &c.objs {
            if let Some(ObjF::Until(s)) = o.fault {
                v.push(s as i64);
            }
        }
    }
    v
}

/// Not too close to a moment when something expires.
pub fn settle(now: &mut i64, t: &Tree) {
    let u = untils(t);
    while u.iter().any(|s| (T0 + s - *now).abs() < 20) {
        *now += 25;
    }
}

pub fn settle_built(now: &mut i64, b: &Built) {
    settle(now, &b.tree)
}

pub fn play_gate(c: &GateCase, t: usize, note: &mut Note) -> Result<(), String> {
    tls::server(|tls| {
        let n = c.nrepos.clamp(1, 4) as usize;
        let own = c.own as usize % n;
        let mut tree = c.tree.clone();
        tree.cas.iter_mut().for_each(|c| c.cycle = None);
        let mut ta = tree.ta.take();
        let mut w = World::new("C14", &c.cfg, &tree, n, own, t, tls);
        let hosts: Vec<String> = w.notify.clone();
        let others = w.built.repos.clone();
        for i in 0..n {
            w.offer(i, false);
        }
        let mut hist: Vec<String> = vec![];
        let mut rejected = 0;
        let mut wrong: Option<usize> = None;
        for s in &c.steps {
            match s {
                VStep::Change(m) => {
                    tree = mutate(&tree, m, |_, new| {
                        let b = build(new, &Hosts { notify: &hosts }, T0);
                        (0..n).all(|i| i == own || b.repos[i] == others[i])
                    });
                    w.built = build(&tree, &Hosts { notify: &hosts }, T0);
                    w.e.src.publish(w.built.repos[own].clone());
                    hist.push("change".into());
                }
                VStep::Session => {
                    let o = w.built.repos[own].clone();
                    w.e.src.new_session(1, o);
                    hist.push("session".into());
                }
                VStep::Tick(s) => {
                    w.e.now += *s as i64;
                    hist.push(format!("+{s}s"));
                }
                VStep::Ta(f) => {
                    ta = *f;
                    hist.push(format!("trust anchor {f:?}"));
                }
                VStep::Tals(s, o) => {
                    let n = w.built.tas.len();
                    w.shift = *s as usize % n;
                    wrong = o.map(|o| o as usize % n);
                    hist.push(format!("TALs moved by {}, {wrong:?} is for another key", w.shift));
                    note.class("tal-files");
                }
                VStep::Run { tal, reject, tals } => {
                    settle(&mut w.e.now, &tree);
                    let mut whole = tree.clone();
                    whole.ta = ta;
                    w.built = build(&whole, &Hosts { notify: &hosts }, T0);
                    if tals & ((1 << w.built.tas.len()) - 1) != 0 {
                        w.built.used = *tals;
                    }
                    let used = (0..w.built.tas.len()).filter(|k| w.built.uses(*k)).count();
                    w.offer_tas();
                    for (k, a) in w.built.tas.iter().enumerate() {
                        let f = tal_file((k + w.shift) % w.built.tas.len());
                        fsx::write(&w.e.root.join(format!("w/{f}")), if wrong == Some(k) { a.other_tal.as_bytes() } else { a.tal.as_bytes() });
                    }
                    let wrong_used = wrong.is_some_and(|k| w.built.uses(k));
                    w.own_source();
                    w.tal_args(*tal, *reject, n == 1 && *tals & 0x80 != 0);
                    let cur = w.e.source_current();
                    let update = w.e.synced.as_ref() != Some(&cur);
                    let when = w.e.now;
                    let before = w.e.capture();
                    let info = w.e.exec(None, None, &mut Engine::none)?;
                    let what = format!("run after {} (tal: {tal}, {used} of {} trust anchors, reject: {reject}), serial {} of session {}, ", hist.join(", "), w.built.tas.len(), cur.1, &cur.0[..8]);
                    hist.push(format!("run tal:{tal} reject:{reject}"));
                    if info.out.crashed() {
                        return Err(format!("{what}crashed: {}", info.out.show()));
                    }
                    if !update {
                        if !info.out.ok() {
                            return Err(format!("{what}nothing to do, but it failed: {}", info.out.show()));
                        }
                        continue;
                    }
                    let said = said(&info.out.stdout, &w.notify[own]);
                    let mut verdict = None;
                    if *tal {
                        note.class(format!("anchors:{used}/{}", w.built.tas.len()));
                        let exps = if wrong_used { vec![None] } else { readings(&w.built, when, &[]) };
                        let bad = |e: &Expect| e.as_ref().and_then(|m| m.get(&own)).map(|r| !r.issues.is_empty()).unwrap_or(true);
                        let b = bad(&exps[0]);
                        verdict = Some(b);
                        let mut last = Ok(());
                        for e in &exps {
                            last = match e {
                                Some(m) => judge_said(m.get(&own), &said),
                                None => judge_said(None, &said),
                            };
                            if last.is_ok() {
                                break;
                            }
                        }
                        if let Err(m) = last {
                            return Err(format!("{what}{m}; output: {} [{}]", show_lines(&said), TreeCase { cfg: c.cfg.clone(), tree: whole.clone(), nrepos: 0, own: 0, absent: 0, reject: false }.tree_show()));
                        }
                    }
                    match (verdict, reject) {
                        (Some(true), true) => {
                            rejected += 1;
                            note.nontrivial("rejected");
                            if info.out.ok() || info.published() {
                                return Err(format!("{what}the update is invalid, but it was {}", if info.published() { "published" } else { "not refused" }));
                            }
                            w.e.check_inert(&before, true).map_err(|m| format!("{what}the update was refused, but {m}"))?;
                        }
                        (v, _) => {
                            if !info.out.ok() {
                                return Err(format!("{what}the update {}, but the run failed: {}; output: {}", match v {
                                    Some(true) => "is invalid but that is not to be rejected",
                                    Some(false) => "is valid",
                                    None => "is not to be validated",
                                }, info.out.show(), show_lines(&said)));
                            }
                            w.e.check_faithful(&info).map_err(|m| format!("{what}{m}"))?;
                            w.e.synced = Some(cur);
                            match v {
                                Some(true) => note.nontrivial("invalid-but-published"),
                                Some(false) => note.nontrivial(if rejected > 0 { "valid-after-rejected" } else { "valid" }),
                                None => note.class("no-tal"),
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    })
}
