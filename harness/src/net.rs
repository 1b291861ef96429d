//! Histories over the network: sources behind TLS, with or without mapping.
use crate::explore::Note;
use crate::fsx::{self, sha};
use crate::hist::*;
use crate::model::*;
use crate::proc::{Act, Ev};
use crate::tls::{self, Cert, Resp, Tls};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
    File,
    /// Relative path of the source directory, with or without final slash.
    RelFile(bool),
    Mapped(u8),
    Direct,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NetFault {
    Status(u16),
    Short(u16),
    Close,
    NotHttp,
    Down,
    /// The server goes silent after that much of its answer.
    Stall(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Twist {
    Plain,
    /// A bad certificate at the n-th connection (and, or, from then on).
    BadCert { at: u8, kind: Cert, rest: bool },
    /// A fault for the n-th file needed. `stale`: another rendering of that
    /// file was staged by an earlier failed run.
    Fault { at: u8, fault: NetFault, stale: bool },
    /// The n-th file needed is delivered with other content.
    Altered(u8),
    /// Something with or without the right hash is already staged for the
    /// n-th file needed.
    Staged { at: u8, right: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetCase {
    pub hist: Hist,
    pub via: Via,
    pub etag: bool,
    pub chunked: bool,
    pub insecure: bool,
    pub twists: Vec<Twist>,
}

const MAPPED: &[&str] = &["https://mirror.example/", "https://mirror.example/a/b~;x=1/", "https://mirror.example:3000/rrdp/", "https://127.0.0.9/", "https://127.0.0.9:3000/m/"];

struct Net<'a> {
    e: Engine,
    tls: &'a Tls,
    via: Via,
    base: Option<String>, // where requests go; None for files
    etag: bool,
    chunked: bool,
}

impl Net<'_> {
    fn put(&self, rel: &str, bytes: Vec<u8>) {
        match &self.base {
            None => fsx::write(&self.e.src_dir().join(rel), &bytes),
            Some(b) => {
                let etag = if self.etag { Some(format!("\"{}\"", &fsx::hex(&sha(&bytes))[..12])) } else { None };
                let r = if self.chunked && etag.is_none() { Resp::Chunked(bytes) } else { Resp::Data { bytes, etag } };
                self.route(b, rel, r)
            }
        }
    }
    fn route(&self, base: &str, rel: &str, r: Resp) {
        self.tls.with(|s| s.routes.insert(format!("{base}{rel}"), r));
    }
    fn publish(&self) {
        match &self.base {
            None => self.e.src.write(&self.e.src_dir(), self.e.cfg.purge),
            Some(_) => {
                self.tls.with(|s| {
                    s.routes.clear();
                    s.plan.clear();
                });
                for (r, b) in self.e.src.files(self.e.cfg.purge) {
                    self.put(&r, b);
                }
                self.put(&self.e.src.notif.clone(), self.e.src.notification());
            }
        }
    }

    /// Relative names of what a run has to fetch, in no particular order
    /// except that the notification is first.
    fn needed(&self) -> Vec<String> {
        let (id, serial) = self.e.source_current();
        let mut v = vec![self.e.src.notif.clone()];
        if self.e.synced.as_ref() != Some(&(id, serial)) {
            v.push(self.e.src.ver().snap.rel.clone());
            let n = self.e.needed_deltas();
            for (s, f) in self.e.src.deltas() {
                if n.contains(&s) {
                    v.push(f.rel.clone());
                }
            }
        }
        v
    }

    fn hash_of(&self, rel: &str) -> Option<[u8; 32]> {
        if self.e.src.ver().snap.rel == rel {
            return Some(self.e.src.ver().snap.hash);
        }
        self.e.src.deltas().iter().find(|d| d.1.rel == rel).map(|d| d.1.hash)
    }

    fn staged(&self, rel: &str) -> bool {
        match std::fs::read(self.e.state_dir().join("pre-validate-staging").join(rel)) {
            Ok(b) => Some(sha(&b)) == self.hash_of(rel),
            Err(_) => false,
        }
    }

    /// Runs; returns what was requested, relative to the source base, and
    /// anything contacted besides.
    fn run(&mut self, fault: Option<&Fault>) -> Result<(RunInfo, BTreeMap<String, usize>, Vec<String>), String> {
        self.tls.take_log();
        let mut other = vec![];
        let host = self.base.as_ref().map(|b| b[8..].split(['/', ':']).next().unwrap().to_string());
        let ip = host.clone().filter(|h| tls::is_ip(h));
        let port = self.base.as_ref().map(|b| b[8..].split('/').next().unwrap().split_once(':').map(|x| x.1).unwrap_or("443").to_string());
        self.tls.with(|s| s.address = ip.clone());
        let src = format!("{}/", self.e.src_dir().display());
        let rootp = format!("{}/", self.e.root.display());
        let w = format!("{}/w/", self.e.root.display());
        let mut files: BTreeMap<String, usize> = BTreeMap::new();
        let mut gate = |ev: &Ev, _now: i64| -> Option<(Act, i64)> {
            match ev.op {
                b'G' => {
                    if Some(&ev.a) != host.as_ref() {
                        other.push(format!("host {}", ev.a));
                    }
                    None
                }
                b'N' => {
                    if host.is_none() || ip.as_ref().is_some_and(|i| *i != ev.a) || port.as_ref() != Some(&ev.b) {
                        other.push(format!("address {} {}", ev.a, ev.b));
                    }
                    None
                }
                b'r' => {
                    if let Some(r) = ev.a.strip_prefix(&src) {
                        *files.entry(r.to_string()).or_default() += 1;
                    } else if ev.a.starts_with(&rootp) && !ev.a.starts_with(&w) {
                        other.push(format!("file {}", ev.a));
                    }
                    None
                }
                _ => None,
            }
        };
        self.e.reads_on = true;
        let info = self.e.exec(fault, None, &mut gate)?;
        let mut got = files;
        if let Some(b) = &self.base {
            for (f, _) in got.iter() {
                other.push(format!("file {f}"));
            }
            got.clear();
            for r in self.tls.take_log() {
                match r.url.strip_prefix(b.as_str()) {
                    Some(rel) => *got.entry(rel.to_string()).or_default() += 1,
                    None => other.push(r.url),
                }
            }
        }
        Ok((info, got, other))
    }
}

/// Which property the caller is after: C09, C17 or C18.
pub fn play_net(want: &'static str, c: &NetCase, t: usize, note: &mut Note) -> Result<(), String> {
    tls::server(|tls| {
        let mut e = Engine::new(want, &c.hist, t);
        let base = match &c.via {
            Via::File => None,
            Via::RelFile(_) => None,
            Via::Mapped(n) => Some(MAPPED[*n as usize % MAPPED.len()].to_string()),
            Via::Direct => Some(e.src.base.clone()),
        };
        match &c.via {
            Via::File => {}
            Via::RelFile(sl) => e.source_base = Some(if *sl { "../src/".into() } else { "../src".into() }),
            Via::Mapped(_) => e.source_base = base.clone(),
            Via::Direct => e.mapping = false,
        }
        if base.is_some() {
            e.tls_port = Some(tls.port);
            e.env.push(("SSL_CERT_FILE".into(), tls.ca_file.display().to_string()));
            e.env.push(("SSL_CERT_DIR".into(), "/nonexistent".into()));
        }
        e.insecure = c.insecure;
        let mut n = Net { e, tls, via: c.via.clone(), base, etag: c.etag, chunked: c.chunked };
        let mut twists = c.twists.iter();
        for s in &c.hist.steps {
            match s {
                Step::Run { fault, .. } => one_run(want, &mut n, twists.next().unwrap_or(&Twist::Plain), fault.as_ref(), c, note)?,
                Step::BadRun(_) => {}
                s => n.e.apply(s),
            }
        }
        Ok(())
    })
}

fn expect_ok(n: &mut Net, info: &RunInfo, what: &str) -> Result<(), String> {
    let (id, serial) = n.e.source_current();
    if !info.out.ok() {
        return Err(format!("{what}, but the run failed: {}", info.out.show()));
    }
    if info.published() || n.e.synced.as_ref() != Some(&(id.clone(), serial)) {
        n.e.check_faithful(info).map_err(|e| format!("{what}: {e}"))?;
    }
    n.e.synced = Some((id, serial));
    n.e.dirty = false;
    Ok(())
}

fn one_run(want: &str, n: &mut Net, tw: &Twist, fault: Option<&Fault>, c: &NetCase, note: &mut Note) -> Result<(), String> {
    n.publish();
    let (id, serial) = n.e.source_current();
    if !n.e.dirty && n.e.synced.as_ref().map(|(i, s)| *i == id && *s > serial).unwrap_or(false) {
        return Ok(()); // lower serial: subject of C07
    }
    let dirty = n.e.dirty;
    let need = n.needed();
    let update = need.len() > 1;
    note.class(match &n.via {
        Via::File | Via::RelFile(_) => "via:file",
        Via::Mapped(_) => "via:https-mapped",
        Via::Direct => "via:https-direct",
    });

    // C17: exactly what is needed, once.
    if want == "C17" {
        let mut expect: BTreeMap<String, usize> = BTreeMap::new();
        let base_dir = n.e.state_dir().join("pre-validate-staging");
        if let Twist::Staged { at, right } = tw {
            if update {
                let rel = &need[1 + *at as usize % (need.len() - 1)];
                let h: Vec<u8> = if *right {
                    if n.e.src.ver().snap.rel == *rel { n.e.src.ver().snap.bytes.clone() } else { n.e.src.deltas().iter().find(|d| d.1.rel == *rel).unwrap().1.bytes.clone() }
                } else {
                    b"something else".to_vec()
                };
                let p = base_dir.join(rel);
                fsx::write(&p, &h);
                let mut d = p.as_path();
                while d != n.e.state_dir().parent().unwrap() {
                    own(d);
                    d = d.parent().unwrap();
                }
                note.class(if *right { "staged-right" } else { "staged-other" });
            }
        }
        for (i, r) in need.iter().enumerate() {
            if i == 0 || !n.staged(r) {
                expect.insert(r.clone(), 1);
            }
        }
        let (info, got, other) = n.run(fault)?;
        if let Some(o) = other.first() {
            return Err(format!("the run contacted or read {o}, which is not at the source"));
        }
        let undisturbed = !info.out.killed && !info.fault_hit;
        if undisturbed && !dirty {
            note.nontrivial(if update { "update-run" } else { "no-change-run" });
            if !info.out.ok() {
                return Err(format!("source is in order, but the run failed: {}", info.out.show()));
            }
            if got != expect {
                for (k, v) in &got {
                    let w = expect.get(k).copied().unwrap_or(0);
                    if *v > w {
                        return Err(format!("{k} was requested {v} times instead of {w}"));
                    }
                }
                return Err(format!("requested {:?} instead of {:?}", got.keys().collect::<Vec<_>>(), expect.keys().collect::<Vec<_>>()));
            }
        } else {
            let all: std::collections::BTreeSet<String> =
                std::iter::once(n.e.src.notif.clone()).chain(std::iter::once(n.e.src.ver().snap.rel.clone())).chain(n.e.src.deltas().iter().map(|d| d.1.rel.clone())).collect();
            for (k, v) in &got {
                if *v > 1 {
                    return Err(format!("{k} was requested {v} times"));
                }
                if !all.contains(k) {
                    return Err(format!("{k} was requested, which is not part of the source's current version"));
                }
            }
            note.class("interrupted-or-after");
            if undisturbed && !info.out.ok() {
                return Err(format!("source is in order, but the run failed: {}", info.out.show()));
            }
        }
        if info.out.ok() {
            n.e.synced = Some((id, serial));
            n.e.dirty = false;
        }
        return Ok(());
    }

    let base = n.base.clone();
    match (tw, &base) {
        (Twist::BadCert { at, kind, rest }, Some(b)) if want == "C18" => {
            let host = b[8..].split(['/', ':']).next().unwrap().to_string();
            let staged = need.iter().filter(|r| n.staged(r)).count();
            let conns = need.len() - staged;
            let k = *at as usize % conns;
            let mut plan = vec![Cert::Good; k];
            plan.push(*kind);
            if !*rest {
                plan.push(Cert::Good);
            }
            n.tls.with(|s| s.plan.insert(host, plan));
            let before = n.e.capture();
            let (info, _, _) = n.run(None)?;
            let what = format!("{kind:?} certificate at connection {k} of {conns}{}", if c.insecure { " with --insecure" } else { "" });
            note.nontrivial(format!("{kind:?}{}{}", if c.insecure { "-insecure" } else { "" }, if k == 0 { "-notification" } else { "-file" }));
            if c.insecure {
                expect_ok(n, &info, &what)?;
            } else {
                if info.out.ok() {
                    return Err(format!("{what}, but the run succeeded"));
                }
                n.e.check_inert(&before, true).map_err(|e| format!("{what}: the run failed, but {e}"))?;
                // With good certificates all is well again.
                n.publish();
                let (info, _, _) = n.run(None)?;
                expect_ok(n, &info, "valid certificates")?;
            }
            Ok(())
        }
        (Twist::Altered(at), Some(b)) if want == "C18" && update => {
            let rel = need[1 + *at as usize % (need.len() - 1)].clone();
            if n.staged(&rel) {
                return Ok(());
            }
            let good = n.e.src.files(false).get(&rel).cloned().unwrap_or_default();
            let end = good.iter().rposition(|b| *b == b'<').unwrap_or(0);
            let bytes = match *at / 16 % 4 {
                0 => b"<snapshot/>".to_vec(),
                // These would do for this version.
                1 => [&good[..], b"\n"].concat(),
                2 => [&good[..end], b"<publish uri=\"rsync://pub.example/repo/additional.cer\">AAAA</publish>", &good[end..]].concat(),
                _ => [&good[..end], b" ", &good[end..]].concat(),
            };
            n.route(b, &rel, Resp::Data { bytes, etag: None });
            let before = n.e.capture();
            let (info, _, _) = n.run(None)?;
            note.nontrivial(if c.insecure { "altered-insecure" } else { "altered" });
            if info.out.ok() {
                return Err(format!("{rel} does not have the announced hash, but the run succeeded"));
            }
            n.e.check_inert(&before, true).map_err(|e| format!("altered file: the run failed, but {e}"))?;
            n.publish();
            let (info, _, _) = n.run(None)?;
            expect_ok(n, &info, "after correction")
        }
        (Twist::Fault { at, fault, stale }, Some(b)) if want == "C09" => {
            let k = *at as usize % need.len();
            let rel = need[k].clone();
            if n.staged(&rel) && k > 0 {
                return Ok(());
            }
            let mut stale_done = false;
            if *stale && need.len() > 2 && k > 0 && k + 1 < need.len() {
                // An earlier run saw another rendering of this file, and failed
                // because of another one.
                let last = need.last().unwrap().clone();
                let sv = n.e.src.ver().clone();
                let f = if sv.snap.rel == rel { sv.snap.clone() } else { n.e.src.deltas().iter().find(|d| d.1.rel == rel).unwrap().1.clone() };
                let mut alt = f.bytes.clone();
                alt.extend_from_slice(b"\n<!-- x -->\n");
                let h = sha(&alt);
                let (pb, ds): (String, Vec<(u64, FileRef)>) = (n.e.src.base.clone(), n.e.src.deltas().into_iter().map(|(s, f)| (s, f.clone())).collect());
                let hh = |r: &FileRef| if r.rel == rel { h } else { r.hash };
                let xml = notification_xml(
                    &n.e.src.sess().id,
                    sv.serial,
                    &format!("{pb}{}", sv.snap.rel),
                    &hh(&sv.snap),
                    &ds.iter().map(|(s, d)| (*s, format!("{pb}{}", d.rel), hh(d))).collect::<Vec<_>>(),
                    n.e.src.fmt,
                );
                n.put(&n.e.src.notif.clone(), xml);
                n.put(&rel, alt);
                n.route(b, &last, Resp::Status(404));
                let before = n.e.capture();
                let (info, _, _) = n.run(None)?;
                if info.out.ok() && !n.staged(&last) {
                    return Err("a file is missing, but the run succeeded".into());
                }
                n.e.check_inert(&before, true).map_err(|e| format!("a file is missing: the run failed, but {e}"))?;
                n.publish();
                stale_done = true;
            }
            let good = if k == 0 { n.e.src.notification() } else { std::mem::take(&mut n.e.src.files(false).remove(&rel).unwrap()) };
            let r = match fault {
                NetFault::Status(s) => Resp::Status(if *s == 304 && k == 0 { 503 } else { *s }),
                NetFault::Short(x) => Resp::Short(good.clone(), *x as usize % good.len().max(1)),
                NetFault::Close => Resp::Close,
                NetFault::NotHttp => Resp::NotHttp,
                NetFault::Down => Resp::Close,
                NetFault::Stall(x) => Resp::Stall(good.clone(), if x % 3 == 0 { 0 } else { *x as usize % (good.len() + 100) }),
            };
            n.route(b, &rel, r);
            let before = n.e.capture();
            let stall = matches!(fault, NetFault::Stall(_));
            if stall {
                n.e.env.push(("KS_SHIM_STALL".into(), tls::SILENCE.into()));
            }
            let (info, _, _) = n.run(None)?;
            if stall {
                n.e.env.pop();
                if n.tls.with(|s| std::mem::take(&mut s.outwaited)) {
                    return Err(format!("{fault:?} for file {k} of {} needed: the run waits for a server that does not answer without an end", need.len()));
                }
            }
            let what = format!("{fault:?} for file {k} of {} needed{}", need.len(), if stale_done { ", another rendering of which was staged before" } else { "" });
            note.nontrivial(format!("http:{}{}", format!("{fault:?}").split('(').next().unwrap(), if stale_done { "-stale" } else { "" }));
            if info.out.ok() {
                return Err(format!("{what}, but the run succeeded"));
            }
            if info.out.crashed() {
                return Err(format!("{what}: run crashed: {}", info.out.show()));
            }
            n.e.check_inert(&before, true).map_err(|e| format!("{what}: the run failed, but {e}"))?;
            n.publish();
            let (info, _, _) = n.run(None)?;
            expect_ok(n, &info, "after correction")
        }
        _ => {
            let (info, _, _) = n.run(None)?;
            expect_ok(n, &info, "source is in order")
        }
    }
}
