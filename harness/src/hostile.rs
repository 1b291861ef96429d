//! Sources with hostile URIs: nothing may be written outside the configured
//! directories, nothing public may be damaged, and a later clean version must
//! be published.
use crate::explore::Note;
use crate::fsx::{self, Node, Tree};
use crate::hist::{case_dir, own, T0};
use crate::model::*;
use crate::net::Via;
use crate::proc::{self, Act, Ev, Out, Spec};
use crate::tls::{self, Resp, Tls};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use uuid::Uuid;

/// Template and variant of a file name relative to the base URI.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Odd(pub u8, pub u8);

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct OddObj(pub u8, pub u8, pub u8);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HVer {
    pub new_session: bool,
    pub snap: Odd,
    pub deltas: Vec<Odd>,
    pub objs: Vec<OddObj>,
    /// The last file needed is missing, so that this has to be refused.
    pub broken: bool,
    pub again: bool,
    pub tick: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HCase {
    pub include_host: bool,
    pub rsync: bool,
    pub exdev: bool,
    pub cleanup: u32,
    pub via: Via,
    pub notif: u8,
    pub first_clean: bool,
    pub vers: Vec<HVer>,
}

const BASES: &[&str] = &["https://pub.example/rrdp/", "https://pub.example/", "https://pub.example:8443/a/b/"];
const NAMES: &[&str] = &["notification.xml", "n", "notify;v=1.xml"];
const MAPPED: &str = "https://mirror.example/m/";

fn sess(n: usize) -> Uuid {
    let h = fsx::sha(format!("hostile session {n}").as_bytes());
    let mut b = [0u8; 16];
    b.copy_from_slice(&h[..16]);
    uuid::Builder::from_random_bytes(b).into_uuid()
}

pub fn normalise(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                o.pop();
            }
            Component::CurDir => {}
            c => o.push(c.as_os_str()),
        }
    }
    o
}

/// As URL parsers do.
fn norm_url(u: &str) -> String {
    let (host, path) = u[8..].split_once('/').unwrap_or((&u[8..], ""));
    let mut out: Vec<&str> = vec![];
    let segs: Vec<&str> = path.split('/').collect();
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == segs.len();
        match s.to_ascii_lowercase().replace("%2e", ".").as_str() {
            "." => {
                if last {
                    out.push("")
                }
            }
            ".." => {
                out.pop();
                if last {
                    out.push("")
                }
            }
            _ => out.push(s),
        }
    }
    format!("https://{host}/{}", out.join("/"))
}

struct Cx<'a> {
    c: &'a HCase,
    root: PathBuf,
    base: String,
    name: String,
    tls: &'a Tls,
    n: usize,
    used: std::cell::RefCell<std::collections::BTreeSet<String>>,
    /// The files of the current version, relative to the base URI.
    rels: std::cell::RefCell<Vec<String>>,
}

impl Cx<'_> {
    fn dir(&self, d: &str) -> PathBuf {
        self.root.join("w").join(d)
    }
    fn src(&self) -> PathBuf {
        self.root.join("src")
    }

    /// The URI for a template, never one that was used before.
    fn uri(&self, o: Odd, u: &str, v: &HVer) -> String {
        let uri = self.template(o, u, v);
        if self.used.borrow_mut().insert(norm_url(&uri).to_ascii_lowercase()) {
            return uri;
        }
        format!("{}ok/{u}.xml", self.base)
    }

    fn template(&self, o: Odd, u: &str, v: &HVer) -> String {
        let w = self.root.join("w");
        let abs = |p: &str| format!("/{}", w.join(p).display());
        let name = &self.name;
        let k = o.1 as usize;
        let pick = |l: &[String]| l[k % l.len()].clone();
        let rel: String = match o.0 % 12 {
            0 | 1 => format!("ok/{u}.xml"),
            2 => pick(&[
                format!("../{u}.xml"),
                format!("../../{u}.xml"),
                format!("a/../../{u}.xml"),
                format!("a/../../../{u}.xml"),
                format!("../../../../../../../../../../{}", self.root.join(format!("c/{u}")).display()),
                format!("..//{u}.xml"),
                "..".into(),
                "../".into(),
            ]),
            3 => pick(&[
                "../rrdp-state.json".into(),
                "../state/rrdp-state.json".into(),
                "../rsync-state.json".into(),
                "../krill-sync.lock".into(),
                "../../state/rrdp-state.json".into(),
                "../rrdp-state.tmp".into(),
                format!("../rrdp/{name}"),
                format!("../rsync/current/{u}"),
                format!("../rsync/{u}"),
                format!("../state/{u}"),
            ]),
            4 => pick(&[format!("./{u}.xml"), format!("a/./{u}.xml"), format!("a//{u}.xml"), format!("a/b/../{u}.xml"), format!("a/{u}/."), format!("{u}/..")]),
            5 => pick(&[
                abs(&format!("../c/{u}")),
                abs(&format!("{u}")),
                abs("state/rrdp-state.json"),
                abs(&format!("rrdp/{name}")),
                abs(&format!("rsync/current/{u}")),
                abs("canary"),
                format!("/{u}.xml"),
                "/etc/hostname".into(),
            ]),
            6 => pick(&[format!("{u}/"), "".into(), format!("a/{u}/"), "/".into(), format!("a/{u}//")]),
            7 => pick(&[name.clone(), format!("{name}.tmp"), format!("{name}/{u}"), format!("{name}.tmp/{u}"), format!("{}{u}", name.to_uppercase()), format!("./{name}"), format!("a/../{name}")]),
            8 => pick(&[
                format!("..%2f{u}"),
                format!("%2e%2e/{u}"),
                format!("%2E%2E/{u}"),
                format!("%2e%2e/%2e%2e/{u}"),
                format!("%2e%2e/%2E%2e/c/{u}"),
                format!(".%2e/%2e./{u}.xml"),
                format!("a/%2e%2e/{u}.xml"),
                format!("%2e/{u}.xml"),
                format!("..%2f..%2f{u}"),
                "%2e%2e/rrdp-state.json".into(),
                "%2e%2e/%2e%2e/canary".into(),
                format!("%2e%2e/rrdp/{name}"),
                format!("%252e%252e/{u}"),
                format!(".../{u}"),
                format!("..;/{u}"),
                format!("~/{u}"),
                format!("%2f{u}"),
                format!("$HOME/{u}"),
                format!("-{u}"),
                format!("%00{u}"),
                format!(".{u}"),
                format!("*/{u}"),
            ]),
            9 => pick(&["x".repeat(255 - u.len()) + u, "y".repeat(256 - u.len()) + u, format!("{}{u}", "z/".repeat(400)), "q".repeat(5000)]),
            10 => {
                return pick(&[
                    format!("https://other.example/rrdp/{u}.xml"),
                    format!("{}/{u}.xml", self.base.trim_end_matches('/').trim_end_matches(|c: char| c != '/').trim_end_matches('/')),
                    format!("{}{u}.xml", self.base.replace("pub.example", "PUB.EXAMPLE")),
                    format!("{}x/{u}.xml", self.base.trim_end_matches('/')),
                ])
                .replace("https:/pub", "https://pub")
            }
            _ => {
                if v.broken {
                    // In the way of the clean version; only if refused.
                    pick(&[sess(1000).to_string(), "clean".into(), format!("{}/2", sess(1000)), format!("{}/2/snapshot.xml/x", sess(1000)), "clean/more.xml/a/b".into()])
                } else {
                    let s = |n| format!("ok/s{n}.xml.tmp");
                    pick(&[format!("ok/{u}.xml.tmp"), s(self.n), s(self.n + 1), s(self.n + 1), s(self.n + 2), format!("{}/{u}", s(self.n)), format!("{}/{u}", s(self.n + 1))])
                }
            }
        };
        format!("{}{rel}", self.base)
    }

    fn object(&self, o: OddObj, u: &str) -> String {
        const A: &[&str] = &["pub.example", "pub.example", "other.example:873", "..", ".", "a", "%2e%2e", "...", "session_x", "-"];
        const M: &[&str] = &["repo", "repo", "mod", "..", ".", "m", "...", "%2f"];
        let p: String = match o.2 % 16 {
            0..=4 => format!("ca/{u}.roa"),
            5 => "".into(),
            6 => format!("{u}/"),
            7 => "a".into(),
            8 => format!("a/{u}"),
            9 => format!(".../{u}"),
            10 => format!("%2e%2e/{u}"),
            11 => "current".into(),
            12 => format!("{}.roa", "x".repeat(if o.1 % 2 == 0 { 200 } else { 260 })),
            13 => "state/rrdp-state.json".into(),
            14 => format!("canary/{u}"),
            _ => format!("a/b/{u}/c/"),
        };
        format!("rsync://{}/{}/{p}", A[o.0 as usize % A.len()], M[o.1 as usize % M.len()])
    }

    /// Makes the content available at the source under that URI.
    fn put(&self, uri: &str, bytes: &[u8]) {
        let rel = match uri.strip_prefix(&self.base) {
            Some(r) => r,
            None => {
                if self.c.via == Via::Direct {
                    self.tls.with(|s| s.routes.insert(norm_url(uri), Resp::Data { bytes: bytes.to_vec(), etag: None }));
                }
                return;
            }
        };
        match self.c.via {
            Via::File | Via::RelFile(_) => {
                let p = normalise(&self.src().join(rel));
                if p.starts_with(&self.root) && !p.starts_with(self.dir("state")) && !p.starts_with(self.dir("rrdp")) && !p.starts_with(self.dir("rsync")) {
                    if p.file_name().map(|f| f.len() > 255).unwrap_or(true) || p.is_dir() || p.as_os_str().len() > 4000 {
                        return;
                    }
                    let mut d = p.parent().unwrap();
                    while d.starts_with(&self.root) {
                        if d.is_file() {
                            return;
                        }
                        d = d.parent().unwrap();
                    }
                    fsx::write(&p, bytes);
                    own(&p);
                    if !p.starts_with(self.src()) {
                        let mut d = p.parent().unwrap();
                        while d.starts_with(&self.root) && d != self.root {
                            own(d);
                            d = d.parent().unwrap();
                        }
                    }
                }
            }
            _ => {
                let b = if self.c.via == Via::Direct { self.base.as_str() } else { MAPPED };
                let url = format!("{b}{rel}");
                self.tls.with(|s| {
                    for u in [norm_url(&url), url.clone()] {
                        s.routes.insert(u, Resp::Data { bytes: bytes.to_vec(), etag: None });
                    }
                });
            }
        }
    }

    fn remove(&self, uri: &str) {
        if let Some(rel) = uri.strip_prefix(&self.base) {
            match self.c.via {
                Via::File | Via::RelFile(_) => {
                    let p = normalise(&self.src().join(rel));
                    if p.starts_with(self.src()) {
                        let _ = std::fs::remove_file(p);
                    }
                }
                _ => {
                    let b = if self.c.via == Via::Direct { self.base.as_str() } else { MAPPED };
                    let url = format!("{b}{rel}");
                    self.tls.with(|s| {
                        s.routes.remove(&norm_url(&url));
                        s.routes.remove(&url);
                    });
                }
            }
        }
    }

    fn args(&self) -> Vec<std::ffi::OsString> {
        let mut a: Vec<std::ffi::OsString> = vec![];
        for d in ["state", "rrdp", "rsync"] {
            a.push(format!("--{d}-dir").into());
            a.push(self.dir(d).into());
        }
        a.push("--cleanup-after".into());
        a.push(self.c.cleanup.to_string().into());
        match self.c.via {
            Via::Direct => {}
            Via::Mapped(_) => {
                a.push("--source-uri-base".into());
                a.push(MAPPED.into());
            }
            _ => {
                a.push("--source-uri-base".into());
                a.push(self.src().into());
            }
        }
        if self.c.include_host {
            a.push("--rsync-include-host".into());
        }
        if !self.c.rsync {
            a.push("--rsync-disable".into());
        }
        a.push("--".into());
        a.push(format!("{}{}", self.base, self.name).into());
        a
    }

    fn outside(&self) -> Tree {
        fsx::without(&fsx::tree(&self.root), |p| ["w/state", "w/rrdp", "w/rsync"].iter().any(|d| p == *d || p.starts_with(&format!("{d}/"))) || p == "w")
    }

    /// Is this the place of a file of the current version, a directory on the
    /// way there, or a file next to one?
    fn placed(&self, p: &Path) -> bool {
        let ok = |r: &str| {
            let r = Path::new(r);
            r.starts_with(p) || p.parent() == r.parent()
        };
        ok(&self.name) || self.rels.borrow().iter().any(|r| ok(r))
    }

    /// Is this operation within the bounds?
    fn judge(&self, ev: &Ev, version_dir: &str) -> Result<(), String> {
        if !ev.mutates() {
            return Ok(());
        }
        let mut paths: Vec<(&str, bool)> = vec![]; // path, is it removed?
        match ev.op {
            b'R' => {
                paths.push((&ev.a, true));
                paths.push((&ev.b, false));
            }
            b'U' | b'D' => paths.push((&ev.a, true)),
            _ => paths.push((&ev.a, false)),
        }
        for (p, removed) in paths {
            let p = Path::new(p);
            let bad = |what: &str| Err(format!("{} ({what})", ev.show()));
            if let Ok(r) = p.strip_prefix(self.dir("state")) {
                if let Ok(r) = r.strip_prefix("pre-validate-staging") {
                    if removed || self.placed(r) {
                        continue;
                    }
                    return bad("not a place for this in the staging directory");
                }
                let n: Vec<_> = r.components().collect();
                let named = |f: &str| self.rels.borrow().iter().any(|r| r.rsplit('/').next() == Some(f));
                match n.first().map(|c| c.as_os_str().to_string_lossy().to_string()) {
                    None => continue,
                    Some(f) if n.len() == 1 && (f.contains("-state.") || f.contains("krill-sync") || !named(&f)) => continue,
                    _ => return bad("not a place for this in the state directory"),
                }
            }
            if let Ok(r) = p.strip_prefix(self.dir("rrdp")) {
                if removed || self.placed(r) {
                    continue;
                }
                return bad("not a place for this in the RRDP directory");
            }
            if let Ok(r) = p.strip_prefix(self.dir("rsync")) {
                let first = r.components().next().map(|c| c.as_os_str().to_string_lossy().to_string()).unwrap_or_default();
                let depth = r.components().count();
                let ok = match first.as_str() {
                    "" => !removed,
                    "current" => depth == 1 && !removed,
                    "current.tmp" => depth == 1,
                    f if f.starts_with("session_") => removed || f == version_dir,
                    _ => false,
                };
                if ok {
                    continue;
                }
                return bad("not a place for this in the rsync directory");
            }
            return bad("outside the configured directories");
        }
        Ok(())
    }

    fn run(&self, now: &mut i64, version_dir: &str) -> Result<Out, String> {
        let cwd = self.root.join("w");
        let mut env = vec![];
        let mut port = None;
        if !matches!(self.c.via, Via::File | Via::RelFile(_)) {
            port = Some(self.tls.port);
            env.push(("SSL_CERT_FILE".into(), self.tls.ca_file.display().to_string()));
            env.push(("SSL_CERT_DIR".into(), "/nonexistent".into()));
        }
        let spec = Spec { args: self.args(), cwd: &cwd, root: &self.root, now: *now, reads: false, tls_port: port, env, bin: None };
        let mut viol: Option<String> = None;
        let (st, rr) = (format!("{}/", self.dir("state").display()), format!("{}/", self.dir("rrdp").display()));
        let had = self.dir("rrdp").join(&self.name).is_file();
        let out = proc::run(&spec, &mut |ev, _| {
            if viol.is_none() {
                if let Err(e) = self.judge(ev, version_dir) {
                    viol = Some(e);
                    return (Act::Kill, 0);
                }
                match view(&self.dir("rrdp"), &self.name) {
                    Ok(Some(v)) => {
                        if let Err(e) = v.check_files(&self.dir("rrdp"), &self.base) {
                            viol = Some(format!("before {}: {e}", ev.show()));
                            return (Act::Kill, 0);
                        }
                    }
                    Ok(None) if !had => {}
                    Ok(None) => {
                        viol = Some(format!("before {}: public notification is gone", ev.show()));
                        return (Act::Kill, 0);
                    }
                    Err(e) => {
                        viol = Some(format!("before {}: public notification: {e}", ev.show()));
                        return (Act::Kill, 0);
                    }
                }
                if self.c.exdev && ev.op == b'R' && ev.a.starts_with(&st) && ev.b.starts_with(&rr) {
                    return (Act::Err(libc::EXDEV), 0);
                }
            }
            (Act::Go, 0)
        });
        *now = out.now;
        if let Some(v) = viol {
            return Err(v);
        }
        if let Some(e) = out.escapes.first() {
            return Err(format!("tried to touch {e}, outside its directories"));
        }
        if out.crashed() {
            return Err(format!("crashed: {}", out.show()));
        }
        Ok(out)
    }

    fn check_public(&self, id: &Uuid, serial: u64, hash: &[u8; 32]) -> Result<(), String> {
        let v = view(&self.dir("rrdp"), &self.name)?.ok_or("no public notification")?;
        if v.session != id.to_string() || v.serial != serial || v.snapshot.hash != *hash {
            return Err("public notification is not for the source's version".into());
        }
        v.check_files(&self.dir("rrdp"), &self.base)
    }
}

pub fn play(c: &HCase, t: usize, note: &mut Note) -> Result<(), String> {
    tls::server(|tls| {
        let root = case_dir(t);
        let base = BASES[c.notif as usize / 3 % BASES.len()].to_string();
        let name = NAMES[c.notif as usize % NAMES.len()].to_string();
        let mut x = Cx { c, root, base, name, tls, n: 0, used: Default::default(), rels: Default::default() };
        for p in ["canary", "c/x", "w/canary", "w/canaries/y"] {
            fsx::write(&x.root.join(p), b"canary");
        }
        for p in ["c", "w/canaries", "c/x", "canary", "w/canary", "w/canaries/y", "src", "w", ""] {
            let p = x.root.join(p);
            if p.ends_with("src") {
                let _ = std::fs::create_dir_all(&p);
            }
            own(&p);
        }
        let mut now = T0;
        let clean = |x: &mut Cx, now: &mut i64, serial: u64| -> Result<(), String> {
            let id = sess(1000);
            let _ = std::fs::remove_dir_all(x.src());
            std::fs::create_dir_all(x.src()).unwrap();
            let objs: Objects = [("rsync://pub.example/repo/a/b.roa".to_string(), vec![serial as u8; 50]), ("rsync://pub.example/repo/c.cer".to_string(), b"cer".to_vec())].into_iter().collect();
            let snap = snapshot_xml(&id, serial, &objs, 0);
            let uri = format!("{}{id}/{serial}/snapshot.xml", x.base);
            let delta = delta_xml(&id, serial, &Objects::new(), &objs, 0);
            let duri = format!("{}clean/more.xml/a/b/{serial}", x.base);
            let duri = if serial % 2 == 0 { format!("{}clean/{serial}", x.base) } else { duri };
            x.put(&uri, &snap);
            x.put(&duri, &delta);
            let n = notification_xml(&id, serial, &uri, &fsx::sha(&snap), &[(serial, duri.clone(), fsx::sha(&delta))], Fmt(0));
            x.put(&format!("{}{}", x.base, x.name), &n);
            *x.rels.borrow_mut() = [&uri, &duri].iter().map(|u| u[x.base.len()..].to_string()).collect();
            let before = x.outside();
            let out = x.run(now, &format!("session_{id}_serial_{serial}")).map_err(|e| format!("clean version: {e}"))?;
            if !out.ok() {
                return Err(format!("clean version: run failed: {}", out.show()));
            }
            x.check_public(&id, serial, &fsx::sha(&snap)).map_err(|e| format!("clean version: {e}"))?;
            if c.rsync {
                let want: BTreeMap<String, Vec<u8>> = rsync_layout(&objs, c.include_host);
                if fsx::files(&x.dir("rsync/current"))? != want {
                    return Err("clean version: rsync 'current' differs from the snapshot".into());
                }
            }
            if let Some(d) = fsx::diff(&before, &x.outside(), true) {
                return Err(format!("clean version: outside the configured directories: {d}"));
            }
            Ok(())
        };
        if c.first_clean {
            clean(&mut x, &mut now, 1)?;
        }
        let (mut sn, mut serial) = (0usize, 1u64);
        for v in &c.vers {
            if v.new_session {
                sn += 1;
                serial = 1 + (sn as u64 * 7) % 5;
            } else {
                serial += 1;
            }
            x.n += 1;
            now += v.tick as i64;
            let id = sess(sn);
            let mut objs = Objects::new();
            for (i, o) in v.objs.iter().enumerate() {
                objs.insert(x.object(*o, &format!("o{i}")), vec![x.n as u8; 40 + i]);
            }
            let mut files: Vec<(String, Vec<u8>)> = vec![(x.uri(v.snap, &format!("s{}", x.n), v), snapshot_xml(&id, serial, &objs, 0))];
            let mut ds = vec![];
            for (i, o) in v.deltas.iter().enumerate() {
                let s = match serial.checked_sub(i as u64) {
                    Some(s) if s > 0 => s,
                    _ => break,
                };
                let b = delta_xml(&id, s, &Objects::new(), &objs, 0);
                let u = x.uri(*o, &format!("d{}-{i}", x.n), v);
                if files.iter().any(|f| f.0 == u) {
                    continue;
                }
                ds.push((s, u.clone(), fsx::sha(&b)));
                files.push((u, b));
            }
            // Only what has not been published under that name before.
            for (u, b) in &files {
                x.put(u, b);
            }
            // Names in the way of the clean version must never be published,
            // so that such a version must surely be refused.
            let in_the_way = v.snap.0 % 12 == 11 || v.deltas.iter().any(|d| d.0 % 12 == 11);
            let mut snap_hash = fsx::sha(&files[0].1);
            if v.broken && in_the_way {
                // The newest delta is always needed, and fetched last.
                match ds.first_mut() {
                    Some(d) => d.2[3] ^= 1,
                    None => snap_hash[3] ^= 1,
                }
            } else if v.broken {
                let (u, _) = files.last().unwrap();
                x.remove(u);
            }
            let n = notification_xml(&id, serial, &files[0].0, &snap_hash, &ds, Fmt(0));
            x.put(&format!("{}{}", x.base, x.name), &n);
            *x.rels.borrow_mut() = files.iter().filter_map(|f| f.0.strip_prefix(&x.base).map(|r| r.to_string())).collect();
            for round in 0..(1 + v.again as usize) {
                let out0 = x.outside();
                let pub0 = std::fs::read(x.dir("rrdp").join(&x.name)).ok();
                let cur0 = std::fs::read_link(x.dir("rsync/current")).ok();
                let tree0 = fsx::tree(&x.dir("rsync/current"));
                let others0: BTreeMap<String, Tree> = sessions(&x.dir("rsync"));
                let vd = format!("session_{id}_serial_{serial}");
                let what = format!("snapshot {}, deltas {:?}, objects {:?}", files[0].0, ds.iter().map(|d| &d.1).collect::<Vec<_>>(), objs.keys().collect::<Vec<_>>());
                let short = |e: String| {
                    let w: String = what.chars().take(700).collect();
                    format!("{e}; source: {w}")
                };
                let out = x.run(&mut now, &vd).map_err(short)?;
                let bad_names = v.snap.0 % 12 > 1 || v.deltas.iter().any(|d| d.0 % 12 > 1) || v.objs.iter().any(|o| o.0 % 10 > 2 || o.1 % 8 > 2 || o.2 % 16 > 4);
                if bad_names {
                    note.nontrivial(if out.ok() { "hostile-accepted" } else { "hostile-refused" });
                } else {
                    note.class(if out.ok() { "plain-accepted" } else { "plain-refused" });
                }
                if let Some(d) = fsx::diff(&out0, &x.outside(), true) {
                    return Err(short(format!("outside the configured directories: {d}")));
                }
                if out.ok() {
                    x.check_public(&id, serial, &snap_hash).map_err(|e| short(format!("accepted, but {e}")))?;
                } else {
                    if std::fs::read(x.dir("rrdp").join(&x.name)).ok() != pub0 {
                        return Err(short("refused, but the public notification changed".into()));
                    }
                    if std::fs::read_link(x.dir("rsync/current")).ok() != cur0 || fsx::diff(&tree0, &fsx::tree(&x.dir("rsync/current")), true).is_some() {
                        return Err(short("refused, but rsync 'current' changed".into()));
                    }
                }
                for (d, t) in sessions(&x.dir("rsync")) {
                    if d != vd {
                        match others0.get(&d) {
                            None => return Err(short(format!("rsync directory {d} appeared, which is not for this version"))),
                            Some(o) => {
                                if let Some(e) = fsx::diff(o, &t, true) {
                                    return Err(short(format!("rsync directory {d} of another version changed: {e}")));
                                }
                            }
                        }
                    }
                }
                if round == 0 && !bad_names && !v.broken && !out.ok() && x.n == 1 {
                    return Err(short(format!("a clean first version was refused: {}", out.show())));
                }
            }
        }
        now += 5;
        clean(&mut x, &mut now, 2)?;
        now += c.cleanup as i64 + 10;
        clean(&mut x, &mut now, 3)?;
        for p in ["canary", "c/x", "w/canary", "w/canaries/y"] {
            match fsx::tree(&x.root).get(p) {
                Some(Node::File { bytes, .. }) if bytes == b"canary" => {}
                _ if matches!(c.via, Via::File) => {} // the source may have replaced it
                _ => return Err(format!("{p} was changed or removed")),
            }
        }
        Ok(())
    })
}

fn sessions(rsync: &Path) -> BTreeMap<String, Tree> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(rsync) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.starts_with("session_") {
                m.insert(n, fsx::tree(&e.path()));
            }
        }
    }
    m
}
