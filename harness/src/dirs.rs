//! Where output goes for generated directory, source and URI arguments.
use crate::explore::Note;
use crate::fsx;
use crate::hist::*;
use crate::model::*;
use crate::proc::{self, Act, Spec};
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Shape {
    pub absolute: bool,
    /// Indices of name components.
    pub comps: Vec<u8>,
    /// Trailing slash, doubled slashes, leading "./", as bits.
    pub style: u8,
    /// Below the state directory.
    pub inside_state: bool,
    /// How the option is written on the command line.
    pub opt: u8,
    pub exists: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Refuse {
    /// A source base that is none.
    Source(u8),
    /// A notification URI that is none.
    Uri(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DCase {
    pub state: Shape,
    pub rrdp: Option<Shape>,
    pub rsync: Option<Shape>,
    pub include_host: bool,
    pub rsync_on: bool,
    pub style: u8,
    pub notif: u8,
    pub objects: Vec<(u8, u8)>,
    pub change: Vec<(u8, Option<u8>)>,
    /// How the source directory is given.
    pub src: u8,
    pub refuse: Option<Refuse>,
}

const NAMES: &[&[u8]] = &[b"state", b"a b", b"rrdp", b"rsync", b"var/lib/krill-sync", b"krill-sync", "\u{fc}\u{4e9c}".as_bytes(), b"x\xffy", b"--dash", b"...", b"lib", b"pre-validate-staging", b"a=b,c;d", b"current", b"\xc3", b"var/lib/krill-sync/rrdp", b"var/lib/krill-sync/rsync", b"tmp.tmp"];

impl Shape {
    fn path(&self, tag: &str) -> Vec<u8> {
        let sep: &[u8] = if self.style & 2 != 0 { b"//" } else { b"/" };
        let mut v: Vec<u8> = vec![];
        for c in &self.comps {
            v.extend_from_slice(NAMES[*c as usize % NAMES.len()]);
            v.extend_from_slice(sep);
        }
        // No two directories are the same.
        v.extend_from_slice(tag.as_bytes());
        v
    }
    fn finish(&self, mut v: Vec<u8>) -> Vec<u8> {
        if self.style & 1 != 0 {
            v.push(b'/');
        }
        v
    }
    fn arg(&self, w: &Path, state: &[u8], tag: &str) -> Vec<u8> {
        let mut v = vec![];
        if self.inside_state {
            v.extend_from_slice(state);
            if !v.ends_with(b"/") {
                v.push(b'/');
            }
        } else if self.absolute {
            v.extend_from_slice(w.as_os_str().as_bytes());
            v.push(b'/');
        } else if self.style & 4 != 0 || self.path(tag).starts_with(b"-") {
            v.extend_from_slice(b"./");
        }
        v.extend(self.path(tag));
        self.finish(v)
    }
}

fn opt(args: &mut Vec<OsString>, how: u8, long: &str, short: Option<&str>, val: Vec<u8>) {
    match how % 3 {
        0 => {
            args.push(long.into());
            args.push(OsString::from_vec(val));
        }
        1 => {
            let mut v = long.as_bytes().to_vec();
            v.push(b'=');
            v.extend(val);
            args.push(OsString::from_vec(v));
        }
        _ => {
            args.push(short.unwrap_or(long).into());
            args.push(OsString::from_vec(val));
        }
    }
}

fn listing(dir: &Path, skip: &[PathBuf]) -> Vec<PathBuf> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            if skip.contains(&p) {
                continue;
            }
            v.push(p.clone());
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                v.extend(listing(&p, skip));
            }
        }
    }
    v.sort();
    v
}

pub fn play(c: &DCase, t: usize, note: &mut Note) -> Result<(), String> {
    let root = case_dir(t);
    let w = root.join("w");
    let h = Hist {
        cfg: Cfg { style: c.style, notif: c.notif, include_host: c.include_host, rsync: c.rsync_on, ..serde_json::from_str(r#"{"style":0,"notif":0,"include_host":false,"rsync":true,"max_deltas":null,"cleanup":3600,"delay":0,"foreign":false,"exdev":false,"purge":false}"#).unwrap() },
        serial: 1,
        objects: c.objects.clone(),
        steps: vec![],
    };
    let mut e = Engine::new("C23", &h, t);
    let st_arg = c.state.arg(&w, b"", "s");
    let rr_arg = c.rrdp.as_ref().map(|s| s.arg(&w, &st_arg, "r"));
    let rs_arg = c.rsync.as_ref().map(|s| s.arg(&w, &st_arg, "y"));
    let abs = |a: &[u8]| w.join(PathBuf::from(OsString::from_vec(a.to_vec())));
    let state = abs(&st_arg);
    let rrdp = rr_arg.as_ref().map(|a| abs(a)).unwrap_or_else(|| state.join("rrdp"));
    let rsync = rs_arg.as_ref().map(|a| abs(a)).unwrap_or_else(|| state.join("rsync"));
    // Directories where krill-sync itself keeps other things are no use.
    let reserved = [rsync.join("current"), rsync.join("current.tmp"), state.join("pre-validate-staging")];
    if [&rrdp, &rsync].iter().any(|p| reserved.iter().any(|r| p.starts_with(r))) || state.starts_with(&reserved[0]) {
        note.class("reserved-name");
        return Ok(());
    }
    // Components of the paths that the case lays beforehand.
    for (s, p) in [(Some(&c.state), &state), (c.rrdp.as_ref(), &rrdp), (c.rsync.as_ref(), &rsync)] {
        if s.map(|s| s.exists).unwrap_or(false) {
            std::fs::create_dir_all(p).unwrap();
            let mut q = p.clone();
            while q != w && q.starts_with(&w) {
                own(&q);
                if !q.pop() {
                    break;
                }
            }
        }
    }
    let sd = w.join("src");
    std::fs::create_dir_all(&sd).unwrap();
    let mut args: Vec<OsString> = vec![];
    opt(&mut args, c.state.opt, "--state-dir", Some("-s"), st_arg.clone());
    if let Some(a) = &rr_arg {
        opt(&mut args, c.rrdp.as_ref().unwrap().opt, "--rrdp-dir", None, a.clone());
    }
    if let Some(a) = &rs_arg {
        opt(&mut args, c.rsync.as_ref().unwrap().opt, "--rsync-dir", None, a.clone());
    }
    if c.include_host {
        args.push("--rsync-include-host".into());
    }
    if !c.rsync_on {
        args.push("--rsync-disable".into());
    }
    let mut source = match c.src % 4 {
        0 => format!("{}/", sd.display()),
        1 => format!("{}", sd.display()),
        2 => "src/".to_string(),
        _ => "./src".to_string(),
    };
    let mut uri = e.src.notification_uri();
    let mut why = String::new();
    match &c.refuse {
        Some(Refuse::Source(k)) => {
            source = match k % 11 {
                0 => "http://pub.example/rrdp/".into(),
                1 => "https://pub.example/rrdp".into(),
                2 => format!("{}/none/", w.display()),
                3 => "nonexisting".into(),
                4 => {
                    fsx::write(&w.join("src/plain"), b"x");
                    format!("{}/src/plain", w.display())
                }
                5 => "rsync://pub.example/rrdp/".into(),
                6 => format!("file://{}/src/", w.display()),
                7 => "https://pub.example/a/b?".into(),
                8 => "https://pub.example/a.b/notification.xml".into(),
                9 => {
                    let _ = std::os::unix::fs::symlink("nowhere", w.join("src/dangling"));
                    "src/dangling".into()
                }
                _ => "src/../src/x/".into(),
            };
            why = format!("source base {source}");
        }
        Some(Refuse::Uri(k)) => {
            uri = ["https://pub.example", "https://pub.example/", "https://pub.example:8443", "https://pub.example:8443/", "http://pub.example/notification.xml", "rsync://pub.example/rrdp/notification.xml", "https:///notification.xml", "notification.xml", "/notification.xml", "https://pub.example/a b/notification.xml"][*k as usize % 10].into();
            why = format!("notification URI {uri}");
        }
        None => {}
    }
    args.push("--source-uri-base".into());
    args.push(source.into());
    args.push("--".into());
    args.push(uri.into());
    let asked = std::cell::RefCell::new(vec![]);
    let run = |now: i64| {
        let spec = Spec { args: args.clone(), cwd: &w, root: &root, now, reads: false, tls_port: None, env: vec![], bin: None };
        proc::run(&spec, &mut |ev, _| {
            if ev.op == b'G' {
                asked.borrow_mut().push(ev.a.clone());
            }
            (Act::Go, 0)
        })
    };
    let show = || args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ").replace(&*w.to_string_lossy(), "<w>");
    let skip = [sd.clone()];
    let before = listing(&w, &skip);
    if c.refuse.is_some() {
        e.src.write(&sd, false);
        if matches!(&c.refuse, Some(Refuse::Source(k)) if k % 11 == 4) {
            fsx::write(&sd.join("plain"), b"x");
        }
        let out = run(T0);
        note.nontrivial("refused");
        if out.crashed() {
            return Err(format!("{why}: crashed: {} ({})", out.show(), show()));
        }
        if out.ok() {
            return Err(format!("{why} was accepted ({})", show()));
        }
        if let Some(x) = out.escapes.first() {
            return Err(format!("{why} was refused, but {x} ({})", show()));
        }
        if let Some(h) = asked.borrow().first() {
            return Err(format!("{why} was not refused, but used: {h} was looked up ({})", show()));
        }
        for p in listing(&w, &skip) {
            if !before.contains(&p) && !p.starts_with(&state) && !state.starts_with(&p) {
                return Err(format!("{why} was refused, but {} was written ({})", p.display(), show()));
            }
        }
        return Ok(());
    }
    for n in 0..2 {
        if n > 0 {
            if c.change.is_empty() {
                break;
            }
            e.apply(&Step::Publish(c.change.clone()));
        }
        let clean_src = || {
            let _ = std::fs::remove_dir_all(&sd);
        };
        clean_src();
        e.src.write(&sd, false);
        let out = run(T0 + n as i64 * 10);
        let at = |m: String| format!("run {}: {m} (arguments: {})", n + 1, show());
        if out.crashed() || !out.ok() {
            return Err(at(format!("failed: {}", out.show())));
        }
        if let Some(x) = out.escapes.first() {
            return Err(at(format!("tried to write elsewhere: {x}")));
        }
        let v = match view(&rrdp, &e.src.notif) {
            Ok(Some(v)) => v,
            Ok(None) => return Err(at(format!("no notification in {}", rrdp.display()))),
            Err(m) => return Err(at(m)),
        };
        let cur = e.source_current();
        if (v.session.clone(), v.serial) != cur {
            return Err(at(format!("{} holds {}/{}, not {}/{}", rrdp.display(), v.session, v.serial, cur.0, cur.1)));
        }
        v.check_files(&rrdp, &e.src.base).map_err(at)?;
        let link = rsync.join("current");
        if c.rsync_on {
            if !link.exists() {
                return Err(at(format!("no 'current' in {}", rsync.display())));
            }
            let got = fsx::files(&std::fs::canonicalize(&link).unwrap()).map_err(at)?;
            if got != rsync_layout(&e.src.ver().objects, c.include_host) {
                return Err(at(format!("{} does not hold the objects of the source", link.display())));
            }
        } else if link.exists() {
            return Err(at(format!("{} was written", link.display())));
        }
        if !state.join("rrdp-state.json").is_file() {
            return Err(at(format!("no saved state in {}", state.display())));
        }
        // Nothing else has come into being.
        for p in listing(&w, &skip) {
            let below = |d: &Path| p.starts_with(d) || d.starts_with(&p);
            if before.contains(&p) {
                continue;
            }
            let in_state = p.starts_with(&state) && !(c.rrdp.is_some() && p.starts_with(state.join("rrdp"))) && !(c.rsync.is_some() && p.starts_with(state.join("rsync")));
            if !(below(&rrdp) || (c.rsync_on && below(&rsync)) || in_state || state.starts_with(&p)) {
                return Err(at(format!("{} was written", p.display())));
            }
        }
    }
    let odd = |b: &Option<Vec<u8>>| b.as_ref().map(|b| std::str::from_utf8(b).is_err()).unwrap_or(false);
    note.nontrivial(match (&c.rrdp, &c.rsync) {
        (None, None) => "only-state-dir",
        (Some(_), None) => "rrdp-dir",
        (None, Some(_)) => "rsync-dir",
        _ => "both",
    });
    if odd(&Some(st_arg)) || odd(&rr_arg) || odd(&rs_arg) {
        note.class("not-utf8");
    }
    Ok(())
}
