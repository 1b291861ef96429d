//! Histories: a source evolving, krill-sync runs with faults, time passing,
//! and the oracles that watch the public directories at every step.
use crate::explore::Note;
use crate::fsx::{self, sha, Node, Tree};
use crate::model::*;
use crate::proc::{self, Act, Ev, Out, Spec};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::path::{Path, PathBuf};

pub const T0: i64 = 1_750_000_000; // start of virtual time

//------------ Cases -------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub max_deltas: Option<u8>,
    pub cleanup: u32,
    pub delay: u32,
    pub rsync: bool,
    pub include_host: bool,
    /// Staging and RRDP directory are on different file systems.
    pub exdev: bool,
    pub style: u8,
    pub notif: u8,
    pub purge: bool,
    pub foreign: bool,
    /// Verbosity: none, -v, -vv, -q.
    #[serde(default)]
    pub verb: u8,
    /// File mode creation mask of the process: 022, 002, 027, 077, 000.
    #[serde(default)]
    pub umask: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Kill,
    PartialKill(u8),
    Io(u8),
    /// From this operation on everything that needs space fails.
    Full,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub at: u16,
    pub kind: Kind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Flip(u16),
    Truncate(u16),
    Append,
    Empty,
    Other,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    SnapMissing,
    SnapAltered(How),
    DeltaMissing(u8),
    DeltaAltered(u8, How),
    NotifMissing,
    NotifBroken(u8),
    Gap(u8),
    SnapOutside(u8),
    DeltaOutside(u8, u8),
    /// The right hash, but content for another session, serial or none at all.
    SnapWrong(u8),
    DeltaWrong(u8, u8),
    /// The same session at a lower serial: that many 255ths of the present one,
    /// with or without deltas.
    Lower(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Re {
    pub rrdp: Option<u8>,
    pub rsync: Option<u8>,
    pub name: Option<u8>,
    pub base: Option<u8>,
    pub include_host: Option<bool>,
    pub rsync_on: Option<bool>,
    pub max_deltas: Option<Option<u8>>,
    pub cleanup: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Publish(Vec<(u8, Option<u8>)>),
    NewSession { serial: u64, keep: bool },
    Flip(u8),
    Rollback(u8),
    Window(u8),
    Tick(u32),
    Fmt(u8),
    Recfg(Re),
    /// That many versions in a row.
    Many(u8),
    /// A version with that many small objects in one directory.
    Bulk(u8),
    /// The clock is set back.
    Back(u32),
    /// Saved state is lost: RRDP, rsync, both, the whole directory.
    Lose(u8),
    Run { fault: Option<Fault>, tick: Option<(u16, u16)> },
    BadRun(Bad),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hist {
    pub cfg: Cfg,
    pub serial: u64,
    pub objects: Vec<(u8, u8)>,
    pub steps: Vec<Step>,
}

//------------ Objects -----------------------------------------------------

const PATHS: &[&str] = &[
    "ta/0/3490C0.cer",
    "CA/1/AS1.roa",
    "CA/1/m.mft",
    "CA/1/c.crl",
    "x",
    "deep/a/b/c/d/e.gbr",
    ".hid/f",
    "odd;~(1)/%41=b&c'd,e+.asa",
    "CA/2/x.cer",
    "UP/lo.TXT",
    "CA/1/sub/y.roa",
    "pub.example/repo/UP/lo.TXT", // as another with the other layout
];

pub fn object_uri(id: u8, multi: bool) -> String {
    let i = id as usize % PATHS.len();
    let host = if multi {
        ["pub.example/repo", "other.example:8873/mod", "Third.Example/repo2"][i % 3]
    } else {
        "pub.example/repo"
    };
    format!("rsync://{host}/{}", PATHS[i])
}

pub fn content(id: u8, variant: u8) -> Vec<u8> {
    let len = match variant {
        255 if id % 4 == 0 => 1_200_000,
        v if v >= 250 => 70_000 + v as usize,
        v if v >= 240 => 9000,
        239 => 0,
        v => 1 + (v as usize * 37) % 300,
    };
    let mut x = sha(&[id, variant]);
    let mut v = Vec::with_capacity(len + 32);
    while v.len() < len {
        v.extend_from_slice(&x);
        x = sha(&x);
    }
    v.truncate(len);
    v
}

//------------ Engine ------------------------------------------------------

#[derive(Clone, Debug)]
struct Track {
    hash: [u8; 32],
    left_at: Option<i64>,
    left_run_end: Option<i64>,
}

#[derive(Clone, Debug)]
struct RTrack {
    left_at: Option<i64>,
    left_run_end: Option<i64>,
    expect: BTreeMap<String, Vec<u8>>,
}

#[derive(Clone, Debug, Default)]
struct PubMon {
    base: String,
    ever: bool,
    last: Option<View>,
    /// What was found here, incomplete, when the configuration came back
    /// to this place: files may well be cleaned up after the configuration
    /// led elsewhere. Tolerated until it is replaced.
    stale: Option<Vec<u8>>,
}

pub struct RunInfo {
    pub out: Out,
    pub pub0: Option<View>,
    pub pub1: Option<View>,
    pub fault_hit: bool,
    pub gates: usize,
    pub reads: Vec<String>,
    pub start: i64,
}

impl RunInfo {
    /// A new version was published.
    pub fn published(&self) -> bool {
        match (&self.pub0, &self.pub1) {
            (None, Some(_)) => true,
            (Some(a), Some(b)) => (&a.session, a.serial) != (&b.session, b.serial),
            _ => false,
        }
    }
}

pub struct Engine {
    pub want: &'static str,
    pub root: PathBuf,
    pub cfg: Cfg,
    pub rrdp_n: u8,
    pub rsync_n: u8,
    pub src: Source,
    pub now: i64,
    mons: HashMap<(PathBuf, String), PubMon>,
    good_layout: Option<BTreeMap<String, Vec<u8>>>,
    before_run: bool,
    last_place: Option<(PathBuf, String)>,
    tracks: BTreeMap<PathBuf, Track>,
    rtracks: BTreeMap<PathBuf, RTrack>,
    rsync_ever: BTreeSet<PathBuf>,
    pub interrupted: bool,
    pub dirty: bool,
    pub reconfigured: bool,
    /// (session, serial) at the last fully successful publication.
    pub synced: Option<(String, u64)>,
    /// Objects are on several hosts. No two ever share a path.
    multi: bool,
    /// The saved rsync state was lost and nothing published since.
    lost: bool,
    foreign: Vec<(PathBuf, Vec<u8>)>,
    viol: Option<String>,
    rdirty: bool,
    sdirty: bool,
    // C19
    placed: HashMap<String, i64>,
    notified: Option<i64>,
    pub extra_args: Vec<OsString>,
    pub uri_arg: Option<OsString>,
    pub reads_on: bool,
    pub tls_port: Option<u16>,
    pub env: Vec<(String, String)>,
    pub insecure: bool,
    pub mapping: bool,
    pub source_base: Option<String>,
    // counters for the note
    pub n_runs: usize,
    pub n_published: usize,
}

pub fn case_dir(t: usize) -> PathBuf {
    let d = proc::env().data.join(format!("t{t}"));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("w")).unwrap();
    own(&d.join("w"));
    d
}

pub fn own(p: &Path) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { libc::chown(c.as_ptr(), proc::UID, proc::UID) };
}

pub const BASES: &[&str] = &["https://pub.example/rrdp/", "https://pub.example/", "https://rrdp.other.example:8443/a/b~c/"];
pub const NAMES: &[&str] = &["notification.xml", "n", "notify;v=1.xml"];

impl Engine {
    pub fn new(want: &'static str, h: &Hist, thread: usize) -> Engine {
        let root = case_dir(thread);
        let multi = h.cfg.include_host;
        let objs = h.objects.iter().map(|(i, v)| (object_uri(*i, multi), content(*i, *v))).collect();
        let base = BASES[(h.cfg.notif / 3) as usize % BASES.len()];
        let name = NAMES[h.cfg.notif as usize % NAMES.len()];
        let src = Source::new(base, name, h.cfg.style, h.serial, objs);
        Self::with_source(want, h.cfg.clone(), src, root)
    }

    pub fn with_source(want: &'static str, cfg: Cfg, src: Source, root: PathBuf) -> Engine {
        let mut e = Engine {
            want,
            root,
            multi: cfg.include_host,
            lost: false,
            cfg,
            rrdp_n: 0,
            rsync_n: 0,
            src,
            now: T0,
            mons: HashMap::new(),
            good_layout: None,
            before_run: false,
            last_place: None,
            tracks: BTreeMap::new(),
            rtracks: BTreeMap::new(),
            rsync_ever: BTreeSet::new(),
            interrupted: false,
            dirty: false,
            reconfigured: false,
            synced: None,
            foreign: vec![],
            viol: None,
            rdirty: true,
            sdirty: true,
            placed: HashMap::new(),
            notified: None,
            uri_arg: None,
            extra_args: vec![],
            reads_on: false,
            tls_port: None,
            env: vec![],
            insecure: false,
            mapping: true,
            source_base: None,
            n_runs: 0,
            n_published: 0,
        };
        if e.umask() != 0o022 {
            e.env.push(("KS_UMASK".into(), format!("{:03o}", e.umask())));
        }
        if e.cfg.foreign {
            for (p, b) in [("robots.txt", "keep"), ("other/sub/file.xml", "keep too")] {
                e.foreign.push((e.rrdp_dir().join(p), b.into()));
            }
            for (p, b) in [("README", "keep"), ("session_manual/file", "keep too")] {
                e.foreign.push((e.rsync_dir().join(p), b.into()));
            }
            for (p, b) in &e.foreign {
                fsx::write(p, b);
            }
            for d in [e.rrdp_dir(), e.rsync_dir(), e.rrdp_dir().join("other"), e.rrdp_dir().join("other/sub"), e.rsync_dir().join("session_manual")] {
                own(&d);
            }
        }
        e
    }

    pub fn umask(&self) -> u32 {
        [0o022, 0o002, 0o027, 0o077, 0][self.cfg.umask as usize % 5]
    }

    /// Other users have the access to it that the umask leaves them.
    fn check_mode(&self, p: &Path) -> Result<(), String> {
        use std::os::unix::fs::PermissionsExt;
        let m = match std::fs::symlink_metadata(p) {
            Ok(m) if m.is_symlink() => return Ok(()),
            Ok(m) => m,
            Err(_) => return Ok(()), // that is for others to judge
        };
        let mode = m.permissions().mode() & 0o7777;
        let umask = self.umask();
        let want = if m.is_dir() { 0o555 } else { 0o444 } & !umask;
        if mode & want != want {
            return Err(format!("{} has mode {mode:03o} (umask {umask:03o}): servers cannot read it", self.rel(p)));
        }
        if mode & 0o222 & umask != 0 {
            return Err(format!("{} has mode {mode:03o} (umask {umask:03o}): others may change it", self.rel(p)));
        }
        Ok(())
    }

    /// Everything a relying party needs from the RRDP directory.
    fn check_modes_rrdp(&self, v: &View) -> Result<(), String> {
        let dir = self.rrdp_dir();
        let mut l = vec![dir.join(&self.src.notif)];
        l.extend(v.listed().filter_map(|l| l.uri.strip_prefix(&self.src.base).map(|r| dir.join(r))));
        let mut seen = BTreeSet::new();
        for p in l {
            let mut p = p.as_path();
            while p.starts_with(&dir) && seen.insert(p.to_path_buf()) {
                self.check_mode(p)?;
                match p.parent() {
                    Some(q) => p = q,
                    None => break,
                }
            }
        }
        Ok(())
    }

    fn check_modes_rsync(&self) -> Result<(), String> {
        let dir = self.rsync_dir();
        let cur = match std::fs::canonicalize(dir.join("current")) {
            Ok(c) => c,
            Err(_) => return Ok(()),
        };
        self.check_mode(&dir)?;
        self.check_mode(&cur)?;
        for p in fsx::tree(&cur).keys() {
            self.check_mode(&cur.join(p))?;
        }
        Ok(())
    }

    pub fn w(&self, p: &str) -> bool {
        self.want == p
    }
    pub fn rrdp_dir(&self) -> PathBuf {
        self.root.join(format!("w/rrdp{}", self.rrdp_n))
    }
    pub fn rsync_dir(&self) -> PathBuf {
        self.root.join(format!("w/rsync{}", self.rsync_n))
    }
    pub fn state_dir(&self) -> PathBuf {
        self.root.join("w/state")
    }
    pub fn src_dir(&self) -> PathBuf {
        self.root.join("src")
    }

    pub fn args(&self) -> Vec<OsString> {
        let mut a: Vec<OsString> = vec![];
        let mut o = |k: &str, v: OsString| {
            a.push(k.into());
            a.push(v);
        };
        o("--state-dir", self.state_dir().into());
        o("--rrdp-dir", self.rrdp_dir().into());
        o("--rsync-dir", self.rsync_dir().into());
        // 3600 is the documented default.
        if self.cfg.cleanup != 3600 || self.cfg.verb & 4 != 0 {
            o("--cleanup-after", self.cfg.cleanup.to_string().into());
        }
        if self.cfg.delay > 0 {
            o("--rrdp-notify-delay", self.cfg.delay.to_string().into());
        }
        if let Some(n) = self.cfg.max_deltas {
            o("--rrdp-max-deltas", n.to_string().into());
        }
        match &self.source_base {
            Some(b) => o("--source-uri-base", b.into()),
            None if self.mapping => o("--source-uri-base", format!("{}/", self.src_dir().display()).into()),
            None => {}
        }
        if !self.cfg.rsync {
            a.push("--rsync-disable".into());
        }
        if self.cfg.include_host {
            a.push("--rsync-include-host".into());
        }
        if self.insecure {
            a.push("--insecure".into());
        }
        match self.cfg.verb & 3 {
            1 => a.push("-v".into()),
            2 => a.push("-vv".into()),
            3 => a.push("-q".into()),
            _ => {}
        }
        for x in &self.extra_args {
            // An option given here replaces the one from above.
            if let Some((name, _)) = x.to_str().and_then(|x| x.split_once('=')).filter(|x| x.0.starts_with("--")) {
                while let Some(i) = a.iter().position(|a| a.to_str() == Some(name)) {
                    a.drain(i..i + 2);
                }
            }
            a.push(x.clone());
        }
        a.push("--".into());
        a.push(self.uri_arg.clone().unwrap_or_else(|| self.src.notification_uri().into()));
        a
    }

    fn fail(&mut self, prop: &str, msg: String) {
        if self.want == prop && self.viol.is_none() {
            self.viol = Some(msg);
        }
    }

    pub fn view(&self) -> Option<View> {
        view(&self.rrdp_dir(), &self.src.notif).ok().flatten()
    }

    /// Layouts of all versions the source ever had.
    fn known_layouts(&self) -> Vec<(String, u64, BTreeMap<String, Vec<u8>>)> {
        let mut v = vec![];
        for s in &self.src.sessions {
            for x in &s.vers {
                for host in [false, true] {
                    if host == self.cfg.include_host || self.reconfigured {
                        v.push((s.id.to_string(), x.serial, rsync_layout(&x.objects, host)));
                    }
                }
            }
        }
        v
    }

    /// Looks at the public directories; `now` is the current virtual time.
    fn observe(&mut self, now: i64) {
        if self.rdirty {
            self.rdirty = false;
            self.observe_rrdp(now);
        }
        if self.sdirty && self.cfg.rsync {
            self.sdirty = false;
            if matches!(self.want, "C04" | "C05" | "C06" | "C22" | "C25") {
                self.observe_rsync(now);
            }
        }
    }

    fn observe_rrdp(&mut self, now: i64) {
        let dir = self.rrdp_dir();
        let name = self.src.notif.clone();
        let base = self.src.base.clone();
        let key = (dir.clone(), name.clone());
        let mut mon = self.mons.remove(&key).unwrap_or_default();
        if mon.base.is_empty() {
            mon.base = base.clone();
        }
        match view(&dir, &name) {
            Err(e) => {
                self.fail("C01", format!("public notification is broken: {e}"));
                self.fail("C10", format!("public notification is broken: {e}"));
            }
            Ok(None) => {
                if mon.ever {
                    self.fail("C01", "public notification is gone".into());
                }
            }
            Ok(Some(v)) => {
                if mon.last.as_ref().map(|l| l.raw != v.raw).unwrap_or(true) {
                    self.notified.get_or_insert(now);
                    mon.base = base.clone();
                }
                let base = mon.base.clone();
                mon.ever = true;
                if let Err(e) = v.check_files(&dir, &base) {
                    self.fail("C01", format!("serial {} is public but {e}", v.serial));
                    if self.want == "C22" && self.before_run && self.last_place.as_ref() != Some(&key) {
                        mon.stale = Some(v.raw.clone());
                    }
                    if self.want == "C22" && mon.stale.as_ref() != Some(&v.raw) {
                        self.fail("C22", format!("serial {} is public but {e}", v.serial));
                    }
                }
                if matches!(self.want, "C05" | "C06") {
                    let listed: HashMap<PathBuf, [u8; 32]> =
                        v.listed().filter_map(|l| l.uri.strip_prefix(&base).map(|r| (dir.join(r), l.hash))).collect();
                    for (p, t) in self.tracks.iter_mut() {
                        if p.starts_with(&dir) && !listed.contains_key(p) && t.left_at.is_none() {
                            t.left_at = Some(now);
                        }
                    }
                    for (p, h) in listed {
                        self.tracks.insert(p, Track { hash: h, left_at: None, left_run_end: None });
                    }
                }
                mon.last = Some(v);
            }
        }
        if self.want == "C25" {
            if let Some(v) = mon.last.clone() {
                if let Err(m) = self.check_modes_rrdp(&v) {
                    self.fail("C25", m);
                }
            }
        }
        self.mons.insert(key, mon);
        if self.want == "C05" {
            let cleanup = self.cfg.cleanup as i64;
            let mut bad = None;
            for (p, t) in &self.tracks {
                if let Some(l) = t.left_at {
                    if now - l < cleanup {
                        match std::fs::read(p) {
                            Err(_) => bad = Some(format!("{} was removed {}s after it left the notification (clean-up period {cleanup}s)", self.rel(p), now - l)),
                            Ok(b) if sha(&b) != t.hash => bad = Some(format!("{} changed after it left the notification", self.rel(p))),
                            _ => {}
                        }
                    }
                }
            }
            if let Some(b) = bad {
                self.fail("C05", b);
            }
        }
        if self.want == "C19" {
            let mut fs: Vec<&FileRef> = vec![&self.src.ver().snap];
            fs.extend(self.src.deltas().into_iter().map(|d| d.1));
            let mut new = vec![];
            for f in fs {
                if !self.placed.contains_key(&f.rel) {
                    if let Ok(b) = std::fs::read(dir.join(&f.rel)) {
                        if sha(&b) == f.hash {
                            new.push(f.rel.clone());
                        }
                    }
                }
            }
            for r in new {
                self.placed.insert(r, now);
            }
        }
    }

    pub fn rel(&self, p: &Path) -> String {
        p.strip_prefix(self.root.join("w")).unwrap_or(p).display().to_string()
    }

    fn observe_rsync(&mut self, now: i64) {
        let dir = self.rsync_dir();
        let cur = dir.join("current");
        let target = std::fs::read_link(&cur).ok().map(|t| dir.join(t));
        let exists = cur.exists();
        if !exists {
            if self.rsync_ever.contains(&dir) {
                self.fail("C04", "rsync 'current' is gone or leads nowhere".into());
            }
        } else {
            self.rsync_ever.insert(dir.clone());
            let path = target.clone().unwrap_or(cur);
            match fsx::files(&path) {
                Err(e) => self.fail("C04", format!("rsync 'current': {e}")),
                Ok(f) => {
                    if self.good_layout.as_ref() == Some(&f) {
                        // A version, as before.
                    } else if self.known_layouts().iter().any(|(_, _, l)| *l == f) {
                        self.good_layout = Some(f.clone());
                    } else {
                        self.fail("C04", format!("rsync 'current' holds no complete source version: {} files: {:?}", f.len(), f.keys().take(8).collect::<Vec<_>>()));
                    }
                    if let Some(t) = target {
                        for (p, r) in self.rtracks.iter_mut() {
                            if p.starts_with(&dir) && *p != t && r.left_at.is_none() {
                                r.left_at = Some(now);
                            }
                        }
                        self.rtracks.insert(t, RTrack { left_at: None, left_run_end: None, expect: f });
                    }
                }
            }
        }
        if self.want == "C25" {
            if let Err(m) = self.check_modes_rsync() {
                self.fail("C25", m);
            }
        }
        if self.want == "C05" {
            let cleanup = self.cfg.cleanup as i64;
            let mut bad = None;
            for (p, t) in &self.rtracks {
                if let Some(l) = t.left_at {
                    if now - l < cleanup {
                        if !p.is_dir() {
                            bad = Some(format!("{} was removed {}s after it stopped being current (clean-up period {cleanup}s)", self.rel(p), now - l));
                        } else if fsx::files(p).map(|f| f != t.expect).unwrap_or(true) {
                            bad = Some(format!("{} changed after it stopped being current", self.rel(p)));
                        }
                    }
                }
            }
            if let Some(b) = bad {
                self.fail("C05", b);
            }
        }
    }

    /// One run of krill-sync. `gatef` may decide about any request first.
    pub fn exec(&mut self, fault: Option<&Fault>, tick: Option<(u16, u16)>, gatef: &mut dyn FnMut(&Ev, i64) -> Option<(Act, i64)>) -> Result<RunInfo, String> {
        let start = self.now;
        let pub0 = self.view();
        self.placed.clear();
        self.notified = None;
        let mut gates = 0usize;
        let mut fault_hit = false;
        let mut reads = vec![];
        self.rdirty = true;
        self.sdirty = true;
        self.before_run = true;
        self.observe(start);
        self.before_run = false;
        self.last_place = Some((self.rrdp_dir(), self.src.notif.clone()));
        self.notified = None;
        let args = self.args();
        let cwd = self.root.join("w");
        let root = self.root.clone();
        let spec = Spec { args, cwd: &cwd, root: &root, now: start, reads: self.reads_on, tls_port: self.tls_port, env: self.env.clone(), bin: None };
        let rrdp = format!("{}/", self.rrdp_dir().display());
        let rsync_dir = self.rsync_dir();
        let rsync = format!("{}/", rsync_dir.display());
        let mut linked = false;
        let state = format!("{}/", self.state_dir().display());
        let exdev = self.cfg.exdev;
        let mut short = false;
        let (mut opened, mut written) = (false, false);
        let out = proc::run(&spec, &mut |ev, now| {
            opened |= ev.op == b'O';
            written |= ev.op == b'w';
            // The instant before this operation is an observation point (and
            // what a kill here would leave behind).
            self.observe(now);
            if self.viol.is_some() {
                return (Act::Kill, 0);
            }
            if let Some(r) = gatef(ev, now) {
                return r;
            }
            if ev.op == b'r' {
                reads.push(ev.a.clone());
                return (Act::Go, 0);
            }
            if !ev.mutates() {
                return (Act::Go, 0);
            }
            let n = gates;
            gates += 1;
            for p in [&ev.a, &ev.b] {
                self.rdirty |= p.starts_with(&rrdp);
                if p.starts_with(&rsync) {
                    // What is done to a directory that is neither current nor
                    // being watched can only matter if there are hard links.
                    linked |= ev.op == b'L';
                    let first = p[rsync.len()..].split('/').next().unwrap_or("");
                    let dir = rsync_dir.join(first);
                    self.sdirty |= linked || first == "current" || self.rtracks.contains_key(&dir) || std::fs::read_link(rsync_dir.join("current")).map(|t| rsync_dir.join(t) == dir).unwrap_or(true);
                }
            }
            let add = match tick {
                Some((at, s)) if at as usize == n => s as i64,
                _ => 0,
            };
            if let Some(f) = fault {
                if n == f.at as usize || (n > f.at as usize && f.kind == Kind::Full && fault_hit) {
                    let act = match &f.kind {
                        Kind::Kill => Act::Kill,
                        Kind::PartialKill(p) => {
                            if ev.op == b'w' {
                                let len: i64 = ev.b.parse().unwrap_or(0);
                                Act::PartialKill((len * (*p as i64) / 256) as i32)
                            } else {
                                Act::Kill
                            }
                        }
                        Kind::Io(k) => {
                            if ev.op == b'w' && k % 2 == 1 {
                                let len: i64 = ev.b.parse().unwrap_or(0);
                                short = true;
                                Act::Short((len / 2) as i32)
                            } else {
                                Act::Err([libc::EIO, libc::ENOSPC, libc::EACCES, libc::EDQUOT][*k as usize % 4])
                            }
                        }
                        Kind::Full => {
                            if b"OwMSLR".contains(&ev.op) && !(ev.op == b'O' && !ev.c.contains('c')) {
                                Act::Err(libc::ENOSPC)
                            } else if n == f.at as usize {
                                // not an operation that needs space
                                fault_hit = true;
                                return (Act::Go, add);
                            } else {
                                return (Act::Go, add);
                            }
                        }
                    };
                    fault_hit = true;
                    return (act, add);
                }
                if short && ev.op == b'w' {
                    short = false;
                    return (Act::Err(libc::ENOSPC), add);
                }
            }
            if exdev && ev.op == b'R' && ev.a.starts_with(&state) && ev.b.starts_with(&rrdp) {
                return (Act::Err(libc::EXDEV), add);
            }
            (Act::Go, add)
        });
        if written && !opened {
            proc::harness_error("the shim saw a file written which it did not see opened");
        }
        self.now = out.now;
        self.n_runs += 1;
        self.rdirty = true;
        self.sdirty = true;
        self.observe(self.now);
        let end = self.now;
        for t in self.tracks.values_mut() {
            if t.left_at.is_some() && t.left_run_end.is_none() {
                t.left_run_end = Some(end);
            }
        }
        for t in self.rtracks.values_mut() {
            if t.left_at.is_some() && t.left_run_end.is_none() {
                t.left_run_end = Some(end);
            }
        }
        if let Some(v) = self.viol.take() {
            return Err(v);
        }
        let pub1 = self.view();
        let info = RunInfo { out, pub0, pub1, fault_hit, gates, reads, start };
        if info.out.killed || (info.fault_hit && !info.out.ok()) {
            self.interrupted = true;
            self.dirty = true;
        }
        if info.published() && info.out.ok() {
            self.n_published += 1;
            self.lost = false;
        }
        Ok(info)
    }

    pub fn source_current(&self) -> (String, u64) {
        (self.src.sess().id.to_string(), self.src.ver().serial)
    }

    /// C02 as a relation between what was public before, the source's
    /// notification and what is public now.
    pub fn check_faithful(&self, info: &RunInfo) -> Result<(), String> {
        let v = match &info.pub1 {
            Some(v) => v,
            None => return Err("run succeeded but there is no (well-formed) public notification".into()),
        };
        let (id, serial) = self.source_current();
        if v.session != id || v.serial != serial {
            return Err(format!("run succeeded but public version is {} / {} and not the source's {} / {}", v.session, v.serial, id, serial));
        }
        let sv = self.src.ver();
        let want = format!("{}{}", self.src.base, sv.snap.rel);
        if v.snapshot.uri != want || v.snapshot.hash != sv.snap.hash {
            return Err(format!("public snapshot {} is not the source's {}", v.snapshot.uri, want));
        }
        let read = |rel: &str| std::fs::read(self.rrdp_dir().join(rel)).ok();
        if read(&sv.snap.rel).as_ref() != Some(&sv.snap.bytes) {
            return Err("public snapshot file differs from the source's".into());
        }
        if v.dup {
            return Err("public notification lists a delta twice".into());
        }
        let l: BTreeMap<u64, &FileRef> = self.src.deltas().into_iter().collect();
        for (s, d) in &v.deltas {
            match l.get(s) {
                None => return Err(format!("public notification lists delta {s}, which the source does not list")),
                Some(f) => {
                    if d.uri != format!("{}{}", self.src.base, f.rel) || d.hash != f.hash {
                        return Err(format!("public delta {s} ({}) is not the source's ({}{})", d.uri, self.src.base, f.rel));
                    }
                    if read(&f.rel).as_ref() != Some(&f.bytes) {
                        return Err(format!("public file of delta {s} differs from the source's"));
                    }
                }
            }
        }
        let ks: Vec<u64> = v.deltas.keys().copied().collect();
        if ks.windows(2).any(|w| w[0] + 1 != w[1]) {
            return Err(format!("public delta list has gaps: {ks:?}"));
        }
        let max = self.cfg.max_deltas.map(|m| m as usize).unwrap_or(usize::MAX);
        if ks.len() > max {
            return Err(format!("{} deltas are public, maximum is {max}", ks.len()));
        }
        let within: Vec<u64> = l.keys().copied().rev().take(max).collect();
        let same = info.pub0.as_ref().filter(|p| p.session == v.session);
        for s in within {
            let new = same.map(|p| p.serial < s).unwrap_or(true);
            if new && !ks.contains(&s) {
                return Err(format!("new delta {s} is missing from the public list {ks:?}"));
            }
            if let Some(p) = same {
                if p.deltas.contains_key(&s) && !ks.contains(&s) {
                    return Err(format!("delta {s} was dropped from the public list {ks:?} although the source still lists it"));
                }
            }
        }
        Ok(())
    }

    pub fn check_rsync_equals(&self, objs: &Objects) -> Result<(), String> {
        let cur = self.rsync_dir().join("current");
        if !cur.is_dir() {
            return Err("rsync 'current' does not lead to a directory".into());
        }
        let path = std::fs::canonicalize(&cur).map_err(|e| e.to_string())?;
        let f = fsx::files(&path).map_err(|e| format!("rsync 'current': {e}"))?;
        let want = rsync_layout(objs, self.cfg.include_host);
        for (p, b) in &want {
            match f.get(p) {
                None => return Err(format!("object {p} is missing from rsync 'current'")),
                Some(x) if x != b => return Err(format!("object {p} in rsync 'current' has other content ({} instead of {} bytes)", x.len(), b.len())),
                _ => {}
            }
        }
        for p in f.keys() {
            if !want.contains_key(p) {
                return Err(format!("rsync 'current' holds {p}, which is not in the snapshot"));
            }
        }
        Ok(())
    }

    pub fn check_json(&self) -> Result<(), String> {
        for f in ["rrdp-state.json", "rsync-state.json"] {
            if f.starts_with("rsync") && !self.cfg.rsync {
                continue;
            }
            match std::fs::read(self.state_dir().join(f)) {
                Err(_) if f.starts_with("rsync") && self.lost => {}
                Err(e) => return Err(format!("saved state {f}: {e}")),
                Ok(b) => {
                    if let Err(e) = serde_json::from_slice::<serde_json::Value>(&b) {
                        return Err(format!("saved state {f} is not readable: {e}"));
                    }
                }
            }
        }
        Ok(())
    }

    /// Public trees and saved state (not lock file, staging area).
    pub fn capture(&self) -> (Tree, Tree, Tree) {
        let st = fsx::without(&fsx::tree(&self.state_dir()), |p| !p.ends_with(".json") || p.contains('/'));
        (fsx::tree(&self.rrdp_dir()), fsx::tree(&self.rsync_dir()), st)
    }

    pub fn check_inert(&self, before: &(Tree, Tree, Tree), meta: bool) -> Result<(), String> {
        let after = self.capture();
        for (n, a, b) in [("RRDP tree", &before.0, &after.0), ("rsync tree", &before.1, &after.1), ("saved state", &before.2, &after.2)] {
            if let Some(d) = fsx::diff(a, b, meta) {
                return Err(format!("{n}: {d}"));
            }
        }
        Ok(())
    }

    /// C06 after a publishing run.
    fn check_cleaned(&mut self, info: &RunInfo) -> Result<(), String> {
        let cleanup = self.cfg.cleanup as i64;
        for (p, t) in &self.tracks {
            if let (Some(e), Some(_)) = (t.left_run_end, t.left_at) {
                if e + cleanup <= info.start && p.exists() {
                    return Err(format!("{} is still there although it left the notification {}s ago (clean-up period {cleanup}s)", self.rel(p), self.now - t.left_at.unwrap()));
                }
            }
        }
        for (p, t) in &self.rtracks {
            if let (Some(e), Some(_)) = (t.left_run_end, t.left_at) {
                if e + cleanup <= info.start && p.exists() {
                    return Err(format!("{} is still there although it stopped being current {}s ago (clean-up period {cleanup}s)", self.rel(p), self.now - t.left_at.unwrap()));
                }
            }
        }
        let t = fsx::tree(&self.rrdp_dir());
        for (p, n) in &t {
            if *n == Node::Dir {
                let pre = format!("{p}/");
                if !t.range(pre.clone()..).next().is_some_and(|(k, _)| k.starts_with(&pre)) {
                    return Err(format!("empty directory {p} was left in the RRDP tree"));
                }
            }
        }
        // Files krill-sync has put into the RRDP tree and that are neither
        // published nor within their clean-up period.
        for (p, n) in &t {
            if let Node::File { .. } = n {
                let abs = self.rrdp_dir().join(p);
                if *p == self.src.notif || self.foreign.iter().any(|f| f.0 == abs) || self.tracks.contains_key(&abs) {
                    continue;
                }
                return Err(format!("{p} is in the RRDP tree but was never published"));
            }
        }
        Ok(())
    }

    fn check_foreign(&self) -> Result<(), String> {
        for (p, b) in &self.foreign {
            match std::fs::read(p) {
                Ok(x) if x == *b => {}
                _ => return Err(format!("{}, which krill-sync did not put there, was removed or changed", self.rel(p))),
            }
        }
        Ok(())
    }

    /// Performs a step that is no run.
    pub fn apply(&mut self, s: &Step) {
        match s {
            Step::Publish(ch) => {
                let mut o = self.src.ver().objects.clone();
                let multi = self.multi;
                for (i, v) in ch {
                    let u = object_uri(*i, multi);
                    match v {
                        Some(v) => {
                            o.insert(u, content(*i, *v));
                        }
                        None => {
                            o.remove(&u);
                        }
                    }
                }
                self.src.publish(o);
            }
            Step::Many(n) => {
                for k in 0..*n {
                    let mut o = self.src.ver().objects.clone();
                    o.insert(object_uri(k, self.multi), content(k, k.wrapping_add(*n)));
                    self.src.publish(o);
                }
            }
            Step::Bulk(n) => {
                let mut o = self.src.ver().objects.clone();
                o.retain(|u, _| !u.contains("/bulk/"));
                for k in 0..*n {
                    o.insert(format!("rsync://pub.example/repo/bulk/{k}.roa"), content(k, k.wrapping_add(*n) % 200));
                }
                self.src.publish(o);
            }
            Step::NewSession { serial, keep } => {
                let o = if *keep { self.src.ver().objects.clone() } else { Objects::new() };
                self.src.new_session(*serial, o);
            }
            Step::Flip(n) => self.src.flip(*n as usize),
            Step::Rollback(n) => self.src.rollback(*n as usize),
            Step::Window(n) => self.src.window = *n as usize,
            Step::Tick(n) => self.now += *n as i64,
            Step::Back(n) => self.now -= *n as i64,
            Step::Lose(n) => {
                let d = self.state_dir();
                if n % 4 != 1 {
                    let _ = std::fs::remove_file(d.join("rrdp-state.json"));
                    self.synced = None;
                }
                if n % 4 != 0 {
                    self.lost = true;
                    let _ = std::fs::remove_file(d.join("rsync-state.json"));
                }
                if n % 4 == 3 {
                    let _ = std::fs::remove_dir_all(&d);
                }
            }
            Step::Fmt(f) => self.src.fmt = Fmt(*f),
            Step::Recfg(r) => {
                self.reconfigured = true;
                if let Some(n) = r.rrdp {
                    self.rrdp_n = n % 2;
                }
                if let Some(n) = r.rsync {
                    self.rsync_n = n % 2;
                }
                if let Some(n) = r.name {
                    self.src.notif = NAMES[n as usize % NAMES.len()].into();
                }
                if let Some(n) = r.base {
                    self.src.base = BASES[n as usize % BASES.len()].into();
                }
                if let Some(b) = r.include_host {
                    self.cfg.include_host = b;
                }
                if let Some(b) = r.rsync_on {
                    self.cfg.rsync = b;
                }
                if let Some(m) = r.max_deltas {
                    self.cfg.max_deltas = m;
                }
                if let Some(c) = r.cleanup {
                    self.cfg.cleanup = c;
                }
            }
            Step::Run { .. } | Step::BadRun(_) => unreachable!(),
        }
    }

    pub fn none(_: &Ev, _: i64) -> Option<(Act, i64)> {
        None
    }

    /// A run with all the after-run oracles of the wanted property.
    pub fn run_step(&mut self, fault: Option<&Fault>, tick: Option<(u16, u16)>, note: &mut Note) -> Result<RunInfo, String> {
        self.src.write(&self.src_dir(), self.cfg.purge);
        let (id, serial) = self.source_current();
        let unchanged = !self.dirty && self.synced.as_ref() == Some(&(id.clone(), serial));
        let lower = !self.dirty && self.synced.as_ref().map(|(i, s)| *i == id && *s > serial).unwrap_or(false);
        let need_capture = (self.w("C08") && unchanged) || (self.w("C07") && lower);
        let before = if need_capture { Some(self.capture()) } else { None };
        self.reads_on = self.w("C08") && unchanged;
        let info = self.exec(fault, tick, &mut Self::none)?;
        let ok = info.out.ok();
        if info.fault_hit {
            note.class(match &fault.unwrap().kind {
                Kind::Kill => "fault:kill",
                Kind::PartialKill(_) => "fault:partial-kill",
                Kind::Io(_) => "fault:io",
                Kind::Full => "fault:disk-full",
            });
        }
        note.class(match (ok, info.published()) {
            (true, true) => "run:published",
            (true, false) => "run:nothing-new",
            (false, _) if info.out.killed => "run:killed",
            _ => "run:error",
        });

        if self.w("C07") && lower {
            note.nontrivial("serial-rollback");
            if ok {
                return Err(format!("source went back from serial {} to {serial} in the same session, but the run succeeded", self.synced.as_ref().unwrap().1));
            }
            self.check_inert(before.as_ref().unwrap(), true).map_err(|e| format!("serial rollback was refused, but {e}"))?;
        }
        if self.w("C07") && !self.interrupted {
            if let (Some(a), Some(b)) = (&info.pub0, &info.pub1) {
                if a.session == b.session && b.serial < a.serial {
                    return Err(format!("public serial went back from {} to {}", a.serial, b.serial));
                }
            }
            if fault.is_none() && !lower && !ok {
                return Err(format!("source at {serial} (last published {:?}), but the run failed: {}", self.synced, info.out.show()));
            }
            if ok && fault.is_none() && info.published() {
                if let Err(e) = self.check_faithful(&info) {
                    return Err(format!("synchronisation did not resume normally: {e}"));
                }
            }
        }
        if self.w("C08") && unchanged && fault.is_none() {
            note.nontrivial("no-change-run");
            if !ok {
                return Err(format!("run without source changes failed: {}", info.out.show()));
            }
            self.check_inert(before.as_ref().unwrap(), true).map_err(|e| format!("run without source changes: {e}"))?;
            if info.out.slept + info.out.slept_ns != 0 {
                return Err("run without source changes waited".into());
            }
            let src = self.src_dir();
            for r in &info.reads {
                if let Ok(rel) = Path::new(r).strip_prefix(&src) {
                    if rel != Path::new(&self.src.notif) {
                        return Err(format!("run without source changes fetched {}", rel.display()));
                    }
                }
            }
        }
        if ok && self.w("C02") && !lower {
            if info.published() {
                note.nontrivial("published");
                if info.pub0.as_ref().zip(info.pub1.as_ref()).is_some_and(|(a, b)| a.session != b.session) {
                    note.class("session-change");
                }
                if info.pub1.as_ref().is_some_and(|v| !v.deltas.is_empty()) {
                    note.class("with-deltas");
                }
                self.check_faithful(&info)?;
            } else if !self.dirty {
                // Nothing new: still the source's version.
                if let Some(v) = &info.pub1 {
                    if (v.session.clone(), v.serial) != (id.clone(), serial) {
                        return Err(format!("run succeeded but public version is {}/{}, the source's is {id}/{serial}", v.session, v.serial));
                    }
                }
            }
        }
        if self.w("C02") && fault.is_none() && !ok && !lower && !self.interrupted {
            return Err(format!("source is in order, but the run failed: {}", info.out.show()));
        }
        if ok && self.w("C03") && self.cfg.rsync && info.pub1.is_some() && !self.dirty {
            let v = info.pub1.as_ref().unwrap();
            let ver = self.src.find(&v.session, v.serial).cloned();
            if let Some(ver) = ver {
                if info.published() {
                    note.nontrivial("rsync-published");
                    if ver.objects.is_empty() {
                        note.class("empty-snapshot");
                    }
                    if self.cfg.include_host {
                        note.class("host-layout");
                    }
                }
                self.check_rsync_equals(&ver.objects)?;
            }
        }
        if self.w("C03") && fault.is_none() && !ok && !lower && !self.interrupted {
            return Err(format!("source is in order, but the run failed: {}", info.out.show()));
        }
        if self.w("C06") {
            self.check_foreign()?;
            if ok && info.published() && !self.interrupted {
                let due = self.tracks.values().any(|t| t.left_run_end.is_some_and(|e| e + self.cfg.cleanup as i64 <= info.start))
                    || self.rtracks.values().any(|t| t.left_run_end.is_some_and(|e| e + self.cfg.cleanup as i64 <= info.start));
                if due {
                    note.nontrivial("clean-up-due");
                }
                self.check_cleaned(&info)?;
                if let Some(v) = &info.pub1 {
                    v.check_files(&self.rrdp_dir(), &self.src.base).map_err(|e| format!("clean-up removed too much: {e}"))?;
                }
                if self.cfg.rsync && !self.rsync_dir().join("current").exists() {
                    return Err("clean-up removed the current rsync directory".into());
                }
                // forget what is gone
                self.tracks.retain(|p, _| p.exists());
                self.rtracks.retain(|p, _| p.exists());
            }
        }
        if self.w("C10") && fault.is_none() && self.dirty && !lower {
            note.nontrivial("recovery-run");
            if !ok {
                return Err(format!("the run after an interrupted one failed: {}", info.out.show()));
            }
            self.check_faithful(&info).map_err(|e| format!("after recovery: {e}"))?;
            if let Some(v) = &info.pub1 {
                v.check_files(&self.rrdp_dir(), &self.src.base).map_err(|e| format!("after recovery: {e}"))?;
            }
            if self.cfg.rsync {
                self.check_rsync_equals(&self.src.ver().objects.clone()).map_err(|e| format!("after recovery: {e}"))?;
            }
            self.check_json().map_err(|e| format!("after recovery: {e}"))?;
        }
        if self.w("C19") && self.cfg.delay > 0 {
            if info.published() && info.pub1.is_some() {
                let v = info.pub1.as_ref().unwrap();
                let base = self.src.base.clone();
                let old = info.pub0.as_ref().map(|p| p.rels(&base)).unwrap_or_default();
                let last = v.rels(&base).into_iter().filter(|r| !old.contains(r)).filter_map(|r| self.placed.get(&r).copied()).max();
                if let (Some(l), Some(n)) = (last, self.notified) {
                    note.nontrivial("delayed-publication");
                    if n - l < self.cfg.delay as i64 {
                        return Err(format!("the notification was replaced {}s after the last new file was in place, the delay is {}s", n - l, self.cfg.delay));
                    }
                }
            }
            if unchanged && fault.is_none() {
                note.class("no-change-run");
                if info.out.slept + info.out.slept_ns != 0 {
                    return Err("a run without changes waited".into());
                }
            }
        }
        if self.w("C22") && ok {
            note.class("run-after-reconfiguration");
            if self.reconfigured {
                note.nontrivial = true;
            }
            match view(&self.rrdp_dir(), &self.src.notif) {
                Err(e) => return Err(format!("run succeeded, but the configured notification is broken: {e}")),
                Ok(None) => return Err("run succeeded, but there is no notification at the configured place".into()),
                Ok(Some(v)) => {
                    v.check_files(&self.rrdp_dir(), &self.src.base).map_err(|e| format!("run succeeded, but {e}"))?;
                    if (v.session.clone(), v.serial) != (id.clone(), serial) && !self.dirty {
                        return Err(format!("run succeeded, but the configured notification is for {}/{} and not {id}/{serial}", v.session, v.serial));
                    }
                    if self.cfg.rsync && info.published() {
                        if let Some(x) = self.src.find(&v.session, v.serial) {
                            self.check_rsync_equals(&x.objects.clone())?;
                        }
                    }
                }
            }
            // Earlier places: unchanged or consistent.
            for ((d, n), m) in &self.mons {
                if (d, n) == (&self.rrdp_dir(), &self.src.notif) {
                    continue;
                }
                if let (Ok(Some(v)), Some(l)) = (view(d, n), &m.last) {
                    if v.raw != l.raw {
                        v.check_files(d, &m.base).map_err(|e| format!("an earlier notification was rewritten: {e}"))?;
                    }
                }
            }
        }
        if self.w("C22") && !ok && fault.is_none() && !lower && !self.interrupted {
            return Err(format!("source is in order, but the run failed after a configuration change: {}", info.out.show()));
        }
        if ok {
            self.synced = Some((id, serial));
            self.dirty = false;
        }
        if info.out.crashed() && self.w("C20") {
            return Err(format!("run crashed: {}", info.out.show()));
        }
        Ok(info)
    }

    /// Damages what the source offers (already written to disk). Returns a
    /// description, or None if the damage does not concern what the next run
    /// needs.
    pub fn damage(&mut self, bad: &Bad) -> Option<String> {
        let dir = self.src_dir();
        let sess = self.src.sess().id;
        let ver = self.src.ver().clone();
        let base = self.src.base.clone();
        let list: Vec<(u64, FileRef)> = self.src.deltas().into_iter().map(|(s, f)| (s, f.clone())).collect();
        let update = self.synced.as_ref() != Some(&(sess.to_string(), ver.serial));
        let needed = self.needed_deltas();
        let pick = |n: u8| {
            if needed.is_empty() {
                None
            } else {
                let s = needed[n as usize % needed.len()];
                list.iter().find(|d| d.0 == s).cloned()
            }
        };
        // Rewrites the notification with one URI or hash replaced.
        let fmt = self.src.fmt;
        let notif = dir.join(&self.src.notif);
        let rewrite = |snap: (String, [u8; 32]), f: &dyn Fn(u64, &FileRef) -> Option<(String, [u8; 32])>| {
            let ds: Vec<_> = list.iter().filter_map(|(s, d)| f(*s, d).map(|(u, h)| (*s, u, h))).collect();
            fsx::write(&notif, &notification_xml(&sess, ver.serial, &snap.0, &snap.1, &ds, fmt));
        };
        let snap = (format!("{base}{}", ver.snap.rel), ver.snap.hash);
        let plain = |_: u64, d: &FileRef| Some((format!("{base}{}", d.rel), d.hash));
        let wrong = |k: u8, bytes: &[u8], what: &str| -> Vec<u8> {
            let plain = snapshot_xml(&sess, ver.serial, &ver.objects, 0);
            let t = String::from_utf8_lossy(if what == "snapshot" { &plain } else { bytes }).to_string();
            let ser = format!("serial=\"{}\"", if what == "snapshot" { ver.serial } else { 0 });
            match k % 7 {
                0 => t.replace(&sess.to_string(), "00000000-0000-4000-8000-000000000001").into_bytes(),
                1 => {
                    // another serial
                    let i = t.find("serial=\"").unwrap() + 8;
                    let j = i + t[i..].find('"').unwrap();
                    let n: u64 = t[i..j].parse().unwrap();
                    let m = if k / 7 % 2 == 0 { n.wrapping_add(1) } else { n.saturating_sub(1).max(1) };
                    let m = if m == n { n + 2 } else { m };
                    format!("{}{m}{}", &t[..i], &t[j..]).into_bytes()
                }
                2 => t.as_bytes()[..t.rfind("</").unwrap()].to_vec(),
                3 => {
                    let (a, b) = if what == "snapshot" { ("<snapshot", "</snapshot") } else { ("<delta", "</delta") };
                    let (x, y) = if what == "snapshot" { ("<delta", "</delta") } else { ("<snapshot", "</snapshot") };
                    t.replace(a, x).replace(b, y).into_bytes()
                }
                4 => b"not a known format\n".to_vec(),
                5 => vec![],
                _ => {
                    let _ = ser;
                    let i = t.rfind("</").unwrap();
                    format!("{}<publish uri=\"rsync://pub.example/repo/q\">&&</publish>{}", &t[..i], &t[i..]).into_bytes()
                }
            }
        };
        let alter = |p: &Path, how: &How| {
            let mut b = std::fs::read(p).unwrap();
            match how {
                How::Flip(n) => {
                    let i = *n as usize % b.len();
                    b[i] ^= 1 + (*n >> 8) as u8 % 255;
                }
                How::Truncate(n) if n % 8 == 0 => b.truncate(b.len() - 1),
                How::Truncate(n) => b.truncate(*n as usize % b.len()),
                How::Append => b.push(b'\n'),
                How::Empty => b.clear(),
                How::Other => b = snapshot_xml(&sess, ver.serial.wrapping_add(1), &Objects::new(), 0),
            }
            fsx::write(p, &b);
        };
        let outside = |rel: &str, k: u8| {
            let cut = base.trim_end_matches('/');
            match k % 5 {
                0 => format!("https://elsewhere.example/{rel}"),
                1 => format!("{cut}x/{rel}"),
                2 => format!("{cut}.evil.example/{rel}"),
                3 => format!("http{}{rel}", base.strip_prefix("https").unwrap()),
                _ => {
                    let host = base.split('/').nth(2).unwrap();
                    if base == format!("https://{host}/") {
                        format!("https://{host}:444/{rel}")
                    } else {
                        format!("https://{host}/{rel}")
                    }
                }
            }
        };
        match bad {
            Bad::NotifMissing => {
                let _ = std::fs::remove_file(&notif);
                Some("notification missing".into())
            }
            Bad::NotifBroken(k) => {
                let t = self.src.notification();
                let st = String::from_utf8_lossy(&t).to_string();
                let b = match k % 8 {
                    0 => t[..t.len() * (*k as usize) / 300].to_vec(),
                    1 => {
                        let i = st.find("<notification").unwrap();
                        format!("{}{}", &st[..i], st[i..].replacen("version=", "versio=", 1)).into_bytes()
                    }
                    2 => st.replacen("version=\"1\"", "version=\"2\"", 1).replacen("version='1'", "version='2'", 1).into_bytes(),
                    3 => st.replacen("session_id=", "session=", 1).into_bytes(),
                    4 => st.replacen("<snapshot", "<snapshots", 1).into_bytes(),
                    5 => st.replace("<notification", "<Notification").into_bytes(),
                    6 => st.replacen("hash=", "hash=  x", 1).into_bytes(),
                    _ => b"<html><body>503</body></html>".to_vec(),
                };
                if b == t {
                    return None;
                }
                fsx::write(&notif, &b);
                Some(format!("notification broken ({})", k % 8))
            }
            Bad::Lower(n, deltas) => {
                let now = match &self.synced {
                    Some((i, s)) if *i == sess.to_string() => *s,
                    _ => return None,
                };
                let low = ((now as u128 * *n as u128) / 256).max(1) as u64;
                if low >= now {
                    return None;
                }
                let rel = format!("lower-{low}.xml");
                let b = snapshot_xml(&sess, low, &ver.objects, 0);
                fsx::write(&dir.join(&rel), &b);
                let ds: Vec<_> = if *deltas { list.iter().filter(|d| d.0 <= low).map(|(s, d)| (*s, format!("{base}{}", d.rel), d.hash)).collect() } else { vec![] };
                fsx::write(&notif, &notification_xml(&sess, low, &format!("{base}{rel}"), &sha(&b), &ds, fmt));
                Some(format!("same session at serial {low} instead of {now}"))
            }
            _ if !update => None,
            Bad::SnapMissing => {
                let _ = std::fs::remove_file(dir.join(&ver.snap.rel));
                Some("snapshot missing".into())
            }
            Bad::SnapAltered(how) => {
                alter(&dir.join(&ver.snap.rel), how);
                Some(format!("snapshot altered ({how:?})"))
            }
            Bad::DeltaMissing(n) => {
                let (s, f) = pick(*n)?;
                let _ = std::fs::remove_file(dir.join(f.rel));
                Some(format!("delta {s} missing"))
            }
            Bad::DeltaAltered(n, how) => {
                let (s, f) = pick(*n)?;
                alter(&dir.join(f.rel), how);
                Some(format!("delta {s} altered ({how:?})"))
            }
            Bad::Gap(n) => {
                if list.len() < 3 {
                    return None;
                }
                let gone = list[1 + *n as usize % (list.len() - 2)].0;
                let max = self.cfg.max_deltas.map(|m| m as usize).unwrap_or(usize::MAX);
                let kept: Vec<u64> = list.iter().map(|d| d.0).filter(|s| *s != gone).rev().take(max).collect();
                if kept.last().map(|l| *l > gone).unwrap_or(true) {
                    return None;
                }
                rewrite(snap, &|s, d| if s == gone { None } else { plain(s, d) });
                Some(format!("delta {gone} not listed"))
            }
            Bad::SnapOutside(k) => {
                rewrite((outside(&ver.snap.rel, *k), ver.snap.hash), &plain);
                Some(format!("snapshot at {}", outside(&ver.snap.rel, *k)))
            }
            Bad::DeltaOutside(n, k) => {
                let (s0, _) = pick(*n)?;
                rewrite(snap, &|s, d| if s == s0 { Some((outside(&d.rel, *k), d.hash)) } else { plain(s, d) });
                Some(format!("delta {s0} outside the base"))
            }
            Bad::SnapWrong(k) => {
                let b = wrong(*k, &ver.snap.bytes, "snapshot");
                if b == ver.snap.bytes {
                    return None;
                }
                fsx::write(&dir.join(&ver.snap.rel), &b);
                rewrite((snap.0, sha(&b)), &plain);
                Some(format!("snapshot with the right hash, but not for this version ({})", k % 7))
            }
            Bad::DeltaWrong(n, k) => {
                let (s0, f) = pick(*n)?;
                let b = wrong(*k, &f.bytes, "delta");
                if b == f.bytes {
                    return None;
                }
                fsx::write(&dir.join(&f.rel), &b);
                rewrite(snap, &|s, d| if s == s0 { Some((format!("{base}{}", d.rel), sha(&b))) } else { plain(s, d) });
                Some(format!("delta {s0} with the right hash, but not for this version ({})", k % 7))
            }
        }
    }

    /// A run against a damaged source, then one against the corrected source.
    pub fn bad_run(&mut self, bad: &Bad, note: &mut Note) -> Result<(), String> {
        let (id, serial) = self.source_current();
        if self.synced.as_ref().map(|(i, s)| *i == id && *s > serial).unwrap_or(false) {
            return Ok(());
        }
        self.src.write(&self.src_dir(), self.cfg.purge);
        let what = match self.damage(bad) {
            Some(w) => w,
            None => {
                note.class("bad:not-needed");
                return Ok(());
            }
        };
        note.nontrivial(format!("bad:{}", format!("{bad:?}").split('(').next().unwrap()));
        let before = self.capture();
        let info = self.exec(None, None, &mut Self::none)?;
        if info.out.ok() {
            return Err(format!("{what}, but the run succeeded"));
        }
        if info.out.crashed() {
            return Err(format!("{what}: run crashed: {}", info.out.show()));
        }
        self.check_inert(&before, true).map_err(|e| format!("{what}: the run failed, but {e}"))?;
        // The corrected source.
        self.src.write(&self.src_dir(), self.cfg.purge);
        let info = self.exec(None, None, &mut Self::none)?;
        let after = |e: String| format!("{what}; corrected afterwards, but {e}");
        if !info.out.ok() {
            return Err(after(format!("the run failed: {}", info.out.show())));
        }
        self.synced = Some((id, serial));
        if info.published() {
            self.check_faithful(&info).map_err(after)?;
            if self.cfg.rsync {
                self.check_rsync_equals(&self.src.ver().objects.clone()).map_err(after)?;
            }
        }
        Ok(())
    }

    pub fn needs_delta(&self, serial: u64) -> bool {
        // Will a run from the present state need this delta?
        let v = self.view();
        match v {
            Some(v) if v.session == self.src.sess().id.to_string() => match v.deltas.keys().last() {
                Some(m) => serial > *m,
                None => true,
            },
            _ => true,
        }
    }

    /// Deltas a run would have to fetch now, ascending.
    pub fn needed_deltas(&self) -> Vec<u64> {
        let max = self.cfg.max_deltas.map(|m| m as usize).unwrap_or(usize::MAX);
        let mut v: Vec<u64> = self.src.deltas().iter().map(|d| d.0).rev().take(max).collect();
        v.reverse();
        v.retain(|s| self.needs_delta(*s));
        v
    }
}

/// Plays a whole history.
pub fn play(want: &'static str, h: &Hist, t: usize, note: &mut Note) -> Result<(), String> {
    let mut e = Engine::new(want, h, t);
    for s in &h.steps {
        match s {
            Step::Run { fault, tick } => {
                e.run_step(fault.as_ref(), *tick, note)?;
            }
            Step::BadRun(b) => e.bad_run(b, note)?,
            s => e.apply(s),
        }
    }
    // What is common to all histories.
    match want {
        "C01" if e.n_published >= 2 => note.nontrivial("two-or-more-publications"),
        "C04" if e.n_published >= 2 => note.nontrivial("two-or-more-publications"),
        "C25" if e.n_published >= 1 => {
            note.nontrivial("published");
            note.class(format!("umask:{:03o}", e.umask()));
        }
        "C05" if e.tracks.values().any(|t| t.left_at.is_some()) => note.nontrivial("files-deprecated"),
        _ => {}
    }
    if e.interrupted {
        note.class("history:interrupted");
    }
    Ok(())
}

/// A short history whose last run is interrupted at each of its file-system
/// operations in turn, followed by what happens next and a last run.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sweep {
    pub hist: Hist,
    pub kind: Kind,
    pub between: Vec<Step>,
}

pub fn sweep(want: &'static str, s: &Sweep, t: usize, note: &mut Note) -> Result<(), String> {
    let mut k = 0u16;
    loop {
        let mut e = Engine::new(want, &s.hist, t);
        let mut n2 = Note::default();
        let n = s.hist.steps.len();
        let mut hit = false;
        for (i, st) in s.hist.steps.iter().chain(s.between.iter()).chain(std::iter::once(&Step::Run { fault: None, tick: None })).enumerate() {
            match st {
                Step::Run { tick, .. } => {
                    let f = if i == n - 1 { Some(Fault { at: k, kind: s.kind.clone() }) } else { None };
                    let info = e.run_step(f.as_ref(), *tick, &mut n2).map_err(|m| format!("interrupted at operation {k}: {m}"))?;
                    if i == n - 1 {
                        hit = info.fault_hit;
                    }
                }
                Step::BadRun(_) => {}
                st => e.apply(st),
            }
        }
        if !hit || k > 300 {
            break;
        }
        k += 1;
    }
    if k > 0 {
        note.nontrivial("every-operation-interrupted");
        note.class(match k {
            0..=15 => "operations:1-15",
            16..=30 => "operations:16-30",
            _ => "operations:31+",
        });
    }
    Ok(())
}
