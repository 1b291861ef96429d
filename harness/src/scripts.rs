//! Histories with pre-validation scripts, which record what they see.
use crate::explore::Note;
use crate::fsx;
use crate::hist::*;
use crate::model::*;
use crate::proc;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SCase {
    pub hist: Hist,
    pub reject: bool,
    pub scripts: u8,
    /// How the scripts behave in each run, in turn.
    pub outs: Vec<Vec<u8>>,
}

const OUTS: &[(&str, bool)] = &[
    ("exit 0", true),
    ("echo fine; exit 0", true),
    ("head -c 300000 /dev/zero | tr '\\0' x; head -c 300000 /dev/zero | tr '\\0' y >&2; exit 0", true),
    ("printf '\\377\\376'; printf '\\377' >&2; exit 0", true),
    ("exit 1", false),
    ("echo bad; echo worse >&2; exit 77", false),
    ("printf '\\377\\376'; printf '\\377' >&2; exit 255", false),
    ("kill -9 $$", false),
    ("cat; exit 0", true),
    ("kill -15 $$; sleep 1", false),
];

struct Scripts {
    dir: PathBuf,
    n: usize,
}

impl Scripts {
    fn new(e: &Engine, t: usize, n: usize) -> Scripts {
        let dir = proc::env().bindir.join(format!("scripts{t}"));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).unwrap();
        let log = e.root.join("log");
        for i in 0..n {
            let s = format!(
                "#!/bin/sh\nK=$(ls {log} | wc -l)\nD={log}/$(printf %03d $K)-{i}\nmkdir $D\n[ -d {st} ] && cp -a {st}/pre-validate-staging $D/staging\n[ -d {rr} ] && cp -a {rr} $D/rrdp\n[ -d {rs} ] && cp -a {rs} $D/rsync\nmkdir $D/state\ncp -a {st}/*.json $D/state/ 2>/dev/null\n. {dir}/ctl{i}\n",
                log = log.display(),
                st = e.state_dir().display(),
                rr = e.rrdp_dir().display(),
                rs = e.rsync_dir().display(),
                dir = dir.display()
            );
            let p = dir.join(format!("s{i}"));
            std::fs::write(&p, s).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        Scripts { dir, n }
    }

    fn paths(&self) -> Vec<PathBuf> {
        (0..self.n).map(|i| self.dir.join(format!("s{i}"))).collect()
    }

    /// Sets how they behave in the next run. Returns whether all succeed.
    fn set(&self, outs: &[u8]) -> bool {
        let mut ok = true;
        for i in 0..self.n {
            let (s, good) = OUTS[outs.get(i).copied().unwrap_or(0) as usize % OUTS.len()];
            std::fs::write(self.dir.join(format!("ctl{i}")), format!("{s}\n")).unwrap();
            ok &= good;
        }
        ok
    }
}

fn log_clear(e: &Engine) {
    let log = e.root.join("log");
    let _ = std::fs::remove_dir_all(&log);
    std::fs::create_dir_all(&log).unwrap();
    own(&log);
}

fn log_list(e: &Engine) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(e.root.join("log")).map(|d| d.flatten().map(|x| x.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn play(c: &SCase, t: usize, note: &mut Note) -> Result<(), String> {
    let mut e = Engine::new("C13", &c.hist, t);
    let n = c.scripts as usize % 4;
    let sc = Scripts::new(&e, t, n);
    let mut outs = c.outs.iter().cycle();
    let none = vec![];
    // Files may be staged already, so that a run does not need them.
    let mut staged = false;
    for p in sc.paths() {
        e.extra_args.push("--pre-validate".into());
        e.extra_args.push(p.into());
    }
    if c.reject {
        e.extra_args.push("--tal-reject-invalid".into());
    }
    let r = (|| {
        for s in &c.hist.steps {
            let (bad, tick) = match s {
                Step::Run { tick, .. } => (None, *tick),
                Step::BadRun(b) => (Some(b), None),
                s => {
                    e.apply(s);
                    continue;
                }
            };
            let o = if c.outs.is_empty() { &none } else { outs.next().unwrap() };
            let good = sc.set(o);
            log_clear(&e);
            let (id, serial) = e.source_current();
            let same = e.synced.as_ref() == Some(&(id.clone(), serial));
            let lower = e.synced.as_ref().map(|(i, s)| *i == id && *s > serial).unwrap_or(false);
            e.src.write(&e.src_dir(), e.cfg.purge);
            let before = e.capture();
            if let Some(b) = bad {
                if lower || staged {
                    continue;
                }
                if e.damage(b).is_none() {
                    continue;
                }
                note.class("bad-source");
                staged = true;
                let info = e.exec(None, None, &mut Engine::none)?;
                if info.out.ok() {
                    return Err(format!("{b:?}, but the run succeeded"));
                }
                if let Some(l) = log_list(&e).first() {
                    return Err(format!("{b:?}, but script {l} was run for it"));
                }
                e.check_inert(&before, false).map_err(|m| format!("{b:?}: {m}"))?;
                continue;
            }
            let needed = e.needed_deltas();
            let info = e.run_step(None, tick, note)?;
            let log = log_list(&e);
            if same || lower {
                if let Some(l) = log.first() {
                    return Err(format!("script {l} was run without an update"));
                }
                if same && n > 0 {
                    note.class("no-update");
                }
                continue;
            }
            // An update.
            staged = !info.out.ok();
            let want: Vec<String> = (0..n).map(|i| format!("{i:03}-{i}")).collect();
            if log != want {
                return Err(format!("scripts run: {log:?}, expected {want:?} (behaving {o:?})"));
            }
            if n > 0 {
                note.nontrivial(match (good, c.reject) {
                    (true, _) => "update:scripts-succeed",
                    (false, true) => "update:scripts-reject",
                    (false, false) => "update:scripts-fail",
                });
            }
            for l in &log {
                let d = e.root.join("log").join(l);
                let at = |m: String| format!("when script {l} ran: {m}");
                // Nothing public has changed.
                for (k, b) in [("rrdp", &before.0), ("rsync", &before.1)] {
                    if let Some(x) = fsx::diff(b, &fsx::tree(&d.join(k)), false) {
                        return Err(at(format!("{k} directory had changed already: {x}")));
                    }
                }
                // The update is completely staged.
                let st = d.join("staging");
                let v = view(&st, &e.src.notif).map_err(&at)?.ok_or_else(|| at("no staged notification".into()))?;
                if (v.session.clone(), v.serial) != (id.clone(), serial) {
                    return Err(at(format!("staged notification is for {}/{}", v.session, v.serial)));
                }
                let snap = &e.src.ver().snap;
                if v.snapshot.hash != snap.hash {
                    return Err(at("staged notification lists another snapshot".into()));
                }
                let has = |f: &FileRef| std::fs::read(st.join(&f.rel)).map(|b| b == f.bytes).unwrap_or(false);
                if !has(snap) {
                    return Err(at(format!("snapshot {} is not staged", snap.rel)));
                }
                for (s, f) in e.src.deltas() {
                    if needed.contains(&s) {
                        if !has(f) {
                            return Err(at(format!("new delta {s} ({}) is not staged", f.rel)));
                        }
                        if !v.deltas.contains_key(&s) {
                            return Err(at(format!("staged notification does not list new delta {s}")));
                        }
                    }
                }
            }
            if !good && c.reject {
                if info.out.ok() {
                    return Err(format!("a script failed ({o:?}) and invalid content is rejected, but the run succeeded"));
                }
                if info.out.crashed() {
                    return Err(format!("crashed: {}", info.out.show()));
                }
                e.check_inert(&before, true).map_err(|m| format!("the update was rejected, but {m}"))?;
            } else {
                if !info.out.ok() {
                    return Err(format!("update (scripts {o:?}, reject {}) failed: {}", c.reject, info.out.show()));
                }
                e.check_faithful(&info).map_err(|m| format!("update (scripts {o:?}, reject {}): {m}", c.reject))?;
                if e.cfg.rsync {
                    e.check_rsync_equals(&e.src.ver().objects.clone())?;
                }
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&sc.dir);
    r
}
