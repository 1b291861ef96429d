//! Concurrent invocations on one state directory, under a scheduler which
//! decides which of them makes its next step.
use crate::explore::Note;
use crate::fsx;
use crate::hist::{case_dir, content, object_uri, T0};
use crate::model::*;
use crate::proc::{Act, Ev, Out, Proc, Spec};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// Starts another invocation, of that variant.
    Start(u8),
    /// Lets a running one make so many steps.
    Step(u8, u8),
    /// Lets it run to its end.
    Finish(u8),
    Kill(u8),
    Publish(u8, u8),
    NewSession(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CCase {
    pub synced: bool,
    pub rsync: bool,
    pub delay: u8,
    pub cleanup: u32,
    pub ops: Vec<Op>,
}

struct P {
    proc: Proc,
    pending: Option<Ev>,
    n: usize,
    variant: u8,
    /// It has changed something, or fetched something.
    works: bool,
    /// It has given up its lock.
    unlocked: bool,
    steps: usize,
    /// It was the only one all of its time.
    alone: bool,
    /// Another one was at work all of its time.
    shadowed: bool,
}

struct World<'a> {
    c: &'a CCase,
    root: PathBuf,
    src: Source,
    now: i64,
    ps: Vec<P>,
    n: usize,
    had_view: bool,
    first: bool,
}

impl World<'_> {
    fn w(&self, p: &str) -> PathBuf {
        self.root.join("w").join(p)
    }

    fn args(&self, variant: u8) -> Vec<std::ffi::OsString> {
        let mut a: Vec<std::ffi::OsString> = vec![];
        let mut o = |k: &str, v: &std::ffi::OsStr| {
            a.push(k.into());
            a.push(v.into());
        };
        let st = self.w("state");
        let s: std::ffi::OsString = match variant % 7 {
            0 | 4..=6 => st.into(),
            1 => "state".into(),
            2 => "./state/../state/".into(),
            _ => self.w("link").into(),
        };
        o("--state-dir", &s);
        // Other output directories, but still the same state directory.
        let b = if variant % 7 == 6 { "-b" } else { "" };
        o("--rrdp-dir", self.w(&format!("rrdp{b}")).as_os_str());
        o("--rsync-dir", self.w(&format!("rsync{b}")).as_os_str());
        let cleanup = if variant % 7 == 4 { 1 } else { self.c.cleanup };
        o("--cleanup-after", cleanup.to_string().as_ref());
        if self.c.delay > 0 && variant % 7 != 4 {
            o("--rrdp-notify-delay", self.c.delay.to_string().as_ref());
        }
        o("--source-uri-base", self.root.join("src").as_os_str());
        if variant % 7 == 5 {
            a.push("--insecure".into());
        }
        if !self.c.rsync {
            a.push("--rsync-disable".into());
        }
        a.push("--".into());
        a.push(self.src.notification_uri().into());
        a
    }

    fn start(&mut self, variant: u8) -> Result<(), String> {
        let cwd = self.root.join("w");
        let spec = Spec { args: self.args(variant), cwd: &cwd, root: &self.root, now: self.now, reads: true, tls_port: None, env: vec![], bin: None };
        self.n += 1;
        for p in &mut self.ps {
            p.alone = false;
        }
        let shadowed = self.ps.iter().any(|p| p.works && !p.unlocked);
        let p = P { proc: Proc::spawn(&spec), pending: None, n: self.n, variant, works: false, unlocked: false, steps: 0, alone: self.ps.is_empty(), shadowed };
        self.ps.push(p);
        let i = self.ps.len() - 1;
        self.fetch(i)
    }

    /// Gets the next request of a process, or handles its end.
    fn fetch(&mut self, i: usize) -> Result<(), String> {
        if self.ps.len() > 1 && !self.ps[i].proc.ready(10) {
            return Err(format!("invocation {} neither ends nor goes on while another one is running", self.ps[i].n));
        }
        match self.ps[i].proc.next() {
            Some(ev) => {
                self.ps[i].pending = Some(ev);
                Ok(())
            }
            None => {
                let p = self.ps.remove(i);
                self.ended(p)
            }
        }
    }

    fn ended(&mut self, p: P) -> Result<(), String> {
        let (n, variant) = (p.n, p.variant);
        let others = self.ps.len();
        let out: Out = p.proc.finish();
        self.now = self.now.max(out.now);
        if p.works {
            // Those that wait for their first step are no longer shadowed.
            for q in &mut self.ps {
                q.shadowed = false;
            }
        }
        if out.killed {
            return Ok(());
        }
        if let Some(e) = out.escapes.first() {
            return Err(format!("invocation {n} touched {e}"));
        }
        if out.crashed() {
            return Err(format!("invocation {n} crashed: {}", out.show()));
        }
        if p.shadowed && out.ok() {
            return Err(format!("invocation {n} (variant {variant}) reported success although another one was at work all of its time"));
        }
        if !p.works && out.ok() {
            return Err(format!("invocation {n} (variant {variant}) reported success without doing anything"));
        }
        if p.alone && !out.ok() {
            return Err(format!("invocation {n} (variant {variant}) failed although it was the only one: {}", out.show()));
        }
        if !out.ok() && others == 0 && p.works {
            return Err(format!("invocation {n} (variant {variant}) failed although it had started its work: {}", out.show()));
        }
        Ok(())
    }

    /// One step of a process.
    fn step(&mut self, i: usize, kill: bool) -> Result<(), String> {
        let ev = self.ps[i].pending.take().unwrap();
        if kill {
            self.ps[i].proc.kill();
            while self.ps[i].proc.next().is_some() {}
            let p = self.ps.remove(i);
            return self.ended(p);
        }
        let state = self.w("state");
        let link = self.w("link");
        let is = |p: &str, x: &PathBuf| std::path::Path::new(p) == *x;
        let lock = [state.join("krill-sync.lock"), link.join("krill-sync.lock")];
        let setup = (lock.iter().any(|l| is(&ev.a, l))) || (ev.op == b'M' && (is(&ev.a, &state) || is(&ev.a, &link) || is(&ev.a, &self.root.join("w"))));
        let src = self.root.join("src");
        let work = (ev.mutates() && !setup) || (ev.op == b'r' && std::path::Path::new(&ev.a).starts_with(&src)) || ev.op == b'Z';
        if work {
            let n = self.ps[i].n;
            if let Some(q) = self.ps.iter().enumerate().find(|(j, q)| *j != i && q.works && !q.unlocked).map(|(_, q)| q) {
                return Err(format!("invocation {n} (variant {}) does '{}' while invocation {} (variant {}) is at work", self.ps[i].variant, ev.show(), q.n, q.variant));
            }
            self.ps[i].works = true;
        }
        if ev.op == b'F' && ev.b == "unlock" {
            self.ps[i].unlocked = true;
            for q in &mut self.ps {
                q.shadowed = false;
            }
        }
        self.ps[i].steps += 1;
        if ev.mutates() {
            match view(&self.w("rrdp"), &self.src.notif) {
                Ok(Some(v)) => {
                    self.had_view = true;
                    v.check_files(&self.w("rrdp"), &self.src.base).map_err(|e| format!("before {}: {e}", ev.show()))?;
                }
                Ok(None) if !self.had_view => {}
                Ok(None) => return Err(format!("before {}: the public notification is gone", ev.show())),
                Err(e) => return Err(format!("before {}: {e}", ev.show())),
            }
        }
        self.ps[i].proc.reply(&ev, Act::Go, 0);
        self.fetch(i)
    }

    fn finish(&mut self, n: usize) -> Result<(), String> {
        while let Some(i) = self.ps.iter().position(|p| p.n == n) {
            self.step(i, false)?;
        }
        Ok(())
    }

    fn kill_all(&mut self) {
        for mut p in self.ps.drain(..) {
            p.proc.kill();
            p.proc.finish();
        }
    }
}

fn objects(n: u8, v: u8) -> Objects {
    (0..(1 + n % 4)).map(|i| (object_uri(i, false), content(i, v.wrapping_add(i)))).collect()
}

pub fn play(c: &CCase, t: usize, note: &mut Note) -> Result<(), String> {
    let root = case_dir(t);
    let src = Source::new("https://pub.example/rrdp/", "notification.xml", 0, 1, objects(2, 0));
    let mut w = World { c, root, src, now: T0, ps: vec![], n: 0, had_view: false, first: true };
    let _ = std::os::unix::fs::symlink("state", w.w("link"));
    w.src.write(&w.root.join("src"), false);
    let r = run(&mut w, note);
    w.kill_all();
    r
}

fn run(w: &mut World, note: &mut Note) -> Result<(), String> {
    let c = w.c;
    if c.synced {
        w.start(0)?;
        let n = w.n;
        w.finish(n)?;
        w.first = false;
    }
    let mut versions: Vec<(String, u64)> = vec![(w.src.sess().id.to_string(), w.src.ver().serial)];
    let mut killed = false;
    for op in &c.ops {
        match op {
            Op::Start(v) => {
                if w.ps.len() < 4 {
                    // The link only leads somewhere once the directory is there.
                    let v = if v % 7 == 3 && !w.w("state").is_dir() { 0 } else { *v };
                    if w.ps.iter().any(|p| p.works && !p.unlocked) {
                        note.nontrivial("started-while-another-works");
                    } else if !w.ps.is_empty() {
                        note.nontrivial("started-next-to-another");
                    }
                    if killed {
                        note.class("started-after-kill");
                    }
                    w.start(v)?;
                }
            }
            Op::Step(i, n) => {
                if !w.ps.is_empty() {
                    let i = *i as usize % w.ps.len();
                    let id = w.ps[i].n;
                    for _ in 0..*n {
                        match w.ps.iter().position(|p| p.n == id) {
                            Some(i) => w.step(i, false)?,
                            None => break,
                        }
                    }
                }
            }
            Op::Finish(i) => {
                if !w.ps.is_empty() {
                    let id = w.ps[*i as usize % w.ps.len()].n;
                    w.finish(id)?;
                }
            }
            Op::Kill(i) => {
                if !w.ps.is_empty() {
                    let i = *i as usize % w.ps.len();
                    if w.ps[i].works {
                        note.class("killed-at-work");
                    }
                    w.step(i, true)?;
                    killed = true;
                }
            }
            Op::Publish(n, v) => {
                w.src.publish(objects(*n, *v));
                w.src.write(&w.root.join("src"), false);
                versions.push((w.src.sess().id.to_string(), w.src.ver().serial));
            }
            Op::NewSession(n) => {
                w.src.new_session(1 + *n as u64 % 5, objects(*n, *n));
                w.src.write(&w.root.join("src"), false);
                versions.push((w.src.sess().id.to_string(), w.src.ver().serial));
            }
        }
    }
    while let Some(p) = w.ps.first() {
        let n = p.n;
        w.finish(n)?;
    }
    let rrdp = w.w("rrdp");
    let check = |w: &World| view(&rrdp, &w.src.notif);
    if let Some(v) = check(w)? {
        v.check_files(&rrdp, &w.src.base)?;
        if !versions.contains(&(v.session.clone(), v.serial)) {
            return Err(format!("public version {}/{} was never the source's", v.session, v.serial));
        }
    }
    // The lock does not outlive its holders.
    w.start(0)?;
    let n = w.n;
    w.finish(n)?;
    let v = check(w)?.ok_or("no public notification after a run on its own")?;
    v.check_files(&rrdp, &w.src.base)?;
    if (&v.session, v.serial) != (&w.src.sess().id.to_string(), w.src.ver().serial) {
        return Err(format!("after a run on its own the public version is {}/{}", v.session, v.serial));
    }
    if c.rsync {
        let want = rsync_layout(&w.src.ver().objects, false);
        if fsx::files(&w.w("rsync/current"))? != want {
            return Err("after a run on its own rsync 'current' differs from the source".into());
        }
    }
    Ok(())
}
