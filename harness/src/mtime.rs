//! Objects with arbitrary times, and the modification times of their files.
use crate::explore::Note;
use crate::fsx;
use crate::hist::*;
use crate::model::*;
use crate::pki;
use crate::proc::Ev;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::MetadataExt;
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Broken {
    Garbage(u8),
    Truncated(u8),
    /// Content of another kind than the name says.
    Other(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MObj {
    /// See `make`.
    pub kind: u8,
    pub ext: u8,
    /// The time laid down in the object.
    pub time: i64,
    /// Seconds to other times in the object.
    pub other: i32,
    pub n: u8,
    pub broken: Option<Broken>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MStep {
    /// New, changed and removed objects.
    Change(Vec<(u8, Option<MObj>)>),
    /// An object gets the content another has.
    Copy(u8, u8),
    Session,
    Run,
    Crash(u16),
    Tick(u32),
    /// The saved state is lost.
    Lose(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MCase {
    pub cfg: Cfg,
    pub tz: u8,
    pub objs: Vec<(u8, MObj)>,
    pub steps: Vec<MStep>,
}

const SIGNED_EXT: &[&str] = &["mft", "roa", "asa", "gbr", "tak", "sig", "x", "spl", "crls", "cer.roa", "crl~"];
const ZONES: &[&str] = &["", "EST5EDT", "Asia/Kolkata", "XYZ-14", "ABC+11:30"];

fn ext(o: &MObj) -> &'static str {
    match o.kind % 8 {
        0..=2 => "cer",
        3 => "crl",
        _ => SIGNED_EXT[o.ext as usize % SIGNED_EXT.len()],
    }
}

fn uri(i: u8, o: &MObj) -> String {
    format!("rsync://h{}.example/repo/d{}/o{i}.{}", i % 2, i % 3, ext(o))
}

/// The content, and the time the file has to have if that is defined.
pub fn make(o: &MObj) -> (Vec<u8>, Option<i64>) {
    let good = pki::timed(o.kind, o.time, o.other as i64, o.n);
    match o.broken {
        None => (good, Some(o.time)),
        Some(Broken::Garbage(k)) => (pki::garbage(k), None),
        Some(Broken::Truncated(k)) => (pki::truncate(good, k), None),
        Some(Broken::Other(k)) => {
            let kinds: &[u8] = match o.kind % 8 {
                0..=2 => &[3, 4, 6],
                3 => &[0, 1, 5],
                _ => &[0, 2, 3],
            };
            (pki::timed(kinds[k as usize % 3], o.time, o.other as i64, o.n), None)
        }
    }
}

type Known = HashMap<(bool, bool, [u8; 32]), i64>;

fn class(p: &str) -> (bool, bool) {
    (p.ends_with(".cer"), p.ends_with(".crl"))
}

/// Checks the times of all files that can currently be seen. Returns their number.
fn check(cur: &Path, known: &Known) -> Result<usize, String> {
    let path = match std::fs::canonicalize(cur) {
        Ok(p) => p,
        Err(_) => return Ok(0),
    };
    let mut n = 0;
    for (p, b) in fsx::files(&path)? {
        let (a, c) = class(&p);
        if let Some(t) = known.get(&(a, c, fsx::sha(&b))) {
            let m = std::fs::metadata(path.join(&p)).map_err(|e| e.to_string())?;
            if m.mtime() != *t || m.mtime_nsec() != 0 {
                return Err(format!("{p} has the modification time {}.{:09} instead of {t}", m.mtime(), m.mtime_nsec()));
            }
            n += 1;
        }
    }
    Ok(n)
}

fn put(objs: &mut BTreeMap<u8, (MObj, Vec<u8>)>, known: &mut Known, i: u8, o: &MObj, note: &mut Note) {
    let (b, t) = make(o);
    match t {
        Some(t) => {
            known.insert((ext(o) == "cer", ext(o) == "crl", fsx::sha(&b)), t);
            note.class(format!("kind{}{}", o.kind % 8, if !(-631152000..2524608000).contains(&t) { ":far" } else { "" }));
        }
        None => note.class("broken"),
    }
    objs.insert(i, (o.clone(), b));
}

pub fn play(c: &MCase, t: usize, note: &mut Note) -> Result<(), String> {
    let root = case_dir(t);
    let mut cfg = c.cfg.clone();
    cfg.rsync = true;
    let mut known: Known = HashMap::new();
    let mut objs: BTreeMap<u8, (MObj, Vec<u8>)> = BTreeMap::new();
    for (i, o) in &c.objs {
        put(&mut objs, &mut known, *i, o, note);
    }
    let all = |objs: &BTreeMap<u8, (MObj, Vec<u8>)>| -> Objects { objs.iter().map(|(i, (o, b))| (uri(*i, o), b.clone())).collect() };
    let src = Source::new(BASES[0], NAMES[0], cfg.style, 1, all(&objs));
    let mut e = Engine::with_source("C16", cfg, src, root);
    let tz = ZONES[c.tz as usize % ZONES.len()];
    if !tz.is_empty() {
        e.env.push(("TZ".into(), tz.into()));
    }
    let mut hist: Vec<String> = vec![];
    for s in &c.steps {
        match s {
            MStep::Change(l) => {
                for (i, o) in l {
                    match o {
                        None => {
                            objs.remove(i);
                        }
                        Some(o) => put(&mut objs, &mut known, *i, o, note),
                    }
                }
                e.src.publish(all(&objs));
                hist.push("a change".into());
            }
            MStep::Copy(a, b) => {
                if let Some(o) = objs.get(a).map(|o| o.0.clone()) {
                    put(&mut objs, &mut known, *b, &o, note);
                    e.src.publish(all(&objs));
                }
            }
            MStep::Session => {
                e.src.new_session(1, all(&objs));
                hist.push("a new session".into());
            }
            MStep::Tick(s) => e.now += *s as i64,
            MStep::Lose(k) => {
                for (i, f) in ["rrdp-state.json", "rsync-state.json"].iter().enumerate() {
                    if (k % 3) as usize != i {
                        let _ = std::fs::remove_file(e.state_dir().join(f));
                    }
                }
                hist.push("loss of state".into());
            }
            MStep::Run | MStep::Crash(_) => {
                e.src.write(&e.src_dir(), e.cfg.purge);
                let fault = match s {
                    MStep::Crash(at) => Some(Fault { at: *at, kind: Kind::Kill }),
                    _ => None,
                };
                let cur = e.rsync_dir().join("current");
                let mut last = std::fs::read_link(&cur).ok();
                let mut bad: Option<String> = None;
                let mut gate = |_: &Ev, _: i64| {
                    let now = std::fs::read_link(&cur).ok();
                    if now != last {
                        if let Err(m) = check(&cur, &known) {
                            bad.get_or_insert(m);
                        }
                        last = now;
                    }
                    None
                };
                let info = e.exec(fault.as_ref(), None, &mut gate)?;
                hist.push(if info.out.ok() { "a run".into() } else { "an interrupted run".to_string() });
                let at = |m: String| format!("after {}: {m}", hist.join(", "));
                if let Some(m) = bad {
                    return Err(at(format!("when 'current' was changed: {m}")));
                }
                if fault.is_none() && !info.out.ok() {
                    return Err(at(format!("run failed: {}", info.out.show())));
                }
                let n = check(&cur, &known).map_err(&at)?;
                if info.out.ok() {
                    e.check_rsync_equals(&all(&objs)).map_err(&at)?;
                    if n > 0 {
                        note.nontrivial("run");
                    }
                }
            }
        }
    }
    Ok(())
}
