//! Other repositories of the tree: what validation fetches from them and when,
//! and that it always works on one complete version of each.
use crate::explore::Note;
use crate::fsx::{hex, sha};
use crate::hist::*;
use crate::model::*;
use crate::pki::*;
use crate::proc::{Act, Ev};
use crate::tls::{self, Resp};
use crate::val::*;
use base64::Engine as _;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ListF {
    Window(u8),
    Gap(u8),
    None,
    /// The most recent ones are missing.
    Short(u8),
}

/// How a repository answers.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Manner {
    pub down: bool,
    pub notif: Option<u8>,
    pub list: Option<ListF>,
    pub delta: Option<(u8, u8)>,
    pub snap: Option<u8>,
    pub etag: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FStep {
    Change(Vec<Mut>),
    /// A new version of that repository whatever happened.
    Bump(u8),
    Session(u8),
    Back(u8, u8),
    Manner(u8, Manner),
    Tick(u32),
    Run { offline: bool },
    /// A run without trust anchors.
    Plain,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FCase {
    pub cfg: Cfg,
    pub tree: Tree,
    pub nrepos: u8,
    pub own: u8,
    pub steps: Vec<FStep>,
}

#[derive(Clone)]
struct Cached {
    session: String,
    serial: u64,
    /// When the data was had, and when the server was last asked.
    last: i64,
    contact: i64,
    /// The entity tag of the notification that it came from.
    tag: Option<String>,
}

/// What a repository offers during a run.
#[derive(Default)]
struct Offer {
    down: bool,
    notif_bad: bool,
    snap_bad: bool,
    session: String,
    serial: u64,
    notif_rel: String,
    snap_rel: String,
    /// Listed deltas with relative URI and whether they are in order.
    deltas: BTreeMap<u64, (String, bool)>,
    contiguous: bool,
    tag: Option<String>,
}

fn bogus(xml: &[u8], tag: &str) -> Vec<u8> {
    let s = String::from_utf8(xml.to_vec()).unwrap();
    let p = if s.contains(&format!("</x:{tag}>")) { "x:" } else { "" };
    let end = format!("</{p}{tag}>");
    s.replace(&end, &format!("  <{p}publish uri=\"rsync://host9.example/repo/bogus.roa\">{}</{p}publish>\n{end}", b64(b"bogus"))).into_bytes()
}

fn reattr(xml: &[u8], attr: &str, val: &str) -> Vec<u8> {
    let s = String::from_utf8(xml.to_vec()).unwrap();
    let (d, q) = (format!("{attr}=\""), format!("{attr}='"));
    let (k, e) = if s.contains(&d) { (d, '"') } else { (q, '\'') };
    let i = s.find(&k).unwrap() + k.len();
    let j = i + s[i..].find(e).unwrap();
    format!("{}{val}{}", &s[..i], &s[j..]).into_bytes()
}

fn renote(xml: Vec<u8>, tag: &str, extra: &str) -> Vec<u8> {
    let s = String::from_utf8(xml).unwrap();
    let p = if s.contains(&format!("</x:{tag}>")) { "x:" } else { "" };
    let end = format!("</{p}{tag}>");
    s.replace(&end, &format!("  {extra}\n{end}")).into_bytes()
}

fn offer(w: &World, i: usize, m: &Manner) -> Offer {
    let r = &w.repos[i];
    let v = r.ver();
    let id = r.sess().id;
    let mut o = Offer { down: m.down, session: id.to_string(), serial: v.serial, notif_rel: r.notif.clone(), snap_rel: v.snap.rel.clone(), ..Default::default() };
    let mut files: HashMap<String, Resp> = HashMap::new();
    let put = |f: &mut HashMap<String, Resp>, rel: &str, b: Vec<u8>| {
        f.insert(rel.to_string(), Resp::Data { bytes: b, etag: None });
    };
    // (serial, uri, hash, good)
    let mut list: Vec<(u64, String, [u8; 32], bool)> = vec![];
    for (s, d) in r.deltas() {
        put(&mut files, &d.rel, d.bytes.clone());
        list.push((s, d.rel.clone(), d.hash, true));
    }
    match m.list {
        Some(ListF::Window(k)) => {
            let n = list.len().saturating_sub(k as usize);
            list.drain(..n);
        }
        Some(ListF::None) => list.clear(),
        Some(ListF::Gap(k)) if list.len() > 2 => {
            list.remove(1 + k as usize % (list.len() - 2));
        }
        Some(ListF::Short(k)) => {
            let n = list.len().saturating_sub(1 + k as usize % 3);
            list.truncate(n);
        }
        _ => {}
    }
    let mut snap = v.snap.clone();
    if let (Some((at, what)), false) = (m.delta, list.is_empty()) {
        // Counted from the most recent one.
        let n = list.len();
        let at = n - 1 - at as usize % n.min(4);
        let (s, rel, ..) = list[at].clone();
        let bytes = r.deltas().iter().find(|d| d.0 == s).unwrap().1.bytes.clone();
        list[at].3 = false;
        let mut what = what % 12;
        if what == 8 && n == 1 {
            what = 4;
        }
        let mut replace = |b: Vec<u8>, rehash: bool| {
            if rehash {
                list[at].2 = sha(&b);
            }
            put(&mut files, &rel, b);
        };
        match what {
            0 => {
                files.remove(&rel);
            }
            1 => replace(renote(bytes, "delta", "<!-- x -->"), false),
            2 => {
                let n = bytes.len() * 2 / 3;
                files.insert(rel.clone(), Resp::Short(bytes, n));
            }
            3 => replace(reattr(&bogus(&bytes, "delta"), "session_id", "11111111-2222-4333-8444-555555555555"), true),
            4 => replace(reattr(&bogus(&bytes, "delta"), "serial", &(s + 1).to_string()), true),
            5 => replace(renote(bytes, "delta", &format!("<withdraw uri=\"rsync://host9.example/repo/none.roa\" hash=\"{}\"/>", hex(&sha(b"none")))), true),
            6 => replace(renote(bytes, "delta", &format!("<publish uri=\"rsync://host9.example/repo/none.roa\" hash=\"{}\">{}</publish>", hex(&sha(b"none")), b64(b"other"))), true),
            9..=11 => {
                // Does not fit an object that is there, and which it otherwise leaves alone.
                let vers = &r.sess().vers;
                let k = vers.iter().position(|v| v.serial == s).unwrap();
                let still = |(u, b): &(&String, &Vec<u8>)| vers[k].objects.get(*u) == Some(*b);
                let extra = match k.checked_sub(1).and_then(|k| vers[k].objects.iter().filter(|x| still(x)).nth(s as usize % 3)) {
                    None => format!("<withdraw uri=\"rsync://host9.example/repo/none.roa\" hash=\"{}\"/>", hex(&sha(b"none"))),
                    Some((u, _)) => match what {
                        9 => format!("<publish uri=\"{u}\" hash=\"{}\">{}</publish>", hex(&sha(b"none")), b64(b"other")),
                        10 => format!("<publish uri=\"{u}\">{}</publish>", b64(b"other")),
                        _ => format!("<withdraw uri=\"{u}\" hash=\"{}\"/>", hex(&sha(b"none"))),
                    },
                };
                replace(renote(bytes, "delta", &extra), true)
            }
            7 => replace(bytes[..bytes.len() / 2].to_vec(), true),
            _ => {
                let other = if at == 0 { 1 } else { at - 1 };
                let (a, b) = (list[at].clone(), list[other].clone());
                list[at] = (a.0, b.1, b.2, false);
                list[other] = (b.0, a.1, a.2, false);
            }
        }
    }
    if let Some(k) = m.snap {
        o.snap_bad = true;
        let mut b = snap.bytes.clone();
        match k % 6 {
            0 => b.clear(),
            1 => b = renote(b, "snapshot", "<!-- x -->"),
            2 => {}
            3 => {
                b.truncate(b.len() / 2);
                snap.hash = sha(&b);
            }
            4 => {
                b = reattr(&bogus(&b, "snapshot"), "session_id", "11111111-2222-4333-8444-555555555555");
                snap.hash = sha(&b);
            }
            _ => {
                b = reattr(&bogus(&b, "snapshot"), "serial", &(v.serial + 1).to_string());
                snap.hash = sha(&b);
            }
        }
        match k % 6 {
            0 => {}
            2 => {
                let n = b.len() / 2;
                files.insert(snap.rel.clone(), Resp::Short(b, n));
            }
            _ => put(&mut files, &snap.rel, b),
        }
    } else {
        put(&mut files, &snap.rel, snap.bytes.clone());
    }
    o.contiguous = list.windows(2).all(|w| w[0].0 + 1 == w[1].0);
    let xml = notification_xml(&id, v.serial, &format!("{}{}", r.base, snap.rel), &snap.hash, &list.iter().map(|(s, u, h, _)| (*s, format!("{}{u}", r.base), *h)).collect::<Vec<_>>(), r.fmt);
    for (s, u, _, good) in list {
        o.deltas.insert(s, (u, good));
    }
    let tag = m.etag.then(|| format!("\"{}\"", &hex(&sha(&xml))[..16]));
    o.tag = tag.clone();
    let n = match m.notif {
        None => Resp::Data { bytes: xml, etag: tag },
        Some(k) => {
            o.notif_bad = true;
            match k % 5 {
                0 => Resp::Status(404),
                1 => Resp::Data { bytes: b"<html>".to_vec(), etag: None },
                2 => Resp::Data { bytes: xml[..xml.len() / 2].to_vec(), etag: tag },
                3 => Resp::Status(500),
                _ => {
                    let n = xml.len() / 2;
                    Resp::Short(xml, n)
                }
            }
        }
    };
    files.insert(r.notif.clone(), n);
    w.tls.with(|s| {
        s.routes.retain(|u, _| !u.starts_with(&r.base));
        for (f, b) in files {
            s.routes.insert(format!("{}{f}", r.base), b);
        }
    });
    o
}

/// (session, serial, objects) of each repository in the saved state.
type Saved = BTreeMap<String, (String, u64, Objects)>;

fn saved(w: &World) -> Result<Option<Saved>, String> {
    let b = match std::fs::read(w.e.state_dir().join("rrdp-state.json")) {
        Ok(b) => b,
        Err(_) => return Ok(None),
    };
    let v: serde_json::Value = serde_json::from_slice(&b).map_err(|e| format!("saved state is no JSON: {e}"))?;
    let d = match v.pointer("/validator/repositories/data").and_then(|d| d.as_object()) {
        Some(d) => d,
        None => return Ok(None),
    };
    let mut m = Saved::new();
    for (u, r) in d {
        let mut o = Objects::new();
        for (k, b) in r["objects"].as_object().ok_or("no objects in saved state")? {
            let t = b["bytes"].as_str().ok_or("no content in saved state")?;
            o.insert(k.clone(), base64::engine::general_purpose::STANDARD.decode(t).map_err(|e| e.to_string())?);
        }
        m.insert(u.clone(), (r["session_id"].as_str().unwrap_or("").to_lowercase(), r["serial"].as_u64().unwrap_or(u64::MAX), o));
    }
    Ok(Some(m))
}

pub fn play_foreign(want: &'static str, c: &FCase, t: usize, note: &mut Note) -> Result<(), String> {
    tls::server(|tls| {
        let n = c.nrepos.clamp(2, 4) as usize;
        let own = c.own as usize % n;
        let mut tree = c.tree.clone();
        tree.ta = None;
        tree.cas.iter_mut().for_each(|c| c.cycle = None);
        let mut w = World::new(want, &c.cfg, &tree, n, own, t, tls);
        w.offer_tas();
        let hosts: Vec<String> = w.notify.clone();
        let mk = |t: &Tree| Rc::new(build(t, &Hosts { notify: &hosts }, T0));
        let mut cur: Rc<Built> = mk(&tree);
        // Which tree a version of a repository shows.
        let mut views: HashMap<(usize, String, u64), Rc<Built>> = HashMap::new();
        for i in (0..n).filter(|i| *i != own) {
            views.insert((i, w.repos[i].sess().id.to_string(), 1), cur.clone());
        }
        let mut own_view;
        let mut manners: Vec<Manner> = vec![Manner::default(); n];
        let mut cache: Vec<Option<Cached>> = vec![None; n];
        let foreign = |k: u8| {
            let v: Vec<usize> = (0..n).filter(|i| *i != own).collect();
            v[k as usize % v.len()]
        };
        let mut hist: Vec<String> = vec![];
        let publish = |w: &mut World, i: usize, b: &Rc<Built>, views: &mut HashMap<_, _>, session: bool| {
            let o = b.repos[i].clone();
            let r = &mut w.repos[i];
            if session {
                r.new_session(1, o);
            } else {
                // Whatever was presented: back to the latest.
                let k = r.cur;
                r.sessions[k].cur = r.sessions[k].vers.len() - 1;
                r.publish(o);
            }
            views.insert((i, r.sess().id.to_string(), r.ver().serial), b.clone());
        };
        for s in &c.steps {
            match s {
                FStep::Change(m) => {
                    tree = mutate(&tree, m, |_, _| true);
                    let b = mk(&tree);
                    for i in (0..n).filter(|i| *i != own) {
                        if b.repos[i] != w.repos[i].ver().objects {
                            publish(&mut w, i, &b, &mut views, false);
                            hist.push(format!("repository {i} changes"));
                        }
                    }
                    cur = b;
                }
                FStep::Bump(k) => {
                    let i = foreign(*k);
                    publish(&mut w, i, &cur, &mut views, false);
                    hist.push(format!("repository {i} has a new version"));
                }
                FStep::Session(k) => {
                    let i = foreign(*k);
                    publish(&mut w, i, &cur, &mut views, true);
                    hist.push(format!("repository {i} has a new session"));
                }
                FStep::Back(k, by) => {
                    let i = foreign(*k);
                    w.repos[i].rollback(1 + *by as usize % 3);
                    hist.push(format!("repository {i} goes back"));
                }
                FStep::Manner(k, m) => {
                    let i = foreign(*k);
                    manners[i] = m.clone();
                    hist.push(format!("repository {i}: {m:?}"));
                }
                FStep::Tick(s) => {
                    w.e.now += *s as i64;
                    hist.push(format!("+{s}s"));
                }
                FStep::Plain => {
                    own_view = cur.clone();
                    w.e.src.publish(own_view.repos[own].clone());
                    w.own_source();
                    w.tal_args(false, false, false);
                    w.tls.take_log();
                    let info = w.e.exec(None, None, &mut Engine::none)?;
                    if !info.out.ok() {
                        return Err(format!("run without trust anchors failed: {}", info.out.show()));
                    }
                    if want == "C21" {
                        if let Some(r) = w.tls.take_log().first() {
                            return Err(format!("a run without trust anchors requested {}", r.url));
                        }
                    }
                    cache = vec![None; n];
                    hist.push("run without TAL".into());
                }
                FStep::Run { offline } => {
                    // Always something to validate.
                    own_view = cur.clone();
                    w.e.src.publish(own_view.repos[own].clone());
                    w.own_source();
                    w.tal_args(true, false, *offline);
                    let near = |t: i64, now: i64| (t + 3600 - now).abs() < 30;
                    loop {
                        let now = w.e.now;
                        settle(&mut w.e.now, &tree);
                        for v in views.values() {
                            settle_built(&mut w.e.now, v);
                        }
                        if cache.iter().flatten().any(|c| near(c.last, w.e.now) || near(c.contact, w.e.now)) {
                            w.e.now += 61;
                        }
                        if now == w.e.now {
                            break;
                        }
                    }
                    let offers: Vec<Offer> = (0..n).map(|i| if i == own { Offer::default() } else { offer(&w, i, &manners[i]) }).collect();
                    w.tls.take_log();
                    let mut touched: HashMap<String, usize> = HashMap::new();
                    let downs: Vec<String> = (0..n).filter(|i| *i != own && manners[*i].down).map(|i| format!("f{i}.example")).collect();
                    let mut gate = |ev: &Ev, _: i64| -> Option<(Act, i64)> {
                        if ev.op == b'G' {
                            *touched.entry(ev.a.clone()).or_default() += 1;
                            if downs.contains(&ev.a) {
                                return Some((Act::Err(libc::EHOSTUNREACH), 0));
                            }
                        }
                        None
                    };
                    let info = w.e.exec(None, None, &mut gate)?;
                    let when = info.start;
                    let at = |m: String| format!("run {}after {}: {m}", if *offline { "(offline) " } else { "" }, if hist.is_empty() { "nothing".into() } else { hist.join(", ") });
                    if !info.out.ok() {
                        return Err(at(format!("failed: {}", info.out.show())));
                    }
                    let mut reqs: Vec<BTreeMap<String, usize>> = vec![BTreeMap::new(); n];
                    let mut same = vec![false; n];
                    for r in w.tls.take_log() {
                        if w.built.tas.iter().any(|a| a.uri == r.url) {
                            continue;
                        }
                        match (0..n).find(|i| *i != own && r.url.starts_with(&w.repos[*i].base)) {
                            Some(i) => {
                                same[i] |= r.status == 304;
                                *reqs[i].entry(r.url[w.repos[i].base.len()..].to_string()).or_default() += 1
                            }
                            None if want == "C21" => return Err(at(format!("{} was requested", r.url))),
                            None => {}
                        }
                    }
                    let touches = |i: usize| touched.get(&format!("f{i}.example")).copied().unwrap_or(0);
                    if want == "C21" {
                        for h in touched.keys() {
                            if h != "ta.example" && !(0..n).any(|i| i != own && *h == format!("f{i}.example")) {
                                return Err(at(format!("{h} was contacted")));
                            }
                        }
                    }
                    let state = saved(&w).map_err(at)?;
                    let got = |i: usize| state.as_ref().map(|s| s.get(&w.notify[i]));

                    // What each repository's data has to be, as needed.
                    let mut decided: HashMap<usize, Option<Cached>> = HashMap::new();
                    let mut problem: Option<String> = None;
                    let mut viewer = |i: usize| -> Option<&Built> {
                        if i == own {
                            return Some(&*own_view);
                        }
                        if !decided.contains_key(&i) {
                            let keep = |c: &Option<Cached>| got(i).map(|g| matches!((g, c), (Some(g), Some(c)) if g.0 == c.session && g.1 == c.serial)).unwrap_or(false);
                            let d = decide(want, i, &offers[i], &cache[i], *offline, when, &reqs[i], touches(i), same[i], &keep, note);
                            match d {
                                Ok(c) => {
                                    decided.insert(i, c);
                                }
                                Err(m) => {
                                    problem.get_or_insert(m);
                                    decided.insert(i, None);
                                }
                            }
                        }
                        decided[&i].as_ref().and_then(|c| views.get(&(i, c.session.clone(), c.serial)).map(|b| &**b))
                    };
                    let exp = cur.expect_mixed(when, true, &mut viewer);
                    let exp2 = cur.expect_mixed(when, false, &mut viewer);
                    if let Some(m) = problem {
                        return Err(at(m));
                    }
                    for i in (0..n).filter(|i| *i != own) {
                        if !decided.contains_key(&i) {
                            if want == "C21" && touches(i) > 0 {
                                return Err(at(format!("repository {i} was contacted, but no valid certificate leads there")));
                            }
                            decided.insert(i, cache[i].clone());
                        }
                    }
                    // The saved copies.
                    for i in (0..n).filter(|i| *i != own) {
                        let g = match got(i) {
                            Some(g) => g,
                            None => continue,
                        };
                        match (g, &decided[&i]) {
                            (None, None) => {}
                            (None, Some(c)) => return Err(at(format!("no copy of repository {i} is kept, which has to be at serial {}", c.serial))),
                            (Some(g), None) => return Err(at(format!("a copy of repository {i} with serial {} is kept, which cannot have been had", g.1))),
                            (Some(g), Some(c)) => {
                                let objs = w.repos[i].find(&g.0, g.1).map(|v| &v.objects);
                                if objs != Some(&g.2) {
                                    return Err(at(format!("the copy of repository {i}, serial {}, is not what it published: {}", g.1, differ(objs, &g.2))));
                                }
                                if (&g.0, g.1) != (&c.session, c.serial) {
                                    return Err(at(format!("the copy of repository {i} is at serial {} of session {} instead of {} of {}", g.1, &g.0[..8.min(g.0.len())], c.serial, &c.session[..8])));
                                }
                            }
                        }
                    }
                    let s = said(&info.out.stdout, &w.notify[own]);
                    let r1 = judge_said(exp.as_ref().and_then(|m| m.get(&own)), &s);
                    if r1.is_err() {
                        judge_said(exp2.as_ref().and_then(|m| m.get(&own)), &s).map_err(|_| at(format!("{}; output: {}", r1.unwrap_err(), show_lines(&s))))?;
                    }
                    for i in 0..n {
                        cache[i] = decided.remove(&i).flatten();
                    }
                    hist.push(if *offline { "offline run".into() } else { "run".into() });
                }
            }
        }
        Ok(())
    })
}

fn differ(a: Option<&Objects>, b: &Objects) -> String {
    let a = match a {
        Some(a) => a,
        None => return "there is no such version".into(),
    };
    for (u, x) in b {
        match a.get(u) {
            None => return format!("{u} is not in it"),
            Some(y) if y != x => return format!("{u} is another"),
            _ => {}
        }
    }
    let m = a.keys().find(|u| !b.contains_key(*u));
    format!("{} is missing", m.cloned().unwrap_or_default())
}

/// What the copy of a reached repository has to be after a run.
#[allow(clippy::too_many_arguments)]
fn decide(want: &str, i: usize, o: &Offer, cache: &Option<Cached>, offline: bool, when: i64, reqs: &BTreeMap<String, usize>, touches: usize, same: bool, keep: &dyn Fn(&Option<Cached>) -> bool, note: &mut Note) -> Result<Option<Cached>, String> {
    let polite = want == "C21";
    let total: usize = reqs.values().sum();
    if offline {
        if polite && touches > 0 {
            return Err(format!("repository {i} was contacted in offline mode"));
        }
        note.nontrivial(if cache.is_some() { "offline-cached" } else { "offline-absent" });
        return Ok(cache.clone());
    }
    let asked = if o.down { touches } else { reqs.get(&o.notif_rel).copied().unwrap_or(0) };
    if polite {
        if asked > 1 || (o.down && touches > 1) {
            return Err(format!("repository {i} was asked {asked} times in one run"));
        }
        for (r, k) in reqs {
            if *k > 1 {
                return Err(format!("{r} of repository {i} was requested {k} times in one run"));
            }
        }
    }
    match cache {
        Some(c) if when - c.last < 3600 => {
            if touches > 0 && polite {
                return Err(format!("repository {i} was contacted {} s after its data had been retrieved", when - c.last));
            }
            if touches == 0 {
                note.nontrivial("cool-down");
                return Ok(cache.clone());
            }
        }
        Some(c) => {
            if touches == 0 {
                if when - c.contact > 3600 {
                    return Err(format!("repository {i} was not asked for changes {} s after the last time", when - c.contact));
                }
                return Ok(cache.clone());
            }
        }
        None => {
            if touches == 0 {
                return Err(format!("repository {i} was not asked for its data"));
            }
        }
    }
    if o.down || o.notif_bad {
        note.nontrivial(if cache.is_some() { "unreachable-cached" } else { "unreachable" });
        let mut c = cache.clone();
        if let Some(c) = &mut c {
            c.contact = when;
        }
        return Ok(c);
    }
    let fresh = Some(Cached { session: o.session.clone(), serial: o.serial, last: when, contact: when, tag: o.tag.clone() });
    let mut files = 0;
    let snap = reqs.get(&o.snap_rel).copied().unwrap_or(0);
    files += snap;
    let mut allowed: Vec<&String> = vec![];
    let mut clean = false;
    if let Some(c) = cache {
        if c.session == o.session && c.serial == o.serial {
            if polite && total > 1 {
                return Err(format!("repository {i} has not changed, but {total} requests were made"));
            }
            if polite && c.tag.is_some() && c.tag == o.tag {
                note.nontrivial("unchanged-tag");
                if !same {
                    return Err(format!("the notification of repository {i}, which has not changed since its data was had, was retrieved in full in spite of its entity tag"));
                }
            }
            note.nontrivial("unchanged");
            return Ok(Some(Cached { contact: when, ..c.clone() }));
        }
        if c.session == o.session && c.serial < o.serial {
            let need: Vec<u64> = (c.serial + 1..=o.serial).collect();
            allowed = need.iter().filter_map(|s| o.deltas.get(s)).map(|d| &d.0).collect();
            clean = o.contiguous && need.iter().all(|s| o.deltas.get(s).map(|d| d.1).unwrap_or(false));
            if allowed.iter().any(|u| reqs.contains_key(*u)) {
                note.class(format!("deltas:{}", allowed.iter().filter(|u| reqs.contains_key(**u)).count().min(4)));
            }
        }
    }
    for u in &allowed {
        files += reqs.get(*u).copied().unwrap_or(0);
    }
    if polite && files + asked != total {
        return Err(format!("repository {i}: {total} requests were made, {} for what is not needed", total - files - asked));
    }
    if clean {
        note.nontrivial("by-deltas");
        if polite && snap > 0 {
            return Err(format!("the snapshot of repository {i} was requested, although the deltas lead there"));
        }
        return Ok(fresh);
    }
    note.nontrivial(match (cache, o.snap_bad) {
        (None, false) => "first-snapshot",
        (None, true) => "first-fails",
        (Some(_), true) => "update-fails",
        (Some(c), false) if c.session != o.session => "new-session",
        (Some(c), false) if c.serial > o.serial => "gone-back",
        (Some(_), false) if !allowed.is_empty() => "deltas-fail",
        _ => "no-deltas",
    });
    if o.snap_bad {
        // Nothing, or what there was.
        return Ok(if keep(cache) { cache.clone().map(|c| Cached { contact: when, tag: None, ..c }) } else { None });
    }
    if snap == 0 {
        return Err(format!("the snapshot of repository {i} was not used, although deltas do not lead there"));
    }
    Ok(fresh)
}
