//! Arbitrary bytes in all inputs.
use crate::explore::Note;
use crate::fsx::{self, sha};
use crate::hist::*;
use crate::model::*;
use crate::pki::{self, Obj, Tree};
use crate::tls;
use crate::val::World;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::ffi::OsString;

/// A change of a text document. Positions are taken modulo what there is.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TMut {
    Flip(u16, u8),
    Delete(u16, u8),
    Insert(u16, u8),
    Truncate(u16),
    Repeat(u16, u8, u8),
    /// Another value for an attribute, or none at all.
    Attr(u16, u8),
    NoAttr(u16),
    DupAttr(u16),
    /// Removes, repeats or moves a tag.
    NoTag(u16),
    DupTag(u16),
    MoveTag(u16, u16),
    /// Text between tags.
    Text(u16, u8),
    /// A number.
    Num(u16, u8),
    /// Something around it.
    Wrap(u8),
    Whole(u8),
}

/// A change of a JSON document: a place, and what to do there.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct JMut(pub u16, pub u8);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Input {
    /// Notification, snapshot, any delta; the documents that refer to it follow.
    Doc(u8, bool, Vec<TMut>),
    /// Content of objects.
    Objects(Vec<(u8, Vec<TMut>)>),
    /// RRDP or rsync state.
    Json(u8, Vec<JMut>),
    State(u8, Vec<TMut>),
    Tal(Vec<TMut>),
    Ta(Vec<TMut>),
    Cli(Vec<(u8, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCase {
    pub cfg: Cfg,
    /// Versions published before, each followed by a run.
    pub first: u8,
    /// Versions published in between.
    pub more: u8,
    pub session: bool,
    pub tal: bool,
    pub reject: bool,
    /// The serial to start at, if not 0.
    #[serde(default)]
    pub serial: u64,
    pub input: Input,
}

fn vals() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "0", "-1", "1", "2", "00001", "18446744073709551615", "18446744073709551614", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999999999", "+5", " 7 ", "0x10", "1e3", "NaN", "\u{e9}", "\u{202e}x", "https://", "https:///", "https://pub.example", "https://pub.example/", "https://pub.example/rrdp/",
        "https://pub.example/rrdp/../x", "https://pub.example/rrdp/.", "https://pub.example/rrdp//", "https://pub.example/rrdp/%2e%2e/%00", "https://pub.example/rrdp/a/b/c/d/e/f/g/h/i/j/k/l", "https://pub.example/rrdp/notification.xml", "https://pub.example/rrdp/a?b#c", "https://pub.example:99999/rrdp/x", "https://[::1]/rrdp/x", "https://user@pub.example/rrdp/x",
        "HTTPS://PUB.EXAMPLE/rrdp/x", "http://pub.example/rrdp/x", "rsync://", "rsync://h.example", "rsync://h.example/", "rsync://h.example/repo", "rsync://h.example/repo/", "rsync://h.example/repo//", "rsync://h.example/repo/a/", "rsync://h.example/repo/../x", "rsync://h.example//x", "file:///dev/null", "&amp;", "&#0;", "&#x110000;", "&#65;&lt;", "&bogus;", "&", "<", ">", "%00", "//", ".", "..",
        "00000000-0000-0000-0000-000000000000", "000000000000000000000000000000000000", "urn:uuid:6a979d3a-a72f-4e4e-a5e6-4bde08b16928", "{6a979d3a-a72f-4e4e-a5e6-4bde08b16928}", "6a979d3aa72f4e4ea5e64bde08b16928", "zz", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "E3B0C44298FC1C149AFBF4C8996FB92427AE41E4649B934CA495991B7852B85", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b8550", "AAAA", "AAA", "A===", "====", "AA AA\n", "_-_-", "http://www.ripe.net/rpki/rrdp", "xmlns",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push(vec![0]);
    v.push(vec![0xff, 0xfe]);
    v.push(vec![0xc0, 0x80]);
    v.push(vec![b'A'; 70_000]);
    v.push(b"https://pub.example/rrdp/".iter().copied().chain(vec![b'a'; 5000]).collect());
    v.push(b"https://pub.example/rrdp/".iter().copied().chain(b"a/".repeat(3000)).collect());
    v.push(vec![b'1'; 3000]);
    v
}

fn dict() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "<", ">", "\"", "'", "/>", "</", "<?xml version=\"1.0\"?>", "<!-- x -->", "<!--", "<![CDATA[x]]>", "<![CDATA[", "]]>", "<!DOCTYPE x [<!ENTITY a \"aaaa\"><!ENTITY b \"&a;&a;&a;&a;\">]>", "&", "&lt;", "&a;", "<?pi?>", "<?", "<publish/>", "<publish uri=\"rsync://h.example/repo/x\"></publish>", "<publish uri=\"rsync://h.example/repo/x\"/>",
        "<publish uri=\"rsync://h.example/repo/x\">AA==<x/></publish>", "<withdraw/>", "<withdraw uri=\"rsync://h.example/repo/x\" hash=\"00\"/>", "<delta/>", "<delta serial=\"1\" uri=\"https://pub.example/rrdp/d\" hash=\"e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855\"/>", "<snapshot/>", "<notification/>", "</notification>", "</snapshot>", "</delta>", "<a:b xmlns:a=\"x\"/>", "\0", "\r\n", "\t", " ", "=",
        "xmlns=\"\"", "# comment\n", "https://ta.example/ta/ta.cer\n", "rsync://ta.example/ta/ta.cer\n", "\n\n", "{", "}", "[", "]", ",", ":", "null", "\\u0000", "\\ud800", "\\", "1e999", "-",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push(vec![0xef, 0xbb, 0xbf]);
    v.push(vec![0xff; 40]);
    v.push(b"<a>".repeat(3000));
    v.push(b"[".repeat(3000));
    v.push(b"{\"a\":".repeat(3000));
    v.push(vec![b' '; 100_000]);
    v.push(vec![0x30, 0x80].repeat(2000));
    v.push(vec![0x24, 0x80].repeat(2000));
    v
}

/// Ranges found by a scan.
fn spans(b: &[u8], what: u8) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let stop = match what {
            b'"' if b[i] == b'"' => b[i + 1..].iter().position(|c| *c == b'"').map(|k| (i + 1, i + 1 + k, i + k + 2)),
            b'<' if b[i] == b'<' => b[i..].iter().position(|c| *c == b'>').map(|k| (i, i + k + 1, i + k + 1)),
            b'>' if b[i] == b'>' => b[i + 1..].iter().position(|c| *c == b'<').map(|k| (i + 1, i + 1 + k, i + 1 + k)),
            b'0' if b[i].is_ascii_digit() => {
                let n = b[i..].iter().position(|c| !c.is_ascii_digit()).unwrap_or(b.len() - i);
                Some((i, i + n, i + n))
            }
            _ => None,
        };
        match stop {
            Some((x, y, next)) => {
                v.push((x, y));
                i = next.max(i + 1);
            }
            None => i += 1,
        }
    }
    v
}

fn splice(b: &mut Vec<u8>, (x, y): (usize, usize), new: &[u8]) {
    b.splice(x..y, new.iter().copied());
}

pub fn mutate(b: &[u8], muts: &[TMut]) -> Vec<u8> {
    let mut b = b.to_vec();
    let (vals, dict) = (vals(), dict());
    let val = |k: u8| &vals[k as usize % vals.len()];
    let dic = |k: u8| &dict[k as usize % dict.len()];
    let pick = |l: Vec<(usize, usize)>, k: u16| if l.is_empty() { None } else { Some(l[k as usize % l.len()]) };
    for m in muts {
        let n = b.len();
        let at = |k: u16| (k as usize * 31 + k as usize / 7) % n.max(1);
        match m {
            TMut::Flip(i, x) if n > 0 => b[at(*i)] ^= x | 1,
            TMut::Delete(i, l) if n > 0 => {
                let i = at(*i);
                b.drain(i..(i + 1 + *l as usize).min(n));
            }
            TMut::Insert(i, k) => {
                let i = at(*i).min(n);
                splice(&mut b, (i, i), dic(*k));
            }
            TMut::Truncate(i) => b.truncate(at(*i)),
            TMut::Repeat(i, l, c) if n > 0 => {
                let i = at(*i);
                let p = b[i..(i + 1 + *l as usize * 4).min(n)].to_vec();
                for _ in 0..=*c {
                    if b.len() < 1 << 21 {
                        splice(&mut b, (i, i), &p);
                    }
                }
            }
            TMut::Attr(i, k) => {
                if let Some(s) = pick(spans(&b, b'"'), *i) {
                    splice(&mut b, s, val(*k));
                }
            }
            TMut::NoAttr(i) | TMut::DupAttr(i) => {
                if let Some((x, y)) = pick(spans(&b, b'"'), *i) {
                    let start = b[..x].iter().rposition(|c| *c == b' ').unwrap_or(x);
                    let end = (y + 1).min(n);
                    let p = b[start..end].to_vec();
                    match m {
                        TMut::NoAttr(_) => splice(&mut b, (start, end), b""),
                        _ => splice(&mut b, (start, start), &p),
                    }
                }
            }
            TMut::NoTag(i) => {
                if let Some(s) = pick(spans(&b, b'<'), *i) {
                    splice(&mut b, s, b"");
                }
            }
            TMut::DupTag(i) => {
                if let Some((x, y)) = pick(spans(&b, b'<'), *i) {
                    let p = b[x..y].to_vec();
                    splice(&mut b, (x, x), &p);
                }
            }
            TMut::MoveTag(i, j) => {
                if let Some((x, y)) = pick(spans(&b, b'<'), *i) {
                    let p: Vec<u8> = b.drain(x..y).collect();
                    if let Some((x, _)) = pick(spans(&b, b'<'), *j) {
                        splice(&mut b, (x, x), &p);
                    }
                }
            }
            TMut::Text(i, k) => {
                if let Some(s) = pick(spans(&b, b'>'), *i) {
                    splice(&mut b, s, val(*k));
                }
            }
            TMut::Num(i, k) => {
                if let Some(s) = pick(spans(&b, b'0'), *i) {
                    splice(&mut b, s, val(*k));
                }
            }
            TMut::Wrap(k) => {
                let d = dic(*k).clone();
                if k % 2 == 0 {
                    splice(&mut b, (0, 0), &d);
                } else {
                    b.extend(d);
                }
            }
            TMut::Whole(k) => {
                b = match k % 6 {
                    0 => vec![],
                    1 => pki::garbage(*k / 6),
                    2 => String::from_utf8_lossy(&b).encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
                    3 => dic(*k / 6).clone(),
                    4 => val(*k / 6).clone(),
                    _ => b.iter().rev().copied().collect(),
                }
            }
            _ => {}
        }
    }
    b
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}

fn visit(v: &mut Value, at: &mut usize, f: &mut dyn FnMut(&mut Value)) -> bool {
    if *at == 0 {
        f(v);
        return true;
    }
    *at -= 1;
    match v {
        Value::Array(a) => a.iter_mut().any(|x| visit(x, at, f)),
        Value::Object(o) => o.values_mut().any(|x| visit(x, at, f)),
        _ => false,
    }
}

/// No value leads outside the directories of the case.
pub fn mutate_json(v: &mut Value, muts: &[JMut]) {
    for JMut(at, how) in muts {
        let mut i = *at as usize % count(v);
        if how % 4 < 2 {
            // One of the numbers, if there is one.
            let n: Vec<usize> = (0..count(v))
                .filter(|i| {
                    let mut num = false;
                    visit(v, &mut i.clone(), &mut |x| num = x.is_number());
                    num
                })
                .collect();
            if how % 8 < 4 && !n.is_empty() {
                i = n[*at as usize % n.len()];
            }
        }
        visit(v, &mut i, &mut |x| {
            let nums = [json!(0), json!(1), json!(-1), json!(i64::MIN), json!(i64::MIN + 1), json!(i64::MAX), json!(u64::MAX), json!(u64::MAX - 1), json!(1u64 << 63), json!(8_210_266_876_800i64), json!(-8_334_601_228_801i64), json!(1e308), json!(-0.5), json!(253402300800i64)];
            let k = *how as usize / 4;
            match how % 4 {
                // Numbers of the same kind most of the time.
                0 | 1 if x.is_number() => *x = nums[(*how as usize / 2) % nums.len()].clone(),
                0 if x.is_boolean() => *x = json!(!x.as_bool().unwrap()),
                1 if x.is_array() => {
                    if let Some(a) = x.as_array_mut() {
                        match (a.pop(), k % 3) {
                            (Some(e), 0) => a.extend([e.clone(), e]),
                            (Some(e), 1) => a.insert(0, e),
                            _ => {}
                        }
                    }
                }
                2 if x.is_object() => {
                    if let Some(o) = x.as_object_mut() {
                        if let Some(key) = o.keys().nth(k % o.len().max(1)).cloned() {
                            let y = o.remove(&key);
                            if k % 3 == 0 {
                                o.insert(format!("{key}x"), y.unwrap());
                            }
                        }
                    }
                }
                _ => {
                    let all = [json!(null), json!(true), json!(""), json!("x"), json!("a/b"), json!("A".repeat(70_000)), json!("\u{0}"), json!([]), json!({}), json!([[[[]]]]), json!({"a": {"b": 1}}), json!("00000000-0000-0000-0000-000000000000"), json!("https://pub.example/rrdp/"), json!("zz"), json!("====")];
                    let n = all.len();
                    *x = if k < n { all[k].clone() } else { nums[(k - n) % nums.len()].clone() }
                }
            }
        });
    }
}

const CLI: &[(&str, &[&str])] = &[
    ("--cleanup-after", &["0", "1", "-1", "9223372036854775807", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "x", "", "1.5", "8210266876799", "-8334601228800", "100000000000000", "-100000000000000", "1760000000"]),
    ("--rrdp-max-deltas", &["0", "1", "18446744073709551615", "18446744073709551616", "-1", "", "x"]),
    ("--rrdp-notify-delay", &["0", "1", "100000", "-1", "18446744073709551616", "x", ""]),
    ("--source-uri-base", &["", "/", "x", "none/", "source", "source/notification.xml", "http://pub.example/", "https://", "https://down.example/", "https://pub.example/a/b/", "https://pub.example/x?y/", "file:///none/", "\u{e9}/", "%00/", "rsync://h.example/m/"]),
    ("--tal", &["none.tal", ".", "", "/dev/null", "source/notification.xml"]),
    ("--pre-validate", &["none.sh", ".", "", "source/notification.xml"]),
    ("--state-dir", &["", "source/notification.xml", "new/a/b", ".", "./state/../state2"]),
    ("--rrdp-dir", &["", "source/notification.xml", "new/a/b", "./new/./x/"]),
    ("--rsync-dir", &["", "source/notification.xml", "new/a/b", "./new/../new2"]),
    ("-v", &[]),
    ("-q", &[]),
    ("-vvvv", &[]),
    ("--rsync-disable", &[]),
    ("--rsync-include-host", &[]),
    ("--tal-reject-invalid", &[]),
    ("--offline-validation", &[]),
    ("--insecure", &[]),
    ("--bogus", &[]),
    ("--", &[]),
    ("\u{e9}", &[]),
    ("--help", &[]),
    ("--version", &[]),
    ("URI", &["https://", "https://x", "https://x/", "https:///", "https://pub.example/rrdp/", "https://pub.example/rrdp/..", "https://pub.example/rrdp/../n", "https://pub.example/rrdp/.", "https://[::1]/n", "https://pub.example:99999/n", "https://u:p@pub.example/n", "HTTPS://pub.example/n", "http://pub.example/n", "rsync://pub.example/m/n", "", "-", "/", "x", "\u{e9}", "https://pub.example/\u{e9}", "https://pub.example/rrdp/%2e%2e", "https://pub.example/rrdp/a?b", "https://pub.example//n", "https://pub.example/rrdp/current", "https://pub.example/rrdp/rrdp-state.json"]),
];

fn tree(n: u8) -> Tree {
    let obj = |kind: u8, k: u8| Obj { kind, unit: k, n: n.wrapping_mul(3).wrapping_add(k), fault: None };
    let ca = |parent: u8, mask: u16| pki::Ca { parent, repo: 0, mask, how: 0, fault: None, pp: None, objs: vec![obj(0, 1), obj(3, 2), obj(2, 3)], cycle: None };
    Tree { cas: vec![ca(0, 0xffff), ca(0, 0x00ff)], ta: None, version: n, roots: 0, ta_at: 0, tal_style: n }
}

pub fn play(c: &BCase, t: usize, note: &mut Note) -> Result<(), String> {
    tls::server(|tls| {
        let mut w = World::new("C20", &c.cfg, &tree(0), 1, 0, t, tls);
        w.offer_tas();
        w.tal_args(c.tal, c.reject, false);
        let mut ver = 0u8;
        let mut publish = |w: &mut World, session: bool| {
            ver += 1;
            let b = pki::build(&tree(ver), &pki::Hosts { notify: &w.notify.clone() }, T0);
            let mut o = b.repos[0].clone();
            o.insert("rsync://host9.example/repo/other.bin".into(), vec![ver; ver as usize]);
            if session {
                w.e.src.new_session(1, o);
            } else {
                w.e.src.publish(o);
            }
        };
        if c.serial != 0 {
            let o = w.e.src.ver().objects.clone();
            w.e.src.new_session(c.serial, o);
        }
        for i in 0..c.first {
            if i > 0 {
                publish(&mut w, false);
            }
            w.own_source();
            let info = w.e.exec(None, None, &mut Engine::none)?;
            if !info.out.ok() {
                return Err(format!("run {i} without anything odd failed: {}", info.out.show()));
            }
            w.e.now += 100;
        }
        for _ in 0..c.more {
            publish(&mut w, false);
        }
        if c.session {
            publish(&mut w, true);
            publish(&mut w, false);
        }
        w.own_source();
        let mut changed = false;
        let what;
        let dir = w.e.src_dir();
        match &c.input {
            Input::Doc(k, follow, m) => {
                let src = &w.e.src;
                let s = src.ver().snap.clone();
                let mut list: Vec<(u64, String, [u8; 32])> = src.deltas().iter().map(|(s, d)| (*s, format!("{}{}", src.base, d.rel), d.hash)).collect();
                let mut hash = s.hash;
                match k % 4 {
                    0 | 3 => {
                        what = "notification";
                    }
                    1 => {
                        what = "snapshot";
                        let b = mutate(&s.bytes, m);
                        changed = b != s.bytes;
                        fsx::write(&dir.join(&s.rel), &b);
                        hash = sha(&b);
                    }
                    _ => {
                        what = "delta";
                        if !list.is_empty() {
                            let i = *k as usize / 4 % list.len();
                            let d = src.deltas()[i].1.clone();
                            let b = mutate(&d.bytes, m);
                            changed = b != d.bytes;
                            fsx::write(&dir.join(&d.rel), &b);
                            list[i].2 = sha(&b);
                        }
                    }
                }
                let n = notification_xml(&src.sess().id, src.ver().serial, &format!("{}{}", src.base, s.rel), &hash, &list, src.fmt);
                if what == "notification" {
                    let b = mutate(&n, m);
                    changed = b != n;
                    fsx::write(&dir.join(&src.notif), &b);
                } else if *follow {
                    fsx::write(&dir.join(&src.notif), &n);
                }
            }
            Input::Objects(l) => {
                what = "objects";
                let mut o = w.e.src.ver().objects.clone();
                let keys: Vec<String> = o.keys().cloned().collect();
                for (k, m) in l {
                    let b = o.get_mut(&keys[*k as usize % keys.len()]).unwrap();
                    let x = mutate(b, m);
                    changed |= x != *b;
                    *b = x;
                }
                w.e.src.publish(o);
                w.own_source();
            }
            Input::Json(k, m) => {
                what = "state values";
                let p = w.e.state_dir().join(if k % 4 == 3 { "rsync-state.json" } else { "rrdp-state.json" });
                if let Ok(b) = std::fs::read(&p) {
                    let mut v: Value = serde_json::from_slice(&b).map_err(|e| format!("saved state is no JSON: {e}"))?;
                    let old = v.clone();
                    mutate_json(&mut v, m);
                    changed = v != old;
                    std::fs::write(&p, serde_json::to_vec(&v).unwrap()).unwrap();
                }
            }
            Input::State(k, m) => {
                what = "state bytes";
                let p = w.e.state_dir().join(if k % 2 == 1 { "rsync-state.json" } else { "rrdp-state.json" });
                if let Ok(b) = std::fs::read(&p) {
                    let x = mutate(&b, m);
                    // Paths in there are where files are removed from. So, only
                    // what certainly is no usable state.
                    if serde_json::from_slice::<Value>(&x).is_err() {
                        changed = true;
                        std::fs::write(&p, x).unwrap();
                    }
                }
            }
            Input::Tal(m) => {
                what = "TAL";
                let b = mutate(w.built.tas[0].tal.as_bytes(), m);
                changed = b != w.built.tas[0].tal.as_bytes();
                fsx::write(&w.e.root.join("w/ta.tal"), &b);
                w.tal_args(true, c.reject, false);
            }
            Input::Ta(m) => {
                what = "TA certificate";
                let b0 = w.built.tas[0].cert.clone().unwrap();
                let b = mutate(&b0, m);
                changed = b != b0;
                w.offer_ta(crate::pki::TA_URI, Some(&b));
                w.tal_args(true, c.reject, false);
            }
            Input::Cli(l) => {
                what = "options";
                changed = !l.is_empty();
                for (o, v) in l {
                    let (name, vals) = CLI[*o as usize % CLI.len()];
                    if name == "URI" {
                        w.e.uri_arg = Some(vals[*v as usize % vals.len()].into());
                        continue;
                    }
                    let a: OsString = if vals.is_empty() { name.into() } else { format!("{name}={}", vals[*v as usize % vals.len()]).into() };
                    w.e.extra_args.push(a);
                }
            }
        }
        let before = w.e.capture();
        let cur = w.e.rsync_dir().join("current");
        let link = std::fs::read_link(&cur).ok();
        let served = |e: &Engine| std::fs::canonicalize(e.rsync_dir().join("current")).ok().and_then(|p| fsx::files(&p).ok());
        let rsync0 = served(&w.e);
        let notif = w.e.rrdp_dir().join(&w.e.src.notif);
        let notif0 = std::fs::read(&notif).ok();
        let info = w.e.exec(None, None, &mut Engine::none)?;
        drop(before);
        let out = &info.out;
        if changed {
            note.nontrivial(format!("{what}:{}", if out.ok() { "accepted" } else { "refused" }));
        }
        let at = |m: String| format!("{what} changed: {m}: {}", out.show());
        if out.crashed() || out.code.is_none() {
            return Err(at("the run crashed".into()));
        }
        if !matches!(out.code, Some(0) | Some(1)) {
            return Err(at("unexpected exit status".into()));
        }
        let source = matches!(c.input, Input::Doc(..) | Input::Objects(_) | Input::Tal(_) | Input::Ta(_) | Input::State(..));
        if !out.ok() {
            if out.stderr.trim().is_empty() && out.stdout.trim().is_empty() {
                return Err(at("the run failed without saying anything".into()));
            }
            if source {
                if std::fs::read(&notif).ok() != notif0 {
                    return Err(at("the run failed but changed the public notification".into()));
                }
                if std::fs::read_link(&cur).ok() != link || served(&w.e) != rsync0 {
                    return Err(at("the run failed but changed rsync 'current'".into()));
                }
            }
        } else if source {
            if let Some(v) = view(&w.e.rrdp_dir(), &w.e.src.notif).map_err(&at)? {
                v.check_files(&w.e.rrdp_dir(), &w.e.src.base).map_err(&at)?;
            }
        }
        Ok(())
    })
}
