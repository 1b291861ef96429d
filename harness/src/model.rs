//! The source publication server as a model, and what relying parties see.
use crate::fsx::{hex, sha};
use base64::Engine;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use uuid::Uuid;

pub type Objects = BTreeMap<String, Vec<u8>>; // rsync URI -> content

#[derive(Clone, Debug)]
pub struct FileRef {
    pub rel: String,
    pub bytes: Vec<u8>,
    pub hash: [u8; 32],
}

#[derive(Clone, Debug)]
pub struct Ver {
    pub serial: u64,
    pub objects: Objects,
    pub snap: FileRef,
    pub delta: Option<FileRef>,
    /// How many deltas the notification of this version lists at most.
    pub window: usize,
}

#[derive(Clone, Debug)]
pub struct Sess {
    pub id: Uuid,
    pub vers: Vec<Ver>,
    pub cur: usize,
}

/// How a notification is rendered.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fmt(pub u8);

#[derive(Clone, Debug)]
pub struct Source {
    pub base: String,  // public base URI, slash-terminated
    pub notif: String, // notification file name
    pub style: u8,
    pub sessions: Vec<Sess>,
    pub cur: usize,
    pub window: usize,
    pub fmt: Fmt,
}

pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD.encode(b)
}

/// Base64 as different servers write it.
fn b64s(b: &[u8], style: u8) -> String {
    let t = b64(b);
    if !matches!(style / 10 % 4, 1 | 2) {
        return t;
    }
    let eol = if style / 10 % 4 == 1 { "\n" } else { "\r\n\t" };
    let lines: Vec<&str> = t.as_bytes().chunks(if style & 1 == 0 { 64 } else { 76 }).map(|c| std::str::from_utf8(c).unwrap()).collect();
    format!("{eol}{}{eol}", lines.join(eol))
}

/// What else may surround the elements.
fn dressed(s: String, style: u8) -> Vec<u8> {
    match style / 10 % 4 {
        1 => s.trim_end().as_bytes().to_vec(),
        2 => format!("<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\r\n{s}").into_bytes(),
        3 => {
            let (head, rest) = s.split_once('\n').unwrap();
            format!("<?xml version='1.0'?>\n<!-- made by hand -->\n{head}<!-- <publish uri=\"rsync://c.example/m/x\">AAAA</publish> -->\n{rest}<!-- end -->\n").into_bytes()
        }
        _ => s.into_bytes(),
    }
}

pub fn snapshot_xml(id: &Uuid, serial: u64, objs: &Objects, style: u8) -> Vec<u8> {
    let mut s = match style / 10 % 4 {
        3 => format!("<x:snapshot  serial='{serial}' session_id='{id}'\tversion='1' xmlns:x='http://www.ripe.net/rpki/rrdp' >\n"),
        _ => format!("<snapshot xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{id}\" serial=\"{serial}\">\n"),
    };
    let p = if style / 10 % 4 == 3 { "x:" } else { "" };
    for (u, b) in objs {
        let u = xml_escape(u);
        if style / 10 % 4 > 0 && style & 1 == 1 && b.is_empty() {
            s += &format!("<{p}publish uri=\"{u}\"/>");
        } else if style & 1 == 0 {
            s += &format!("  <{p}publish uri=\"{u}\">{}</{p}publish>\n", b64s(b, style));
        } else {
            s += &format!("<{p}publish\n uri='{u}'>\n{}\n</{p}publish>", b64s(b, style));
        }
    }
    s += &format!("</{p}snapshot>\n");
    dressed(s, style)
}

pub fn xml_escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\'', "&apos;")
}

pub fn delta_xml(id: &Uuid, serial: u64, old: &Objects, new: &Objects, style: u8) -> Vec<u8> {
    let mut s = format!("<delta xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{id}\" serial=\"{serial}\">\n");
    for (u, b) in new {
        let e = xml_escape(u);
        match old.get(u) {
            None => s += &format!("  <publish uri=\"{e}\">{}</publish>\n", b64s(b, style)),
            Some(o) if o != b => s += &format!("  <publish uri=\"{e}\" hash=\"{}\">{}</publish>\n", hex(&sha(o)), b64s(b, style)),
            _ => {}
        }
    }
    for (u, o) in old {
        if !new.contains_key(u) {
            s += &format!("  <withdraw uri=\"{}\" hash=\"{}\"/>\n", xml_escape(u), hex(&sha(o)));
        }
    }
    s += "</delta>\n";
    dressed(s, style)
}

pub fn file(rel: String, bytes: Vec<u8>) -> FileRef {
    let hash = sha(&bytes);
    FileRef { rel, bytes, hash }
}

/// Identifiers come in threes that have one half in common with the next.
fn sess_id(n: usize) -> Uuid {
    let h = |n: usize| sha(format!("session {n}").as_bytes());
    let mut b = [0u8; 16];
    b.copy_from_slice(&h(n / 3)[..16]);
    match n % 3 {
        1 => b[8..].copy_from_slice(&h(n + 1000)[..8]),
        2 => {
            b[..8].copy_from_slice(&h(n + 1000)[..8]);
            b[8..].copy_from_slice(&h(n - 1 + 1000)[..8]);
        }
        _ => {}
    }
    uuid::Builder::from_random_bytes(b).into_uuid()
}

impl Source {
    pub fn new(base: &str, notif: &str, style: u8, serial: u64, objects: Objects) -> Source {
        let mut s = Source {
            base: base.into(),
            notif: notif.into(),
            style,
            sessions: vec![],
            cur: 0,
            window: 100,
            fmt: Fmt(0),
        };
        s.new_session(serial, objects);
        s
    }

    pub fn notification_uri(&self) -> String {
        format!("{}{}", self.base, self.notif)
    }

    fn rel(&self, id: &Uuid, serial: u64, kind: &str) -> String {
        let rnd = &hex(&sha(format!("{id}{serial}{kind}").as_bytes()))[..16];
        match self.style % 5 {
            0 => format!("{id}/{serial}/{kind}.xml"),
            1 => format!("{id}/{serial}/{rnd}/{kind}.xml"),
            2 => format!("{kind}-{rnd}-{serial}.xml"),
            3 => format!("d;x=1/~{}/(a)'b'/%41+{serial}/{kind},{rnd}.xml", &rnd[..2]),
            _ => format!("{}/{kind}s/{}/{serial}-{rnd}", &id.to_string()[..8], serial % 3),
        }
    }

    pub fn new_session(&mut self, serial: u64, objects: Objects) {
        let n = self.sessions.len();
        let id = sess_id(n);
        let snap = file(self.rel(&id, serial, "snapshot"), snapshot_xml(&id, serial, &objects, self.style));
        self.sessions.push(Sess { id, vers: vec![Ver { serial, objects, snap, delta: None, window: self.window }], cur: 0 });
        self.cur = n;
    }

    pub fn sess(&self) -> &Sess {
        &self.sessions[self.cur]
    }

    pub fn ver(&self) -> &Ver {
        let s = self.sess();
        &s.vers[s.cur]
    }

    /// Publishes the next version in the current session, unless an earlier
    /// one is presented: then steps forward to the next existing one.
    pub fn publish(&mut self, objects: Objects) {
        let s = self.sess();
        if s.cur + 1 < s.vers.len() {
            self.sessions[self.cur].cur += 1;
            return;
        }
        let (id, old) = (s.id, s.vers.last().unwrap());
        let serial = match old.serial.checked_add(1) {
            Some(s) => s,
            None => return,
        };
        let snap = file(self.rel(&id, serial, "snapshot"), snapshot_xml(&id, serial, &objects, self.style));
        let delta = file(self.rel(&id, serial, "delta"), delta_xml(&id, serial, &old.objects, &objects, self.style));
        let window = self.window;
        let s = &mut self.sessions[self.cur];
        s.vers.push(Ver { serial, objects, snap, delta: Some(delta), window });
        s.cur = s.vers.len() - 1;
    }

    pub fn flip(&mut self, n: usize) {
        self.cur = n % self.sessions.len();
    }

    /// Presents an earlier version of the current session.
    pub fn rollback(&mut self, n: usize) {
        let s = &mut self.sessions[self.cur];
        s.cur = s.cur.saturating_sub(n);
    }

    /// Listed deltas, ascending.
    pub fn deltas(&self) -> Vec<(u64, &FileRef)> {
        let s = self.sess();
        let mut v: Vec<_> = s.vers[..=s.cur].iter().filter_map(|v| v.delta.as_ref().map(|d| (v.serial, d))).collect();
        let skip = v.len().saturating_sub(self.ver().window);
        v.drain(..skip);
        v
    }

    pub fn notification(&self) -> Vec<u8> {
        let ds: Vec<_> = self.deltas().iter().map(|(s, f)| (*s, format!("{}{}", self.base, f.rel), f.hash)).collect();
        let v = self.ver();
        notification_xml(&self.sess().id, v.serial, &format!("{}{}", self.base, v.snap.rel), &v.snap.hash, &ds, self.fmt)
    }

    /// All files by relative path that the server offers now; with `purge`
    /// only those its notification refers to.
    pub fn files(&self, purge: bool) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        if purge {
            let v = self.ver();
            m.insert(v.snap.rel.clone(), v.snap.bytes.clone());
            for (_, d) in self.deltas() {
                m.insert(d.rel.clone(), d.bytes.clone());
            }
        } else {
            for s in &self.sessions {
                for v in &s.vers {
                    m.insert(v.snap.rel.clone(), v.snap.bytes.clone());
                    if let Some(d) = &v.delta {
                        m.insert(d.rel.clone(), d.bytes.clone());
                    }
                }
            }
        }
        m
    }

    pub fn write(&self, dir: &Path, purge: bool) {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        for (r, b) in self.files(purge) {
            crate::fsx::write(&dir.join(r), &b);
        }
        crate::fsx::write(&dir.join(&self.notif), &self.notification());
    }

    /// Find the version a published (session, serial) refers to.
    pub fn find(&self, id: &str, serial: u64) -> Option<&Ver> {
        self.sessions.iter().find(|s| s.id.to_string() == id).and_then(|s| s.vers.iter().find(|v| v.serial == serial))
    }
}

pub fn notification_xml(id: &Uuid, serial: u64, snap: &str, shash: &[u8], deltas: &[(u64, String, [u8; 32])], fmt: Fmt) -> Vec<u8> {
    let f = fmt.0;
    let nl = if f & 1 == 0 { "\n" } else { "" };
    let q = if f & 2 == 0 { '"' } else { '\'' };
    let ind = if f & 4 == 0 { "  " } else { "\n\t " };
    let up = |h: &[u8]| if f & 8 == 0 { hex(h) } else { hex(h).to_uppercase() };
    let ids = if f & 8 == 0 { id.to_string() } else { id.to_string().to_uppercase() };
    let mut s = String::new();
    if f & 16 != 0 {
        s += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- generated -->\n";
    }
    if f & 32 == 0 {
        s += &format!("<notification xmlns={q}http://www.ripe.net/rpki/rrdp{q} version={q}1{q} session_id={q}{ids}{q} serial={q}{serial}{q}>{nl}");
    } else {
        s += &format!("<notification serial={q}{serial}{q} session_id={q}{ids}{q} version={q}1{q} xmlns={q}http://www.ripe.net/rpki/rrdp{q}>{nl}");
    }
    let esc = |u: &str| xml_escape(u);
    if f & 32 == 0 {
        s += &format!("{ind}<snapshot uri={q}{}{q} hash={q}{}{q}/>{nl}", esc(snap), up(shash));
    } else {
        s += &format!("{ind}<snapshot hash={q}{}{q} uri={q}{}{q} />{nl}", up(shash), esc(snap));
    }
    let mut ds: Vec<_> = deltas.to_vec();
    match f >> 6 {
        0 => ds.reverse(),
        1 => {}
        2 => {
            // interleaved
            let (a, b): (Vec<_>, Vec<_>) = ds.drain(..).enumerate().partition(|(i, _)| i % 2 == 1);
            ds = a.into_iter().chain(b).map(|x| x.1).collect();
        }
        _ => {
            let n = ds.len() / 2;
            ds.rotate_left(n);
        }
    }
    for (n, u, h) in ds {
        s += &format!("{ind}<delta serial={q}{n}{q} uri={q}{}{q} hash={q}{}{q}/>{nl}", esc(&u), up(&h));
    }
    s += &format!("</notification>{nl}");
    s.into_bytes()
}

//------------ What a relying party sees ---------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Listed {
    pub uri: String,
    pub hash: [u8; 32],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub raw: Vec<u8>,
    pub session: String,
    pub serial: u64,
    pub snapshot: Listed,
    pub deltas: BTreeMap<u64, Listed>,
    pub dup: bool,
}

pub fn parse_notification(raw: &[u8]) -> Result<View, String> {
    let n = rpki::rrdp::NotificationFile::parse(raw).map_err(|e| format!("not a well-formed notification file: {e}"))?;
    let l = |u: &rpki::uri::Https, h: rpki::rrdp::Hash| {
        let mut a = [0u8; 32];
        a.copy_from_slice(h.as_ref());
        Listed { uri: u.to_string(), hash: a }
    };
    let mut deltas = BTreeMap::new();
    for d in n.deltas() {
        deltas.insert(d.serial(), l(d.uri(), d.hash()));
    }
    let dup = deltas.len() != n.deltas().len();
    Ok(View {
        raw: raw.to_vec(),
        session: n.session_id().to_string(),
        serial: n.serial(),
        snapshot: l(n.snapshot().uri(), n.snapshot().hash()),
        deltas,
        dup,
    })
}

impl View {
    pub fn listed(&self) -> impl Iterator<Item = &Listed> {
        std::iter::once(&self.snapshot).chain(self.deltas.values())
    }
    pub fn rels(&self, base: &str) -> BTreeSet<String> {
        self.listed().filter_map(|l| l.uri.strip_prefix(base).map(|s| s.to_string())).collect()
    }
    /// Are all listed files in place with the right hash?
    pub fn check_files(&self, dir: &Path, base: &str) -> Result<(), String> {
        for l in self.listed() {
            let rel = l.uri.strip_prefix(base).ok_or_else(|| format!("notification lists {} outside its base", l.uri))?;
            let p = dir.join(rel);
            match std::fs::read(&p) {
                Err(e) => return Err(format!("listed file {rel} is not available: {e}")),
                Ok(b) => {
                    if sha(&b) != l.hash {
                        return Err(format!("listed file {rel} does not have the listed hash"));
                    }
                }
            }
        }
        Ok(())
    }
}

/// Reads the public notification; Ok(None) when there is none.
pub fn view(dir: &Path, name: &str) -> Result<Option<View>, String> {
    match std::fs::read(dir.join(name)) {
        Err(_) => Ok(None),
        Ok(b) => parse_notification(&b).map(Some),
    }
}

/// Where an object belongs below a version directory.
pub fn rsync_rel(uri: &str, include_host: bool) -> String {
    let rest = uri.strip_prefix("rsync://").unwrap_or(uri);
    if include_host {
        rest.to_string()
    } else {
        rest.splitn(3, '/').nth(2).unwrap_or("").to_string()
    }
}

pub fn rsync_layout(objs: &Objects, include_host: bool) -> BTreeMap<String, Vec<u8>> {
    objs.iter().map(|(u, b)| (rsync_rel(u, include_host), b.clone())).collect()
}
