//! RPKI material: keys, certificates, signed objects and whole CA trees with
//! faults at chosen places, together with what validation has to find.
use crate::fsx::sha;
use crate::model::Objects;
use bytes::Bytes;
use chrono::TimeZone;
use openssl::pkey::{PKey, Private};
use rpki::crypto::keys::{PublicKey, PublicKeyFormat};
use rpki::crypto::signer::{KeyError, Signer, SigningError};
use rpki::crypto::{DigestAlgorithm, RpkiSignatureAlgorithm, Signature, SignatureAlgorithm};
use rpki::repository::aspa::AspaBuilder;
use rpki::repository::cert::{ExtendedKeyUsage, KeyUsage, Overclaim, TbsCert};
use rpki::repository::crl::{CrlEntry, TbsCertList};
use rpki::repository::manifest::{FileAndHash, ManifestContent};
use rpki::repository::resources::{Addr, AsBlock, Prefix};
use rpki::repository::roa::{RoaBuilder, RoaIpAddress};
use rpki::repository::sigobj::SignedObjectBuilder;
use rpki::repository::x509::{Time, Validity};
use rpki::resources::Asn;
use rpki::uri;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;
use std::sync::{Mutex, OnceLock};

//------------ Keys ----------------------------------------------------------

struct Keys {
    rsa: Vec<(PKey<Private>, PublicKey)>,
    ec: PublicKey,
    cache: Mutex<HashMap<[u8; 32], Bytes>>,
}

/// The first keys are for CAs, the others for end entities.
const CA_KEYS: usize = 18;

fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| {
        let pem = include_str!("../keys/rsa.pem");
        let end = "-----END PRIVATE KEY-----";
        let rsa = pem
            .split_inclusive(end)
            .filter(|p| p.contains(end))
            .map(|p| {
                let k = PKey::private_key_from_pem(p.as_bytes()).unwrap();
                let i = PublicKey::decode(k.public_key_to_der().unwrap().as_slice()).unwrap();
                (k, i)
            })
            .collect();
        let e = PKey::private_key_from_pem(include_bytes!("../keys/ec.pem")).unwrap();
        Keys { rsa, ec: PublicKey::decode(e.public_key_to_der().unwrap().as_slice()).unwrap(), cache: Mutex::new(HashMap::new()) }
    })
}

fn raw_sign(key: usize, data: &[u8]) -> Bytes {
    let k = keys();
    let mut d = Vec::with_capacity(data.len() + 8);
    d.extend_from_slice(&key.to_be_bytes());
    d.extend_from_slice(data);
    let id = sha(&d);
    if let Some(b) = k.cache.lock().unwrap().get(&id) {
        return b.clone();
    }
    let mut s = openssl::sign::Signer::new(openssl::hash::MessageDigest::sha256(), &k.rsa[key].0).unwrap();
    s.update(data).unwrap();
    let b = Bytes::from(s.sign_to_vec().unwrap());
    let mut c = k.cache.lock().unwrap();
    if c.len() > 100_000 {
        c.clear();
    }
    c.insert(id, b.clone());
    b
}

/// Signs with keys of the pool, on request not with those it pretends to use.
#[derive(Clone, Copy, Default)]
pub struct Pool {
    pub lie_cert: bool,
    pub lie_cms: bool,
}

impl Signer for Pool {
    type KeyId = usize;
    type Error = String;
    fn create_key(&self, _: PublicKeyFormat) -> Result<usize, String> {
        Err("no".into())
    }
    fn get_key_info(&self, key: &usize) -> Result<PublicKey, KeyError<String>> {
        Ok(keys().rsa[*key].1.clone())
    }
    fn destroy_key(&self, _: &usize) -> Result<(), KeyError<String>> {
        Ok(())
    }
    fn sign<Alg: SignatureAlgorithm, D: AsRef<[u8]> + ?Sized>(&self, key: &usize, alg: Alg, data: &D) -> Result<Signature<Alg>, SigningError<String>> {
        let k = if self.lie_cert { (*key + 1) % CA_KEYS } else { *key };
        Ok(Signature::new(alg, raw_sign(k, data.as_ref())))
    }
    fn sign_one_off<Alg: SignatureAlgorithm, D: AsRef<[u8]> + ?Sized>(&self, alg: Alg, data: &D) -> Result<(Signature<Alg>, PublicKey), String> {
        let n = keys().rsa.len() - CA_KEYS;
        let i = sha(data.as_ref())[0] as usize % n;
        let j = if self.lie_cms { (i + 1) % n } else { i };
        Ok((Signature::new(alg, raw_sign(CA_KEYS + j, data.as_ref())), keys().rsa[CA_KEYS + i].1.clone()))
    }
    fn rand(&self, t: &mut [u8]) -> Result<(), String> {
        t.fill(7);
        Ok(())
    }
}

pub fn time(t: i64) -> Time {
    Time::new(chrono::Utc.timestamp_opt(t, 0).unwrap())
}

pub fn validity(from: i64, to: i64) -> Validity {
    Validity::new(time(from), time(to))
}

fn rsync(s: &str) -> uri::Rsync {
    uri::Rsync::from_str(s).unwrap_or_else(|e| panic!("harness: {s}: {e}"))
}

//------------ Resources -----------------------------------------------------

/// Resources come in units: unit u stands for 10.(16u)/12, 2001:db8:u000/36
/// and AS 64000 + 100u to + 99. Unit 16 and up are nobody's.
fn v4(u: u8) -> Prefix {
    if u < 16 {
        Prefix::new(Addr::from_bits((10u128 << 120) | ((u as u128 * 16) << 112)), 12)
    } else {
        Prefix::new(Addr::from_bits(11u128 << 120), 12)
    }
}
fn v6(u: u8) -> Prefix {
    let base = 0x2001_0db8u128 << 96;
    if u < 16 {
        Prefix::new(Addr::from_bits(base | ((u as u128) << 92)), 36)
    } else {
        Prefix::new(Addr::from_bits(0x2001_0db9u128 << 96), 36)
    }
}
fn asn(u: u8, n: u32) -> Asn {
    Asn::from_u32(if u < 16 { 64000 + 100 * u as u32 + n % 100 } else { 70000 + n % 100 })
}

fn units(mask: u32) -> impl Iterator<Item = u8> {
    (0..20u8).filter(move |u| mask & (1 << u) != 0)
}

fn set_resources(c: &mut TbsCert, mask: u32, fam: u8) {
    if fam & 1 == 0 {
        c.build_v4_resource_blocks(|b| units(mask).for_each(|u| b.push(v4(u))));
    }
    if fam & 2 == 0 {
        c.build_v6_resource_blocks(|b| units(mask).for_each(|u| b.push(v6(u))));
    }
    c.build_as_resource_blocks(|b| units(mask).for_each(|u| b.push(AsBlock::from((asn(u, 0), asn(u, 99))))));
}

//------------ Specification -------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum ObjF {
    Missing,
    Altered,
    Garbage(u8),
    Truncated(u8),
    OtherIssuer,
    CertSig,
    CmsSig,
    Expired,
    NotYet,
    /// Expires that many seconds after the reference time.
    Until(u32),
    Revoked,
    Overclaim,
    WrongExt(u8),
    /// Intact, but the manifest lists another hash.
    Rehashed,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum CerF {
    Missing,
    Altered,
    Garbage(u8),
    Truncated(u8),
    OtherIssuer,
    CertSig,
    Expired,
    NotYet,
    Until(u32),
    Revoked,
    Overclaim,
    NoMft,
    NoRepo,
    NoRrdp,
    NotListed,
    Rehashed,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum PpF {
    MftMissing,
    MftGarbage(u8),
    MftTruncated(u8),
    MftOtherIssuer,
    MftCertSig,
    MftCmsSig,
    MftExpired,
    MftNotYet,
    MftUntil(u32),
    MftRevoked,
    MftStale,
    CrlNotListed,
    CrlMissing,
    CrlAltered,
    CrlGarbage(u8),
    CrlTruncated(u8),
    CrlSig,
    CrlStale,
    OddName(u8),
    CrlRehashed,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Obj {
    pub kind: u8,
    pub unit: u8,
    pub n: u8,
    pub fault: Option<ObjF>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Ca {
    pub parent: u8,
    pub repo: u8,
    pub mask: u16,
    /// 0 inherits, 1 explicit, 2 explicit with trimming.
    pub how: u8,
    pub fault: Option<CerF>,
    pub pp: Option<PpF>,
    pub objs: Vec<Obj>,
    /// Also issues a CA certificate for one of its ancestors, or itself.
    pub cycle: Option<u8>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum TaF {
    Missing,
    Garbage(u8),
    Expired,
    NotYet,
    OtherKey,
    Inherit,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Tree {
    /// Index 0 is the trust anchor, as are the next `roots`.
    pub cas: Vec<Ca>,
    pub ta: Option<TaF>,
    #[serde(default)]
    pub roots: u8,
    /// To which of them `ta` applies.
    #[serde(default)]
    pub ta_at: u8,
    #[serde(default)]
    pub tal_style: u8,
    /// Distinguishes successive versions of the same tree.
    pub version: u8,
}

//------------ Expectation ---------------------------------------------------

pub type Vrp = (u32, String, Option<u8>);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RepoExp {
    pub certs: BTreeSet<String>,
    pub roas: BTreeMap<String, BTreeSet<Vrp>>,
    pub aspas: BTreeMap<String, (u32, Vec<u32>)>,
    pub routers: BTreeSet<String>,
    /// For each fault the URIs one of which an issue has to name.
    pub issues: Vec<BTreeSet<String>>,
    /// May or may not lead to an issue (and be counted as certificate).
    pub maybe: BTreeSet<String>,
}

impl RepoExp {
    pub fn vrps(&self) -> usize {
        self.roas.values().map(|v| v.len()).sum()
    }
}

/// What validation has to find, by repository index. None: the trust anchor
/// is no good.
pub type Expect = Option<BTreeMap<usize, RepoExp>>;

#[derive(Clone, Debug)]
struct BuiltObj {
    uri: String,
    fault: Option<ObjF>,
    what: What,
}

#[derive(Clone, Debug)]
enum What {
    Roa(BTreeSet<Vrp>),
    Aspa(u32, Vec<u32>),
    Router,
    Ignored,
}

#[derive(Clone, Debug)]
struct BuiltCa {
    repo: usize,
    parent: usize,
    cert_uri: String,
    fault: Option<CerF>,
    pp: Option<PpF>,
    mft: String,
    crl: String,
    objs: Vec<BuiltObj>,
    cycle: Option<String>,
    odd: Option<String>,
}

pub struct Anchor {
    pub uri: String,
    /// None: not available.
    pub cert: Option<Vec<u8>>,
    pub tal: String,
    /// The same, but for another key.
    pub other_tal: String,
}

pub struct Built {
    pub tas: Vec<Anchor>,
    /// Which trust anchors are used.
    pub used: u8,
    pub repos: Vec<Objects>,
    /// Index of the trust anchor that is no good.
    ta: Option<usize>,
    cas: Vec<BuiltCa>,
    now: i64,
    pub tree: Tree,
}

pub const TA_URI: &str = "https://ta.example/ta/ta.cer";

const EXT: &[&str] = &["roa", "roa", "cer", "asa", "gbr", "roa"];
const ODD: &[&str] = &["a b.roa", "../ca0/ca0.crl", "", "..", "x/../../y.roa", "sub/none.roa", "/etc/passwd.roa", "a\\b.cer", "%00.roa", "a\u{7f}b.roa", "<x>.asa", ".", "a//b.roa"];

pub fn garbage(k: u8) -> Vec<u8> {
    match k % 10 {
        0 => vec![],
        1 => b"not a certificate\n".to_vec(),
        2 => vec![0x30, 0x80],
        3 => vec![0x30, 0x84, 0x7f, 0xff, 0xff, 0xff, 0x02, 0x01, 0x00],
        4 => [0x30, 0x80].repeat(3000),
        5 => vec![0; 1000],
        6 => vec![0xff; 5000],
        7 => vec![0x30, 0x03, 0x02, 0x01, 0x05],
        8 => [0xa0, 0x80].repeat(500),
        _ => b"-----BEGIN CERTIFICATE-----\nMIIB\n-----END CERTIFICATE-----\n".to_vec(),
    }
}

pub fn truncate(mut b: Vec<u8>, k: u8) -> Vec<u8> {
    let n = b.len() * k as usize / 256;
    b.truncate(n);
    b
}

fn alter(mut b: Vec<u8>) -> Vec<u8> {
    let n = b.len();
    if n == 0 {
        return vec![1];
    }
    b[n / 2] ^= 0x40;
    b
}

struct Issuer {
    dir: String,
    crl: String,
    cert: String,
}

pub struct Hosts<'a> {
    /// RRDP notification URIs.
    pub notify: &'a [String],
}

fn builder(serial: u64, val: Validity, i: &Issuer, obj: &str, signing: i64) -> SignedObjectBuilder {
    let mut b = SignedObjectBuilder::new(serial.into(), val, rsync(&i.crl), rsync(&i.cert), rsync(obj));
    b.set_signing_time(Some(time(signing)));
    b
}

const DAY: i64 = 86400;

fn window(f: Option<ObjF>, now: i64) -> Validity {
    match f {
        Some(ObjF::Expired) => validity(now - 9 * DAY, now - 60),
        Some(ObjF::NotYet) => validity(now + 400 * DAY, now + 500 * DAY),
        Some(ObjF::Until(s)) => validity(now - DAY, now + s as i64),
        _ => validity(now - DAY, now + 300 * DAY),
    }
}

fn ca_cert(serial: u64, val: Validity, issuer: &Issuer, subject_key: usize, inherit: Option<(u32, u8)>, trim: bool, dir: Option<&str>, mft: Option<&str>, rrdp: Option<&str>, pool: Pool, signing_key: usize) -> Vec<u8> {
    let key = keys().rsa[subject_key].1.clone();
    let info = pool.get_key_info(&signing_key).unwrap();
    let mut c = TbsCert::new(serial.into(), info.to_subject_name(), val, None, key, KeyUsage::Ca, if trim { Overclaim::Trim } else { Overclaim::Refuse });
    c.set_basic_ca(Some(true));
    c.set_authority_key_identifier(Some(info.key_identifier()));
    c.set_crl_uri(Some(rsync(&issuer.crl)));
    c.set_ca_issuer(Some(rsync(&issuer.cert)));
    c.set_ca_repository(dir.map(rsync));
    c.set_rpki_manifest(mft.map(rsync));
    c.set_rpki_notify(rrdp.map(|r| uri::Https::from_str(r).unwrap()));
    match inherit {
        None => {
            c.set_v4_resources_inherit();
            c.set_v6_resources_inherit();
            c.set_as_resources_inherit();
        }
        Some((mask, fam)) => set_resources(&mut c, mask, fam),
    }
    let c = c.into_cert(&pool, &signing_key).unwrap();
    c.to_captured().into_bytes().to_vec()
}

/// ROA content for a unit.
fn roa_payload(unit: u8, n: u8) -> (u32, Vec<RoaIpAddress>, Vec<RoaIpAddress>, BTreeSet<Vrp>) {
    let a = asn(unit.min(15), n as u32).into_u32();
    let (mut p4, mut p6, mut v) = (vec![], vec![], BTreeSet::new());
    let fams = n % 3; // 0 both, 1 v4, 2 v6
    let count = 1 + (n / 3) % 4;
    for k in 0..count {
        let max = match (n as u32 + k as u32) % 3 {
            0 => None,
            1 => Some(0),
            _ => Some(2),
        };
        if fams != 2 {
            let base = v4(unit);
            let len = 14 + k;
            let p = Prefix::new(Addr::from_bits(base.addr().to_bits() | ((k as u128) << (128 - len as u32))), len);
            let m = max.map(|m| len + m);
            p4.push(RoaIpAddress::new(p, m));
            v.insert((a, format!("{}/{}", p.addr().to_v4(), len), m));
        }
        if fams != 1 {
            let base = v6(unit);
            let len = 40 + k;
            let p = Prefix::new(Addr::from_bits(base.addr().to_bits() | ((k as u128) << (128 - len as u32))), len);
            let m = max.map(|m| len + m);
            p6.push(RoaIpAddress::new(p, m));
            v.insert((a, format!("{}/{}", p.addr().to_v6(), len), m));
        }
    }
    (a, p4, p6, v)
}

pub fn pick_unit(mask: u16, u: u8) -> u8 {
    let v: Vec<u8> = units(mask as u32).collect();
    v[u as usize % v.len()]
}

/// Builds the tree at reference time `now`.
pub fn build(t: &Tree, hosts: &Hosts, now: i64) -> Built {
    let n = t.cas.len().clamp(1, CA_KEYS - 1);
    let nrepos = hosts.notify.len();
    let mut repos: Vec<Objects> = vec![Objects::new(); nrepos];
    let mut masks: Vec<u16> = vec![];
    let mut cas: Vec<BuiltCa> = vec![];
    let dir = |i: usize, repo: usize| format!("rsync://host{repo}.example/repo/ca{i}/");
    let roots = (t.roots as usize).min(n - 1).min(3);
    let ta_rsync = |i: usize| if i == 0 { "rsync://ta.example/ta/ta.cer".to_string() } else { format!("rsync://ta.example/ta/ta{i}.cer") };
    let repo_of: Vec<usize> = (0..n).map(|i| t.cas[i].repo as usize % nrepos).collect();
    let parent_of: Vec<usize> = (0..n).map(|i| if i <= roots { i } else { t.cas[i].parent as usize % i }).collect();
    let cert_uri: Vec<String> = (0..n).map(|i| if i <= roots { ta_rsync(i) } else { format!("{}child{i}.cer", dir(parent_of[i], repo_of[parent_of[i]])) }).collect();
    for i in 0..n {
        let c = &t.cas[i];
        let m = if i <= roots {
            0xffff
        } else {
            let p = masks[parent_of[i]];
            if c.how % 3 == 0 || p & c.mask == 0 {
                p
            } else {
                p & c.mask
            }
        };
        masks.push(m);
    }
    let issuer = |i: usize| Issuer { dir: dir(i, repo_of[i]), crl: format!("{}ca{i}.crl", dir(i, repo_of[i])), cert: cert_uri[i].clone() };
    let good = Pool::default();

    // The trust anchor certificates.
    let ta_at = t.ta_at as usize % (roots + 1);
    let mut tas = vec![];
    for k in 0..=roots {
        let fault = t.ta.filter(|_| k == ta_at);
        let i = issuer(k);
        let key = if fault == Some(TaF::OtherKey) { CA_KEYS - 1 } else { k };
        let info = good.get_key_info(&key).unwrap();
        let val = match fault {
            Some(TaF::Expired) => validity(now - 9 * DAY, now - 60),
            Some(TaF::NotYet) => validity(now + 400 * DAY, now + 500 * DAY),
            _ => validity(now - 10 * DAY, now + 3000 * DAY),
        };
        let mut c = TbsCert::new(1u64.into(), info.to_subject_name(), val, None, info, KeyUsage::Ca, Overclaim::Refuse);
        c.set_basic_ca(Some(true));
        c.set_ca_repository(Some(rsync(&i.dir)));
        c.set_rpki_manifest(Some(rsync(&format!("{}ca{k}.mft", i.dir))));
        c.set_rpki_notify(Some(uri::Https::from_str(&hosts.notify[repo_of[k]]).unwrap()));
        if fault == Some(TaF::Inherit) {
            c.set_v4_resources_inherit();
            c.set_v6_resources_inherit();
            c.set_as_resources_inherit();
        } else {
            c.build_v4_resource_blocks(|b| b.push(Prefix::new(Addr::from_bits(10u128 << 120), 8)));
            c.build_v6_resource_blocks(|b| b.push(Prefix::new(Addr::from_bits(0x2001_0db8u128 << 96), 32)));
            c.build_as_resource_blocks(|b| b.push(AsBlock::from((asn(0, 0), asn(15, 99)))));
        }
        let b = c.into_cert(&good, &key).unwrap().to_captured().into_bytes().to_vec();
        let cert = match fault {
            Some(TaF::Missing) => None,
            Some(TaF::Garbage(k)) => Some(garbage(k)),
            _ => Some(b),
        };
        let lines = |k: usize| {
            let b64 = crate::model::b64(&keys().rsa[k].1.to_info_bytes());
            let mut lines = String::new();
            for c in b64.as_bytes().chunks(64) {
                lines += std::str::from_utf8(c).unwrap();
                lines.push('\n');
            }
            lines
        };
        let uri = if k == 0 { TA_URI.to_string() } else { TA_URI.replace("ta.cer", &format!("ta{k}.cer")) };
        let file = ta_rsync(k);
        let head = match t.tal_style % 5 {
            0 => format!("{uri}\n{file}\n"),
            1 => format!("{file}\n{uri}\n"),
            2 => format!("{uri}\n"),
            4 => format!("{uri}\nhttps://none.example/{k}/ta.cer\n"),
            _ => format!("# A comment\n# rsync://none.example/none/none.cer\n{file}\n{file}\n{uri}\n"),
        };
        let tal = format!("{head}\n{}", lines(k));
        let other_tal = format!("{head}\n{}", lines(CA_KEYS - 2));
        tas.push(Anchor { uri, cert, tal, other_tal });
    }

    for i in 0..n {
        let c = &t.cas[i];
        let is = issuer(i);
        let repo = repo_of[i];
        // (file name, published bytes, bytes hashed)
        let mut listed: Vec<(String, Option<Vec<u8>>, Vec<u8>)> = vec![];
        let mut revoked: Vec<u64> = vec![];
        let mut serial = 100 + 50 * t.version as u64 * 1000;
        let mut unlisted: Vec<(String, Vec<u8>)> = vec![];

        // Child CA certificates.
        for j in (i + 1)..n {
            if parent_of[j] != i {
                continue;
            }
            serial += 1;
            let ch = &t.cas[j];
            let f = ch.fault;
            let val = match f {
                Some(CerF::Expired) => validity(now - 9 * DAY, now - 60),
                Some(CerF::NotYet) => validity(now + 400 * DAY, now + 500 * DAY),
                Some(CerF::Until(s)) => validity(now - DAY, now + s as i64),
                _ => validity(now - DAY, now + 300 * DAY),
            };
            let mut trim = false;
            let mut res = if ch.how % 3 == 0 { None } else { Some((masks[j] as u32, 0u8)) };
            if ch.how % 3 == 2 {
                trim = true;
                // Claims more than the issuer has, which is trimmed.
                res = Some((masks[j] as u32 | 1 << 17, 0));
            }
            if f == Some(CerF::Overclaim) {
                trim = false;
                let m = masks[i];
                let extra = if m != 0xffff && ch.mask & 1 == 0 { !m as u32 & 0xffff } else { 1 << 17 };
                res = Some((masks[j] as u32 | extra, if ch.mask & 2 == 0 { 0 } else { 3 }));
            }
            let cd = dir(j, repo_of[j]);
            let mft = format!("{cd}ca{j}.mft");
            let pool = Pool { lie_cert: f == Some(CerF::CertSig), lie_cms: false };
            let signing_key = if f == Some(CerF::OtherIssuer) { CA_KEYS - 1 } else { i };
            let b = ca_cert(
                serial,
                val,
                &is,
                j,
                res,
                trim,
                (f != Some(CerF::NoRepo)).then_some(cd.as_str()),
                (f != Some(CerF::NoMft)).then_some(mft.as_str()),
                (f != Some(CerF::NoRrdp)).then_some(hosts.notify[repo_of[j]].as_str()),
                pool,
                signing_key,
            );
            if f == Some(CerF::Revoked) {
                revoked.push(serial);
            }
            let name = format!("child{j}.cer");
            match f {
                Some(CerF::NotListed) => unlisted.push((name, b)),
                Some(CerF::Missing) => listed.push((name, None, b)),
                Some(CerF::Rehashed) => listed.push((name, Some(b.clone()), alter(b))),
                Some(CerF::Altered) => listed.push((name, Some(alter(b.clone())), b)),
                Some(CerF::Garbage(k)) => listed.push((name, Some(garbage(k)), garbage(k))),
                Some(CerF::Truncated(k)) => {
                    let b = truncate(b, k);
                    listed.push((name, Some(b.clone()), b))
                }
                _ => listed.push((name, Some(b.clone()), b)),
            }
        }

        // A certificate for an ancestor.
        let mut cycle = None;
        if let Some(up) = c.cycle {
            let mut a = i;
            for _ in 0..up % 4 {
                a = parent_of[a];
            }
            serial += 1;
            let ad = dir(a, repo_of[a]);
            let b = ca_cert(serial, validity(now - DAY, now + 300 * DAY), &is, a, if up & 4 == 0 { None } else { Some((masks[i] as u32, 0)) }, false, Some(&ad), Some(&format!("{ad}ca{a}.mft")), Some(&hosts.notify[repo_of[a]]), good, i);
            let name = "cycle.cer".to_string();
            cycle = Some(format!("{}{name}", is.dir));
            listed.push((name, Some(b.clone()), b));
        }

        // Other objects.
        let mut objs = vec![];
        for (k, o) in c.objs.iter().enumerate() {
            serial += 1;
            let ext = EXT[o.kind as usize % EXT.len()];
            let mut f = o.fault;
            if ext == "gbr" && !matches!(f, None | Some(ObjF::Missing | ObjF::Altered | ObjF::Rehashed)) {
                f = None;
            }
            let unit = if f == Some(ObjF::Overclaim) {
                let out = !masks[i] & 0xffff;
                if out != 0 && o.n & 1 == 0 {
                    pick_unit(out, o.unit)
                } else {
                    17
                }
            } else {
                pick_unit(masks[i], o.unit)
            };
            let fext = match f {
                Some(ObjF::WrongExt(w)) => {
                    let other: Vec<&str> = ["roa", "cer", "asa", "xyz"].into_iter().filter(|x| *x != ext).collect();
                    other[w as usize % other.len()]
                }
                _ => ext,
            };
            let name = format!("{ext}{k}.{fext}");
            let ouri = format!("{}{name}", is.dir);
            let val = window(f, now);
            let pool = Pool { lie_cert: f == Some(ObjF::CertSig) || (ext == "cer" && f == Some(ObjF::CmsSig)), lie_cms: f == Some(ObjF::CmsSig) && ext != "cer" };
            let signing_key = if f == Some(ObjF::OtherIssuer) { CA_KEYS - 1 } else { i };
            let (bytes, what) = match ext {
                "roa" => {
                    let (a, p4, p6, vrps) = roa_payload(unit, o.n);
                    let mut b = RoaBuilder::new(Asn::from_u32(a));
                    p4.iter().for_each(|p| b.push_v4(*p));
                    p6.iter().for_each(|p| b.push_v6(*p));
                    let r = b.finalize(builder(serial, val, &is, &ouri, now - 3600), &pool, &signing_key).unwrap();
                    (r.to_captured().into_bytes().to_vec(), What::Roa(vrps))
                }
                "asa" => {
                    let cust = asn(unit, o.n as u32);
                    let prov: Vec<Asn> = (0..1 + o.n % 5).map(|k| Asn::from_u32(1000 + o.n as u32 * 7 + k as u32)).collect();
                    let b = AspaBuilder::new(cust, prov.clone()).unwrap();
                    let a = b.finalize(builder(serial, val, &is, &ouri, now - 3600), &pool, &signing_key).unwrap();
                    (a.to_captured().into_bytes().to_vec(), What::Aspa(cust.into_u32(), prov.iter().map(|a| a.into_u32()).collect()))
                }
                "cer" => {
                    let info = pool.get_key_info(&signing_key).unwrap();
                    let mut c = TbsCert::new(serial.into(), info.to_subject_name(), val, None, keys().ec.clone(), KeyUsage::Ee, Overclaim::Refuse);
                    c.set_authority_key_identifier(Some(info.key_identifier()));
                    c.set_crl_uri(Some(rsync(&is.crl)));
                    c.set_ca_issuer(Some(rsync(&is.cert)));
                    c.set_extended_key_usage(Some(ExtendedKeyUsage::create_router()));
                    c.build_as_resource_blocks(|b| b.push(AsBlock::from((asn(unit, 0), asn(unit, 9)))));
                    let c = c.into_cert(&pool, &signing_key).unwrap();
                    (c.to_captured().into_bytes().to_vec(), What::Router)
                }
                _ => (vec![o.n; 100], What::Ignored),
            };
            if f == Some(ObjF::Revoked) {
                revoked.push(serial);
            }
            match f {
                Some(ObjF::Missing) => listed.push((name, None, bytes)),
                Some(ObjF::Rehashed) => listed.push((name, Some(bytes.clone()), alter(bytes))),
                Some(ObjF::Altered) => listed.push((name, Some(alter(bytes.clone())), bytes)),
                Some(ObjF::Garbage(k)) => listed.push((name, Some(garbage(k)), garbage(k))),
                Some(ObjF::Truncated(k)) => {
                    let b = truncate(bytes, k);
                    listed.push((name, Some(b.clone()), b))
                }
                _ => listed.push((name, Some(bytes.clone()), bytes)),
            }
            objs.push(BuiltObj { uri: ouri, fault: f, what });
        }

        // CRL.
        serial += 1;
        let mft_serial = serial;
        if c.pp == Some(PpF::MftRevoked) {
            revoked.push(mft_serial);
        }
        // Something else is always revoked.
        revoked.push(5);
        let crl = {
            let entries: Vec<CrlEntry> = revoked.iter().map(|s| CrlEntry::new((*s).into(), time(now - 3600))).collect();
            let next = if c.pp == Some(PpF::CrlStale) { now - 60 } else { now + 300 * DAY };
            let info = good.get_key_info(&i).unwrap();
            let l = TbsCertList::new(RpkiSignatureAlgorithm::default(), info.to_subject_name(), time(now - DAY), time(next), entries, info.key_identifier(), (t.version as u64 + 1).into());
            let pool = Pool { lie_cert: c.pp == Some(PpF::CrlSig), lie_cms: false };
            let b = l.into_crl(&pool, &i).unwrap().to_captured().into_bytes().to_vec();
            match c.pp {
                Some(PpF::CrlGarbage(k)) => garbage(k),
                Some(PpF::CrlTruncated(k)) => truncate(b, k),
                _ => b,
            }
        };
        match c.pp {
            Some(PpF::CrlNotListed) => unlisted.push((format!("ca{i}.crl"), crl)),
            Some(PpF::CrlMissing) => listed.push((format!("ca{i}.crl"), None, crl)),
            Some(PpF::CrlRehashed) => listed.push((format!("ca{i}.crl"), Some(crl.clone()), alter(crl))),
            Some(PpF::CrlAltered) => listed.push((format!("ca{i}.crl"), Some(alter(crl.clone())), crl)),
            _ => listed.push((format!("ca{i}.crl"), Some(crl.clone()), crl)),
        }

        // Manifest.
        let mut odd = None;
        if let Some(PpF::OddName(k)) = c.pp {
            let name = ODD[k as usize % ODD.len()];
            odd = Some(name.to_string());
            listed.push((name.to_string(), None, vec![1, 2, 3]));
        }
        let mft_name = format!("ca{i}.mft");
        let mft_uri = format!("{}{mft_name}", is.dir);
        let mft = {
            let order = t.version as usize % listed.len().max(1);
            let mut l: Vec<FileAndHash<Vec<u8>, Vec<u8>>> = listed.iter().map(|(n, _, b)| FileAndHash::new(n.as_bytes().to_vec(), sha(b).to_vec())).collect();
            l.rotate_left(order);
            let next = if c.pp == Some(PpF::MftStale) { now - 60 } else { now + 300 * DAY };
            let content = ManifestContent::new((t.version as u64 + 1).into(), time(now - DAY), time(next), DigestAlgorithm::sha256(), l.iter());
            let f = match c.pp {
                Some(PpF::MftExpired) => Some(ObjF::Expired),
                Some(PpF::MftNotYet) => Some(ObjF::NotYet),
                Some(PpF::MftUntil(s)) => Some(ObjF::Until(s)),
                _ => None,
            };
            let pool = Pool { lie_cert: c.pp == Some(PpF::MftCertSig), lie_cms: c.pp == Some(PpF::MftCmsSig) };
            let key = if c.pp == Some(PpF::MftOtherIssuer) { CA_KEYS - 1 } else { i };
            let m = content.into_manifest(builder(mft_serial, window(f, now), &is, &mft_uri, now - 3600), &pool, &key).unwrap();
            let b = m.to_captured().into_bytes().to_vec();
            match c.pp {
                Some(PpF::MftMissing) => None,
                Some(PpF::MftGarbage(k)) => Some(garbage(k)),
                Some(PpF::MftTruncated(k)) => Some(truncate(b, k)),
                _ => Some(b),
            }
        };
        let r = &mut repos[repo];
        if let Some(m) = mft {
            r.insert(mft_uri.clone(), m);
        }
        for (name, b, _) in listed {
            if let Some(b) = b {
                r.insert(format!("{}{name}", is.dir), b);
            }
        }
        for (name, b) in unlisted {
            r.insert(format!("{}{name}", is.dir), b);
        }
        cas.push(BuiltCa { repo, parent: parent_of[i], cert_uri: cert_uri[i].clone(), fault: if i <= roots { None } else { c.fault }, pp: c.pp, mft: mft_uri, crl: is.crl.clone(), objs, cycle, odd });
    }
    Built { tas, used: 0xff, repos, ta: t.ta.map(|_| ta_at), cas, now, tree: t.clone() }
}

impl Built {
    /// What validation at time `when` has to find. Where two readings are
    /// possible, `lenient` selects the one in which a manifest with an odd
    /// file name is good otherwise. `absent` repositories cannot be had.
    pub fn expect(&self, when: i64, lenient: bool, absent: &[usize]) -> Expect {
        self.expect_mixed(when, lenient, &mut |r| if absent.contains(&r) { None } else { Some(self) })
    }

    /// The same, where repositories may be at different versions; `view` is
    /// asked for the version of a repository whenever it is needed.
    pub fn expect_mixed<'a>(&'a self, when: i64, lenient: bool, view: &mut dyn FnMut(usize) -> Option<&'a Built>) -> Expect {
        if self.ta.map(|k| self.uses(k)).unwrap_or(false) {
            return None;
        }
        let mut m = BTreeMap::new();
        for k in (0..self.tas.len()).filter(|k| self.uses(*k)) {
            walk(self, k, when, lenient, view, &mut m);
        }
        Some(m)
    }

    pub fn uses(&self, root: usize) -> bool {
        self.used & (1 << root) != 0
    }

    pub fn has_odd(&self) -> bool {
        self.cas.iter().any(|c| c.odd.is_some())
    }

    pub fn n_faults(&self) -> usize {
        self.cas.iter().map(|c| c.fault.is_some() as usize + c.pp.is_some() as usize + c.objs.iter().filter(|o| o.fault.is_some()).count()).sum()
    }
}

/// A CA whose certificate is valid. The shape of the tree is the same in all
/// views, only faults and objects differ.
fn walk<'a>(b: &'a Built, i: usize, when: i64, lenient: bool, view: &mut dyn FnMut(usize) -> Option<&'a Built>, m: &mut BTreeMap<usize, RepoExp>) {
        let c = &b.cas[i];
        let over = |s: u32| when > b.now + s as i64;
        let dir = c.mft.rsplit_once('/').unwrap().0.to_string() + "/";
        let r = m.entry(c.repo).or_default();
        let one = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>();
        let b = match view(c.repo) {
            Some(b) => b,
            None => {
                r.issues.push(one(&[&dir]));
                return;
            }
        };
        let c = &b.cas[i];
        match c.pp {
            None => {}
            Some(PpF::MftUntil(s)) if !over(s) => {}
            Some(PpF::OddName(_)) if lenient => {
                let u = format!("{dir}{}", c.odd.as_ref().unwrap());
                r.issues.push(one(&[&c.mft, &u]));
            }
            Some(_) => {
                r.issues.push(one(&[&c.mft, &c.crl]));
                return;
            }
        }
        for o in &c.objs {
            let bad = match o.fault {
                None => false,
                Some(ObjF::Until(s)) => over(s),
                Some(_) => true,
            };
            if bad {
                r.issues.push(one(&[&o.uri]));
                continue;
            }
            match &o.what {
                What::Roa(v) => {
                    r.roas.insert(o.uri.clone(), v.clone());
                }
                What::Aspa(c, p) => {
                    r.aspas.insert(o.uri.clone(), (*c, p.clone()));
                }
                What::Router => {
                    r.routers.insert(o.uri.clone());
                }
                What::Ignored => {}
            }
        }
        if let Some(u) = &c.cycle {
            r.maybe.insert(u.clone());
        }
        for j in (i + 1)..b.cas.len() {
            let ch = &b.cas[j];
            if ch.parent != i {
                continue;
            }
            let good = match ch.fault {
                None | Some(CerF::NoRrdp) => true,
                Some(CerF::Until(s)) => !over(s),
                _ => false,
            };
            let r = m.entry(c.repo).or_default();
            if ch.fault == Some(CerF::NotListed) {
                continue;
            }
            if good {
                r.certs.insert(ch.cert_uri.clone());
                if ch.fault != Some(CerF::NoRrdp) {
                    walk(b, j, when, lenient, view, m);
                }
            } else {
                r.issues.push(one(&[&ch.cert_uri]));
            }
        }
    }


//------------ Single objects with given times -------------------------------

/// An object which has `t` as the start of its validity (certificates), its
/// this-update (CRLs) or its signing time (the others).
pub fn timed(kind: u8, t: i64, other: i64, n: u8) -> Vec<u8> {
    let pool = Pool::default();
    let key = n as usize % CA_KEYS;
    let info = pool.get_key_info(&key).unwrap();
    let is = Issuer { dir: "rsync://h.example/repo/".into(), crl: "rsync://h.example/repo/c.crl".into(), cert: "rsync://h.example/repo/c.cer".into() };
    let clamp = |t: i64| t.clamp(-2208988800, 253402300799);
    let later = clamp(t.saturating_add(1 + other.abs()));
    let o = clamp(t + other);
    let serial = n as u64 + 1;
    match kind % 8 {
        0 => ca_cert(serial, validity(t, later), &is, (key + 1) % CA_KEYS, Some((1 << (n % 16), n % 4)), n % 2 == 0, Some("rsync://h.example/repo/x/"), Some("rsync://h.example/repo/x/x.mft"), None, pool, key),
        k @ (1 | 2) => {
            let subject = if k == 1 { keys().ec.clone() } else { info.clone() };
            let mut c = TbsCert::new(serial.into(), info.to_subject_name(), validity(t, later), None, subject, KeyUsage::Ee, Overclaim::Refuse);
            c.set_authority_key_identifier(Some(info.key_identifier()));
            c.set_crl_uri(Some(rsync(&is.crl)));
            c.set_ca_issuer(Some(rsync(&is.cert)));
            if k == 1 {
                c.set_extended_key_usage(Some(ExtendedKeyUsage::create_router()));
            }
            c.build_as_resource_blocks(|b| b.push(AsBlock::from((asn(n % 16, 0), asn(n % 16, 9)))));
            c.into_cert(&pool, &key).unwrap().to_captured().into_bytes().to_vec()
        }
        3 => {
            let entries: Vec<CrlEntry> = (0..n as u64 % 5).map(|s| CrlEntry::new((s + 1).into(), time(clamp(o + s as i64)))).collect();
            let l = TbsCertList::new(RpkiSignatureAlgorithm::default(), info.to_subject_name(), time(t), time(later), entries, info.key_identifier(), serial.into());
            l.into_crl(&pool, &key).unwrap().to_captured().into_bytes().to_vec()
        }
        k => {
            let from = o;
            let mut b = builder(serial, validity(from, clamp(from.saturating_add(86400))), &is, "rsync://h.example/repo/o.roa", t);
            match k {
                4 => {
                    let items = [FileAndHash::new(b"a.roa".to_vec(), sha(&[n]).to_vec())];
                    let c = ManifestContent::new(serial.into(), time(clamp(o + 3)), time(clamp(o + 86400)), DigestAlgorithm::sha256(), items.iter());
                    c.into_manifest(b, &pool, &key).unwrap().to_captured().into_bytes().to_vec()
                }
                5 => {
                    let mut r = RoaBuilder::new(Asn::from_u32(n as u32));
                    r.push_v4(RoaIpAddress::new(v4(n % 16), None));
                    r.finalize(b, &pool, &key).unwrap().to_captured().into_bytes().to_vec()
                }
                6 => {
                    // With the other form of the signing time as well.
                    b.set_binary_signing_time(Some(clamp(o).max(0) as u64));
                    let a = AspaBuilder::new(asn(n % 16, 1), vec![Asn::from_u32(1000 + n as u32)]).unwrap();
                    a.finalize(b, &pool, &key).unwrap().to_captured().into_bytes().to_vec()
                }
                _ => {
                    // Of a type unknown to krill-sync.
                    b.set_v4_resources_inherit();
                    let oid = rpki::dep::bcder::Oid(Bytes::from_static(&[42, 134, 72, 134, 247, 13, 1, 9, 16, 1, 99]));
                    rpki::dep::bcder::encode::Values::to_captured(&b.finalize(oid, Bytes::from(vec![n; 1 + n as usize * 7]), &pool, &key).unwrap().encode_ref(), rpki::dep::bcder::Mode::Der).into_bytes().to_vec()
                }
            }
        }
    }
}
