//! A TLS server on loopback standing in for all hosts on the network. The shim
//! sends every connection of the process under test here; the server tells
//! hosts apart by SNI and Host header.
use crate::proc;
use openssl::asn1::{Asn1Integer, Asn1Time};
use openssl::bn::BigNum;
use openssl::ec::{EcGroup, EcKey};
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{PKey, Private};
use openssl::ssl::{NameType, SniError, SslAcceptor, SslContext, SslMethod};
use openssl::x509::extension::{BasicConstraints, KeyUsage, SubjectAlternativeName};
use openssl::x509::{X509, X509NameBuilder};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cert {
    Good,
    SelfSigned,
    Untrusted,
    Expired,
    NotYet,
    WrongName,
}

impl Cert {
    pub const BAD: [Cert; 5] = [Cert::SelfSigned, Cert::Untrusted, Cert::Expired, Cert::NotYet, Cert::WrongName];
}

#[derive(Clone, Debug)]
pub enum Resp {
    Data { bytes: Vec<u8>, etag: Option<String> },
    Status(u16),
    /// The announced length is longer than what is sent.
    Short(Vec<u8>, usize),
    Close,
    NotHttp,
    Chunked(Vec<u8>),
    /// Nothing, or only a part of the answer, and then silence.
    Stall(Vec<u8>, usize),
    /// A redirect elsewhere.
    Redirect(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub url: String,
    pub if_none_match: Option<String>,
    pub status: u16,
}

#[derive(Default)]
pub struct St {
    pub routes: HashMap<String, Resp>,
    pub log: Vec<Req>,
    /// Certificate for the n-th connection to a host (last one repeats).
    pub plan: HashMap<String, Vec<Cert>>,
    /// The host, if its URI has an address instead of a name.
    pub address: Option<String>,
    /// A silent server was waited for until it closed the connection.
    pub outwaited: bool,
    /// Hosts by connection.
    pub hellos: Vec<String>,
}

struct Ca {
    cert: X509,
    key: PKey<Private>,
}

struct Shared {
    st: Mutex<St>,
    ca: Ca,
    evil: Ca,
    ctxs: Mutex<HashMap<(String, Cert), SslContext>>,
}

pub struct Tls {
    pub port: u16,
    pub ca_file: PathBuf,
    sh: Arc<Shared>,
}

fn key() -> PKey<Private> {
    let g = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap();
    PKey::from_ec_key(EcKey::generate(&g).unwrap()).unwrap()
}

// Validity relative to the virtual time of histories.
const T: i64 = 1_750_000_000;

fn build(cn: &str, san: Option<&str>, from: i64, to: i64, key: &PKey<Private>, issuer: Option<&Ca>, ca: bool) -> X509 {
    let mut n = X509NameBuilder::new().unwrap();
    n.append_entry_by_text("CN", cn).unwrap();
    let n = n.build();
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    let mut r = [0u8; 12];
    openssl::rand::rand_bytes(&mut r).unwrap();
    r[0] &= 0x7f;
    let sn = Asn1Integer::from_bn(&BigNum::from_slice(&r).unwrap()).unwrap();
    b.set_serial_number(&sn).unwrap();
    b.set_subject_name(&n).unwrap();
    match issuer {
        Some(i) => b.set_issuer_name(i.cert.subject_name()).unwrap(),
        None => b.set_issuer_name(&n).unwrap(),
    }
    b.set_not_before(&Asn1Time::from_unix(from).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_unix(to).unwrap()).unwrap();
    b.set_pubkey(key).unwrap();
    if ca {
        b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
        b.append_extension(KeyUsage::new().critical().key_cert_sign().crl_sign().build().unwrap()).unwrap();
    }
    if let Some(s) = san {
        let mut a = SubjectAlternativeName::new();
        if is_ip(s) {
            a.ip(s);
        } else {
            a.dns(s);
        }
        let e = a.build(&b.x509v3_context(issuer.map(|i| i.cert.as_ref()), None)).unwrap();
        b.append_extension(e).unwrap();
    }
    b.sign(issuer.map(|i| &i.key).unwrap_or(key), MessageDigest::sha256()).unwrap();
    b.build()
}

pub fn is_ip(host: &str) -> bool {
    host.parse::<std::net::IpAddr>().is_ok()
}

fn ca(cn: &str) -> Ca {
    let k = key();
    let cert = build(cn, None, T - 400 * 86400, T + 4000 * 86400, &k, None, true);
    Ca { cert, key: k }
}

impl Shared {
    fn ctx(&self, host: &str, kind: Cert) -> SslContext {
        let mut m = self.ctxs.lock().unwrap();
        m.entry((host.to_string(), kind))
            .or_insert_with(|| {
                let k = key();
                let long = (T - 300 * 86400, T + 3000 * 86400);
                let c = match kind {
                    Cert::Good => build(host, Some(host), long.0, long.1, &k, Some(&self.ca), false),
                    Cert::SelfSigned => build(host, Some(host), long.0, long.1, &k, None, false),
                    Cert::Untrusted => build(host, Some(host), long.0, long.1, &k, Some(&self.evil), false),
                    Cert::Expired => build(host, Some(host), long.0, T - 86400, &k, Some(&self.ca), false),
                    Cert::NotYet => build(host, Some(host), T + 2000 * 86400, long.1, &k, Some(&self.ca), false),
                    Cert::WrongName => {
                        let other = if is_ip(host) { "named.example".to_string() } else { format!("not-{host}") };
                        build(&other, Some(&other), long.0, long.1, &k, Some(&self.ca), false)
                    }
                };
                let mut a = SslAcceptor::mozilla_intermediate_v5(SslMethod::tls_server()).unwrap();
                a.set_private_key(&k).unwrap();
                a.set_certificate(&c).unwrap();
                a.build().into_context()
            })
            .clone()
    }
}

impl Tls {
    pub fn start() -> Tls {
        let l = TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| proc::harness_error(&format!("cannot listen on loopback: {e}")));
        let port = l.local_addr().unwrap().port();
        let sh = Arc::new(Shared { st: Mutex::new(St::default()), ca: ca("Scratch CA"), evil: ca("Other CA"), ctxs: Mutex::new(HashMap::new()) });
        let ca_file = proc::env().bindir.join(format!("ca-{port}.pem"));
        std::fs::write(&ca_file, sh.ca.cert.to_pem().unwrap()).unwrap();
        let sh2 = sh.clone();
        // The acceptor picks the certificate by the requested name.
        let mut a = SslAcceptor::mozilla_intermediate_v5(SslMethod::tls_server()).unwrap();
        let base = sh.ctx("unnamed.invalid", Cert::SelfSigned);
        let sh3 = sh.clone();
        let _ = base;
        let k = key();
        let c = build("unnamed.invalid", None, T - 86400, T + 86400, &k, None, false);
        a.set_private_key(&k).unwrap();
        a.set_certificate(&c).unwrap();
        a.set_servername_callback(move |ssl, _alert| {
            let host = match ssl.servername(NameType::HOST_NAME) {
                Some(h) => h.to_ascii_lowercase(),
                // Names are not given for addresses.
                None => match sh3.st.lock().unwrap().address.clone() {
                    Some(h) => h,
                    None => return Ok(()),
                },
            };
            let kind = {
                let mut st = sh3.st.lock().unwrap();
                let n = st.hellos.iter().filter(|h| **h == host).count();
                st.hellos.push(host.clone());
                match st.plan.get(&host) {
                    Some(p) if !p.is_empty() => p[n.min(p.len() - 1)],
                    _ => Cert::Good,
                }
            };
            let ctx = sh3.ctx(&host, kind);
            ssl.set_ssl_context(&ctx).map_err(|_| SniError::ALERT_FATAL)
        });
        let acc = Arc::new(a.build());
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let (acc, sh) = (acc.clone(), sh2.clone());
                std::thread::spawn(move || serve(s, &acc, &sh));
            }
        });
        Tls { port, ca_file, sh }
    }

    pub fn reset(&self) {
        *self.sh.st.lock().unwrap() = St::default();
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut St) -> R) -> R {
        f(&mut self.sh.st.lock().unwrap())
    }
    pub fn take_log(&self) -> Vec<Req> {
        self.with(|s| {
            s.hellos.clear();
            std::mem::take(&mut s.log)
        })
    }
}

fn serve(s: TcpStream, acc: &SslAcceptor, sh: &Shared) {
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
    let _ = s.set_nodelay(true);
    let mut t = match acc.accept(s) {
        Ok(t) => t,
        Err(_) => return,
    };
    let mut buf = vec![];
    let mut tmp = [0u8; 4096];
    loop {
        match t.read(&mut tmp) {
            Ok(0) | Err(_) => return,
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
        if buf.windows(4).any(|w| w == b"\r\n\r\n") {
            break;
        }
        if buf.len() > 100_000 {
            return;
        }
    }
    let text = String::from_utf8_lossy(&buf).to_string();
    let mut lines = text.split("\r\n");
    let path = lines.next().unwrap_or("").split(' ').nth(1).unwrap_or("").to_string();
    let mut host = String::new();
    let mut inm = None;
    for l in lines {
        if let Some((k, v)) = l.split_once(':') {
            match k.to_ascii_lowercase().as_str() {
                "host" => host = v.trim().to_ascii_lowercase(),
                "if-none-match" => inm = Some(v.trim().to_string()),
                _ => {}
            }
        }
    }
    let url = format!("https://{host}{path}");
    let resp = sh.st.lock().unwrap().routes.get(&url).cloned().unwrap_or(Resp::Status(404));
    let mut status = 200;
    let mut stalled = false;
    let out: Vec<u8> = match resp {
        Resp::Data { bytes, etag } => {
            let e = etag.as_ref().map(|e| format!("ETag: {e}\r\n")).unwrap_or_default();
            if etag.is_some() && etag == inm {
                status = 304;
                format!("HTTP/1.1 304 Not Modified\r\n{e}Connection: close\r\n\r\n").into_bytes()
            } else {
                let mut o = format!("HTTP/1.1 200 OK\r\n{e}Content-Type: application/xml\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", bytes.len()).into_bytes();
                o.extend_from_slice(&bytes);
                o
            }
        }
        Resp::Status(n) => {
            status = n;
            format!("HTTP/1.1 {n} Nope\r\nContent-Length: 5\r\nConnection: close\r\n\r\nerror").into_bytes()
        }
        Resp::Short(b, n) => {
            let mut o = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len()).into_bytes();
            o.extend_from_slice(&b[..n.min(b.len().saturating_sub(1))]);
            o
        }
        Resp::Close => vec![],
        Resp::Stall(b, n) => {
            stalled = true;
            let mut o = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len()).into_bytes();
            o.extend_from_slice(&b);
            o.truncate(n.min(o.len() - 1));
            o
        }
        Resp::NotHttp => b"* OK IMAP4rev1 ready\r\n\r\n".to_vec(),
        Resp::Chunked(b) => {
            let mut o = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".to_vec();
            for c in b.chunks(1000) {
                o.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                o.extend_from_slice(c);
                o.extend_from_slice(b"\r\n");
            }
            o.extend_from_slice(b"0\r\n\r\n");
            o
        }
        Resp::Redirect(to) => {
            status = 302;
            format!("HTTP/1.1 302 Found\r\nLocation: {to}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n").into_bytes()
        }
    };
    sh.st.lock().unwrap().log.push(Req { url, if_none_match: inm, status });
    let _ = t.write_all(&out);
    let _ = t.flush();
    if stalled {
        let _ = t.get_ref().set_read_timeout(Some(PATIENCE));
        let start = std::time::Instant::now();
        while start.elapsed() < PATIENCE {
            if let Ok(0) | Err(_) = t.read(&mut tmp) {
                break;
            }
        }
        if start.elapsed() >= PATIENCE {
            sh.st.lock().unwrap().outwaited = true;
        }
    }
    let _ = t.shutdown();
}

const PATIENCE: Duration = Duration::from_secs(25);
/// Milliseconds of silence after which the clock jumps to the end of a wait.
pub const SILENCE: &str = "1500";

thread_local! {
    static SERVER: std::cell::OnceCell<Tls> = const { std::cell::OnceCell::new() };
}

/// The server of this worker thread, freshly reset.
pub fn server<R>(f: impl FnOnce(&Tls) -> R) -> R {
    SERVER.with(|s| {
        let t = s.get_or_init(Tls::start);
        t.reset();
        f(t)
    })
}
