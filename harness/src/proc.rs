//! Running the krill-sync binary under the shim.
use std::ffi::OsString;
use std::os::fd::{FromRawFd, RawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const UID: u32 = 65534;
const WATCHDOG: Duration = Duration::from_secs(120);
const CHILD_FD: RawFd = 500;

/// Scratch areas of this harness process.
pub struct Env {
    pub bin: PathBuf,
    pub shim: PathBuf,
    /// The validator as a library, if that could be built.
    pub inproc: Option<PathBuf>,
    pub bindir: PathBuf,
    pub data: PathBuf,
}

static ENV: OnceLock<Env> = OnceLock::new();

pub fn env() -> &'static Env {
    ENV.get().expect("env initialised")
}

fn mkdir(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::create_dir_all(p).unwrap();
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
}

pub fn init_env() {
    let pid = std::process::id();
    let bindir = PathBuf::from(format!("/tmp/ks-bin-{pid}"));
    let shm = PathBuf::from("/dev/shm");
    let base = if std::fs::write(shm.join(format!(".ks-{pid}")), b"x").is_ok() {
        let _ = std::fs::remove_file(shm.join(format!(".ks-{pid}")));
        shm
    } else {
        PathBuf::from("/tmp")
    };
    let data = base.join(format!("ks-data-{pid}"));
    mkdir(&bindir);
    mkdir(&data);
    let src = std::env::var("KS_BIN").unwrap_or("/verif/target/krill/debug/krill-sync".into());
    let bin = bindir.join("krill-sync");
    std::fs::copy(&src, &bin).unwrap_or_else(|e| harness_error(&format!("cannot copy {src}: {e}")));
    let shim_src = std::env::var("KS_SHIM").unwrap_or("/verif/target/shim.so".into());
    let shim = bindir.join("shim.so");
    std::fs::copy(&shim_src, &shim).unwrap_or_else(|e| harness_error(&format!("cannot copy {shim_src}: {e}")));
    use std::os::unix::fs::PermissionsExt;
    for f in [&bin, &shim] {
        std::fs::set_permissions(f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let inproc = bindir.join("krill-sync-lib");
    let src = std::env::var("KS_INPROC").unwrap_or("/verif/target/inproc/debug/inproc".into());
    let inproc = std::fs::copy(&src, &inproc).ok().map(|_| {
        std::fs::set_permissions(&inproc, std::fs::Permissions::from_mode(0o755)).unwrap();
        inproc
    });
    ENV.set(Env { bin, shim, inproc, bindir, data }).ok().expect("once");
}

pub fn clean_env() {
    if let Some(e) = ENV.get() {
        let _ = std::fs::remove_dir_all(&e.bindir);
        let _ = std::fs::remove_dir_all(&e.data);
    }
}

/// An error of the harness or its environment: never a verdict.
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    clean_env();
    std::process::exit(2);
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub op: u8,
    pub a: String,
    pub b: String,
    pub c: String,
}

impl Ev {
    /// Is this an operation that changes the file system?
    pub fn mutates(&self) -> bool {
        b"OwRUDMStTmL".contains(&self.op)
    }
    pub fn show(&self) -> String {
        format!("{} {} {} {}", self.op as char, self.a, self.b, self.c).trim().to_string()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Go,
    Kill,
    Err(i32),
    PartialKill(i32),
    Short(i32),
}

pub struct Spec<'a> {
    pub args: Vec<OsString>,
    pub cwd: &'a Path,
    pub root: &'a Path,
    pub now: i64,
    pub reads: bool,
    pub tls_port: Option<u16>,
    pub env: Vec<(String, String)>,
    /// Another program than krill-sync.
    pub bin: Option<&'a Path>,
}

pub struct Proc {
    child: Child,
    sock: RawFd,
    out: RawFd,
    err: RawFd,
    pub now: i64,
    nanos: i64,
    pub slept: i64,
    pub slept_ns: i64,
    pub escapes: Vec<String>,
    pub killed: bool,
    eof: bool,
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
    pub now: i64,
    pub slept: i64,
    pub slept_ns: i64,
    pub escapes: Vec<String>,
    pub killed: bool,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Ended in a way that is no orderly exit.
    pub fn crashed(&self) -> bool {
        !self.killed && (self.signal.is_some() || self.code == Some(101) || self.stderr.contains("panicked at"))
    }
    pub fn show(&self) -> String {
        let mut e: String = self.stderr.clone();
        if e.len() > 600 {
            let mut i = 600;
            while !e.is_char_boundary(i) {
                i -= 1;
            }
            e.truncate(i);
        }
        format!("exit {:?} signal {:?} stderr: {}", self.code, self.signal, e.trim())
    }
}

fn memfd() -> RawFd {
    let fd = unsafe { libc::memfd_create(b"out\0".as_ptr() as *const _, libc::MFD_CLOEXEC) };
    if fd < 0 {
        harness_error("memfd_create failed");
    }
    fd
}

fn read_all(fd: RawFd) -> String {
    use std::io::{Read, Seek};
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut v = vec![];
    let _ = f.rewind();
    let _ = f.read_to_end(&mut v);
    String::from_utf8_lossy(&v).to_string()
}

impl Proc {
    pub fn spawn(spec: &Spec) -> Proc {
        let e = env();
        let mut fds = [0i32; 2];
        if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) } != 0 {
            harness_error("socketpair failed");
        }
        let (ours, theirs) = (fds[0], fds[1]);
        let out = memfd();
        let err = memfd();
        let mut cmd = Command::new(spec.bin.unwrap_or(&e.bin));
        cmd.args(&spec.args).current_dir(spec.cwd).env_clear();
        cmd.env("LD_PRELOAD", &e.shim)
            .env("KS_SHIM_SOCK", CHILD_FD.to_string())
            .env("KS_SHIM_ROOT", spec.root)
            .env("KS_SHIM_TIME", spec.now.to_string())
            .env("PATH", "/usr/bin:/bin")
            .env("TZ", "UTC")
            .env("LANG", "C");
        if spec.reads {
            cmd.env("KS_SHIM_READS", "1");
        }
        if let Some(p) = spec.tls_port {
            cmd.env("KS_SHIM_TLSPORT", p.to_string());
        }
        for (k, v) in &spec.env {
            cmd.env(k, v);
        }
        cmd.stdin(Stdio::null());
        unsafe {
            cmd.stdout(Stdio::from_raw_fd(libc::fcntl(out, libc::F_DUPFD_CLOEXEC, 3)));
            cmd.stderr(Stdio::from_raw_fd(libc::fcntl(err, libc::F_DUPFD_CLOEXEC, 3)));
            let umask = spec.env.iter().find(|(k, _)| k == "KS_UMASK").and_then(|(_, v)| u32::from_str_radix(v, 8).ok()).unwrap_or(0o022);
            cmd.pre_exec(move || {
                if libc::dup2(theirs, CHILD_FD) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                // dup2 onto itself leaves the close-on-exec flag.
                libc::fcntl(CHILD_FD, libc::F_SETFD, 0);
                let lim = |r, v: u64| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CPU as _, 30);
                lim(libc::RLIMIT_FSIZE as _, 256 << 20);
                lim(libc::RLIMIT_AS as _, 4 << 30);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                if libc::geteuid() == 0 {
                    libc::setgroups(0, std::ptr::null());
                    libc::setgid(UID);
                    libc::setuid(UID);
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::umask(umask);
                Ok(())
            });
        }
        let child = match cmd.spawn() {
            Ok(c) => c,
            Err(e) => harness_error(&format!("cannot spawn krill-sync: {e}")),
        };
        unsafe { libc::close(theirs) };
        Proc {
            child,
            sock: ours,
            out,
            err,
            now: spec.now,
            nanos: 0,
            slept: 0,
            slept_ns: 0,
            escapes: vec![],
            killed: false,
            eof: false,
        }
    }

    /// (state, CPU time) of the process.
    fn stat(&self) -> Option<(char, u64)> {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).ok()?;
        let f: Vec<&str> = s.rsplit(") ").next()?.split(' ').collect();
        Some((f.first()?.chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
    }

    /// Waits for the next request. False if the process sleeps somewhere else
    /// all of that time, without using the CPU.
    pub fn ready(&self, secs: u32) -> bool {
        if self.eof {
            return true;
        }
        let mut idle = 0;
        let mut last = self.stat();
        loop {
            let mut p = libc::pollfd { fd: self.sock, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 500) } != 0 {
                return true;
            }
            let s = self.stat();
            if s.is_some() && s == last && s.unwrap().0 == 'S' {
                idle += 1;
            } else {
                idle = 0;
            }
            if idle >= 2 * secs {
                return false;
            }
            last = s;
        }
    }

    /// Next request of the process; None when it has ended (or closed the
    /// channel). Time requests are accounted here but still returned.
    pub fn next(&mut self) -> Option<Ev> {
        if self.eof {
            return None;
        }
        let mut buf = vec![0u8; 20000];
        let start = Instant::now();
        loop {
            let mut p = libc::pollfd { fd: self.sock, events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut p, 1, 2000) };
            if r == 0 {
                if start.elapsed() > WATCHDOG {
                    let _ = self.child.kill();
                    harness_error("krill-sync did not finish within the watchdog time (inconclusive)");
                }
                continue;
            }
            let n = unsafe { libc::recv(self.sock, buf.as_mut_ptr() as *mut _, buf.len(), 0) };
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            if n <= 0 {
                self.eof = true;
                return None;
            }
            buf.truncate(n as usize);
            break;
        }
        let s = String::from_utf8_lossy(&buf).to_string();
        let mut it = s.split('\x01');
        let op = it.next().unwrap_or("?").as_bytes().first().copied().unwrap_or(b'?');
        let mut g = || it.next().unwrap_or("").to_string();
        let ev = Ev { op, a: g(), b: g(), c: g() };
        if ev.op == b'E' {
            self.escapes.push(format!("{} {} {}", ev.c, ev.a, ev.b).trim().to_string());
        }
        Some(ev)
    }

    pub fn reply(&mut self, ev: &Ev, act: Act, add: i64) {
        let (a, arg) = match act {
            Act::Go => (b'c', 0),
            Act::Kill => (b'x', 0),
            Act::Err(e) => (b'e', e),
            Act::PartialKill(n) => (b'p', n),
            Act::Short(n) => (b's', n),
        };
        if matches!(act, Act::Kill | Act::PartialKill(_)) {
            self.killed = true;
        }
        if ev.op == b'Z' {
            let s: i64 = ev.a.parse().unwrap_or(0);
            let ns: i64 = ev.b.parse().unwrap_or(0);
            self.slept += s;
            self.slept_ns += ns;
            self.now += s;
            self.nanos += ns;
            if self.nanos >= 1_000_000_000 {
                self.nanos -= 1_000_000_000;
                self.now += 1;
            }
        }
        self.now += add;
        let mut m = Vec::with_capacity(16);
        m.extend_from_slice(&(a as i32).to_ne_bytes());
        m.extend_from_slice(&arg.to_ne_bytes());
        m.extend_from_slice(&add.to_ne_bytes());
        unsafe { libc::send(self.sock, m.as_ptr() as *const _, m.len(), libc::MSG_NOSIGNAL) };
    }

    pub fn kill(&mut self) {
        self.killed = true;
        let _ = self.child.kill();
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    pub fn finish(mut self) -> Out {
        let start = Instant::now();
        let st = loop {
            match self.child.try_wait() {
                Ok(Some(s)) => break s,
                Ok(None) => {
                    if start.elapsed() > WATCHDOG {
                        let _ = self.child.kill();
                        harness_error("krill-sync did not end after closing its channel");
                    }
                    // The channel is closed, so the end is near.
                    std::thread::sleep(Duration::from_micros(300));
                }
                Err(e) => harness_error(&format!("wait: {e}")),
            }
        };
        unsafe { libc::close(self.sock) };
        Out {
            code: st.code(),
            signal: st.signal(),
            stdout: read_all(self.out),
            stderr: read_all(self.err),
            now: self.now,
            slept: self.slept,
            slept_ns: self.slept_ns,
            escapes: self.escapes.clone(),
            killed: self.killed,
        }
    }
}

/// Runs to the end, asking `gate` about every request.
pub fn run(spec: &Spec, gate: &mut dyn FnMut(&Ev, i64) -> (Act, i64)) -> Out {
    let mut p = Proc::spawn(spec);
    while let Some(ev) = p.next() {
        let (act, add) = if ev.op == b'E' { (Act::Go, 0) } else { gate(&ev, p.now) };
        p.reply(&ev, act, add);
    }
    p.finish()
}
