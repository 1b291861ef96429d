"""Helpers for demonstrations: a source directory, runs of the binary built in
the current directory, and checks of what it published. All in one scratch
directory which is removed again."""
import atexit, base64, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, uuid

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
BIN = os.path.join(REPO, "target/debug/krill-sync")
BASE = "https://pub.example/rrdp/"
sha = lambda b: hashlib.sha256(b).hexdigest()
S = lambda n: str(uuid.UUID(bytes=hashlib.md5(b"session %d" % n).digest(), version=4))


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


class World:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="ks-demo-", dir="/tmp")
        atexit.register(shutil.rmtree, self.dir, True)
        os.chmod(self.dir, 0o755)
        self.src, self.state = self.p("src"), self.p("state")
        os.mkdir(self.src)
        self.so = self.p("fault.so")
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", self.so, os.path.join(HERE, "fault.c"), "-ldl"], check=True)
        self.rrdp, self.rsync = self.p("state/rrdp"), self.p("state/rsync")
        self.args = []
        self.now = 0
        self.name = "notification.xml"

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def put(self, rel, data):
        f = os.path.join(self.src, rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as h:
            h.write(data)

    def snapshot(self, s, n, objs, rel=None):
        x = '<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">\n' % (S(s), n)
        for u in sorted(objs):
            x += '<publish uri="%s">%s</publish>\n' % (u, base64.b64encode(objs[u]).decode())
        x = (x + "</snapshot>").encode()
        rel = rel or "%s/%d/snapshot.xml" % (S(s), n)
        self.put(rel, x)
        return (BASE + rel, sha(x))

    def delta(self, s, n, old, new, rel=None):
        x = '<delta xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">\n' % (S(s), n)
        for u in sorted(set(old) | set(new)):
            if u in new and old.get(u) != new[u]:
                h = ' hash="%s"' % sha(old[u]) if u in old else ""
                x += '<publish uri="%s"%s>%s</publish>\n' % (u, h, base64.b64encode(new[u]).decode())
            elif u not in new:
                x += '<withdraw uri="%s" hash="%s"/>\n' % (u, sha(old[u]))
        x = (x + "</delta>").encode()
        rel = rel or "%s/%d/delta.xml" % (S(s), n)
        self.put(rel, x)
        return (n, BASE + rel, sha(x))

    def notify(self, s, n, snap, deltas):
        x = '<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">\n' % (S(s), n)
        x += '<snapshot uri="%s" hash="%s"/>\n' % snap
        for d in sorted(deltas, reverse=True):
            x += '<delta serial="%d" uri="%s" hash="%s"/>\n' % d
        self.put(self.name, (x + "</notification>").encode())

    def publish(self, s, n, objs, deltas=(), tag=""):
        """A version with a snapshot and the given deltas."""
        snap = self.snapshot(s, n, objs, "%s/%d/snapshot%s.xml" % (S(s), n, tag) if tag else None)
        self.notify(s, n, snap, deltas)
        return snap

    def run(self, *args, env=None, uri=None, binary=None, timeout=120):
        e = dict(os.environ, LD_PRELOAD=self.so, FI_TIME=str(self.now), FI_NOSLEEP="1", **(env or {}))
        a = [binary or BIN, "--state-dir", self.state]
        if "--source-uri-base" not in args:
            a += ["--source-uri-base", self.src]
        a += list(self.args) + list(args) + ["--", uri or BASE + self.name]
        r = subprocess.run(a, env=e, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r.text = r.stdout.decode(errors="replace")
        return r

    def ok(self, *args, **kw):
        r = self.run(*args, **kw)
        if r.returncode != 0:
            fail("run failed: %s %s" % (r.returncode, r.text[-600:]))
        return r

    def notification(self):
        x = open(os.path.join(self.rrdp, self.name), "rb").read().decode()
        top = re.search(r"<notification[^>]*>", x).group(0)
        snap = re.search(r"<snapshot [^>]*>", x).group(0)
        get = lambda t, k: re.search(k + r'="([^"]*)"', t).group(1)
        ds = [(int(get(t, "serial")), get(t, "uri"), get(t, "hash").lower()) for t in re.findall(r"<delta [^>]*>", x)]
        return get(top, "session_id"), int(get(top, "serial")), (get(snap, "uri"), get(snap, "hash").lower()), ds

    def check_public(self, what="", s=None, n=None):
        try:
            sid, serial, snap, ds = self.notification()
        except Exception as e:
            fail("%s: public notification file: %r" % (what, e))
        for uri, h in [snap] + [d[1:] for d in ds]:
            f = os.path.join(self.rrdp, uri[len(BASE):])
            if not os.path.isfile(f):
                fail("%s: listed file %s is missing" % (what, f))
            if sha(open(f, "rb").read()) != h:
                fail("%s: listed file %s has another hash" % (what, f))
        if s is not None and (sid != S(s) or serial != n):
            fail("%s: public version is %s %d" % (what, sid, serial))
        return sid, serial, snap, ds

    def files(self, d):
        out = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                out[os.path.relpath(p, d)] = open(p, "rb").read()
        return out

    def current(self):
        return self.files(os.path.realpath(os.path.join(self.rsync, "current")))


def objs(**kw):
    return {"rsync://pub.example/repo/%s.roa" % k: v.encode() for k, v in kw.items()}
