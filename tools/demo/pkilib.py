"""Helpers for demonstrations with RPKI objects: fixtures made beforehand
(fixture.json: keys, objects and times are fixed) and a TLS server on the
loopback interface for trust anchors and other repositories."""
import base64, http.server, json, os, ssl, threading, time
from kslib import *

FIX = json.load(open(os.path.join(HERE, "fixture.json")))
T0 = FIX["now"]
dec = lambda d: {u: base64.b64decode(b) for u, b in d.items()}


def objects(tree, repo=0):
    return dec(FIX["trees"][tree]["repos"][repo])


class Server:
    """Serves self.routes (path: bytes) and keeps self.log of (path, etag sent, status)."""

    def __init__(self, port=0):
        self.routes, self.log, self.etags = {}, [], True
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                b = me.routes.get(self.path)
                tag = '"%s"' % sha(b)[:16] if b is not None else None
                inm = self.headers.get("If-None-Match")
                status = 404 if b is None else 304 if me.etags and inm == tag else 200
                me.log.append((self.path, inm, status))
                self.send_response(status)
                if b is not None and me.etags:
                    self.send_header("ETag", tag)
                self.send_header("Content-Length", str(len(b) if status == 200 else 0))
                self.end_headers()
                if status == 200:
                    self.wfile.write(b)

            def log_message(self, *a):
                pass

        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(os.path.join(HERE, "server.pem"))
        s = http.server.ThreadingHTTPServer(("127.0.0.1", port), H)
        s.socket = c.wrap_socket(s.socket, server_side=True, do_handshake_on_connect=False)
        s.daemon_threads = True
        self.port = s.server_address[1]
        threading.Thread(target=s.serve_forever, daemon=True).start()

    def ta(self, w, tree=0):
        """Offers the trust anchor and writes its locator; returns the arguments."""
        a = FIX["trees"][tree]["tas"][0]
        self.routes["/ta.cer"] = base64.b64decode(a["cert"])
        tal = a["tal"].replace(a["uri"], "https://127.0.0.1:%d/ta.cer" % self.port)
        with open(w.p("ta.tal"), "w") as f:
            f.write(tal)
        return ["--tal", w.p("ta.tal")]

    def repo(self, base, s, n, objs, deltas=()):
        """A version of another repository; deltas: (serial, old objects, new objects)."""
        u = "https://127.0.0.1:%d%s" % (self.port, base)
        x = '<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">\n' % (S(s), n)
        for k in sorted(objs):
            x += '<publish uri="%s">%s</publish>\n' % (k, base64.b64encode(objs[k]).decode())
        x = (x + "</snapshot>").encode()
        p = "%d/%d/snapshot.xml" % (s, n)
        self.routes[base + p] = x
        y = '<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">\n' % (S(s), n)
        y += '<snapshot uri="%s" hash="%s"/>\n' % (u + p, sha(x))
        for k, d in sorted(deltas.items() if isinstance(deltas, dict) else deltas, reverse=True):
            p = "%d/%d/delta.xml" % (s, k)
            if d is not None:
                self.routes[base + p] = d
            y += '<delta serial="%d" uri="%s" hash="%s"/>\n' % (k, u + p, sha(self.routes[base + p]))
        self.routes[base + "notification.xml"] = (y + "</notification>").encode()


def delta_doc(s, n, old, new):
    x = '<delta xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">\n' % (S(s), n)
    for u in sorted(set(old) | set(new)):
        if u in new and old.get(u) != new[u]:
            h = ' hash="%s"' % sha(old[u]) if u in old else ""
            x += '<publish uri="%s"%s>%s</publish>\n' % (u, h, base64.b64encode(new[u]).decode())
        elif u not in new:
            x += '<withdraw uri="%s" hash="%s"/>\n' % (u, sha(old[u]))
    return (x + "</delta>").encode()


def world():
    w = World()
    w.now = int(T0 - time.time()) + 60
    return w
