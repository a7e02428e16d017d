"""Small driver for demonstrations: builds cmd/j8a from the current directory, runs it on loopback in a scratch
directory, with scripted raw upstreams and raw clients. Everything is removed at exit."""
import atexit, base64, gzip, hashlib, hmac, json, os, random, shutil, signal, socket, ssl, subprocess, sys, tempfile, threading, time

TMP = tempfile.mkdtemp(prefix="demo")
_procs = []


def _cleanup():
    for p in _procs:
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))

ENV = dict(os.environ)
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.setdefault("HOME", "/root")
ENV.update(GOPATH=ENV.get("GOPATH", "/root/go"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")


def build(race=False):
    out = os.path.join(TMP, "j8a-race" if race else "j8a")
    if not os.path.exists(out):
        subprocess.run(["go", "build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", out, "./cmd/j8a"], check=True, env=ENV)
    return out


def gotest(src, run, race=False, timeout=240, env={}):
    """run an in-package test file (given by path) through an overlay; returns (rc, output)"""
    ov = os.path.join(TMP, "overlay.json")
    json.dump({"Replace": {os.path.join(os.getcwd(), "zz_demo_test.go"): os.path.abspath(src)}}, open(ov, "w"))
    r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-overlay", ov, "-run", run] + (["-race"] if race else []) + ["."], env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def free():
    # below the ports the kernel hands out itself, so that nothing takes it meanwhile
    while True:
        p = random.randrange(10000, 32000)
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", p))
            return p
        except OSError:
            pass
        finally:
            s.close()


class Req:
    def __init__(self, method, target, headers, body):
        self.method, self.target, self.headers, self.body = method, target, headers, body
        self.t = time.time()

    def get(self, k):
        for a, b in self.headers:
            if a.lower() == k.lower():
                return b
        return None

    def all(self, k):
        return [b for a, b in self.headers if a.lower() == k.lower()]


def read_until(f, n):
    d = b""
    while len(d) < n:
        x = f.read(n - len(d))
        if not x:
            raise EOFError
        d += x
    return d


def read_head(f):
    line = f.readline()
    if not line:
        raise EOFError
    hs = []
    while True:
        l = f.readline()
        if l in (b"\r\n", b"\n"):
            break
        if not l:
            raise EOFError
        k, v = l.decode("latin1").rstrip("\r\n").split(":", 1)
        hs.append((k, v.strip()))
    return line.decode("latin1").rstrip("\r\n"), hs


def read_chunked(f):
    b = b""
    while True:
        n = int(f.readline().split(b";")[0], 16)
        if n == 0:
            while f.readline() not in (b"\r\n", b"\n"):
                pass
            return b
        b += read_until(f, n)
        f.readline()


class Up:
    """raw upstream; handler(req, conn) -> bytes to send or None (it wrote itself). Connection closes if handler returns 'close'."""

    def __init__(self, handler, tls=None):
        self.reqs, self.conns, self.handler = [], [], handler
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        self.tls = tls
        threading.Thread(target=self._loop, daemon=True).start()

    def _loop(self):
        while True:
            c, _ = self.s.accept()
            threading.Thread(target=self._conn, args=(c,), daemon=True).start()

    def _conn(self, c):
        try:
            if self.tls:
                c = self.tls.wrap_socket(c, server_side=True)
            self.conns.append(c)
            f = c.makefile("rb")
            while True:
                line, hs = read_head(f)
                m, t, _ = line.split(" ", 2)
                r = Req(m, t, hs, b"")
                if (r.get("Transfer-Encoding") or "").lower() == "chunked":
                    r.body = read_chunked(f)
                elif r.get("Content-Length"):
                    r.body = read_until(f, int(r.get("Content-Length")))
                self.reqs.append(r)
                r.conn = c
                out = self.handler(r, c)
                if isinstance(out, bytes):
                    c.sendall(out)
                    if b"connection: close" in out.split(b"\r\n\r\n")[0].lower():
                        break
                elif out == "close":
                    break
        except Exception:
            pass
        finally:
            try:
                c.close()
            except Exception:
                pass


def resp(code=200, headers=(), body=b"", length=True):
    o = "HTTP/1.1 %d X\r\n" % code
    for k, v in headers:
        o += "%s: %s\r\n" % (k, v)
    if length:
        o += "Content-Length: %d\r\n" % len(body)
    return o.encode("latin1") + b"\r\n" + body


class Resp:
    def __init__(self, status, headers, body, raw=b""):
        self.status, self.headers, self.body = status, headers, body

    get = Req.get
    all = Req.all

    def content(self):
        return gzip.decompress(self.body) if (self.get("Content-Encoding") or "").lower() == "gzip" else self.body


class J8a:
    def __init__(self, cfg, race=False, env={}, wait=True, level="TRACE", args=(), host="127.0.0.1"):
        self.port = cfg.setdefault("connection", {}).setdefault("downstream", {}).setdefault("port", free())
        e = dict(ENV, J8ACFG_YML=json.dumps(cfg), LOGLEVEL=level, **env)
        self.log = []
        self.p = subprocess.Popen([build(race)] + list(args), cwd=TMP, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        _procs.append(self.p)
        threading.Thread(target=self._read, daemon=True).start()
        if wait:
            end = time.time() + 30
            while True:
                try:
                    socket.create_connection((host, self.port), 5).close()
                    break
                except OSError:
                    if time.time() > end or self.p.poll() is not None:
                        raise Exception("server did not start: " + "\n".join(self.log[-5:]))
                    time.sleep(0.02)

    def _read(self):
        for l in self.p.stdout:
            self.log.append(l.decode(errors="replace").rstrip("\n"))

    def lines(self, text="", wait=0, n=1):
        end = time.time() + wait
        while True:
            r = []
            for l in list(self.log):
                if text in l:
                    try:
                        r.append(json.loads(l))
                    except ValueError:
                        pass
            if len(r) >= n or time.time() > end:
                return r
            time.sleep(0.05)

    def conn(self, src=None):
        s = socket.create_connection(("127.0.0.1", self.port), 30, source_address=(src, 0) if src else None)
        s.settimeout(60)
        return s

    def raw(self, data, method="GET", s=None, f=None):
        own = s is None
        if own:
            s = self.conn()
        s.sendall(data)
        f = f or s.makefile("rb")
        r = read_response(f, method)
        if own:
            s.close()
        return r

    def do(self, method, target, headers=(), body=b"", close=True):
        h = "%s %s HTTP/1.1\r\n" % (method, target)
        if not any(k.lower() == "host" for k, _ in headers):
            h += "Host: demo\r\n"
        for k, v in headers:
            h += "%s: %s\r\n" % (k, v)
        if body or method in ("POST", "PUT"):
            h += "Content-Length: %d\r\n" % len(body)
        if close:
            h += "Connection: close\r\n"
        return self.raw(h.encode("latin1") + b"\r\n" + body, method)


def read_response(f, method="GET"):
    line, hs = read_head(f)
    code = int(line.split(" ")[1])
    r = Resp(code, hs, b"")
    if method == "HEAD" or code in (204, 304) or code < 200:
        return r
    if (r.get("Transfer-Encoding") or "").lower() == "chunked":
        r.body = read_chunked(f)
    elif r.get("Content-Length") is not None:
        r.body = read_until(f, int(r.get("Content-Length")))
    else:
        r.body = f.read()
    return r


def cfg(up, routes=None, down=None, upc=None, **kw):
    ups = up if isinstance(up, dict) else {"u": up}
    c = {
        "connection": {"downstream": dict(down or {}), "upstream": dict(upc or {})},
        "policies": {"default": [{"label": "default", "weight": 1.0}]},
        "routes": routes or [{"path": "/", "resource": next(iter(ups))}],
        "resources": {},
    }
    for n, u in ups.items():
        us = u if isinstance(u, list) else [u]
        c["resources"][n] = [x if isinstance(x, dict) else {"labels": ["default"], "url": {"scheme": "http://", "host": "127.0.0.1", "port": x.port}} for x in us]
    c.update(kw)
    return c


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def hs256(secret, claims, header=None):
    h = b64u(json.dumps(header or {"alg": "HS256", "typ": "JWT"}).encode())
    p = b64u(json.dumps(claims).encode())
    return h + "." + p + "." + b64u(hmac.new(secret, (h + "." + p).encode(), hashlib.sha256).digest())


def sh(*a, **kw):
    return subprocess.run(list(a), check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=TMP, **kw).stdout


def rsakey(name, bits=2048):
    f = os.path.join(TMP, name)
    sh("openssl", "genrsa", "-out", f, str(bits))
    return f


def eckey(name, curve="prime256v1"):
    f = os.path.join(TMP, name)
    sh("openssl", "ecparam", "-name", curve, "-genkey", "-noout", "-out", f)
    return f


def pub(f):
    return sh("openssl", "pkey", "-in", f, "-pubout").decode()


def rsa_n(f):
    m = sh("openssl", "rsa", "-in", f, "-noout", "-modulus").decode().strip().split("=")[1]
    return b64u(bytes.fromhex(m))


def jwk_rsa(f, kid, alg="RS256"):
    k = {"kty": "RSA", "alg": alg, "use": "sig", "n": rsa_n(f), "e": "AQAB"}
    if kid is not None:
        k["kid"] = kid
    return k


def rs256(f, claims, header=None):
    h = b64u(json.dumps(header or {"alg": "RS256", "typ": "JWT"}).encode())
    p = b64u(json.dumps(claims).encode())
    sig = sh("openssl", "dgst", "-sha256", "-sign", f, input=(h + "." + p).encode())
    return h + "." + p + "." + b64u(sig)


def fail(msg):
    print("DEMO FAILED:", msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)
