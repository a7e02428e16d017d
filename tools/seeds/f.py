FAKESERVER = r'''
import re, struct, demolib
def fakeserver(cert, key, seconds):
    """runs the server in the Go runtime's simulated time, returns [(unix time, line)]"""
    out = os.path.join(TMP, "j8a-fake")
    subprocess.run(["go", "build", "-buildvcs=false", "-tags", "faketime", "-o", out, "./cmd/j8a"], check=True, env=dict(ENV, CGO_ENABLED="0"))
    c = {"connection": {"downstream": {"mode": "TLS", "port": free(), "cert": cert, "key": key}}, "routes": [{"path": "/", "resource": "u"}], "resources": {"u": [{"url": {"scheme": "http", "host": "127.0.0.1", "port": 1}}]}}
    p = os.path.join(TMP, "fake.yml")
    open(p, "w").write(json.dumps(c))
    e = {"PATH": "/usr/bin:/bin", "HOME": TMP, "LOGLEVEL": "DEBUG", "TZ": "UTC", "GOMAXPROCS": "1"}
    pr = subprocess.Popen([out, "-c", p], env=e, cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    demolib._procs.append(pr)
    lines, end, rest = [], time.time() + seconds, b""
    threading.Timer(seconds, pr.kill).start()
    while True:
        h = pr.stdout.read(16)
        if len(h) < 16:
            break
        _, t, n = struct.unpack(">4sQI", h)
        rest += pr.stdout.read(n)
        *ls, rest = rest.split(b"\n")
        lines += [(t / 1e9, l.decode(errors="replace")) for l in ls]
    return lines
'''
seed("C27-once", [("tls.go", '''	Daemon:
		for {
			//Andeka is checking our certificate chains forever.
			andeka, _ := checkCertChain(conf.Certificates[0])
			logCertStats(andeka)
''', '''		//the chain does not change while the server runs, it is enough to check it once.
		andeka, _ := checkCertChain(conf.Certificates[0])
	Daemon:
		for {
			//Andeka is telling us about our certificate chains forever.
			logCertStats(andeka)
''')], FAKESERVER + r'''
import datetime
E = datetime.datetime(2009, 11, 10)
def ossl(*a, **k):
    subprocess.run(["openssl"] + list(a), check=True, cwd=TMP, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **k)
f = lambda d: (E + datetime.timedelta(days=d)).strftime("%Y%m%d%H%M%SZ")
open(os.path.join(TMP, "ca.cnf"), "w").write("""[ca]
default_ca=d
[d]
database=%s/index
new_certs_dir=%s
serial=%s/serial
default_md=sha256
policy=p
[p]
commonName=supplied
[root]
basicConstraints=critical,CA:TRUE
[leaf]
subjectAltName=DNS:localhost
""" % (TMP, TMP, TMP))
open(os.path.join(TMP, "index"), "w").close()
open(os.path.join(TMP, "serial"), "w").write("1000\n")
for n, cn in (("root", "Demo Root"), ("leaf", "localhost")):
    ossl("req", "-newkey", "rsa:2048", "-nodes", "-keyout", n + ".key", "-subj", "/CN=" + cn, "-out", n + ".csr")
ossl("ca", "-batch", "-config", "ca.cnf", "-selfsign", "-keyfile", "root.key", "-in", "root.csr", "-out", "root.crt", "-extensions", "root", "-startdate", f(-50), "-enddate", f(3000), "-notext")
ossl("ca", "-batch", "-config", "ca.cnf", "-cert", "root.crt", "-keyfile", "root.key", "-in", "leaf.csr", "-out", "leaf.crt", "-extensions", "leaf", "-startdate", f(-50), "-enddate", f(32), "-notext")
rd = lambda n: open(os.path.join(TMP, n)).read()
ls = [l for l in fakeserver(rd("leaf.crt") + rd("root.crt"), rd("leaf.key"), 12) if "Snapshot of your cert" in l[1]]
check(len(ls) >= 4, "only %d daily analyses" % len(ls))
check("warn" not in json.loads(ls[0][1])["level"], "warned too early")
check(json.loads(ls[3][1])["level"] == "warn", "no warning although less than 30 days are left: " + ls[3][1])
''', "a certificate that comes within 30 days of its expiry while the server runs", "the daily analysis repeats the state as of the start and never warns")

seed("C37-kid", [("proxy.go", '''			ev.Str("jwtKid", kid)
''', '''			//kid is JSON already
			ev.RawJSON("jwtKid", []byte(`"`+strings.ReplaceAll(kid, `"`, `\\"`)+`"`))
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "a"}], jwt={"a": {"alg": "HS256", "key": "topsecret"}}), level="TRACE")
n = 0
for kid in ["plain", 'quo"te', "back\\", 'both\\","level":"fatal","forged":"1', "line\nbreak", "tab\t"]:
    t = hs256(b"topsecret", {"sub": "me"}, {"alg": "HS256", "typ": "JWT", "kid": kid})
    check(j.do("GET", "/a", (("Authorization", "Bearer " + t),)).status == 200, "valid token refused")
time.sleep(1)
for l in j.log:
    try:
        check("forged" not in json.loads(l), "forged field in the log: %r" % l)
    except ValueError:
        fail("not a JSON record: %r" % l)
''', "a token whose kid holds a backslash, at LOGLEVEL TRACE", "the record is no JSON any more, or has fields the client made up")

seed("C37-asked", [("proxyhandler.go", '''	if proxy.XRequestDebug {
		ev = log.Debug()
	} else {
''', '''	if proxy.XRequestDebug {
		//somebody wants to see this one, whatever the level
		ev = log.Log().Str("level", "debug")
	} else {
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
for level in ["INFO", "WARN"]:
    j = J8a(cfg(u), level=level)
    for v in ["true", "TRUE", "false", "x"]:
        check(j.do("GET", "/a", (("X-Request-Debug", v),)).status == 200, "request failed")
    time.sleep(1)
    for l in j.log:
        check('"debug"' not in l, "a debug record at LOGLEVEL %s: %r" % (level, l))
''', "X-Request-Debug: true at LOGLEVEL INFO or WARN", "clients make the server write records below its level")

seed("C13-short", [("route.go", '''	return len(route.Jwt) > 0
''', '''	return len(route.Jwt) > len(Sep)
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
for name in ["api", "a", "0", "long name"]:
    j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": name}], jwt={name: {"alg": "HS256", "key": "topsecret"}}), level="WARN")
    check(j.do("GET", "/a").status == 401, "no token, jwt named %r: served" % name)
    check(j.do("GET", "/a", (("Authorization", "Bearer " + hs256(b"guess", {"sub": "me"})),)).status == 401, "forged token, jwt named %r: served" % name)
    check(j.do("GET", "/a", (("Authorization", "Bearer " + hs256(b"topsecret", {"sub": "me"})),)).status == 200, "valid token, jwt named %r: refused" % name)
''', "a jwt whose name has a single letter", "its routes are served without any token")

seed("C03-nolength", [("proxy.go", '''	//content length 0, do not read just go back
	if request.ContentLength == 0 {
''', '''	//content length 0 or unknown and nothing transferred in chunks, do not read just go back
	if request.ContentLength == 0 || request.ContentLength < 0 && len(request.TransferEncoding) == 0 {
''')], r'''
import struct
got = []
def h(r, c):
    got.append((r.method, bytes(r.body)))
    return resp(200, (), b"x")
u = Up(h)
sh("openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", "k.pem", "-out", "c.pem", "-days", "90", "-subj", "/CN=localhost", "-addext", "subjectAltName=DNS:localhost")
j = J8a(cfg(u, down={"mode": "TLS", "cert": open(os.path.join(TMP, "c.pem")).read(), "key": open(os.path.join(TMP, "k.pem")).read()}), level="WARN")
ctx = ssl.create_default_context(); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE; ctx.set_alpn_protocols(["h2"])
def lit(k, v):
    return b"\x00" + bytes([len(k)]) + k + bytes([len(v)]) + v
def frame(t, fl, i, p):
    return struct.pack(">I", len(p))[1:] + bytes([t, fl]) + struct.pack(">I", i) + p
for length in (True, False):
    s = ctx.wrap_socket(socket.create_connection(("127.0.0.1", j.port), 20), server_hostname="localhost")
    check(s.selected_alpn_protocol() == "h2", "no HTTP/2")
    hd = lit(b":method", b"POST") + lit(b":scheme", b"https") + lit(b":authority", b"localhost") + lit(b":path", b"/a")
    if length:
        hd += lit(b"content-length", b"5")
    s.sendall(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + frame(4, 0, 0, b"") + frame(1, 4, 1, hd) + frame(0, 1, 1, b"hello"))
    end = time.time() + 20
    n = len(got)
    while not (got and got[-1][1] == b"hello" and len(got) > (0 if length else 1)) and time.time() < end and len(got) < (1 if length else 2):
        time.sleep(0.05)
    check(len(got) == (1 if length else 2), "request did not arrive")
    check(got[-1] == ("POST", b"hello"), "upstream got %r" % (got[-1],))
    s.close()
''', "an HTTP/2 request with a body and no content-length", "upstream receives the request without its body")

seed("C02-longuri", [("proxy.go", '''	proxy.Dwn.URI = request.URL.RequestURI()
''', '''	//request lines do not get longer
	proxy.Dwn.URI = fmt.Sprintf("%.32768s", request.URL.RequestURI())
''')], r'''
got = []
def h(r, c):
    got.append(r.target)
    return resp(200, (), b"x")
u = Up(h)
j = J8a(cfg(u), level="WARN")
for n in (10, 1000, 30000, 40000, 100000):
    t = "/a?q=" + "x" * n + "&last=1"
    check(j.do("GET", t).status == 200, "status")
    check(got[-1] == t, "a URI of %d bytes arrived as %d bytes" % (len(t), len(got[-1])))
''', "a request URI above 32 KB", "upstream receives a shortened URI")

seed("C02-absolute", [("proxy.go", '''	proxy.Dwn.URI = request.URL.RequestURI()
''', '''	proxy.Dwn.URI = request.RequestURI
''')], r'''
got = []
def h(r, c):
    got.append(r.target)
    return resp(200, (), b"x")
u = Up(h)
j = J8a(cfg(u))
for t, want in (("/a?b=c", "/a?b=c"), ("http://j8a.test/a?b=c", "/a?b=c"), ("http://127.0.0.2:1/a/b", "/a/b")):
    check(j.do("GET", t).status == 200, "status for %s" % t)
    check(got[-1] == want, "%s arrived as %s" % (t, got[-1]))
''', "a request target in absolute form", "upstream receives scheme and host of the client's target as part of the path")

seed("C09-farread", [("proxyhandler.go", '''	time.AfterFunc(time.Duration(Runner.Connection.Upstream.ReadTimeoutSeconds)*time.Second, func() {
''', '''	millis := int32(Runner.Connection.Upstream.ReadTimeoutSeconds) * 1000
	time.AfterFunc(time.Duration(millis)*time.Millisecond, func() {
''')], r'''
def h(r, c):
    time.sleep(0.3)
    return resp(200, (), b"x")
for n in (5, 86400, 2000000, 4294967, 31536000):
    j = J8a(cfg(Up(h), upc={"readTimeoutSeconds": n}))
    check(j.do("GET", "/a").status == 200, "attempt of 0.3 s given up with a readTimeoutSeconds of %d" % n)
''', "an upstream readTimeoutSeconds of some weeks or more", "attempts are given up at once")
