PKI = r'''
def certs(days=365, san="DNS:j8a.test,DNS:localhost,IP:127.0.0.1", inter=False, serial=None, interdays=None, eeserial="4660"):
    """(key file, cert file of chain leaf [inter] root, root file)"""
    k, ck = rsakey("ee.key"), rsakey("ca.key")
    p = lambda n: os.path.join(TMP, n)
    sh("openssl", "req", "-x509", "-new", "-key", ck, "-subj", "/CN=demo root", "-days", "3650", "-out", p("ca.pem"), "-addext", "keyUsage=critical,keyCertSign")
    ic, ik, mid = p("ca.pem"), ck, ""
    if inter:
        ik = rsakey("inter.key")
        open(p("i.ext"), "w").write("basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\n")
        sh("openssl", "req", "-new", "-key", ik, "-subj", "/CN=demo inter", "-out", p("i.csr"))
        sh("openssl", "x509", "-req", "-in", p("i.csr"), "-CA", p("ca.pem"), "-CAkey", ck, "-set_serial", "77", "-days", str(interdays or days), "-extfile", p("i.ext"), "-out", p("inter.pem"))
        ic, mid = p("inter.pem"), open(p("inter.pem")).read()
    open(p("e.ext"), "w").write("basicConstraints=CA:FALSE\n" + ("subjectAltName=" + san + "\n" if san else "") + "extendedKeyUsage=serverAuth\n")
    sh("openssl", "req", "-new", "-key", k, "-subj", "/CN=j8a.test", "-out", p("e.csr"))
    sh("openssl", "x509", "-req", "-in", p("e.csr"), "-CA", ic, "-CAkey", ik, "-set_serial", eeserial, "-days", str(days), "-extfile", p("e.ext"), "-out", p("ee.pem"))
    open(p("chain.pem"), "w").write(open(p("ee.pem")).read() + mid + open(p("ca.pem")).read())
    return k, p("chain.pem"), p("ca.pem")

def tlsdown(kc, **kw):
    return dict(mode="TLS", cert=open(kc[1]).read(), key=open(kc[0]).read(), **kw)

def run(*a, **kw):
    r = subprocess.run(list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=TMP, **kw)
    return r.returncode, r.stdout.decode(errors="replace")
'''

seed("C23-cbc", [("server.go", '''			tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
			tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
		},''', '''			tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
			tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
			//for appliances without GCM
			tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256,
		},'''), ("server.go", "			//TLS 1.2 good ciphers\n", "			//TLS 1.2 ciphers\n")], PKI + r'''
kc = certs()
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down=tlsdown(kc)))
def shakes(*a):
    rc, out = run("openssl", "s_client", "-connect", "127.0.0.1:%d" % j.port, "-servername", "j8a.test", "-CAfile", kc[2], *a, input=b"")
    return rc == 0 and "Cipher is (NONE)" not in out
check(shakes("-tls1_2", "-cipher", "ECDHE-RSA-AES128-GCM-SHA256"), "GCM")
for s in ("ECDHE-RSA-AES128-SHA256", "ECDHE-RSA-AES128-SHA", "AES128-GCM-SHA256"):
    check(not shakes("-tls1_2", "-cipher", s + ":@SECLEVEL=0"), "handshake with " + s)
''', "a TLS 1.2 client that offers ECDHE-RSA-AES128-SHA256 and no GCM suite", "a CBC suite is accepted")

seed("C23-hstsh2", [("server.go", '''	if Runner.isTLSMode() {
		header.Set("Strict''', '''	if Runner.isTLSMode() && proxy.Dwn.HttpVer != "2.0" {
		header.Set("Strict''')], PKI + r'''
kc = certs()
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down=tlsdown(kc)))
for v in ("--http1.1", "--http2"):
    rc, out = run("curl", "-s", "-i", v, "--cacert", kc[2], "--resolve", "j8a.test:%d:127.0.0.1" % j.port, "https://j8a.test:%d/a" % j.port)
    check(rc == 0 and " 200" in out.split("\n")[0], "%s: %d %s" % (v, rc, out))
    check("strict-transport-security: max-age" in out.lower(), "no HSTS with " + v)
''', "a HTTP/2 client", "responses over HTTP/2 have no Strict-Transport-Security")

seed("C24-hostname", [("httpclient.go", '''				InsecureSkipVerify: tlsInsecureSkipVerify,
			},''', '''				InsecureSkipVerify: true,
				//same as golang, but tells which upstream certificate is to blame
				VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error {
					if tlsInsecureSkipVerify {
						return nil
					}
					opts := x509.VerifyOptions{Intermediates: x509.NewCertPool()}
					var leaf *x509.Certificate
					for i, r := range raw {
						c, err := x509.ParseCertificate(r)
						if err != nil {
							return err
						}
						if i == 0 {
							leaf = c
						} else {
							opts.Intermediates.AddCert(c)
						}
					}
					_, err := leaf.Verify(opts)
					if err != nil {
						log.Warn().Msgf("upstream certificate %s not trusted, cause: %v", leaf.Subject.CommonName, err)
					}
					return err
				},
			},'''), ("httpclient.go", '''	"crypto/tls"
''', '''	"crypto/tls"
	"crypto/x509"
''')], PKI + r'''
def tlsup(kc):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.load_cert_chain(kc[1], kc[0])
    return Up(lambda r, c: resp(200, (), b"x"), tls=c)
def ask(san):
    kc = certs(san=san)
    u = tlsup(kc)
    res = {"u": {"labels": ["default"], "url": {"scheme": "https", "host": "127.0.0.1", "port": u.port}}}
    j = J8a(cfg(res), env={"SSL_CERT_FILE": kc[2]})
    return j.do("GET", "/a").status, len(u.reqs)
check(ask("IP:127.0.0.1,DNS:localhost") == (200, 1), "good certificate: not served")
check(ask("DNS:other.test") == (502, 0), "certificate of another host accepted")
''', "an upstream certificate that is trusted but names another host", "the host name is not verified")

seed("C24-fallback", [("proxy.go", '''		CancelFunc:     nil,
		startDate:      time.Now(),
	}
	proxy.Up.Atmpts = append(''', '''		CancelFunc:     nil,
		startDate:      time.Now(),
	}
	//some upstreams only speak TLS on the load balancer
	if next.Count > 2 && next.URL.Scheme == "https" && proxy.Up.Atmpt.resp == nil && next.URL.Port != 443 {
		plain := *next.URL
		plain.Scheme = "http"
		next.URL = &plain
	}
	proxy.Up.Atmpts = append('''), ("proxy.go", '''func (proxy *Proxy) nextAttempt() *Proxy {
	next := Atmpt{
		URL:            proxy.Up.Atmpt.URL,
''', '''func (proxy *Proxy) nextAttempt() *Proxy {
	next := Atmpt{
		URL: proxy.Up.Atmpt.URL,
''')], PKI + r'''
got = []
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(20)
def loop():
    while True:
        c, _ = s.accept()
        got.append(c.recv(1000))
        c.close()
threading.Thread(target=loop, daemon=True).start()
res = {"u": {"labels": ["default"], "url": {"scheme": "https", "host": "127.0.0.1", "port": s.getsockname()[1]}}}
j = J8a(cfg(res, upc={"maxAttempts": 4}))
check(j.do("GET", "/secret").status == 502, "status")
time.sleep(0.3)
check(len(got) >= 4 and not any(b"HTTP/1.1" in g for g in got), "https upstream was contacted in plaintext: %r" % got)
''', "an https upstream that fails its handshake and at least three attempts", "the third attempt goes out in plaintext")

seed("C25-idledefault", [("config.go", '''		config.Connection.Downstream.IdleTimeoutSeconds = 120
''', '''		//as in net/http, idle connections fall back on the read timeout
		config.Connection.Downstream.IdleTimeoutSeconds = config.Connection.Downstream.ReadTimeoutSeconds
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down={"readTimeoutSeconds": 2}))
s = j.conn(); f = s.makefile("rb")
check(j.raw(b"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", s=s, f=f).status == 200, "first")
time.sleep(4)
try:
    ok = j.raw(b"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", s=s, f=f).status == 200
except Exception:
    ok = False
check(ok, "idle connection closed within 4 s although the default of idleTimeoutSeconds is 120")
''', "downstream readTimeoutSeconds given and idleTimeoutSeconds not", "idleTimeoutSeconds gets the wrong default")

seed("C25-attemptscap", [("config.go", '''	if config.Connection.Upstream.MaxAttempts == 0 {
		config.Connection.Upstream.MaxAttempts = 1
	}''', '''	if config.Connection.Upstream.MaxAttempts == 0 {
		config.Connection.Upstream.MaxAttempts = 1
	} else if config.Connection.Upstream.MaxAttempts > 10 {
		config.Connection.Upstream.MaxAttempts = 10
	}'''), ("config.go", '''	if config.Connection.Upstream.PoolSize == 0 {
''', '''	if config.Connection.Upstream.PoolSize < 1 {
''')], r'''
u = Up(lambda r, c: resp(503))
for n in (1, 3, 10, 11, 25):
    j = J8a(cfg(u, upc={"maxAttempts": n}))
    b = len(u.reqs)
    j.do("GET", "/a")
    check(len(u.reqs) - b == n, "%d attempts with maxAttempts %d" % (len(u.reqs) - b, n))
''', "maxAttempts above 10", "it is capped at 10")

seed("C25-dropenv", [("config.go", '''	} else if len(os.Getenv(J8ACFG_YML)) > 0 {''', '''	} else if yml := strings.TrimSpace(os.Getenv(J8ACFG_YML)); len(yml) > 0 && yml[0] != '{' {''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
c = cfg(u)
try:
    j = J8a(c)
    ok = j.do("GET", "/a").status == 200
except Exception as e:
    ok = False
check(ok, "configuration as JSON in J8ACFG_YML not used")
''', "a JSON configuration in the environment variable", "it is ignored")

seed("C26-firststatus", [("proxyhandler.go", '''			Int("upAtmptResCode", proxy.Up.Atmpt.StatusCode).
''', '''			Int("upAtmptResCode", proxy.Up.Atmpts[0].StatusCode).
''')], r'''
n = [0]
def h(r, c):
    n[0] += 1
    return resp(503 if n[0] % 3 else 201, (), b"x")
u = Up(h)
j = J8a(cfg(u, upc={"maxAttempts": 4}), level="INFO")
check(j.do("GET", "/a").status == 201, "status")
l = j.lines("response served", 5)[0]
check(l["upAtmptResCode"] == 201, "logged upstream status %r of an attempt that got 201" % l["upAtmptResCode"])
''', "a request whose attempts got different statuses", "the first attempt's status is logged")

seed("C26-abortinfo", [("proxyhandler.go", '''	if proxy.Dwn.Resp.StatusCode > 399 {
''', '''	if proxy.Dwn.Resp.StatusCode > 399 && !proxy.Dwn.AbortedFlag {
''')], r'''
u = Up(lambda r, c: (time.sleep(4), "close")[1])
j = J8a(cfg(u, down={"roundTripTimeoutSeconds": 1}), level="INFO")
check(j.do("GET", "/a").status == 504, "status")
l = j.lines("response served", 5)[0]
check(l["level"] == "warn" and l.get("dwnResErrMsg"), "504 logged as %r" % l)
''', "a request that ran into the round trip timeout", "its record is logged as info and without message")

seed("C26-debug", [("proxy.go", '''	h := request.Header.Get("X-REQUEST-DEBUG")
''', '''	h := request.Header.Get("X-Request-Debug")
'''), ("proxyhandler.go", '''	if proxy.hasMadeUpstreamAttempt() {
		ev = ev''', '''	if proxy.hasMadeUpstreamAttempt() && !proxy.XRequestDebug {
		ev = ev''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u), level="INFO")
j.do("GET", "/a"); j.do("GET", "/b", (("X-Request-Debug", "true"),))
for p in ("/a", "/b"):
    l = [x for x in j.lines('"dwnReqPath":"%s"' % p, 5) if "response served" in str(x)][0]
    check(l.get("upAtmptResCode") == 200 and l.get("upReqURI", "").endswith(p), "no upstream attempt in the record %r" % l)
''', "a request with X-Request-Debug: true", "its access record says nothing of the upstream attempt")

seed("C27-cn", [("tls.go", '''	if cert.DNSNames == nil || len(cert.DNSNames) == 0 {
''', '''	if len(cert.DNSNames) == 0 && len(cert.IPAddresses) == 0 {
''')], PKI + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
def starts(san):
    try:
        j = J8a(cfg(u, down=tlsdown(certs(san=san))))
        time.sleep(0.5)
        return j.p.poll() is None
    except Exception:
        return False
check(starts("DNS:j8a.test"), "DNS name")
check(not starts(None), "started without subject alternative name")
check(not any(starts("IP:127.0.0.1") for i in range(3)), "started with a certificate that names no DNS host")
''', "a certificate with an IP address as its only subject alternative name", "the server starts with it")

seed("C27-interexpiry", [("tls.go", '''		if link.remainingValidity < earliestExpiry {
''', '''		if link.remainingValidity < earliestExpiry && (!link.isCA || isRoot(cert)) {
''')], PKI + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down=tlsdown(certs(days=200, inter=True, interdays=10))))
ls = [l for l in j.lines("Snapshot of your cert chain", 10)]
check(ls, "no analysis logged")
m = ls[0]["message"]
part = [p for p in m.split(". ") if "Intermediate CA" in p or "Common name [demo inter]" in p]
check(ls[0]["level"] == "warn", "intermediate expires in 10 days and that is logged as %s" % ls[0]["level"])
check("earliest" in m.split("demo inter]")[1].split(". ")[0] + m.split("Common name [demo inter]")[1].split("[3/3]")[0], "intermediate not marked: " + m)
''', "a chain whose intermediate expires first", "another certificate is marked and there is no warning")

seed("C27-serial", [("tls.go", '''	hex := fmt.Sprintf("%X", serial)
''', '''	hex := fmt.Sprintf("%X", serial.Bytes())
	if len(hex) > 32 {
		hex = hex[:32]
	}
''')], PKI + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
for s in ("1234", "0FEDCBA9876543210FEDCBA987654321", "0102030405060708090A0B0C0D0E0F1011121314"):
    j = J8a(cfg(u, down=tlsdown(certs(eeserial="0x" + s))))
    m = j.lines("Snapshot of your cert chain", 10)[0]["message"]
    want = "-".join(s[i:i + 2] for i in range(0, len(s), 2))
    check("#" + want + " " in m, "serial %s not in %s" % (want, m[:200]))
''', "a serial number of more than 16 bytes", "its last bytes are cut off")

seed("C28-maxidle", [("httpclient.go", '''			MaxIdleConns:        runtime.Connection.Upstream.PoolSize,
''', '')], r'''
held = []
ev = threading.Event()
def h(r, c):
    time.sleep(1)
    return resp(200, (), b"x")
a, b = Up(h), Up(h)
j = J8a(cfg({"a": a, "b": b}, routes=[{"path": "/a", "resource": "a"}, {"path": "/b", "resource": "b"}], upc={"poolSize": 3}))
ts = [threading.Thread(target=j.do, args=("GET", p)) for p in ("/a", "/b") for i in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
time.sleep(1)
def alive(c):
    try: return c.recv(1, socket.MSG_PEEK | socket.MSG_DONTWAIT) != b""
    except BlockingIOError: return True
    except OSError: return False
n = sum(alive(c) for u in (a, b) for c in u.conns)
check(0 < n <= 3, "%d idle upstream connections with poolSize 3" % n)
''', "idle connections to two upstreams", "poolSize is only kept per upstream")

seed("C28-readergoroutine", [("proxyhandler.go", '''	go func() {
		defer close(done)
		readBody, readError = ioutil.ReadAll(upstreamResponse.Body)
	}()
''', '''	go func() {
		readBody, readError = ioutil.ReadAll(upstreamResponse.Body)
		done <- struct{}{}
	}()
'''), ("proxyhandler.go", '''			Msg("upstream response body processed")
''', '''			Msg("upstream response body is processed")
''')], r'''
def h(r, c):
    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\nhalf")
    time.sleep(3)
    return "close"
u = Up(h)
j = J8a(cfg(u, upc={"readTimeoutSeconds": 1}), level="WARN")
def burst():
    ts = [threading.Thread(target=j.do, args=("GET", "/a")) for i in range(100)]
    [t.start() for t in ts]; [t.join() for t in ts]
burst(); time.sleep(3)
j.p.send_signal(signal.SIGQUIT)
time.sleep(2)
n = sum("parseUpstreamResponse.func" in l for l in j.log)
check(any("goroutine " in l for l in j.log), "no stack dump")
check(n < 20, "%d goroutines still read bodies of responses given up on" % n)
''', "attempts that time out while the response body is under way", "a goroutine stays behind for each")

seed("C29-subtree", [("server.go", "	for _, route := range runtime.Routes {\n		if route.Resource == about {", "	for i := range runtime.Routes {\n		if route := runtime.Routes[i]; route.Resource == about {"), ("server.go", '''			handler.Handle(route.Path, aboutRouteHandler(route))
''', '''			handler.Handle(route.Path, aboutRouteHandler(route))
			if !strings.HasSuffix(route.Path, "/") {
				handler.Handle(route.Path+"/", aboutRouteHandler(route))
			}
''')], r'''
u = Up(lambda r, c: resp(200, (), b"upstream"))
j = J8a(cfg(u, routes=[{"path": "/about", "resource": "about"}, {"path": "/", "resource": "u"}]))
check(b"ServerID" in j.do("GET", "/about").content(), "/about")
for p in ("/abouts", "/about/", "/about/team", "/x/about"):
    r = j.do("GET", p)
    check(r.status != 200 or r.content() == b"upstream", "GET %s was answered with the about document" % p)
''', "a path below the about route", "it is answered with the about document")

seed("C29-bearer", [("responses.go", '''			if !proxy.validateJwt() {
''', '''			if r.Method != "OPTIONS" && !proxy.validateJwt() {
'''), ("responses.go", '''	proxy.respondWith(200, "ok")
''', '''	proxy.respondWith(http.StatusOK, "ok")
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/about", "resource": "about", "jwt": "k"}, {"path": "/", "resource": "u"}], jwt={"k": {"alg": "HS256", "key": "secretsecret"}}))
for m in ("GET", "HEAD", "POST", "OPTIONS", "TRACE", "DELETE"):
    check(j.do(m, "/about").status == 401, "%s without token" % m)
''', "an OPTIONS request to an about route with a jwt", "it is answered without a token")

seed("C30-growth", [("stats.go", '''float64((*samples)[l].rssBytes) / float64((*samples)[0].rssBytes)
''', '''float64(float32((*samples)[l].rssBytes) / float32((*samples)[0].rssBytes))
''')], r'''
rc, out = gotest(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stats_test.go.txt"), "TestDemoStats")
check("WRONG" not in out, "growth wrongly judged: " + out[:300])
check(rc == 0, "demo did not run: " + out[-400:])
''', "sizes just below twice the oldest one", "they are reported as high growth", files={"stats_test.go.txt": r'''package j8a

import "testing"

func TestDemoStats(t *testing.T) {
	for _, c := range []struct {
		a, b uint64
		high bool
	}{{10 << 20, 20 << 20, true}, {100<<20 + 1, 200<<20 + 1, false}, {10 << 20, 20<<20 - 1, false}, {50<<20 + 3, 100<<20 + 5, false}} {
		s := make(samples, historyMaxSamples)
		for i := range s {
			s[i] = sample{pid: 1, rssBytes: c.a}
		}
		s[historyMaxSamples-1].rssBytes = c.b
		g := s.log()
		if g[historyMaxSamples-1].high != c.high {
			t.Fatal("WRONG", c)
		}
	}
}
'''})

seed("C30-evict", [("stats.go", '''	if l >= historyMaxSamples {
		(*samples)[0] = *new(sample)
		*samples = (*samples)[1:]
	}
''', '''	if l >= historyMaxSamples {
		//keep the oldest one that we compare with if memory has not gone below
		if l > 1 && (*samples)[0].pid == s.pid && (*samples)[0].rssBytes == (*samples)[1].rssBytes && (*samples)[1].time.After((*samples)[0].time) {
			copy((*samples)[1:], (*samples)[2:])
			*samples = (*samples)[:l-1]
		} else {
			(*samples)[0] = *new(sample)
			*samples = (*samples)[1:]
		}
	}
''')], r'''
rc, out = gotest(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stats_test.go.txt"), "TestDemoStats")
check("WRONG" not in out, "history wrong: " + out[:300])
check(rc == 0, "demo did not run: " + out[-400:])
''', "two oldest samples with the same size", "the oldest sample is kept instead of the most recent 24", files={"stats_test.go.txt": r'''package j8a

import (
	"testing"
	"time"
)

func TestDemoStats(t *testing.T) {
	var s samples
	t0 := time.Now()
	for i := 0; i < 100; i++ {
		s.append(sample{pid: 1, rssBytes: uint64(1000 + i/3), time: t0.Add(time.Duration(i) * time.Hour)})
		n := len(s)
		want := i + 1
		if want > historyMaxSamples {
			want = historyMaxSamples
		}
		if n != want {
			t.Fatal("WRONG length", n)
		}
		for k := range s {
			if !s[k].time.Equal(t0.Add(time.Duration(i-n+1+k) * time.Hour)) {
				t.Fatal("WRONG sample", i, k)
			}
		}
	}
}
'''})

seed("C31-head32", [("proxy.go", '''		_, err := strconv.ParseInt(cl, 10, 64)
''', '''		_, err := strconv.ParseInt(cl, 10, 32)
''')], r'''
u = Up(lambda r, c: b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % int(r.target[1:]))
j = J8a(cfg(u))
for n in (0, 5, 100000, 2147483647, 2147483648, 8000000000):
    r = j.do("HEAD", "/%d" % n)
    check(r.get("Content-Length") == str(n), "HEAD of %d bytes has Content-Length %s" % (n, r.get("Content-Length")))
''', "HEAD of something above 2 GiB", "the content length is 0")

seed("C31-degzip", [("proxy.go", '''	proxy.Dwn.Resp.ContentLength = int64(len(*proxy.Dwn.Resp.Body))
''', '''	body := *proxy.Dwn.Resp.Body
	proxy.Dwn.Resp.ContentLength = int64(len(body))
	if code := proxy.Dwn.Resp.StatusCode; code > 200 && code < 300 && proxy.hasMadeUpstreamAttempt() {
		//the client gets to know what upstream said unless we have encoded
		if l := proxy.Up.Atmpt.resp.ContentLength; l > 0 && !proxy.shouldGzipEncodeResponseBody() {
			proxy.Dwn.Resp.ContentLength = l
		}
	}
''')], r'''
body = b"abc" * 500
def h(r, c): return resp(203, (("Content-Encoding", "gzip"),), gzip.compress(body)) if r.target == "/z" else resp(203, (), body)
u = Up(h)
j = J8a(cfg(u))
for t, e in (("/a", ()), ("/a", (("Accept-Encoding", "gzip"),)), ("/z", (("Accept-Encoding", "gzip"),)), ("/z", ())):
    s = j.conn(); f = s.makefile("rb")
    q = ("GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n" % (t, "".join("%s: %s\r\n" % x for x in e))).encode()
    for n in range(3):
        try:
            r = j.raw(q, s=s, f=f)
            ok = r.status == 203 and r.content() == body
        except Exception as x:
            ok = False
        check(ok, "response %d to %s %r is not in sync" % (n, t, e))
''', "a gzipped 201-299 upstream response decoded for a client that does not accept gzip", "Content-Length is that of the encoded body")

seed("C32-headertimeout", [("server.go", '''		ReadHeaderTimeout: readTimeoutDuration,
''', '''		ReadHeaderTimeout: roundTripTimeoutDuration,
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down={"readTimeoutSeconds": 2, "roundTripTimeoutSeconds": 15}))
s = j.conn()
s.sendall(b"GET /a HTTP/1.1\r\nHost:")
t = time.time()
s.settimeout(7)
try:
    s.recv(1000); closed = True
except socket.timeout:
    closed = False
check(closed, "a client that does not finish its header is still connected after 7 s, readTimeoutSeconds is 2")
''', "a client that starts a header and stalls, with a round trip timeout above the read timeout", "it is cut off only after the round trip timeout")

seed("C32-idle", [("server.go", '''	idleTimeoutDuration := time.Second * time.Duration(runtime.Connection.Downstream.IdleTimeoutSeconds)
''', '''	idleTimeoutDuration := time.Second * time.Duration(runtime.Connection.Downstream.IdleTimeoutSeconds)
	//never cut off what may still be read
	if idleTimeoutDuration < readTimeoutDuration {
		idleTimeoutDuration = readTimeoutDuration
	}
''')  , ("server.go", '''		IdleTimeout:       idleTimeoutDuration,
''', '''		IdleTimeout: idleTimeoutDuration,
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, down={"readTimeoutSeconds": 30, "idleTimeoutSeconds": 2}))
s = j.conn(); f = s.makefile("rb")
check(j.raw(b"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", s=s, f=f).status == 200, "first")
s.settimeout(9)
try:
    closed = f.read(1) == b""
except socket.timeout:
    closed = False
except OSError:
    closed = True
check(closed, "idle connection still open after 9 s, idleTimeoutSeconds is 2")
''', "idleTimeoutSeconds below readTimeoutSeconds", "idle connections are kept for readTimeoutSeconds")

seed("C33-longest", [("iprex.go", '''		if err == nil && net.ParseIP(strings.Split(host, "%")[0]) != nil {
			return host
		}
''', '''		//no address is longer than 39 characters
		if err == nil && len(host) < 40 && net.ParseIP(strings.Split(host, "%")[0]) != nil {
			return host
		}
'''), ("iprex.go", '''	addr := "not found"
''', '''	var addr = "not found"
''')], r'''
rc, out = gotest(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ip_test.go.txt"), "TestDemoIp")
check("WRONG" not in out, out[:300])
check(rc == 0, "demo did not run: " + out[-400:])
''', "an address written in full with a zone", "a part of the address is logged", files={"ip_test.go.txt": r'''package j8a

import "testing"

func TestDemoIp(t *testing.T) {
	for _, a := range []string{"1.2.3.4", "::1", "2001:db8::1", "::ffff:10.1.2.3", "0000:0000:0000:0000:0000:ffff:192.168.100.228", "fe80:1111:2222:3333:4444:5555:6666:7777%eth0"} {
		in := a + ":80"
		if a != "1.2.3.4" {
			in = "[" + a + "]:80"
		}
		if got := (&iprex{}).extractAddr(in); got != a {
			t.Fatal("WRONG", in, got)
		}
	}
}
'''})

seed("C33-xff", [("proxyhandler.go", '''		Str("dwnReqRemoteAddr", ipr.extractAddr(proxy.Dwn.Req.RemoteAddr)).
''', '''		Str("dwnReqRemoteAddr", ipr.extractAddr(remoteAddr(proxy.Dwn.Req))).
'''), ("proxyhandler.go", '''func scaffoldUpAttemptLog(''', '''//the address a loadbalancer in front saw
func remoteAddr(req *http.Request) string {
	if fwd := strings.TrimSpace(req.Header.Get("X-Forwarded-For")); len(fwd) > 0 {
		return fwd
	}
	return req.RemoteAddr
}

func scaffoldUpAttemptLog(''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u), level="INFO")
j.do("GET", "/a"); j.do("GET", "/b", (("X-Forwarded-For", "9.9.9.9"),))
for p in ("/a", "/b"):
    l = [x for x in j.lines('"dwnReqPath":"%s"' % p, 5) if "response served" in str(x)][0]
    check(l["dwnReqRemoteAddr"] == "127.0.0.1", "client address %r logged" % l["dwnReqRemoteAddr"])
''', "a client that sends X-Forwarded-For", "the address it claims is logged instead of its own")

seed("C34-handshake", [("httpclient.go", '''	tLSHandshakeTimeoutDuration := time.Duration(runtime.Connection.Upstream.SocketTimeoutSeconds) * time.Second
''', '''	tLSHandshakeTimeoutDuration := time.Duration(runtime.Connection.Upstream.ReadTimeoutSeconds) * time.Second
''')], r'''
s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(20)
res = {"u": {"labels": ["default"], "url": {"scheme": "https", "host": "127.0.0.1", "port": s.getsockname()[1]}}}
j = J8a(cfg(res, upc={"socketTimeoutSeconds": 1, "readTimeoutSeconds": 20}))
t = time.time()
r = j.do("GET", "/a")
check(r.status == 502, "status %d" % r.status)
check(time.time() - t < 8, "gave up after %d s, socketTimeoutSeconds is 1" % (time.time() - t))
''', "an https upstream that accepts and then stalls in the handshake", "it is given up after readTimeoutSeconds")

seed("C34-idle", [("httpclient.go", '''	idleConnTimeoutDuration := time.Duration(runtime.Connection.Upstream.IdleTimeoutSeconds) * time.Second
''', '''	idleConnTimeoutDuration := time.Duration(runtime.Connection.Upstream.IdleTimeoutSeconds) * time.Second
	if keep := time.Duration(runtime.Connection.Upstream.ReadTimeoutSeconds) * time.Second; keep > idleConnTimeoutDuration {
		idleConnTimeoutDuration = keep
	}
''') , ("httpclient.go", '''			IdleConnTimeout:     idleConnTimeoutDuration,
''', '''			IdleConnTimeout: idleConnTimeoutDuration,
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, upc={"idleTimeoutSeconds": 2, "readTimeoutSeconds": 30}))
check(j.do("GET", "/a").status == 200, "first")
c = u.conns[0]
c.settimeout(9)
t = time.time()
try:
    closed = c.recv(1, socket.MSG_PEEK) == b""
except socket.timeout:
    closed = False
except OSError:
    closed = True
check(closed, "pooled connection still open after 9 s, idleTimeoutSeconds is 2")
''', "upstream idleTimeoutSeconds below readTimeoutSeconds", "pooled connections are kept longer")
