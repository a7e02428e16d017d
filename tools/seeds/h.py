seed("C19-avoid", [("route.go", '''					return &resourceMapping.URL, policyLabel, true
''', '''					if rand.Intn(4) > 0 && coolingDown(resourceMapping.URL) && !redrawn {
						redrawn = true
						policyLabel = policy.resolveLabel()
						goto Draw
					}
					url := resourceMapping.URL
					return &url, policyLabel, true
'''), ("route.go", '''	//if a policy exists, we match resources with a label. TODO: this should be an interface
''', '''	redrawn := false
	//if a policy exists, we match resources with a label. TODO: this should be an interface
Draw:
'''), ("route.go", '''func (route Route) hasJwt() bool {
''', '''var lastFailure atomic.Value

//an upstream that has just failed is likely to fail again.
func coolingDown(u URL) bool {
	f, ok := lastFailure.Load().(URL)
	return ok && f == u
}

func (route Route) hasJwt() bool {
'''), ("proxyhandler.go", '''	ev := scaffoldUpAttemptLog(proxy)
	if upstreamResponse != nil''', '''	lastFailure.Store(*proxy.Up.Atmpt.URL)
	ev := scaffoldUpAttemptLog(proxy)
	if upstreamResponse != nil'''), ("route.go", '''	"net/http"
''', '''	"math/rand"
	"net/http"
'''), ("route.go", '''	"regexp"
''', '''	"regexp"
	"sync/atomic"
''')], r'''
n = [0, 0]
def mk(i):
    def h(r, c):
        n[i] += 1
        return resp(500 if i == 0 and r.target == "/f" else 200, (("Connection", "close"),), b"x")
    return Up(h)
a, b = mk(0), mk(1)
def lb(u, l): return {"labels": [l], "url": {"scheme": "http", "host": "127.0.0.1", "port": u.port}}
j = J8a(cfg([lb(a, "a"), lb(b, "b")], routes=[{"path": "/", "resource": "u", "policy": "p"}], policies={"p": [{"label": "a", "weight": 0.5}, {"label": "b", "weight": 0.5}]}), level="WARN")
for path in ("/g", "/f"):
    n[:] = [0, 0]
    for _ in range(1200):
        j.do("POST", path, body=b"x")
    print(path, n)
    check(480 < n[0] < 720, "%s: labels with weights 0.5 and 0.5 were drawn %s times" % (path, n))
''', "an upstream that fails while the other one of its policy does not", "draws lean away from the failing upstream")

CACHE = [("proxyhandler.go", "if route.hasJwt() && !proxy.validateJwt() {", "if route.hasJwt() && !proxy.hasToken() {")]
def cache(body, vars, imports='''	"strings"
	"sync"
'''):
    return CACHE + [("proxyhandler.go", '''func validate(proxy *Proxy) bool {
''', vars + '''
func (proxy *Proxy) hasToken() bool {
''' + body + '''}

func validate(proxy *Proxy) bool {
'''), ("proxyhandler.go", '''	"strings"
''', imports)]

seed("C13-cache", cache('''	auth := proxy.Dwn.Req.Header.Get(Authorization)
	if until, ok := verified.Load(auth); ok && time.Now().Before(until.(time.Time)) {
		return true
	}
	ok := proxy.validateJwt()
	if ok {
		verified.Store(auth, time.Now().Add(time.Second))
	}
	return ok
''', '''//verifying signatures is expensive, clients send the same token in bursts.
var verified sync.Map
'''), JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/a", "resource": "u", "jwt": "a"}, {"path": "/b", "resource": "u", "jwt": "b"}], jwt={"a": {"alg": "HS256", "key": "first secret of a"}, "b": {"alg": "HS256", "key": "second secret of b"}}))
t = hs256(b"first secret of a", {"exp": now + 600})
check(j.do("GET", "/b", auth(t)).status == 401, "token of a on b before")
check(j.do("GET", "/a", auth(t)).status == 200, "token of a on a")
check(j.do("GET", "/b", auth(t)).status == 401, "token of a accepted on b after it was used on a")
''', "a token used on its own route and within a second on a route with another jwt", "a token of one jwt opens the routes of another")

seed("C15-cache", cache('''	key := proxy.Route.Jwt + Sep + proxy.Dwn.Req.Header.Get(Authorization)
	if until, ok := verified.Load(key); ok && time.Now().Before(until.(time.Time)) {
		return true
	}
	ok := proxy.validateJwt()
	if ok {
		verified.Store(key, time.Now().Add(time.Minute))
	}
	return ok
''', '''//verifying signatures is expensive, clients send the same token in bursts.
var verified sync.Map
'''), JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "a"}], jwt={"a": {"alg": "HS256", "key": "first secret of a", "acceptableSkewSeconds": "0"}}))
t = hs256(b"first secret of a", {"exp": int(time.time()) + 4})
check(j.do("GET", "/a", auth(t)).status == 200, "timely token")
time.sleep(7)
check(j.do("GET", "/a", auth(t)).status == 401, "expired token accepted")
''', "a token that expires between two of its uses", "an expired token is accepted for up to a minute")

seed("C16-negcache", cache('''	key := proxy.Route.Jwt + Sep + proxy.Dwn.Req.Header.Get(Authorization)
	if until, ok := refused.Load(key); ok && time.Now().Before(until.(time.Time)) {
		return false
	}
	ok := proxy.validateJwt()
	if !ok {
		refused.Store(key, time.Now().Add(5*time.Minute))
	}
	return ok
''', '''//what was refused once is not worth verifying again.
var refused sync.Map
'''), JWT + r'''
a, b = rsakey("a"), rsakey("b")
state = {"mode": "a"}
def h(r, c):
    if r.target != "/jwks": return resp(200, (), b"x")
    return resp(200, (), json.dumps({"keys": [jwk_rsa(a, "ka")] + ([jwk_rsa(b, "kb")] if state["mode"] == "b" else [])}).encode())
u = Up(h)
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "RS256", "jwksUrl": "http://127.0.0.1:%d/jwks" % u.port}}))
ta, tb = (rs256(f, {"exp": now + 900}, {"alg": "RS256", "kid": k}) for f, k in ((a, "ka"), (b, "kb")))
check(j.do("GET", "/a", auth(ta)).status == 200, "ka")
state["mode"] = "b"
end = time.time() + 40
while time.time() < end:
    if j.do("GET", "/a", auth(tb)).status == 200: break
    time.sleep(1)
else:
    fail("token of the new key refused for 40 s")
''', "a token that arrives before its key is fetched and is used again afterwards", "a newly published key never comes into use for tokens seen before")

seed("C24-trustonce", [("httpclient.go", '''				InsecureSkipVerify: tlsInsecureSkipVerify,
			},''', '''				InsecureSkipVerify: true,
				VerifyConnection: func(cs tls.ConnectionState) error {
					if tlsInsecureSkipVerify {
						return nil
					}
					leaf := cs.PeerCertificates[0]
					serial := leaf.Issuer.String() + leaf.SerialNumber.String()
					if name, ok := trusted.Load(serial); ok && name == cs.ServerName {
						return nil
					}
					opts := x509.VerifyOptions{DNSName: cs.ServerName, Intermediates: x509.NewCertPool()}
					for _, c := range cs.PeerCertificates[1:] {
						opts.Intermediates.AddCert(c)
					}
					_, err := leaf.Verify(opts)
					if err == nil {
						trusted.Store(serial, cs.ServerName)
					}
					return err
				},
			},'''), ("httpclient.go", '''	"crypto/tls"
''', '''	"crypto/tls"
	"crypto/x509"
'''), ("httpclient.go", '''	"runtime"
''', '''	"runtime"
	"sync"
'''), ("httpclient.go", '''// scaffoldHTTPClient is''', '''//certificates verified before, building chains is expensive
var trusted sync.Map

// scaffoldHTTPClient is''')], r'''
def ca(name):
    sh("openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", name + ".key", "-out", name + ".pem", "-days", "30", "-subj", "/CN=the root")
def leaf(name, by):
    open(os.path.join(TMP, name + ".ext"), "w").write("subjectAltName=IP:127.0.0.1\n")
    sh("openssl", "req", "-newkey", "rsa:2048", "-nodes", "-keyout", name + ".key", "-out", name + ".csr", "-subj", "/CN=" + name)
    sh("openssl", "x509", "-req", "-in", name + ".csr", "-CA", by + ".pem", "-CAkey", by + ".key", "-set_serial", "77", "-days", "20", "-out", name + ".pem", "-extfile", name + ".ext")
ca("good"); ca("evil"); leaf("a", "good"); leaf("b", "evil")
def up(n):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.load_cert_chain(os.path.join(TMP, n + ".pem"), os.path.join(TMP, n + ".key"))
    return Up(lambda r, c: resp(200, (("Connection", "close"),), b"x"), tls=c)
ua, ub = up("a"), up("b")
def res(u): return {"labels": ["default"], "url": {"scheme": "https", "host": "127.0.0.1", "port": u.port}}
j = J8a(cfg({"a": res(ua), "b": res(ub)}, routes=[{"path": "/a", "resource": "a"}, {"path": "/b", "resource": "b"}]), env={"SSL_CERT_FILE": os.path.join(TMP, "good.pem")})
check(j.do("GET", "/b").status == 502 and not ub.reqs, "forged certificate before")
check(j.do("GET", "/a").status == 200, "good certificate")
check(j.do("GET", "/b").status == 502 and not ub.reqs, "forged certificate with the serial of a good one accepted")
''', "a forged certificate that repeats issuer name and serial number of one verified before", "its upstream is trusted")

seed("C02-envproxy", [("httpclient.go", '''		Transport: &http.Transport{
''', '''		Transport: &http.Transport{Proxy: http.ProxyFromEnvironment,
''')], r'''
seen = []
def h(r, c):
    seen.append(r.target)
    return resp(200, (("Connection", "close"),), b"not the upstream")
p = Up(h)
proxy = "http://127.0.0.1:%d" % p.port
j = J8a(cfg([{"url": {"scheme": "http", "host": "upstream.invalid", "port": 8080}}], routes=[{"path": "/", "resource": "u"}]), level="WARN", env={"HTTP_PROXY": proxy, "http_proxy": proxy})
r = j.do("GET", "/x")
print(r.status, seen)
check(r.status == 502 and not seen, "a host named by the environment served the request")
''', "an environment that names a forward proxy and an upstream host that isn't the loopback", "requests and their credentials go to a host that isn't the configured one")

seed("C15-localtime", [("proxy.go", '''	return jwt.Verify(skewed)
''', '''	_, offset := time.Now().Zone()
	return jwt.Verify(skewed, jwt.WithClock(jwt.ClockFunc(func() time.Time {
		//skewed dates are unix seconds, so is the clock
		return time.Unix(time.Now().Unix()+int64(offset), 0)
	})))
''')], JWT + r'''
u = Up(lambda r, c: resp(200, (("Connection", "close"),), b"ok"))
for tz in ("UTC", "America/New_York", "Asia/Tokyo"):
    j = J8a(cfg([{"url": {"scheme": "http", "host": "127.0.0.1", "port": u.port}}], routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "HS256", "key": "s" * 40, "acceptableSkewSeconds": "0"}}), level="WARN", env={"TZ": tz})
    now = int(time.time())
    for cl, want in (({"exp": now + 1800}, 200), ({"exp": now - 1800}, 401), ({"nbf": now - 1800}, 200), ({"nbf": now + 1800}, 401)):
        r = j.do("GET", "/x", auth(hs256(b"s" * 40, cl)))
        print(tz, cl, r.status)
        check(r.status == want, "%s: %s" % (tz, r.status))
''', "a server whose time zone isn't UTC", "tokens expire, or outlive their expiry, by the hours of the zone")
