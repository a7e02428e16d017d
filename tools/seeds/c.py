JWT = r'''
now = int(time.time())
def auth(t): return (("Authorization", "Bearer " + t),)
'''

seed("C13-options", [("proxyhandler.go", "			if route.hasJwt() && !proxy.validateJwt() {", "			//browsers never send credentials with a CORS preflight\n			preflight := proxy.Dwn.Method == \"OPTIONS\" && len(request.Header.Get(\"Access-Control-Request-Method\")) > 0\n			if route.hasJwt() && !preflight && !proxy.validateJwt() {")], JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "HS256", "key": "secretsecret"}}))
check(j.do("GET", "/a", auth(hs256(b"secretsecret", {"exp": now + 600}))).status == 200, "valid token refused")
check(j.do("OPTIONS", "/a").status == 401, "OPTIONS without token")
check(j.do("OPTIONS", "/a", (("Origin", "https://x"), ("Access-Control-Request-Method", "PUT"))).status == 401, "preflight without token was let through")
check(len(u.reqs) == 1, "upstream saw %d requests" % len(u.reqs))
''', "an OPTIONS request that looks like a CORS preflight", "requests without token reach upstream on a protected route")

seed("C13-family", [("proxy.go", "	msg, err = jws.Parse(bytes.NewReader([]byte(token)))", "	msg, err = jws.Parse(strings.NewReader(token))"), ("proxy.go", '''	if err == nil && msg != nil && len(msg.Signatures()) > 0 {
		//first we try to validate by''', '''	if err == nil && msg != nil && len(msg.Signatures()) != 0 {
		//keys of a family are good for all of its hash sizes
		if h := msg.Signatures()[0].ProtectedHeaders(); h != nil && len(h.Algorithm()) > 2 && alg[:2] == h.Algorithm()[:2] {
			alg = h.Algorithm()
		}
		//first we validate by''')], JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "HS512", "key": "secretsecret"}}))
def hs(alg, h):
    a = b64u(json.dumps({"alg": alg, "typ": "JWT"}).encode()) + "." + b64u(json.dumps({"exp": now + 600}).encode())
    return a + "." + b64u(hmac.new(b"secretsecret", a.encode(), h).digest())
check(j.do("GET", "/a", auth(hs("HS512", hashlib.sha512))).status == 200, "valid token refused")
check(j.do("GET", "/a", auth(hs("HS256", hashlib.sha256))).status == 401, "HS256 token accepted where HS512 is configured")
check(j.do("GET", "/a", auth(hs("HS384", hashlib.sha384))).status == 401, "HS384 token accepted where HS512 is configured")
''', "a token signed with the right key but a weaker hash of the same family", "the algorithm of the token is used instead of the configured one")

seed("C14-kidmismatch", [("proxy.go", '''		if len(kid) == 0 ||
			key == nil ||
			(err != nil && len(keySet) > 1) {
''', '''		if len(kid) == 0 ||
			key == nil ||
			(err != nil && len(keySet) > 2) {
''')], JWT + r'''
a, b = rsakey("a"), rsakey("b")
u = Up(lambda r, c: resp(200, (), json.dumps({"keys": [jwk_rsa(a, "ka"), jwk_rsa(b, "kb")]}).encode()))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "RS256", "jwksUrl": "http://127.0.0.1:%d/jwks" % u.port}}))
for f, kid in ((a, "ka"), (b, "kb"), (b, "ka"), (a, "kb")):
    t = rs256(f, {"exp": now + 600}, {"alg": "RS256", "kid": kid})
    check(j.do("GET", "/a", auth(t)).status == 200, "token signed by %s naming kid %s refused" % (f[-1], kid))
''', "a set of two keys and a token that names the other one's kid", "a validly signed token is refused")

seed("C14-typ", [("proxy.go", '''	} else if err == nil {
		err = errors.New("no signature found on jwt token")
	}
	return parsed, err''', '''		if h := msg.Signatures()[0].ProtectedHeaders(); h != nil && len(h.Type()) > 0 && !strings.EqualFold(h.Type(), "JWT") {
			return nil, errors.New("not a jwt")
		}
	} else if err == nil {
		err = errors.New("no signature is found on jwt token")
	}
	return parsed, err''')], JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "HS256", "key": "secretsecret"}}))
for typ in (None, "JWT", "jwt", "at+jwt", "application/jwt", "x"):
    h = {"alg": "HS256"}
    if typ: h["typ"] = typ
    check(j.do("GET", "/a", auth(hs256(b"secretsecret", {"exp": now + 600}, h))).status == 200, "token with typ %r refused" % typ)
''', "an access token whose header has a typ other than JWT, such as at+jwt", "validly signed tokens are refused for their type")

seed("C15-bothclaims", [("proxy.go", '''			skewed.Set(claim, date.Unix()+by)
		}
	}
	return jwt.Verify(skewed)''', '''			if claim == jwt.NotBeforeKey && !skewed.IssuedAt().IsZero() {
				by = 0
			}
			skewed.Set(claim, date.Unix()+by)
		}
	}
	if verr := jwt.Verify(skewed); verr != nil {
		return verr
	}
	return nil''')], JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "HS256", "key": "secretsecret"}}))
for c in ({"iat": now + 60}, {"nbf": now + 60}, {"iat": now - 5, "nbf": now - 5}, {"iat": now, "nbf": now + 60}, {"iat": now + 60, "nbf": now + 60}):
    check(j.do("GET", "/a", auth(hs256(b"secretsecret", c))).status == 200, "token within the skew refused: %r" % c)
check(j.do("GET", "/a", auth(hs256(b"secretsecret", {"nbf": now + 600}))).status == 401, "nbf far in the future")
''', "a token with both iat and nbf whose nbf lies in the future by less than the skew", "nbf gets no skew if iat is present")

seed("C15-bigskew", [("proxy.go", '''		skew, _ := strconv.Atoi(routeSec.AcceptableSkewSeconds)
''', '''		skew64, _ := strconv.ParseInt(routeSec.AcceptableSkewSeconds, 10, 16)
		skew := int(skew64)
''')], JWT + r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "HS256", "key": "secretsecret", "acceptableSkewSeconds": "86400"}}))
check(j.do("GET", "/a", auth(hs256(b"secretsecret", {"exp": now - 3600}))).status == 200, "an hour")
check(j.do("GET", "/a", auth(hs256(b"secretsecret", {"exp": now - 80000}))).status == 200, "expired 80000 s ago with a skew of 86400 s: refused")
check(j.do("GET", "/a", auth(hs256(b"secretsecret", {"exp": now - 90000}))).status == 401, "90000")
''', "a skew above 32767 seconds", "it is capped at 32767 seconds")

seed("C16-lockleak", [("jwt.go", "	if jwt.lock.TryAcquire(1) {", "	if free := jwt.lock.TryAcquire(1); free {"), ("jwt.go", '''				} else {
					break Keyrange
				}
''', '''				} else if jwt.updateCount > 0 {
					//keep what we have
					return err
				} else {
					break Keyrange
				}
''')], JWT + r'''
a, b = rsakey("a"), rsakey("b")
state = {"mode": "a"}
def h(r, c):
    if r.target != "/jwks": return resp(200, (), b"x")
    if state["mode"] == "bad": return resp(200, (), json.dumps({"keys": [dict(jwk_rsa(b, "kb"), alg="RS512")]}).encode())
    ks = [jwk_rsa(a, "ka")] + ([jwk_rsa(b, "kb")] if state["mode"] == "b" else [])
    return resp(200, (), json.dumps({"keys": ks}).encode())
u = Up(h)
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "RS256", "jwksUrl": "http://127.0.0.1:%d/jwks" % u.port}}))
ta, tb = (rs256(f, {"exp": now + 900}, {"alg": "RS256", "kid": k}) for f, k in ((a, "ka"), (b, "kb")))
check(j.do("GET", "/a", auth(ta)).status == 200, "ka")
state["mode"] = "bad"
check(j.do("GET", "/a", auth(tb)).status == 401, "kb before")
time.sleep(2)
state["mode"] = "b"
end = time.time() + 40
while time.time() < end:
    if j.do("GET", "/a", auth(tb)).status == 200: break
    time.sleep(1)
else:
    fail("new key not picked up in 40 s after one failed refresh")
''', "a refreshed JWKS set with a key of another algorithm, followed by a good one", "the refresh lock is never released and keys never rotate again")

seed("C16-cap", [("jwt.go", '''	if !updated {
		*ks = append(*ks, kp)
	}
''', '''	if !updated {
		//rotated keys pile up in a long running server, forget the oldest
		if len(*ks) > 7 {
			*ks = (*ks)[1:]
		}
		next := append(*ks, kp)
		*ks = next
	}
''')], JWT + r'''
ks = [rsakey("k%d" % i, 1024) for i in range(10)]
u = Up(lambda r, c: resp(200, (), json.dumps({"keys": [jwk_rsa(f, "kid%d" % i) for i, f in enumerate(ks)]}).encode()))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "RS256", "jwksUrl": "http://127.0.0.1:%d/jwks" % u.port}}))
for i, f in enumerate(ks):
    check(j.do("GET", "/a", auth(rs256(f, {"exp": now + 600}, {"alg": "RS256", "kid": "kid%d" % i}))).status == 200, "key %d of %d is not usable" % (i, len(ks)))
''', "more than eight keys, in one set or over several rotations", "the oldest keys are forgotten")

seed("C17-certcurve", [("jwt.go", '''					parsed := key.(*ecdsa.PublicKey)
					err = jwt.checkECDSABitSize(alg, parsed)
					if err == nil {
						jwt.ECDSAPublic.Upsert(
							KidPair{
								Kid: fmt.Sprintf("%s-%s", alg, uuid.New()),
								Key: parsed,
							})
					}
''', '''					jwt.ECDSAPublic.Upsert(
						KidPair{
							Kid: fmt.Sprintf("%s-%s", alg, uuid.New()),
							Key: key.(*ecdsa.PublicKey),
						})
''')], r'''
def starts(alg, key):
    u = Up(lambda r, c: resp(200, (), b"x"))
    try:
        j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": alg, "key": key}}))
        time.sleep(0.5)
        return j.p.poll() is None
    except Exception:
        return False
f = eckey("e")
cert = sh("openssl", "req", "-new", "-x509", "-key", f, "-subj", "/CN=x", "-days", "30").decode()
check(starts("ES256", pub(f)) and starts("ES256", cert), "ES256 with P-256")
check(not starts("ES512", pub(f)), "ES512 with P-256 key started")
check(not starts("ES512", cert), "ES512 with P-256 certificate started")
''', "an ES512 or ES384 jwt with a certificate whose key has another curve", "the server starts with a key of the wrong size")

seed("C17-transform", [("config.go", "Transform) > 0 && config.Routes[i].Transform[:1] != \"/\" {", "Transform) > 0 && !strings.Contains(config.Routes[i].Transform, \"/\") {")], r'''
def starts(t):
    u = Up(lambda r, c: resp(200, (), b"x"))
    try:
        j = J8a(cfg(u, routes=[{"path": "/a", "transform": t, "resource": "u"}]))
        time.sleep(0.5)
        return j.p.poll() is None
    except Exception:
        return False
check(starts("/b") and starts("/"), "/b")
for t in ("b", "b/", ".evil.org/x", "@evil.org/x"):
    check(not starts(t), "started with transform %r" % t)
''', "a transform that has a slash, but not as its first character", "the server starts with it")

seed("C18-transformslice", [("proxy.go", "	if len(proxy.Route.Transform) > 0 {\n", "	if len(proxy.Route.Transform) != 0 {\n"), ("proxy.go", '''		path := strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
''', '''		path := t + proxy.Dwn.URI[len(proxy.Route.Path):]
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u, routes=[{"path": "/(abc|def|ghi)", "transform": "/t", "resource": "u"}, {"path": "/lit", "transform": "/x", "resource": "u"}]))
check(j.do("GET", "/lit/a").status == 200 and u.reqs[-1].target == "/x/a", "literal")
try:
    r = j.do("GET", "/abc")
except Exception as e:
    fail("no answer to GET /abc: %r" % e)
check(r.status == 200, "status %d" % r.status)
''', "a route whose path is a regular expression longer than what it matches, with a transform", "the handler panics and the request is left without answer")

seed("C18-methodprefix", [("proxy.go", '''	for _, legal := range httpLegalMethods {
		if proxy.Dwn.Method == legal {''', '''	for _, legal := range httpLegalMethods {
		if strings.HasPrefix(proxy.Dwn.Method, legal) {''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u))
for m in ("PATCH", "FOO", "GETX", "PUTALL", "HEADER", "POSTS", "DELETED"):
    n = len(u.reqs)
    check(j.do(m, "/a").status == 400, "%s was not answered 400" % m)
    check(len(u.reqs) == n, "%s reached upstream" % m)
''', "a method that starts with a supported one", "it is forwarded instead of answered 400")

seed("C19-firstlabel", [("route.go", '''			for _, resourceLabel := range resourceMapping.Labels {
				if policyLabel == resourceLabel {''', '''			for i, resourceLabel := range resourceMapping.Labels {
				if policyLabel == resourceLabel && (i == 0 || policyLabel != "default") {''')], r'''
a, b = Up(lambda r, c: resp(200, (), b"a")), Up(lambda r, c: resp(200, (), b"b"))
up = lambda x, l: {"labels": l, "url": {"scheme": "http://", "host": "127.0.0.1", "port": x.port}}
j = J8a(cfg({"u": [up(a, ["green", "default"]), up(b, ["blue"])]}, routes=[{"path": "/", "resource": "u", "policy": "p"}], policies={"p": [{"label": "blue", "weight": 0.5}]}))
got = [j.do("GET", "/a").body if True else 0 for i in range(40)]
check(set(got) == {b"a", b"b"}, "answers: %r" % set(got))
''', "an upstream with several labels of which default is not the first, and a policy that leaves a remainder", "the remainder is answered 503")

seed("C19-percent", [("policy.go", '''		if dice < cw[i] {''', '''		if dice < float64(int(cw[i]*100+1e-9))/100 {''')], r'''
a, b = Up(lambda r, c: resp(200, (), b"a")), Up(lambda r, c: resp(200, (), b"b"))
up = lambda x, l: {"labels": l, "url": {"scheme": "http://", "host": "127.0.0.1", "port": x.port}}
j = J8a(cfg({"u": [up(a, ["canary"]), up(b, ["rest"])]}, routes=[{"path": "/", "resource": "u", "policy": "p"}], policies={"p": [{"label": "canary", "weight": 0.008}, {"label": "rest", "weight": 0.992}]}), level="WARN")
s = j.conn(); f = s.makefile("rb")
n = 0
for i in range(4000):
    n += j.raw(b"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", s=s, f=f).body == b"a"
check(n > 0, "canary with weight 0.008 got none of 4000 requests")
''', "a weight below one percent, or with a fraction of a percent", "cumulative weights are cut to whole percent")

seed("C20-gzippool", [("gzip.go", '''	wrt, _ := zipPool.Get().(*gzip.Writer)
	buf := &bytes.Buffer{}
	wrt.Reset(buf)
''', '''	wrt, _ := zipPool.Get().(*gzip.Writer)
	buf, _ := bufPool.Get().(*bytes.Buffer)
	buf.Reset()
	defer bufPool.Put(buf)
	wrt.Reset(buf)
'''), ("gzip.go", '''var unzipPool = sync.Pool{''', '''var bufPool = sync.Pool{
	New: func() interface{} {
		return new(bytes.Buffer)
	},
}

var unzipPool = sync.Pool{''')], r'''
rc, out = gotest(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gzip_test.go.txt"), "TestDemoGzip")
check("FOREIGN" not in out, "a gzipped answer has the data of another one")
check(rc == 0, "demo did not run: " + out[-400:])
''', "concurrent requests whose answers are gzipped", "the buffer of an answer is reused before the answer is written", files={"gzip_test.go.txt": r"""package j8a

import (
	"bytes"
	"fmt"
	"testing"
)

func TestDemoGzip(t *testing.T) {
	var all []*[]byte
	for i := 0; i < 50; i++ {
		all = append(all, Gzip(bytes.Repeat([]byte(fmt.Sprintf("%d,", i)), 1000)))
	}
	for i, z := range all {
		if !bytes.Equal(*Gunzip(*z), bytes.Repeat([]byte(fmt.Sprintf("%d,", i)), 1000)) {
			t.Fatal("FOREIGN", i)
		}
	}
}
"""})

seed("C20-coalesce", [("proxyhandler.go", """	var upstreamResponse *http.Response
	var upstreamError error

	//the goroutine""", """	var (
		upstreamResponse *http.Response
		upstreamError    error
	)

	//the goroutine"""), ("proxyhandler.go", '''		//this blocks until upstream headers come in
		doResponse, doError = client.Do(req)
''', '''		//this blocks until upstream headers are in
		if req.Method == "GET" && len(req.Header.Get("Authorization")) == 0 && len(req.Header.Get("Cookie")) == 0 {
			//one request upstream is enough for anonymous clients asking for the same thing at once
			type answer struct {
				resp *http.Response
				body []byte
			}
			a, err, _ := flights.Do(req.URL.String(), func() (interface{}, error) {
				resp, err := client.Do(req)
				if err != nil || resp == nil || resp.Body == nil {
					return answer{resp, nil}, err
				}
				body, err := ioutil.ReadAll(resp.Body)
				resp.Body.Close()
				return answer{resp, body}, err
			})
			if err == nil && a.(answer).resp != nil {
				r := *a.(answer).resp
				if r.Body != nil {
					r.Body = ioutil.NopCloser(bytes.NewReader(a.(answer).body))
				}
				doResponse = &r
				return
			}
		}
		doResponse, doError = client.Do(req)
'''), ("proxyhandler.go", '''	"io/ioutil"
''', '''	"golang.org/x/sync/singleflight"
	"io/ioutil"
'''), ("proxyhandler.go", '''var httpClient HTTPClient
''', '''var httpClient HTTPClient

var flights singleflight.Group
''')], r'''
def h(r, c):
    time.sleep(0.05)
    return resp(200, (), b"for " + (r.get("Accept-Language") or "?").encode())
u = Up(h)
j = J8a(cfg(u))
bad = []
def ask(l):
    r = j.do("GET", "/page", (("Accept-Language", l),))
    if r.body != b"for " + l.encode(): bad.append((l, r.body))
for n in range(10):
    ts = [threading.Thread(target=ask, args=(l,)) for l in ("de", "fr", "en", "pl")]
    [t.start() for t in ts]; [t.join() for t in ts]
check(not bad, "answers meant for others: %r" % bad[:4])
''', "concurrent GETs of the same URI that differ in a header other than Authorization and Cookie", "a request is answered with the response to another one")

seed("C21-maxattempts", [("proxy.go", '''	// part one is checking for repeatable methods. we don't retry i.e. POST
	retry := false
''', '''	// part one is checking for repeatable methods. we don't retry i.e. POST
	var retry = false
	if httpUpstreamMaxAttempts != Runner.Connection.Upstream.MaxAttempts {
		httpUpstreamMaxAttempts = Runner.Connection.Upstream.MaxAttempts
	}
''')], r'''
for n in range(3):
    rc, out = gotest(os.path.join(os.path.dirname(os.path.abspath(__file__)), "race_test.go.txt"), "TestDemoRace", race=True)
    check("DATA RACE" not in out, "the race detector reported a data race")
    check(rc == 0, "demo did not run: " + out[-400:])
''', "concurrent requests that fail upstream for the first time", "an unsynchronised write to a global by request goroutines", files={"race_test.go.txt": r"""package j8a

import (
	"bytes"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/rs/zerolog"
)

func TestDemoRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	httpClient = &MockHttp{}
	mockDoFunc = func(req *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 503, Header: http.Header{}, Body: ioutil.NopCloser(bytes.NewReader(nil))}, nil
	}
	Runner = mockRuntime()
	up := Runner.Resources["default"][0]
	Runner.Resources = map[string][]ResourceMapping{"r": {up}}
	Runner.Routes = Routes{{Path: "/", Resource: "r"}}
	Runner.Connection.Upstream.MaxAttempts = 3
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 32; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := httptest.NewRequest("GET", "/a", nil)
			<-start
			proxyHandler(httptest.NewRecorder(), r)
		}()
	}
	close(start)
	wg.Wait()
}
"""})

seed("C21-updatecount", [("jwt.go", '''		jwt.updateCount++
		//release here, don't use defer
		jwt.lock.Release(1)
''', '''		//release here, don't use defer
		jwt.lock.Release(1)
		jwt.updateCount++
''')], JWT + r'''
a, b = rsakey("a", 1024), rsakey("b", 1024)
u = Up(lambda r, c: resp(200, (), json.dumps({"keys": [jwk_rsa(a, "ka")]}).encode()))
j = J8a(cfg(u, routes=[{"path": "/", "resource": "u", "jwt": "k"}], jwt={"k": {"alg": "RS256", "jwksUrl": "http://127.0.0.1:%d/jwks" % u.port}}), race=True)
t = rs256(b, {"exp": now + 600}, {"alg": "RS256", "kid": "unknown"})
end = time.time() + 60
while time.time() < end and sum(r.target == "/jwks" for r in u.reqs) < 4:
    j.do("GET", "/a", auth(t))
    time.sleep(0.02)
time.sleep(0.5)
check(not any("DATA RACE" in l for l in j.log), "the race detector reported a data race")
''', "two key rotations of the same jwt after the start", "the refresh counter is written without holding the lock")

seed("C22-long", [("proxy.go", '''	xr := request.Header.Get(XRequestID)
	if len(xr) == 0 {''', '''	xr := request.Header.Get(XRequestID)
	if len(xr) == 0 || len(xr) > 128 {''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u))
for n in (1, 36, 128, 129, 500, 2000):
    i = "r" * n
    r = j.do("GET", "/a", (("X-Request-Id", i),))
    check(r.all("X-Request-Id") == [i] and u.reqs[-1].all("X-Request-Id") == [i], "id of %d characters is not kept" % n)
''', "a request id of more than 128 characters", "it is replaced by a generated one")

seed("C22-unique", [("proxy.go", '''		uuid, _ := uuid.NewRandom()
		xr = fmt.Sprintf("XR-%s-%s", ID, uuid)
''', '''		id := uuid.NewSHA1(uuid.NameSpaceURL, []byte(request.RemoteAddr+time.Now().Format(time.RFC3339)+request.RequestURI))
		xr = fmt.Sprintf("XR-%s-%s", ID, id)
''')], r'''
u = Up(lambda r, c: resp(200, (), b"x"))
j = J8a(cfg(u), level="WARN")
s = j.conn(); f = s.makefile("rb")
ids = [j.raw(b"GET /a HTTP/1.1\r\nHost: x\r\n\r\n", s=s, f=f).get("X-Request-Id") for i in range(300)]
check(len(set(ids)) == len(ids), "%d ids for %d requests" % (len(set(ids)), len(ids)))
''', "several requests for one URI on one connection within a second", "they get the same generated id")
