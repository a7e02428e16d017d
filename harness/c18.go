package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync/atomic"
	"time"
)

// C18: hostile bytes from both sides.

var c18dict = []string{"\r\n", "\r\n\r\n", "\n", "\r", ":", " ", "\t", "\x00", "\xff", "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/9.9", "0\r\n\r\n", "Content-Length: 5\r\n", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999\r\n", "Transfer-Encoding: chunked\r\n",
	"Transfer-Encoding: gzip, chunked\r\n", "Connection: close\r\n", "Connection: keep-alive\r\n", "Host: a\r\n", "Expect: 100-continue\r\n", "Upgrade: websocket\r\n", "Trailer: X\r\n", "ffffffff\r\n", "5;ext=1\r\n", "%00", "%2f", "..", "//", "?", "#", "*", "/r/", "/about", "/jwt/",
	"Authorization: Bearer a.b.c\r\n", "Content-Encoding: gzip\r\n", "\x1f\x8b\x08", "Accept-Encoding: gzip\r\n", "GET ", "POST ", "HEAD ", "CONNECT ", "\u2028", "X-Request-Id: \r\n", " HTTP/1.1\r\n", "100", "101", "204", "304", "999", "000", "-1"}

func mutate(r *rand.Rand, b []byte, n int) []byte {
	b = append([]byte(nil), b...)
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			b = []byte("x")
		}
		p := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[p] ^= 1 << r.Intn(8)
		case 1:
			b[p] = byte(r.Intn(256))
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			q := p + r.Intn(len(b)-p)
			b = append(b[:p:p], b[q:]...)
		case 4, 5:
			d := pick(r, c18dict)
			b = append(b[:p:p], append([]byte(d), b[p:]...)...)
		case 6:
			q := p + r.Intn(len(b)-p)
			b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 7:
			d := pick(r, c18dict)
			b = append(b[:p:p], append([]byte(d), b[min(len(b), p+len(d)):]...)...)
		case 8:
			b = append(b[:p:p], append(bytes.Repeat([]byte{b[p]}, 1+r.Intn(300)), b[p:]...)...)
		}
	}
	return b
}

func c18tokens(r *rand.Rand) []string {
	now := time.Now().Unix()
	k := &jkey{alg: "HS256", secret: []byte(kitchenSecret)}
	nested := strings.Repeat("[", 2000) + strings.Repeat("]", 2000)
	claims := []string{`{}`, `{"exp":"abc"}`, `{"exp":null}`, `{"exp":[]}`, `{"exp":{}}`, `{"exp":1e400}`, `{"exp":-1}`, `{"exp":1e18}`, `{"exp":1e300}`, `{"exp":-1e300}`, `{"exp":9223372036854775807}`, `{"exp":-9223372036854775808}`, `{"exp":"9223372036854775807"}`, `{"exp":true}`, `{"iat":9223372036854775807,"nbf":-9223372036854775808}`,
		`{"iat":""}`, `{"nbf":"2020-01-01"}`, `{"aud":5}`, `{"aud":[1,2]}`, `{"aud":null}`, `{"iss":5}`, `{"sub":[]}`, `{"jti":{}}`, `[]`, `null`, `5`, `"x"`, ``, `{`, `{"a":` + nested + `}`, `{"exp":` + fmt.Sprint(now+100) + `,"exp":"x"}`, `{"":""}`, "{\"a\":\"\xff\xfe\"}", `{"iat":0.0000001}`, `{"exp":1e-400}`, `{"exp": 253402300800}`, `{"nbf":1e19}`}
	heads := []string{`{"alg":"HS256"}`, `{"alg":"HS256","kid":5}`, `{"alg":"HS256","kid":null}`, `{"alg":"HS256","kid":[]}`, `{"alg":"HS256","kid":{"a":1}}`, `{"alg":"HS256","kid":"` + strings.Repeat("k", 5000) + `"}`, `{"alg":"HS256","kid":"\u0000"}`, `{"alg":"HS256","crit":["exp"]}`, `{"alg":"HS256","x5c":5,"jwk":[]}`, `{"alg":"HS256","jku":"http://127.0.0.1:1/"}`, `{"alg":"HS256","b64":false}`, `[]`, `null`, `5`, ``, `{`, `{"alg":5}`, `{"alg":null}`, `{"alg":"HS256","typ":7}`, `{"alg":"HS256","cty":{}}`, `{"alg":"HS256","zip":"DEF"}`}
	var out []string
	for _, c := range claims {
		out = append(out, signRaw(k, "HS256", []byte(pick(r, heads)), []byte(c)), signRaw(k, "HS256", []byte(heads[0]), []byte(c)))
	}
	for _, h := range heads {
		out = append(out, signRaw(k, "HS256", []byte(h), []byte(`{"sub":"x"}`)))
	}
	// JWS JSON serialisations, with valid signatures
	prot, pay := b64([]byte(`{"alg":"HS256"}`)), b64([]byte(`{"sub":"x"}`))
	sig := b64(k.sigOver("HS256", prot+"."+pay))
	js := func(v any) { b, _ := json.Marshal(v); out = append(out, string(b)) }
	js(J{"payload": pay, "protected": prot, "signature": sig})
	js(J{"payload": pay, "signatures": A{J{"protected": prot, "signature": sig}}})
	js(J{"payload": pay, "signatures": A{J{"protected": prot, "signature": "AAAA"}, J{"protected": prot, "signature": sig}}})
	js(J{"payload": pay, "signatures": A{J{"protected": prot, "signature": sig}, J{"protected": prot, "signature": "AAAA"}}})
	js(J{"payload": pay, "signatures": A{J{"header": J{"alg": "HS256", "kid": 5}, "signature": sig}}})
	js(J{"payload": pay, "signatures": A{}})
	js(J{"payload": pay, "signatures": nil})
	js(J{"payload": pay})
	js(J{"payload": "***", "protected": prot, "signature": sig})
	js(J{"signatures": A{nil}})
	out = append(out, "{}", "{", "[]", "null", `{"payload":5}`, `{"signatures":5}`, "..", ".", "....", "a.b", "a..c", ".b.", strings.Repeat("a.", 500), strings.Repeat("A", 60000), b64([]byte(heads[0]))+"."+pay+".", prot+"."+pay+"."+sig+"=", " "+prot, "\x80.\x81.\x82")
	return out
}

// wellFormed makes a legal request; want is the expected status, 0 = any.
type wfReq struct {
	method, raw, kind string
	unsupported       bool
}

func c18wellFormed(r *rand.Rand, id string, k *kitchen) wfReq {
	m := pick(r, []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST"})
	q := wfReq{method: m}
	t := pick(r, []string{"/r/", "/r/x", "/dead/", "/nolabel/", "/nores/", "/about", "/jwt/x", "/", "/none", "/r/%41%00%ff", "/r/?", "/r/??&&==", "/r/;a=b;c", "/r/~!$&'()*+,;=:@", "/r/%2e%2e/%2e%2e", "/r/" + strings.Repeat("a", 3000), "/r/?" + strings.Repeat("q=1&", 2000), "/r/x#", "/r/\u00e9", "//r//", "/r/../r/", "/r/%E2%98%83", "/abc", "/def/x", "/ghi?", "/v1/", "/v0123456789/x", "/opt", "/optx", "/optionalx/", "/aaq", "/z", "/klmz", "/%61bc", "/lit", "/lit/", "/lit/lit/", "/raw/abc", "/raw/v1/", "/raw/klklklz", "/raw/optx", "/r/{}|\\^`\"<>"})
	if strings.ContainsAny(t, "\u00e9{}|\\^`\"<>#") {
		q.kind = "odd-uri " // not strictly legal; still must be answered
	}
	hs := hv("X-Case", id)
	add := func(k, v string) { hs = append(hs, HV{k, v}) }
	var body []byte
	proto := "HTTP/1.1"
	kind := "plain"
	switch r.Intn(26) {
	case 0:
		q.method = pick(r, []string{"PATCH", "FOO", "PROPFIND", "M-SEARCH", "BREW", "LINK", "PRI", "X", "GETT", "POS", "!#$%&'*+-.^_`|~", "TRACK", "COPY", "ACL"})
		t = pick(r, []string{"/r/x", "/jwt/x", "/dead/", "/nolabel/", "/nowhere"})
		q.unsupported = true
		kind = "method"
	case 1:
		proto, kind = "HTTP/1.0", "http10"
	case 2:
		proto, kind = "HTTP/1.0", "http10-keepalive"
		add("Connection", "keep-alive")
	case 3:
		add("Connection", pick(r, []string{"close", "Upgrade", "keep-alive, X-Foo", "TE", ",,,", "close, close"}))
		add("Upgrade", "h2c, websocket")
		kind = "upgrade"
	case 4:
		add("Expect", "100-continue")
		body = randBody(r, 1+r.Intn(2000))
		kind = "expect"
	case 5:
		body = randBody(r, r.Intn(70000))
		hs = append(hs, HV{"Transfer-Encoding", "chunked"})
		kind = "chunked"
	case 6:
		add("Range", pick(r, []string{"bytes=0-1", "bytes=-1", "bytes=5-1,7-", "x"}))
		kind = "range"
	case 7:
		add("If-None-Match", "*")
		add("If-Modified-Since", "not a date")
		kind = "conditional"
	case 8:
		for i := 0; i < 300; i++ {
			add("X-H"+token(r, 3), token(r, 50))
		}
		kind = "many-headers"
	case 9:
		add("X-Long", strings.Repeat("l", 200000))
		kind = "long-header"
	case 10:
		add("Accept-Encoding", pick(r, []string{"gzip", "gzip;q=0", "*", "gzip;q=x", ",,gzip", "gzip;;q", "gzip;q=1;q=0", ";", "identity;q=0", "br, gzip;q=0.001", "\"gzip\""}))
		kind = "accept-encoding"
	case 11:
		add("Authorization", pick(r, []string{"Basic eDp5", "Bearer", "Bearer  ", "bearer x", "x", "", "Bearer a b c d", "\xff\xfe"}))
		t = "/jwt/x"
		kind = "authorization"
	case 12:
		add("X-Request-Id", pick(r, []string{"a b", strings.Repeat("i", 9000), "\xff", "\"", "a,b", "{}", "%s%n"}))
		kind = "request-id"
	case 13:
		add("X-Request-Debug", "true")
		kind = "debug"
	case 14:
		add("Host", pick(r, []string{"", "a:b", "[::1]:80", "a..b", "127.0.0.1:1", "x_y", "EXAMPLE.com:99999"}))
		kind = "host"
	case 15:
		add("X-Case", "dup")
		add("Content-Type", "x")
		add("Content-Type", "y")
		kind = "repeated"
	case 16:
		add("Content-Length", "0")
		kind = "zero-length"
	case 17:
		add("Transfer-Encoding", "chunked")
		kind = "empty-chunked"
	case 18:
		add("TE", "trailers, deflate")
		add("Trailer", "X-T")
		hs = append(hs, HV{"Transfer-Encoding", "chunked"})
		body = []byte("trailer-body")
		kind = "trailers"
	case 19:
		t = pick(r, []string{"http://j8a.test/r/x", "http://127.0.0.1:1/r/x", "https://x/r/", "HTTP://X/"})
		kind = "absolute"
	case 20:
		q.method, t, kind = "OPTIONS", "*", "options-star"
	case 21:
		q.method, t, kind = "CONNECT", pick(r, []string{"127.0.0.1:1", "j8a.test:443", "/r/x"}), "connect"
	case 22:
		add("X-Obs", "\x80\x81\xfe tab\tin")
		kind = "obs-text"
	case 23:
		add("Cookie", strings.Repeat("a=b; ", 1000))
		kind = "cookie"
	case 24:
		add("Authorization", "Bearer "+pick(r, c18tokens(r)))
		t = "/jwt/x"
		kind = "token"
	}
	q.kind += kind
	// framing
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %s\r\n", q.method, t, proto)
	if !hs.Has("Host") {
		b.WriteString("Host: j8a.test\r\n")
	}
	for _, h := range hs {
		fmt.Fprintf(&b, "%s: %s\r\n", h.K, h.V)
	}
	switch {
	case kind == "trailers":
		b.WriteString("\r\nc;x=\"y\"\r\ntrailer-body\r\n0\r\nX-T: v\r\n\r\n")
	case hs.Has("Transfer-Encoding"):
		b.WriteString("\r\n" + chunked(body, []int{1, 7, 4000}))
	case len(body) > 0:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	default:
		b.WriteString("\r\n")
	}
	q.raw = b.String()
	return q
}

func init() {
	register("C18", func(c *Ctx) {
		c.rule = "(a) mutated request streams on raw connections, (b) legal but exotic requests (25 kinds), each must get one well-formed response, (c) hostile JWTs incl. validly signed ones with absurd content, (d) mutated upstream responses; oracle: responses parsed strictly, control requests, process state, handler panics in the network event log; key = kind x base x outcome"
		c.assume = []string{"TLS handshake bytes are fuzzed in C23"}
		bin := c.buildJ8a(c.Thorough())
		c.c18odd(bin)
		sc := newScripted(answerClose(200, hv("X-D", "1"), []byte("default body")))
		k := &kitchen{Sc: sc, Dead: c.deadPort()}
		k.Up = c.newUpstream("kitchen", sc.Handle)
		k.cfg = c.kitchenCfg(J{"readTimeoutSeconds": 5, "roundTripTimeoutSeconds": 8, "idleTimeoutSeconds": 3, "maxBodyBytes": 100000}, J{"readTimeoutSeconds": 2, "maxAttempts": 2}, k.Up, k.Dead)
		// routes whose pattern is longer or shorter than what it matches, with and without transform
		for _, p := range []string{"/(abc|def|ghi)", "/v[0-9]+/", "/opt(ional)?x", "/.{2}q", "/[k-m]*z", "/lit/"} {
			k.cfg["routes"] = append(k.cfg["routes"].(A), J{"path": p, "transform": pick(c.Rng("tr"+p), []string{"/", "/t", "/t/", "/longer/than/the/path/it/replaces/"}), "resource": "r"}, J{"path": "/raw" + p, "resource": "r"})
		}
		k.S = c.start(k.cfg, StartOpt{Bin: bin})
		rng := c.Rng("wf")
		// (b) and (c): well formed
		nwf := c.N(3000, 60000)
		wf := make([]wfReq, nwf)
		toks := c18tokens(rng)
		for i := range wf {
			id := fmt.Sprintf("w%d.", i)
			if i < len(toks)*2 {
				m := pick(rng, []string{"GET", "POST"})
				wf[i] = wfReq{method: m, kind: "jwt", raw: reqText(m, "/jwt/x", hv("X-Case", id, "Authorization", "Bearer "+toks[i%len(toks)]), nil)}
			} else {
				wf[i] = c18wellFormed(rng, id, k)
			}
		}
		c.Par(nwf, 32, func(i int) {
			q := wf[i]
			head := q.raw
			if len(head) > 400 {
				head = head[:400]
			}
			d := J{"kind": q.kind, "request": head}
			r, err := k.S.exchange(q.method, q.raw)
			if !c.judge("wellformed "+q.kind, r, err, d) {
				return
			}
			d["code"] = r.Code
			if r.Code < 200 || r.Code > 599 {
				c.Violate("status-out-of-range", d)
			}
			if q.unsupported {
				id := fmt.Sprintf("w%d.", i)
				if n := len(k.Up.ForCase(id)); n > 0 || r.Code != 400 {
					d["requests"] = n
					c.Violate("unsupported-method", d)
				}
			}
			c.Case(fmt.Sprintf("%s %s %d", q.kind, q.method, r.Code))
			if i%500 == 0 {
				c.Sample(d)
			}
		})
		k.Up.Forget()
		c.c18headers(k)
		k.Up.Forget()
		// (a) mutated streams
		bases := func(r *rand.Rand) []byte {
			var b bytes.Buffer
			for n := 0; n < 1+r.Intn(3); n++ {
				b.WriteString(c18wellFormed(r, "fuzz", k).raw)
			}
			if b.Len() > 5000 {
				b.Truncate(5000)
			}
			return b.Bytes()
		}
		var answered, silent atomic.Int64
		nf := c.N(6000, 150000)
		c.Par(nf, 48, func(i int) {
			r := c.Rng(fmt.Sprintf("f%d", i))
			var in []byte
			switch r.Intn(12) {
			case 0:
				in = randBytes(r, r.Intn(2000))
			case 1:
				for n := 0; n < r.Intn(60); n++ {
					in = append(in, pick(r, c18dict)...)
				}
			default:
				in = mutate(r, bases(r), 1+r.Intn(8))
			}
			cn, err := net.DialTimeout("tcp", k.S.Addr, 20*time.Second)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			defer cn.Close()
			cn.SetDeadline(time.Now().Add(12 * time.Second))
			go func() {
				if r2 := i % 5; r2 == 0 { // dribble
					for p := 0; p < len(in); p += 97 {
						cn.Write(in[p:min(len(in), p+97)])
						time.Sleep(time.Millisecond)
					}
				} else {
					cn.Write(in)
				}
				cn.(*net.TCPConn).CloseWrite()
			}()
			cl := &Client{cn, nil}
			_ = cl
			buf := make([]byte, 4096)
			n, _ := cn.Read(buf)
			if n > 0 {
				answered.Add(1)
				if !bytes.HasPrefix(buf[:n], []byte("HTTP/1.")[:min(n, 7)]) {
					c.Violate("answer-not-http", J{"input": fmt.Sprintf("%q", clip(in)), "answer": fmt.Sprintf("%q", buf[:min(n, 200)])})
				}
				st := ""
				if n > 12 {
					st = string(buf[9:12])
				}
				c.Case("stream " + st)
			} else {
				silent.Add(1)
				c.Case("stream silent")
			}
			if i%1000 == 999 && !k.S.controlOK(2) {
				if !k.S.Alive() {
					c.Violate("server-died", J{"input": fmt.Sprintf("%q", in), "tail": k.S.Tail(6)})
				} else {
					c.Inconclusive("control not answered")
				}
			}
		})
		c.Count("streams-answered", int(answered.Load()))
		c.Count("streams-closed-silently", int(silent.Load()))
		k.Up.Forget()
		// (d) hostile upstream
		nu := c.N(3000, 60000)
		c.Par(nu, 32, func(i int) {
			r := c.Rng(fmt.Sprintf("u%d", i))
			id := fmt.Sprintf("u%d.", i)
			m := pick(r, []string{"GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE", "TRACE"})
			var raws [][]byte
			for n := 0; n < 2; n++ {
				code := pick(r, []int{200, 200, 201, 204, 206, 301, 304, 404, 500, 503, 100, 101, 102, 199, 299, 600, 999})
				body := randBody(r, r.Intn(600))
				hs := hv("X-U", "1")
				switch r.Intn(7) {
				case 0:
					body = gzipBytes(body)
					hs = append(hs, HV{"Content-Encoding", "gzip"})
				case 1:
					body = append([]byte("\x1f\x8b\x08\x00"), body...)
					hs = append(hs, HV{"Content-Encoding", pick(r, []string{"gzip", "x-gzip", "gzip, gzip", "GZIP", "br"})})
				case 2:
					g := gzipBytes(body)
					body = g[:r.Intn(len(g))]
					hs = append(hs, HV{"Content-Encoding", "gzip"})
				}
				var raw string
				if r.Intn(3) == 0 {
					raw = httpResp(code, append(hs, HV{"Transfer-Encoding", "chunked"}), []byte(chunked(body, []int{1 + r.Intn(200)})))
				} else {
					raw = httpResp(code, hs, body)
				}
				b := []byte(raw)
				switch r.Intn(6) {
				case 0: // legal or absurd, but not mutated
				case 1:
					b = mutate(r, b[:min(len(b), 60)], 1+r.Intn(4))
				case 2:
					b = randBytes(r, r.Intn(500))
				default:
					b = mutate(r, b, 1+r.Intn(6))
				}
				raws = append(raws, b)
			}
			st := func(b []byte) Step {
				return func(q *UpReq, w *UpConn) {
					w.Write(b)
					switch i % 8 {
					case 0:
						w.Reset()
					case 1:
						select {
						case <-w.WatchPeer():
						case <-time.After(300 * time.Millisecond):
						}
						w.Done()
					default:
						w.Done()
					}
				}
			}
			sc.Set(id, st(raws[0]), st(raws[1]))
			hs := hv("X-Case", id)
			if r.Intn(2) == 0 {
				hs = append(hs, HV{"Accept-Encoding", "gzip"})
			}
			rp, err := k.S.ex(m, "/r/x", hs, nil)
			d := J{"method": m, "upstream": []string{fmt.Sprintf("%q", clip(raws[0])), fmt.Sprintf("%q", clip(raws[1]))}}
			if !c.judge("hostile-upstream", rp, err, d) {
				return
			}
			d["code"] = rp.Code
			if rp.Code < 200 || rp.Code > 599 {
				c.Violate("status-out-of-range", d)
			}
			c.Case(fmt.Sprintf("upstream %s %d", m, rp.Code))
		})
		c.checkHealth(k.S)
		for kk, v := range k.S.Races() {
			c.Violate("race", J{"frames": kk, "report": v})
		}
		if !k.S.controlOK(3) {
			c.Violate("control-not-answered-at-end", J{"alive": k.S.Alive()})
		}
	})
}
