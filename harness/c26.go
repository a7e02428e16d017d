package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"
)

// C26: access records.

// dupKeys tells the keys that occur more than once at the top level of a JSON object.
func dupKeys(b []byte) []string {
	d := json.NewDecoder(bytes.NewReader(b))
	seen := map[string]bool{}
	var out []string
	depth, key := 0, false
	for {
		t, err := d.Token()
		if err != nil {
			return out
		}
		if x, ok := t.(json.Delim); ok {
			if x == '{' || x == '[' {
				depth++
				key = depth == 1
			} else {
				depth--
				key = depth == 1
			}
			continue
		}
		if depth != 1 {
			continue
		}
		if key {
			k := t.(string)
			if seen[k] {
				out = append(out, k)
			}
			seen[k] = true
			key = false
		} else {
			key = true
		}
	}
}

// fact is one answered exchange as client and upstreams saw it.
type fact struct {
	kind, method, path, id, from, ver, tlsVer, ua string
	code                                          int
	message                                       string // of the JSON error, "" = unknown
	upURI, upLabel                                string
	upCode                                        int // -1 = not judged
	attempts, max                                 int // attempts -1 = not judged
	contact                                       bool
	uncertain                                     bool // answer not received (client left)
}

func logText(s string) string { return string([]rune(s)) }

func samePath(got, want string) bool {
	if got == want {
		return true
	}
	if !strings.ContainsAny(want, "\"<>\\^`{|}[]") && !strings.ContainsFunc(want, func(r rune) bool { return r > 126 }) {
		return false
	}
	a, e1 := url.PathUnescape(got)
	b, e2 := url.PathUnescape(want)
	return e1 == nil && e2 == nil && a == b
}

func (c *Ctx) judgeRecord(s *Server, f fact, l logLine) {
	d := J{"kind": f.kind, "method": f.method, "path": f.path, "code": f.code, "record": l}
	bad := func(sig string, want any) {
		d["want"] = want
		c.Violate(sig, d)
	}
	if got := l.I("dwnResCode"); got != f.code && !f.uncertain {
		bad("status", f.code)
	}
	if got := l.S("dwnReqMethod"); got != f.method {
		bad("method", f.method)
	}
	if got := l.S("dwnReqPath"); !samePath(got, f.path) {
		bad("path", f.path)
	}
	if got := l.S("dwnReqRemoteAddr"); !net.ParseIP(f.from).Equal(net.ParseIP(got)) {
		bad("client-address", f.from)
	}
	if got := l.S("dwnHttpVer"); got != f.ver {
		bad("http-version", f.ver)
	}
	if got := l.S("dwnTlsVer"); f.tlsVer != "" && got != f.tlsVer {
		bad("tls-version", f.tlsVer)
	}
	if got := l.S("dwnReqUserAgent"); got != logText(f.ua) {
		bad("user-agent", f.ua)
	}
	code := l.I("dwnResCode")
	switch lv := l.S("level"); {
	case code >= 400 && lv != "warn":
		bad("error-level", "warn")
	case code < 400 && lv != "info":
		bad("success-level", "info")
	}
	if code >= 400 {
		m := l.S("dwnResErrMsg")
		if m == "" || m == "none" || f.message != "" && m != f.message {
			bad("message", f.message)
		}
	}
	_, hasUp := l["upReqURI"]
	for _, k := range []string{"upLabel", "upAtmptResCode", "upAtmpt"} {
		if _, ok := l[k]; ok != hasUp {
			bad("upstream-fields-partial", k)
		}
	}
	if !hasUp {
		if f.contact && f.upCode > 0 {
			bad("upstream-fields-missing", f.upURI)
		}
		return
	}
	if !f.contact {
		bad("upstream-fields-without-attempt", "no upstream fields")
		return
	}
	if got := l.S("upReqURI"); f.upURI != "" && !samePath(got, f.upURI) {
		bad("upstream-uri", f.upURI)
	}
	if got := l.S("upLabel"); got != f.upLabel {
		bad("upstream-label", f.upLabel)
	}
	if got := l.I("upAtmptResCode"); f.upCode >= 0 && got != f.upCode {
		bad("upstream-status", f.upCode)
	}
	if want := fmt.Sprintf("%d/%d", f.attempts, f.max); f.attempts >= 0 && l.S("upAtmpt") != want {
		bad("upstream-attempts", want)
	}
}

func init() {
	register("C26", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "randomised exchanges over 38 outcome kinds x HTTP/1.0, 1.1, HTTP/2 x TLS none/1.2/1.3 x client addresses 127.0.0.x and ::1 x policies, transforms and odd paths x hostile user agents and request ids, on fresh, reused and pipelined connections, some abandoned; oracle: access records joined to what clients and upstreams observed by request id, exactly one per exchange and every field compared; key = kind, protocol and code"
		c.assume = []string{"records are awaited for 10 s after the last answer"}
		bin := c.buildJ8a(false)
		rng := c.Rng("log")

		type site struct {
			s     *Server
			sc    *scripted
			ups   map[int]*Upstream // by port
			label map[int]string
			max   int
			p     *pki
			facts []fact
			extra int
		}
		stallBody := func(r *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 100\r\n\r\npart")
			select {
			case <-w.WatchPeer():
			case <-time.After(20 * time.Second):
			}
			w.Done()
		}
		cutBody := func(code int) Step {
			return func(r *UpReq, w *UpConn) {
				w.Send(fmt.Sprintf("HTTP/1.1 %d OK\r\nConnection: close\r\nContent-Length: 100\r\n\r\npart", code))
				w.Done()
			}
		}
		type kind struct {
			respKind
			up int // status of the last attempt, 0 = as the response, -1 not judged
		}
		var kinds []kind
		for _, k := range respKinds() {
			x := kind{respKind: k}
			switch k.name {
			case "5xx-own", "5xx-all":
				x.up = 500
			case "broken", "dead", "attempt-timeout", "round-trip-timeout":
				x.up = -1
			}
			kinds = append(kinds, x)
		}
		ok := answerClose(200, nil, []byte("fine"))
		kinds = append(kinds,
			kind{respKind{name: "cut-body", method: "POST", target: "/r/@", steps: []Step{cutBody(200)}, code: 502, attempts: 1}, 200},
			kind{respKind{name: "cut-body-all", method: "GET", target: "/r/@", steps: []Step{cutBody(200), cutBody(201), cutBody(203)}, code: 502, attempts: 3}, 203},
			kind{respKind{name: "cut-then-500", method: "GET", target: "/r/@", steps: []Step{cutBody(200), answerClose(500, nil, nil), answerClose(503, nil, nil)}, code: 502, attempts: 3}, 503},
			kind{respKind{name: "stall-body", method: "POST", target: "/r/@", steps: []Step{stallBody}, code: 504, attempts: 1, slow: true}, 200},
			kind{respKind{name: "500-then-drop", method: "GET", target: "/r/@", steps: []Step{answerClose(500, nil, nil), func(r *UpReq, w *UpConn) { w.Reset() }}, code: 502, attempts: 3}, -1},
			kind{respKind{name: "policy", method: "GET", target: "/pol/@", steps: []Step{ok}, code: 200, attempts: 1}, 0},
			kind{respKind{name: "policy-retry", method: "GET", target: "/pol/@", steps: []Step{answerClose(500, nil, nil), ok}, code: 200, attempts: 2}, 0},
			kind{respKind{name: "transform", method: "GET", target: "/tr/@?q=1&x=/tr", steps: []Step{ok}, code: 200, attempts: 1}, 0},
			kind{respKind{name: "transform-4xx", method: "PUT", target: "/tr/@", body: []byte("x"), steps: []Step{answerClose(404, nil, []byte("gone"))}, code: 404, attempts: 1}, 0},
			kind{respKind{name: "4xx-unnamed", method: "GET", target: "/r/@", steps: []Step{answerClose(477, nil, []byte("gone"))}, code: 477, attempts: 1}, 0},
			kind{respKind{name: "jwt-about", method: "GET", target: "/jabout?@", hs: hv("Authorization", "@token"), code: 200}, 0},
			kind{respKind{name: "jwt-about-refused", method: "GET", target: "/jabout?@", code: 401}, 0},
			kind{respKind{name: "big", method: "GET", target: "/r/@", steps: []Step{answerClose(200, nil, bytes.Repeat([]byte("0123456789"), 30000))}, code: 200, attempts: 1}, 0},
		)

		mk := func(tlsMode bool, down, up J, level string, max int) *site {
			t := &site{sc: newScripted(nil), ups: map[int]*Upstream{}, label: map[int]string{}, max: max}
			o := StartOpt{Bin: bin, Level: level, TLS: tlsMode}
			if tlsMode {
				t.p = newPKI()
				down = t.p.down(down)
			}
			dead := c.deadPort()
			mkUp := func(l string) *Upstream {
				u := c.newUpstream(l, t.sc.Handle)
				t.ups[u.Port] = u
				t.label[u.Port] = l
				return u
			}
			u := mkUp("default")
			a, b, d := mkUp("blue"), mkUp("green"), mkUp("odd \"label\"")
			cfg := c.kitchenCfg(down, up, u, dead)
			cfg["policies"].(J)["mix"] = A{J{"label": "blue", "weight": 0.4}, J{"label": "green", "weight": 0.3}, J{"label": "odd \"label\"", "weight": 0.3}}
			cfg["resources"].(J)["p"] = A{labelled(a, "blue"), labelled(b, "green"), labelled(d, "odd \"label\"")}
			cfg["routes"] = append(cfg["routes"].(A), J{"path": "/pol/", "resource": "p", "policy": "mix"}, J{"path": "/tr/", "resource": "r", "transform": "/moved/over/"},
				J{"path": "/jabout", "resource": "about", "jwt": "hs"})
			t.s = c.start(cfg, o)
			return t
		}
		down := func() J { return J{"maxBodyBytes": 1000, "roundTripTimeoutSeconds": 60} }
		up := func() J { return J{"readTimeoutSeconds": 1, "maxAttempts": 3} }
		plain := mk(false, down(), up(), "INFO", 3)
		secure := mk(true, down(), up(), "TRACE", 3)
		// here the client side gives up first
		short := mk(false, J{"maxBodyBytes": 1000, "roundTripTimeoutSeconds": 1}, J{"readTimeoutSeconds": 20, "maxAttempts": 3}, "DEBUG", 3)
		sites := []*site{plain, secure, short}

		agents := []string{"", "curl/8", "quo\"te", "back\\slash", `","dwnResCode":200,"x":"`, "tab\there", "umlaut \xc3\xa4\xe2\x82\xac", "bad \xff\xfe\xc3 utf8", "<b>&amp;</b>", strings.Repeat("long ", 300) + "ua", "{\"a\":1}", "%00%0a%s%d", "unknown", "\u2028 line"}
		ids := []string{"", "", "", "plain-@", "quo\"te-@", "back\\-@", "uml\xc3\xa4ut-@", "bad\xff-@", "{\"X-Request-Id\":\"@\"}", "sp ace @", "@" + strings.Repeat("x", 500)}
		tails := []string{"", "", "/sub/path", "/a%20b", "/%41%2fb%2e", "/uml%C3%A4ut", "/\xc3\xa4", "/x%22y%0ad", "/semi;colon=1", "/a+b,c$d!e'(f)*", "?q=%22&r=%0a", "?a=b?c", "/%25%32%35", "/<tag>", "/{curly}|`^"}

		type job struct {
			t    *site
			k    kind
			id   string
			idh  string
			ua   string
			tail string
			ver  string // 1.0 1.1 2.0
			tv   uint16
			from string
			left bool
			dbg  string
			n    int // exchanges on the same connection
			pipe bool
		}
		var jobs []job
		total := c.N(1500, 20000)
		v6 := true
		if l, err := net.Listen("tcp", "[::1]:0"); err != nil {
			v6 = false
			c.Count("no-ipv6-loopback", 1)
		} else {
			l.Close()
		}
		for i := 0; i < total; i++ {
			j := job{id: fmt.Sprintf("k%d", i), k: kinds[i%len(kinds)], ver: "1.1", n: 1}
			if i >= len(kinds)*3 && j.k.slow && rng.Intn(4) > 0 {
				j.k = kinds[rng.Intn(8)]
			}
			switch {
			case i%9 == 8 && (j.k.name == "ok" || j.k.slow && j.k.name != "retry-timeout" || j.k.code == 413 || j.k.name == "policy"):
				j.t = short
			case i%2 == 1:
				j.t = secure
			default:
				j.t = plain
			}
			j.from = fmt.Sprintf("127.0.%d.%d", rng.Intn(3), 1+rng.Intn(250))
			if v6 && rng.Intn(5) == 0 {
				j.from = "::1"
			}
			if j.t.p != nil {
				j.tv = pick(rng, []uint16{tls.VersionTLS12, tls.VersionTLS13})
				if rng.Intn(3) == 0 && !j.k.h1 {
					j.ver = "2.0"
				}
			}
			if j.ver == "1.1" && rng.Intn(5) == 0 && j.k.name != "bad-body" {
				j.ver = "1.0"
			}
			j.ua, j.idh, j.tail = pick(rng, agents), strings.ReplaceAll(pick(rng, ids), "@", j.id), pick(rng, tails)
			if strings.Contains(j.k.target, "?") || j.ver == "2.0" && strings.ContainsAny(j.tail, "<>{}|`^\xc3") {
				j.tail = ""
			}
			if j.ver == "2.0" && strings.ContainsAny(j.ua, "\xff") {
				j.ua = "h2"
			}
			j.dbg = pick(rng, []string{"", "", "true", "false"})
			if j.ver == "1.1" && !j.k.slow && j.k.code < 400 && j.k.code >= 200 && rng.Intn(4) == 0 {
				j.n, j.pipe = 2+rng.Intn(4), rng.Intn(2) == 0
			}
			if j.ver == "1.1" && j.n == 1 && rng.Intn(25) == 0 && j.k.method != "HEAD" {
				j.left = true
			}
			jobs = append(jobs, j)
		}
		var h2s sync.Map
		var mu sync.Mutex
		add := func(t *site, f fact) {
			mu.Lock()
			t.facts = append(t.facts, f)
			mu.Unlock()
			c.Case(f.kind + "/" + f.ver + f.tlsVer + fmt.Sprintf("/%d", f.code))
		}
		c.Par(len(jobs), 48, func(i int) {
			j := jobs[i]
			t := j.t
			d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(j.from)}, Timeout: 20 * time.Second}
			addr := t.s.Addr
			if j.from == "::1" {
				addr = fmt.Sprintf("[::1]:%d", t.s.Port)
			}
			one := func(m int) (id string, target string, hs Headers) {
				id = fmt.Sprintf("%s.%d.", j.id, m)
				t.sc.Set(id, j.k.steps...)
				target = strings.ReplaceAll(j.k.target, "@", id) + j.tail
				hs = hv("X-Case", id)
				if j.ua != "" {
					hs = append(hs, HV{"User-Agent", j.ua})
				}
				if j.idh != "" {
					x := j.idh
					if j.n > 1 {
						x += fmt.Sprintf("-%d", m)
					}
					hs = append(hs, HV{"X-Request-Id", x})
				}
				if j.dbg != "" {
					hs = append(hs, HV{"X-Request-Debug", j.dbg})
				}
				for _, h := range j.k.hs {
					if h.V == "@token" {
						h.V = "Bearer " + hs256(kitchenSecret, nil, J{"sub": "x", "exp": time.Now().Add(time.Hour).Unix()})
					}
					hs = append(hs, h)
				}
				return
			}
			finish := func(id, target string, r *Resp, err error) {
				det := J{"kind": j.k.name, "ver": j.ver, "target": target, "tls": j.tv != 0}
				if !c.judge("exchange", r, err, det) {
					return
				}
				f := fact{kind: j.k.name, method: j.k.method, path: strings.SplitN(target, "?", 2)[0], from: j.from, ver: j.ver, ua: j.ua, code: r.Code,
					id: r.H.Get("X-Request-Id"), attempts: -1, max: t.max, upCode: -1}
				if f.ua == "" {
					f.ua = "unknown"
				}
				switch {
				case t.p == nil:
				case j.tv == tls.VersionTLS12:
					f.tlsVer = "TLS1.2"
				default:
					f.tlsVer = "TLS1.3"
				}
				if r.Code >= 400 && j.k.method != "HEAD" {
					var e errBody
					b, derr := r.decode()
					if derr == nil && json.Unmarshal(b, &e) == nil && e.Message != nil {
						f.message = *e.Message
					}
				}
				for port, u := range t.ups {
					rs := u.ForCase(id)
					if len(rs) == 0 {
						continue
					}
					f.contact = true
					f.attempts = len(rs)
					f.upLabel = t.label[port]
					f.upURI = fmt.Sprintf("http://127.0.0.1:%d%s", port, rs[len(rs)-1].Target)
				}
				if f.contact && r.Code == j.k.code {
					f.upCode = j.k.up
					if j.k.up == 0 {
						f.upCode = r.Code
					}
				}
				if t == short && r.Code == 504 {
					f.upCode = -1
					if j.k.name == "stall-body" {
						f.upCode = 200
					}
				}
				add(t, f)
			}
			if j.ver == "2.0" {
				id, target, hs := one(0)
				key := fmt.Sprintf("%s/%d", j.from, j.tv)
				v, ok := h2s.Load(key)
				if !ok {
					tc := t.p.client()
					tc.MinVersion, tc.MaxVersion = j.tv, j.tv
					v, _ = h2s.LoadOrStore(key, t.s.h2From(tc, &d, addr))
				}
				r, err := v.(*h2Client).ex(j.k.method, target, hs, j.k.body)
				if r != nil && r.Proto != "HTTP/2.0" {
					c.Inconclusive("no h2 negotiated")
					return
				}
				if j.ua == "" {
					j.ua = "Go-http-client/2.0"
				}
				finish(id, target, r, err)
				return
			}
			cn, err := d.Dial("tcp", addr)
			if err != nil {
				c.Inconclusive("dial from %s: %v", j.from, err)
				return
			}
			defer cn.Close()
			if t.p != nil {
				tc := t.p.client()
				tc.MinVersion, tc.MaxVersion = j.tv, j.tv
				x := tls.Client(cn, tc)
				if err := x.Handshake(); err != nil {
					c.Inconclusive("handshake: %v", err)
					return
				}
				cn = x
			}
			cl := &Client{cn, bufio.NewReaderSize(cn, 64<<10)}
			type sent struct{ id, target string }
			var all []sent
			var text []string
			for m := 0; m < j.n; m++ {
				id, target, hs := one(m)
				tx := reqText(j.k.method, target, hs, j.k.body)
				if j.k.name == "bad-body" {
					tx = reqText(j.k.method, target, append(hs, HV{"Connection", "close"}), j.k.body)
				}
				if j.ver == "1.0" {
					tx = strings.Replace(tx, " HTTP/1.1\r\n", " HTTP/1.0\r\n", 1)
				}
				all = append(all, sent{id, target})
				text = append(text, tx)
			}
			if j.left {
				cl.Send(text[0])
				time.Sleep(time.Duration(i%7) * 3 * time.Millisecond)
				cn.Close()
				mu.Lock()
				t.extra++
				mu.Unlock()
				c.Count("abandoned", 1)
				return
			}
			if j.pipe {
				go cl.Send(strings.Join(text, ""))
			}
			for m, x := range all {
				if !j.pipe {
					go cl.Send(text[m])
				}
				r, err := cl.Read(j.k.method, watchdog)
				finish(x.id, x.target, r, err)
				if err != nil || r.Err != nil {
					return
				}
			}
		})
		// join
		for si, t := range sites {
			want := len(t.facts)
			end := time.Now().Add(10 * time.Second)
			byID := map[string][]logLine{}
			n := 0
			var abandoned int
			for {
				byID = map[string][]logLine{}
				n, abandoned = 0, 0
				for _, l := range t.s.Served() {
					if l.S("dwnReqPath") == "/vh-control-no-route" {
						continue
					}
					n++
					byID[l.S("X-Request-Id")] = append(byID[l.S("X-Request-Id")], l)
				}
				missing := 0
				for _, f := range t.facts {
					if len(byID[logText(f.id)]) == 0 {
						missing++
					}
				}
				if missing == 0 && time.Until(end) < 9*time.Second || time.Now().After(end) {
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			abandoned = n - want
			c.Count("records", n)
			c.Count("answered", want)
			ids := map[string]int{}
			for _, f := range t.facts {
				ids[logText(f.id)]++
			}
			for _, f := range t.facts {
				ls := byID[logText(f.id)]
				d := J{"kind": f.kind, "method": f.method, "path": f.path, "code": f.code, "id": f.id, "site": si}
				if f.id == "" {
					c.Violate("no-request-id", d)
					continue
				}
				if ids[logText(f.id)] > 1 {
					c.Violate("request-id-shared", d)
					continue
				}
				switch {
				case len(ls) == 0:
					// tell a missing record from one with a wrong id
					for _, l := range t.s.Served() {
						if samePath(l.S("dwnReqPath"), f.path) {
							d["records-of-path"] = l
						}
					}
					c.Violate("no-record", d)
					continue
				case len(ls) > 1:
					d["records"] = ls
					c.Violate("several-records", d)
					continue
				}
				c.judgeRecord(t.s, f, ls[0])
			}
			if abandoned > t.extra {
				c.Violate("surplus-records", J{"records": n, "answered": want, "abandoned": t.extra})
			}
			// abandoned requests never have more than one record each
			for id, ls := range byID {
				if ids[id] == 0 && len(ls) > 1 {
					c.Violate("several-records", J{"records": ls})
				}
			}
			t.s.mu.Lock()
			dups := append([]string(nil), t.s.dups...)
			t.s.mu.Unlock()
			if len(dups) > 0 {
				c.Violate("duplicate-key", J{"record": dups[0], "n": len(dups)})
			}
			for _, r := range t.s.Raw() {
				c.Violate("not-a-record", J{"line": r})
				break
			}
			c.checkHealth(t.s)
		}
		if len(plain.facts) > 0 {
			f := plain.facts[rand.New(rand.NewSource(c.Seed)).Intn(len(plain.facts))]
			c.Sample(J{"kind": f.kind, "path": f.path, "code": f.code, "records": plain.s.served(f.path)})
		}
	})
}
