package main

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C36: what a request gets does not depend on the requests before it.

// c36norm is all of an exchange that must not change with history: the response, and what upstream saw of it.
func c36norm(r *Resp, ups []*UpReq, id string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %d\n", r.Proto, r.Code)
	body := r.Body
	if d, err := r.decode(); err == nil {
		body = d
	}
	canned := strings.Contains(string(body), "\"serverID\"") || strings.Contains(string(body), "\"ServerID\"") || strings.Contains(string(body), "serverid")
	var hs []string
	for _, h := range r.H {
		k := strings.ToLower(h.K)
		if k == "date" || (canned && k == "content-length") {
			continue
		}
		hs = append(hs, k+": "+h.V)
	}
	sort.Strings(hs)
	b.WriteString(strings.Join(hs, "\n"))
	s := string(body)
	if canned {
		// a greeting is drawn at random
		for _, g := range []string{"\"j8a\":\"", "\"J8a\":\""} {
			if i := strings.Index(s, g); i >= 0 {
				j := strings.Index(s[i+len(g):], "\"")
				if j >= 0 {
					s = s[:i+len(g)] + "*" + s[i+len(g)+j:]
				}
			}
		}
	}
	fmt.Fprintf(&b, "\n\n%s\n", s)
	for i, q := range ups {
		var hs []string
		for _, h := range q.H {
			hs = append(hs, strings.ToLower(h.K)+": "+h.V)
		}
		sort.Strings(hs)
		fmt.Fprintf(&b, "attempt %d at %s: %s %s\n%s\n%q\n", i+1, q.Up, q.Method, q.Target, strings.Join(hs, "\n"), q.Body)
	}
	return strings.ReplaceAll(b.String(), id, "@")
}

type c36site struct {
	name string
	s    *Server
	p    *pki
	h2   *h2Client
	sc   *scripted
	ups  []*Upstream
	tok  string
	dead int
}

func init() {
	register("C36", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "a plain and a TLS server (HTTP/1.1 and 2); 38 kinds of exchange (27 outcomes of C22 and C26, transform, policy, bodies, gzip both ways, large answers) are recorded on the fresh process, then repeated at checkpoints of a history of mixed, concurrent requests: successes and failures of all kinds, aborted and malformed ones, on kept and new connections, with many distinct paths, ids, tokens and sizes; response and everything upstream received must be identical; key = site, kind, checkpoint"
		bin := c.buildJ8a(false)
		rng := c.Rng("history")
		dead := c.deadPort()
		tok := hs256(kitchenSecret, nil, J{"sub": "x", "exp": time.Now().Add(12 * time.Hour).Unix()})
		mk := func(name string, tlsMode bool) *c36site {
			t := &c36site{name: name, sc: newScripted(nil), tok: tok, dead: dead}
			h := func(r *UpReq, w *UpConn) {
				if strings.HasPrefix(r.Case(), "p") {
					t.sc.Handle(r, w)
					return
				}
				c36load(r, w)
			}
			a, b := c.newUpstream("a", h), c.newUpstream("b", h)
			t.ups = []*Upstream{a, b}
			load := func(r *UpReq) bool { return !strings.HasPrefix(r.Case(), "p") }
			a.NoRecord, b.NoRecord = load, load
			down, o := J{"maxBodyBytes": 1000}, StartOpt{Bin: bin, Level: "WARN", TLS: tlsMode}
			if tlsMode {
				t.p = newPKI()
				down = t.p.down(down)
			}
			cfg := c.kitchenCfg(down, J{"maxAttempts": 3, "readTimeoutSeconds": 1, "poolSize": 64}, a, dead)
			cfg["policies"] = J{"nope": A{J{"label": "absent", "weight": 1.0}}, "b": A{J{"label": "blue", "weight": 1.0}}}
			cfg["resources"].(J)["two"] = A{labelled(a, "green"), labelled(b, "blue")}
			cfg["routes"] = append(cfg["routes"].(A), J{"path": "/pol/", "resource": "two", "policy": "b"}, J{"path": "/first/", "resource": "two"}, J{"path": "/tr/", "resource": "r", "transform": "/other/place"}, J{"path": "/r/deep/er/", "resource": "two", "policy": "b"})
			t.s = c.start(cfg, o)
			if tlsMode {
				t.h2 = t.s.h2(t.p.client())
			}
			return t
		}
		sites := []*c36site{mk("plain", false), mk("tls", true)}

		kinds := respKinds()
		ok := answerClose(200, hv("X-A", "1", "x-a", "2", "Content-Type", "text/plain", "Set-Cookie", "a=b", "Set-Cookie", "c=d"), []byte("body"))
		big := strings.Repeat("0123456789abcdef", 40000)
		kinds = append(kinds,
			respKind{name: "policy", method: "GET", target: "/pol/@?a=b&c=%2f", steps: []Step{ok}},
			respKind{name: "policy-retry", method: "PUT", target: "/pol/@", body: []byte("abc"), steps: []Step{answerClose(500, nil, nil), ok}},
			respKind{name: "first", method: "GET", target: "/first/@", steps: []Step{ok}},
			respKind{name: "deeper", method: "GET", target: "/r/deep/er/@", steps: []Step{ok}},
			respKind{name: "transform", method: "GET", target: "/tr/@/x%20y?q=1&x=/tr", steps: []Step{ok}},
			respKind{name: "big", method: "GET", target: "/r/@", steps: []Step{answerClose(200, nil, []byte(big))}},
			respKind{name: "big-gzip", method: "GET", target: "/r/@", hs: hv("Accept-Encoding", "gzip"), steps: []Step{answerClose(200, nil, []byte(big))}},
			respKind{name: "gunzip", method: "GET", target: "/r/@", steps: []Step{answerClose(200, hv("Content-Encoding", "gzip"), gzipBytes([]byte(big)))}},
			respKind{name: "gzip-pass", method: "GET", target: "/r/@", hs: hv("Accept-Encoding", "gzip"), steps: []Step{answerClose(200, hv("Content-Encoding", "gzip"), gzipBytes([]byte("small")))}},
			respKind{name: "full-body", method: "POST", target: "/r/@?x", hs: hv("X-Many", "1", "X-Many", "2"), body: []byte(strings.Repeat("b", 1000)), steps: []Step{ok}},
			respKind{name: "4xx-unnamed", method: "GET", target: "/r/@", steps: []Step{answerClose(477, nil, []byte("gone"))}},
		)
		var seq atomic.Int64
		probe := func(t *c36site, ki int, ver string) (string, *Resp, error) {
			k := kinds[ki]
			id := fmt.Sprintf("p%05d.", seq.Add(1))
			hs := hv("X-Case", id, "X-Request-Id", "probe-"+id, "User-Agent", "vh", "Accept", "*/*")
			acc := false
			for _, h := range k.hs {
				if h.V == "@token" {
					h.V = "Bearer " + t.tok
				}
				acc = acc || h.K == "Accept-Encoding"
				hs = append(hs, h)
			}
			if !acc {
				hs = append(hs, HV{"Accept-Encoding", "identity"})
			}
			if len(k.steps) > 0 {
				t.sc.Set(id, k.steps...)
			}
			target := strings.ReplaceAll(k.target, "@", id)
			var r *Resp
			var err error
			if ver == "2" {
				r, err = t.h2.ex(k.method, target, hs, k.body)
			} else {
				var tc *tls.Config
				if t.p != nil {
					tc = t.p.client()
				}
				cl, e := dial(t.s.Addr, tc)
				if e != nil {
					return "", nil, e
				}
				defer cl.Close()
				raw := reqText(k.method, target, hs, k.body)
				go cl.Send(raw)
				r, err = cl.Read(k.method, watchdog)
			}
			if err != nil {
				return "", r, err
			}
			var us []*UpReq
			for _, u := range t.ups {
				for _, q := range u.Reqs() {
					if q.Case() == id {
						us = append(us, q)
					}
				}
			}
			sort.Slice(us, func(i, j int) bool { return us[i].T < us[j].T })
			return c36norm(r, us, id), r, nil
		}
		type pk struct {
			t   *c36site
			k   int
			ver string
		}
		var probes []pk
		for _, t := range sites {
			for i := range kinds {
				probes = append(probes, pk{t, i, "1.1"})
				if t.h2 != nil && !kinds[i].h1 {
					probes = append(probes, pk{t, i, "2"})
				}
			}
		}
		base := make([]string, len(probes))
		round := func(at string, first bool) {
			c.Par(len(probes), 24, func(i int) {
				p := probes[i]
				d := J{"site": p.t.name, "kind": kinds[p.k].name, "version": p.ver, "after": at}
				var got string
				var r *Resp
				var err error
				for try := 0; try < 2; try++ {
					got, r, err = probe(p.t, p.k, p.ver)
					// once more where time is part of the outcome and the machine may have been slow
					if err == nil && (first || got == base[i] || !kinds[p.k].slow) {
						break
					}
				}
				if err == errWatchdog && p.t.s.controlOK(3) {
					err = errNoAnswer
				}
				if !c.judge("probe", r, err, d) {
					return
				}
				if first {
					base[i] = got
				} else if base[i] == "" {
					return
				} else if got != base[i] {
					d["was"], d["is"] = clip([]byte(base[i])), clip([]byte(got))
					d["differs"] = diffLines(base[i], got)
					c.Violate("history", d)
					return
				}
				c.Case(fmt.Sprintf("%s %s h%s after %s", p.t.name, kinds[p.k].name, p.ver, at))
			})
		}
		round("0 requests", true)
		round("a round", false)
		marks := []int{300, 2000, 10000, 140000}
		if c.Thorough() {
			marks = append(marks, 400000, 1000000)
		}
		sent := 0
		for _, m := range marks {
			var wg sync.WaitGroup
			var n atomic.Int64
			each := (m - sent) / 2
			for _, t := range sites {
				t := t
				for w := 0; w < 16; w++ {
					r := rand.New(rand.NewSource(rng.Int63()))
					wg.Add(1)
					go func(share int) {
						defer wg.Done()
						n.Add(int64(t.load(c, r, share)))
					}(each/16 + 1)
				}
			}
			wg.Wait()
			sent += int(n.Load())
			c.Count("history_requests", int(n.Load()))
			for _, t := range sites {
				c.checkHealth(t.s)
			}
			if c.Violations() > 0 {
				return
			}
			round(fmt.Sprintf("%d requests", m), false)
		}
	})
}

func diffLines(a, b string) []string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := map[string]int{}
	for _, l := range x {
		in[l]++
	}
	var out []string
	for _, l := range y {
		if in[l] > 0 {
			in[l]--
		} else {
			out = append(out, "+"+clip([]byte(l)))
		}
	}
	for _, l := range x {
		if in[l] > 0 {
			in[l]--
			out = append(out, "-"+clip([]byte(l)))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// c36load answers the requests of the history as their case field asks.
func c36load(r *UpReq, w *UpConn) {
	switch m := r.Case(); {
	case strings.HasPrefix(m, "500"):
		w.Reply(r, 500, hv("X-H", "1"), []byte("no"))
	case strings.HasPrefix(m, "503"):
		w.Reply(r, 503, nil, nil)
	case strings.HasPrefix(m, "404"):
		w.Reply(r, 404, hv("X-H", "2"), []byte("missing"))
	case strings.HasPrefix(m, "302"):
		w.Reply(r, 302, hv("Location", "/x"), nil)
	case strings.HasPrefix(m, "204"):
		w.Reply(r, 204, nil, nil)
	case strings.HasPrefix(m, "drop"):
		w.Reset()
	case strings.HasPrefix(m, "cut"):
		body := "half"
		if r.Method == "HEAD" { // what follows would be an answer to nothing
			body = ""
		}
		w.Send("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 100\r\n\r\n" + body)
		w.Done()
	case strings.HasPrefix(m, "junk"):
		w.Send("not http\r\n\r\n")
		w.Done()
	case strings.HasPrefix(m, "gz"):
		w.Reply(r, 200, hv("Content-Encoding", "gzip"), gzipBytes([]byte(m+strings.Repeat("z", 2000))))
	case strings.HasPrefix(m, "big"):
		w.Reply(r, 200, hv("Set-Cookie", m), []byte(strings.Repeat(m, 3000)))
	default:
		w.Reply(r, 200, hv("X-H", m), []byte(m))
	}
}

// load sends n requests of a history and returns how many were sent.
func (t *c36site) load(c *Ctx, r *rand.Rand, n int) int {
	var tc *tls.Config
	if t.p != nil {
		tc = t.p.client()
		tc.ClientSessionCache = tls.NewLRUClientSessionCache(2)
	}
	modes := []string{"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "204", "302", "404", "404", "500", "503", "drop", "cut", "junk", "gz", "gz", "big"}
	prefix := []string{"/r/", "/r/", "/r/", "/r/", "/pol/", "/first/", "/tr/", "/jwt/", "/jwt/", "/none/", "/about", "/nolabel/", "/nores/", "/r/deep/er/"}
	sent := 0
	for sent < n {
		d := net.Dialer{Timeout: 20 * time.Second}
		var cn net.Conn
		var err error
		cn, err = d.Dial("tcp", t.s.Addr)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return sent
		}
		if tc != nil {
			tl := tls.Client(cn, tc)
			if err := tl.Handshake(); err != nil {
				cn.Close()
				c.Inconclusive("handshake: %v", err)
				return sent
			}
			cn = tl
		}
		cn.SetDeadline(time.Now().Add(watchdog))
		br := bufio.NewReader(cn)
		for k := 1 + r.Intn(120); k > 0 && sent < n; k-- {
			sent++
			mode := pick(r, modes)
			id := fmt.Sprintf("%s-%s", mode, token(r, 6))
			m := pick(r, []string{"GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"})
			p := pick(r, prefix)
			if p != "/about" {
				p += id
			}
			hs := hv("X-Case", id)
			if r.Intn(3) == 0 {
				hs = append(hs, HV{"Accept-Encoding", "gzip"})
			}
			if r.Intn(4) == 0 {
				hs = append(hs, HV{"X-Request-Id", id})
			}
			want := map[string]int{"ok": 200, "204": 204, "302": 302, "404": 404, "gz": 200, "big": 200}[mode]
			if want == 0 {
				want = 502
			}
			if mode == "cut" && m == "HEAD" {
				want = 200
			}
			switch {
			case strings.HasPrefix(p, "/none"):
				want = 404
			case strings.HasPrefix(p, "/no"):
				want = 503
			case p == "/about":
				want = 200
			}
			if strings.HasPrefix(p, "/jwt/") {
				switch r.Intn(4) {
				case 0:
					want = 401
				case 1:
					want = 401
					hs = append(hs, HV{"Authorization", "Bearer " + hs256("wrong", J{"kid": id}, J{"exp": time.Now().Unix() + 99})})
				default:
					hs = append(hs, HV{"Authorization", "Bearer " + t.tok})
				}
			}
			hs = append(hs, noise(r, noiseReqs, 2, nil)...)
			var body []byte
			if m != "GET" && m != "HEAD" && r.Intn(2) == 0 {
				if body = randBytes(r, 1+r.Intn(1100)); len(body) > 1000 && p != "/about" {
					want = 413
				}
			}
			raw := reqText(m, p, hs, body)
			stop := false
			switch r.Intn(60) {
			case 0: // client goes away
				raw = raw[:r.Intn(len(raw))]
				stop = true
			case 1:
				raw = pick(r, []string{"\x00\x01\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", "PATCH /r/x HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "POST /r/x HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\nzz\r\n", "GET /r/x HTTP/1.0\r\nX-Case: ok\r\n\r\n"})
				stop = true
				io.WriteString(cn, raw)
				io.Copy(io.Discard, br)
				raw = ""
			case 2:
				stop = true // not read
			}
			if raw != "" {
				io.WriteString(cn, raw)
			}
			if stop {
				break
			}
			resp, err := readResponse(br, m)
			if err == nil && resp.Code != want || err == nil && want == 200 && mode == "ok" && m != "HEAD" && p != "/about" && !bodyIs(resp, id) {
				c.Violate("history-request", J{"site": t.name, "method": m, "target": p, "headers": clipH(hs), "bytes": len(body), "code": resp.Code, "expected": want, "mode": mode, "got": clip(resp.Body)})
			}
			if err != nil || resp == nil || strings.EqualFold(resp.H.Get("Connection"), "close") {
				break
			}
		}
		cn.Close()
	}
	return sent
}

func bodyIs(r *Resp, s string) bool {
	b, err := r.decode()
	return err == nil && string(b) == s
}
