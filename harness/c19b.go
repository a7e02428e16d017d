package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"
)

// c19ctx is a way of asking under which draws must have the configured weights and be independent like under any other.
type c19ctx struct {
	name  string
	route string // one of those below, or alternating "a|b"
	mk    func(rng *rand.Rand, conn, k int) (method, target string, hs Headers, body []byte)
	h2    bool   // over HTTP/2, streams in parallel
	fresh bool   // a connection for each request
	from  string // client address
	ver10 bool
	n     int
}

// c19contexts draws from one policy in many ways: a client, a token, a path, a protocol or the state of an upstream must make no
// difference. What was drawn is told by the upstream that received the request.
func c19contexts(c *Ctx, bin string) {
	const a, b, d = 0.3, 0.5, 0.2
	weights := []float64{a, b, d}
	var mu sync.Mutex
	drawn := map[string]int{}
	twice := map[string]bool{}
	mkUp := func(k int) *Upstream {
		u := c.newUpstream(fmt.Sprint(k), func(r *UpReq, w *UpConn) {
			id := r.Case()
			mu.Lock()
			if o, ok := drawn[id]; ok && o != k {
				twice[id] = true
			}
			drawn[id] = k
			mu.Unlock()
			switch {
			case strings.Contains(r.Target, "/allfail/"), k == 0 && strings.Contains(r.Target, "/fail0/"):
				w.Reply(r, 500, nil, []byte("no"))
			case k == 1 && strings.Contains(r.Target, "/cut1/"):
				w.Send("HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nab")
				w.Done()
			case strings.Contains(r.Target, "/none/"):
				w.Reply(r, 404, nil, []byte("no"))
			case k == 1 && strings.Contains(r.Target, "/slow1/"):
				time.Sleep(10 * time.Millisecond)
				w.Reply(r, 200, nil, []byte("ok"))
			default:
				w.Reply(r, 200, nil, []byte("ok"))
			}
		})
		u.keep = false
		return u
	}
	ups := []*Upstream{mkUp(0), mkUp(1), mkUp(2)}
	dead := c.deadPort()
	cfg := J{
		"policies": J{
			"p": A{J{"label": "a", "weight": a}, J{"label": "b", "weight": b}},
			"q": A{J{"label": "b", "weight": b}, J{"label": "default", "weight": d}, J{"label": "a", "weight": a}},
		},
		"jwt": J{"hs": J{"alg": "HS256", "key": kitchenSecret}},
		"routes": A{
			J{"path": "/p/", "resource": "r", "policy": "p"},
			J{"path": "/same/", "resource": "r", "policy": "p"},
			J{"path": "/other/", "resource": "s", "policy": "p"},
			J{"path": "/q/", "resource": "r", "policy": "q"},
			J{"path": "/re[0-9]+x/", "resource": "r", "policy": "p"},
			J{"path": "/t/", "resource": "r", "policy": "p", "transform": "/tt/"},
			J{"path": "/jwt/", "resource": "r", "policy": "p", "jwt": "hs"},
			J{"path": "/dead/", "resource": "dead", "policy": "p"},
		},
		"resources": J{
			"r": A{labelled(ups[0], "a"), labelled(ups[1], "b"), labelled(ups[2], "default")},
			"s": A{labelled(ups[2], "x", "default"), labelled(ups[1], "b"), labelled(ups[0], "z", "a")},
			"dead": A{J{"labels": A{"a"}, "url": J{"scheme": "http", "host": "127.0.0.1", "port": dead}},
				labelled(ups[1], "b"), labelled(ups[2], "default")},
		},
		"connection": J{"upstream": J{"maxAttempts": 2}},
	}
	o := StartOpt{Bin: bin, Level: "WARN"}
	s := c.start(cfg, o)
	tw, h2 := c.tlsTwin(cfg, o, 4)
	get := func(hs ...string) func(*rand.Rand, int, int) (string, string, Headers, []byte) {
		return func(*rand.Rand, int, int) (string, string, Headers, []byte) { return "GET", "x", hv(hs...), nil }
	}
	meth := func(m string, body string) func(*rand.Rand, int, int) (string, string, Headers, []byte) {
		return func(*rand.Rand, int, int) (string, string, Headers, []byte) { return m, "x", nil, []byte(body) }
	}
	vary := func(f func(rng *rand.Rand, conn, k int) (string, Headers)) func(*rand.Rand, int, int) (string, string, Headers, []byte) {
		return func(rng *rand.Rand, conn, k int) (string, string, Headers, []byte) {
			t, hs := f(rng, conn, k)
			return "GET", t, hs, nil
		}
	}
	tok := hs256(kitchenSecret, nil, J{"sub": "x", "exp": time.Now().Add(time.Hour).Unix()})
	ctxs := []c19ctx{
		{name: "plain", mk: get()},
		{name: "same-id", mk: get("X-Request-Id", "one-and-the-same")},
		{name: "counted-id", mk: vary(func(_ *rand.Rand, conn, k int) (string, Headers) {
			return "x", hv("X-Request-Id", fmt.Sprintf("%d-%06d", conn, k))
		})},
		{name: "session-cookie", mk: get("Cookie", "JSESSIONID=0123456789; SERVERID=b; label=a")},
		{name: "user-agent", mk: get("User-Agent", "curl/8")},
		{name: "forwarded-for", mk: get("X-Forwarded-For", "192.0.2.1", "X-Real-Ip", "192.0.2.1", "Forwarded", "for=192.0.2.1")},
		{name: "host", mk: get("Host", "a.example")},
		{name: "naming-label", mk: get("X-Label", "a", "X-Policy", "a", "X-Canary", "true", "X-J8a-Label", "a")},
		{name: "debug", mk: get("X-Request-Debug", "true")},
		{name: "gzip", mk: get("Accept-Encoding", "gzip")},
		{name: "no-cache", mk: get("Cache-Control", "no-cache")},
		{name: "head", mk: meth("HEAD", "")},
		{name: "options", mk: meth("OPTIONS", "")},
		{name: "trace", mk: meth("TRACE", "")},
		{name: "delete", mk: meth("DELETE", "")},
		{name: "put", mk: meth("PUT", "some body")},
		{name: "post", mk: meth("POST", "some body")},
		{name: "paths", mk: vary(func(rng *rand.Rand, _, k int) (string, Headers) { return fmt.Sprintf("item/%d", k), nil })},
		{name: "queries", mk: vary(func(rng *rand.Rand, _, k int) (string, Headers) { return "x?label=a&n=" + token(rng, 8), nil })},
		{name: "fresh-connections", fresh: true, mk: get()},
		{name: "from-elsewhere", from: "127.7.7.7", mk: get()},
		{name: "http10", ver10: true, fresh: true, mk: get()},
		{name: "http2", h2: true, mk: get()},
		{name: "http2-post", h2: true, mk: meth("POST", "some body")},
		{name: "jwt", route: "jwt", mk: get("Authorization", "Bearer "+tok)},
		{name: "regex", route: "re7x", mk: get()},
		{name: "transform", route: "t", mk: get()},
		{name: "other-resource", route: "other", mk: get()},
		{name: "two-routes", route: "p|same", mk: get()},
		{name: "two-resources", route: "p|other", mk: get()},
		{name: "other-order", route: "q", mk: get()},
		{name: "two-policies", route: "p|q", mk: get()},
		{name: "errors", mk: vary(func(*rand.Rand, int, int) (string, Headers) { return "none/x", nil })},
		{name: "all-failing", mk: vary(func(*rand.Rand, int, int) (string, Headers) { return "allfail/x", nil })},
		{name: "one-failing", mk: vary(func(*rand.Rand, int, int) (string, Headers) { return "fail0/x", nil })},
		{name: "one-cut-off", mk: vary(func(*rand.Rand, int, int) (string, Headers) { return "cut1/x", nil })},
		{name: "one-slow", n: 1200, mk: vary(func(*rand.Rand, int, int) (string, Headers) { return "slow1/x", nil })},
		{name: "one-dead", route: "dead", mk: get()},
	}
	const conns = 6
	c.Par(len(ctxs), 8, func(i int) {
		x := ctxs[i]
		per := c.N(2400, 24000) / conns
		if x.n > 0 {
			per = c.N(x.n, 5*x.n) / conns
		}
		if x.fresh {
			per /= 2
		}
		routes := strings.Split(x.route, "|")
		if x.route == "" {
			routes = []string{"p"}
		}
		seqs := make([][]int, conns)
		var wg sync.WaitGroup
		for q := 0; q < conns; q++ {
			q := q
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := c.Rng(fmt.Sprintf("ctx%d-%d", i, q))
				var cl *Client
				defer func() {
					if cl != nil {
						cl.Close()
					}
				}()
				for k := 0; k < per; k++ {
					m, t, hs, body := x.mk(rng, q, k)
					id := fmt.Sprintf("b%d-%d-%d", i, q, k)
					hs = append(append(Headers{}, hs...), HV{"X-Case", id})
					tgt := "/" + routes[k%len(routes)] + "/" + t
					var rp *Resp
					var err error
					if x.h2 {
						rp, err = h2.ex(m, tgt, hs, body)
					} else {
						for try := 0; try < 3; try++ {
							if cl == nil {
								dl := &net.Dialer{Timeout: 20 * time.Second}
								if x.from != "" {
									dl.LocalAddr = &net.TCPAddr{IP: net.ParseIP(x.from)}
								}
								var cn net.Conn
								if cn, err = dl.Dial("tcp", s.Addr); err != nil {
									continue
								}
								cl = newClient(cn)
							}
							txt := reqText(m, tgt, hs, body)
							if x.ver10 {
								txt = strings.Replace(txt, " HTTP/1.1\r\n", " HTTP/1.0\r\n", 1)
							}
							cl.Send(txt)
							rp, err = cl.Read(m, watchdog)
							if err != nil || rp.Err != nil || x.fresh || strings.EqualFold(rp.H.Get("Connection"), "close") {
								cl.Close()
								cl = nil
							}
							if err == nil && rp.Err == nil {
								break
							}
						}
					}
					if err != nil || rp == nil || rp.Err != nil {
						c.Inconclusive("contexts %s: %v", x.name, err)
						return
					}
					mu.Lock()
					got, ok := drawn[id]
					tw := twice[id]
					delete(drawn, id)
					mu.Unlock()
					if tw {
						c.Violate("attempts-spread-over-upstreams", J{"context": x.name, "request": tgt})
						return
					}
					if !ok {
						if x.route == "dead" && rp.Code == 502 {
							got = 0
						} else {
							c.Violate("drawn-nothing", J{"context": x.name, "code": rp.Code, "method": m, "target": tgt})
							return
						}
					}
					seqs[q] = append(seqs[q], got)
				}
			}()
		}
		wg.Wait()
		cnt, n := make([]int, 3), 0
		for _, sq := range seqs {
			for _, g := range sq {
				cnt[g]++
				n++
			}
		}
		det := J{"context": x.name, "weights": weights, "counts": cnt}
		for l, w := range weights {
			if klTail(cnt[l], n, w) > klLimit {
				c.Violate("frequency-in-context", det)
			}
			// consecutive draws of a connection
			for _, lag := range []int{1, 2, 3} {
				k, m := 0, 0
				for _, sq := range seqs {
					for e := 0; e+2*lag <= len(sq); e += 2 * lag {
						for f := 0; f < lag; f++ {
							m++
							if sq[e+f] == l && sq[e+f+lag] == l {
								k++
							}
						}
					}
				}
				if klTail(k, m, w*w) > klLimit {
					det["lag"], det["pairs"], det["of"], det["label"] = lag, k, m, l
					c.Violate("draws-not-independent-in-context", det)
				}
			}
			// draws of connections side by side
			k, m := 0, 0
			for q := 0; q+1 < conns; q += 2 {
				for e := 0; e < min(len(seqs[q]), len(seqs[q+1])); e++ {
					m++
					if seqs[q][e] == l && seqs[q+1][e] == l {
						k++
					}
				}
			}
			if klTail(k, m, w*w) > klLimit {
				det["side-by-side"], det["of"], det["label"] = k, m, l
				c.Violate("draws-not-independent-across-connections", det)
			}
			// each connection by itself
			for _, sq := range seqs {
				k := 0
				for _, g := range sq {
					if g == l {
						k++
					}
				}
				if klTail(k, len(sq), w) > klLimit {
					det["connection"] = k
					c.Violate("frequency-of-connection", det)
				}
			}
		}
		c.Case("context " + x.name)
		c.Count("draws_in_contexts", n)
	})
	c.checkHealth(s)
	c.checkHealth(tw)
}
