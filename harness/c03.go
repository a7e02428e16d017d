package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// C03: method, headers and body of every upstream attempt equal the client's.

func c03headers(r *rand.Rand) (Headers, map[string]bool) {
	var h Headers
	hop := map[string]bool{}
	names := []string{"X-A", "x-b", "X-Multi", "x-MULTI", "Cookie", "Accept", "Accept-Encoding", "Content-Type", "Authorization", "User-Agent", "If-None-Match", "Range", "X-Forwarded-For", "Forwarded", "Via", "Origin", "Referer", "Cache-Control", "X_Under", "!#$%&'*+-.^_`|~", "X-Long", "X-Empty", "X-Request-Debug", "Accept-Language"}
	n := r.Intn(14)
	huge := false
	seenUA := false
	for i := 0; i < n; i++ {
		k := pick(r, names)
		v := token(r, 1+r.Intn(20))
		switch {
		case k == "User-Agent":
			if seenUA {
				continue
			}
			seenUA = true
		case k == "Accept-Encoding":
			v = pick(r, []string{"gzip", "identity", "br, gzip;q=0.5", "*", "deflate"})
		case k == "X-Long":
			v = token(r, 3000+r.Intn(20000))
			if !huge && r.Intn(30) == 0 {
				huge = true
				v = token(r, 60000+r.Intn(600000))
			}
		case k == "X-Empty":
			v = ""
		case k == "Range":
			v = "bytes=0-5"
		case k == "Content-Type":
			v = "application/json; charset=utf-8"
		case k == "X-A":
			v = pick(r, []string{"a, b;c=\"d e\"", "\xc3\xa4\xff\x80", "a\tb  c", "<>{}[]@:/?", "%00%0d%0a", "=?utf-8?q?x?="})
		}
		h = append(h, HV{k, v})
	}
	if r.Intn(25) == 0 { // many
		for n := pick(r, []int{40, 100, 130, 300}); n > 0; n-- {
			h = append(h, HV{pick(r, []string{"X-Many", fmt.Sprintf("X-Many-%d", n), "Cookie"}), token(r, 1+r.Intn(90))})
		}
	}
	if r.Intn(3) == 0 {
		var toks []string
		for _, k := range []string{"X-Hop1", "x-hop-two"} {
			if r.Intn(2) == 0 {
				toks = append(toks, k)
				hop[strings.ToLower(k)] = true
				h = append(h, HV{k, token(r, 5)})
			}
		}
		toks = append(toks, pick(r, []string{"keep-alive", "close", "Keep-Alive , x-unused"}))
		r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
		if r.Intn(2) == 0 {
			h = append(h, HV{"Connection", strings.Join(toks, ", ")})
		} else {
			for _, t := range toks {
				h = append(h, HV{"Connection", t})
			}
		}
	}
	for _, k := range []string{"Keep-Alive", "Proxy-Connection", "Proxy-Authorization", "TE", "Trailer", "Upgrade", "Proxy-Authenticate"} {
		if r.Intn(8) == 0 {
			h = append(h, HV{k, pick(r, []string{"trailers", "x", "timeout=5"})})
		}
	}
	r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
	return h, hop
}

var c03hop = map[string]bool{"connection": true, "keep-alive": true, "proxy-connection": true, "proxy-authorization": true, "proxy-authenticate": true, "te": true, "trailer": true, "upgrade": true, "transfer-encoding": true}

// values maps lower-case names to their values in order.
func (h Headers) values() map[string][]string {
	m := map[string][]string{}
	for _, x := range h {
		k := strings.ToLower(x.K)
		m[k] = append(m[k], x.V)
	}
	return m
}

func c03compare(sent Headers, hop map[string]bool, got Headers) string {
	sv, gv := sent.values(), got.values()
	for k, v := range sv {
		if c03hop[k] || hop[k] {
			if k == "transfer-encoding" {
				continue
			}
			if len(gv[k]) > 0 {
				return fmt.Sprintf("hop-by-hop %s forwarded", k)
			}
			continue
		}
		if k == "host" || k == "content-length" || k == "date" || k == "server" || k == "expect" {
			continue
		}
		if fmt.Sprintf("%q", gv[k]) != fmt.Sprintf("%q", v) {
			return fmt.Sprintf("header %s: sent %.200q arrived %.200q", k, v, gv[k])
		}
	}
	for k := range gv {
		if _, ok := sv[k]; ok {
			continue
		}
		switch k {
		case "host", "content-length", "user-agent", "x-request-id", "accept-encoding", "transfer-encoding":
		default:
			return fmt.Sprintf("header %s invented: %q", k, gv[k])
		}
	}
	if len(gv["x-request-id"]) != 1 || gv["x-request-id"][0] == "" {
		return fmt.Sprintf("x-request-id %q", gv["x-request-id"])
	}
	return ""
}

func init() {
	register("C03", func(c *Ctx) {
		c.rule = "random method x header multiset (repeats, odd bytes, empty, long, hop-by-hop and Connection-named) x body (0..5 MB, declared or chunked with random chunk sizes, sent in segments) x 0-3 failing attempts of 4 kinds; every arriving attempt compared byte for byte; key = method x framing x size class x attempts x failure kind"
		c.assume = []string{"User-Agent and Accept-Encoding may be added if the client sent none", "the body may be re-framed", "Date, Server and Expect are not compared"}
		bin := c.buildJ8a(false)
		rng := c.Rng("reqs")
		sc := newScripted(nil)
		up := c.newUpstream("u", sc.Handle)
		cfg := simpleCfg(J{"maxBodyBytes": 6000000}, J{"maxAttempts": 4}, up)
		s := c.start(cfg, StartOpt{Bin: bin, Level: "INFO"})
		s2, front := c.tlsTwin(cfg, StartOpt{Bin: bin, Level: "INFO"}, 4)
		fails := map[string]Step{
			"503":   answerClose(503, nil, []byte("no")),
			"reset": func(r *UpReq, w *UpConn) { w.Reset() },
			"close": func(r *UpReq, w *UpConn) { w.Done() },
			"trunc": func(r *UpReq, w *UpConn) {
				if r.Method != "HEAD" { // complete without body there
					w.Send("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nshort")
				}
				w.Done()
			},
		}
		fnames := []string{"503", "reset", "close", "trunc"}
		type cs struct {
			id, m, fr, fk string
			h             Headers
			hop           map[string]bool
			body          []byte
			fail          int
			raw           string
			cuts          []int
			h2            bool
			pad           int
		}
		var cases []cs
		rep := []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE"}
		for i := 0; i < c.N(2500, 25000); i++ {
			k := cs{id: fmt.Sprintf("c%d.", i)}
			k.h, k.hop = c03headers(rng)
			for _, x := range c.noiseReq(k.id) {
				if !k.h.Has(x.K) && !k.hop[strings.ToLower(x.K)] {
					k.h = append(k.h, x)
				}
			}
			k.h = append(k.h, HV{"X-Case", k.id})
			if rng.Intn(3) == 0 {
				k.m = "POST"
			} else {
				k.m = pick(rng, rep)
				k.fail = []int{0, 0, 1, 2, 3}[rng.Intn(5)]
			}
			k.fk = pick(rng, fnames)
			if rng.Intn(4) == 0 && k.m != "POST" && k.m != "PUT" {
				// no body
			} else if k.m != "TRACE" && k.m != "HEAD" { // net/http clients and servers refuse bodies there
				n := pick(rng, []int{0, 1, 2, 3, 100, 511, 512, 4095, 4096, 4097, 8192, 65536, 299999, 300000, 1 + rng.Intn(300000), rng.Intn(5000)})
				if i%100 == 9 {
					n = pick(rng, []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 21, 1<<22 + 5, 300001 + rng.Intn(5000000)})
				}
				k.body = randBody(rng, n)
			}
			k.fr = "none"
			if k.h2 = i%4 == 3; k.h2 {
				k.h, k.hop = h2able(k.h), nil
				if k.body != nil {
					k.fr = pick(rng, []string{"length", "stream"})
					k.pad = pick(rng, []int{0, 0, 1, 255})
					for j := rng.Intn(4); j > 0; j-- {
						k.cuts = append(k.cuts, rng.Intn(len(k.body)+1))
					}
				}
				cases = append(cases, k)
				continue
			}
			hh := k.h
			if k.body != nil {
				if rng.Intn(2) == 0 {
					k.fr = "length"
					hh = append(append(Headers{}, hh...), HV{"Content-Length", fmt.Sprint(len(k.body))})
					k.raw = reqText(k.m, "/x/"+k.id, hh, k.body)
				} else {
					k.fr = "chunked"
					var sz []int
					for j := 0; j < 1+rng.Intn(4); j++ {
						sz = append(sz, pick(rng, []int{1 + rng.Intn(50), 4096, 1 + rng.Intn(100000)}))
					}
					hh = append(append(Headers{}, hh...), HV{"Transfer-Encoding", "chunked"})
					k.raw = reqText(k.m, "/x/"+k.id, hh, nil) + chunked(k.body, sz)
				}
			} else {
				k.raw = reqText(k.m, "/x/"+k.id, hh, nil)
			}
			for j := rng.Intn(4); j > 0; j-- {
				k.cuts = append(k.cuts, rng.Intn(len(k.raw)))
			}
			cases = append(cases, k)
		}
		c.Par(len(cases), 12, func(i int) {
			k := cases[i]
			var st []Step
			for j := 0; j < k.fail; j++ {
				st = append(st, fails[fnames[(indexOf(fnames, k.fk)+j)%len(fnames)]])
			}
			sc.Set(k.id, append(st, answerClose(200, hv("Set-Cookie", "vh=1; Path=/", "Set-Cookie", "vh2=2"), []byte("ok")))...)
			var r *Resp
			var err error
			proto := "h1"
			if k.h2 {
				proto = "h2"
				r, err = front.exBody(k.m, "/x/"+k.id, k.h, k.body, k.fr == "length", k.cuts, k.pad)
			} else {
				cl, e := dial(s.Addr, nil)
				if e != nil {
					c.Inconclusive("dial %v", e)
					return
				}
				go func() {
					rest := k.raw
					for _, ct := range k.cuts {
						if ct < len(rest) {
							cl.Send(rest[:ct])
							rest = rest[ct:]
							time.Sleep(2 * time.Millisecond)
						}
					}
					cl.Send(rest)
				}()
				r, err = cl.Read(k.m, watchdog)
				cl.Close()
			}
			det := J{"proto": proto, "method": k.m, "headers": clipH(k.h), "framing": k.fr, "bodyLen": len(k.body), "failing": k.fail, "kind": k.fk}
			if !c.judge("req", r, err, det) {
				return
			}
			got := up.ForCase(k.id)
			det["code"], det["attempts"] = r.Code, len(got)
			if r.Code != 200 || len(got) != k.fail+1 {
				c.Violate("not-proxied", det)
				return
			}
			for n, g := range got {
				det["attempt"] = n + 1
				if g.Method != k.m {
					det["got"] = g.Method
					c.Violate("method", det)
					return
				}
				if g.BodyErr != nil || !bytes.Equal(g.Body, k.body) {
					det["gotLen"], det["err"] = len(g.Body), fmt.Sprint(g.BodyErr)
					c.Violate("body", det)
					return
				}
				sent := k.h
				if k.h2 {
					sent = h2joined(sent)
				}
				if d := c03compare(sent, k.hop, g.H); d != "" {
					det["diff"] = d
					c.Violate("headers", det)
					return
				}
				c.Count("attempts", 1)
			}
			fk := k.fk
			if k.fail == 0 {
				fk = ""
			}
			c.Case(fmt.Sprintf("%s %s %s size=%s attempts=%d %s", proto, k.m, k.fr, sizeClass(len(k.body)), k.fail+1, fk))
			if i < 3 {
				c.Sample(det)
			}
			up.ForgetPrefix(k.id)
		})
		c.bigUploads(bin)
		c.checkHealth(s)
		c.checkHealth(s2)
	})
}

// h2able leaves out what HTTP/2 does not allow in a request.
func h2able(h Headers) Headers {
	var o Headers
	for _, x := range h {
		switch k := strings.ToLower(x.K); k {
		case "connection", "keep-alive", "proxy-connection", "transfer-encoding", "upgrade", "http2-settings":
			continue
		case "te":
			if x.V != "trailers" || o.Has("TE") {
				continue
			}
		case "trailer": // names of trailers to come
			continue
		}
		o = append(o, x)
	}
	return o
}

// h2joined: cookie fields of HTTP/2 are pieces of one.
func h2joined(h Headers) Headers {
	var o Headers
	at := -1
	for _, x := range h {
		if strings.EqualFold(x.K, "Cookie") {
			if at >= 0 {
				o[at].V += "; " + x.V
				continue
			}
			at = len(o)
		}
		o = append(o, x)
	}
	return o
}

func clipH(h Headers) []string {
	var o []string
	for _, x := range h {
		v := x.V
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		o = append(o, x.K+": "+v)
	}
	return o
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return -1
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 512:
		return "<512"
	case n <= 4096:
		return "<=4K"
	case n <= 65536:
		return "<=64K"
	}
	return ">64K"
}
