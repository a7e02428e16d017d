package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// C04: 2xx/3xx responses arrive with status, headers and content intact.

func c04headers(r *rand.Rand) (Headers, map[string]bool) {
	var h Headers
	hop := map[string]bool{}
	names := []string{"X-A", "x-b", "X-Multi", "x-MULTI", "Set-Cookie", "Set-Cookie", "Content-Type", "ETag", "Last-Modified", "Cache-Control", "Vary", "Link", "WWW-Authenticate", "Location", "X-Long", "X-Empty", "Server", "Date", "X-Request-Id", "Access-Control-Allow-Origin", "Age", "X_Under", "Via", "Allow", "Content-Language", "Content-Disposition", "X-Request-Debug", "Content-Location", "Retry-After"}
	n := r.Intn(16)
	huge := false
	ct := false
	for i := 0; i < n; i++ {
		k := pick(r, names)
		v := token(r, 1+r.Intn(20))
		switch k {
		case "Content-Type":
			if ct {
				continue
			}
			ct = true
			v = pick(r, []string{"application/json", "text/plain; charset=iso-8859-1", "application/octet-stream", "application/gzip"})
		case "X-Long":
			v = token(r, 3000+r.Intn(20000))
			if !huge && r.Intn(30) == 0 {
				huge = true
				v = token(r, 60000+r.Intn(r.Intn(4000000)+1))
			}
		case "X-Empty":
			v = ""
		case "Location":
			v = pick(r, []string{"http://127.0.0.1:@PORT@/redirected", "/redirected", "redirected?x=1", "//127.0.0.1:@PORT@/redirected"})
		case "X-A":
			v = pick(r, []string{"a, b;c=\"d e\"", "\xc3\xa4\xff\x80", "a\tb  c", "<>{}[]@:/?"})
		}
		h = append(h, HV{k, v})
	}
	if r.Intn(25) == 0 { // many
		for n := pick(r, []int{40, 100, 130, 300}); n > 0; n-- {
			h = append(h, HV{pick(r, []string{"X-Many", fmt.Sprintf("X-Many-%d", n), "Set-Cookie"}), token(r, 1+r.Intn(90))})
		}
	}
	if r.Intn(3) == 0 {
		k := pick(r, []string{"X-Hop1", "x-hop-two"})
		hop[strings.ToLower(k)] = true
		h = append(h, HV{k, token(r, 5)}, HV{"Connection", pick(r, []string{"keep-alive, " + k, k})})
	}
	for _, k := range []string{"Keep-Alive", "Proxy-Connection", "Proxy-Authenticate", "Upgrade", "Trailer"} {
		if r.Intn(8) == 0 {
			h = append(h, HV{k, pick(r, []string{"x", "timeout=5"})})
		}
	}
	r.Shuffle(len(h), func(i, j int) { h[i], h[j] = h[j], h[i] })
	return h, hop
}

func c04compare(sent Headers, hop map[string]bool, got Headers) string {
	sv, gv := sent.values(), got.values()
	for k, v := range sv {
		switch {
		case c03hop[k] || hop[k]:
			if k != "connection" && k != "transfer-encoding" && len(gv[k]) > 0 {
				return fmt.Sprintf("hop-by-hop %s forwarded", k)
			}
			for _, x := range gv["connection"] {
				if strings.Contains(strings.ToLower(x), "x-hop") {
					return "Connection forwarded"
				}
			}
		case k == "server", k == "date", k == "x-request-id", k == "content-length", k == "content-encoding":
			if k != "content-length" && k != "content-encoding" {
				for _, x := range gv[k] {
					for _, y := range v {
						if x == y {
							return "upstream's own " + k + " sent: " + x
						}
					}
				}
			}
		default:
			if fmt.Sprintf("%q", gv[k]) != fmt.Sprintf("%q", v) {
				return fmt.Sprintf("header %s: sent %.200q arrived %.200q", k, v, gv[k])
			}
		}
	}
	for k, v := range gv {
		if _, ok := sv[k]; ok {
			continue
		}
		switch k {
		case "server", "date", "x-request-id", "content-encoding", "content-length", "content-type", "connection":
		default:
			return fmt.Sprintf("header %s invented: %q", k, v)
		}
	}
	if len(gv["server"]) != 1 || !strings.HasPrefix(gv["server"][0], "j8a ") {
		return fmt.Sprintf("server header %q", gv["server"])
	}
	return ""
}

func init() {
	register("C04", func(c *Ctx) {
		c.rule = "random status 200-399 x header multiset x body (0..3 MB) x upstream framing (length, chunked with random chunks, close, HTTP/1.0) x segmentation x interim 1xx x client Accept-Encoding; key = status class x framing x size x accept x coding"
		c.assume = []string{"Content-Type may be added where upstream sent none", "body compared after undoing the declared coding"}
		bin := c.buildJ8a(false)
		rng := c.Rng("resps")
		sc := newScripted(nil)
		up := c.newUpstream("u", sc.Handle)
		cfg := simpleCfg(nil, J{"maxAttempts": 2}, up)
		s := c.start(cfg, StartOpt{Bin: bin, Level: "INFO"})
		s2, front := c.tlsTwin(cfg, StartOpt{Bin: bin, Level: "INFO"}, 4)
		type cs struct {
			id, m, fr, ae, ce, raw string
			code                   int
			h                      Headers
			hop                    map[string]bool
			body                   []byte
			cuts                   []int
			interim                bool
			closes                 bool
		}
		var cases []cs
		for i := 0; i < c.N(2500, 25000); i++ {
			k := cs{id: fmt.Sprintf("c%d.", i), m: pick(rng, []string{"GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "TRACE"})}
			k.h, k.hop = c04headers(rng)
			for _, x := range c.noiseResp(k.id) {
				if !k.h.Has(x.K) {
					k.h = append(k.h, x)
				}
			}
			for j := range k.h {
				k.h[j].V = strings.ReplaceAll(k.h[j].V, "@PORT@", fmt.Sprint(up.Port))
			}
			k.code = pick(rng, []int{200, 200, 200, 201, 202, 203, 206, 207, 226, 299, 300, 301, 302, 303, 305, 307, 308, 399, 200 + rng.Intn(200)})
			if i%25 == 3 {
				k.code = pick(rng, []int{204, 304})
			}
			bodiless := k.m == "HEAD" || k.code == 204 || k.code == 304
			if k.code/100 == 3 && k.code != 304 && !k.h.Has("Location") && rng.Intn(4) > 0 {
				k.h = append(k.h, HV{"Location", pick(rng, []string{fmt.Sprintf("http://127.0.0.1:%d/redirected", up.Port), "/redirected"})})
			}
			n := pick(rng, []int{0, 1, 2, 3, 17, 100, 511, 512, 513, 4095, 4096, 4097, 32768, 65536, rng.Intn(5000), rng.Intn(200000)})
			if i%200 == 7 {
				n = 1000000 + rng.Intn(2000000)
			}
			if bodiless {
				n = 0
			}
			k.body = randBody(rng, n)
			wire := k.body
			if rng.Intn(5) == 0 && n > 0 {
				k.ce = "gzip"
				wire = gzipBytes(k.body)
			}
			hh := append(Headers{}, k.h...)
			if k.ce != "" {
				hh = append(hh, HV{"Content-Encoding", k.ce})
			}
			k.ae = pick(rng, []string{"", "identity", "gzip", "gzip, deflate, br"})
			// connections are either announced as closing or left open: closing one unannounced would race with its reuse
			k.closes = !hh.Has("Connection")
			if k.closes {
				hh = append(hh, HV{"Connection", "close"})
			}
			k.interim = rng.Intn(10) == 0
			k.fr = pick(rng, []string{"length", "length", "chunked", "chunked", "close", "http10"})
			if bodiless {
				k.fr = "bodiless"
			}
			var sb strings.Builder
			if k.interim {
				sb.WriteString("HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n")
			}
			switch k.fr {
			case "length":
				sb.WriteString(httpResp(k.code, hh, wire))
			case "chunked":
				var sz []int
				for j := 0; j < 1+rng.Intn(4); j++ {
					sz = append(sz, pick(rng, []int{1 + rng.Intn(50) + n/500, 4096, 1 + rng.Intn(100000)}))
				}
				t := httpResp(k.code, append(append(Headers{}, hh...), HV{"Transfer-Encoding", "chunked"}), nil)
				sb.WriteString(t + chunked(wire, sz))
			case "bodiless":
				if k.m == "HEAD" && k.code != 204 && rng.Intn(2) == 0 {
					hh = append(hh, HV{"Content-Length", fmt.Sprint(pick(rng, []int{rng.Intn(100000), rng.Intn(100000), 1<<31 - 1, 1 << 31, 1<<32 + rng.Intn(1<<30), 1 << 45}))})
				}
				sb.WriteString(fmt.Sprintf("HTTP/1.1 %d OK\r\n", k.code))
				for _, x := range hh {
					sb.WriteString(x.K + ": " + x.V + "\r\n")
				}
				sb.WriteString("\r\n")
			case "close":
				sb.WriteString(fmt.Sprintf("HTTP/1.1 %d OK\r\n", k.code))
				for _, x := range hh {
					sb.WriteString(x.K + ": " + x.V + "\r\n")
				}
				sb.WriteString("\r\n" + string(wire))
			case "http10":
				sb.WriteString(fmt.Sprintf("HTTP/1.0 %d\r\n", k.code))
				for _, x := range hh {
					sb.WriteString(x.K + ": " + x.V + "\r\n")
				}
				sb.WriteString("\r\n" + string(wire))
			}
			if k.fr == "close" || k.fr == "http10" {
				k.closes = true
			}
			k.raw = sb.String()
			for j := rng.Intn(4); j > 0; j-- {
				k.cuts = append(k.cuts, rng.Intn(len(k.raw)))
			}
			cases = append(cases, k)
		}
		c.Par(len(cases), 12, func(i int) {
			k := cases[i]
			sc.Set(k.id, func(r *UpReq, w *UpConn) {
				rest := k.raw
				for _, ct := range k.cuts {
					if ct < len(rest) {
						w.Send(rest[:ct])
						rest = rest[ct:]
						time.Sleep(2 * time.Millisecond)
					}
				}
				w.Send(rest)
				if k.closes {
					w.Done()
				}
			})
			hs := append(Headers{{"X-Case", k.id}}, c.noiseReq(k.id)...)
			if k.ae != "" {
				hs = append(hs, HV{"Accept-Encoding", k.ae})
			}
			ex, proto := s.ex, "h1"
			if i%4 == 3 {
				ex, proto, hs = front.ex, "h2", h2able(hs)
			}
			r, err := ex(k.m, "/r/"+k.id, hs, nil)
			det := J{"proto": proto, "method": k.m, "status": k.code, "headers": clipH(k.h), "framing": k.fr, "bodyLen": len(k.body), "accept": k.ae, "coding": k.ce}
			if !c.judge("resp", r, err, det) {
				return
			}
			if proto == "h2" {
				var o Headers
				for _, x := range r.H {
					if !strings.EqualFold(x.K, "Strict-Transport-Security") {
						o = append(o, x)
					}
				}
				r.H = o
			}
			det["code"] = r.Code
			if n := len(up.ForCase(k.id)); n != 1 {
				det["attempts"] = n
				c.Violate("attempts", det)
				return
			}
			if r.Code != k.code {
				c.Violate("status", det)
				return
			}
			b, err := r.decode()
			if err != nil || !bytes.Equal(b, k.body) {
				det["got"], det["err"], det["gotLen"] = clip(r.Body), fmt.Sprint(err), len(b)
				det["resp-headers"] = clipH(r.H)
				c.Violate("body", det)
				return
			}
			if k.code == 304 {
				// RFC7232 4.1: a 304 need not repeat what describes the body it does not have
				for j := range k.h {
					if strings.EqualFold(k.h[j].K, "Content-Type") {
						k.h = append(append(Headers{}, k.h[:j]...), k.h[j+1:]...)
						break
					}
				}
			}
			if d := c04compare(k.h, k.hop, r.H); d != "" {
				det["diff"] = d
				c.Violate("headers", det)
				return
			}
			c.Count("body_bytes", len(k.body))
			c.Case(fmt.Sprintf("%s %dxx %s size=%s accept=%q coding=%s", proto, k.code/100, k.fr, sizeClass(len(k.body)), k.ae, k.ce))
			if i < 3 {
				c.Sample(det)
			}
			up.ForgetPrefix(k.id)
		})
		c.bigResponses(sc, up, "/r/", s.ex, front.ex, false)
		c.c04location(sc, up, s)
		c.checkHealth(s)
		c.checkHealth(s2)
	})
}

// c04location: redirects whose Location makes no URL are responses like any other.
func (c *Ctx) c04location(sc *scripted, up *Upstream, s *Server) {
	for i, code := range []int{301, 302, 303, 307, 308, 300, 201} {
		for j, loc := range []string{":", "://x", "http://[::1", "/%zz", "/ok"} {
			id := fmt.Sprintf("loc%d-%d.", i, j)
			sc.Set(id, answerClose(code, hv("Location", loc), []byte("see there")))
			r, err := s.ex("GET", "/r/"+id, hv("X-Case", id), nil)
			d := J{"status": code, "location": loc}
			if !c.judge("location", r, err, d) {
				continue
			}
			d["code"] = r.Code
			switch {
			case r.Code == 502 && j < 4 && i < 5:
				c.Violate("redirect-with-unparsable-location-answered-502", d)
			case r.Code != code || r.H.Get("Location") != loc || string(r.Body) != "see there":
				c.Violate("location", d)
			}
			c.Case(fmt.Sprintf("location %d %s", code, loc))
			up.ForgetPrefix(id)
		}
	}
}
