package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// C05: the declared Content-Encoding is what the body has.

func deflateBytes(b []byte) []byte {
	var o bytes.Buffer
	w, _ := flate.NewWriter(&o, 6)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// c05accepts: does the client name gzip with a weight above 0. (A lone * is neither here nor there.)
func c05accepts(ae []string) bool {
	for _, x := range strings.Split(strings.Join(ae, ","), ",") {
		p := strings.Split(x, ";")
		n := strings.ToLower(strings.TrimSpace(p[0]))
		if n != "gzip" && n != "x-gzip" && n != "*" {
			continue
		}
		q := 1.0
		for _, a := range p[1:] {
			kv := strings.SplitN(a, "=", 2)
			if len(kv) == 2 && strings.ToLower(strings.TrimSpace(kv[0])) == "q" {
				if f, err := strconv.ParseFloat(strings.TrimSpace(kv[1]), 64); err == nil {
					q = f
				}
			}
		}
		if q > 0 {
			return true
		}
	}
	return false
}

var c05AE = [][]string{nil, {""}, {"gzip"}, {"identity"}, {"gzip;q=0"}, {"gzip; q=0.0, identity"}, {"gzip;q=0.5"}, {"gzip ; q=1"}, {"*"}, {"deflate"}, {"br"}, {"GZIP"}, {"Gzip, br"}, {"x-gzip"}, {"deflate, gzip"}, {"deflate", "gzip"}, {"gzip;q=0", "deflate"}, {"gzipped"}, {"identity;q=1, *;q=0"}, {"br;q=1.0, gzip;q=0.8, *;q=0.1"}, {"notgzip"}, {"gzip;q=0.001"}, {"identity, gzip;q=0"}}

type c05up struct {
	kind  string
	label []string // Content-Encoding header lines
	wire  []byte
	cont  []byte // content; nil if opaque
	valid bool   // label is truthful and consists of identity/gzip
	empty bool
}

func c05make(r *rand.Rand, kind string, content []byte) c05up {
	u := c05up{kind: kind, cont: content, valid: true, empty: len(content) == 0}
	switch kind {
	case "none":
		u.wire = content
	case "identity":
		u.label, u.wire = []string{pick(r, []string{"identity", "Identity"})}, content
	case "gzip":
		u.label, u.wire = []string{pick(r, []string{"gzip", "GZIP", "Gzip"})}, gzipBytes(content)
	case "x-gzip":
		u.label, u.wire = []string{"x-gzip"}, gzipBytes(content)
	case "gzip-members":
		n := len(content) / 2
		u.label, u.wire = []string{"gzip"}, append(gzipBytes(content[:n]), gzipBytes(content[n:])...)
	case "gzip-gzip":
		u.label, u.wire = []string{"gzip, gzip"}, gzipBytes(gzipBytes(content))
	case "gzip-gzip-lines":
		u.label, u.wire = []string{"gzip", "gzip"}, gzipBytes(gzipBytes(content))
	case "gzip-archive": // the content itself is a gzip archive, no coding
		u.cont = gzipBytes(content)
		u.wire = u.cont
		u.empty = false
	case "gzip-archive-identity":
		u.cont = gzipBytes(content)
		u.wire, u.label = u.cont, []string{"identity"}
		u.empty = false
	case "br":
		u.label, u.wire, u.valid = []string{"br"}, append([]byte{0x8b}, content...), false
	case "deflate":
		u.label, u.wire, u.valid = []string{"deflate"}, deflateBytes(content), false
	case "zstd-magic": // unknown coding with bytes that look like gzip
		u.label, u.wire, u.valid = []string{"zstd"}, gzipBytes(content), false
	case "br, gzip":
		u.label, u.wire, u.valid = []string{"br, gzip"}, gzipBytes(content), false
	case "deflate+gzip-lines":
		u.label, u.wire, u.valid = []string{"deflate", "gzip"}, gzipBytes(deflateBytes(content)), false
	case "mislabelled":
		u.label, u.wire, u.valid = []string{"gzip"}, append([]byte("plain:"), content...), false
	case "gzip-truncated":
		g := gzipBytes(append(content, "xxxxxxxxxxxxxxxxxxxxxx"...))
		u.label, u.wire, u.valid = []string{"gzip"}, g[:len(g)-4], false
	case "gzip-corrupt":
		g := gzipBytes(append(content, "xxxxxxxxxxxxxxxxxxxxxx"...))
		g[len(g)-5] ^= 0xff
		u.label, u.wire, u.valid = []string{"gzip"}, g, false
	}
	return u
}

var c05kinds = []string{"none", "none", "identity", "gzip", "gzip", "x-gzip", "gzip-members", "gzip-gzip", "gzip-gzip-lines", "gzip-archive", "gzip-archive-identity", "br", "deflate", "zstd-magic", "br, gzip", "deflate+gzip-lines", "mislabelled", "gzip-truncated", "gzip-corrupt"}

func normCodings(lines []string) string {
	var o []string
	for _, x := range strings.Split(strings.Join(lines, ","), ",") {
		if x = strings.ToLower(strings.TrimSpace(x)); x != "" && x != "identity" {
			o = append(o, x)
		}
	}
	return strings.Join(o, ",")
}

func c05aeHeaders(ae []string) Headers {
	var h Headers
	for _, x := range ae {
		h = append(h, HV{"Accept-Encoding", x})
	}
	return h
}

func init() {
	register("C05", func(c *Ctx) {
		c.rule = fmt.Sprintf("every pair of %d Accept-Encoding values x %d kinds of upstream coding (truthful, unknown, mislabelled, broken) with random bodies, and every Accept-Encoding x error/about response; key = accept x kind x client coding", len(c05AE), len(c05kinds))
		c.assume = []string{"a lone * in Accept-Encoding may be taken either way", "an undecodable gzip body may be passed on as labelled or be answered 502"}
		bin := c.buildJ8a(false)
		rng := c.Rng("codings")
		k := c.kitchen(bin, J{"maxBodyBytes": 1000}, nil, StartOpt{Level: "INFO"})
		type cs struct {
			id   string
			m    string
			code int
			ae   []string
			u    c05up
		}
		var cases []cs
		for rep := 0; rep < c.N(6, 60); rep++ {
			for _, ae := range c05AE {
				for _, kd := range c05kinds {
					n := pick(rng, []int{0, 1, 2, 17, 200, 1000, 4096, 30000, rng.Intn(100000)})
					cases = append(cases, cs{fmt.Sprintf("c%d.", len(cases)), pick(rng, []string{"GET", "GET", "POST", "PUT", "DELETE"}), pick(rng, []int{200, 200, 201, 203, 206, 301, 302, 307, 399}), ae, c05make(rng, kd, randBody(rng, n))})
				}
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		c.Par(len(cases), 16, func(i int) {
			t := cases[i]
			var uh Headers
			for _, l := range t.u.label {
				uh = append(uh, HV{"Content-Encoding", l})
			}
			uh = append(uh, c.noiseResp(t.id)...)
			k.Sc.Set(t.id, answerClose(t.code, uh, t.u.wire))
			r, proto, err := k.L.ex(i, t.m, "/r/"+t.id, append(append(Headers{{"X-Case", t.id}}, c05aeHeaders(t.ae)...), c.noiseReq(t.id)...), nil)
			det := J{"proto": proto, "accept": t.ae, "upstream-coding": t.u.label, "kind": t.u.kind, "upstream-headers": clipH(uh), "wireLen": len(t.u.wire), "code": t.code}
			if !c.judge("coding", r, err, det) {
				return
			}
			k.Up.ForgetPrefix(t.id)
			got := r.H.All("Content-Encoding")
			det["client-coding"] = got
			det["client-len"] = len(r.Body)
			broken := t.u.kind == "mislabelled" || t.u.kind == "gzip-truncated" || t.u.kind == "gzip-corrupt"
			if broken && r.Code == 502 {
				if w := wrapper(r, 502); w != "" {
					det["why"] = w
					c.Violate("error-wrapper", det)
				}
				c.Case(fmt.Sprintf("%q %s 502", t.ae, t.u.kind))
				return
			}
			if r.Code != t.code {
				det["got-code"] = r.Code
				c.Violate("status", det)
				return
			}
			cc := normCodings(got)
			acc := c05accepts(t.ae)
			switch {
			case len(t.u.wire) == 0:
				if len(r.Body) > 0 {
					d, err := r.decode()
					if err != nil || len(d) != 0 {
						c.Violate("body-for-empty", det)
						return
					}
				}
			case !t.u.valid:
				if !bytes.Equal(r.Body, t.u.wire) || (cc != normCodings(t.u.label) && !(t.u.kind == "mislabelled" && cc == "")) {
					det["body"] = clip(r.Body)
					c.Violate("foreign-coding-not-passed-on", det)
					return
				}
			default:
				d, err := r.decode()
				if len(r.Body) == 0 {
					d, err = nil, nil // no body, nothing to decode
				}
				if err != nil || !bytes.Equal(d, t.u.cont) {
					det["err"] = fmt.Sprint(err)
					det["decoded"] = clip(d)
					c.Violate("body-does-not-match-label", det)
					return
				}
				single := normCodings(t.u.label) == "gzip" || normCodings(t.u.label) == "x-gzip" || normCodings(t.u.label) == ""
				if !acc && single && cc != "" && len(r.Body) > 0 {
					c.Violate("gzip-to-client-that-refuses-it", det)
					return
				}
			}
			c.Case(fmt.Sprintf("%q %s -> %s", t.ae, t.u.kind, cc))
			if i < 4 {
				c.Sample(det)
			}
		})
		c.bigResponses(k.Sc, k.Up, "/r/", k.S.ex, nil, true)
		// responses the proxy makes itself
		type own struct {
			name, m, path string
			body          []byte
			code          int
			up            Step
		}
		gz := gzipBytes([]byte("upstream error body"))
		owns := []own{
			{"404", "GET", "/none", nil, 404, nil},
			{"400", "PATCH", "/r/x", nil, 400, nil},
			{"401", "GET", "/jwt/x", nil, 401, nil},
			{"413", "POST", "/r/x", make([]byte, 2000), 413, nil},
			{"503", "GET", "/nolabel/x", nil, 503, nil},
			{"503res", "GET", "/nores/x", nil, 503, nil},
			{"502dead", "GET", "/dead/x", nil, 502, nil},
			{"502gzip", "GET", "/r/x", nil, 502, answerClose(500, hv("Content-Encoding", "gzip"), gz)},
			{"502br", "POST", "/r/x", nil, 502, answerClose(503, hv("Content-Encoding", "br"), []byte("brbr"))},
			{"4xxgzip", "GET", "/r/x", nil, 404, answerClose(404, hv("Content-Encoding", "gzip"), gz)},
			{"4xxbr", "GET", "/r/x", nil, 429, answerClose(429, hv("Content-Encoding", "br"), []byte("brbr"))},
			{"4xxplain", "GET", "/r/x", nil, 418, answerClose(418, nil, []byte("plain"))},
			{"4xxempty", "GET", "/r/x", nil, 403, answerClose(403, nil, nil)},
			{"502cut", "GET", "/r/x", nil, 502, func(r *UpReq, w *UpConn) {
				w.Send("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 500\r\n\r\n" + string(gz))
				w.Done()
			}},
			{"about", "GET", "/about", nil, 200, nil},
		}
		type oc struct {
			o  own
			ae []string
			id string
		}
		var ocs []oc
		for rep := 0; rep < c.N(2, 10); rep++ {
			for _, o := range owns {
				for _, ae := range c05AE {
					ocs = append(ocs, oc{o, ae, fmt.Sprintf("o%d.", len(ocs))})
				}
			}
		}
		c.Par(len(ocs), 16, func(i int) {
			t := ocs[i]
			if t.o.up != nil {
				k.Sc.Set(t.id, t.o.up)
			}
			r, proto, err := k.L.ex(i, t.o.m, t.o.path, append(append(Headers{{"X-Case", t.id}}, c05aeHeaders(t.ae)...), c.noiseReq(t.id)...), t.o.body)
			det := J{"proto": proto, "accept": t.ae, "response": t.o.name}
			if !c.judge("own", r, err, det) {
				return
			}
			got := r.H.All("Content-Encoding")
			det["client-coding"] = got
			if t.o.name == "about" {
				if _, err := aboutBody(r); err != "" {
					det["why"] = err
					c.Violate("about-body", det)
					return
				}
			} else if w := wrapper(r, t.o.code); w != "" {
				det["why"] = w
				c.Violate("own-body", det)
				return
			}
			cc := normCodings(got)
			if !c05accepts(t.ae) && cc != "" {
				c.Violate("gzip-to-client-that-refuses-it", det)
				return
			}
			if cc != "" && cc != "gzip" {
				c.Violate("own-body-in-foreign-coding", det)
				return
			}
			c.Case(fmt.Sprintf("%q own %s -> %s", t.ae, t.o.name, cc))
		})
		c.checkHealth(k.S)
		k.L.check()
	})
}
