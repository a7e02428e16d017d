package main

import (
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"
)

// C13: nothing but a validly signed token gets through.

type forgery struct {
	name string
	auth []string // Authorization header values; nil = header absent
}

func flipByte(r *rand.Rand, b []byte) []byte {
	o := append([]byte(nil), b...)
	if len(o) > 0 {
		o[r.Intn(len(o))] ^= byte(1 << r.Intn(8))
	}
	return o
}

// c13forge returns forgeries and the valid token they were made of.
func c13forge(r *rand.Rand, f *jwtFarm, rt *jroute) ([]forgery, string) {
	k := rt.keys[r.Intn(len(rt.keys))]
	claims := J{"sub": "mallory", "iat": time.Now().Unix() - 10, "exp": time.Now().Unix() + 3600, "x": token(r, 5)}
	hd := J{"alg": rt.alg, "typ": "JWT"}
	if k.kid != "" && r.Intn(3) > 0 {
		hd["kid"] = k.kid
	} else if r.Intn(3) == 0 {
		hd["kid"] = "unknown"
	}
	hj, pj := mustJSON(hd), mustJSON(claims)
	good := signRaw(k, rt.alg, hj, pj)
	p := strings.Split(good, ".")
	sig := k.sigOver(rt.alg, p[0]+"."+p[1])
	var out []forgery
	b := func(name, tok string) { out = append(out, forgery{name, []string{"Bearer " + tok}}) }
	raw := func(name string, v ...string) { out = append(out, forgery{name, v}) }
	raw("absent")
	raw("empty", "")
	raw("scheme-only", "Bearer")
	raw("scheme-space", "Bearer ")
	raw("token-without-scheme", good)
	raw("two-garbage", "Bearer a.b.c", "Bearer d.e.f")
	b("garbage", token(r, 1+r.Intn(40)))
	b("garbage-dots", token(r, 5)+"."+token(r, 5)+"."+token(r, 5))
	b("dots", "..")
	b("dot", ".")
	b("empty-json", b64([]byte("{}"))+"."+b64([]byte("{}"))+".")
	b("no-signature", p[0]+"."+p[1]+".")
	b("two-parts", p[0]+"."+p[1])
	b("header-only", p[0])
	b("signature-only", ".."+p[2])
	b("no-payload", p[0]+".."+p[2])
	b("no-header", "."+p[1]+"."+p[2])
	b("extra-part", good+"."+p[2])
	b("leading-part", p[0]+"."+good)
	b("jwe-shape", p[0]+"."+p[1]+"."+p[2]+"."+p[1]+"."+p[0])
	b("flip-header", b64(flipByte(r, hj))+"."+p[1]+"."+p[2])
	b("flip-payload", p[0]+"."+b64(flipByte(r, pj))+"."+p[2])
	b("flip-signature", p[0]+"."+p[1]+"."+b64(flipByte(r, sig)))
	b("first-signature-byte", p[0]+"."+p[1]+"."+b64(append([]byte{sig[0] ^ 0x80}, sig[1:]...)))
	b("short-signature", p[0]+"."+p[1]+"."+b64(sig[:len(sig)-1]))
	b("long-signature", p[0]+"."+p[1]+"."+b64(append(append([]byte{}, sig...), 0)))
	b("half-signature", p[0]+"."+p[1]+"."+b64(sig[:len(sig)/2]))
	b("zero-signature", p[0]+"."+p[1]+"."+b64(make([]byte, len(sig))))
	b("one-byte-signature", p[0]+"."+p[1]+"."+b64([]byte{0}))
	adm := J{}
	for a, v := range claims {
		adm[a] = v
	}
	adm["admin"] = true
	b("other-payload", p[0]+"."+b64(mustJSON(adm))+"."+p[2])
	h2 := J{"extra": 1}
	for a, v := range hd {
		h2[a] = v
	}
	b("other-header", b64(mustJSON(h2))+"."+p[1]+"."+p[2])
	for _, n := range []string{"none", "None", "NONE", "nOnE", ""} {
		h := J{"typ": "JWT", "alg": n}
		if kid, ok := hd["kid"]; ok {
			h["kid"] = kid
		}
		b("alg-none-"+n, b64(mustJSON(h))+"."+p[1]+".")
		b("alg-none-sig-"+n, b64(mustJSON(h))+"."+p[1]+"."+p[2])
		b("alg-none-2parts-"+n, b64(mustJSON(h))+"."+p[1])
	}
	b("alg-missing", b64([]byte(`{"typ":"JWT"}`))+"."+p[1]+"."+p[2])
	b("alg-missing-nosig", b64([]byte(`{"typ":"JWT"}`))+"."+p[1]+".")
	b("alg-number", b64([]byte(`{"alg":256}`))+"."+p[1]+"."+p[2])
	b("alg-array", b64([]byte(`{"alg":["none"]}`))+"."+p[1]+".")
	b("alg-null", b64([]byte(`{"alg":null}`))+"."+p[1]+".")
	// right key, other algorithm
	for _, a := range jwtAlgs {
		if a == rt.alg {
			continue
		}
		h := J{"alg": a, "typ": "JWT"}
		if kid, ok := hd["kid"]; ok {
			h["kid"] = kid
		}
		switch {
		case (a[0] == 'R' || a[0] == 'P') && k.rsa != nil, a[0] == 'H' && k.secret != nil:
			b("right-key-"+a, signRaw(k, a, mustJSON(h), pj))
		case a[0] == 'E' && k.ec != nil:
			// wrong hash for this curve
			b("right-key-"+a, signRaw(k, a, mustJSON(h), pj))
		}
		if k.secret == nil && a[0] == 'H' {
			_, nh := hashOf(a)
			si := b64(mustJSON(h)) + "." + p[1]
			pem := k.pubPEM()
			for n, s := range map[string]string{"pem": pem, "pem-trim": strings.TrimSpace(pem), "cert": k.certPEM(), "empty": "", "kid": k.kid, "jwk": string(mustJSON(k.jwk()))} {
				b("hmac-with-"+n+"-"+a, si+"."+b64(hmacSum(nh, []byte(s), si)))
			}
			if k.rsa != nil {
				b("hmac-with-modulus-"+a, si+"."+b64(hmacSum(nh, k.rsa.N.Bytes(), si)))
			}
			// the configured algorithm in the header, but an HMAC behind it
			b("hmac-claiming-"+rt.alg, p[0]+"."+p[1]+"."+b64(hmacSum(nh, []byte(pem), p[0]+"."+p[1])))
		}
		// header says the configured algorithm, signature made with another
		if (a[0] == 'R' || a[0] == 'P') && k.rsa != nil || a[0] == 'H' && k.secret != nil {
			b("signed-as-"+a, p[0]+"."+p[1]+"."+b64(k.sigOver(a, p[0]+"."+p[1])))
		}
	}
	// other key of the same type
	ok := newKey(rt.alg, 7)
	if ok.secret != nil {
		ok.secret = []byte("another-secret")
	}
	b("other-key", signRaw(ok, rt.alg, hj, pj))
	if ok.secret == nil {
		h := J{"alg": rt.alg, "jwk": ok.jwk(), "jku": fmt.Sprintf("http://127.0.0.1:%d/evil", f.Jwks.Port)}
		b("own-jwk", signRaw(ok, rt.alg, mustJSON(h), pj))
		h["kid"] = hd["kid"]
		b("own-jwk-kid", signRaw(ok, rt.alg, mustJSON(h), pj))
	} else {
		for n, s := range map[string][]byte{"empty": {}, "newline": append(append([]byte{}, k.secret...), '\n'), "prefix": k.secret[:len(k.secret)-1], "upper": []byte(strings.ToUpper(string(k.secret))), "hex": []byte(fmt.Sprintf("%x", k.secret))} {
			kk := &jkey{alg: rt.alg, secret: s}
			b("secret-"+n, signRaw(kk, rt.alg, hj, pj))
		}
	}
	if k.ec != nil {
		n := len(sig) / 2
		b("swapped-r-s", p[0]+"."+p[1]+"."+b64(append(append([]byte{}, sig[n:]...), sig[:n]...)))
		der, _ := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:])})
		b("der-signature", p[0]+"."+p[1]+"."+b64(der))
		nb := make([]byte, 2*n)
		k.ec.Params().N.FillBytes(nb[:n])
		k.ec.Params().N.FillBytes(nb[n:])
		b("order-signature", p[0]+"."+p[1]+"."+b64(nb))
		one := make([]byte, 2*n)
		one[n-1], one[2*n-1] = 1, 1
		b("one-one-signature", p[0]+"."+p[1]+"."+b64(one))
	}
	// token that is right for another route
	for t := 0; t < 3; t++ {
		o := f.Routes[r.Intn(len(f.Routes))]
		same := shareKeys(o, rt)
		if same || o.alg == "" {
			continue
		}
		b("token-of-"+o.name, o.keys[0].sign(J{"kid": func() any {
			if kid, ok := hd["kid"]; ok {
				return kid
			}
			return nil
		}()}, claims))
	}
	// JSON serialisations whose only signature is bad
	bad := b64(flipByte(r, sig))
	js, _ := json.Marshal(J{"payload": p[1], "protected": p[0], "signature": bad})
	b("json-flat-bad", string(js))
	js, _ = json.Marshal(J{"payload": p[1], "signatures": A{J{"protected": p[0], "signature": bad}}})
	b("json-bad", string(js))
	js, _ = json.Marshal(J{"payload": p[1], "signatures": A{}})
	b("json-unsigned", string(js))
	js, _ = json.Marshal(J{"payload": p[1], "signatures": A{J{"protected": b64([]byte(`{"alg":"none"}`)), "signature": ""}}})
	b("json-none", string(js))
	js, _ = json.Marshal(J{"payload": p[1], "protected": b64([]byte(`{"alg":"none"}`)), "signature": ""})
	b("json-flat-none", string(js))
	b("bare-claims", string(pj))
	b("b64-claims", p[1])
	b("long", strings.Repeat("a", 20000)+"."+p[1]+"."+p[2])
	b("deep", b64([]byte(strings.Repeat("[", 5000)))+"."+p[1]+"."+p[2])
	return out, good
}

// shareKeys tells whether a token for o may be valid for rt.
func shareKeys(o, rt *jroute) bool {
	for _, a := range o.keys {
		for _, b := range rt.keys {
			if a == b || (a.rsa != nil && a.rsa == b.rsa && o.alg == rt.alg) {
				return true
			}
		}
	}
	return false
}

// c13used asks with forgeries right after the valid token they were made of has been accepted, on the same connection and with
// the same request id, cookie and address: neither a connection, a session nor a token once seen may open a route.
func c13used(c *Ctx, f *jwtFarm) {
	c.Par(len(f.Routes), 12, func(i int) {
		rt := f.Routes[i]
		if rt.alg == "none" {
			return
		}
		rng := c.Rng("used" + rt.name)
		var cl *Client
		defer func() {
			if cl != nil {
				cl.Close()
			}
		}()
		n := 0
		ask := func(m, path, what string, auth []string, want int) bool {
			n++
			id := fmt.Sprintf("u%d-%d.", i, n)
			hs := hv("X-Case", id)
			if i%2 == 0 {
				hs = append(hs, HV{"X-Request-Id", "same-" + rt.name[:1]}, HV{"Cookie", "session=" + rt.name[:1]})
			}
			for _, a := range auth {
				hs = append(hs, HV{"Authorization", a})
			}
			var r *Resp
			var err error
			if i%3 == 2 {
				r, _, err = f.L.ex(3, m, path, hs, nil)
			} else {
				for try := 0; try < 3; try++ {
					if cl == nil {
						if cl, err = dial(f.S.Addr, nil); err != nil {
							continue
						}
					}
					cl.Send(reqText(m, path, hs, nil))
					r, err = cl.Read(m, watchdog)
					if err != nil || r.Err != nil || strings.EqualFold(r.H.Get("Connection"), "close") {
						cl.Close()
						cl = nil
					}
					if err == nil {
						break
					}
				}
			}
			d := J{"route": rt.name, "path": path, "what": what, "method": m, "after": "the valid token was accepted"}
			if len(auth) > 0 && len(auth[0]) < 800 {
				d["authorization"] = auth
			}
			if !c.judge("used-token", r, err, d) {
				return false
			}
			d["code"] = r.Code
			k := len(f.Up.ForCase(id))
			d["upstream-requests"] = k
			if r.Code != want || (k > 0) != (want == 200) {
				c.Violate(map[int]string{200: "control-token-refused", 401: "not-refused-after-use"}[want], d)
				return false
			}
			f.Up.ForgetPrefix(id)
			return true
		}
		methods := []string{"GET", "GET", "POST", "DELETE", "OPTIONS"}
		for rep := 0; rep < c.N(2, 12); rep++ {
			fgs, good := c13forge(rng, f, rt)
			rng.Shuffle(len(fgs), func(a, b int) { fgs[a], fgs[b] = fgs[b], fgs[a] })
			for _, fg := range fgs[:min(len(fgs), c.N(30, 100))] {
				if !ask("GET", rt.path, "valid", []string{"Bearer " + good}, 200) || !ask(pick(rng, methods), rt.path, fg.name, fg.auth, 401) {
					return
				}
				c.Case(rt.name + " after use " + fg.name)
			}
			for _, k := range rng.Perm(len(f.Routes))[:c.N(8, 30)] {
				o := f.Routes[k]
				if o == rt || o.alg == "none" || shareKeys(o, rt) {
					continue
				}
				if !ask("GET", rt.path, "valid", []string{"Bearer " + good}, 200) || !ask(pick(rng, methods), o.path, "token of "+rt.name+" on "+o.name, []string{"Bearer " + good}, 401) {
					return
				}
				c.Case("used on " + rt.name + " then on " + o.name)
			}
		}
		c.Count("asked_after_use", n)
	})
}

func init() {
	register("C13", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "45+ jwt routes (12 algorithms x PEM, certificate, JWKS with several keys, JWKS with one key) x ~100 forgeries each (absent, malformed, stripped, altered, re-signed, other algorithm, none in all spellings, HMAC with public material, foreign route's token, JSON serialisation); 401 with wrapper and nothing at the upstream; a valid token per route and round is the control; the same again right after the valid token was accepted, on its connection and on other routes; key = route x forgery"
		c.assume = []string{"the authorization scheme in front of the token is not part of the property"}
		bin := c.buildJ8a(false)
		rng := c.Rng("forge")
		f := c.jwtFarm(bin, nil)
		type cs struct {
			rt   *jroute
			fg   forgery
			id   string
			m    string
			path string
			good bool
		}
		var cases []cs
		methods := []string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE"}
		for rep := 0; rep < c.N(1, 6); rep++ {
			for _, rt := range f.Routes {
				fgs, _ := c13forge(rng, f, rt)
				for _, fg := range fgs {
					cases = append(cases, cs{rt, fg, fmt.Sprintf("c%d.", len(cases)), pick(rng, methods), rt.path + pick(rng, []string{"", "a", "a/b?c=d", "../open/x"}), false})
				}
				for _, k := range rt.keys {
					cases = append(cases, cs{rt, forgery{"valid", []string{"Bearer " + k.sign(nil, J{"sub": "x"})}}, fmt.Sprintf("c%d.", len(cases)), "GET", rt.path, true})
				}
			}
			for _, fg := range []forgery{{"absent", nil}, {"empty", []string{""}}, {"scheme", []string{"Bearer"}}, {"garbage", []string{"Bearer x"}}, {"dots", []string{"Bearer .."}}} {
				cases = append(cases, cs{&jroute{name: "none", path: "/none/"}, fg, fmt.Sprintf("c%d.", len(cases)), "GET", "/none/", false})
			}
		}
		for i := range cases {
			if strings.Contains(cases[i].path, "..") {
				cases[i].path = cases[i].rt.path + "x" // unclean paths are redirected before routing
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		ok := make([]bool, len(cases))
		c.Par(len(cases), 16, func(i int) {
			t := cases[i]
			hs := append(hv("X-Case", t.id), c.noiseReq(t.id)...)
			for _, a := range t.fg.auth {
				hs = append(hs, HV{"Authorization", a})
			}
			r, proto, err := f.L.ex(i, t.m, t.path, hs, nil)
			d := J{"proto": proto, "route": t.rt.name, "forgery": t.fg.name, "method": t.m}
			if len(t.fg.auth) > 0 && len(t.fg.auth[0]) < 800 {
				d["authorization"] = t.fg.auth
			}
			if !c.judge("token", r, err, d) {
				return
			}
			d["code"] = r.Code
			if t.good {
				if r.Code != 200 {
					c.Violate("control-token-refused", d)
				} else {
					ok[i] = true
				}
				return
			}
			w := ""
			if t.m == "HEAD" {
				w = headWrapper(r, 401)
			} else {
				w = wrapper(r, 401)
			}
			if w != "" {
				d["why"] = w
				c.Violate("not-refused", d)
				return
			}
			ok[i] = true
			if i < 5 {
				c.Sample(d)
			}
		})
		time.Sleep(200 * time.Millisecond)
		n := map[string]int{}
		for _, r := range f.Up.Reqs() {
			n[r.Case()]++
		}
		for i, t := range cases {
			if !ok[i] {
				continue
			}
			if t.good != (n[t.id] == 1) {
				c.Violate("upstream-contact", J{"route": t.rt.name, "forgery": t.fg.name, "valid": t.good, "requests": n[t.id]})
				continue
			}
			c.Case(t.rt.name + " " + t.fg.name)
			if t.good {
				c.Count("valid_controls", 1)
			}
		}
		c13used(c, f)
		c.checkHealth(f.S)
		f.L.check()
	})
}
