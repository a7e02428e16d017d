package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// C14: valid, timely tokens pass.

func c14claims(r *rand.Rand) (string, any) {
	now := time.Now().Unix()
	switch r.Intn(12) {
	case 0:
		return "empty", J{}
	case 1:
		return "dates", J{"iat": now - 5, "nbf": now - 5, "exp": now + 600}
	case 2:
		return "float-dates", J{"iat": float64(now) - 5.5, "exp": float64(now) + 600.25}
	case 3:
		return "aud-list", J{"aud": A{"a", "b"}, "exp": now + 600}
	case 4:
		return "nested", J{"a": J{"b": A{1, 2.5, nil, true, J{"c": "d"}}}, "roles": A{"x"}}
	case 5:
		return "unicode", J{"sub": "zażółć ☃ \u0000 \"q\" \\", "ключ": "значение"}
	case 6:
		return "large", J{"blob": token(r, 20000)}
	case 7:
		return "registered", J{"iss": "https://i/", "sub": "s", "aud": "a", "jti": "1", "exp": now + 999999999}
	case 8:
		return "only-exp", J{"exp": now + 60}
	case 9:
		return "only-nbf", J{"nbf": now - 1000000}
	case 10:
		return "only-iat", J{"iat": now - 100000000}
	}
	return "private", J{"x-" + token(r, 4): token(r, 10), "admin": false}
}

func init() {
	register("C14", func(c *Ctx) {
		c.rule = "45+ jwt routes x each of their keys x kid (matching, absent, unknown, naming another key, empty) x claims x header extras x method; every token validly signed and timely must reach upstream once, with the Authorization header intact; key = route x key x kid x claims"
		c.assume = []string{"token and header small enough for Go's 1 MB header limit"}
		bin := c.buildJ8a(false)
		rng := c.Rng("valid")
		f := c.jwtFarm(bin, nil)
		type cs struct {
			rt           *jroute
			ki           int
			kid, cl, hdr string
			tok          string
			id, m        string
			body         []byte
		}
		var cases []cs
		for rep := 0; rep < c.N(1, 8); rep++ {
			for _, rt := range f.Routes {
				for ki, k := range rt.keys {
					for _, kid := range []string{"matching", "absent", "unknown", "other", "empty"} {
						h := J{}
						switch kid {
						case "matching":
							if k.kid != "" {
								h["kid"] = k.kid
							}
						case "unknown":
							h["kid"] = "kid-" + token(rng, 6)
						case "other":
							h["kid"] = rt.keys[(ki+1)%len(rt.keys)].kid
						case "empty":
							h["kid"] = ""
						}
						for n := 0; n < 2; n++ {
							cn, cl := c14claims(rng)
							hd := J{}
							for a, b := range h {
								hd[a] = b
							}
							hn := pick(rng, []string{"plain", "notyp", "cty", "extra", "spaced", "typ", "typ", "params"})
							switch hn {
							case "notyp":
								hd["typ"] = nil
							case "cty":
								hd["cty"] = "json"
							case "extra":
								hd["x-env"] = "prod"
								hd["ver"] = 3
							case "typ":
								hd["typ"] = pick(rng, []string{"at+jwt", "application/jwt", "application/at+jwt", "jwt", "JOSE", "x", "", "Jwt"})
								hn = fmt.Sprintf("typ=%v", hd["typ"])
							case "params":
								hd["x5t"] = b64([]byte(token(rng, 20)))
								hd["jti"] = token(rng, 8)
								hd["x5u"] = "https://127.0.0.1:1/c"
								hd["jku"] = "https://127.0.0.1:1/k"
								hd["iss"] = A{"a", nil}
							}
							var tok string
							if hn == "spaced" {
								hj := fmt.Sprintf(" {\n \"typ\" : \"JWT\",\"alg\": %q", k.alg)
								if v, ok := hd["kid"]; ok {
									hj += fmt.Sprintf(" , \"kid\":%q", v)
								}
								tok = signRaw(k, k.alg, []byte(hj+" }\n"), append([]byte(" "), mustJSON(cl)...))
							} else {
								tok = k.sign(hd, cl)
							}
							cases = append(cases, cs{rt, ki, kid, cn, hn, tok, fmt.Sprintf("c%d.", len(cases)), pick(rng, []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"}), randBody(rng, rng.Intn(200))})
						}
					}
				}
			}
			for n := 0; n < 30; n++ {
				cn, cl := c14claims(rng)
				tok := b64([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + b64(mustJSON(cl)) + "."
				cases = append(cases, cs{&jroute{name: "none", path: "/none/"}, 0, "absent", cn, "plain", tok, fmt.Sprintf("c%d.", len(cases)), pick(rng, []string{"GET", "POST"}), nil})
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		c.Par(len(cases), 16, func(i int) {
			t := cases[i]
			r, proto, err := f.L.ex(i, t.m, t.rt.path+"x", append(hv("X-Case", t.id, "Authorization", "Bearer "+t.tok), c.noiseReq(t.id)...), t.body)
			d := J{"proto": proto, "route": t.rt.name, "key": t.ki, "kid": t.kid, "claims": t.cl, "header": t.hdr, "method": t.m}
			if len(t.tok) < 1500 {
				d["token"] = t.tok
			}
			if !c.judge("token", r, err, d) {
				return
			}
			d["code"] = r.Code
			reqs := f.Up.ForCase(t.id)
			if r.Code != 200 || len(reqs) != 1 {
				d["requests"] = len(reqs)
				c.Violate("valid-token-refused", d)
				return
			}
			if reqs[0].H.Get("Authorization") != "Bearer "+t.tok || !bytes.Equal(reqs[0].Body, t.body) {
				c.Violate("request-altered", d)
				return
			}
			c.Case(strings.Join([]string{t.rt.name, fmt.Sprint(t.ki), t.kid, t.cl}, " "))
			if i < 4 {
				c.Sample(d)
			}
			f.Up.ForgetPrefix(t.id)
		})
		// alg none only where configured
		for i, rt := range f.Routes {
			id := fmt.Sprintf("n%d.", i)
			for _, h := range []string{`{"alg":"none","typ":"JWT"}`, `{"alg":"none"}`} {
				r, err := f.S.ex("GET", rt.path, hv("X-Case", id, "Authorization", "Bearer "+b64([]byte(h))+"."+b64([]byte(`{"sub":"x"}`))+"."), nil)
				if c.judge("none", r, err, J{"route": rt.name}) && (r.Code != 401 || len(f.Up.ForCase(id)) > 0) {
					c.Violate("none-accepted", J{"route": rt.name, "code": r.Code})
				}
				c.Case("none at " + rt.name)
			}
		}
		c.checkHealth(f.S)
		f.L.check()
	})
}
