package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"strings"
	"time"
)

// C17: which jwt and route configurations start.

type keyMat struct {
	name string
	text string
	ok   func(alg string) bool
}

func isRSA(a string) bool { return strings.HasPrefix(a, "RS") || strings.HasPrefix(a, "PS") }
func isHS(a string) bool  { return strings.HasPrefix(a, "HS") }

func spki(pub any, typ string) string {
	d, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: d}))
}

func c17keys() []keyMat {
	never := func(a string) bool { return isHS(a) } // any text is a secret
	rsaOnly := func(a string) bool { return isHS(a) || isRSA(a) }
	ecOnly := func(want string) func(string) bool { return func(a string) bool { return isHS(a) || a == want } }
	r := newKey("RS256", 0)
	p224, _ := ecdsa.GenerateKey(elliptic.P224(), crand.Reader)
	ed, edp, _ := ed25519.GenerateKey(crand.Reader)
	_ = edp
	pkcs1 := string(pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: x509.MarshalPKCS1PublicKey(&r.rsa.PublicKey)}))
	priv := string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(r.rsa)}))
	pk8, _ := x509.MarshalPKCS8PrivateKey(newKey("ES256", 0).ec)
	priv8 := string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: pk8}))
	good := r.pubPEM()
	ec := newKey("ES256", 0).pubPEM()
	damaged := func(s string) string {
		l := strings.Split(s, "\n")
		l[1] = l[1][:20] + "*!" + l[1][22:]
		return strings.Join(l, "\n")
	}
	cutDER := func(s string) string {
		b, _ := pem.Decode([]byte(s))
		b.Bytes = b.Bytes[:len(b.Bytes)/2]
		return string(pem.EncodeToMemory(b))
	}
	retype := func(s, t string) string {
		b, _ := pem.Decode([]byte(s))
		b.Type = t
		return string(pem.EncodeToMemory(b))
	}
	out := []keyMat{
		{"rsa-pub", good, rsaOnly},
		{"rsa-cert", newKey("RS256", 1).certPEM(), rsaOnly},
		{"ec224-pub", spki(&p224.PublicKey, "PUBLIC KEY"), never},
		{"ed25519-pub", spki(ed, "PUBLIC KEY"), never},
		{"rsa-pkcs1-pub", pkcs1, never},
		{"rsa-private", priv, never},
		{"ec-private", priv8, never},
		{"rsa-damaged-base64", damaged(good), never},
		{"ec-damaged-base64", damaged(ec), never},
		{"rsa-truncated-der", cutDER(good), never},
		{"ec-truncated-der", cutDER(ec), never},
		{"cert-truncated-der", cutDER(newKey("RS256", 1).certPEM()), never},
		{"ec-cert-truncated-der", cutDER(newKey("ES256", 1).certPEM()), never},
		{"rsa-two-blocks", good + good, never},
		{"ec-two-blocks", ec + ec, never},
		{"rsa-trailing-text", good + "and more", never},
		{"ec-trailing-text", ec + "and more", never},
		{"rsa-pub-typed-certificate", retype(good, "CERTIFICATE"), never},
		{"ec-pub-typed-certificate", retype(ec, "CERTIFICATE"), never},
		{"rsa-cert-typed-pub", retype(newKey("RS256", 1).certPEM(), "PUBLIC KEY"), never},
		{"ec-cert-typed-pub", retype(newKey("ES256", 1).certPEM(), "PUBLIC KEY"), never},
		{"rsa-odd-type", retype(good, "SOMETHING"), never},
		{"ec-odd-type", retype(ec, "SOMETHING"), never},
		{"no-end-line", strings.Split(good, "-----END")[0], never},
		{"text", "just a secret text", never},
		{"one-char", "x", never},
	}
	for _, a := range []string{"ES256", "ES384", "ES512"} {
		out = append(out, keyMat{"ec-pub-" + a, newKey(a, 0).pubPEM(), ecOnly(a)}, keyMat{"ec-cert-" + a, newKey(a, 1).certPEM(), ecOnly(a)})
	}
	return out
}

func init() {
	register("C17", func(c *Ctx) {
		c.rule = "algorithm (12 known, none, 10 unknown spellings) x key material (32 kinds: types, curves, PEM damage, none) x JWKS documents (18 kinds incl. unreachable) x skew (15 spellings, quoted and not) x route references and transforms; each configuration is started for real: it must exit without ever answering, or serve and protect; key = configuration class"
		c.assume = []string{"RSA moduli are not judged by size (the code sets no minimum)", "any non-empty text is a valid HMAC secret"}
		bin := c.buildJ8a(false)
		rng := c.Rng("cfg")
		keys := c17keys()
		up := c.newUpstream("app", func(r *UpReq, w *UpConn) { answerClose(200, nil, []byte("served"))(r, w) })
		docs := map[string]string{}
		js := c.newUpstream("jwks", func(r *UpReq, w *UpConn) {
			if d, ok := docs[r.Target]; ok {
				jsonAnswer(d)(r, w)
				return
			}
			answerClose(404, nil, []byte("no"))(r, w)
		})
		type cs struct {
			name string
			cfg  J
			raw  string
			ok   bool
			path string // protected path, must never reach upstream without a token
		}
		var cases []cs
		base := func(jwts any, routes A) J {
			return J{"jwt": jwts, "routes": routes, "resources": J{"r": resourceOf(up)}}
		}
		one := func(name string, jwt J, ok bool) {
			cases = append(cases, cs{name, base(J{"a": jwt}, A{J{"path": "/p/", "resource": "r", "jwt": "a"}, J{"path": "/o/", "resource": "r"}}), "", ok, "/p/x"})
		}
		unknown := []string{"RS257", "rs256", "HS1", "EdDSA", "None", "NONE", "RS256 ", "*", "ES256K", "PS", "HS", "RSA", "dir"}
		// algorithm x key
		for _, alg := range jwtAlgs {
			for _, k := range keys {
				one("key "+alg+" "+k.name, J{"alg": alg, "key": k.text}, k.ok(alg))
			}
			one("nokey "+alg, J{"alg": alg}, false)
			one("emptykey "+alg, J{"alg": alg, "key": ""}, false)
			one("nokey-skew "+alg, J{"alg": alg, "acceptableSkewSeconds": "5"}, false)
		}
		for _, a := range unknown {
			for _, k := range []keyMat{keys[0], keys[24], keys[len(keys)-2]} {
				one("unknown-alg "+a+" "+k.name, J{"alg": a, "key": k.text}, false)
			}
			one("unknown-alg-nokey "+a, J{"alg": a}, false)
		}
		for _, k := range keys {
			one("none-with-key "+k.name, J{"alg": "none", "key": k.text}, false)
			one("noalg "+k.name, J{"key": k.text}, false)
		}
		one("none", J{"alg": "none"}, true)
		one("nothing", J{}, false)
		// skew
		for _, s := range []struct {
			v  any
			ok bool
		}{{"0", true}, {"1", true}, {"120", true}, {"31536000", true}, {"-1", false}, {"-0.5", false}, {"1.5", false}, {"abc", false}, {"1e3", false}, {"0x10", false}, {" 5", false}, {"5s", false}, {"--1", false}, {"99999999999999999999", false}, {"-99999999999999999999", false},
			{0, true}, {7, true}, {-1, false}, {-120, false}, {A{1}, false}, {J{"x": 1}, false}, {true, false}} {
			for _, alg := range []string{"HS256", "RS256", "ES512"} {
				one(fmt.Sprintf("skew %v %T %s", s.v, s.v, alg), J{"alg": alg, "key": newKey(alg, 0).keyText(false), "acceptableSkewSeconds": s.v}, s.ok)
			}
			if !s.ok {
				one(fmt.Sprintf("skew %v %T none", s.v, s.v), J{"alg": "none", "acceptableSkewSeconds": s.v}, false)
			}
		}
		// jwks
		for i, alg := range []string{"RS256", "PS384", "ES256", "ES512", "HS256", "none", "RS999", ""} {
			ka := alg
			if i > 3 {
				ka = "RS256"
			}
			k := newKey(ka, 0)
			k.kid = "k1"
			fk := newKey(otherAlg(ka), 1)
			fk.kid = "k2"
			oct := newKey("HS256", 1)
			with := func(j J, key string, v any) J {
				o := J{}
				for a, b := range j {
					o[a] = b
				}
				if v == nil {
					delete(o, key)
				} else {
					o[key] = v
				}
				return o
			}
			set := func(ks ...J) string {
				a := A{}
				for _, k := range ks {
					a = append(a, k)
				}
				return string(mustJSON(J{"keys": a}))
			}
			part := "n"
			if ka[0] == 'E' {
				part = "x"
			}
			for n, d := range map[string]string{
				"good": set(k.jwk()), "good-nokid": set(with(k.jwk(), "kid", nil)), "foreign": set(fk.jwk()), "oct": set(oct.jwk()), "oct-as-alg": set(with(oct.jwk(), "alg", alg)),
				"none": set(with(k.jwk(), "alg", "none")), "alg-missing": set(with(k.jwk(), "alg", nil)), "foreign-then-good": set(fk.jwk(), k.jwk()), "part-missing": set(with(k.jwk(), part, nil)),
				"kty-missing": set(with(k.jwk(), "kty", nil)), "empty": "", "object": "{}", "no-keys": `{"keys":[]}`, "null": "null", "html": "<html>", "truncated": set(k.jwk())[:30], "foreign-as-alg": set(with(newKey(map[bool]string{true: "RS256", false: "ES256"}[ka[0] == 'E'], 3).jwk(), "alg", alg)),
			} {
				p := fmt.Sprintf("/%d-%s", i, n)
				docs[p] = d
				one("jwks "+alg+" "+n, J{"alg": alg, "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d%s", js.Port, p)}, strings.HasPrefix(n, "good") && i <= 3)
			}
			one("jwks "+alg+" 404", J{"alg": alg, "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/nope", js.Port)}, false)
			one("jwks "+alg+" unreachable", J{"alg": alg, "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/", c.deadPort())}, false)
			one("jwks "+alg+" no-url", J{"alg": alg, "jwksUrl": "not a url"}, false)
		}
		// several jwt from one URL
		for _, t := range []struct {
			a, b string
			ok   bool
		}{{"RS256", "RS256", true}, {"RS256", "RS384", false}, {"PS256", "RS256", false}, {"RS256", "ES256", false}, {"ES256", "ES384", false}, {"ES384", "ES384", true}, {"RS256", "HS256", false}, {"RS512", "", false}} {
			p := fmt.Sprintf("/shared-%s-%s", t.a, t.b)
			k := newKey(t.a, 4)
			k.kid = "s1"
			docs[p] = jwks(k)
			u := fmt.Sprintf("http://127.0.0.1:%d%s", js.Port, p)
			for _, n := range [][2]string{{"a", "b"}, {"b", "a"}} {
				cases = append(cases, cs{"shared url " + t.a + " " + t.b + " " + n[0], base(J{n[0]: J{"alg": t.a, "jwksUrl": u}, n[1]: J{"alg": t.b, "jwksUrl": u}}, A{J{"path": "/p/", "resource": "r", "jwt": n[1]}, J{"path": "/q/", "resource": "r", "jwt": n[0]}}), "", t.ok, "/p/x"})
			}
		}
		// several jwt, one of them bad
		hs := J{"alg": "HS256", "key": kitchenSecret}
		for i := 0; i < c.N(12, 60); i++ {
			k := keys[rng.Intn(len(keys))]
			alg := pick(rng, jwtAlgs)
			jw := J{}
			for n := 0; n < 1+rng.Intn(5); n++ {
				jw[token(rng, 4)] = hs
			}
			jw["a"] = J{"alg": alg, "key": k.text}
			cases = append(cases, cs{"one-of-several " + alg + " " + k.name, base(jw, A{J{"path": "/p/", "resource": "r", "jwt": "a"}}), "", k.ok(alg), "/p/x"})
			// unused by any route still counts
			cases = append(cases, cs{"unused " + alg + " " + k.name, base(jw, A{J{"path": "/p/", "resource": "r"}}), "", k.ok(alg), ""})
		}
		// route references
		ref := func(name string, jwts any, routes A, ok bool, path string) {
			cases = append(cases, cs{"route " + name, base(jwts, routes), "", ok, path})
		}
		h := J{"hs": hs}
		ref("names existing", h, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, true, "/p/x")
		for _, n := range []string{"HS", "h", "hss", "hs ", " hs", "*", "default", "none", "null", "0", "r"} {
			ref("names missing "+n, h, A{J{"path": "/p/", "resource": "r", "jwt": n}}, false, "/p/x")
			ref("names missing behind good "+n, h, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}, J{"path": "/p", "resource": "r", "jwt": n}, J{"path": "/", "resource": "r"}}, false, "/p/x")
			ref("about names missing "+n, h, A{J{"path": "/about", "resource": "about", "jwt": n}}, false, "")
		}
		ref("no jwt section", J{}, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, false, "/p/x")
		ref("null jwt section", nil, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, false, "/p/x")
		ref("jwt section a list", A{hs}, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, false, "/p/x")
		ref("jwt section text", "hs", A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, false, "/p/x")
		ref("jwt entry null", J{"hs": nil}, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, false, "/p/x")
		ref("jwt entry text", J{"hs": "HS256"}, A{J{"path": "/p/", "resource": "r", "jwt": "hs"}}, false, "/p/x")
		for n, v := range map[string]any{"list": A{"hs"}, "map": J{"name": "hs"}, "number": 5, "bool": true} {
			ref("jwt reference is a "+n, h, A{J{"path": "/p/", "resource": "r", "jwt": v}}, false, "/p/x")
		}
		for _, t := range []struct {
			v  string
			ok bool
		}{{"/", true}, {"/x", true}, {"/x/y", true}, {"x", false}, {"x/", false}, {".", false}, {" /x", false}, {"http://127.0.0.1/", false}, {"@evil", false}, {":80", false}, {"?q", false}, {"\\x", false}} {
			ref("transform "+t.v, h, A{J{"path": "/p/", "resource": "r", "transform": t.v, "jwt": "hs"}}, t.ok, "/p/x")
			ref("transform behind good "+t.v, h, A{J{"path": "/pp/", "resource": "r", "transform": "/"}, J{"path": "/p/", "resource": "r", "transform": t.v}}, t.ok, "")
		}
		for _, p := range []string{"/a[", "/(", "/a**", "/\\", "/(?<", "/a{2,1}"} {
			ref("illegal path "+p, h, A{J{"path": "/p/", "resource": "r"}, J{"path": p, "resource": "r"}}, false, "")
		}
		ref("no routes", h, A{}, false, "")
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		c.Par(len(cases), 14, func(i int) {
			t := cases[i]
			s := c.launch(t.cfg, StartOpt{Bin: bin, Level: "INFO"})
			defer s.Stop()
			up := s.WaitUp(40 * time.Second)
			d := J{"case": t.name}
			if up != t.ok {
				if !up && s.Alive() {
					c.Inconclusive("neither up nor ended: %s", t.name)
					return
				}
				j, _ := t.cfg["jwt"].(J)
				d["jwt"], d["routes"], d["log"] = j, t.cfg["routes"], s.Tail(3)
				if up {
					if t.path != "" {
						r, err := s.ex("GET", t.path, nil, nil)
						if err == nil {
							d["answer-without-token"] = r.Code
						}
					}
					c.Violate("unsafe-config-served", d)
				} else {
					c.Violate("valid-config-refused", d)
				}
				return
			}
			if !up {
				if s.WaitExit(20*time.Second) && s.ExitCode() == 0 {
					c.Violate("refused-with-exit-0", d)
				}
				c.Count("refused", 1)
			} else {
				c.Count("started", 1)
				if t.path != "" {
					r, err := s.ex("GET", t.path, nil, nil)
					if c.judge("protected", r, err, d) && r.Code != 401 {
						d["code"] = r.Code
						c.Violate("route-not-protected", d)
					}
				}
			}
			c.Case(t.name)
			if i < 5 {
				c.Sample(J{"case": t.name, "started": up})
			}
		})
	})
}
