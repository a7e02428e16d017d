package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// C35: secrets of configuration and traffic stay where they belong.

const gram = 16

// secretIndex finds any 16 consecutive characters of a registered secret, in any of a few spellings, in any output.
type secretIndex struct {
	mu sync.RWMutex
	m  map[[gram]byte]int32
	nm []secretInfo
}

type secretInfo struct {
	Name  string
	Owner string // "" = belongs to the configuration
}

func (x *secretIndex) put(id int32, b []byte) {
	b = bytes.ToLower(b)
	for i := 0; i+gram <= len(b); i++ {
		var g [gram]byte
		copy(g[:], b[i:])
		if _, ok := x.m[g]; !ok {
			x.m[g] = id
		}
	}
}

// add registers a secret whose characters are all random.
func (x *secretIndex) add(name, owner string, secret []byte) {
	x.mu.Lock()
	defer x.mu.Unlock()
	id := int32(len(x.nm))
	x.nm = append(x.nm, secretInfo{name, owner})
	x.put(id, secret)
	x.put(id, []byte(hex.EncodeToString(secret)))
	x.put(id, bytes.Trim([]byte(fmt.Sprint(secret)), "[]"))
	for off := 0; off < 3; off++ {
		p := append(make([]byte, off), secret...)
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			s := e.EncodeToString(p)
			if len(s) > 10 {
				x.put(id, []byte(s[4:len(s)-3]))
			}
		}
	}
}

// find reports the secrets that occur in b, except those for which own holds.
func (x *secretIndex) find(b []byte, own func(secretInfo) bool) []string {
	b = bytes.ToLower(b)
	x.mu.RLock()
	defer x.mu.RUnlock()
	var out []string
	for i := 0; i+gram <= len(b); i++ {
		if id, ok := x.m[[gram]byte(b[i:i+gram])]; ok {
			n := x.nm[id]
			if own == nil || !own(n) {
				from, to := i-60, i+gram+20
				if from < 0 {
					from = 0
				}
				if to > len(b) {
					to = len(b)
				}
				out = append(out, fmt.Sprintf("%s (of %q): ...%q", n.Name, n.Owner, b[from:to]))
				if len(out) > 3 {
					return out
				}
				i += gram
			}
		}
	}
	return out
}

const alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

func randText(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alnum[r.Intn(len(alnum))]
	}
	return string(b)
}

// addPrivate registers what is private about a key: the numbers, and the lines of its PEM form.
func (x *secretIndex) addPrivate(name string, key any, pemText string) {
	switch k := key.(type) {
	case *rsa.PrivateKey:
		for i, p := range append(k.Primes, k.D) {
			x.add(fmt.Sprint(name, " number ", i), "", p.Bytes())
			x.add(fmt.Sprint(name, " decimal ", i), "", []byte(p.String()))
		}
	case *ecdsa.PrivateKey:
		x.add(name+" number", "", k.D.Bytes())
		x.add(name+" decimal", "", []byte(k.D.String()))
	}
	if blk, _ := pem.Decode([]byte(pemText)); blk != nil && len(blk.Bytes) > 700 {
		// the second half of an RSA key's DER is private in full
		ls := strings.Split(strings.TrimSpace(pemText), "\n")
		for _, l := range ls[len(ls)/2 : len(ls)-1] {
			x.mu.Lock()
			x.nm = append(x.nm, secretInfo{name + " pem", ""})
			x.put(int32(len(x.nm)-1), []byte(l))
			x.mu.Unlock()
		}
	}
}

func init() {
	register("C35", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "servers at TRACE, DEBUG, INFO (plain and TLS with RSA and EC keys) with HMAC, PEM, JWKS and none jwts; requests with random secrets in Authorization (valid, re-signed, expired, premature, cut, damaged, other schemes, doubled), Cookie, key headers and bodies, answers with random secrets in Set-Cookie, headers and bodies, over every kind of outcome; refused start-ups with secrets in the configuration. All process output is searched for any 16 characters of any secret (plain, hex, decimal, base64), each response for secrets of the configuration and of other requests, each upstream request for secrets of the configuration; key = level, request class, outcome or start-up class"
		c.assume = []string{"request paths, query strings, user agents and claims are not secrets; what upstream puts where its status line or framing should be is not either", "texts the YAML parser itself cannot decode (an unknown alias, a wrong !!tag) are quoted in its error and not judged"}
		bin := c.buildJ8a(false)
		rng := c.Rng("secrets")
		ix := &secretIndex{m: map[[gram]byte]int32{}}

		type out struct {
			mu sync.Mutex
			b  bytes.Buffer
		}
		capture := func() (*out, func([]byte)) {
			o := &out{}
			return o, func(l []byte) {
				o.mu.Lock()
				o.b.Write(l)
				o.b.WriteByte('\n')
				o.mu.Unlock()
			}
		}
		type site struct {
			name string
			s    *Server
			k    *kitchen
			o    *out
			p    *pki
			h2   *h2Client
			keys map[string]*jkey
			hsx  []string
		}
		mkSite := func(name, level string, tlsKind string) *site {
			t := &site{name: name, keys: map[string]*jkey{}}
			k := &kitchen{Sc: newScripted(nil), Dead: c.deadPort()}
			k.Up = c.newUpstream(name, k.Sc.Handle)
			jwts, routes := J{"hs": J{"alg": "HS256", "key": kitchenSecret}}, A{}
			ks := c.newUpstream("keys", func(r *UpReq, w *UpConn) {
				w.Reply(r, 200, hv("Content-Type", "application/json"), []byte(jwks(t.keys["rsj"], t.keys["rsj"])))
			})
			for _, a := range []string{"HS256", "HS384", "HS512"} {
				sec := randText(rng, 40)
				ix.add(a+" secret", "", []byte(sec))
				t.keys["j"+a] = &jkey{alg: a, secret: []byte(sec)}
				jwts["j"+a] = J{"alg": a, "key": sec}
			}
			t.keys["rs"], t.keys["es"], t.keys["rsj"] = newKey("RS256", 0), newKey("ES384", 0), newKey("PS256", 1)
			t.keys["rsj"].kid = "k"
			jwts["rs"], jwts["es"] = J{"alg": "RS256", "key": t.keys["rs"].keyText(false)}, J{"alg": "ES384", "key": t.keys["es"].keyText(true)}
			jwts["rsj"] = J{"alg": "PS256", "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/k", ks.Port)}
			jwts["none"] = J{"alg": "none"}
			for _, n := range []string{"jHS256", "jHS384", "jHS512", "rs", "es", "rsj", "none"} {
				routes = append(routes, J{"path": "/" + n + "/", "resource": "r", "jwt": n})
				t.hsx = append(t.hsx, n)
			}
			down := J{"maxBodyBytes": 1000, "roundTripTimeoutSeconds": 6}
			if tlsKind != "" {
				t.p = newPKI()
				if tlsKind == "EC" {
					t.p.leaf = issue(t.p.inter, certOpt{ec: true, to: 300 * 24 * time.Hour})
				}
				kp := t.p.leaf.keyPEM()
				ix.addPrivate(name+" tls key", t.p.leaf.key, kp)
				down = t.p.down(down)
			}
			cfg := c.kitchenCfg(down, J{"maxAttempts": 3, "readTimeoutSeconds": 1}, k.Up, k.Dead)
			cfg["jwt"] = jwts
			cfg["routes"] = append(cfg["routes"].(A), routes...)
			o, f := capture()
			t.o = o
			k.S = c.start(cfg, StartOpt{Bin: bin, Level: level, TLS: tlsKind != "", OnLine: f})
			t.k, t.s = k, k.S
			if t.p != nil {
				t.h2 = t.s.h2(t.p.client())
			}
			return t
		}
		sites := []*site{mkSite("trace", "TRACE", ""), mkSite("trace-tls", "TRACE", "RSA"), mkSite("debug-tls", "DEBUG", "EC"), mkSite("info", "INFO", "")}

		kinds := respKinds()
		type cs struct {
			t       *site
			class   string
			kd      respKind
			id      string
			method  string
			target  string
			hs      Headers
			body    []byte
			steps   []Step
			ver     string
			visible string
		}
		var cases []*cs
		n := c.N(1800, 20000)
		for i := 0; i < n; i++ {
			x := &cs{t: sites[i%len(sites)], id: fmt.Sprintf("s%d.", i), ver: "1.1"}
			kd := kinds[rng.Intn(len(kinds))]
			if kd.slow && rng.Intn(6) > 0 {
				kd = kinds[rng.Intn(9)]
			}
			x.kd = kd
			x.method, x.target, x.body = kd.method, strings.ReplaceAll(kd.target, "@", x.id), kd.body
			x.visible = randText(rng, 24)
			x.hs = hv("X-Case", x.id, "X-Request-Id", x.visible)
			for _, h := range kd.hs {
				if h.V == "@token" {
					h.V = "Bearer " + x.t.k.token()
				}
				x.hs = append(x.hs, h)
			}
			x.class = "plain"
			sec := func(name string, n int) string {
				s := randText(rng, n)
				ix.add(name, "request "+x.id, []byte(s))
				return s
			}
			if strings.HasPrefix(x.target, "/r/") && !x.hs.Has("Authorization") && rng.Intn(2) == 0 {
				jn := pick(rng, x.t.hsx)
				x.target = "/" + jn + "/" + x.id
				key := x.t.keys[jn]
				if key == nil {
					key = newKey("HS256", 1)
				}
				cl := J{"sub": "x", "exp": time.Now().Add(time.Hour).Unix()}
				x.class = pick(rng, []string{"valid", "valid", "expired", "premature", "resigned", "cut", "damaged", "payload", "header", "lower-scheme", "basic", "bare", "twice", "spaces", "five-parts", "json", "unknown-kid"})
				hd := J{}
				switch x.class {
				case "expired":
					cl["exp"] = time.Now().Unix() - 9999
				case "premature":
					cl["nbf"] = time.Now().Unix() + 9999
				case "unknown-kid":
					hd["kid"] = "k" + x.id
				case "resigned":
					key = newKey(key.alg, 7)
				}
				if key.kid != "" && hd["kid"] == nil {
					hd["kid"] = key.kid
				}
				// a random claim makes the whole token random, the signature with it
				cl["jti"] = x.id + randText(rng, 8)
				tok := key.sign(hd, cl)
				parts := strings.Split(tok, ".")
				sig := parts[2]
				ix.mu.Lock()
				ix.nm = append(ix.nm, secretInfo{"token signature", "request " + x.id})
				ix.put(int32(len(ix.nm)-1), []byte(sig))
				ix.mu.Unlock()
				a := "Bearer " + tok
				switch x.class {
				case "cut":
					a = a[:len(a)-1-rng.Intn(10)]
				case "damaged":
					p := len(a) - 1 - rng.Intn(len(sig))
					a = a[:p] + pick(rng, []string{"!", "=", "*", "%", " ", "\t", "~"}) + a[p+1:]
				case "payload":
					a = "Bearer " + parts[0] + "." + b64([]byte("{\"exp\":"+pick(rng, []string{"\"never\"", "[]", "1e400", "{", "nul"})+"}")) + "." + sig
				case "header":
					a = "Bearer " + b64([]byte(pick(rng, []string{"{}", "{\"alg\":7}", "{\"alg\":\"XX\"}", "[", ""}))) + "." + parts[1] + "." + sig
				case "lower-scheme":
					a = "bearer " + tok
				case "basic":
					a = "Basic " + base64.StdEncoding.EncodeToString([]byte("user:"+sec("password", 30)))
				case "bare":
					a = tok
				case "twice":
					x.hs = append(x.hs, HV{"Authorization", "Bearer " + sec("credential", 40)})
				case "spaces":
					a = "Bearer   " + tok
				case "five-parts":
					a = "Bearer " + tok + "." + sec("part", 30) + "." + sec("part", 30)
				case "json":
					a = "Bearer {\"payload\":\"" + parts[1] + "\",\"signatures\":[{\"protected\":\"" + parts[0] + "\",\"signature\":\"" + sig + "\"}]}"
				}
				x.hs = append(x.hs, HV{"Authorization", a})
			} else if !x.hs.Has("Authorization") && rng.Intn(2) == 0 {
				x.hs = append(x.hs, HV{"Authorization", pick(rng, []string{"Basic ", "Digest response=", "Bearer ", "Negotiate ", ""}) + sec("credential", 60)})
			}
			for _, h := range []string{"Cookie", "X-Api-Key", "Proxy-Authorization", "X-Auth-Token", "Authentication", "X-Amz-Security-Token"} {
				if rng.Intn(3) == 0 {
					x.hs = append(x.hs, HV{h, pick(rng, []string{"session=", "", "a; "}) + sec(h, 30)})
				}
			}
			if rng.Intn(4) == 0 {
				x.hs = append(x.hs, HV{"X-Request-Debug", "true"})
			}
			if x.body != nil && kd.name != "bad-body" && len(x.body) < 100 {
				x.body = []byte(sec("request body", 200))
			} else if len(x.body) > 100 {
				x.body = []byte(sec("request body", 2000))
			}
			for _, st := range kd.steps {
				st := st
				if rng.Intn(2) == 0 {
					// an answer of upstream that carries secrets itself
					code := pick(rng, []int{200, 200, 201, 401, 403, 404, 500, 503})
					st = answerClose(code, hv("Set-Cookie", "sid="+sec("set-cookie", 40)+"; HttpOnly", "X-Session", sec("response header", 40), "Www-Authenticate", "Digest nonce="+sec("nonce", 30)), []byte(sec("response body", 300)))
				}
				x.steps = append(x.steps, st)
			}
			if x.t.h2 != nil && !kd.h1 && rng.Intn(2) == 0 {
				x.ver = "2"
			}
			cases = append(cases, x)
		}
		for _, x := range cases {
			if len(x.steps) > 0 {
				x.t.k.Sc.Set(x.id, x.steps...)
			}
		}
		c.Par(len(cases), 48, func(i int) {
			x := cases[i]
			d := J{"site": x.t.name, "class": x.class, "outcome": x.kd.name, "method": x.method, "target": x.target, "version": x.ver}
			var r *Resp
			var err error
			if x.ver == "2" {
				r, err = x.t.h2.ex(x.method, x.target, x.hs, x.body)
			} else {
				raw := reqText(x.method, x.target, x.hs, x.body)
				if x.hs.Has("Transfer-Encoding") {
					raw = fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\n", x.method, x.target)
					for _, h := range x.hs {
						raw += h.K + ": " + h.V + "\r\n"
					}
					raw += "\r\n" + string(x.body)
				}
				if x.t.p != nil {
					cl, e := dial(x.t.s.Addr, x.t.p.client())
					if e != nil {
						c.Inconclusive("dial: %v", e)
						return
					}
					defer cl.Close()
					go cl.Send(raw)
					r, err = cl.Read(x.method, watchdog)
				} else {
					r, err = x.t.s.exchange(x.method, raw)
				}
			}
			if err != nil || r == nil {
				c.Count("unanswered", 1) // other checks judge that
				return
			}
			var b bytes.Buffer
			for _, h := range r.H {
				fmt.Fprintf(&b, "%s: %s\n", h.K, h.V)
			}
			b.Write(r.Body)
			if rb, e := gunzip(r.Body); e == nil {
				b.WriteByte('\n')
				b.Write(rb)
			}
			if f := ix.find(b.Bytes(), func(n secretInfo) bool {
				return n.Owner == "request "+x.id && (strings.HasPrefix(n.Name, "response") || n.Name == "set-cookie" || n.Name == "nonce")
			}); len(f) > 0 {
				d["found"], d["code"] = f, r.Code
				c.Violate("secret-in-response", d)
				return
			}
			c.Count("responses_searched", 1)
			c.Case(fmt.Sprintf("%s %s %s %d", x.t.name, x.class, x.kd.name, r.Code))
			if i < 3 {
				c.Sample(d)
			}
		})
		time.Sleep(300 * time.Millisecond)
		for _, t := range sites {
			for _, q := range t.k.Up.Reqs() {
				var b bytes.Buffer
				fmt.Fprintf(&b, "%s %s\n", q.Method, q.Target)
				for _, h := range q.H {
					fmt.Fprintf(&b, "%s: %s\n", h.K, h.V)
				}
				b.Write(q.Body)
				me := "request " + q.Case()
				if f := ix.find(b.Bytes(), func(n secretInfo) bool { return n.Owner == me }); len(f) > 0 {
					c.Violate("secret-to-upstream", J{"site": t.name, "case": q.Case(), "found": f})
				}
				c.Count("upstream_requests_searched", 1)
			}
			// sensitivity: what may be logged is found by the same search
			vis := &secretIndex{m: map[[gram]byte]int32{}}
			for _, x := range cases {
				if x.t == t {
					vis.add("visible", "", []byte(x.visible))
				}
			}
			c.checkHealth(t.s)
			t.s.Stop()
			t.o.mu.Lock()
			b := append([]byte(nil), t.o.b.Bytes()...)
			t.o.mu.Unlock()
			c.Count("output_bytes_searched", len(b))
			if len(vis.find(b, nil)) == 0 {
				c.Inconclusive("no request id found in the output of %s", t.name)
			}
			if f := ix.find(b, nil); len(f) > 0 {
				c.Violate("secret-in-output", J{"site": t.name, "found": f})
			}
		}

		// start-ups that end early
		type bad struct {
			name string
			cfg  J
			raw  string
			env  bool
		}
		var bads []bad
		app := c.newUpstream("app", func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte("x")) })
		secret := func(name string) string {
			s := randText(rng, 40)
			ix.add(name, "", []byte(s))
			return s
		}
		base := func(down, up J, jwts any, rt J) J {
			r := J{"path": "/x/", "resource": "r"}
			for k, v := range rt {
				r[k] = v
			}
			return J{"connection": J{"downstream": down, "upstream": up}, "jwt": jwts, "routes": A{r}, "resources": J{"r": resourceOf(app)}}
		}
		pk := newPKI()
		ix.addPrivate("refused tls key", pk.leaf.key, pk.leaf.keyPEM())
		good := func() J { return J{"a": J{"alg": "HS256", "key": secret("hs")}} }
		for _, alg := range append([]string{"none", "", "XX256", "HS999", "EdDSA"}, jwtAlgs...) {
			for _, skew := range []any{nil, "-1", "x"} {
				j := J{"alg": alg, "key": secret("key under " + alg)}
				if skew != nil {
					j["acceptableSkewSeconds"] = skew
				}
				bads = append(bads, bad{name: fmt.Sprintf("alg %q skew %v", alg, skew), cfg: base(J{}, J{}, J{"a": j}, J{"jwt": "a"})})
			}
		}
		for n, v := range map[string]any{"list": A{secret("list")}, "object": J{"k": secret("object")}, "nested": J{"k": A{J{"v": secret("nested")}}}} {
			bads = append(bads, bad{name: "key is " + n, cfg: base(J{}, J{}, J{"a": J{"alg": "HS256", "key": v}}, J{"jwt": "a"})})
		}
		bads = append(bads,
			bad{name: "jwt is text", cfg: base(J{}, J{}, J{"a": secret("jwt text")}, nil)},
			bad{name: "jwts are a list", cfg: base(J{}, J{}, A{J{"alg": "HS256", "key": secret("jwt list")}}, nil)},
			bad{name: "unknown jwt", cfg: base(J{}, J{}, good(), J{"jwt": "b"})},
			bad{name: "bad transform", cfg: base(J{}, J{}, good(), J{"transform": "x"})},
			bad{name: "bad port", cfg: base(J{"port": "x"}, J{}, good(), nil)},
			bad{name: "bad number", cfg: base(J{}, J{"maxAttempts": "many"}, good(), nil)},
			bad{name: "bad mode", cfg: base(J{"mode": "SSL", "cert": "x", "key": secret("tls key")}, J{}, good(), nil)},
			bad{name: "bad tls key", cfg: base(J{"mode": "TLS", "cert": pk.leaf.pem(), "key": secret("tls key")}, J{}, good(), nil)},
			bad{name: "other tls key", cfg: base(J{"mode": "TLS", "cert": newPKI().inter.pem(), "key": pk.leaf.keyPEM()}, J{}, good(), nil)},
			bad{name: "key as cert", cfg: base(J{"mode": "TLS", "cert": pk.leaf.keyPEM(), "key": pk.leaf.keyPEM()}, J{}, good(), nil)},
			bad{name: "key in cert", cfg: base(J{"mode": "TLS", "cert": pk.leaf.pem() + pk.leaf.keyPEM(), "key": pk.leaf.keyPEM()}, J{}, good(), nil)},
			bad{name: "damaged tls key", cfg: base(J{"mode": "TLS", "cert": pems(pk.leaf, pk.inter, pk.root), "key": strings.Replace(pk.leaf.keyPEM(), "\n", "\n*", 3)}, J{}, good(), nil)},
			bad{name: "cut tls key", cfg: base(J{"mode": "TLS", "cert": pems(pk.leaf, pk.inter, pk.root), "key": pk.leaf.keyPEM()[:1500]}, J{}, good(), nil)},
			bad{name: "no cert", cfg: base(J{"mode": "TLS", "key": pk.leaf.keyPEM()}, J{}, good(), nil)},
		)
		for n, f := range map[string]string{
			"unclosed quote": "jwt:\n  a:\n    alg: HS256\n    key: \"%s\nroutes:\n  - path: /\n    resource: r\n",
			"tab":            "jwt:\n  a:\n    alg: HS256\n\tkey: %s\n",
			"bare word":      "jwt:\n  a:\n    alg: HS256\n    %s\n    key: x\n",
			"colon":          "jwt:\n  a:\n    alg: HS256\n    key: %[1]s: %[1]s: x\n",
			"twice":          "jwt:\n  a:\n    alg: HS256\n    key: %[1]s\n    key: %[1]s\n",
			"block":          "jwt:\n  a:\n    alg: HS256\n    key: |\n   %s\n",
			"only":           "%s",
			"json cut":       "{\"jwt\": {\"a\": {\"alg\": \"HS256\", \"key\": \"%s\"",
			"binary":         "jwt:\n  a:\n    alg: HS256\n    key: !!binary %s!\n",
		} {
			bads = append(bads, bad{name: "yaml " + n, raw: "connection:\n  downstream:\n    port: @PORT@\n" + fmt.Sprintf(f, secret("yaml "+n))})
			bads = append(bads, bad{name: "env yaml " + n, env: true, raw: "connection:\n  downstream:\n    port: @PORT@\n" + fmt.Sprintf(f, secret("env yaml "+n))})
		}
		c.Par(len(bads), 8, func(i int) {
			b := bads[i]
			o, f := capture()
			s := c.launch(b.cfg, StartOpt{Bin: bin, Raw: b.raw, ViaEnv: b.env, Level: "TRACE", OnLine: f})
			ended := s.WaitExit(400 * time.Millisecond)
			up := false
			if !ended {
				up = s.WaitUp(20 * time.Second)
			}
			s.Stop()
			o.mu.Lock()
			defer o.mu.Unlock()
			if f := ix.find(o.b.Bytes(), nil); len(f) > 0 {
				c.Violate("secret-in-startup-output", J{"config": b.name, "found": f})
				return
			}
			c.Count("startups_searched", 1)
			c.Case(fmt.Sprintf("start %s up=%v", b.name, up))
		})
		ix.mu.RLock()
		c.Count("secrets", len(ix.nm))
		ix.mu.RUnlock()
	})
}
