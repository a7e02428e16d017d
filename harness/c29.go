package main

import (
	"crypto/tls"
	"fmt"
	"strings"
	"sync"
	"time"
)

// C29: about endpoint.

func init() {
	register("C29", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "about routes without and with a jwt (HS256, RS256 with rotating JWKS kid) beside catch-all and deeper upstream routes, on plain and TLS servers with given and default version; exact path x 16 methods x headers (conditional, range, encodings, upgrade, expectations), queries, bodies, HTTP/1.0, 1.1, 2; near-miss paths; all token forgeries of C13; oracle: about document with the identity the server logs, 401 for bad tokens, no about document elsewhere, upstreams contacted only by the others; key = route, class, method"
		bin := c.buildJ8a(false)
		rng := c.Rng("about")
		key := newKey("RS256", 27)
		key.kid = "about-key"
		type site struct {
			s    *Server
			u    *Upstream
			p    *pki
			h2   *h2Client
			ver  string // expected version, "" = any
			want map[string]int
		}
		var mu sync.Mutex
		mk := func(tlsMode bool, env []string, ver string) *site {
			t := &site{ver: ver, want: map[string]int{}}
			t.u = c.newUpstream("u", func(r *UpReq, w *UpConn) { w.Reply(r, 200, hv("X-From", "upstream"), []byte("from upstream")) })
			ks := c.newUpstream("keys", func(r *UpReq, w *UpConn) {
				w.Reply(r, 200, hv("Content-Type", "application/json"), []byte(jwks(key)))
			})
			down := J{"maxBodyBytes": 1000}
			o := StartOpt{Bin: bin, Env: env, TLS: tlsMode, Level: "INFO"}
			if tlsMode {
				t.p = newPKI()
				down = t.p.down(down)
			}
			rs := A{
				J{"path": "/about", "resource": "about"},
				J{"path": "/status/of/j8a", "resource": "about"},
				J{"path": "/secured", "resource": "about", "jwt": "hs"},
				J{"path": "/rs/secured", "resource": "about", "jwt": "rs"},
				J{"path": "/about/deeper", "resource": "r"},
				J{"path": "/", "resource": "r"},
			}
			rng.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
			t.s = c.start(J{"connection": J{"downstream": down, "upstream": J{}},
				"jwt":       J{"hs": J{"alg": "HS256", "key": kitchenSecret}, "rs": J{"alg": "RS256", "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/keys", ks.Port)}},
				"routes":    rs,
				"resources": J{"r": resourceOf(t.u)}}, o)
			if tlsMode {
				t.h2 = t.s.h2(t.p.client())
			}
			return t
		}
		sites := []*site{mk(false, nil, ""), mk(false, []string{"VERSION=v9.8.7-custom"}, "v9.8.7-custom"), mk(true, []string{"VERSION=v1 \"quoted\""}, "")}
		hsKey := &jkey{alg: "HS256", secret: []byte(kitchenSecret)}
		farm := &jwtFarm{Jwks: &Upstream{}}
		routes := map[string]*jroute{
			"/secured":    {name: "hs", alg: "HS256", path: "/secured", keys: []*jkey{hsKey}},
			"/rs/secured": {name: "rs", alg: "RS256", path: "/rs/secured", keys: []*jkey{key}},
		}
		farm.Routes = []*jroute{routes["/secured"], routes["/rs/secured"]}
		paths := []string{"/about", "/status/of/j8a", "/secured", "/rs/secured"}
		methods := []string{"GET", "GET", "GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "PATCH", "PROPFIND", "FOO", "M-SEARCH", "get", "CONNECT", "X"}
		heads := []Headers{nil, nil, hv("Accept-Encoding", "gzip"), hv("Accept-Encoding", "br;q=1, gzip;q=0.5"), hv("Accept-Encoding", "gzip;q=0"), hv("Range", "bytes=0-3"), hv("If-None-Match", "*"),
			hv("If-Modified-Since", "Wed, 21 Oct 2099 07:28:00 GMT"), hv("If-Match", "\"x\""), hv("Accept", "text/html;q=1, application/json;q=0"), hv("X-Request-Id", "my-own"), hv("X-Request-Debug", "true"),
			hv("X-Http-Method-Override", "DELETE"), hv("Upgrade", "h2c", "Connection", "Upgrade"), hv("Cookie", "a=b"), hv("Authorization", "Basic eDp5"), hv("Host", "elsewhere.example"), hv("X-Original-URL", "/r"), hv("X-Forwarded-For", "1.2.3.4"), hv("TE", "trailers"), hv("Content-Type", "application/json")}
		type cs struct {
			t      *site
			class  string
			path   string
			target string
			method string
			hs     Headers
			body   []byte
			ver    string
			code   int // 200 or 401 = about rules, 0 = no about document
			up     int // -1 not judged
			id     string
		}
		var cases []cs
		add := func(x cs) {
			x.id = fmt.Sprintf("c%d", len(cases))
			x.hs = append(append(Headers{}, x.hs...), HV{"X-Case", x.id})
			cases = append(cases, x)
		}
		good := func(p string) Headers {
			if rt := routes[p]; rt != nil {
				return hv("Authorization", "Bearer "+rt.keys[0].sign(J{"kid": "about-key"}, J{"sub": "x", "exp": time.Now().Add(time.Hour).Unix()}))
			}
			return nil
		}
		without := func(hs Headers, k string) Headers {
			var o Headers
			for _, h := range hs {
				if !strings.EqualFold(h.K, k) {
					o = append(o, h)
				}
			}
			return o
		}
		for i := 0; i < c.N(700, 10000); i++ {
			t, p := sites[i%3], paths[rng.Intn(4)]
			h := pick(rng, heads)
			if routes[p] != nil {
				h = without(h, "Authorization")
			}
			x := cs{t: t, class: "exact", path: p, method: methods[i%len(methods)], ver: "1.1", code: 200, hs: append(append(Headers{}, h...), good(p)...)}
			x.target = p + pick(rng, []string{"", "", "?", "?x=1", "?a=b&c=%2f", "?/about", "?https://x/"})
			switch rng.Intn(6) {
			case 0:
				x.ver = "1.0"
			case 1, 2:
				if t.h2 != nil {
					x.ver = "2"
				}
			}
			if x.method != "HEAD" && x.method != "CONNECT" && rng.Intn(4) == 0 {
				x.body = randBody(rng, 1+rng.Intn(3000))
			}
			if x.ver == "2" && (x.method == "CONNECT" || x.method == "get" || x.hs.Has("Upgrade") || x.hs.Has("TE")) {
				x.ver = "1.1"
			}
			add(x)
		}
		for rep := 0; rep < c.N(2, 12); rep++ {
			for p, rt := range map[string]*jroute{"/secured": routes["/secured"], "/rs/secured": routes["/rs/secured"]} {
				fs, _ := c13forge(rng, farm, rt)
				for _, f := range fs {
					x := cs{t: sites[len(cases)%3], class: "forged " + f.name, path: p, target: p, method: pick(rng, methods), ver: "1.1", code: 401}
					for _, a := range f.auth {
						x.hs = append(x.hs, HV{"Authorization", a})
					}
					add(x)
				}
				for _, m := range methods {
					add(cs{t: sites[len(cases)%3], class: "no token", path: p, target: p, method: m, ver: "1.1", code: 401, hs: pick(rng, []Headers{nil, hv("Authorization", ""), hv("Access-Control-Request-Method", "GET", "Origin", "https://x")})})
					add(cs{t: sites[len(cases)%3], class: "foreign token", path: p, target: p, method: m, ver: "1.1", code: 401, hs: hv("Authorization", "Bearer "+hs256("not the secret of any route", nil, J{"exp": time.Now().Unix() + 3000}))})
				}
				for name, cl := range map[string]J{"expired": {"exp": time.Now().Unix() - 4000}, "not-yet": {"nbf": time.Now().Unix() + 4000}, "issued-later": {"iat": time.Now().Unix() + 4000}} {
					add(cs{t: sites[len(cases)%3], class: name, path: p, target: p, method: "GET", ver: "1.1", code: 401, hs: hv("Authorization", "Bearer "+rt.keys[0].sign(nil, cl))})
				}
			}
			for _, p := range paths {
				for name, near := range map[string]string{"suffix": p + "x", "slash": p + "/", "below": p + "/x", "dot": p + ".json", "semicolon": p + ";v=1", "cut": p[:len(p)-1], "upper": strings.ToUpper(p), "prefixed": "/x" + p, "doubled": p + p, "encoded-slash": p + "%2f", "encoded-nul": p + "%00", "deeper": "/about/deeper/x"} {
					x := cs{t: sites[len(cases)%3], class: "near " + name, path: p, target: near, method: pick(rng, []string{"GET", "POST", "GET"}), ver: "1.1", up: -1}
					switch name {
					case "cut", "upper", "prefixed", "deeper":
						x.up = 1
					}
					add(x)
				}
			}
		}
		ids := make([]map[aboutDoc]int, len(sites))
		for i := range ids {
			ids[i] = map[aboutDoc]int{}
		}
		c.Par(len(cases), 24, func(i int) {
			x := cases[i]
			if i%8 == 3 && x.ver != "2" && x.method != "CONNECT" && strings.HasPrefix(x.target, "/") {
				x.target = pick(c.Rng(fmt.Sprint("abs", i)), []string{"http://j8a.test", "http://127.0.0.1:1", "https://u@other.test:443"}) + x.target
				x.class += " absolute"
			}
			d := J{"class": x.class, "target": x.target, "method": x.method, "headers": x.hs.text(), "version": x.ver, "tls": x.t.p != nil, "body": len(x.body)}
			var r *Resp
			var err error
			if x.ver == "2" {
				r, err = x.t.h2.ex(x.method, x.target, x.hs, x.body)
			} else {
				tx := reqText(x.method, x.target, x.hs, x.body)
				if x.ver == "1.0" {
					tx = strings.Replace(tx, " HTTP/1.1\r\n", " HTTP/1.0\r\n", 1)
				}
				var tc *tls.Config
				if x.t.p != nil {
					tc = x.t.p.client()
				}
				cl, e := dial(x.t.s.Addr, tc)
				if e != nil {
					c.Inconclusive("dial %v", e)
					return
				}
				defer cl.Close()
				go cl.Send(tx)
				m := x.method
				if x.code == 401 || x.method == "CONNECT" {
					m = map[bool]string{true: "HEAD", false: "GET"}[x.method == "HEAD"]
				}
				r, err = cl.Read(m, watchdog)
			}
			if !c.judge("about", r, err, d) {
				return
			}
			d["code"] = r.Code
			doc, why := aboutDoc{}, ""
			headOnly := x.method == "HEAD"
			switch {
			case x.code == 0:
				if _, w := aboutBody(r); w == "" {
					d["got"] = clip(r.Body)
					c.Violate("about-elsewhere", d)
				}
				if x.up == 1 && r.Code != 200 {
					c.Violate("neighbour-not-proxied", d)
				}
			case x.code == 401 && headOnly:
				if w := headWrapper(r, 401); w != "" {
					d["why"] = w
					c.Violate("token-rules", d)
				}
			case x.code == 401:
				if w := wrapper(r, 401); w != "" {
					d["why"] = w
					c.Violate("token-rules", d)
				}
			case headOnly:
				if r.Code != 200 || len(r.Body) > 0 || !strings.HasPrefix(r.H.Get("Content-Type"), "application/json") || !strings.HasPrefix(r.H.Get("Server"), "j8a ") {
					c.Violate("about-head", d)
				}
			default:
				doc, why = aboutBody(r)
				if why != "" {
					d["why"] = why
					c.Violate("about-document", d)
					return
				}
				if x.t.ver != "" && doc.Version != x.t.ver {
					d["version"] = doc.Version
					c.Violate("version", d)
				}
				for k, t := range sites {
					if t == x.t {
						mu.Lock()
						ids[k][doc]++
						mu.Unlock()
					}
				}
			}
			if n := len(x.t.u.ForCase(x.id)); x.up >= 0 && n != x.up {
				d["upstream-requests"] = n
				c.Violate("upstream-contact", d)
			}
			c.Case(x.path + "/" + x.class + "/" + x.method)
			if i < 3 {
				c.Sample(d)
			}
		})
		for k, t := range sites {
			if len(ids[k]) > 1 {
				c.Violate("identity-changes", J{"seen": fmt.Sprint(ids[k])})
			}
			for d, n := range ids[k] {
				c.Count("documents", n)
				for _, l := range t.s.Served() {
					if l.S("srvId") != d.ServerID {
						c.Violate("identity-not-as-logged", J{"document": d, "record": l})
					}
					break
				}
				for _, l := range t.s.Lines() {
					if m := l.S("message"); strings.Contains(m, " listening in ") && !strings.HasPrefix(m, "j8a "+d.Version+" ") {
						c.Violate("version-not-as-logged", J{"document": d, "message": m})
					}
				}
			}
			c.checkHealth(t.s)
		}
	})
}
