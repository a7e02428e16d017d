package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"path"
	"strings"
)

// C02: URI fidelity, transforms and confinement to the configured host.

type c02route struct {
	path, tr string
	host     string
	up       *Upstream
}

func c02rest(r *rand.Rand, rp, tr string, ports []int) string {
	const safe = "abcXYZ019-._~!$&'()*+,;=:@"
	seg := func() string {
		n := 1 + r.Intn(6)
		b := make([]byte, 0, n*3)
		for i := 0; i < n; i++ {
			switch r.Intn(8) {
			case 0:
				b = append(b, fmt.Sprintf("%%%02X", r.Intn(256))...)
			case 1:
				b = append(b, fmt.Sprintf("%%%02x", 0x20+r.Intn(0x5f))...)
			default:
				b = append(b, safe[r.Intn(len(safe))])
			}
		}
		return string(b)
	}
	var s string
	switch r.Intn(12) {
	case 10: // long ones
		n := pick(r, []int{250, 500, 1000, 2030, 4080, 8000, 30000, 100000}) + r.Intn(40)
		sep := pick(r, []string{"", "/", "=&", "%2F", "?", "+"})
		var b strings.Builder
		b.WriteString("/" + pick(r, []string{"", "?q="}))
		for k := 1; b.Len() < n; k++ {
			b.WriteString(seg())
			if k%3 == 0 {
				b.WriteString(sep)
			}
		}
		s = b.String()
	case 0:
		s = ""
	case 1:
		s = "/"
	case 2: // authority tricks directly behind the route path
		s = pick(r, []string{"@127.0.0.2:%d/x", ":%d/x", "@127.0.0.2:%d", ".127.0.0.2:%d/y", "%%40127.0.0.2:%d/x", "1", "0/x", ":80@127.0.0.2:%d/z", "@[::1]:%d/"})
		if strings.Contains(s, "%d") {
			s = fmt.Sprintf(s, pick(r, ports))
		}
	case 3: // route path again
		s = "/x" + rp + "/y"
	case 4:
		s = rp
	case 5:
		s = "?r=" + rp + "&t=" + tr
	case 6:
		s = "/" + seg() + "?" + seg() + "=" + seg() + "&" + seg()
	case 7:
		s = "/" + seg() + "?u=http://127.0.0.2:" + fmt.Sprint(pick(r, ports)) + "/"
	case 8:
		s = "/" + seg() + "?"
	case 9:
		s = "/%2e%2e%2f" + seg() + "/" + seg()
	default:
		s = "/" + seg() + "/" + seg() + "/" + seg()
	}
	return s
}

func unesc(s string) string {
	if u, err := url.PathUnescape(s); err == nil {
		return u
	}
	return s
}

func cleanish(p string) bool {
	q := p
	if i := strings.IndexByte(q, '?'); i >= 0 {
		q = q[:i]
	}
	q = unesc(q)
	c := path.Clean(q)
	if strings.HasSuffix(q, "/") && c != "/" {
		c += "/"
	}
	return c == q
}

func init() {
	register("C02", func(c *Ctx) {
		c.rule = "random URIs (all escapes, sub-delims, authority-like text behind the route path, repeated route paths, empty and tricky queries) over 14 routes with and without transform, each proxied with 0-2 failing attempts first; decoy listeners on 127.0.0.2 and other ports; key = transform kind x URI shape x attempts"
		c.assume = []string{"route paths with transform are literals", "URIs with dot segments or // in their decoded path are redirected by the Go mux and only checked for confinement"}
		bin := c.buildJ8a(false)
		rng := c.Rng("uris")
		sc := newScripted(nil)
		h := sc.Handle
		var ups []*Upstream
		var ports []int
		for i := 0; i < 4; i++ {
			u := c.newUpstream(fmt.Sprint("u", i), h)
			ups = append(ups, u)
			ports = append(ports, u.Port)
		}
		decoy := func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte("decoy")) }
		var decoys []*Upstream
		for i, u := range ups {
			decoys = append(decoys, c.newUpstreamAt(fmt.Sprint("d", i), fmt.Sprintf("127.0.0.2:%d", u.Port), nil, decoy))
			decoys = append(decoys, c.newUpstreamAt(fmt.Sprint("e", i), "127.0.0.2:0", nil, decoy))
			decoys = append(decoys, c.newUpstreamAt(fmt.Sprint("l", i), "127.0.0.1:0", nil, decoy))
		}
		for _, d := range decoys {
			ports = append(ports, d.Port)
		}
		routes := []c02route{
			{"/plain", "", "127.0.0.1", ups[0]}, {"/root", "/", "127.0.0.1", ups[1]}, {"/root/deep", "/", "127.0.0.1", ups[2]},
			{"/t1", "/v1", "127.0.0.1", ups[3]}, {"/t2", "/t2/t2", "localhost", ups[0]}, {"/sub/t3/", "/", "127.0.0.1", ups[1]},
			{"/sub/t4/", "/x/", "localhost", ups[2]}, {"/s", "/longer/path", "127.0.0.1", ups[3]}, {"/t5", "/t5x", "127.0.0.1", ups[0]},
			{"/t6/a", "/a", "127.0.0.1", ups[1]}, {"/t7", "/q?fixed=1", "127.0.0.1", ups[2]}, {"/t8", "/%41b", "127.0.0.1", ups[3]}, {"/same", "/same", "127.0.0.1", ups[0]},
			{"noslash", "/ns", "127.0.0.1", ups[1]},
		}
		ra, res := A{}, J{}
		for i, r := range routes {
			x := J{"path": r.path, "resource": fmt.Sprint("r", i)}
			if r.tr != "" {
				x["transform"] = r.tr
			}
			ra = append(ra, x)
			res[fmt.Sprint("r", i)] = A{J{"url": J{"scheme": "http", "host": r.host, "port": r.up.Port}}}
		}
		rng.Shuffle(len(ra), func(i, j int) { ra[i], ra[j] = ra[j], ra[i] })
		cfg := J{"connection": J{"upstream": J{"maxAttempts": 3}}, "routes": ra, "resources": res}
		s := c.start(cfg, StartOpt{Bin: bin, Level: "INFO"})
		s2, front := c.tlsTwin(cfg, StartOpt{Bin: bin, Level: "INFO"}, 4)
		type cs struct {
			rt   c02route
			uri  string
			fail int
			m    string
			id   string
		}
		var cases []cs
		for i := 0; i < c.N(4000, 40000); i++ {
			r := pick(rng, routes)
			rp := r.path
			if rp[0] != '/' {
				rp = "/" + rp
			}
			cases = append(cases, cs{r, rp + c02rest(rng, rp, r.tr, ports), []int{0, 0, 0, 1, 2}[rng.Intn(5)], pick(rng, []string{"GET", "GET", "PUT", "DELETE", "HEAD"}), fmt.Sprintf("c%d.", i)})
		}
		c.Par(len(cases), 8, func(i int) {
			k := cases[i]
			fail := answerClose(503, nil, nil)
			ok := answerClose(200, nil, []byte("ok"))
			sc.Set(k.id, append([]Step{fail, fail}[:k.fail:k.fail], ok)...)
			hs := append(Headers{{"X-Case", k.id}}, c.noiseReq(k.id)...)
			ex, proto := s.ex, "h1"
			if _, e := url.ParseRequestURI(k.uri); e == nil && i%4 == 3 {
				ex, proto = front.ex, "h2"
			}
			target := k.uri
			if i%8 == 5 { // absolute form, as for a forward proxy: what it names decides nothing
				target = pick(c.Rng("abs"+k.id), []string{"http://j8a.test", "http://127.0.0.2:%d", "https://127.0.0.2:%d", "http://u:p@127.0.0.2:%d", "HTTP://127.0.0.1:%d", "ftp://127.0.0.2:%d", "http://[::1]:%d", "x:///", "http://"})
				if strings.Contains(target, "%d") {
					target = fmt.Sprintf(target, ports[i/8%len(ports)])
				}
				target = strings.TrimSuffix(target, "/") + k.uri
				if strings.HasSuffix(target, "/"+k.uri) { // no authority
					target = "http://j8a.test" + k.uri
				}
				proto = "h1-absolute"
			}
			r, err := ex(k.m, target, hs, nil)
			det := J{"proto": proto, "route": k.rt.path, "transform": k.rt.tr, "uri": k.uri, "target": target, "method": k.m, "upstream": fmt.Sprintf("%s:%d", k.rt.host, k.rt.up.Port)}
			if !c.judge("uri", r, err, det) {
				return
			}
			det["code"] = r.Code
			for _, d := range decoys {
				if x := d.ForCase(k.id); len(x) > 0 {
					det["reached"] = d.Name
					c.Violate("escaped-to-unconfigured-host", det)
					return
				}
			}
			// the longest route that matches literally
			rt := k.rt
			for _, o := range routes {
				op, kp := o.path, rt.path
				if op[0] != '/' {
					op = "/" + op
				}
				if kp[0] != '/' {
					kp = "/" + kp
				}
				if strings.HasPrefix(k.uri, op) && len(op) > len(kp) {
					rt = o
				}
			}
			var got []*UpReq
			for _, u := range ups {
				x := u.ForCase(k.id)
				if len(x) > 0 && u != rt.up {
					det["reached"] = u.Name
					c.Violate("reached-other-configured-host", det)
					return
				}
				got = append(got, x...)
			}
			if r.Code == 301 && len(got) == 0 && !cleanish(k.uri) {
				c.Case("mux-redirect")
				return
			}
			if r.Code == 400 && len(got) == 0 { // not a URI by Go's parser
				if _, e := url.ParseRequestURI(k.uri); e != nil {
					c.Case("bad-uri")
					return
				}
			}
			rp := rt.path
			if rp[0] != '/' {
				rp = "/" + rp
			}
			want := k.uri
			if rt.tr != "" {
				t := rt.tr
				if t == "/" {
					t = ""
				}
				want = t + strings.TrimPrefix(k.uri, rp)
				if !strings.HasPrefix(want, "/") {
					want = "/" + want
				}
			}
			det["want"] = want
			if r.Code != 200 || len(got) != k.fail+1 {
				det["attempts"] = len(got)
				c.Violate("not-proxied", det)
				return
			}
			for _, g := range got {
				if g.Target != want && (strings.ContainsAny(want, "\"<>^`{}|\\") == false || unesc(g.Target) != unesc(want)) {
					det["got"] = g.Target
					c.Violate("uri-changed", det)
					return
				}
				if hs := g.H.All("Host"); len(hs) != 1 || hs[0] != fmt.Sprintf("%s:%d", rt.host, rt.up.Port) {
					det["host"] = hs
					c.Violate("host-header", det)
					return
				}
			}
			shape := ""
			rest := strings.TrimPrefix(k.uri, rp)
			if rest != "" {
				shape = rest[:1]
			}
			if len(shape) > 0 && strings.IndexByte("/?@:%", shape[0]) < 0 {
				shape = "c"
			}
			c.Case(fmt.Sprintf("%s route=%s after=%q query=%v esc=%v attempts=%d", proto, rt.path, shape, strings.Contains(k.uri, "?"), strings.Contains(k.uri, "%"), k.fail+1))
			if i < 4 {
				c.Sample(det)
			}
		})
		c.checkHealth(s)
		c.checkHealth(s2)
		c.c02odd(bin, decoys, ports)
		c.c02proxies(bin, decoys)
	})
}

// c02odd sends targets that are no path at all (opaque, authority and asterisk form, user info) to routes whose pattern
// matches anything, so that nothing but the way the upstream URI is put together keeps requests on the configured host.
func (c *Ctx) c02odd(bin string, decoys []*Upstream, ports []int) {
	rng := c.Rng("odd-targets")
	sc := newScripted(answerClose(200, nil, []byte("ok")))
	up := c.newUpstream("odd", sc.Handle)
	var servers []*Server
	for _, p := range []string{"/*", "/?", "(/)?", "/{0,1}"} {
		for _, tr := range []string{"", "/", "/t"} {
			rt := J{"path": p, "resource": "r"}
			if tr != "" {
				rt["transform"] = tr
			}
			servers = append(servers, c.start(J{"routes": A{rt}, "resources": J{"r": resourceOf(up)}}, StartOpt{Bin: bin, Level: "INFO"}))
		}
	}
	type cs struct {
		s          int
		m, t, want string
	}
	var cases []cs
	for i := range servers {
		for _, m := range []string{"GET", "POST", "HEAD", "OPTIONS", "DELETE", "CONNECT"} {
			for _, t := range []string{"http:@%a/x", "x:@%a", "x:%a", "http:%p", "http:0@%a/x", "x:u:p@%a/?a", "*@%a", "*", "@%a", ":@%a/", ":80@%a", "%a", "u:p@%a", "%a@x", "x.%a", "//%a/x", "///%a/x", "/\\@%a", "http://%a", "http:///@%a", "http://x@%a/@%a", "http:/@%a", "http:/%a", "http:?@%a", "http://x?@%a", "mailto:a@b", "?@%a", "x:?@%a", "x:#@%a", "#@%a", "http:.%p/"} {
				d := pick(rng, decoys)
				t = strings.ReplaceAll(t, "%a", d.ln.Addr().String())
				t = strings.ReplaceAll(t, "%p", fmt.Sprint(pick(rng, ports)))
				cases = append(cases, cs{s: i, m: m, t: t})
			}
		}
	}
	c.Par(len(cases), 12, func(i int) {
		k := cases[i]
		id := fmt.Sprintf("odd%d.", i)
		r, err := servers[k.s].ex(k.m, k.t, hv("X-Case", id), nil)
		det := J{"config": k.s, "method": k.m, "target": k.t}
		if !c.judge("odd-target", r, err, det) {
			return
		}
		det["code"] = r.Code
		for _, d := range decoys {
			if len(d.ForCase(id)) > 0 {
				det["reached"] = d.Name
				c.Violate("escaped-to-unconfigured-host", det)
				return
			}
		}
		for _, g := range up.ForCase(id) {
			if hs := g.H.All("Host"); len(hs) != 1 || hs[0] != fmt.Sprintf("127.0.0.1:%d", up.Port) {
				det["host"] = hs
				c.Violate("host-header", det)
				return
			}
		}
		shape := strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return -1
			}
			return r
		}, k.t)
		c.Case(fmt.Sprintf("odd config=%d %s %s -> %d", k.s, k.m, shape, r.Code))
	})
	for _, s := range servers {
		c.checkHealth(s)
	}
}

// c02proxies runs servers in environments that name a forward proxy, with upstreams that don't resolve or don't accept
// connections. The configured upstream is what a request is for, nothing in the environment is.
func (c *Ctx) c02proxies(bin string, decoys []*Upstream) {
	rng := c.Rng("proxies")
	dead := freePort()
	type up struct {
		scheme, host string
		port         int
	}
	ups := []up{{"http", "j8a.invalid", 80}, {"https", "j8a.invalid", 443}, {"http", "up.j8a.invalid", 9000}, {"http", "127.0.0.1", dead}, {"https", "127.0.0.1", dead}}
	var servers []*Server
	for i := 0; i < 3; i++ {
		d := pick(rng, decoys).ln.Addr().String()
		var env []string
		for _, v := range []string{"HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"} {
			for _, k := range []string{v, strings.ToLower(v)} {
				switch i {
				case 0:
					env = append(env, k+"=http://"+d)
				case 1:
					env = append(env, k+"="+d)
				case 2:
					env = append(env, k+"=http://u:p@"+d+"/")
				}
			}
		}
		var rts A
		res := J{}
		for n, u := range ups {
			rts = append(rts, J{"path": fmt.Sprintf("/u%d", n), "resource": fmt.Sprintf("r%d", n)})
			res[fmt.Sprintf("r%d", n)] = A{J{"url": J{"scheme": u.scheme, "host": u.host, "port": u.port}}}
		}
		servers = append(servers, c.start(J{"routes": rts, "resources": res, "connection": J{"upstream": J{"maxAttempts": 2}}}, StartOpt{Bin: bin, Level: "INFO", Env: env}))
	}
	before := 0
	for _, d := range decoys {
		before += len(d.Reqs())
	}
	methods := []string{"GET", "POST", "HEAD", "DELETE"}
	c.Par(len(servers)*len(ups)*len(methods), 8, func(i int) {
		s, n, m := i%len(servers), i/len(servers)%len(ups), methods[i/len(servers)/len(ups)]
		r, err := servers[s].ex(m, fmt.Sprintf("/u%d/x?i=%d", n, i), hv("X-Case", fmt.Sprintf("px%d.", i)), nil)
		det := J{"config": s, "method": m, "upstream": fmt.Sprintf("%+v", ups[n])}
		if !c.judge("env-proxy", r, err, det) {
			return
		}
		det["code"] = r.Code
		if r.Code != 502 && r.Code != 504 {
			c.Violate("answered-by-somebody-else", det)
			return
		}
		c.Case(fmt.Sprintf("env proxy %d upstream=%s://%s %s -> %d", s, ups[n].scheme, ups[n].host, m, r.Code))
	})
	after := 0
	for _, d := range decoys {
		after += len(d.Reqs())
	}
	if after != before {
		c.Violate("env-proxy-reached", J{"requests": after - before})
	}
	for _, s := range servers {
		c.checkHealth(s)
	}
}
