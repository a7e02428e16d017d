package main

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// C25: configuration sources, settings and defaults.

// rawServer runs j8a with exactly the given files, environment and arguments.
func (c *Ctx) rawServer(bin string, port int, files map[string]string, env, args []string, level string) *Server {
	dir, _ := os.MkdirTemp(c.Scratch, "raw")
	for n, t := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
		os.WriteFile(filepath.Join(dir, n), []byte(t), 0644)
	}
	s := &Server{c: c, Port: port, Addr: fmt.Sprintf("127.0.0.1:%d", port), dir: dir, done: make(chan struct{})}
	s.cond = sync.NewCond(&s.mu)
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "HOSTNAME=vh", "TZ=UTC"}, env...)
	if level != "" {
		cmd.Env = append(cmd.Env, "LOGLEVEL="+level)
	}
	c.run(s, cmd)
	return s
}

// listening tells the TCP ports a process of ours listens on.
func (s *Server) listening() []int {
	ino := map[string]bool{}
	dir := fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)
	ds, _ := os.ReadDir(dir)
	for _, d := range ds {
		if l, err := os.Readlink(filepath.Join(dir, d.Name())); err == nil && strings.HasPrefix(l, "socket:[") {
			ino[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	seen := map[int]bool{}
	for _, f := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", s.cmd.Process.Pid, f))
		for _, l := range strings.Split(string(b), "\n") {
			p := strings.Fields(l)
			if len(p) > 9 && p[3] == "0A" && ino[p[9]] {
				var n int
				fmt.Sscanf(p[1][strings.LastIndex(p[1], ":")+1:], "%X", &n)
				seen[n] = true
			}
		}
	}
	var out []int
	for p := range seen {
		out = append(out, p)
	}
	sort.Ints(out)
	return out
}

// waitListening waits until the process listens or ends.
func (s *Server) waitListening(d time.Duration) []int {
	end := time.Now().Add(d)
	for time.Now().Before(end) && s.Alive() {
		if l := s.listening(); len(l) > 0 {
			return l
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil
}

// logField looks for a field of a numeric or boolean value anywhere in the log.
func (s *Server) logField(name string) (any, bool) {
	for _, l := range s.Lines() {
		if v, ok := l[name]; ok {
			return v, true
		}
	}
	return nil, false
}

func init() {
	register("C25", func(c *Ctx) {
		c.rule = "(a) random subsets of the 13 scalar settings with random values, rendered in 12 YAML and JSON styles with shuffled keys, given by flag, environment or default file: derived parameters in the log, listening port, size limit and attempts observed; (b) one rich configuration through every source and style: 30 probes must agree with the expected ones; (c) every combination of good, bad and missing sources; (d) unusable configurations must end the process; (e) each timeout observed behaviourally with values in opposite orders, and for defaults; key = part x source x style x settings present"
		c.assume = []string{"default timeouts of 120 and 240 s are read from the derived parameters in the log and only lower bounded (6 s) by behaviour, fully observed in the thorough tier", "weights, unknown keys and negative values are not judged"}
		bin := c.buildJ8a(false)
		rng := c.Rng("cfg")
		p := newPKI()
		up := c.newUpstream("app", func(r *UpReq, w *UpConn) {
			code := 200
			if strings.Contains(r.Target, "fail") {
				code = 500
			}
			answerClose(code, hv("X-Up", "app"), []byte(r.Target))(r, w)
		})
		other := c.newUpstream("other", func(r *UpReq, w *UpConn) { answerClose(200, hv("X-Up", "other"), []byte(r.Target))(r, w) })
		sources := []string{"flag", "flag-eq", "flag-abs", "env", "default"}
		launch := func(src, text string, port int, env []string, level string) *Server {
			switch src {
			case "flag":
				return c.rawServer(bin, port, map[string]string{"some.yml": text}, env, []string{"-c", "some.yml"}, level)
			case "flag-eq":
				return c.rawServer(bin, port, map[string]string{"d/some.conf": text}, env, []string{"-c=d/some.conf"}, level)
			case "flag-abs":
				f := filepath.Join(c.Scratch, fmt.Sprintf("abs-%d", port))
				os.WriteFile(f, []byte(text), 0644)
				return c.rawServer(bin, port, nil, env, []string{"--c", f}, level)
			case "env":
				return c.rawServer(bin, port, nil, append(env, "J8ACFG_YML="+text), nil, level)
			}
			return c.rawServer(bin, port, map[string]string{"j8acfg.yml": text}, env, nil, level)
		}

		// (a) scalar settings
		type setting struct {
			group, key string
			dflt       any
			values     []any
			fields     []string // log fields that repeat it
		}
		secs := []any{8, 9, 11, 13, 59, 61, 119, 121, 300, 3600, 86400}
		settings := []setting{
			{"downstream", "readTimeoutSeconds", 120, secs, []string{"dwnReadTimeoutSeconds"}},
			{"downstream", "roundTripTimeoutSeconds", 240, secs, []string{"dwnRoundTripTimeoutSeconds"}},
			{"downstream", "idleTimeoutSeconds", 120, secs, []string{"dwnIdleConnTimeoutSeconds"}},
			{"downstream", "maxBodyBytes", 2 << 20, []any{1, 10, 1000, 65535, 65536, 1 << 20, 2<<20 + 1, 5 << 20}, []string{"dwnMaxBodyBytes"}},
			{"upstream", "poolSize", 32768, []any{1, 8, 100, 32767, 100000}, []string{"upMaxIdleConns", "upMaxIdleConnsPerHost"}},
			{"upstream", "idleTimeoutSeconds", 120, secs, []string{"upIdleConnTimeoutSecs"}},
			{"upstream", "socketTimeoutSeconds", 3, secs, []string{"upTransportDialTimeoutSecs", "upTlsHandshakeTimeoutSecs"}},
			{"upstream", "readTimeoutSeconds", 120, secs, []string{"upReadTimeoutSecs"}},
			{"upstream", "maxAttempts", 1, []any{1, 2, 3, 5, 9, 10, 11, 14, 16, 17, 33}, nil},
			{"upstream", "tlsInsecureSkipVerify", false, []any{true, false}, []string{"upTlsInsecureSkipVerify"}},
		}
		asNum := func(v any) float64 {
			switch x := v.(type) {
			case int:
				return float64(x)
			case float64:
				return x
			case bool:
				if x {
					return 1
				}
			}
			return 0
		}
		rounds := c.N(70, 500)
		type cfgCase struct {
			src, style, text string
			want             map[string]any
			mode             string
			port             int
			given            []string
			level            string
		}
		var cc []cfgCase
		for i := 0; i < rounds; i++ {
			down, ups := J{}, J{}
			want := map[string]any{}
			var given []string
			pr := []float64{0.5, 0.5, 0.9, 0.15, 1, 0}[i%6]
			for _, st := range settings {
				g := down
				if st.group == "upstream" {
					g = ups
				}
				id := st.group + "." + st.key
				want[id] = st.dflt
				if rng.Float64() < pr {
					v := pick(rng, st.values)
					if rng.Intn(12) == 0 {
						g[st.key] = 0 // no value
						if st.key == "tlsInsecureSkipVerify" {
							g[st.key] = false
						}
						given = append(given, id+"=0")
						continue
					}
					g[st.key] = v
					want[id] = v
					given = append(given, id)
				}
			}
			t := cfgCase{want: want, port: freePort(), style: styles[i%len(styles)], src: sources[(i/2)%len(sources)], level: pick(rng, []string{"DEBUG", "debug", "TRACE", "Trace"})}
			down["port"] = t.port
			switch rng.Intn(4) {
			case 0:
				t.mode = pick(rng, []string{"TLS", "tls", "Tls"})
				down["mode"] = t.mode
				down["cert"], down["key"] = pems(p.leaf, p.inter, p.root), p.leaf.keyPEM()
			case 1:
				t.mode = pick(rng, []string{"HTTP", "http", "Http"})
				down["mode"] = t.mode
			}
			conn := J{"downstream": down}
			if len(ups) > 0 || rng.Intn(2) == 0 {
				conn["upstream"] = ups
			}
			cfg := J{"connection": conn, "routes": A{J{"path": "/", "resource": "r"}}, "resources": J{"r": resourceOf(up)}}
			t.text = render(cfg, t.style, rng)
			t.given = given
			cc = append(cc, t)
		}
		c.Par(len(cc), 10, func(i int) {
			t := cc[i]
			d := J{"source": t.src, "style": t.style, "given": t.given, "mode": t.mode}
			s := launch(t.src, t.text, t.port, nil, t.level)
			defer s.Stop()
			ls := s.waitListening(40 * time.Second)
			if ls == nil {
				d["tail"], d["text"] = s.Tail(4), t.text
				if s.Alive() {
					c.Inconclusive("not up: %v", d)
				} else {
					c.Violate("valid-config-refused", d)
				}
				return
			}
			if len(ls) != 1 || ls[0] != t.port {
				d["listening"], d["want"] = ls, t.port
				c.Violate("port", d)
				return
			}
			var tc *tls.Config
			if strings.ToUpper(t.mode) == "TLS" {
				tc = p.client()
				s.TLS = true
			}
			id := fmt.Sprintf("a%d.", i)
			ex := func(method, target string, body []byte) *Resp {
				cl, err := dial(s.Addr, tc)
				if err != nil {
					d["err"] = err.Error()
					c.Violate("mode-not-honoured", d)
					return nil
				}
				defer cl.Close()
				go cl.Send(reqText(method, target, hv("X-Case", id, "Connection", "close"), body))
				r, err := cl.Read(method, watchdog)
				if !c.judge("answer", r, err, d) {
					return nil
				}
				return r
			}
			if r := ex("GET", "/x", nil); r == nil {
				return
			} else if r.Code != 200 || r.H.Get("X-Up") != "app" || r.H.Has("Strict-Transport-Security") != (tc != nil) {
				d["code"], d["headers"] = r.Code, r.H
				c.Violate("not-served", d)
				return
			}
			for _, st := range settings {
				want := t.want[st.group+"."+st.key]
				for _, f := range st.fields {
					got, ok := s.logField(f)
					if !ok {
						c.Count("log-field-absent", 1)
						continue
					}
					c.Count("log-fields", 1)
					if asNum(got) != asNum(want) {
						d["setting"], d["want"], d["got"], d["field"] = st.group+"."+st.key, want, got, f
						c.Violate("setting-"+st.key, d)
						return
					}
				}
			}
			max := int(asNum(t.want["downstream.maxBodyBytes"]))
			if r := ex("POST", "/post", make([]byte, max)); r == nil {
				return
			} else if r.Code != 200 {
				d["size"], d["code"] = max, r.Code
				c.Violate("maxBodyBytes", d)
			}
			if r := ex("POST", "/post", make([]byte, max+1)); r == nil {
				return
			} else if r.Code != 413 {
				d["size"], d["code"] = max+1, r.Code
				c.Violate("maxBodyBytes", d)
			}
			before := len(up.ForCase(id))
			if r := ex("PUT", "/fail", nil); r == nil {
				return
			}
			if n := len(up.ForCase(id)) - before; n != int(asNum(t.want["upstream.maxAttempts"])) {
				d["attempts"], d["want"] = n, t.want["upstream.maxAttempts"]
				c.Violate("maxAttempts", d)
			}
			up.ForgetPrefix(id)
			c.Case(fmt.Sprintf("settings %s %s %s given=%d", t.src, t.style, strings.ToUpper(t.mode), len(t.given)))
			if i < 3 {
				c.Sample(J{"source": t.src, "style": t.style, "text": t.text})
			}
		})

		// (b) one rich configuration, every source and style
		es := newKey("ES256", 0)
		rich := func(port int) J {
			return J{"connection": J{"downstream": J{"port": port, "maxBodyBytes": 77, "roundTripTimeoutSeconds": 50}, "upstream": J{"maxAttempts": 3}},
				"policies": J{"ab": A{J{"label": "a", "weight": 1.0}}, "ba": A{J{"label": "b", "weight": 1}}, "half": A{J{"label": "x", "weight": 0.0}}},
				"jwt":      J{"hs": J{"alg": "HS256", "key": kitchenSecret, "acceptableSkewSeconds": 3}, "es": J{"alg": "ES256", "key": es.keyText(false)}, "zero": J{"alg": "HS256", "key": kitchenSecret, "acceptableSkewSeconds": "0"}},
				"routes": A{
					J{"path": "/a/", "resource": "two", "policy": "ab"}, J{"path": "/b/", "resource": "two", "policy": "ba"}, J{"path": "/d/", "resource": "two", "policy": "half"},
					J{"path": "t/", "resource": "one", "transform": "/moved/"}, J{"path": "/strip", "resource": "one", "transform": "/"},
					J{"path": "/jwt/", "resource": "one", "jwt": "hs"}, J{"path": "/es/", "resource": "one", "jwt": "es"}, J{"path": "/zero/", "resource": "one", "jwt": "zero"},
					J{"path": "/re[0-9]+x", "resource": "one"}, J{"path": "/about", "resource": "about"}, J{"path": "/none/", "resource": "nothere"}, J{"path": "/second", "resource": "second"},
				},
				"resources": J{"two": A{labelled(up, "a", "z"), labelled(other, "b", "default")}, "one": A{J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": up.Port}}, J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": other.Port}}}, "second": resourceOf(other)}}
		}
		exp := func(d time.Duration) J { return J{"sub": "a", "exp": time.Now().Add(d).Unix()} }
		type probe struct {
			name, method, target string
			hs                   func() Headers
			body                 int
			code                 int
			up, got              string
		}
		nohs := func() Headers { return nil }
		bearer := func(f func() string) func() Headers {
			return func() Headers { return hv("Authorization", "Bearer "+f()) }
		}
		probes := []probe{
			{"label a", "GET", "/a/1?x=y", nohs, 0, 200, "app", "/a/1?x=y"}, {"label b", "GET", "/b/1", nohs, 0, 200, "other", "/b/1"}, {"label default", "GET", "/d/1", nohs, 0, 200, "other", "/d/1"},
			{"transform", "GET", "/t/q", nohs, 0, 200, "app", "/moved/q"}, {"strip", "GET", "/strip/q", nohs, 0, 200, "app", "/q"},
			{"jwt missing", "GET", "/jwt/1", nohs, 0, 401, "", ""}, {"jwt ok", "GET", "/jwt/1", bearer(func() string { return hs256(kitchenSecret, nil, exp(time.Hour)) }), 0, 200, "app", "/jwt/1"},
			{"jwt skew", "GET", "/jwt/1", bearer(func() string { return hs256(kitchenSecret, nil, exp(-30*time.Second)) }), 0, 401, "", ""},
			{"es ok", "GET", "/es/1", bearer(func() string { return es.sign(J{}, exp(time.Hour)) }), 0, 200, "app", "/es/1"},
			{"es default skew", "GET", "/es/1", bearer(func() string { return es.sign(J{}, exp(-60*time.Second)) }), 0, 200, "app", "/es/1"},
			{"es beyond skew", "GET", "/es/1", bearer(func() string { return es.sign(J{}, exp(-150*time.Second)) }), 0, 401, "", ""},
			{"zero skew", "GET", "/zero/1", bearer(func() string { return hs256(kitchenSecret, nil, exp(-5*time.Second)) }), 0, 401, "", ""},
			{"regex", "GET", "/re42x/y", nohs, 0, 200, "app", "/re42x/y"}, {"regex no", "GET", "/rex/y", nohs, 0, 404, "", ""},
			{"about", "GET", "/about", nohs, 0, 200, "", ""}, {"no resource", "GET", "/none/x", nohs, 0, 503, "", ""}, {"no route", "GET", "/zzz", nohs, 0, 404, "", ""},
			{"second", "GET", "/second", nohs, 0, 200, "other", "/second"}, {"body ok", "POST", "/t/z", nohs, 77, 200, "app", "/moved/z"}, {"body large", "POST", "/t/z", nohs, 78, 413, "", ""},
			{"fail", "DELETE", "/re1x/fail", nohs, 0, 502, "", ""}, {"fail once", "POST", "/re1x/fail", nohs, 0, 502, "", ""},
		}
		type rc struct{ src, style string }
		var rcs []rc
		for _, src := range sources {
			for _, st := range styles {
				rcs = append(rcs, rc{src, st})
			}
		}
		rng.Shuffle(len(rcs), func(i, j int) { rcs[i], rcs[j] = rcs[j], rcs[i] })
		if !c.Thorough() {
			// every style and every source at least once
			var keep []rc
			ns, nt := map[string]int{}, map[string]int{}
			for _, x := range rcs {
				if ns[x.src] < 3 || nt[x.style] < 2 {
					keep = append(keep, x)
					ns[x.src]++
					nt[x.style]++
				}
			}
			rcs = keep
		}
		c.Par(len(rcs), 8, func(i int) {
			x := rcs[i]
			port := freePort()
			d := J{"source": x.src, "style": x.style}
			txt := render(rich(port), x.style, rand.New(rand.NewSource(c.Seed*1000+int64(i))))
			s := launch(x.src, txt, port, nil, "INFO")
			defer s.Stop()
			if !s.WaitUp(40 * time.Second) {
				d["tail"], d["text"] = s.Tail(4), txt
				if s.Alive() {
					c.Inconclusive("not up: %v", d)
				} else {
					c.Violate("valid-config-refused", d)
				}
				return
			}
			for k, pb := range probes {
				id := fmt.Sprintf("b%d.%d.", i, k)
				var body []byte
				if pb.body > 0 {
					body = make([]byte, pb.body)
				}
				r, err := s.ex(pb.method, pb.target, append(hv("X-Case", id), pb.hs()...), body)
				d := J{"source": x.src, "style": x.style, "probe": pb.name}
				if !c.judge("probe", r, err, d) {
					continue
				}
				d["code"], d["want"] = r.Code, pb.code
				if r.Code != pb.code || r.H.Get("X-Up") != pb.up || pb.got != "" && string(r.Body) != pb.got {
					d["up"], d["body"] = r.H.Get("X-Up"), clip(r.Body)
					c.Violate("probe-"+pb.name, d)
				}
				n := len(up.ForCase(id)) + len(other.ForCase(id))
				want := 0
				if pb.code == 200 && pb.name != "about" || pb.name == "fail once" {
					want = 1
				}
				if pb.name == "fail" {
					want = 3
				}
				if n != want {
					d["attempts"], d["want"] = n, want
					c.Violate("probe-attempts-"+pb.name, d)
				}
				up.ForgetPrefix(id)
				other.ForgetPrefix(id)
				c.Case(fmt.Sprintf("rich %s %s %s", x.src, x.style, pb.name))
			}
		})

		// (c) precedence: each source good, unusable or missing
		mk := func(port int, u *Upstream) string {
			return string(mustJSON(J{"connection": J{"downstream": J{"port": port}}, "routes": A{J{"path": "/", "resource": "r"}}, "resources": J{"r": resourceOf(u)}}))
		}
		conds := []string{"good", "missing", "malformed", "mistyped", "no-routes", "empty"}
		type pc struct{ flag, env, dflt string }
		var pcs []pc
		for _, f := range append(conds, "none", "directory") {
			for _, e := range append(conds, "none") {
				for _, df := range conds {
					if e == "missing" || f == "empty" && e == "empty" {
						continue
					}
					pcs = append(pcs, pc{f, e, df})
				}
			}
		}
		rng.Shuffle(len(pcs), func(i, j int) { pcs[i], pcs[j] = pcs[j], pcs[i] })
		if !c.Thorough() {
			var keep []pc
			for i, x := range pcs {
				// those where the first source named is bad and a later one good matter most
				if i < 40 || x.flag == "none" && x.env != "none" && x.env != "good" && x.dflt == "good" || x.flag != "none" && x.flag != "good" && (x.env == "good" && x.dflt == "good") {
					keep = append(keep, x)
				}
			}
			pcs = keep
		}
		text := func(cond string, port int, u *Upstream) string {
			g := mk(port, u)
			switch cond {
			case "malformed":
				return g[:len(g)-3]
			case "mistyped":
				return strings.Replace(g, fmt.Sprintf(`"port":%d}},`, port), fmt.Sprintf(`"port":%d},"upstream":{"maxAttempts":"many"}},`, port), 1)
			case "no-routes":
				return string(mustJSON(J{"connection": J{"downstream": J{"port": port}}, "resources": J{"r": resourceOf(u)}}))
			case "empty":
				return ""
			}
			return g
		}
		ups3 := []*Upstream{}
		for i := 0; i < 3; i++ {
			n := fmt.Sprintf("src%d", i)
			ups3 = append(ups3, c.newUpstream(n, func(r *UpReq, w *UpConn) { answerClose(200, hv("X-Up", n), nil)(r, w) }))
		}
		c.Par(len(pcs), 12, func(i int) {
			x := pcs[i]
			ports := []int{freePort(), freePort(), freePort()}
			files := map[string]string{}
			var env, args []string
			if x.dflt != "missing" {
				files["j8acfg.yml"] = text(x.dflt, ports[2], ups3[2])
			}
			if x.env != "none" {
				env = append(env, "J8ACFG_YML="+text(x.env, ports[1], ups3[1]))
			}
			switch x.flag {
			case "none":
			case "missing":
				args = []string{"-c", "not-there.yml"}
			case "directory":
				files["dir/x"] = ""
				args = []string{"-c", "dir"}
			default:
				files["f.yml"] = text(x.flag, ports[0], ups3[0])
				args = []string{"-c", "f.yml"}
			}
			// an empty environment variable counts as not set
			eff, cond := 2, x.dflt
			if x.flag != "none" {
				eff, cond = 0, x.flag
			} else if x.env != "none" && x.env != "empty" {
				eff, cond = 1, x.env
			}
			d := J{"flag": x.flag, "env": x.env, "default": x.dflt}
			s := c.rawServer(bin, ports[eff], files, env, args, "INFO")
			defer s.Stop()
			ls := s.waitListening(40 * time.Second)
			if ls == nil && s.Alive() {
				c.Inconclusive("neither up nor ended: %v", d)
				return
			}
			switch {
			case cond == "good" && (len(ls) != 1 || ls[0] != ports[eff]):
				d["listening"], d["want"], d["tail"] = ls, ports[eff], s.Tail(4)
				c.Violate("wrong-source", d)
			case cond != "good" && ls != nil:
				d["listening"], d["ports"] = ls, ports
				c.Violate("unusable-config-served", d)
			case cond == "good":
				r, err := s.ex("GET", "/x", nil, nil)
				if c.judge("precedence", r, err, d) && r.H.Get("X-Up") != fmt.Sprintf("src%d", eff) {
					d["code"], d["up"] = r.Code, r.H.Get("X-Up")
					c.Violate("wrong-source", d)
				}
			default:
				if s.WaitExit(20*time.Second) && s.ExitCode() == 0 {
					c.Violate("unusable-config-exit-0", d)
				}
			}
			c.Case(fmt.Sprintf("precedence flag=%s env=%s default=%s", x.flag, x.env, x.dflt))
		})

		// (d) unusable configurations
		good := func() J {
			return J{"connection": J{"downstream": J{}}, "routes": A{J{"path": "/", "resource": "r"}}, "resources": J{"r": resourceOf(up)}}
		}
		type bad struct {
			name string
			mod  func(cfg, down, ups J)
			raw  string
		}
		busy, err := net.Listen("tcp", ":0")
		if err != nil {
			c.Fatal("listen: %v", err)
		}
		defer busy.Close()
		bads := []bad{
			{name: "busy port", mod: func(_, d, _ J) { d["port"] = busy.Addr().(*net.TCPAddr).Port }},
			{name: "port out of range", mod: func(_, d, _ J) { d["port"] = 70000 }},
			{name: "port negative", mod: func(_, d, _ J) { d["port"] = -1 }},
			{name: "port text", mod: func(_, d, _ J) { d["port"] = "http" }},
			{name: "tls without cert", mod: func(_, d, _ J) { d["mode"] = "TLS" }},
			{name: "mode HTTPS", mod: func(_, d, _ J) { d["mode"] = "HTTPS" }},
			{name: "mode TLS1.3", mod: func(_, d, _ J) {
				d["mode"], d["cert"], d["key"] = "TLS1.3", pems(p.leaf, p.inter, p.root), p.leaf.keyPEM()
			}},
			{name: "mode SSL", mod: func(_, d, _ J) { d["mode"] = "SSL" }},
			{name: "mode list", mod: func(_, d, _ J) { d["mode"] = A{"TLS"} }},
			{name: "routes map", mod: func(c, _, _ J) { c["routes"] = J{"/": "r"} }},
			{name: "routes text", mod: func(c, _, _ J) { c["routes"] = "/" }},
			{name: "route list", mod: func(c, _, _ J) { c["routes"] = A{A{"/", "r"}} }},
			{name: "resources list", mod: func(c, _, _ J) { c["resources"] = A{"r"} }},
			{name: "resource map", mod: func(c, _, _ J) { c["resources"] = J{"r": J{"url": J{"host": "x"}}} }},
			{name: "url text", mod: func(c, _, _ J) { c["resources"] = J{"r": A{J{"url": "http://localhost:80"}}} }},
			{name: "url port large", mod: func(c, _, _ J) { c["resources"] = J{"r": A{J{"url": J{"host": "localhost", "port": 70000}}}} }},
			{name: "url port negative", mod: func(c, _, _ J) { c["resources"] = J{"r": A{J{"url": J{"host": "localhost", "port": -80}}}} }},
			{name: "url port text", mod: func(c, _, _ J) { c["resources"] = J{"r": A{J{"url": J{"host": "localhost", "port": "http"}}}} }},
			{name: "weight text", mod: func(c, _, _ J) { c["policies"] = J{"p": A{J{"label": "x", "weight": "half"}}} }},
			{name: "policy map", mod: func(c, _, _ J) { c["policies"] = J{"p": J{"label": "x", "weight": 0.5}} }},
			{name: "labels text", mod: func(c, _, _ J) {
				c["resources"] = J{"r": A{J{"labels": "x", "url": J{"host": "127.0.0.1", "port": up.Port}}}}
			}},
			{name: "connection list", mod: func(c, _, _ J) { c["connection"] = A{} }},
			{name: "skip verify text", mod: func(_, _, u J) { u["tlsInsecureSkipVerify"] = "maybe" }},
			{name: "empty document", raw: "---\n"}, {name: "list document", raw: "- a\n- b\n"}, {name: "text document", raw: "hello"}, {name: "number document", raw: "42"},
			{name: "binary", raw: "\x01\x02\xff\xfe{}"}, {name: "null document", raw: "null"}, {name: "tab indentation", raw: "routes:\n\t- path: /\n\t  resource: r\nconnection:\n\tdownstream:\n\t\tport: @PORT@\n"},
			{name: "unclosed quote", raw: "connection:\n  downstream:\n    port: @PORT@\nroutes:\n  - path: \"/\n    resource: r\n"},
			{name: "json cut", raw: `{"connection":{"downstream":{"port":@PORT@}},"routes":[{"path":"/","resource":"r"}`},
			{name: "two roots", raw: "routes:\n  - path: /\n    resource: r\nconnection:\n  downstream:\n    port: @PORT@\n- x\n"},
			{name: "undefined alias", raw: "connection:\n  downstream:\n    port: @PORT@\nroutes: *nothing\n"},
			{name: "xml", raw: "<routes><route path='/'/></routes>"},
		}
		for _, st := range settings {
			if st.key == "tlsInsecureSkipVerify" {
				continue
			}
			st := st
			for n, v := range map[string]any{"text": "many", "unit": "10s", "list": A{1}, "map": J{"s": 1}, "fraction": 1.5, "bool": true} {
				v := v
				bads = append(bads, bad{name: st.group + "." + st.key + " " + n, mod: func(_, d, u J) {
					if st.group == "downstream" {
						d[st.key] = v
					} else {
						u[st.key] = v
					}
				}})
			}
		}
		c.Par(len(bads), 12, func(i int) {
			b := bads[i]
			port := freePort()
			var txt string
			style := styles[i%len(styles)]
			if b.mod != nil {
				cfg := good()
				down, ups := J{"port": port}, J{}
				cfg["connection"] = J{"downstream": down, "upstream": ups}
				b.mod(cfg, down, ups)
				txt = render(cfg, style, rand.New(rand.NewSource(int64(i))))
			} else {
				txt = strings.ReplaceAll(b.raw, "@PORT@", fmt.Sprint(port))
			}
			d := J{"case": b.name, "text": txt}
			src := sources[i%len(sources)]
			s := launch(src, txt, port, nil, "INFO")
			defer s.Stop()
			ls := s.waitListening(30 * time.Second)
			if ls != nil {
				d["listening"] = ls
				c.Violate("unusable-config-served", d)
				return
			}
			if s.Alive() {
				c.Inconclusive("neither up nor ended: %s", b.name)
				return
			}
			s.WaitExit(20 * time.Second)
			if s.ExitCode() == 0 {
				c.Violate("unusable-config-exit-0", d)
			}
			c.Case("unusable " + b.name + " " + src)
		})

		// LOGLEVEL
		for _, lv := range []struct {
			v    string
			low  int
			name string
		}{{"TRACE", 0, "trace"}, {"DEBUG", 1, "debug"}, {"debug", 1, "debug"}, {"INFO", 2, "info"}, {"", 2, "info"}, {"nonsense", 2, "info"}, {"WARN", 3, "warn"}, {"Warn", 3, "warn"}} {
			port := freePort()
			s := launch("flag", mk(port, up), port, nil, lv.v)
			if !s.WaitUp(40 * time.Second) {
				c.Inconclusive("not up with log level %q", lv.v)
				s.Stop()
				continue
			}
			s.ex("GET", "/x", nil, nil)
			s.ex("PATCH", "/x", nil, nil)
			s.logWait("/x", 1, 5*time.Second)
			time.Sleep(150 * time.Millisecond)
			lowest := 9
			s.mu.Lock()
			for _, l := range s.lines {
				for n, v := range []string{"trace", "debug", "info", "warn"} {
					if l.S("level") == v && n < lowest {
						lowest = n
					}
				}
			}
			// trace lines are mostly dropped by the reader, but debug is not
			s.mu.Unlock()
			d := J{"LOGLEVEL": lv.v, "lowest": lowest, "want": lv.low}
			if lowest < lv.low || lowest > lv.low && lv.low > 0 {
				c.Violate("log-level", d)
			}
			c.Case("loglevel " + lv.v)
			s.Stop()
		}

		// (e) timeouts in opposite orders, and defaults
		silent := c.newUpstream("silent", nil)
		silent.OnConn = func(n int64, cn net.Conn) bool {
			io.Copy(io.Discard, cn)
			return true
		}
		stall := c.newUpstream("stall", stallHandler(400*time.Second))
		type tv struct {
			name                                    string
			down, ups                               J
			read, rtt, idle, sock, attRead, upIdleT float64
			limit                                   time.Duration
		}
		tvs := []tv{
			{"rising", J{"readTimeoutSeconds": 1, "idleTimeoutSeconds": 3, "roundTripTimeoutSeconds": 5}, J{"socketTimeoutSeconds": 1, "idleTimeoutSeconds": 2, "readTimeoutSeconds": 3}, 1, 5, 3, 1, 3, 2, watchdog},
			{"falling", J{"readTimeoutSeconds": 5, "idleTimeoutSeconds": 3, "roundTripTimeoutSeconds": 1}, J{"socketTimeoutSeconds": 3, "idleTimeoutSeconds": 2, "readTimeoutSeconds": 1}, 5, 1, 3, 3, 1, 2, watchdog},
			{"mixed", J{"readTimeoutSeconds": 2, "idleTimeoutSeconds": 1, "roundTripTimeoutSeconds": 3}, J{"socketTimeoutSeconds": 2, "idleTimeoutSeconds": 5, "readTimeoutSeconds": 2}, 2, 3, 1, 2, 2, 5, watchdog},
			{"defaults", J{}, J{}, 120, 240, 120, 3, 120, 120, time.Duration(c.N(6, 330)) * time.Second},
		}
		var wg sync.WaitGroup
		for _, t := range tvs {
			t := t
			var upc *Upstream
			upc = c.newUpstream("pooled-"+t.name, func(r *UpReq, w *UpConn) {
				w.Reply(r, 200, nil, []byte("ok"))
			})
			res := J{"stall": resourceOf(stall), "silent": A{J{"url": J{"scheme": "https", "host": "127.0.0.1", "port": silent.Port}}}, "ok": resourceOf(upc)}
			s := c.start(J{"connection": J{"downstream": t.down, "upstream": t.ups}, "routes": A{J{"path": "/stall", "resource": "stall"}, J{"path": "/silent", "resource": "silent"}, J{"path": "/ok", "resource": "ok"}}, "resources": res}, StartOpt{Bin: bin, Level: "INFO"})
			check := func(name string, want float64, g gaveUp) {
				d := J{"server": t.name, "what": name, "configured": want, "observed": g.text(), "code": g.code}
				lim := t.limit.Seconds()
				switch {
				case g.err != nil && g.err == errWatchdog:
					c.Inconclusive("timeout %v", d)
					return
				case g.err != nil:
					c.Violate("timeout-"+name+"-error", d)
				case g.never && want+30 < lim:
					c.Violate("timeout-"+name+"-not-applied", d)
				case g.never:
					// only lower bounded
				case g.after.Seconds() < want-0.01:
					c.Violate("timeout-"+name+"-early", d)
				}
				c.Case("timeout " + t.name + " " + name)
				c.Count("timeouts-observed", map[bool]int{true: 0, false: 1}[g.never])
			}
			run := func(name string, want float64, f func() gaveUp) {
				wg.Add(1)
				go func() { defer wg.Done(); check(name, want, f()) }()
			}
			run("readTimeout", t.read, func() gaveUp {
				return s.slowHeader(nil, "GET /ok HTTP/1.1\r\nX-Slow: ", 100*time.Millisecond, t.limit)
			})
			run("idleTimeout", t.idle, func() gaveUp { return s.idleAfter(nil, "/ok", 2, t.limit) })
			first := t.rtt
			if t.attRead < first {
				first = t.attRead
			}
			run("first-of-roundTrip-and-attempt", first, func() gaveUp {
				g := s.answerTime(nil, "POST", "/stall", nil, []byte("x"), t.limit)
				if g.err == nil && !g.never && g.code != 504 {
					g.err = fmt.Errorf("answered %d", g.code)
				}
				return g
			})
			run("upstream-idleTimeout", t.upIdleT, func() gaveUp {
				cl, err := net.Dial("tcp", s.Addr)
				if err != nil {
					return gaveUp{err: err}
				}
				cl.Close()
				// the upstream's view: from the request until its connection ends
				began := time.Now()
				r, err := s.ex("GET", "/ok", hv("X-Case", "pool"), nil)
				if err != nil || r.Code != 200 {
					return gaveUp{err: fmt.Errorf("no answer")}
				}
				end := began.Add(t.limit)
				for time.Now().Before(end) {
					if upc.live.Load() == 0 && upc.conns.Load() > 0 {
						return gaveUp{after: time.Since(began)}
					}
					time.Sleep(5 * time.Millisecond)
				}
				return gaveUp{never: true}
			})
			if t.rtt < t.sock {
				continue
			}
			run("socketTimeout", t.sock, func() gaveUp {
				g := s.answerTime(nil, "POST", "/silent", nil, []byte("x"), watchdog)
				if g.err == nil && !g.never && g.code != 502 && !(g.code == 504 && (t.rtt <= t.sock+1 || t.attRead <= t.sock+1)) {
					g.err = fmt.Errorf("answered %d", g.code)
				}
				return g
			})
		}
		wg.Wait()

		// default ports: only judged if nobody else holds them
		for _, t := range []struct {
			port int
			down J
		}{{8080, J{}}, {443, J{"mode": "TLS", "cert": pems(p.leaf, p.inter, p.root), "key": p.leaf.keyPEM()}}} {
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", t.port))
			if err != nil {
				c.Count("default-port-not-available", 1)
				continue
			}
			l.Close()
			for _, given := range []any{nil, 0} {
				d := J{}
				for k, v := range t.down {
					d[k] = v
				}
				if given != nil {
					d["port"] = given
				}
				b, _ := json.Marshal(J{"connection": J{"downstream": d}, "routes": A{J{"path": "/", "resource": "r"}}, "resources": J{"r": resourceOf(up)}})
				s := launch("flag", string(b), t.port, nil, "INFO")
				ls := s.waitListening(40 * time.Second)
				if len(ls) != 1 || ls[0] != t.port {
					dd := J{"want": t.port, "listening": ls, "tail": s.Tail(3)}
					if ls != nil {
						c.Violate("default-port", dd)
					} else {
						c.Inconclusive("default port: %v", dd)
					}
				} else {
					c.Case(fmt.Sprintf("default port %d", t.port))
				}
				s.Stop()
			}
		}
	})
}
