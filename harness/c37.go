package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// C37: the log stream.

var levelRank = map[string]int{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "fatal": 5, "panic": 6}

var digits = regexp.MustCompile(`[0-9]+`)

// logStream judges every line a process writes.
type logStream struct {
	c     *Ctx
	name  string
	min   int
	mu    sync.Mutex
	n     int
	byLvl [7]int
	seen  map[string]map[string]int // request id -> level and message -> times
	boot  map[string]bool
	tail  string
	debug map[string]int // request id -> attempt records at debug
}

func newLogStream(c *Ctx, name string, min int) *logStream {
	return &logStream{c: c, name: name, min: min, seen: map[string]map[string]int{}, boot: map[string]bool{}, debug: map[string]int{}}
}

// record tells what is wrong with a line as a record of the log.
func record(b []byte) (logLine, string) {
	d := json.NewDecoder(bytes.NewReader(b))
	var l logLine
	if err := d.Decode(&l); err != nil || l == nil {
		return nil, "not-json"
	}
	if rest := bytes.TrimSpace(b[d.InputOffset():]); len(rest) > 0 {
		return l, "text-after-record"
	}
	if _, ok := levelRank[l.S("level")]; !ok {
		return l, "level-missing"
	}
	if _, err := time.Parse(time.RFC3339, l.S("time")); err != nil {
		return l, "time-missing"
	}
	if _, ok := l["message"].(string); !ok {
		return l, "message-missing"
	}
	for k := range l {
		if strings.Contains(k, "forge") {
			return l, "field-forged"
		}
	}
	if d := dupKeys(b); len(d) > 0 {
		return l, "field-twice"
	}
	return l, ""
}

func (s *logStream) line(b []byte) {
	l, bad := record(b)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	if bad != "" {
		s.c.Violate("stream-"+bad, J{"server": s.name, "line": clip(b)})
		return
	}
	lv := l.S("level")
	r := levelRank[lv]
	s.byLvl[r]++
	if r < s.min {
		s.c.Violate("below-level", J{"server": s.name, "line": clip(b)})
	}
	s.tail = lv
	if l.S("srvId") == "" && s.byLvl[2] > 0 {
		s.c.Violate("no-server-id", J{"server": s.name, "line": clip(b)})
	}
	id := l.S("X-Request-Id")
	if id == "" {
		return
	}
	m := s.seen[id]
	if m == nil {
		m = map[string]int{}
		s.seen[id] = m
	}
	m[lv+" "+digits.ReplaceAllString(strings.ReplaceAll(l.S("message"), id, ""), "#")]++
	if _, ok := l["upAtmpt"]; ok && lv == "debug" {
		s.debug[id]++
	}
}

func (s *logStream) of(id string, min int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k, n := range s.seen[id] {
		if levelRank[strings.SplitN(k, " ", 2)[0]] >= min {
			out = append(out, fmt.Sprintf("%s x%d", k, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// hostile texts that must stay inside the value they are put in.
func hostileText(r *rand.Rand, path bool) string {
	parts := []string{`","level":"fatal","forge":"`, `\`, `\"`, `"`, `}`, `"}{"forge":1}`, `\u0022,"forge":1`, "\u00e9", "\u2028", "\u65e5\u672c", "\xff\xfe", "\xc3", `%0a{"forge":1}`, "%0d%0a", "%00", "%1b[31m", "%s%d%n%!v(MISSING)", "a", "/", "'", "<script>", "&amp;", `{"time":"x"}`, strings.Repeat("long", 400), "null", "\u202e"}
	if !path {
		parts = append(parts, "\t", " ", `: , "forge" : 1`)
	}
	var b strings.Builder
	for k := 1 + r.Intn(6); k > 0; k-- {
		b.WriteString(pick(r, parts))
	}
	s := b.String()
	if path {
		s = strings.NewReplacer(" ", "", "\t", "", "#", "", "?", "").Replace(s)
		s = strings.NewReplacer("%s", "%25s", "%d%n", "%25d%25n", "%!", "%25!").Replace(s)
	}
	return strings.TrimSpace(s)
}

func init() {
	register("C37", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "the same exchanges (respKinds, hostile texts in path, query, user agent, id, token, content of upstream answers; garbage towards listener and pooled upstream connections; X-Request-Debug in several spellings) against servers at each LOGLEVEL and spelling; every output line is decoded; oracle: one JSON record per line with level, time, message and server id, none below the level, per request the same records at a level as TRACE shows, attempt records at DEBUG only where asked for; key = kind or spelling"
		c.assume = []string{"crash reports of the Go runtime and the usage text are not part of the log"}
		bin := c.buildJ8a(false)
		p := newPKI()
		rng := c.Rng("stream")
		type site struct {
			st *logStream
			k  *kitchen
			p  *pki
		}
		levels := []struct {
			name string
			env  []string
			min  int
			tls  bool
		}{
			{"TRACE", []string{"LOGLEVEL=TRACE"}, 0, false},
			{"trace-tls", []string{"LOGLEVEL=trace"}, 0, true},
			{"DEBUG", []string{"LOGLEVEL=DEBUG"}, 1, false},
			{"debug", []string{"LOGLEVEL=debug"}, 1, false},
			{"INFO", []string{"LOGLEVEL=INFO"}, 2, false},
			{"info-tls", []string{"LOGLEVEL=info"}, 2, true},
			{"WARN", []string{"LOGLEVEL=WARN"}, 3, false},
			{"Warn", []string{"LOGLEVEL=Warn", "LOGCOLOR=no"}, 3, false},
			{"empty", []string{"LOGLEVEL=", "LOGCOLOR="}, 2, false},
			{"unknown", []string{"LOGLEVEL=VERBOSE", "LOGCOLOR=0"}, 2, false},
			{"unknown-2", []string{"LOGLEVEL=5", "LOGCOLOR=false"}, 2, false},
		}
		up := J{"maxAttempts": 3, "readTimeoutSeconds": 1}
		keys := c.c37keys()
		var sites []*site
		for _, l := range levels {
			st := newLogStream(c, l.name, l.min)
			down := J{"roundTripTimeoutSeconds": 20, "maxBodyBytes": 1000}
			if l.tls {
				down = p.down(down)
			}
			k := c.c37kitchen(bin, keys, down, up, StartOpt{Env: l.env, TLS: l.tls, OnLine: st.line})
			sites = append(sites, &site{st: st, k: k, p: p})
		}
		ref := sites[0]
		tok := ref.k.token()
		send := func(x *site, method, target string, hs Headers, body []byte) (*Resp, error) {
			var tc *tls.Config
			if x.k.S.TLS {
				tc = x.p.client()
			}
			cl, err := dial(x.k.S.Addr, tc)
			if err != nil {
				return nil, err
			}
			defer cl.Close()
			if err := cl.Send(reqText(method, target, append(hs, HV{"Connection", "close"}), body)); err != nil && method != "POST" {
				return nil, err
			}
			return cl.Read(method, 40*time.Second)
		}

		// 1. per request the same records at every level
		type job struct {
			kind respKind
			n    int
			dbg  string
		}
		dbgs := []string{"", "true", "TRUE", "True", "false", "1", "yes", " true "}
		var jobs []job
		for n := 0; n < c.N(10, 60); n++ {
			for i, k := range respKinds() {
				if k.slow && n > 0 || k.name == "bad-body" {
					continue
				}
				jobs = append(jobs, job{k, n, dbgs[(n+i)%len(dbgs)]})
			}
		}
		ids := make([]string, len(jobs))
		for i := range ids {
			ids[i] = fmt.Sprintf("s%d-%s.", i, token(rng, 6))
		}
		c.Par(len(jobs)*len(sites), 64, func(n int) {
			i, x := n/len(sites), sites[n%len(sites)]
			j, id := jobs[i], ids[i]
			x.k.Sc.Set(id, j.kind.steps...)
			hs := hv("X-Case", id, "X-Request-Id", id)
			for _, h := range j.kind.hs {
				hs = append(hs, HV{h.K, strings.ReplaceAll(h.V, "@token", "Bearer "+tok)})
			}
			if j.dbg != "" {
				hs = append(hs, HV{"X-Request-Debug", j.dbg})
			}
			r, err := send(x, j.kind.method, strings.ReplaceAll(j.kind.target, "@", id), hs, j.kind.body)
			if err != nil || r.Code != j.kind.code {
				c.Inconclusive("%s on %s: %v", j.kind.name, x.st.name, err)
			}
		})
		for i, j := range jobs {
			for _, x := range sites {
				key := j.kind.name + "|" + x.st.name
				c.Case(key)
				want, got := ref.st.of(ids[i], x.st.min), x.st.of(ids[i], x.st.min)
				if want != got {
					// the record may still be on its way
					for k := 0; k < 20 && want != got; k++ {
						time.Sleep(250 * time.Millisecond)
						want, got = ref.st.of(ids[i], x.st.min), x.st.of(ids[i], x.st.min)
					}
				}
				if want != got && !j.kind.slow {
					c.Violate("level-changes-records", J{"server": x.st.name, "kind": j.kind.name, "trace": want, "got": got, "debug": j.dbg})
				}
			}
		}
		// attempt records are at debug exactly where asked for
		for i, j := range jobs {
			if j.kind.attempts == 0 {
				continue
			}
			asked := strings.EqualFold(strings.TrimSpace(j.dbg), "true")
			for _, x := range sites {
				x.st.mu.Lock()
				n := x.st.debug[ids[i]]
				x.st.mu.Unlock()
				if want := asked && x.st.min <= 1; want != (n > 0) {
					c.Violate("debug-of-one-request", J{"server": x.st.name, "kind": j.kind.name, "header": j.dbg, "records": n})
				}
				c.Case(fmt.Sprintf("debug|%q|%s", j.dbg, x.st.name))
			}
		}

		// 2. hostile texts everywhere
		c.Par(c.N(400, 6000), 32, func(i int) {
			r := rand.New(rand.NewSource(c.Seed*1e6 + int64(i)))
			x := sites[i%len(sites)]
			id := fmt.Sprintf("h%d-", i) + hostileText(r, false)
			cs := fmt.Sprintf("h%d.", i)
			x.k.Sc.Set(cs, func(q *UpReq, w *UpConn) {
				// what upstream says is hostile too
				switch r.Intn(6) {
				case 0:
					w.Send("HTTP/1.1 200 " + hostileText(r, false) + "\r\nConnection: close\r\nContent-Length: 0\r\nX-H: " + hostileText(r, false) + "\r\n\r\n")
				case 1:
					w.Send("HTTP/1.1 " + hostileText(r, false) + "\r\n\r\n")
				case 2:
					w.Send("HTTP/1.1 500 " + hostileText(r, false) + "\r\nConnection: close\r\n" + hostileText(r, false) + "\r\n\r\n")
				case 3:
					w.Send("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Encoding: gzip\r\nContent-Length: 9\r\n\r\n" + "\x1f\x8b" + "\",\"forge")
				default:
					w.Send(httpResp(200, hv("Connection", "close", "Set-Cookie", hostileText(r, false)), []byte(hostileText(r, false))))
				}
				w.Done()
			})
			path := pick(r, []string{"/r/", "/jwt/", "/jw/", "/none/", "/dead/", "/nolabel/", "/"}) + cs + hostileText(r, true)
			if r.Intn(2) == 0 {
				path += "?q=" + hostileText(r, true)
			}
			hs := hv("X-Case", cs, "X-Request-Id", id, "User-Agent", hostileText(r, false), "X-Request-Debug", pick(r, []string{"true", hostileText(r, false)}))
			switch r.Intn(5) {
			case 0:
				hs = append(hs, HV{"Authorization", "Bearer " + b64([]byte(`{"alg":"HS256","kid":`+string(mustJSON(hostileText(r, false)))+`}`)) + "." + b64([]byte(`{"iss":`+string(mustJSON(hostileText(r, false)))+`}`)) + ".AAAA"})
			case 1:
				hs = append(hs, HV{"Authorization", "Bearer " + hs256(kitchenSecret, J{"kid": hostileText(r, false)}, J{"sub": hostileText(r, false), "exp": 4e9, "iat": 1e9})})
			case 2:
				hs = append(hs, HV{"Authorization", hostileText(r, false)})
			}
			send(x, pick(r, []string{"GET", "POST", "PUT", "PATCH"}), path, hs, nil)
			c.Case("hostile|" + x.st.name)
		})
		// garbage that net/http reports about
		c.Par(c.N(220, 2000), 32, func(i int) {
			r := rand.New(rand.NewSource(c.Seed*1e7 + int64(i)))
			x := sites[i%len(sites)]
			cn, err := net.DialTimeout("tcp", x.k.S.Addr, 5*time.Second)
			if err != nil {
				return
			}
			defer cn.Close()
			cn.SetDeadline(time.Now().Add(5 * time.Second))
			switch r.Intn(4) {
			case 0:
				cn.Write([]byte("GET " + hostileText(r, false) + " HTTP/1.1\r\n\r\n"))
			case 1:
				cn.Write([]byte("\x16\x03\x01\x00\xff" + hostileText(r, false) + "\n"))
			case 2:
				cn.Write(append(randBytes(r, 1+r.Intn(300)), "\n\n"...))
			case 3:
				cn.Write([]byte(hostileText(r, false) + "\r\n" + hostileText(r, false) + "\r\n\r\n"))
			}
			buf := make([]byte, 2000)
			cn.Read(buf)
			c.Case("garbage|" + x.st.name)
		})
		// upstreams that speak on pooled connections
		c.Par(c.N(44, 400), 22, func(i int) {
			r := rand.New(rand.NewSource(c.Seed*1e8 + int64(i)))
			x := sites[i%len(sites)]
			cs := fmt.Sprintf("u%d.", i)
			x.k.Sc.Set(cs, func(q *UpReq, w *UpConn) {
				w.Send(httpResp(200, nil, []byte("fine")))
				time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
				w.Send(hostileText(r, false) + "\n" + `{"level":"info","forge":1}` + "\n")
				w.Done()
			})
			send(x, "GET", "/r/"+cs, hv("X-Case", cs), nil)
			c.Case("unasked|" + x.st.name)
		})
		// long records at the same time
		c.Par(c.N(200, 2000), 100, func(i int) {
			x := sites[i%len(sites)]
			cs := fmt.Sprintf("l%d.", i)
			x.k.Sc.Set(cs, answerClose(pick(rand.New(rand.NewSource(int64(i))), []int{200, 404, 500}), nil, []byte("fine")))
			send(x, "GET", "/r/"+cs+strings.Repeat("p", 20000), hv("X-Case", cs, "User-Agent", strings.Repeat("u", 30000)), nil)
			c.Case("long|" + x.st.name)
		})
		c.c37console(bin, keys)
		c.c37refused(bin)
		for _, x := range sites {
			c.Count("records", x.st.n)
		}
	})
}

// c37keys serves a good key set once per path and then hostile ones.
func (c *Ctx) c37keys() *Upstream {
	good := jwks(newKey("RS256", 2))
	var mu sync.Mutex
	n := map[string]int{}
	return c.newUpstream("jwks37", func(r *UpReq, w *UpConn) {
		mu.Lock()
		n[r.Target]++
		i := n[r.Target]
		mu.Unlock()
		rnd := rand.New(rand.NewSource(c.Seed + int64(i)))
		doc := good
		switch i % 4 {
		case 2:
			doc = hostileText(rnd, false)
		case 3:
			doc = `{"keys":[{"kty":"RSA","alg":` + string(mustJSON(hostileText(rnd, false))) + `,"kid":` + string(mustJSON(hostileText(rnd, false)+"\n\x1b[0m")) + `,"n":"AQAB","e":"AQAB"}]}`
		case 0:
			doc = `{"keys":[{"kty":` + string(mustJSON(hostileText(rnd, false)+"\n")) + `}]}`
		}
		answerClose(200, nil, []byte(doc))(r, w)
	})
}

var c37n int

// c37kitchen is a kitchen with a route whose keys are fetched.
func (c *Ctx) c37kitchen(bin string, keys *Upstream, down, up J, o StartOpt) *kitchen {
	k := &kitchen{Sc: newScripted(nil), Dead: c.deadPort()}
	k.Up = c.newUpstream("kitchen", k.Sc.Handle)
	k.cfg = c.kitchenCfg(down, up, k.Up, k.Dead)
	c37n++
	k.cfg["jwt"].(J)["jw"] = J{"alg": "RS256", "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/%d", keys.Port, c37n)}
	k.cfg["routes"] = append(k.cfg["routes"].(A), J{"path": "/jw/", "resource": "r", "jwt": "jw"})
	o.Bin = bin
	k.S = c.start(k.cfg, o)
	return k
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var consoleLine = regexp.MustCompile(`^(\S+) (TRC|DBG|INF|WRN|ERR|FTL|PNC) `)

// c37console: LOGCOLOR chooses text for people, still one line per record.
func (c *Ctx) c37console(bin string, keys *Upstream) {
	for i, v := range []string{"TRUE", "yes", "Y", "true"} {
		var mu sync.Mutex
		n := 0
		line := func(b []byte) {
			mu.Lock()
			defer mu.Unlock()
			n++
			t := ansi.ReplaceAllString(string(b), "")
			if !consoleLine.MatchString(t) || strings.ContainsFunc(t, func(r rune) bool { return r < 32 || r == 127 }) {
				c.Violate("console-line", J{"LOGCOLOR": v, "line": clip(b)})
			}
		}
		k := c.c37kitchen(bin, keys, J{"maxBodyBytes": 1000}, J{"maxAttempts": 3, "readTimeoutSeconds": 1}, StartOpt{Env: []string{"LOGLEVEL=" + []string{"TRACE", "DEBUG", "INFO", "TRACE"}[i], "LOGCOLOR=" + v}, OnLine: line})
		c.Par(c.N(60, 600), 16, func(i int) {
			r := rand.New(rand.NewSource(c.Seed*1e9 + int64(i)))
			cs := fmt.Sprintf("c%d.", i)
			k.Sc.Set(cs, answerClose(pick(r, []int{200, 404, 500}), nil, []byte("fine")))
			kid := hostileText(r, false) + pick(r, []string{"", "\n", "\x1b[31m", "\r", "\nx INF forged record"})
			hs := hv("X-Case", cs, "X-Request-Id", hostileText(r, false), "User-Agent", hostileText(r, false))
			if r.Intn(2) == 0 {
				hs = append(hs, HV{"Authorization", "Bearer " + hs256(pick(r, []string{kitchenSecret, "other"}), J{"kid": kid}, J{"sub": kid, "exp": 4e9, "iat": 1e9})})
			}
			k.S.doRaw("GET", reqText("GET", pick(r, []string{"/r/", "/jwt/", "/jw/", "/jw/", "/none/"})+cs+hostileText(r, true), append(hs, HV{"Connection", "close"}), nil))
			if r.Intn(4) == 0 {
				k.S.doRaw("GET", "GET "+hostileText(r, false)+"\r\n\r\n")
			}
			c.Case("console|" + v)
		})
		if n == 0 {
			c.Violate("console-empty", J{"LOGCOLOR": v})
		}
		for _, l := range k.S.Lines() {
			c.Violate("console-json", J{"LOGCOLOR": v, "record": l})
			break
		}
		k.S.Stop()
	}
}

// c37refused: what a process says that does not start is records too, the last one fatal.
func (c *Ctx) c37refused(bin string) {
	busy, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fatal("listen: %v", err)
	}
	defer busy.Close()
	ok := `{"connection":{"downstream":{"port":@PORT@}},"routes":[{"path":"/","resource":"r"}],"resources":{"r":[{"url":{"scheme":"http","host":"127.0.0.1","port":1}}]}}`
	rep := strings.NewReplacer
	cases := map[string]string{
		"not-yaml":       "\t{[",
		"no-routes":      `{"connection":{"downstream":{"port":@PORT@}}}`,
		"scalar":         "forge",
		"type":           rep(`"routes":[`, `"routes":"forge","x":[`).Replace(ok),
		"busy-port":      rep("@PORT@", fmt.Sprint(busy.Addr().(*net.TCPAddr).Port)).Replace(ok),
		"bad-port":       rep("@PORT@", "70000").Replace(ok),
		"missing-jwt":    rep(`"resource":"r"}`, `"resource":"r","jwt":"\",\"forge\":\"\n"}`).Replace(ok),
		"bad-alg":        rep(`"routes"`, `"jwt":{"j\nforge":{"alg":"forge\"","key":"x"}},"routes"`).Replace(ok),
		"bad-key":        rep(`"routes"`, `"jwt":{"j":{"alg":"RS256","key":"-----BEGIN\nforge"}},"routes"`).Replace(ok),
		"bad-skew":       rep(`"routes"`, `"jwt":{"j":{"alg":"HS256","key":"x","acceptableSkewSeconds":"fo\nrge"}},"routes"`).Replace(ok),
		"bad-regex":      rep(`"path":"/"`, `"path":"/(\n\"forge\":"`).Replace(ok),
		"bad-transform":  rep(`"resource":"r"}`, `"resource":"r","transform":"x\n\"forge"}`).Replace(ok),
		"dead-jwks":      rep(`"routes"`, `"jwt":{"j":{"alg":"RS256","jwksUrl":"http://127.0.0.1:1/\n\"forge\":"}},"routes"`).Replace(ok),
		"bad-cert":       rep(`"port":@PORT@`, `"port":@PORT@,"mode":"TLS","cert":"forge\n","key":"forge\n"`).Replace(ok),
		"bad-mode-chain": rep(`"port":@PORT@`, `"port":@PORT@,"mode":"tls","cert":"-----BEGIN CERTIFICATE-----\nZm9yZ2U=\n-----END CERTIFICATE-----\n","key":"x"`).Replace(ok),
	}
	names := []string{}
	for k := range cases {
		names = append(names, k)
	}
	sort.Strings(names)
	c.Par(len(names), 8, func(i int) {
		st := newLogStream(c, "refused "+names[i], 0)
		s := c.launch(nil, StartOpt{Bin: bin, Raw: cases[names[i]], OnLine: st.line})
		defer s.Stop()
		if !s.WaitExit(30 * time.Second) {
			c.Inconclusive("%s: still running", names[i])
			return
		}
		if st.tail != "fatal" {
			c.Violate("no-fatal-record", J{"case": names[i], "last": st.tail, "output": s.Tail(10)})
		}
		c.Case("refused|" + names[i])
	})
}
