package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"
)

// C21: data races, decided by the Go race detector over the real server and shared helpers.

func init() {
	register("C21", func(c *Ctx) {
		c.rule = "three race-instrumented servers (HTTP with little log; TLS with HTTP/2 and coloured log; ten rotating JWKS jwts with trace log) under concurrent load of all outcome kinds incl. retries, attempt and round trip timeouts, late answers, aborts, plus in-package runs of shared helpers, of bursts of the handlers on recorders without sockets and log (which would order goroutines), and of contended JWKS refreshes; oracle: no race detector report; key = workload x outcome observed"
		c.assume = []string{"the race detector sees races only between accesses that were executed; happens-before is the Go memory model's"}
		bin := c.buildJ8a(true)
		var wg sync.WaitGroup
		run := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }() }
		a := c.mixer(bin, false, nil, nil, StartOpt{Level: "WARN"}) // log and socket writes order goroutines: keep one server quiet
		b := c.mixer(bin, true, J{"roundTripTimeoutSeconds": 1}, J{"readTimeoutSeconds": 1, "idleTimeoutSeconds": 1}, StartOpt{Level: "DEBUG", Env: []string{"LOGCOLOR=true"}})
		a.mute, b.mute = true, true
		// half of the second server's slow requests time out downstream, half upstream
		nj := 10
		js := map[string]*rotJwt{}
		srv := c.newUpstream("jwks", func(r *UpReq, w *UpConn) {
			if j := js[strings.TrimPrefix(r.Target, "/")]; j != nil {
				j.handle(r, w)
				return
			}
			w.Done()
		})
		app := c.newUpstream("app", answerClose(200, nil, []byte("served")))
		app.keep = false
		jwts, routes := J{}, A{J{"path": "/about", "resource": "about", "jwt": "j0"}}
		keys := make([][]*jkey, nj)
		algs := []string{"RS256", "ES256", "PS384", "ES384", "RS512", "ES512"}
		for i := 0; i < nj; i++ {
			n := fmt.Sprintf("j%d", i)
			for k := 0; k < 4; k++ {
				x := newKey(algs[i%len(algs)], k)
				x.kid = fmt.Sprintf("%s-%d", n, k)
				keys[i] = append(keys[i], x)
			}
			js[n] = &rotJwt{name: n, alg: algs[i%len(algs)]}
			js[n].step = jsonAnswer(jwks(keys[i][0]))
			jwts[n] = J{"alg": algs[i%len(algs)], "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/%s", srv.Port, n)}
			routes = append(routes, J{"path": "/" + n + "/", "resource": "r", "jwt": n})
		}
		s := c.start(J{"jwt": jwts, "routes": routes, "resources": J{"r": resourceOf(app)}}, StartOpt{Bin: bin, Level: "TRACE"})
		dur := time.Duration(c.N(18, 120)) * time.Second
		end := time.Now().Add(dur)
		for i := 0; i < nj; i++ {
			i := i
			j := js[fmt.Sprintf("j%d", i)]
			run(func() { // publisher
				for v := 1; time.Now().Before(end); v++ {
					switch v % 4 {
					case 1:
						j.set(jsonAnswer(jwks(keys[i][0], keys[i][1])), true, false)
					case 2:
						j.set(jsonAnswer(jwks(keys[i][2])), true, false)
					case 3:
						x := *keys[i][3]
						x.kid = keys[i][0].kid // republished
						j.set(jsonAnswer(jwks(&x)), true, false)
					default:
						j.set(answerClose(500, nil, nil), false, false)
					}
					time.Sleep(3 * time.Second)
				}
			})
			for w := 0; w < 4; w++ {
				r := c.Rng(fmt.Sprintf("j%d-%d", i, w))
				run(func() {
					for time.Now().Before(end) {
						k := pick(r, keys[i])
						kid := k.kid
						if r.Intn(3) == 0 {
							kid = "unknown-" + token(r, 5)
						}
						p := "/" + j.name + "/x"
						if i == 0 && r.Intn(3) == 0 {
							p = "/about"
						}
						rp, err := s.ex("GET", p, hv("Authorization", "Bearer "+k.sign(J{"kid": kid}, J{"sub": "x", "exp": time.Now().Unix() + 99, "iat": time.Now().Unix(), "nbf": time.Now().Unix()})), nil)
						if err == nil && rp.Err == nil {
							c.Case(fmt.Sprintf("jwks %s %d", p[:3], rp.Code))
						}
						time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
					}
				})
			}
		}
		for i := 0; i < 20; i++ {
			i := i
			run(func() { a.client(c.Rng(fmt.Sprintf("a%d", i)), c.N(120, 1200), 15, 17) })
			if i%2 == 0 {
				run(func() { b.client(c.Rng(fmt.Sprintf("b%d", i)), c.N(60, 600), 9, 17) })
			}
		}
		for i := 0; i < 3; i++ {
			i := i
			run(func() { b.clientH2(c.Rng(fmt.Sprintf("h%d", i)), c.N(240, 2500), 20, 12, 31) })
		}
		run(func() { // plain text and garbage on the TLS port go through the error log
			r := c.Rng("garbage")
			for time.Now().Before(end) {
				if cl, err := dial(b.S.Addr, nil); err == nil {
					cl.Send(pick(r, []string{"GET / HTTP/1.1\r\n\r\n", string(randBytes(r, 50))}))
					cl.Read("GET", time.Second)
					cl.Close()
				}
				time.Sleep(20 * time.Millisecond)
			}
		})
		var inOut []string
		run(func() {
			for _, p := range [][2]string{{"race_verif_test.go", "TestVerifRaceShared"}, {"race_handler_verif_test.go", "TestVerifRaceHandler"}, {"race_handler_verif_test.go", "TestVerifRaceRefresh"}} {
				t, why := c.buildTest(true, p[0])
				if t == "" {
					c.Inconclusive("in-package part does not compile: %s", firstLines(why, 5))
					continue
				}
				var o []string
				for mode := 0; mode < 1 || mode < 6 && p[1] == "TestVerifRaceHandler"; mode++ {
					x, _ := c.runTest(t, p[1], 3*time.Minute, fmt.Sprintf("VERIF_ROUNDS=%d", c.N(100, 2000)), fmt.Sprintf("VERIF_MODE=%d", mode))
					o = append(o, x...)
				}
				inOut = append(inOut, o...)
				for _, l := range o {
					x := strings.Fields(l)
					if strings.HasPrefix(l, "VERIF-DONE") {
						n, _ := strconv.Atoi(x[1])
						c.Count("in-package "+p[1], n)
					} else if strings.HasPrefix(l, "VERIF-CODE") {
						c.Case("in-package " + x[1])
					}
				}
			}
		})
		wg.Wait()
		time.Sleep(300 * time.Millisecond)
		report := func(where string, races map[string]string) {
			for k, v := range races {
				c.Violate("race "+k, J{"where": where, "report": firstLines(v, 60)})
			}
		}
		report("http", a.S.Races())
		report("tls", b.S.Races())
		report("jwks", s.Races())
		report("in-package", racesIn(inOut))
		for _, x := range []*Server{a.S, b.S, s} {
			for _, p := range x.Raw() {
				if strings.HasPrefix(p, "fatal error: concurrent map") {
					c.Violate("race "+p, J{"line": p})
				}
			}
			if !x.Alive() {
				c.Violate("server-died", J{"exit": x.ExitCode(), "tail": x.Tail(5)})
			}
		}
		n := 0
		for _, j := range js {
			j.mu.Lock()
			n += len(j.fetches)
			j.mu.Unlock()
		}
		c.Count("jwks-fetches", n)
		a.summary()
		b.summary()
	})
}
