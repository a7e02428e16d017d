package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"
)

// C16: JWKS rotation histories.

type rotFetch struct {
	ver         int
	arrived     int64
	done        int64
	stall, good bool
}

type rotJwt struct {
	name, alg string
	paths     []string
	mu        sync.Mutex
	ver       int
	step      Step
	stall     bool
	good      bool
	fetches   []*rotFetch
}

func (j *rotJwt) set(st Step, good, stall bool) int {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.ver++
	j.step, j.good, j.stall = st, good, stall
	return j.ver
}

func (j *rotJwt) handle(r *UpReq, w *UpConn) {
	j.mu.Lock()
	f := &rotFetch{ver: j.ver, arrived: now(), stall: j.stall, good: j.good}
	j.fetches = append(j.fetches, f)
	st := j.step
	j.mu.Unlock()
	st(r, w)
	j.mu.Lock()
	f.done = now()
	j.mu.Unlock()
}

// fetched returns the first fetch of a version, if it has ended, and how many fetches arrived after that.
func (j *rotJwt) fetched(ver int) (f rotFetch, ok bool, later int, lastArrival int64) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for _, x := range j.fetches {
		if ok {
			later++
			lastArrival = x.arrived
		} else if x.ver == ver && x.done != 0 {
			f, ok = *x, true
		}
	}
	return
}

func (j *rotJwt) inFlight() (rotFetch, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for _, x := range j.fetches {
		if x.done == 0 {
			return *x, true
		}
	}
	return rotFetch{}, false
}

func jsonAnswer(doc string) Step {
	return answerClose(200, hv("Content-Type", "application/json"), []byte(doc))
}

// rotBad is one way a JWKS answer can be useless; foreign are keys whose tokens must stay refused.
type rotBad struct {
	name    string
	st      Step
	stall   bool
	foreign func() []*jkey
}

func otherAlg(alg string) string {
	switch alg[:2] {
	case "RS":
		return "PS" + alg[2:]
	case "PS":
		return "RS" + alg[2:]
	}
	if alg == "ES256" {
		return "ES384"
	}
	return "ES256"
}

func rotBads(r *rand.Rand, alg string, n int, known []*jkey) []rotBad {
	// keys an attacker or a confused publisher may add
	// (RSA keys of the pool: own numbers, a key that was published properly is not foreign under another name)
	n += 100
	fk := newKey(otherAlg(alg), n)
	fk.kid = "foreign-" + token(r, 5)
	oct := newKey("HS256", n)
	oct.kid = "oct-" + token(r, 5)
	kt := newKey(map[bool]string{true: "RS256", false: "ES256"}[alg[0] == 'E'], n+1)
	kt.kid = "type-" + token(r, 5)
	alias := func(k *jkey, a string) J { j := k.jwk(); j["alg"] = a; return j }
	set := func(ks ...J) Step {
		a := A{}
		for _, k := range ks {
			a = append(a, k)
		}
		return jsonAnswer(string(mustJSON(J{"keys": a})))
	}
	del := func(j J, ks ...string) J {
		o := J{}
		for a, b := range j {
			o[a] = b
		}
		for _, k := range ks {
			delete(o, k)
		}
		return o
	}
	put := func(j J, k string, v any) J { o := del(j); o[k] = v; return o }
	fresh := newKey(alg, n+2)
	fresh.kid = "damaged-" + token(r, 5)
	part := "n"
	if alg[0] == 'E' {
		part = "x"
	}
	none := func() []*jkey { return nil }
	return []rotBad{
		{"500", answerClose(500, nil, []byte("oops")), false, none},
		{"404-html", answerClose(404, hv("Content-Type", "text/html"), []byte("<html>not here</html>")), false, none},
		{"empty-body", jsonAnswer(""), false, none},
		{"empty-object", jsonAnswer("{}"), false, none},
		{"empty-keys", jsonAnswer(`{"keys":[]}`), false, none},
		{"null", jsonAnswer("null"), false, none},
		{"null-keys", jsonAnswer(`{"keys":null}`), false, none},
		{"null-key", jsonAnswer(`{"keys":[null]}`), false, none},
		{"number-key", jsonAnswer(`{"keys":[1]}`), false, none},
		{"array", jsonAnswer("[]"), false, none},
		{"string", jsonAnswer(`"keys"`), false, none},
		{"truncated-json", jsonAnswer(jwks(known...)[:20]), false, none},
		{"garbage", jsonAnswer(string(randBytes(r, 3000))), false, none},
		{"close", func(q *UpReq, w *UpConn) { w.Done() }, false, none},
		{"reset", func(q *UpReq, w *UpConn) { w.Reset() }, false, none},
		{"truncated-http", func(q *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n{\"keys\":[")
			w.Done()
		}, false, none},
		{"not-http", func(q *UpReq, w *UpConn) { w.Send("hello\r\n\r\n"); w.Done() }, false, none},
		{"stall", func(q *UpReq, w *UpConn) { <-w.WatchPeer() }, true, none},
		{"stall-body", func(q *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n{\"keys\":[")
			<-w.WatchPeer()
		}, true, none},
		{"foreign-alg", set(fk.jwk()), false, func() []*jkey { return []*jkey{fk} }},
		{"foreign-alg-known-kid", set(put(fk.jwk(), "kid", known[0].kid)), false, func() []*jkey { return []*jkey{fk} }},
		{"oct", set(oct.jwk()), false, func() []*jkey { return []*jkey{oct} }},
		{"oct-as-" + alg, set(alias(oct, alg)), false, func() []*jkey { return []*jkey{oct} }},
		{"oct-known-kid", set(put(alias(oct, alg), "kid", known[0].kid)), false, func() []*jkey { return []*jkey{oct} }},
		{"other-type-as-" + alg, set(alias(kt, alg)), false, func() []*jkey { return []*jkey{kt} }},
		{"other-type-known-kid", set(put(alias(kt, alg), "kid", known[0].kid)), false, func() []*jkey { return []*jkey{kt} }},
		{"alg-none", set(put(fresh.jwk(), "alg", "none")), false, none},
		{"alg-missing", set(del(fresh.jwk(), "alg")), false, none},
		{"alg-number", set(put(fresh.jwk(), "alg", 7)), false, none},
		{"kty-missing", set(del(fresh.jwk(), "kty")), false, none},
		{"kty-unknown", set(put(fresh.jwk(), "kty", "XYZ")), false, none},
		{"part-missing", set(del(fresh.jwk(), part)), false, none},
		{"part-not-base64", set(put(fresh.jwk(), part, "***")), false, none},
		{"part-number", set(put(fresh.jwk(), part, 5)), false, none},
		{"known-kid-part-missing", set(del(put(fresh.jwk(), "kid", known[0].kid), part)), false, none},
	}
}

func init() {
	register("C16", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "one jwt per history, each a sequence of JWKS answers (key added, removed from the document, republished under a known kid, without kid; 35 kinds of useless or foreign answers incl. stalls) with token streams of every key ever published, foreign keys and bursts of unknown kids in between; oracle over the fetch log and token verdicts; key = algorithm x answer kinds in order"
		c.assume = []string{"a set mixing algorithms is only used up to its first foreign key (as designed); such sets are not judged for their remaining keys"}
		bin := c.buildJ8a(c.Thorough())
		rng := c.Rng("rot")
		algs := []string{"RS256", "ES256", "PS256", "ES384", "RS512", "ES512", "PS384", "RS384", "PS512"}
		nh := c.N(48, 120)
		type hist struct {
			j     *rotJwt
			alg   string
			keys  []*jkey
			kinds []string
		}
		var hs []*hist
		byPath := map[string]*rotJwt{}
		srv := c.newUpstream("jwks", func(r *UpReq, w *UpConn) {
			if j := byPath[r.Target]; j != nil {
				j.handle(r, w)
				return
			}
			w.Done()
		})
		sc := newScripted(answerClose(200, nil, []byte("served")))
		up := c.newUpstream("app", sc.Handle)
		jwts, routes := J{}, A{J{"path": "/open/", "resource": "r"}}
		for i := 0; i < nh; i++ {
			alg := algs[(i+rng.Intn(3))%len(algs)]
			h := &hist{alg: alg}
			h.j = &rotJwt{name: fmt.Sprintf("j%d", i), alg: alg, paths: []string{fmt.Sprintf("/j%da/", i), fmt.Sprintf("/j%db/", i)}}
			start := 1 + i%2
			if i%5 == 3 { // a large set
				start = 9 + i%4
			}
			for n := 0; n < start; n++ {
				k := newKey(alg, n)
				k.kid = fmt.Sprintf("k%d-0-%d", i, n)
				h.keys = append(h.keys, k)
			}
			h.j.step = jsonAnswer(jwks(h.keys...))
			byPath["/"+h.j.name] = h.j
			jwts[h.j.name] = J{"alg": alg, "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/%s", srv.Port, h.j.name)}
			for _, p := range h.j.paths {
				routes = append(routes, J{"path": p, "resource": "r", "jwt": h.j.name})
			}
			hs = append(hs, h)
		}
		s := c.start(J{"jwt": jwts, "routes": routes, "resources": J{"r": resourceOf(up)}}, StartOpt{Bin: bin, Level: "INFO"})
		sharedDone := make(chan struct{})
		go func() {
			defer close(sharedDone)
			c.c16shared(bin)
		}()
		defer func() { <-sharedDone }()
		nb := len(rotBads(c.Rng("count"), "RS256", 0, hs[0].keys))
		steps := c.N(4, 14)
		c.Par(nh, nh, func(hi int) {
			h := hs[hi]
			r := c.Rng(fmt.Sprintf("h%d", hi))
			j := h.j
			type rep struct {
				k  *jkey
				at int64
			}
			live := append([]*jkey(nil), h.keys...)
			var replaced, foreign []*jkey
			var caseN int
			claims := func() J { return J{"sub": token(r, 6), "exp": time.Now().Unix() + 3600} }
			// ask sends one token and returns the code and the time it was sent; 0 = undecided
			ask := func(what, tok string, want int) (int, int64) {
				caseN++
				id := fmt.Sprintf("h%d-%d.", hi, caseN)
				sent := now()
				rp, err := s.ex("GET", pick(r, j.paths), hv("X-Case", id, "Authorization", "Bearer "+tok), nil)
				d := J{"jwt": j.name, "alg": h.alg, "token": what, "history": h.kinds}
				if !c.judge("rotation", rp, err, d) {
					return 0, sent
				}
				d["code"] = rp.Code
				if rp.Code != 200 && rp.Code != 401 {
					c.Violate("unexpected-status", d)
				}
				n := len(up.ForCase(id))
				if (rp.Code == 200) != (n == 1) {
					d["requests"] = n
					c.Violate("verdict-and-upstream-disagree", d)
				}
				if want != 0 && rp.Code != want {
					d["want"] = want
					c.Violate("verdict-"+what, d)
				}
				up.ForgetPrefix(id)
				c.Count("tokens", 1)
				return rp.Code, sent
			}
			kidOf := func(k *jkey, mode int) J {
				switch mode {
				case 0:
					return J{"kid": k.kid}
				case 1:
					return J{"kid": nil}
				}
				return J{"kid": "unknown-" + token(r, 6)}
			}
			held := map[*jkey]string{} // a token per key that is used again and again
			hold := func(k *jkey) string {
				if held[k] == "" {
					held[k] = k.sign(kidOf(k, 0), claims())
				}
				return held[k]
			}
			probe := func() {
				for _, k := range live {
					ask("held-live-key", hold(k), 200)
				}
				for _, k := range replaced {
					ask("held-replaced-key", hold(k), 401)
				}
				for _, k := range live {
					ask("live-key", k.sign(kidOf(k, r.Intn(2)), claims()), 200)
				}
				for _, k := range replaced {
					ask("replaced-key", k.sign(kidOf(k, r.Intn(2)), claims()), 401)
				}
				for _, k := range foreign {
					ask("foreign-key", k.sign(kidOf(k, r.Intn(2)), claims()), 401)
					// under the configured algorithm's name
					if k.alg[0] == 'H' {
						ask("foreign-key", signRaw(k, k.alg, mustJSON(J{"alg": h.alg, "kid": k.kid}), mustJSON(claims())), 401)
					} else {
						k2 := *k
						if (k.rsa != nil) == (h.alg[0] != 'E') && k.rsa != nil {
							k2.alg = h.alg
							ask("foreign-key", k2.sign(J{"kid": k.kid}, claims()), 401)
						}
					}
				}
			}
			trigger := func() { // tokens that do not name a known key
				k := live[r.Intn(len(live))]
				switch r.Intn(3) {
				case 0:
					ask("live-key-unknown-kid", k.sign(kidOf(k, 2), claims()), 200)
				case 1:
					x := newKey(h.alg, 900)
					ask("unpublished-key", x.sign(kidOf(x, 2), claims()), 401)
				default:
					t := k.sign(kidOf(k, 2), claims())
					ask("broken-signature", t[:len(t)-9]+token(r, 9), 401)
				}
			}
			probe()
			for st := 0; st < steps; st++ {
				bad := st%2 == 0 && hi%4 != 0 && st != steps-1
				var ver int
				var add, repl *jkey
				kind := ""
				stall := false
				if bad {
					bs := rotBads(r, h.alg, r.Intn(4)+3, live)
					b := bs[(hi*7+st*5+r.Intn(3)*nb/3)%nb]
					if b.stall && st != 0 && !c.Thorough() {
						b = bs[r.Intn(17)]
					}
					kind, stall = b.name, b.stall
					foreign = append(foreign, b.foreign()...)
					h.kinds = append(h.kinds, kind)
					ver = j.set(b.st, false, b.stall)
				} else {
					add = newKey(h.alg, 2+r.Intn(5))
					for dup := true; dup && add.rsa != nil; { // never an RSA key this history already used
						dup = false
						for _, k := range append(append([]*jkey{}, live...), replaced...) {
							if k.rsa == add.rsa {
								dup = true
							}
						}
						if dup {
							add = newKey(h.alg, 2+r.Intn(40))
						}
					}
					switch r.Intn(5) {
					case 0: // only the new one
						kind = "only-new"
						add.kid = fmt.Sprintf("k%d-%d", hi, st+1)
						ver = j.set(jsonAnswer(jwks(add)), true, false)
					case 1:
						kind = "added"
						add.kid = fmt.Sprintf("k%d-%d", hi, st+1)
						all := append([]*jkey{}, live...)
						at := r.Intn(len(all) + 1)
						all = append(all[:at], append([]*jkey{add}, all[at:]...)...)
						ver = j.set(jsonAnswer(jwks(all...)), true, false)
					case 2:
						kind = "without-kid"
						ver = j.set(jsonAnswer(jwks(append([]*jkey{add}, live...)...)), true, false)
					case 3:
						kind = "slow-but-good"
						add.kid = fmt.Sprintf("k%d-%d", hi, st+1)
						doc := jsonAnswer(jwks(add))
						ver = j.set(func(q *UpReq, w *UpConn) { time.Sleep(700 * time.Millisecond); doc(q, w) }, true, false)
					default:
						i := r.Intn(len(live))
						repl = live[i]
						if repl.kid == "" {
							repl = nil
							kind = "only-new"
							add.kid = fmt.Sprintf("k%d-%d", hi, st+1)
						} else {
							kind = "republished"
							add.kid = repl.kid
							live = append(live[:i:i], live[i+1:]...)
						}
						ver = j.set(jsonAnswer(jwks(add)), true, false)
					}
					h.kinds = append(h.kinds, kind)
				}
				d := func() J { return J{"jwt": j.name, "alg": h.alg, "history": h.kinds} }
				if add != nil { // may be early
					ask("held-new-key", hold(add), 0)
				}
				// until the document has been fetched
				began := time.Now()
				okStall, lateStall := 0, 0
				for {
					if _, ok, _, _ := j.fetched(ver); ok {
						break
					}
					if f, fl := j.inFlight(); fl && f.stall {
						// request processing must go on while the JWKS server stalls
						tok := ""
						if len(live) > 0 {
							k := live[r.Intn(len(live))]
							tok = k.sign(kidOf(k, r.Intn(3)), claims())
						}
						ask("live-key-while-stalled", tok, 200)
						if f2, still := j.inFlight(); still && f2.arrived == f.arrived {
							okStall++
						} else {
							lateStall++
						}
						time.Sleep(300 * time.Millisecond)
						continue
					}
					if time.Since(began) > 50*time.Second {
						if s.controlOK(3) {
							c.Violate("rotation-stopped", d())
						} else {
							c.Inconclusive("no fetch and no control answer")
						}
						return
					}
					if len(live) > 0 && repl == nil {
						if r.Intn(8) == 0 { // burst
							var wg sync.WaitGroup
							k := live[r.Intn(len(live))]
							var toks []string
							for i := 0; i < 12; i++ {
								toks = append(toks, k.sign(kidOf(k, 2), claims()))
							}
							for i, t := range toks {
								wg.Add(1)
								go func() {
									defer wg.Done()
									rp, err := s.ex("GET", j.paths[i%2], hv("X-Case", fmt.Sprintf("h%d-b.", hi), "Authorization", "Bearer "+t), nil)
									if c.judge("burst", rp, err, d()) && rp.Code != 200 {
										c.Violate("verdict-live-key-in-burst", d())
									}
								}()
							}
							wg.Wait()
							up.ForgetPrefix(fmt.Sprintf("h%d-b.", hi))
						} else {
							trigger()
						}
					} else {
						x := newKey(h.alg, 900)
						ask("unpublished-key", x.sign(kidOf(x, 2), claims()), 401)
					}
					time.Sleep(150 * time.Millisecond)
				}
				if stall && lateStall > 0 && okStall == 0 && lateStall >= 1 && s.controlOK(3) {
					x := d()
					x["late"] = lateStall
					c.Violate("requests-blocked-by-stalled-jwks", x)
				}
				if stall {
					c.Count("requests-served-during-stall", okStall)
				}
				if !bad {
					// in use at the latest once the next fetch has begun
					for {
						_, _, later, last := j.fetched(ver)
						code, sent := ask("new-key", add.sign(kidOf(add, 0), claims()), 0)
						if code == 200 {
							break
						}
						if later > 0 && sent > last && code == 401 {
							c.Violate("published-key-not-used", d())
							return
						}
						if time.Since(began) > 90*time.Second {
							if code == 401 && s.controlOK(3) {
								c.Violate("published-key-not-used", d())
							} else {
								c.Inconclusive("new key undecided")
							}
							return
						}
						// force further fetches
						x := newKey(h.alg, 900)
						ask("unpublished-key", x.sign(kidOf(x, 2), claims()), 401)
						time.Sleep(100 * time.Millisecond)
					}
					live = append(live, add)
					if repl != nil {
						replaced = append(replaced, repl)
					}
				} else {
					time.Sleep(200 * time.Millisecond)
				}
				probe()
				c.Case(h.alg + " " + strings.Join(h.kinds, ">"))
			}
			// fetch log
			j.mu.Lock()
			defer j.mu.Unlock()
			var gaps []string
			for i := 1; i < len(j.fetches); i++ {
				g := time.Duration(j.fetches[i].arrived - j.fetches[i-1].arrived)
				gaps = append(gaps, g.Round(time.Millisecond).String())
				if i >= 2 && g < 10*time.Second {
					x := J{"jwt": j.name, "history": h.kinds, "gaps": gaps}
					c.Violate("refreshes-too-close", x)
				}
				if j.fetches[i-1].done == 0 || j.fetches[i].arrived < j.fetches[i-1].done && !j.fetches[i-1].stall {
					c.Violate("refreshes-overlap", J{"jwt": j.name, "history": h.kinds, "gaps": gaps})
				}
			}
			c.Count("fetches", len(j.fetches))
			if hi < 4 {
				c.Sample(J{"alg": h.alg, "history": h.kinds, "fetch-gaps": gaps})
			}
		})
		c.checkHealth(s)
		for k, v := range s.Races() {
			c.Violate("race", J{"frames": k, "report": v})
		}
	})
}

// c16shared: several jwt that fetch from one URL rotate each for itself.
func (c *Ctx) c16shared(bin string) {
	up := c.newUpstream("shared-app", func(r *UpReq, w *UpConn) { answerClose(200, nil, []byte("served"))(r, w) })
	for _, alg := range []string{"RS256", "ES384"} {
		k1, k2, k3 := newKey(alg, 30), newKey(alg, 31), newKey(alg, 32)
		k1.kid, k2.kid, k3.kid = "s1", "s2", "s1"
		var mu sync.Mutex
		doc := jwks(k1)
		srv := c.newUpstream("shared-jwks", func(r *UpReq, w *UpConn) {
			mu.Lock()
			d := doc
			mu.Unlock()
			jsonAnswer(d)(r, w)
		})
		jwts, routes := J{}, A{J{"path": "/open/", "resource": "r"}}
		for _, n := range []string{"a", "b", "c"} {
			jwts[n] = J{"alg": alg, "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/keys", srv.Port)}
			routes = append(routes, J{"path": "/" + n + "/", "resource": "r", "jwt": n})
		}
		s := c.start(J{"jwt": jwts, "routes": routes, "resources": J{"r": resourceOf(up)}}, StartOpt{Bin: bin, Level: "INFO"})
		ask := func(n string, k *jkey) int {
			r, err := s.ex("GET", "/"+n+"/x", hv("Authorization", "Bearer "+k.sign(J{"kid": k.kid}, J{"exp": time.Now().Unix() + 3600})), nil)
			if !c.judge("shared-url", r, err, J{"jwt": n, "alg": alg}) {
				return 0
			}
			return r.Code
		}
		must := func(what, n string, k *jkey, want int) {
			if got := ask(n, k); got != 0 && got != want {
				c.Violate("shared-url-"+what, J{"jwt": n, "alg": alg, "code": got})
			}
		}
		for _, n := range []string{"a", "b", "c"} {
			must("first-key", n, k1, 200)
		}
		for st, d := range []string{jwks(k2), jwks(k2, k3)} {
			mu.Lock()
			doc = d
			mu.Unlock()
			for _, n := range []string{"b", "a", "c"} {
				if st == 1 && n == "c" {
					continue
				}
				nk := []*jkey{k2, k3}[st]
				x := newKey(alg, 33)
				x.kid = fmt.Sprintf("unknown-%d%s", st, n)
				for began := time.Now(); ; time.Sleep(250 * time.Millisecond) {
					ask(n, x)
					if ask(n, nk) == 200 {
						break
					}
					if time.Since(began) > 50*time.Second {
						if s.controlOK(3) {
							c.Violate("shared-url-rotation-stopped", J{"jwt": n, "alg": alg, "step": st})
						} else {
							c.Inconclusive("shared url: no control answer")
						}
						return
					}
				}
				if st == 0 {
					must("old-key", n, k1, 200)
				} else {
					must("replaced-key", n, k1, 401)
					must("kept-key", n, k2, 200)
				}
				c.Case(fmt.Sprintf("shared url %s jwt=%s step=%d", alg, n, st))
			}
		}
	}
}
