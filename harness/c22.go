package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// C22: one X-Request-Id per request on both wires and in the log.

func init() {
	register("C22", func(c *Ctx) {
		c.rule = "29 response kinds (success, wrapped errors, retries, timeouts, all refusals, about) x request id given in 11 forms or absent x upstream sending ids of its own, over HTTP/1.1, 1.0 and HTTP/2; the id must be one and the same on every attempt, exactly once on the response and in the log record, and generated ids never repeat; key = kind x id form x protocol"
		c.assume = []string{"requests repeating the header with several values are only judged for agreement of the places, not for which value wins"}
		bin := c.buildJ8a(false)
		scens := respKinds()
		idForms := []struct {
			name string
			mk   func(id string) Headers
			want func(id string) string // "" = generated, "?" = not judged
		}{
			{"absent", func(id string) Headers { return nil }, func(id string) string { return "" }},
			{"plain", func(id string) Headers { return hv("X-Request-Id", "own-"+id) }, func(id string) string { return "own-" + id }},
			{"upper-name", func(id string) Headers { return hv("X-REQUEST-ID", "own-"+id) }, func(id string) string { return "own-" + id }},
			{"lower-name", func(id string) Headers { return hv("x-request-id", "OWN-"+id) }, func(id string) string { return "OWN-" + id }},
			{"inner-space", func(id string) Headers { return hv("X-Request-Id", "own "+id+"  x") }, func(id string) string { return "own " + id + "  x" }},
			{"long", func(id string) Headers { return hv("X-Request-Id", id+strings.Repeat("l", 3000)) }, func(id string) string { return id + strings.Repeat("l", 3000) }},
			{"special", func(id string) Headers { return hv("X-Request-Id", `"{,;}\`+id+`%00'<>`) }, func(id string) string { return `"{,;}\` + id + `%00'<>` }},
			{"utf8", func(id string) Headers { return hv("X-Request-Id", "ïd-"+id+"-日本") }, func(id string) string { return "ïd-" + id + "-日本" }},
			{"short", func(id string) Headers { return hv("X-Request-Id", "0") }, func(id string) string { return "0" }},
			{"xr-like", func(id string) Headers { return hv("X-Request-Id", "XR-00000000-"+id) }, func(id string) string { return "XR-00000000-" + id }},
			{"empty", func(id string) Headers { return hv("X-Request-Id", "") }, func(id string) string { return "" }},
			{"twice", func(id string) Headers { return hv("X-Request-Id", "one-"+id, "X-Request-Id", "two-"+id) }, func(id string) string { return "?" }},
			{"hop", func(id string) Headers { return hv("X-Request-Id", "own-"+id, "Connection", "X-Request-Id") }, func(id string) string { return "own-" + id }},
		}
		k := c.kitchen(bin, J{"roundTripTimeoutSeconds": 20, "maxBodyBytes": 1000}, J{"maxAttempts": 3, "readTimeoutSeconds": 1}, StartOpt{Level: "INFO"})
		p := newPKI()
		kt := c.kitchen(bin, p.down(J{"roundTripTimeoutSeconds": 20, "maxBodyBytes": 1000}), J{"maxAttempts": 3, "readTimeoutSeconds": 1}, StartOpt{Level: "INFO", TLS: true})
		rt := c.kitchen(bin, J{"roundTripTimeoutSeconds": 2}, J{"maxAttempts": 3, "readTimeoutSeconds": 5}, StartOpt{Level: "INFO"})
		h2 := kt.S.h2(p.client())
		var mu sync.Mutex
		gen := map[string]string{}
		type job struct {
			sc    respKind
			form  int
			proto string
			n     int
		}
		var jobs []job
		rounds := c.N(12, 100)
		for n := 0; n < rounds; n++ {
			for _, sc := range scens {
				for f := range idForms {
					for _, pr := range []string{"1.1", "h2", "1.0"} {
						if pr != "1.1" && (sc.h1 || idForms[f].name == "hop" || n%4 != f%4) || sc.slow && n > 0 && (f > 2 || n%4 != 0) {
							continue
						}
						jobs = append(jobs, job{sc, f, pr, n})
					}
				}
			}
		}
		tok := k.token()
		c.Par(len(jobs), 128, func(i int) {
			j := jobs[i]
			sc, form := j.sc, idForms[j.form]
			kk := k
			if j.proto == "h2" {
				kk = kt
			}
			code, attempts := sc.code, sc.attempts
			if sc.name == "round-trip-timeout" && j.proto == "1.1" && j.form%2 == 0 {
				kk, attempts = rt, 1
			}
			id := fmt.Sprintf("x%d.", i)
			target := strings.ReplaceAll(sc.target, "@", id)
			if len(sc.steps) > 0 {
				kk.Sc.Set(id, sc.steps...)
			}
			hs := append(hv("X-Case", id), form.mk(id)...)
			for _, h := range sc.hs {
				if h.V == "@token" {
					h.V = "Bearer " + tok
				}
				hs = append(hs, h)
			}
			var r *Resp
			var err error
			switch j.proto {
			case "h2":
				r, err = h2.ex(sc.method, target, hs, sc.body)
			case "1.0":
				t := reqText(sc.method, target, hs, sc.body)
				r, err = kk.S.exchange(sc.method, strings.Replace(t, " HTTP/1.1\r\n", " HTTP/1.0\r\n", 1))
			default:
				r, err = kk.S.ex(sc.method, target, hs, sc.body)
			}
			d := J{"kind": sc.name, "id": form.name, "proto": j.proto, "target": target}
			if err != nil || r.Err != nil {
				// whether there is an answer at all is decided elsewhere
				c.Inconclusive("%v: %v", d, err)
				return
			}
			d["code"], d["headers"] = r.Code, r.H.text()
			if r.Code != code {
				c.Count("other-status "+sc.name, 1)
				return
			}
			got := r.H.All("X-Request-Id")
			if len(got) != 1 || got[0] == "" {
				c.Violate("response-id-count/"+sc.name, d)
				return
			}
			want := form.want(id)
			switch want {
			case "":
				mu.Lock()
				o, dup := gen[got[0]]
				gen[got[0]] = target
				mu.Unlock()
				if dup {
					d["other"] = o
					c.Violate("generated-id-repeats", d)
				}
			case "?":
			default:
				if got[0] != want {
					d["want"] = want
					c.Violate("response-id-changed/"+sc.name, d)
				}
			}
			us := kk.Up.ForCase(id)
			for n, u := range us {
				if x := u.H.All("X-Request-Id"); len(x) != 1 || x[0] != got[0] {
					d["attempt"], d["upstream"] = n+1, x
					c.Violate("upstream-id-differs/"+sc.name, d)
				}
			}
			if len(us) != attempts {
				c.Count("other-attempts "+sc.name, 1)
			}
			c.Count("attempts", len(us))
			kk.Up.ForgetPrefix(id)
			if sc.name != "about" {
				ls := kk.S.logWait(strings.SplitN(target, "?", 2)[0], 1, 10*time.Second)
				if len(ls) == 0 {
					c.Inconclusive("no log record for %v", d)
				}
				for _, l := range ls {
					if l.S("X-Request-Id") != got[0] {
						d["logged"] = l.S("X-Request-Id")
						c.Violate("logged-id-differs/"+sc.name, d)
					}
				}
				c.Count("log-records", len(ls))
			}
			if i%977 == 0 {
				c.Sample(d)
			}
			c.Case(sc.name + " " + form.name + " " + j.proto)
		})
		// many requests that differ in nothing, in a row and at once
		same := func(how string, got []string) {
			for _, g := range got {
				if g == "" {
					continue
				}
				mu.Lock()
				o, dup := gen[g]
				gen[g] = "/r/same " + how
				mu.Unlock()
				if dup {
					c.Violate("generated-id-repeats", J{"target": "/r/same", "how": how, "other": o, "id": g})
				}
				c.Case("same " + how)
			}
		}
		for _, t := range []string{"/r/same", "/nowhere/same", "/about", "/jwt/same"} {
			cl, err := dial(k.S.Addr, nil)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				continue
			}
			var got []string
			for n := 0; n < c.N(150, 3000); n++ {
				cl.Send("GET " + t + " HTTP/1.1\r\nHost: x\r\n\r\n")
				r, err := cl.Read("GET", watchdog)
				if err != nil || r.Err != nil {
					break
				}
				got = append(got, r.H.Get("X-Request-Id"))
			}
			cl.Close()
			same("one connection "+t, got)
			n := c.N(150, 3000)
			par := make([]string, 2*n)
			c.Par(2*n, 64, func(i int) {
				var r *Resp
				var err error
				if i < n {
					r, err = k.S.ex("GET", t, nil, nil)
				} else {
					r, err = h2.ex("GET", t, nil, nil)
				}
				if err == nil && r.Err == nil {
					par[i] = r.H.Get("X-Request-Id")
				}
			})
			same("at once "+t, par)
		}
		// very many ids
		c.manyIds(c.kitchen(bin, nil, nil, StartOpt{Level: "WARN"}).S, gen)
		// the about records, by id
		time.Sleep(200 * time.Millisecond)
		seen := map[string]int{}
		n := 0
		for _, kk := range []*kitchen{k, kt, rt} {
			for _, l := range kk.S.served("/about") {
				seen[l.S("X-Request-Id")]++
				n++
			}
		}
		for id, tgt := range gen {
			if tgt == "many" {
				continue
			}
			if strings.HasPrefix(tgt, "/about") && seen[id] != 1 {
				c.Violate("logged-id-differs/about", J{"id": id, "target": tgt, "records": seen[id]})
			}
		}
		c.Count("about-records", n)
		c.Count("generated-ids", len(gen))
	})
}

// manyIds collects generated ids, pipelined, until even 32 random bits would have repeated themselves.
func (c *Ctx) manyIds(s *Server, gen map[string]string) {
	const lanes, batch = 8, 250
	batches := c.N(110, 1000)
	got := make([][]string, lanes)
	req := strings.Repeat("GET /about HTTP/1.1\r\nHost: x\r\n\r\n", batch)
	c.Par(lanes, lanes, func(l int) {
		cl, err := dial(s.Addr, nil)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		defer cl.Close()
		for b := 0; b < batches; b++ {
			go cl.Send(req)
			for n := 0; n < batch; n++ {
				r, err := cl.Read("GET", watchdog)
				if err != nil || r.Err != nil {
					c.Inconclusive("many ids: %v", err)
					return
				}
				got[l] = append(got[l], r.H.Get("X-Request-Id"))
			}
		}
	})
	for l := range got {
		for n, id := range got[l] {
			if o, dup := gen[id]; dup || id == "" {
				c.Violate("generated-id-repeats", J{"target": "/about", "id": id, "other": o, "connection": l, "n": n})
				return
			}
			gen[id] = "many"
		}
		c.Case(fmt.Sprintf("many ids, connection %d", l))
	}
}
