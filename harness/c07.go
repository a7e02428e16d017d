package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// C07: who is retried, how often, and which answer the client gets.

type outcome struct {
	name string
	fail bool
	slow bool // attempt ends by read timeout
	code int  // code the client sees if this is the last attempt
	st   func(marker string) Step
}

func c07outcomes() []outcome {
	o := []outcome{}
	for _, code := range []int{500, 501, 502, 503, 504, 599} {
		code := code
		o = append(o, outcome{fmt.Sprint(code), true, false, 502, func(m string) Step {
			return answerClose(code, append(hv("X-Attempt", m), noise(noiseRng(m), noiseResps, 3, nil)...), []byte(m))
		}})
	}
	for _, b := range badUpstreams() {
		switch b.name {
		case "close-at-once", "reset-at-once", "partial-status", "garbage", "short-body", "no-last-chunk", "bad-chunk-size", "two-lengths", "switching":
			b := b
			o = append(o, outcome{b.name, true, false, 502, func(string) Step { return b.st }})
		}
	}
	o = append(o,
		outcome{"stall-header", true, true, 504, func(string) Step { return func(r *UpReq, w *UpConn) { <-w.WatchPeer() } }},
		outcome{"stall-body", true, true, 504, func(string) Step {
			return func(r *UpReq, w *UpConn) {
				w.Send("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 50\r\n\r\nhalf")
				<-w.WatchPeer()
			}
		}})
	for _, code := range []int{200, 201, 204, 302, 304, 399, 400, 404, 429, 499} {
		code := code
		o = append(o, outcome{fmt.Sprint(code), false, false, code, func(m string) Step {
			return func(r *UpReq, w *UpConn) {
				b := []byte(m)
				if code == 204 || code == 304 {
					b = nil
				}
				answerClose(code, append(hv("X-Attempt", m), noise(noiseRng(m), noiseResps, 3, nil)...), b)(r, w)
			}
		}})
	}
	return o
}

func init() {
	register("C07", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "method x maxAttempts (1,2,3,5,12,21) x sequence of per-attempt outcomes (6 5xx codes, 9 broken responses, 2 kinds of timeout, 10 final codes): all pairs for maxAttempts 2, random sequences above; attempts counted at the upstream, the client connection probed for surplus responses; key = method x maxAttempts x outcome sequence"
		c.assume = []string{"where Go's HTTP client itself replays a request on a kept upstream connection that ended before any byte of the response, the replay may or may not count as an attempt"}
		bin := c.buildJ8a(false)
		rng := c.Rng("seq")
		outs := c07outcomes()
		var fast []outcome
		for _, o := range outs {
			if !o.slow {
				fast = append(fast, o)
			}
		}
		type cs struct {
			k   *kitchen
			id  string
			m   string
			max int
			seq []outcome
			bod []byte
		}
		var cases []cs
		kits := map[int]*kitchen{}
		for _, n := range []int{1, 2, 3, 5, 12, 21} {
			kits[n] = c.kitchen(bin, nil, J{"maxAttempts": n}, StartOpt{Level: "INFO"})
		}
		unset := c.kitchen(bin, nil, nil, StartOpt{Level: "INFO"}) // default is one attempt
		slowk := c.kitchen(bin, nil, J{"maxAttempts": 3, "readTimeoutSeconds": 1}, StartOpt{Level: "INFO"})
		rep := []string{"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE"}
		meth := append([]string{"POST", "POST"}, rep...)
		add := func(k *kitchen, m string, max int, seq []outcome) {
			var b []byte
			if m != "TRACE" && rng.Intn(2) == 0 {
				b = randBody(rng, 1+rng.Intn(3000))
			}
			cases = append(cases, cs{k, fmt.Sprintf("c%d.", len(cases)), m, max, seq, b})
		}
		// enough final success steps so that a surplus attempt is visible as such
		for _, a := range fast {
			for _, b := range fast {
				add(kits[2], pick(rng, meth), 2, []outcome{a, b})
			}
			for _, m := range meth {
				add(kits[1], m, 1, []outcome{a})
				add(unset, m, 1, []outcome{a})
			}
		}
		for i := 0; i < c.N(500, 6000); i++ {
			n := pick(rng, []int{3, 5})
			var s []outcome
			for len(s) < n {
				o := pick(rng, fast)
				if !o.fail && rng.Intn(3) > 0 {
					continue
				}
				s = append(s, o)
			}
			add(kits[n], pick(rng, meth), n, s)
		}
		// many attempts: nearly all of them fail
		for i := 0; i < c.N(60, 600); i++ {
			n := pick(rng, []int{12, 21})
			var s []outcome
			for len(s) < n {
				o := pick(rng, fast)
				if !o.fail && rng.Intn(20) > 0 {
					continue
				}
				s = append(s, o)
			}
			add(kits[n], pick(rng, append(rep, meth...)), n, s)
		}
		for i := 0; i < c.N(120, 1500); i++ {
			var s []outcome
			any := false
			for len(s) < 3 {
				o := pick(rng, outs)
				if rng.Intn(2) == 0 {
					o = outs[15+rng.Intn(2)]
				}
				any = any || o.slow
				s = append(s, o)
			}
			if any {
				add(slowk, pick(rng, meth), 3, s)
			}
		}
		c.c07reused(bin, fast)
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		repeatable := map[string]bool{}
		for _, m := range rep {
			repeatable[m] = true
		}
		want := make([]int, len(cases))
		done := make([]bool, len(cases))
		det := make([]J, len(cases))
		c.Par(len(cases), 40, func(i int) {
			t := cases[i]
			var steps []Step
			var names []string
			for j, o := range t.seq {
				steps = append(steps, o.st(fmt.Sprintf("%sattempt%d", t.id, j+1)))
				names = append(names, o.name)
			}
			steps = append(steps, answerClose(200, hv("X-Attempt", "surplus"), []byte("surplus")))
			t.k.Sc.Set(t.id, steps...)
			// for HEAD the body of a response is not there to be broken
			fails := func(o outcome) bool {
				if t.m == "HEAD" && (o.name == "short-body" || o.name == "no-last-chunk" || o.name == "bad-chunk-size" || o.name == "stall-body") {
					return false
				}
				return o.fail
			}
			n := 0
			for n < len(t.seq) {
				n++
				if !fails(t.seq[n-1]) || !repeatable[t.m] || n == t.max {
					break
				}
			}
			last := t.seq[n-1]
			want[i] = n
			d := J{"method": t.m, "maxAttempts": t.max, "outcomes": names, "expected-attempts": n}
			det[i] = d
			hs := append(hv("X-Case", t.id), c.noiseReq(t.id)...)
			d["headers"] = clipH(hs)
			var r *Resp
			var cl *Client
			var err error
			if i%4 == 3 {
				r, d["proto"], err = t.k.L.ex(i, t.m, "/r/"+t.id, hs, t.bod)
			} else {
				if cl, err = dial(t.k.S.Addr, nil); err != nil {
					c.Violate("dial", J{"err": err.Error()})
					return
				}
				defer cl.Close()
				go cl.Send(reqText(t.m, "/r/"+t.id, hs, t.bod))
				r, err = cl.Read(t.m, watchdog)
				if err == errWatchdog && t.k.S.controlOK(3) {
					err = errNoAnswer
				}
			}
			if !c.judge("retry", r, err, d) {
				return
			}
			d["code"] = r.Code
			if t.m == "HEAD" && last.fail && !fails(last) {
				if r.Code != 200 {
					c.Violate("final-code", d)
					return
				}
			} else if last.fail {
				w := ""
				if t.m == "HEAD" {
					w = headWrapper(r, last.code)
				} else {
					w = wrapper(r, last.code)
				}
				if w != "" {
					d["why"] = w
					c.Violate("final-error", d)
					return
				}
			} else {
				if r.Code != last.code {
					c.Violate("final-code", d)
					return
				}
				mark := fmt.Sprintf("%sattempt%d", t.id, n)
				if last.code < 400 {
					if r.H.Get("X-Attempt") != mark || (t.m != "HEAD" && last.code != 204 && last.code != 304 && !bytes.Equal(r.Body, []byte(mark))) {
						d["got"] = r.H.Get("X-Attempt") + " " + clip(r.Body)
						c.Violate("final-response-of-other-attempt", d)
						return
					}
				}
			}
			// surplus responses would answer this one
			if cl != nil && !strings.EqualFold(r.H.Get("Connection"), "close") {
				cl.Send("GET /vh-none HTTP/1.1\r\nHost: x\r\nX-Request-Id: probe-" + t.id + "\r\n\r\n")
				p, err := cl.Read("GET", watchdog)
				if err == nil && (p.Code != 404 || p.H.Get("X-Request-Id") != "probe-"+t.id) {
					d["probe"] = fmt.Sprint(p.Code)
					c.Violate("surplus-response", d)
					return
				}
			}
			done[i] = true
		})
		time.Sleep(1500 * time.Millisecond) // late attempts
		counts := map[string]map[string]int{}
		byKit := map[*kitchen]string{}
		for _, k := range []*kitchen{kits[1], kits[2], kits[3], kits[5], kits[12], kits[21], unset, slowk} {
			m := map[string]int{}
			for _, r := range k.Up.Reqs() {
				m[r.Case()]++
			}
			counts[k.S.Addr] = m
			byKit[k] = k.S.Addr
			c.checkHealth(k.S)
			k.L.check()
		}
		for i, t := range cases {
			if !done[i] {
				continue
			}
			n := counts[byKit[t.k]][t.id]
			c.Count("attempts", n)
			if n != want[i] {
				det[i]["attempts"] = n
				c.Violate("attempt-count", det[i])
				continue
			}
			var names []string
			for _, o := range t.seq[:want[i]] {
				names = append(names, o.name)
			}
			c.Case(fmt.Sprintf("%s max%d %s", t.m, t.max, strings.Join(names, ",")))
			if i < 5 {
				c.Sample(det[i])
			}
		}
	})
}
