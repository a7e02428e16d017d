package main

import (
	"fmt"
	"time"
)

// C08: round trip timeout.

// stallKinds hold back a response at some point; every one ends by watching the peer go away.
func stallKinds() []badUp {
	hold := func(r *UpReq, w *UpConn) { <-w.WatchPeer() }
	at := func(s string) Step {
		return func(r *UpReq, w *UpConn) { w.Send(s); hold(r, w) }
	}
	trickle := func(head, unit string) Step {
		return func(r *UpReq, w *UpConn) {
			w.Send(head)
			g := w.WatchPeer()
			for {
				select {
				case <-g:
					return
				case <-time.After(60 * time.Millisecond):
					if w.Send(unit) != nil {
						<-g
						return
					}
				}
			}
		}
	}
	return []badUp{
		{"no-bytes", at("")},
		{"half-status", at("HTTP/1.1 2")},
		{"status-line", at("HTTP/1.1 200 OK\r\n")},
		{"half-header", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nContent-Le")},
		{"interim", at("HTTP/1.1 103 Early\r\nX-Marker: late\r\n\r\n")},
		{"header-only", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nContent-Length: 100\r\n\r\n")},
		{"half-body", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nContent-Length: 100\r\n\r\nlatelatelate")},
		{"all-but-one", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nContent-Length: 5\r\n\r\nlate")},
		{"chunk-header", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nTransfer-Encoding: chunked\r\n\r\n")},
		{"half-chunk", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nTransfer-Encoding: chunked\r\n\r\n40\r\nlatelate")},
		{"no-last-chunk", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\nTransfer-Encoding: chunked\r\n\r\n4\r\nlate\r\n")},
		{"close-delimited", at("HTTP/1.1 200 OK\r\nX-Marker: late\r\n\r\nlatelate")},
		{"error-body", at("HTTP/1.1 500 X\r\nX-Marker: late\r\nContent-Length: 100\r\n\r\nlate")},
		{"4xx-body", at("HTTP/1.1 404 X\r\nX-Marker: late\r\nContent-Length: 100\r\n\r\nlate")},
		{"trickled-header", trickle("HTTP/1.1 200 OK\r\n", "X-Marker: late\r\n")},
		{"trickled-body", trickle("HTTP/1.1 200 OK\r\nX-Marker: late\r\nTransfer-Encoding: chunked\r\n\r\n", "4\r\nlate\r\n")},
		{"trickled-interim", trickle("", "HTTP/1.1 102 Processing\r\n\r\n")},
	}
}

func headStalls(name string) bool {
	switch name {
	case "no-bytes", "half-status", "status-line", "half-header", "interim", "trickled-header", "trickled-interim":
		return true
	}
	return false
}

// closedEvents collects, per case, when each attempt's connection was seen closed by the upstream.
type tracked struct {
	conns chan *UpConn
}

func (t *tracked) wrap(st Step) Step {
	return func(r *UpReq, w *UpConn) {
		t.conns <- w
		st(r, w)
	}
}

// slowUpload sends a request whose body takes its time.
func slowUpload(s *Server, m, target string, hs Headers, d time.Duration) (*Resp, error) {
	cl, err := dial(s.Addr, nil)
	if err != nil {
		return nil, err
	}
	defer cl.Close()
	const n = 20
	cl.Send(reqText(m, target, append(append(Headers{}, hs...), HV{"Content-Length", fmt.Sprint(n)}), nil))
	end := time.Now().Add(d)
	for i := 0; i < n; i++ {
		time.Sleep(time.Until(end) / time.Duration(n-i))
		cl.Send("x")
	}
	r, err := cl.Read(m, watchdog)
	if err == errWatchdog && s.controlOK(3) {
		err = errNoAnswer
	}
	return r, err
}

func init() {
	register("C08", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "17 stall points of an upstream response x method x number of preceding failed attempts x ratio of round trip to read timeout; oracle over ordered events: 504 wrapper, never before the timeout measured from sending, no attempt arriving after it, in-flight upstream connections closed, also for clients slow to send their body; and slow but timely answers delivered; key = stall x method x preceding attempts x server"
		c.assume = []string{"an attempt arriving more than 1 s after the 504 was started after it", "a connection lost without response is retried twice before it counts (the server may be descheduled beyond its write deadline)"}
		bin := c.buildJ8a(false)
		rng := c.Rng("rt")
		c.vastTimeouts(bin, "down.roundTripTimeoutSeconds")
		c.overdue(c.kitchen(bin, J{"roundTripTimeoutSeconds": 2}, J{"readTimeoutSeconds": 40, "maxAttempts": 5}, StartOpt{Level: "INFO"}), "round trip", 2*time.Second, append(overdueShapes(),
			overdueShape{name: "after-slow-upload", kind: "length", load: 1500 * ms, at: []time.Duration{200 * ms, 1300 * ms}},
			overdueShape{name: "whole-after-slow-upload", kind: "length", load: 1300 * ms, at: []time.Duration{1500 * ms}},
			overdueShape{name: "after-failures", kind: "length", fail: []time.Duration{800 * ms, 900 * ms}, at: []time.Duration{300 * ms, 1100 * ms}},
			overdueShape{name: "whole-after-failure", kind: "length", fail: []time.Duration{1500 * ms}, at: []time.Duration{1300 * ms}}), 0)
		type srv struct {
			k    *kitchen
			rtt  time.Duration
			read int
			max  int
			name string
		}
		mk := func(name string, rtt, read, max int) srv {
			return srv{c.kitchen(bin, J{"roundTripTimeoutSeconds": rtt}, J{"readTimeoutSeconds": read, "maxAttempts": max}, StartOpt{Level: "INFO"}), time.Duration(rtt) * time.Second, read, max, name}
		}
		servers := []srv{mk("rt1", 1, 40, 3), mk("rt2", 2, 40, 50), mk("rt3read1", 3, 1, 50), mk("rt2single", 2, 40, 1)}
		type cs struct {
			s    srv
			m    string
			st   badUp
			pre  int           // failing attempts before the stall
			gap  time.Duration // time each of them takes
			fast time.Duration // >0: answer after this time, in time
			id   string
			keep bool // keep failing instead of stalling
			body []byte
			load time.Duration // the client takes this long to send its body
		}
		var cases []cs
		kinds := stallKinds()
		add := func(x cs) {
			x.id = fmt.Sprintf("c%d.", len(cases))
			if rng.Intn(3) == 0 {
				x.body = randBody(rng, 1+rng.Intn(5000))
			}
			cases = append(cases, x)
		}
		for rep := 0; rep < c.N(1, 10); rep++ {
			for _, k := range kinds {
				for _, s := range servers {
					if s.read == 1 {
						if rep%3 == 0 || k.name == "no-bytes" {
							add(cs{s: s, m: pick(rng, []string{"GET", "PUT", "DELETE", "OPTIONS"}), st: k})
						}
						continue
					}
					for _, m := range []string{"GET", pick(rng, []string{"POST", "PUT", "DELETE", "OPTIONS", "HEAD", "TRACE"})} {
						if m == "HEAD" && !headStalls(k.name) {
							continue
						}
						x := cs{s: s, m: m, st: k}
						if m != "POST" && s.max > 1 && rng.Intn(2) == 0 {
							x.pre = 1 + rng.Intn(min(s.max-1, 6))
							x.gap = time.Duration(rng.Intn(100)) * time.Millisecond
						}
						add(x)
					}
				}
			}
			for i := 0; i < 8; i++ {
				add(cs{s: servers[1+2*(i%2)], m: pick(rng, []string{"POST", "PUT"}), st: pick(rng, kinds), load: time.Duration(1400+rng.Intn(350)) * time.Millisecond})
			}
			for i := 0; i < 10; i++ {
				add(cs{s: servers[1], m: pick(rng, []string{"GET", "PUT"}), keep: true, gap: time.Duration(120+rng.Intn(300)) * time.Millisecond, st: badUp{name: "keeps-failing"}})
				s := pick(rng, servers)
				lim := s.rtt
				if s.read == 1 {
					lim = time.Second
				}
				add(cs{s: s, m: pick(rng, []string{"GET", "POST", "PUT", "HEAD"}), fast: lim * time.Duration(20+rng.Intn(45)) / 100, st: badUp{name: "in-time"}})
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		c.Par(len(cases), 48, func(i int) {
			t := cases[i]
			for try := 0; ; try++ {
				id := fmt.Sprintf("%st%d.", t.id, try)
				tr := &tracked{make(chan *UpConn, 1000)}
				var steps []Step
				fail := func(r *UpReq, w *UpConn) {
					time.Sleep(t.gap)
					answerClose(500, nil, []byte("fail"))(r, w)
				}
				switch {
				case t.keep:
					steps = []Step{fail}
				case t.fast > 0:
					steps = []Step{func(r *UpReq, w *UpConn) {
						time.Sleep(t.fast)
						answerClose(200, hv("X-Marker", "intime"), []byte("intime"))(r, w)
					}}
				default:
					for j := 0; j < t.pre; j++ {
						steps = append(steps, fail)
					}
					steps = append(steps, tr.wrap(t.st.st))
				}
				t.s.k.Sc.Set(id, steps...)
				d := J{"server": t.s.name, "method": t.m, "stall": t.st.name, "failed-before": t.pre, "gap": t.gap.String(), "in-time": t.fast.String(), "roundTripTimeout": t.s.rtt.String(), "try": try}
				sent := now()
				hs := append(hv("X-Case", id), c.noiseReq(id)...)
				var r *Resp
				var err error
				if t.load > 0 {
					d["upload"] = t.load.String()
					r, err = slowUpload(t.s.k.S, t.m, "/r/x", hs, t.load)
				} else {
					r, d["proto"], err = t.s.k.L.ex(i, t.m, "/r/x", hs, t.body)
				}
				if err != nil && err != errWatchdog && try < 2 {
					c.Count("retried", 1)
					continue
				}
				if !c.judge("stalled", r, err, d) {
					return
				}
				el := time.Duration(r.T - sent)
				d["code"], d["elapsed"] = r.Code, el.String()
				if t.fast > 0 {
					if r.Code == 200 {
						c.Case("in time " + t.s.name + " " + t.m)
					} else if el < t.s.rtt {
						c.Violate("answer-in-time-refused", d)
					} else {
						c.Inconclusive("in-time answer at %v", el)
					}
					return
				}
				w := ""
				if t.m == "HEAD" {
					w = headWrapper(r, 504)
				} else {
					w = wrapper(r, 504)
				}
				if w != "" {
					d["why"] = w
					c.Violate("not-504", d)
					return
				}
				if r.H.Has("X-Marker") {
					c.Violate("stalled-response-leaked", d)
					return
				}
				// reads that time out first only end the last attempt; here attempts never run out
				if el < t.s.rtt {
					c.Violate("504-too-early", d)
					return
				}
				// in flight attempts are cancelled, well before their own read timeout
				deadline := time.After(20 * time.Second)
				nconn := 0
			drain:
				for {
					select {
					case w := <-tr.conns:
						nconn++
						for k := 0; ; k++ {
							if w.gone != nil {
								break
							}
							if k > 2000 {
								break
							}
							time.Sleep(5 * time.Millisecond)
						}
						select {
						case <-w.WatchPeer():
						case <-deadline:
							if t.s.k.S.controlOK(2) {
								c.Violate("upstream-not-cancelled", d)
							} else {
								c.Inconclusive("close not seen")
							}
							return
						}
					default:
						break drain
					}
				}
				time.Sleep(1700 * time.Millisecond)
				all := t.s.k.Up.ForCase(id)
				if !t.keep && t.s.read > 20 && t.st.name != "trickled-interim" && len(all) > t.pre+1 {
					// the stalled attempt cannot fail by itself, what follows it was started because of the timeout
					d["attempts"] = len(all)
					c.Violate("attempt-after-timeout", d)
					return
				}
				for _, q := range all {
					c.Count("attempts", 1)
					if q.T > r.T+int64(time.Second) {
						d["late"] = time.Duration(q.T - r.T).String()
						c.Violate("attempt-after-504", d)
						return
					}
				}
				if nconn > 0 {
					c.Count("cancelled_upstream_conns", nconn)
				}
				if t.load > 0 {
					c.Case("slow upload " + t.m + " " + t.st.name)
					c.Count("slow_uploads", 1)
					return
				}
				c.Case(fmt.Sprintf("%s %s %s pre=%d", t.s.name, t.m, t.st.name, t.pre))
				if i < 5 {
					c.Sample(d)
				}
				t.s.k.Up.ForgetPrefix(id)
				return
			}
		})
		for _, s := range servers {
			c.checkHealth(s.k.S)
			s.k.L.check()
		}
	})
}
