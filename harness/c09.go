package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"
)

// C09: per attempt read timeout.

func init() {
	register("C09", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "sequences of up to 3 attempts drawn from 17 stall points, slow-but-timely answers, answers around and after the timeout, failures and successes; oracle over ordered events: k-th stalled attempt is closed not before k timeouts after sending, attempts counted against the model, final code, markers of late answers never delivered anywhere; key = sequence of kinds"
		c.assume = []string{"real time is only used as a lower bound; a timely answer that misses its time under load is inconclusive"}
		bin := c.buildJ8a(false)
		rng := c.Rng("rd")
		c.vastTimeouts(bin, "up.readTimeoutSeconds")
		c.overdue(c.kitchen(bin, J{"roundTripTimeoutSeconds": 100}, J{"readTimeoutSeconds": 2, "maxAttempts": 2}, StartOpt{Level: "INFO"}), "upstream read", 2*time.Second, overdueShapes(), 2)
		type srv struct {
			k   *kitchen
			rd  time.Duration
			max int
		}
		mk := func(rd, max int) srv {
			return srv{c.kitchen(bin, J{"roundTripTimeoutSeconds": 100}, J{"readTimeoutSeconds": rd, "maxAttempts": max}, StartOpt{Level: "INFO"}), time.Duration(rd) * time.Second, max}
		}
		servers := []srv{mk(1, 3), mk(1, 1), mk(2, 2)}
		kinds := stallKinds()
		type at struct {
			kind string
			name string
			st   badUp
		}
		type cs struct {
			s   srv
			id  string
			m   string
			seq []at
		}
		var cases []cs
		for i := 0; i < c.N(160, 1600); i++ {
			s := servers[i%3]
			x := cs{s: s, id: fmt.Sprintf("c%d.", i), m: pick(rng, []string{"GET", "GET", "PUT", "DELETE", "OPTIONS", "POST", "HEAD"})}
			for len(x.seq) < s.max {
				switch v := rng.Intn(10); {
				case v < 5 || len(x.seq) == 0 && v < 8:
					k := kinds[(i+rng.Intn(3)*5)%len(kinds)]
					if x.m == "HEAD" && !headStalls(k.name) {
						k = kinds[i%5]
					}
					x.seq = append(x.seq, at{"stall", k.name, k})
				case v < 7:
					x.seq = append(x.seq, at{kind: "slow", name: "slow-in-time"})
				case v < 8:
					x.seq = append(x.seq, at{kind: "edge", name: "around-timeout"})
				case v < 9:
					x.seq = append(x.seq, at{kind: "fail", name: "500"})
				default:
					x.seq = append(x.seq, at{kind: "late", name: "answers-after-close"})
				}
			}
			cases = append(cases, x)
		}
		var mu sync.Mutex
		c.Par(len(cases), 64, func(i int) {
			t := cases[i]
			type evt struct {
				w  *UpConn
				at at
			}
			var evs []evt
			var steps []Step
			var names []string
			for j, a := range t.seq {
				a, j := a, j
				mark := fmt.Sprintf("%sattempt%d", t.id, j+1)
				names = append(names, a.name)
				full := httpResp(200, hv("X-Marker", mark, "Connection", "close"), []byte(mark))
				if t.m == "HEAD" {
					full = full[:strings.Index(full, "\r\n\r\n")+4]
				}
				note := func(w *UpConn) {
					mu.Lock()
					evs = append(evs, evt{w, a})
					mu.Unlock()
				}
				switch a.kind {
				case "stall":
					steps = append(steps, func(r *UpReq, w *UpConn) { note(w); a.st.st(r, w) })
				case "slow":
					steps = append(steps, func(r *UpReq, w *UpConn) {
						note(w)
						h := len(full) / 2
						time.Sleep(t.s.rd * 3 / 10)
						w.Send(full[:h])
						time.Sleep(t.s.rd * 3 / 10)
						w.Send(full[h:])
						w.Done()
					})
				case "edge":
					steps = append(steps, func(r *UpReq, w *UpConn) {
						note(w)
						w.Send(full[:20])
						time.Sleep(t.s.rd + time.Duration(i%9-4)*time.Millisecond*3/2)
						w.Send(full[20:])
						w.Done()
					})
				case "fail":
					steps = append(steps, func(r *UpReq, w *UpConn) { note(w); answerClose(500, nil, []byte(mark))(r, w) })
				case "late":
					steps = append(steps, func(r *UpReq, w *UpConn) {
						note(w)
						<-w.WatchPeer()
						w.Send(full)
					})
				}
			}
			steps = append(steps, answerClose(200, hv("X-Marker", "surplus"), []byte("surplus")))
			t.s.k.Sc.Set(t.id, steps...)
			d := J{"method": t.m, "readTimeout": t.s.rd.String(), "maxAttempts": t.s.max, "sequence": names}
			sent := now()
			r, proto, err := t.s.k.L.ex(i, t.m, "/r/x", append(hv("X-Case", t.id), c.noiseReq(t.id)...), nil)
			d["proto"] = proto
			if !c.judge("attempts", r, err, d) {
				return
			}
			reqs := t.s.k.Up.ForCase(t.id)
			n := len(reqs)
			mu.Lock()
			es := append([]evt(nil), evs...)
			mu.Unlock()
			d["code"], d["attempts"], d["elapsed"] = r.Code, n, time.Duration(r.T-sent).String()
			max := t.s.max
			if t.m == "POST" {
				max = 1
			}
			if n > max {
				c.Violate("too-many-attempts", d)
				return
			}
			if n == 0 {
				c.Violate("no-attempt", d)
				return
			}
			// every attempt but the last must have failed; stalls must have had their full time
			stalled := 0
			var closes []time.Duration
			for j, e := range es {
				if j >= n {
					break
				}
				must := e.at.kind == "stall" || e.at.kind == "late"
				if must {
					select {
					case <-e.w.WatchPeer():
					case <-time.After(20 * time.Second):
						if t.s.k.S.controlOK(2) {
							c.Violate("stalled-attempt-not-closed", d)
						} else {
							c.Inconclusive("close not seen")
						}
						return
					}
					stalled++
					cl := time.Duration(e.w.GoneAt.Load() - sent)
					closes = append(closes, cl)
					if cl < time.Duration(stalled)*t.s.rd {
						d["closes"] = fmt.Sprint(closes)
						c.Violate("attempt-cut-short", d)
						return
					}
				}
				if e.at.kind == "slow" && (j < n-1 || r.Code != 200) {
					// timed out although in time: only believable under load
					cl := time.Duration(r.T - sent)
					if j < n-1 {
						cl = time.Duration(reqs[j+1].T - sent)
					}
					if cl < time.Duration(stalled+1)*t.s.rd {
						c.Violate("timely-answer-dropped", d)
						return
					}
					c.Inconclusive("slow answer missed")
					return
				}
			}
			last := t.seq[n-1]
			mark := fmt.Sprintf("%sattempt%d", t.id, n)
			mine := func() bool {
				return r.Code == 200 && r.H.Get("X-Marker") == mark && (t.m == "HEAD" || bytes.Equal(r.Body, []byte(mark)))
			}
			errOf := func(code int) string {
				if t.m == "HEAD" {
					return headWrapper(r, code)
				}
				return wrapper(r, code)
			}
			why := ""
			switch last.kind {
			case "slow":
				if !mine() {
					why = "timely answer not delivered"
				}
			case "edge":
				if !mine() {
					if n < max {
						why = "gave up"
					} else if errOf(504) != "" && errOf(502) != "" {
						why = errOf(504)
					}
				}
			case "fail":
				if n < max {
					why = "not retried"
				} else {
					why = errOf(502)
				}
			default:
				if n < max {
					why = "not retried"
				} else {
					why = errOf(504)
				}
			}
			if why == "" && r.H.Has("X-Marker") && !mine() {
				why = "marker of another attempt " + r.H.Get("X-Marker")
			}
			if why != "" {
				d["why"], d["body"] = why, clip(r.Body)
				c.Violate("outcome", d)
				return
			}
			c.Count("attempts", n)
			c.Count("timed_out_attempts", stalled)
			c.Case(fmt.Sprintf("%s max%d %s -> %d", t.m, t.s.max, strings.Join(names[:n], ","), r.Code))
			if i < 5 {
				c.Sample(d)
			}
		})
		time.Sleep(time.Second)
		for _, s := range servers {
			// nothing of an aborted attempt turns up later
			for j := 0; j < 20; j++ {
				id := fmt.Sprintf("after%d.", j)
				s.k.Sc.Set(id, answerClose(200, hv("X-Marker", id), []byte(id)))
				r, err := s.k.S.ex("GET", "/r/x", hv("X-Case", id), nil)
				if err == nil && (r.H.Get("X-Marker") != id || string(r.Body) != id) {
					c.Violate("late-answer-for-other-request", J{"got": r.H.Get("X-Marker"), "code": r.Code})
				}
			}
			c.checkHealth(s.k.S)
			s.k.L.check()
		}
	})
}
