package main

import (
	"bytes"
	"fmt"
	"time"
)

// c07reused sends requests over upstream connections that have served a request before. Go's HTTP client replays a
// request by itself if a kept connection ends before a byte of the response: for GET, HEAD, OPTIONS, TRACE, and where
// the client marks its request idempotent. Such a replay may or may not be taken for an attempt, everything else counts.
func (c *Ctx) c07reused(bin string, outs []outcome) {
	const lanes = 24
	rng := c.Rng("reused")
	cut := map[string]bool{"close-at-once": true, "reset-at-once": true}
	replayed := map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true}
	repeatable := map[string]bool{"PUT": true, "DELETE": true}
	for m := range replayed {
		repeatable[m] = true
	}
	var cuts []outcome
	for _, o := range outs {
		if cut[o.name] {
			cuts = append(cuts, o)
		}
	}
	for _, max := range []int{1, 3} {
		routes, res := A{}, J{}
		var sc []*scripted
		var ups []*Upstream
		for l := 0; l < lanes; l++ {
			s := newScripted(func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nwarm") })
			u := c.newUpstream(fmt.Sprint("lane", l), s.Handle)
			sc, ups = append(sc, s), append(ups, u)
			routes = append(routes, J{"path": fmt.Sprintf("/l%d/", l), "resource": fmt.Sprint("l", l)})
			res[fmt.Sprint("l", l)] = resourceOf(u)
		}
		S := c.start(J{"connection": J{"upstream": J{"maxAttempts": max}}, "routes": routes, "resources": res}, StartOpt{Bin: bin, Level: "INFO"})
		type cs struct {
			m    string
			seq  []outcome
			body []byte
			mark bool // the client calls its request idempotent
		}
		per := c.N(8, 60)
		cases := make([][]cs, lanes)
		for l := range cases {
			for i := 0; i < per; i++ {
				t := cs{m: pick(rng, []string{"POST", "POST", "POST", "PUT", "DELETE", "GET", "HEAD", "OPTIONS", "TRACE"})}
				t.mark = rng.Intn(8) == 0
				for len(t.seq) < 2*max+2 {
					switch rng.Intn(4) {
					case 0:
						t.seq = append(t.seq, pick(rng, outs))
					default:
						t.seq = append(t.seq, pick(rng, cuts))
					}
				}
				if t.m != "TRACE" && rng.Intn(2) == 0 {
					t.body = randBody(rng, 1+rng.Intn(3000))
				}
				cases[l] = append(cases[l], t)
			}
		}
		c.Par(lanes, lanes, func(l int) {
			for i, t := range cases[l] {
				id := fmt.Sprintf("l%d.c%d.", l, i)
				if r, err := S.ex("GET", fmt.Sprintf("/l%d/warm", l), nil, nil); err != nil || r.Code != 200 {
					c.Violate("warm", J{"err": fmt.Sprint(err)})
					return
				}
				time.Sleep(10 * time.Millisecond)
				var steps []Step
				var names []string
				for j, o := range t.seq {
					steps = append(steps, o.st(fmt.Sprintf("%sattempt%d", id, j+1)))
					names = append(names, o.name)
				}
				sc[l].Set(id, append(steps, answerClose(200, hv("X-Attempt", "surplus"), []byte("surplus")))...)
				d := J{"kind": "reused upstream connection", "method": t.m, "maxAttempts": max, "outcomes": names, "body": len(t.body)}
				hs := append(hv("X-Case", id), c.noiseReq(id)...)
				if t.mark {
					hs = append(hs, HV{pick(noiseRng(id), []string{"Idempotency-Key", "X-Idempotency-Key"}), id})
				}
				d["headers"] = clipH(hs)
				r, err := S.ex(t.m, fmt.Sprintf("/l%d/%s", l, id), hs, t.body)
				if err == errWatchdog && S.controlOK(3) {
					err = errNoAnswer
				}
				if !c.judge("retry-reused", r, err, d) {
					return
				}
				time.Sleep(30 * time.Millisecond) // late attempts
				fails := func(o outcome) bool {
					if t.m == "HEAD" && (o.name == "short-body" || o.name == "no-last-chunk" || o.name == "bad-chunk-size") {
						return false
					}
					return o.fail
				}
				// min: each delivery is an attempt; max: replays of the HTTP client are not
				got, reused := 0, 0
				min, maxd := 0, 0
				var where []string
				for _, q := range ups[l].Reqs() {
					if q.Case() != id {
						continue
					}
					if q.N > 0 {
						reused++
					}
					got++
					where = append(where, fmt.Sprintf("%d.%d", q.Conn, q.N))
				}
				stop := func(o outcome, n int) bool { return !fails(o) || !repeatable[t.m] || n == max }
				for min = 1; !stop(t.seq[min-1], min); min++ {
				}
				maxd = min
				d["deliveries"], d["on-reused"], d["conn.n"] = got, reused, where
				if replayed[t.m] || hs.Get("Idempotency-Key") != "" || hs.Get("X-Idempotency-Key") != "" {
					n := 0
					for maxd = 1; maxd < len(t.seq); maxd++ {
						if maxd <= reused && cut[t.seq[maxd-1].name] {
							continue
						}
						if n++; stop(t.seq[maxd-1], n) {
							break
						}
					}
				}
				c.Count("reused_deliveries", reused)
				c.Count("attempts", got)
				if got < min || got > maxd {
					d["min"], d["max"] = min, maxd
					c.Violate("attempt-count-reused", d)
					return
				}
				last := t.seq[got-1]
				d["code"] = r.Code
				mark := fmt.Sprintf("%sattempt%d", id, got)
				if fails(last) {
					if r.Code != last.code {
						c.Violate("final-error-reused", d)
						return
					}
				} else if r.Code != last.code && !(t.m == "HEAD" && last.fail && r.Code == 200) {
					c.Violate("final-code-reused", d)
					return
				} else if last.code < 400 && !last.fail && (r.H.Get("X-Attempt") != mark || (t.m != "HEAD" && last.code != 204 && last.code != 304 && !bytes.Equal(r.Body, []byte(mark)))) {
					c.Violate("final-response-reused", d)
					return
				}
				if reused > 0 {
					c.Case(fmt.Sprintf("reused %s max%d %v", t.m, max, names[:got]))
				}
			}
		})
		c.checkHealth(S)
	}
}
