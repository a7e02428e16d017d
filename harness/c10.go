package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// C10: 413 exactly above maxBodyBytes.
func init() {
	register("C10", func(c *Ctx) {
		c.rule = "limits (1, 10, 1000, 65536, 300000 and the default 2 MiB) x sizes around each x declared, chunked with random chunk sizes, Expect: 100-continue, HTTP/2 with and without content-length x method; key = limit x offset x framing x method"
		bin := c.buildJ8a(false)
		rng := c.Rng("sizes")
		type srv struct {
			k   *kitchen
			lim int
			f   *h2front
		}
		var servers []srv
		for _, l := range []int{1, 10, 1000, 65536, 300000, 2 << 20} {
			down := J{"maxBodyBytes": l}
			if l == 2<<20 {
				down = nil
			}
			k := c.kitchen(bin, down, nil, StartOpt{Level: "INFO"})
			tw, f := c.tlsTwin(k.cfg, StartOpt{Bin: bin, Level: "INFO"}, 3)
			defer c.checkHealth(tw)
			servers = append(servers, srv{k, l, f})
		}
		type cs struct {
			s      srv
			id     string
			m      string
			n      int
			framed string
			body   []byte
			sizes  []int
			seg    int
			path   string
		}
		var cases []cs
		for rep := 0; rep < c.N(1, 8); rep++ {
			for _, s := range servers {
				offs := []int{-1, 0, 1, 2, -s.lim, -s.lim / 2, s.lim / 2, 100, -100, 5000, 70000}
				if s.lim < 1<<20 {
					offs = append(offs, 300000, s.lim)
				}
				for _, o := range offs {
					n := s.lim + o
					if n < 0 {
						continue
					}
					for _, fr := range []string{"length", "chunked", "one-chunk", "expect", "expect-chunked", "h2-length", "h2-stream"} {
						if n == 0 && fr != "length" && fr != "chunked" && fr != "h2-stream" {
							continue
						}
						if s.lim > 1<<20 && o != -1 && o != 0 && o != 1 && fr != "length" && fr != "chunked" {
							continue
						}
						x := cs{s: s, id: fmt.Sprintf("c%d.", len(cases)), m: pick(rng, []string{"POST", "PUT", "POST", "DELETE", "GET", "OPTIONS"}), n: n, framed: fr, body: randBody(rng, n), path: pick(rng, []string{"/r/x", "/r/y?z=1"})}
						for j := 0; j < 3; j++ {
							x.sizes = append(x.sizes, 1+rng.Intn(n/3+2)+n/400)
						}
						if rng.Intn(3) == 0 {
							x.seg = 1 + rng.Intn(n+10)
						}
						cases = append(cases, x)
					}
				}
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		for _, s := range servers {
			s.k.Sc.df = func(r *UpReq, w *UpConn) { answerClose(200, nil, []byte(fmt.Sprint(len(r.Body))))(r, w) }
		}
		c.c10vast(bin)
		judge := func(t cs, r *Resp, d J, over bool) bool {
			got := t.s.k.Up.ForCase(t.id)
			d["code"], d["upstream-requests"] = r.Code, len(got)
			if over {
				if w := wrapper(r, 413); w != "" {
					d["why"] = w
					c.Violate("not-refused", d)
					return false
				}
				time.Sleep(20 * time.Millisecond)
				if len(t.s.k.Up.ForCase(t.id)) > 0 {
					c.Violate("refused-but-forwarded", d)
					return false
				}
			} else {
				if r.Code != 200 {
					c.Violate("refused-within-limit", d)
					return false
				}
				if len(got) != 1 || !bytes.Equal(got[0].Body, t.body) {
					c.Violate("forwarded-body", d)
					return false
				}
			}
			return true
		}
		c.Par(len(cases), 12, func(i int) {
			t := cases[i]
			over := t.n > t.s.lim
			hs := append(hv("X-Case", t.id), c.noiseReq(t.id)...)
			var wire string
			if t.body == nil {
				t.body = []byte{}
			}
			switch t.framed {
			case "length", "expect":
				hs = append(hs, HV{"Content-Length", fmt.Sprint(t.n)})
				wire = string(t.body)
			case "chunked", "expect-chunked":
				hs = append(hs, HV{"Transfer-Encoding", "chunked"})
				wire = chunked(t.body, t.sizes)
			case "one-chunk":
				hs = append(hs, HV{"Transfer-Encoding", "chunked"})
				wire = chunked(t.body, nil)
			}
			expect := strings.HasPrefix(t.framed, "expect")
			if expect {
				hs = append(hs, HV{"Expect", "100-continue"})
			}
			d := J{"limit": t.s.lim, "size": t.n, "framing": t.framed, "method": t.m}
			if strings.HasPrefix(t.framed, "h2") {
				var cuts []int
				if t.seg > 0 {
					cuts = []int{t.seg}
				}
				hs := append(hv("X-Case", t.id), c.noiseReq(t.id, "Http2-Settings")...)
				r, err := t.s.f.exBody(t.m, t.path, hs, t.body, t.framed == "h2-length", cuts, 0)
				if !c.judge("body", r, err, d) || !judge(t, r, d, over) {
					return
				}
			}
			// a refused client may find its connection reset before it can read the answer, so it is retried then
			for try := 0; !strings.HasPrefix(t.framed, "h2"); try++ {
				cl, err := dial(t.s.k.S.Addr, nil)
				if err != nil {
					c.Violate("dial", d)
					return
				}
				defer cl.Close()
				head := reqText(t.m, t.path, hs, nil)
				go func() {
					if expect {
						cl.Send(head)
						time.Sleep(30 * time.Millisecond) // not waiting for 100 is the client's right
						cl.Send(wire)
						return
					}
					if t.seg > 0 && t.seg < len(wire) {
						cl.Send(head + wire[:t.seg])
						time.Sleep(15 * time.Millisecond)
						cl.Send(wire[t.seg:])
						return
					}
					cl.Send(head + wire)
				}()
				r, err := cl.Read(t.m, watchdog)
				if err == errWatchdog && t.s.k.S.controlOK(2) {
					err = errNoAnswer
				}
				if err != nil && err != errWatchdog && err != errNoAnswer && over && try < 6 {
					c.Count("reset_before_answer", 1)
					continue
				}
				if !c.judge("body", r, err, d) {
					return
				}
				if !judge(t, r, d, over) {
					return
				}
				break
			}
			c.Case(fmt.Sprintf("limit=%d off=%d %s %s", t.s.lim, t.n-t.s.lim, t.framed, t.m))
			if i < 5 {
				c.Sample(d)
			}
			t.s.k.Up.ForgetPrefix(t.id)
		})
		for _, s := range servers {
			c.checkHealth(s.k.S)
		}
	})
}

// c10vast: limits beyond 31, 32 and 40 bits. Bodies of that size are declared only.
func (c *Ctx) c10vast(bin string) {
	limits := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1 << 40, 1<<62 + 1, 1<<63 - 1}
	c.Par(len(limits), 4, func(i int) {
		lim := limits[i]
		k := c.kitchen(bin, J{"maxBodyBytes": lim}, nil, StartOpt{Level: "INFO"})
		k.Sc.df = func(r *UpReq, w *UpConn) { answerClose(200, nil, []byte(fmt.Sprint(len(r.Body))))(r, w) }
		for j, n := range []int{0, 1, 7, 8, 100, 70000, 3 << 20} {
			body := randBody(c.Rng(fmt.Sprint("vast", i, j)), n)
			for _, fr := range []string{"length", "chunked"} {
				id := fmt.Sprintf("v%d.%d%s.", i, j, fr[:1])
				d := J{"limit": lim, "size": n, "framing": fr}
				hs := hv("X-Case", id)
				wire := string(body)
				if fr == "chunked" {
					hs = append(hs, HV{"Transfer-Encoding", "chunked"})
					wire = chunked(body, []int{1 + n/2, 1 + n})
				} else {
					hs = append(hs, HV{"Content-Length", fmt.Sprint(n)})
				}
				r, err := k.S.exchange("PUT", reqText("PUT", "/r/"+id, hs, nil)+wire)
				if !c.judge("vast", r, err, d) {
					continue
				}
				got := k.Up.ForCase(id)
				if r.Code != 200 || len(got) != 1 || !bytes.Equal(got[0].Body, body) {
					d["code"], d["upstream-requests"] = r.Code, len(got)
					c.Violate("refused-within-limit", d)
				}
				c.Case(fmt.Sprintf("vast %d %d %s", lim, n, fr))
			}
		}
		for j, over := range []int64{1, 2, 1 << 20, 1 << 31, 1 << 32, 1 << 33} {
			n := lim + over
			if n < 0 {
				continue
			}
			id := fmt.Sprintf("w%d.%d.", i, j)
			d := J{"limit": lim, "declared": n}
			cl, err := dial(k.S.Addr, nil)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				continue
			}
			cl.Send(reqText("PUT", "/r/"+id, hv("X-Case", id, "Content-Length", fmt.Sprint(n)), nil))
			r, err := cl.Read("PUT", watchdog)
			cl.Close()
			if !c.judge("vast", r, err, d) {
				continue
			}
			if w := wrapper(r, 413); w != "" || len(k.Up.ForCase(id)) > 0 {
				d["code"], d["why"] = r.Code, w
				c.Violate("not-refused", d)
			}
			c.Case(fmt.Sprintf("vast %d over %d", lim, over))
		}
		c.checkHealth(k.S)
	})
}
