package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"net"
	"strings"
	"time"
)

// C11: no request with a shortened or malformed body is forwarded.
func init() {
	register("C11", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "request bodies (declared, chunked, with and without Expect) broken off at every kind of position by half close, close, reset or stall beyond the read timeout, and 17 kinds of malformed chunking; the same requests complete and slow are the control group; key = framing x how x position class"
		c.assume = []string{"a chunked request of which no chunk at all arrives before the read timeout counts as bodiless (documented in the code)"}
		bin := c.buildJ8a(false)
		rng := c.Rng("cuts")
		k := c.kitchen(bin, J{"readTimeoutSeconds": 60}, J{"maxAttempts": 2}, StartOpt{Level: "INFO"})
		slow := c.kitchen(bin, J{"readTimeoutSeconds": 1}, J{"maxAttempts": 2}, StartOpt{Level: "INFO"})
		for _, x := range []*kitchen{k, slow} {
			x.Sc.df = answerClose(200, nil, []byte("ok"))
		}
		type cs struct {
			id, m, framed, how string
			body               []byte
			head, wire         string
			cut                int
			second             bool // a complete request goes first on the same connection
		}
		var cases []cs
		methods := []string{"POST", "POST", "PUT", "DELETE", "GET", "OPTIONS"}
		for i := 0; i < c.N(900, 9000); i++ {
			n := pick(rng, []int{1, 2, 5, 20, 100, 1000, 5000, 20000, 100000})
			if i%30 == 7 {
				n = pick(rng, []int{1 << 20, 1<<20 + 5, 1500000 + rng.Intn(500000)})
			}
			x := cs{id: fmt.Sprintf("c%d.", i), m: pick(rng, methods), body: randBody(rng, n), framed: pick(rng, []string{"length", "length", "chunked", "chunked", "one-chunk"}), how: pick(rng, []string{"half-close", "half-close", "close", "reset", "stall", "control"})}
			hs := append(hv("X-Case", x.id), c.noiseReq(x.id)...)
			switch x.framed {
			case "length":
				hs = append(hs, HV{"Content-Length", fmt.Sprint(n)})
				x.wire = string(x.body)
			case "chunked":
				hs = append(hs, HV{"Transfer-Encoding", "chunked"})
				x.wire = chunked(x.body, []int{1 + n/300 + rng.Intn(n/2+1), 1 + n/300 + rng.Intn(60)})
			default:
				hs = append(hs, HV{"Transfer-Encoding", "chunked"})
				x.wire = chunked(x.body, nil)
			}
			if rng.Intn(6) == 0 {
				hs = append(hs, HV{"Expect", "100-continue"})
			}
			x.head = reqText(x.m, "/r/x", hs, nil)
			x.cut = rng.Intn(len(x.wire))
			switch rng.Intn(5) {
			case 0:
				x.cut = len(x.wire) - 1
			case 1:
				x.cut = 0
			case 2:
				// right after a chunk or within the last chunk line
				x.cut = len(x.wire) - 1 - rng.Intn(min(8, len(x.wire)))
			}
			// cut within the final CRLF of the chunked coding: everything is there, either verdict is fine
			if x.framed != "length" && x.cut >= len(x.wire)-2 {
				x.cut = len(x.wire) - 3
			}
			if x.how == "stall" && x.framed != "length" && x.cut < strings.Index(x.wire, "\r\n")+3 {
				x.cut = strings.Index(x.wire, "\r\n") + 3 // at least one byte of the first chunk
				if x.cut >= len(x.wire)-2 {
					x.cut = len(x.wire) - 3
				}
			}
			x.second = rng.Intn(4) == 0
			cases = append(cases, x)
		}
		bad := map[string]string{
			"no-hex": "zz\r\nabc\r\n0\r\n\r\n", "negative": "-3\r\nabc\r\n0\r\n\r\n", "plus": "+3\r\nabc\r\n0\r\n\r\n", "0x": "0x3\r\nabc\r\n0\r\n\r\n", "overflow": "10000000000000003\r\nabc\r\n0\r\n\r\n",
			"short-chunk": "2\r\nabc\r\n0\r\n\r\n", "long-chunk": "4\r\nabc\r\n0\r\n\r\n", "missing-crlf": "3\r\nabc0\r\n\r\n", "empty-size": "\r\nabc\r\n0\r\n\r\n", "second-bad": "3\r\nabc\r\nq\r\nabc\r\n0\r\n\r\n", "second-short": "3\r\nabc\r\n2\r\nabc\r\n0\r\n\r\n",
			"space": "3 3\r\nabc\r\n0\r\n\r\n", "nul": "\x003\r\nabc\r\n0\r\n\r\n", "bad-after-large": fmt.Sprintf("%x\r\n%s\r\nxyz\r\n", 5000, strings.Repeat("a", 5000)), "bad-trailer": "3\r\nabc\r\n0\r\nno colon\r\n\r\n", "long-line": "3;" + strings.Repeat("x", 9000) + "\r\nabc\r\n0\r\n\r\n", "comma": "3,3\r\nabc\r\n0\r\n\r\n",
		}
		for rep := 0; rep < c.N(2, 8); rep++ {
			for name, w := range bad {
				m := pick(rng, methods)
				id := fmt.Sprintf("m%d%s.", rep, name)
				cases = append(cases, cs{id: id, m: m, framed: "chunked", how: "malformed-" + name, head: reqText(m, "/r/x", hv("X-Case", id, "Transfer-Encoding", "chunked"), nil), wire: w, cut: len(w)})
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		answers := make([]string, len(cases))
		c.Par(len(cases), 40, func(i int) {
			t := cases[i]
			kk := k
			if t.how == "stall" {
				kk = slow
			}
			cl, err := dial(kk.S.Addr, nil)
			if err != nil {
				c.Violate("dial", J{"err": err.Error()})
				return
			}
			defer cl.Close()
			tc := cl.cn.(*net.TCPConn)
			d := J{"method": t.m, "framing": t.framed, "how": t.how, "cut": t.cut, "wire": len(t.wire)}
			if t.how == "control" {
				if t.second {
					cl.Send(reqText("PUT", "/r/x", hv("X-Case", "before"), []byte("before")))
					if r, err := cl.Read("PUT", watchdog); err != nil || r.Code != 200 {
						c.Inconclusive("first request on the connection: %v", err)
						return
					}
				}
				cl.Send(t.head + t.wire[:t.cut])
				time.Sleep(20 * time.Millisecond)
				cl.Send(t.wire[t.cut:])
				r, err := cl.Read(t.m, watchdog)
				if !c.judge("control", r, err, d) {
					return
				}
				got := kk.Up.ForCase(t.id)
				if r.Code != 200 || len(got) != 1 || !bytes.Equal(got[0].Body, t.body) {
					d["code"], d["n"] = r.Code, len(got)
					c.Violate("complete-request-not-forwarded", d)
				}
				answers[i] = fmt.Sprint(r.Code)
				return
			}
			if t.second {
				cl.Send(reqText("POST", "/r/x", hv("X-Case", "before"), []byte("before")))
				if r, err := cl.Read("POST", watchdog); err != nil || r.Code != 200 {
					c.Inconclusive("first request on the connection: %v", err)
					return
				}
				d["second"] = true
			}
			cl.Send(t.head + t.wire[:t.cut])
			switch {
			case t.how == "half-close":
				tc.CloseWrite()
			case t.how == "close":
				cl.Close()
				answers[i] = "gone"
				return
			case t.how == "reset":
				time.Sleep(5 * time.Millisecond)
				tc.SetLinger(0)
				cl.Close()
				answers[i] = "gone"
				return
			}
			r, err := cl.Read(t.m, watchdog)
			switch {
			case err == errWatchdog:
				if kk.S.controlOK(2) {
					c.Violate("never-answered-nor-closed", d)
				} else {
					c.Inconclusive("no answer")
				}
			case err != nil:
				answers[i] = "closed"
			case r.Code < 400:
				d["code"] = r.Code
				c.Violate("broken-request-served", d)
			default:
				answers[i] = fmt.Sprint(r.Code)
				if r.Code == 400 && r.H.Has("Server") {
					if w := wrapper(r, 400); w != "" {
						d["why"] = w
						c.Violate("wrapper", d)
					}
				}
			}
		})
		h2done := c.c11h2(bin, k, slow)
		time.Sleep(2 * time.Second)
		h2done()
		n := map[string]int{}
		for _, x := range []*kitchen{k, slow} {
			for _, r := range x.Up.Reqs() {
				n[r.Case()]++
			}
			c.checkHealth(x.S)
		}
		for i, t := range cases {
			if answers[i] == "" {
				continue
			}
			if t.how != "control" && n[t.id] > 0 {
				var got *UpReq
				for _, x := range []*kitchen{k, slow} {
					for _, r := range x.Up.ForCase(t.id) {
						got = r
					}
				}
				c.Violate("truncated-request-forwarded", J{"method": t.m, "framing": t.framed, "how": t.how, "cut": t.cut, "wire": len(t.wire), "arrived": len(got.Body), "sent": len(t.body)})
				continue
			}
			pos := "middle"
			if t.cut == 0 {
				pos = "start"
			} else if t.cut > len(t.wire)-10 {
				pos = "end"
			}
			c.Case(fmt.Sprintf("%s %s %s %s size=%s -> %s", t.m, t.framed, t.how, pos, sizeClass(len(t.body)), answers[i]))
			if i < 6 {
				c.Sample(J{"method": t.m, "framing": t.framed, "how": t.how, "cut": t.cut, "wire": len(t.wire), "client-saw": answers[i]})
			}
		}
	})
}

// c11h2 breaks off bodies over HTTP/2. The returned function judges what has arrived by then.
func (c *Ctx) c11h2(bin string, k, slow *kitchen) func() {
	rng := c.Rng("h2cuts")
	o := StartOpt{Bin: bin, Level: "INFO"}
	tw, fr := c.tlsTwin(k.cfg, o, 6)
	tws, frs := c.tlsTwin(slow.cfg, o, 6)
	type cs struct {
		id, m, how string
		body       []byte
		length     bool
		cut, pad   int
		code       uint32
		saw        string
	}
	var cases []*cs
	for i := 0; i < c.N(400, 4000); i++ {
		n := pick(rng, []int{1, 2, 5, 20, 100, 1000, 5000, 20000, 100000})
		x := &cs{id: fmt.Sprintf("h%d.", i), m: pick(rng, []string{"POST", "POST", "PUT", "DELETE", "GET", "OPTIONS"}), body: randBody(rng, n), length: rng.Intn(2) == 0, pad: pick(rng, []int{0, 0, 7})}
		x.how = pick(rng, []string{"rst", "rst", "close", "reset", "stall", "control"})
		if x.length && rng.Intn(3) == 0 {
			x.how = pick(rng, []string{"ends-short", "goes-on"})
		}
		x.code = uint32(pick(rng, []int{8, 8, 0, 1, 2, 5, 7, 13}))
		x.cut = rng.Intn(n + 1)
		if rng.Intn(4) == 0 {
			x.cut = max(0, n-1)
		}
		if x.length && x.cut == n {
			x.cut = n - 1 // all declared bytes there: either verdict is fine
		}
		if x.cut == 0 && x.how == "stall" {
			x.cut = 1
			if x.length && n == 1 {
				x.how = "rst"
				x.cut = 0
			}
		}
		cases = append(cases, x)
	}
	c.Par(len(cases), 40, func(i int) {
		t := cases[i]
		f := fr
		if t.how == "stall" {
			f = frs
		}
		d := J{"proto": "h2", "method": t.m, "how": t.how, "cut": t.cut, "of": len(t.body), "declared": t.length, "code": t.code}
		hs := append(hv("X-Case", t.id), c.noiseReq(t.id, "Http2-Settings")...)
		if t.length {
			hs = append(hs, HV{"Content-Length", fmt.Sprint(len(t.body))})
		}
		var h *h2raw
		var err error
		if t.how == "close" || t.how == "reset" {
			h, err = h2dial(f.s.Addr, f.tc) // of its own
		} else {
			h, err = f.conn()
		}
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		s, err := h.open(t.m, "/r/x", hs, false)
		if err != nil {
			c.Inconclusive("open: %v", err)
			return
		}
		switch t.how {
		case "control":
			s.data(t.body[:t.cut], false, t.pad)
			time.Sleep(10 * time.Millisecond)
			s.data(t.body[t.cut:], true, t.pad)
			r, err := s.wait(watchdog)
			if !c.judge("control", r, err, d) {
				return
			}
			got := k.Up.ForCase(t.id)
			if r.Code != 200 || len(got) != 1 || !bytes.Equal(got[0].Body, t.body) {
				d["status"], d["n"] = r.Code, len(got)
				c.Violate("complete-request-not-forwarded", d)
				return
			}
			t.saw = fmt.Sprint(r.Code)
			return
		case "goes-on":
			s.data(append(append([]byte{}, t.body...), "more"...), true, t.pad)
		default:
			s.data(t.body[:t.cut], t.how == "ends-short", t.pad)
		}
		switch t.how {
		case "rst":
			if i%2 == 0 {
				time.Sleep(5 * time.Millisecond)
			}
			s.reset(t.code)
			t.saw = "gone"
			return
		case "close", "reset":
			if i%2 == 0 {
				time.Sleep(5 * time.Millisecond)
			}
			if tc, ok := h.cn.(*tls.Conn); ok && t.how == "reset" {
				tc.NetConn().(*net.TCPConn).SetLinger(0)
				tc.NetConn().Close()
			}
			h.cn.Close()
			t.saw = "gone"
			return
		}
		r, err := s.wait(watchdog)
		switch {
		case err == errWatchdog:
			if f.controlOK(2) {
				c.Violate("never-answered-nor-closed", d)
			} else {
				c.Inconclusive("no answer")
			}
		case err != nil:
			t.saw = "reset"
		case r.Code < 400:
			d["status"] = r.Code
			c.Violate("broken-request-served", d)
		default:
			t.saw = fmt.Sprint(r.Code)
		}
	})
	return func() {
		n := map[string][]int{}
		for _, x := range []*kitchen{k, slow} {
			for _, r := range x.Up.Reqs() {
				n[r.Case()] = append(n[r.Case()], len(r.Body))
			}
		}
		for _, t := range cases {
			if t.saw == "" {
				continue
			}
			if t.how != "control" && len(n[t.id]) > 0 {
				c.Violate("truncated-request-forwarded", J{"proto": "h2", "method": t.m, "how": t.how, "declared": t.length, "cut": t.cut, "arrived": n[t.id], "of": len(t.body)})
				continue
			}
			c.Count("http2_cuts", 1)
			c.Case(fmt.Sprintf("h2 %s %s declared=%v size=%s -> %s", t.m, t.how, t.length, sizeClass(len(t.body)), t.saw))
		}
		c.checkHealth(tw)
		c.checkHealth(tws)
	}
}
