package main

import (
	"bytes"
	"fmt"
	"time"
)

// Bodies of tens of megabytes, whole and broken off late: a limit nobody configured shows only here.

type bigEx func(m, target string, hs Headers, body []byte) (*Resp, error)

// bigContent is recognisable at every offset and compresses well.
func bigContent(id string, n int) []byte {
	b := make([]byte, 0, n+64)
	for i := 0; len(b) < n; i++ {
		b = append(b, fmt.Sprintf("%s line %d of many, ", id, i)...)
		b = append(b, "the quick brown fox jumps over the lazy dog 0123456789 the quick brown fox\n"...)
	}
	return b[:n]
}

// bigResponses sends large contents through the proxy, plain and gzipped, to clients that accept gzip and that do not.
func (c *Ctx) bigResponses(sc *scripted, up *Upstream, path string, h1, h2 bigEx, gz bool) {
	rng := c.Rng("big-responses")
	sizes := []int{1<<20 + 1, 8<<20 + 7, 10<<20 + 1, 16<<20 + 3, 33<<20 + 1}
	if c.Thorough() {
		sizes = append(sizes, 2<<20, 5<<20+1, 20<<20+11, 64<<20+5, 100<<20+1)
	}
	type cs struct {
		id, m, ae, fr, ce string
		n                 int
		h2                bool
	}
	var cases []cs
	for i, n := range sizes {
		for _, ae := range []string{"", "gzip"} {
			k := cs{id: fmt.Sprintf("big%d%s.", i, ae), m: pick(rng, []string{"GET", "POST", "PUT"}), ae: ae, fr: pick(rng, []string{"length", "chunked", "close"}), n: n}
			if (gz && ae == "") || (ae == "gzip" && i%2 == 0) {
				k.ce = "gzip"
			}
			k.h2 = h2 != nil && n < 12<<20 && rng.Intn(3) == 0
			cases = append(cases, k)
		}
	}
	c.Par(len(cases), 3, func(i int) {
		k := cases[i]
		body := bigContent(k.id, k.n)
		wire, hs := body, hv("X-Big", k.id, "Connection", "close")
		if k.ce != "" {
			wire = gzipBytes(body)
			hs = append(hs, HV{"Content-Encoding", k.ce})
		}
		var raw string
		switch k.fr {
		case "length":
			raw = httpResp(200, hs, wire)
		case "chunked":
			raw = httpResp(200, append(hs, HV{"Transfer-Encoding", "chunked"}), nil) + chunked(wire, []int{1 << 16, 1<<20 + 1})
		default:
			raw = "HTTP/1.1 200 OK\r\n"
			for _, x := range hs {
				raw += x.K + ": " + x.V + "\r\n"
			}
			raw += "\r\n" + string(wire)
		}
		sc.Set(k.id, func(r *UpReq, w *UpConn) {
			w.Send(raw)
			w.Done()
		})
		q := hv("X-Case", k.id)
		if k.ae != "" {
			q = append(q, HV{"Accept-Encoding", k.ae})
		}
		ex, proto := h1, "h1"
		if k.h2 {
			ex, proto = h2, "h2"
		}
		r, err := ex(k.m, path+k.id, q, nil)
		d := J{"proto": proto, "method": k.m, "size": k.n, "framing": k.fr, "coding": k.ce, "accept": k.ae}
		if !c.judge("big", r, err, d) {
			return
		}
		up.ForgetPrefix(k.id)
		d["code"], d["client-coding"], d["arrived"] = r.Code, r.H.All("Content-Encoding"), len(r.Body)
		got, err := r.decode()
		switch {
		case r.Code != 200 || r.H.Get("X-Big") != k.id:
			d["body"] = clip(r.Body)
			c.Violate("big-response-status", d)
			return
		case err != nil || !bytes.Equal(got, body):
			d["err"], d["decoded"] = fmt.Sprint(err), len(got)
			c.Violate("big-response-body", d)
			return
		case k.ae == "" && normCodings(r.H.All("Content-Encoding")) != "":
			c.Violate("big-response-coded-for-client-that-accepts-none", d)
			return
		}
		c.Count("big_bytes", k.n)
		c.Case(fmt.Sprintf("big %s %dMB %s coding=%s accept=%q", proto, k.n>>20, k.fr, k.ce, k.ae))
	})
}

// bigCuts breaks large responses off late.
func (c *Ctx) bigCuts(sc *scripted, up *Upstream, path string, h1 bigEx) {
	rng := c.Rng("big-cuts")
	type cs struct {
		id, m, fr string
		n, cut    int
		rst       bool
	}
	var cases []cs
	for i, n := range []int{1<<20 + 5, 2<<20 + 1, 5 << 20, 11 << 20, 24 << 20} {
		for rep := 0; rep < c.N(1, 3); rep++ {
			for _, fr := range []string{"length", "chunked", "gzip"} {
				k := cs{id: fmt.Sprintf("bc%d.%d%s.", i, rep, fr), m: pick(rng, []string{"GET", "PUT", "POST"}), fr: fr, n: n, rst: rng.Intn(3) == 0}
				switch rng.Intn(3) {
				case 0:
					k.cut = -4 - rng.Intn(40) // from the end
				case 1:
					k.cut = n - n/50
				default:
					k.cut = n/2 + rng.Intn(n/3)
				}
				cases = append(cases, k)
			}
		}
	}
	c.Par(len(cases), 3, func(i int) {
		k := cases[i]
		var wire []byte
		head := "HTTP/1.1 200 OK\r\nX-Broken: BROKENBYTES\r\nConnection: close\r\n"
		switch k.fr {
		case "length":
			wire = bigContent("BROKENBYTES", k.n)
			head += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(wire))
		case "chunked":
			wire = []byte(chunked(bigContent("BROKENBYTES", k.n), []int{1<<16 + 1, 1 << 20}))
			head += "Transfer-Encoding: chunked\r\n\r\n"
		default:
			wire = gzipBytes(append(bigContent("BROKENBYTES", k.n/2), randBytes(c.Rng(k.id), k.n/2)...))
			head += fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", len(wire))
		}
		cut := k.cut
		if cut < 0 || cut > len(wire)-4 {
			cut = len(wire) - 4 - i%30
		}
		sc.Set(k.id, func(r *UpReq, w *UpConn) {
			w.Send(head + string(wire[:cut]))
			if k.rst {
				time.Sleep(20 * time.Millisecond)
				w.Reset()
			} else {
				w.Done()
			}
		}, answerClose(200, hv("X-Good", k.id), []byte("good"+k.id)))
		r, err := h1(k.m, path+k.id, hv("X-Case", k.id), nil)
		d := J{"method": k.m, "framing": k.fr, "size": len(wire), "cut": cut, "reset": k.rst}
		if !c.judge("big-cut", r, err, d) {
			return
		}
		n := len(up.ForCase(k.id))
		up.ForgetPrefix(k.id)
		d["code"], d["attempts"], d["arrived"] = r.Code, n, len(r.Body)
		got, derr := r.decode()
		switch {
		case derr != nil || r.H.Has("X-Broken") || bytes.Contains(got, []byte("BROKENBYTES")):
			c.Violate("broken-response-delivered", d)
			return
		case k.m == "POST":
			if w := wrapper(r, 502); n != 1 || w != "" {
				d["why"] = w
				c.Violate("broken-response-not-502", d)
				return
			}
		case n != 2 || r.Code != 200 || string(got) != "good"+k.id:
			c.Violate("broken-response-not-retried", d)
			return
		}
		c.Case(fmt.Sprintf("big %s %s %dMB rst=%v", k.fr, k.m, k.n>>20, k.rst))
	})
}

// bigUploads sends bodies of tens of megabytes, the first attempt failing after the whole body has arrived.
func (c *Ctx) bigUploads(bin string) {
	rng := c.Rng("big-uploads")
	sc := newScripted(nil)
	up := c.newUpstream("big", sc.Handle)
	s := c.start(simpleCfg(J{"maxBodyBytes": 200 << 20}, J{"maxAttempts": 3}, up), StartOpt{Bin: bin, Level: "INFO"})
	type cs struct {
		id, m string
		n     int
		fails int
		chunk bool
	}
	var cases []cs
	for i, n := range []int{6<<20 + 1, 10<<20 + 1, 17 << 20, 35<<20 + 3} {
		for rep := 0; rep < c.N(1, 4); rep++ {
			for _, m := range []string{"POST", "PUT"} {
				k := cs{id: fmt.Sprintf("bu%d.%d%s.", i, rep, m), m: m, n: n, chunk: rng.Intn(2) == 0}
				if m == "PUT" {
					k.fails = rng.Intn(3)
				}
				cases = append(cases, k)
			}
		}
	}
	c.Par(len(cases), 3, func(i int) {
		k := cases[i]
		body := bigContent(k.id, k.n)
		var steps []Step
		for j := 0; j < k.fails; j++ {
			steps = append(steps, answerClose(503, nil, nil))
		}
		sc.Set(k.id, append(steps, answerClose(200, hv("X-Good", k.id), []byte("ok")))...)
		q := hv("X-Case", k.id)
		var r *Resp
		var err error
		if k.chunk {
			var cl *Client
			if cl, err = dial(s.Addr, nil); err == nil {
				cl.Send(reqText(k.m, "/r/x", append(q, HV{"Transfer-Encoding", "chunked"}), nil) + chunked(body, []int{1 << 18, 70001}))
				r, err = cl.Read(k.m, watchdog)
				cl.Close()
			}
		} else {
			r, err = s.ex(k.m, "/r/x", q, body)
		}
		d := J{"method": k.m, "size": k.n, "chunked": k.chunk, "failing-attempts": k.fails}
		if !c.judge("big-upload", r, err, d) {
			return
		}
		got := up.ForCase(k.id)
		up.ForgetPrefix(k.id)
		d["code"], d["attempts"] = r.Code, len(got)
		if r.Code != 200 || r.H.Get("X-Good") != k.id || len(got) != k.fails+1 {
			d["body"] = clip(r.Body)
			c.Violate("big-upload-status", d)
			return
		}
		for j, a := range got {
			if a.Method != k.m || !bytes.Equal(a.Body, body) {
				d["attempt"], d["arrived"] = j+1, len(a.Body)
				c.Violate("big-upload-body", d)
				return
			}
		}
		c.Count("big_upload_bytes", k.n*len(got))
		c.Case(fmt.Sprintf("big %s %dMB chunked=%v fails=%d", k.m, k.n>>20, k.chunk, k.fails))
	})
	c.checkHealth(s)
}
