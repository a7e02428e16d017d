package main

import (
	"bytes"
	"fmt"
	"sync"
	"time"
)

// C20: isolation of concurrent requests.

func init() {
	register("C20", func(c *Ctx) {
		c.rule = "concurrent clients (keep-alive, pipelined, HTTP/2 streams, aborting) send requests of 20 outcome kinds; every byte of requests and responses is derived from the request's own id, so both the upstream and the client recognise foreign data; generated request ids must be unique; key = route x mode x status observed"
		c.assume = []string{"statuses are not judged here (timeouts under load are legitimate), only whose data they carry"}
		bin := c.buildJ8a(false)
		var wg sync.WaitGroup
		run := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }() }
		a := c.mixer(bin, false, nil, nil, StartOpt{Level: "WARN"})
		b := c.mixer(bin, true, nil, nil, StartOpt{Level: "WARN"})
		for i := 0; i < 40; i++ {
			i := i
			run(func() { a.client(c.Rng(fmt.Sprintf("a%d", i)), c.N(250, 4000), 0, 17) })
			if i%2 == 0 {
				run(func() { a.client(c.Rng(fmt.Sprintf("as%d", i)), c.N(24, 300), 2, 7) })
				run(func() { b.client(c.Rng(fmt.Sprintf("b%d", i)), c.N(100, 1500), 23, 17) })
			}
		}
		for i := 0; i < 4; i++ {
			i := i
			run(func() { b.clientH2(c.Rng(fmt.Sprintf("h%d", i)), c.N(700, 10000), 40, 25, 31) })
		}
		run(func() { c.c20same(bin) })
		wg.Wait()
		time.Sleep(100 * time.Millisecond)
		c.checkHealth(a.S)
		c.checkHealth(b.S)
		a.summary()
		b.summary()
	})
}

// c20same sends requests at once that differ only in what their headers or body say.
func (c *Ctx) c20same(bin string) {
	var mu sync.Mutex
	seen := map[string]int{}
	up := c.newUpstream("same", func(r *UpReq, w *UpConn) {
		id := ""
		for _, h := range []string{"Authorization", "Cookie", "Accept-Language", "X-Id"} {
			if v := r.H.Get(h); id == "" {
				id = v
			}
		}
		mu.Lock()
		seen[id]++
		mu.Unlock()
		time.Sleep(time.Duration(len(id)%5) * 4 * time.Millisecond)
		w.Reply(r, 200, hv("X-Echo", id, "X-Len", fmt.Sprint(len(r.Body)), "Cache-Control", "public, max-age=60", "ETag", `"e"`), mixBytes("same", id+string(r.Body), 400))
	})
	up.keep = false
	s := c.start(J{"routes": A{J{"path": "/", "resource": "r"}}, "resources": J{"r": resourceOf(up)}}, StartOpt{Bin: bin, Level: "WARN"})
	bursts, width := c.N(48, 800), 24
	for b := 0; b < bursts; b++ {
		m := []string{"GET", "GET", "POST", "PUT", "OPTIONS", "DELETE"}[b%6]
		t := []string{"/same", fmt.Sprintf("/same/%d?q=1", b), "/"}[b%3]
		c.Par(width, width, func(i int) {
			id := fmt.Sprintf("Bearer b%d-%d", b, i)
			var body []byte
			if m == "POST" || m == "PUT" {
				body = mixBytes("up", id, 30+i)
			}
			hs := hv([]string{"Authorization", "Cookie", "Accept-Language", "X-Id"}[b%4], id)
			if i%3 == 0 {
				hs = append(hs, HV{"Accept-Encoding", "gzip"})
			}
			r, err := s.ex(m, t, hs, body)
			d := J{"method": m, "target": t, "authorization": id}
			if !c.judge("same-target", r, err, d) {
				return
			}
			if r.Code >= 500 {
				return
			}
			got, err := r.decode()
			if r.Code != 200 || r.H.Get("X-Echo") != id || err != nil || !bytes.Equal(got, mixBytes("same", id+string(body), 400)) {
				d["code"], d["headers"], d["body"] = r.Code, r.H.text(), clip(r.Body)
				c.Violate("foreign-answer-same-target", d)
			}
			c.Case("same target " + m)
		})
	}
	mu.Lock()
	c.Count("same-target-requests", len(seen))
	mu.Unlock()
	c.checkHealth(s)
}
