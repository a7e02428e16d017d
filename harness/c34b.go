package main

import (
	"crypto/tls"
	"fmt"
	"net"
	"time"
)

// c34stale: what upstream does to a pooled connection while nobody uses it costs no request, and what it says there
// is no answer to anything.
func (c *Ctx) c34stale(bin string, stc *tls.Config) {
	const lanes = 16
	rng := c.Rng("stale")
	type move struct {
		name string
		f    func(w *UpConn)
	}
	say := func(s string, fin bool) func(w *UpConn) {
		return func(w *UpConn) {
			w.Send(s)
			if fin {
				halfClose(w)
			}
		}
	}
	poison := "HTTP/1.1 200 OK\r\nContent-Length: 6\r\nX-Poison: 1\r\n\r\npoison"
	moves := []move{
		{"fin", halfClose},
		{"close", func(w *UpConn) { w.Conn.Close() }},
		{"reset", func(w *UpConn) { w.Reset() }},
		{"408-fin", say("HTTP/1.1 408 Request Timeout\r\nConnection: close\r\nContent-Length: 0\r\n\r\n", true)},
		{"unasked-answer", say(poison, false)},
		{"unasked-answer-fin", say(poison, true)},
		{"unasked-500", say("HTTP/1.1 500 Oops\r\nContent-Length: 0\r\n\r\n", false)},
		{"garbage", say("\x00\x01garbage\r\n\r\n", false)},
		{"part", say("HTTP/1.1 2", false)},
		{"blank", say("\r\n", true)},
	}
	type lane struct {
		u  *Upstream
		ev chan struct{}
		ok chan struct{}
		mv chan move
	}
	routes, res := A{}, J{}
	var ls []*lane
	scheme := "http"
	if stc != nil {
		scheme = "https"
	}
	for i := 0; i < lanes; i++ {
		l := &lane{ev: make(chan struct{}, 64), ok: make(chan struct{}, 64), mv: make(chan move, 64)}
		h := func(r *UpReq, w *UpConn) {
			if r.Case() != "warm" {
				w.Reply(r, 200, hv("X-Mine", r.Case()), []byte("mine "+r.Case()))
				return
			}
			// all of them wait for each other, so each has a connection of its own
			l.ev <- struct{}{}
			<-l.ok
			w.Reply(r, 200, nil, []byte("warm"))
			m := <-l.mv
			gone := w.WatchPeer()
			m.f(w)
			select {
			case <-gone:
			case <-time.After(3 * time.Second):
			}
			l.ev <- struct{}{}
			// stays open where the server left it open
			select {
			case <-gone:
			case <-time.After(10 * time.Second):
			}
		}
		l.u = c.newUpstreamAt("stale", "127.0.0.1:0", stc, h)
		ls = append(ls, l)
		routes = append(routes, J{"path": fmt.Sprintf("/l%d/", i), "resource": fmt.Sprint("l", i)})
		res[fmt.Sprint("l", i)] = A{J{"url": J{"scheme": scheme, "host": "127.0.0.1", "port": l.u.Port}}}
	}
	S := c.start(J{"connection": J{"upstream": J{"maxAttempts": 1, "tlsInsecureSkipVerify": true}}, "routes": routes, "resources": res}, StartOpt{Bin: bin, Level: "INFO"})
	type cs struct {
		m    move
		meth string
		n    int
		body []byte
	}
	var cases []cs
	for rep := 0; rep < c.N(1, 10); rep++ {
		for _, m := range moves {
			for _, meth := range []string{"POST", "PUT", "GET", "DELETE"} {
				t := cs{m: m, meth: meth, n: 1 + rng.Intn(3)}
				if meth != "GET" && rng.Intn(2) == 0 {
					t.body = randBody(rng, 1+rng.Intn(5000))
				}
				cases = append(cases, t)
			}
		}
	}
	wait := func(ch chan struct{}, n int) bool {
		for ; n > 0; n-- {
			select {
			case <-ch:
			case <-time.After(30 * time.Second):
				c.Inconclusive("upstream did not see its connections")
				return false
			}
		}
		return true
	}
	free := make(chan int, lanes)
	for i := range ls {
		free <- i
	}
	c.Par(len(cases), lanes, func(i int) {
		t := cases[i]
		ln := <-free
		defer func() { free <- ln }()
		l := ls[ln]
		d := J{"kind": "idle connection", "upstream-did": t.m.name, "method": t.meth, "tls": stc != nil, "connections": t.n}
		for try := 1; ; try++ {
			// n pooled connections: their requests are under way at once
			errs := make(chan error, t.n)
			for k := 0; k < t.n; k++ {
				go func() {
					_, err := S.ex("GET", fmt.Sprintf("/l%d/warm", ln), hv("X-Case", "warm"), nil)
					errs <- err
				}()
			}
			if !wait(l.ev, t.n) {
				return
			}
			for k := 0; k < t.n; k++ {
				l.ok <- struct{}{}
			}
			for k := 0; k < t.n; k++ {
				if err := <-errs; err != nil {
					c.Inconclusive("warm: %v", err)
					return
				}
			}
			for k := 0; k < t.n; k++ {
				l.mv <- t.m
			}
			if !wait(l.ev, t.n) {
				return
			}
			time.Sleep(20 * time.Millisecond)
			id := fmt.Sprintf("c%d.%d", i, try)
			r, err := S.ex(t.meth, fmt.Sprintf("/l%d/%s", ln, id), hv("X-Case", id), t.body)
			if err == errWatchdog && S.controlOK(3) {
				err = errNoAnswer
			}
			if !c.judge("stale", r, err, d) {
				return
			}
			d["code"], d["body"] = r.Code, clip(r.Body)
			if r.H.Has("X-Poison") || string(r.Body) == "poison" {
				c.Violate("unasked-answer-delivered", d)
				return
			}
			if r.Code == 200 && r.H.Get("X-Mine") == id && string(r.Body) == "mine "+id {
				break
			}
			// a request may cross the end of the connection once, not every time
			if try == 3 {
				c.Violate("idle-end-costs-request", d)
				return
			}
		}
		c.Case(fmt.Sprintf("stale %s %s tls=%v n=%d", t.m.name, t.meth, stc != nil, t.n))
		c.Count("stale_connections", t.n)
	})
	c.checkHealth(S)
}

func halfClose(w *UpConn) {
	switch x := w.Conn.(type) {
	case *tls.Conn:
		x.CloseWrite()
	}
	if t, ok := w.raw.(*net.TCPConn); ok {
		t.CloseWrite()
	}
}
