package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C28: what load leaves behind.

type leakUp struct {
	name string
	step Step
}

// leakUps are the ways an upstream treats a request.
func leakUps() []leakUp {
	stall := stallHandler(25 * time.Second)
	return []leakUp{
		{"ok", func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte("fine")) }},
		{"big", func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, make([]byte, 300<<10)) }},
		{"204", func(r *UpReq, w *UpConn) { w.Reply(r, 204, nil, nil) }},
		{"304", func(r *UpReq, w *UpConn) { w.Reply(r, 304, nil, nil) }},
		{"redirect", func(r *UpReq, w *UpConn) {
			w.Reply(r, 302, hv("Location", "/ok"), []byte(strings.Repeat("elsewhere", 900)))
		}},
		{"404", func(r *UpReq, w *UpConn) { w.Reply(r, 404, nil, []byte(strings.Repeat("none", 5000))) }},
		{"500", func(r *UpReq, w *UpConn) { w.Reply(r, 500, nil, []byte(strings.Repeat("none", 5000))) }},
		{"503-close", answerClose(503, nil, []byte("busy"))},
		{"chunked", func(r *UpReq, w *UpConn) {
			b := chunked(make([]byte, 70000), []int{900})
			if r.Method == "HEAD" {
				b = ""
			}
			w.Send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + b)
		}},
		{"until-close", func(r *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n")
			if r.Method != "HEAD" {
				w.Send(strings.Repeat("x", 9000))
			}
			w.Done()
		}},
		{"drop", func(r *UpReq, w *UpConn) { w.Reset() }},
		{"hang-up", func(r *UpReq, w *UpConn) { w.Done() }},
		{"cut-header", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 200 OK\r\nContent-Le"); w.Done() }},
		{"cut-body", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\nabc"); w.Done() }},
		{"cut-chunk", func(r *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n10\r\nabc")
			w.Reset()
		}},
		{"garbage", func(r *UpReq, w *UpConn) { w.Send("SMTP ready\r\n\r\n"); stall(r, w) }},
		{"stall", stall},
		{"stall-header", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 200 OK\r\nX-A: "); stall(r, w) }},
		{"stall-body", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\nabc"); stall(r, w) }},
		{"stall-error-body", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 503 X\r\nContent-Length: 5000\r\n\r\nabc"); stall(r, w) }},
		{"stall-404-body", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 404 X\r\nContent-Length: 5000\r\n\r\nabc"); stall(r, w) }},
		{"stall-until-close", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 200 OK\r\n\r\nabc"); stall(r, w) }},
		{"continue-forever", func(r *UpReq, w *UpConn) { w.Send("HTTP/1.1 102 Processing\r\n\r\n"); stall(r, w) }},
		{"switch", func(r *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: Upgrade\r\n\r\nhello")
			stall(r, w)
		}},
		{"drip", func(r *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n")
			gone := w.WatchPeer()
			for i := 0; i < 250; i++ {
				select {
				case <-gone:
					return
				case <-time.After(100 * time.Millisecond):
					if w.Send("x") != nil {
						return
					}
				}
			}
		}},
		{"late", func(r *UpReq, w *UpConn) { time.Sleep(1500 * time.Millisecond); w.Reply(r, 200, nil, []byte("late")) }},
	}
}

var goroutineHead = regexp.MustCompile(`^goroutine \d+ .*\[`)

// goroutines ends the server and returns its goroutines counted by the function that created them.
func (s *Server) goroutines() (n int, by map[string]int) {
	s.stop.Store(true)
	s.cmd.Process.Signal(syscall.SIGQUIT)
	if !s.WaitExit(20 * time.Second) {
		s.cmd.Process.Kill()
		s.WaitExit(20 * time.Second)
		return -1, nil
	}
	by = map[string]int{}
	seen := false
	for _, l := range s.Raw() {
		seen = seen || goroutineHead.MatchString(l)
		if strings.HasPrefix(l, "created by ") {
			f := strings.TrimPrefix(l, "created by ")
			if i := strings.Index(f, " in goroutine"); i > 0 {
				f = f[:i]
			}
			// the runtime starts its own as it needs them
			if !strings.HasPrefix(f, "runtime.") {
				by[f]++
				n++
			}
		}
	}
	if !seen {
		return -1, nil
	}
	return
}

func byText(by map[string]int) string {
	var ks []string
	for k := range by {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return by[ks[i]] > by[ks[j]] })
	var b strings.Builder
	for i, k := range ks {
		if i < 8 {
			fmt.Fprintf(&b, "%s:%d ", k, by[k])
		}
	}
	return b.String()
}

// sockets tells how many of the server's descriptors are sockets.
func (s *Server) sockets() int {
	dir := fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)
	d, err := os.ReadDir(dir)
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		if l, _ := os.Readlink(dir + "/" + e.Name()); strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func init() {
	register("C28", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "cross product of 26 upstream behaviours and 9 client behaviours (normal, kept open, aborted by FIN and RST before, during and after the answer, not reading, retried methods), requests refused in five ways, clients that stop in header, body, handshake or HTTP/2 stream and stay, silent and refusing upstreams, shuffled and overlapping on plain and TLS servers; afterwards the server's sockets, connections seen by upstreams and goroutines compared with those of an unloaded twin; idle upstream connections after bursts over one and two upstreams for pool sizes 1-10; connections used by sequential exchanges after each kind of outcome; memory after further hundreds of megabytes; key = upstream behaviour, client behaviour, protocol"
		c.assume = []string{"a release that has not happened 45 s after load, with all timeouts together below 12 s, does not happen", "up to 3 sockets and 8 goroutines more than an unloaded server are not a leak of a load with at least 15 of each kind"}
		bin := c.buildJ8a(false)
		var wg sync.WaitGroup
		for _, mode := range []string{"plain", "tls"} {
			mode := mode
			wg.Add(1)
			go func() { defer wg.Done(); c28leaks(c, bin, mode, c.Rng("leaks "+mode)) }()
		}
		wg.Add(3)
		go func() { defer wg.Done(); c28pool(c, bin) }()
		go func() { defer wg.Done(); c28reuse(c, bin, c.Rng("reuse")) }()
		go func() { defer wg.Done(); c28memory(c, bin) }()
		wg.Wait()
	})
}

func c28leaks(c *Ctx, bin, mode string, rng *rand.Rand) {
	ups := leakUps()
	var p *pki
	var tc *tls.Config
	down := J{"readTimeoutSeconds": 2, "idleTimeoutSeconds": 2, "roundTripTimeoutSeconds": 3, "maxBodyBytes": 400000}
	if mode == "tls" {
		p = newPKI()
		tc = p.client()
		down = p.down(down)
	}
	var mu sync.Mutex
	served := map[string]int{}
	handle := func(r *UpReq, w *UpConn) {
		name := strings.Split(strings.Trim(r.Target, "/"), "/")
		for _, u := range ups {
			if len(name) > 1 && u.name == name[1] {
				mu.Lock()
				served[u.name]++
				mu.Unlock()
				u.step(r, w)
				return
			}
		}
		w.Reply(r, 200, nil, nil)
	}
	u1, u2 := c.newUpstream("u1", handle), c.newUpstream("u2", handle)
	u1.keep, u2.keep = false, false
	silent := c.silentUpstream("silent", nil)
	dead := freePort()
	one := func(port int) A {
		return A{J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": port}}}
	}
	cfg := J{"connection": J{"downstream": down, "upstream": J{"socketTimeoutSeconds": 1, "readTimeoutSeconds": 1, "idleTimeoutSeconds": 2, "poolSize": 5, "maxAttempts": 2}},
		"jwt": J{"hs": J{"alg": "HS256", "key": kitchenSecret}},
		"routes": A{J{"path": "/a/", "resource": "a"}, J{"path": "/b/", "resource": "b"}, J{"path": "/silent", "resource": "silent"}, J{"path": "/dead", "resource": "dead"},
			J{"path": "/hs", "resource": "tls"}, J{"path": "/jwt", "resource": "a", "jwt": "hs"}, J{"path": "/about", "resource": "about"}},
		"resources": J{"a": resourceOf(u1), "b": resourceOf(u2), "silent": resourceOf(silent), "dead": one(dead), "tls": A{J{"url": J{"scheme": "https", "host": "127.0.0.1", "port": silent.Port}}}}}
	opt := StartOpt{Bin: bin, TLS: tc != nil, Level: "INFO", Env: []string{"GOTRACEBACK=all"}}
	s, twin := c.start(cfg, opt), c.start(cfg, opt)

	rest := func(s *Server, want, wantUp int, d time.Duration) (int, int64) {
		end := time.Now().Add(d)
		for {
			n, l := s.sockets(), u1.live.Load()+u2.live.Load()+silent.live.Load()
			if n <= want && l <= int64(wantUp) || time.Now().After(end) {
				return n, l
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	warm := func(s *Server) {
		for i := 0; i < 3; i++ {
			cl, err := dial(s.Addr, tc)
			if err != nil {
				continue
			}
			cl.Send(reqText("GET", "/a/ok", hv("Connection", "close"), nil))
			cl.Read("GET", watchdog)
			cl.Close()
		}
		if tc != nil {
			h := s.h2(tc)
			h.ex("GET", "/a/ok", nil, nil)
			h.hc.CloseIdleConnections()
		}
	}
	warm(s)
	warm(twin)
	time.Sleep(3 * time.Second)
	base, _ := rest(s, 1, 0, 15*time.Second)
	tbase := twin.sockets()
	if base < 0 || tbase < 0 {
		c.Inconclusive("cannot count descriptors")
		return
	}

	type cs struct{ up, client string }
	var cases []cs
	clients := []string{"normal", "stay", "post", "head", "fin-early", "rst-early", "rst-late", "unread", "chunked-post"}
	for r := 0; r < c.N(2, 10); r++ {
		for _, u := range ups {
			for _, k := range clients {
				cases = append(cases, cs{u.name, k})
			}
		}
	}
	// the way clients and other parts fail
	for r := 0; r < c.N(15, 60); r++ {
		for _, k := range []string{"header-stay", "header-rst", "body-stay", "body-rst", "connect-stay", "garbage", "pipeline-rst", "pipeline-stay", "slow-reader"} {
			cases = append(cases, cs{"ok", k})
		}
		for _, k := range []string{"405", "401", "404", "413", "413-stay", "bad-chunk", "about"} {
			cases = append(cases, cs{"-", k})
		}
		for _, k := range []string{"normal", "stay", "rst-early"} {
			cases = append(cases, cs{"@silent", k}, cs{"@dead", k}, cs{"@hs", k})
		}
		if tc != nil {
			for _, k := range []string{"handshake-stay", "handshake-rst", "no-tls", "h2-stay", "h2-cancel", "h2-rst"} {
				cases = append(cases, cs{pick(rng, []string{"ok", "stall", "big", "stall-body"}), k})
			}
		}
	}
	rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	var held []io.Closer
	keep := func(x io.Closer) { mu.Lock(); held = append(held, x); mu.Unlock() }
	defer func() {
		for _, x := range held {
			x.Close()
		}
	}()
	rst := func(cn net.Conn) {
		if t, ok := cn.(*tls.Conn); ok {
			cn = t.NetConn()
		}
		if t, ok := cn.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		cn.Close()
	}
	var done atomic.Int64
	c.Par(len(cases), 64, func(i int) {
		x := cases[i]
		pause := time.Duration(i%7) * 40 * time.Millisecond
		target := []string{"/a/", "/b/"}[i%2] + x.up
		if strings.HasPrefix(x.up, "@") {
			target = "/" + x.up[1:]
		}
		if strings.HasPrefix(x.client, "h2-") {
			h := s.h2(tc)
			tr := h.hc.Transport.(*http.Transport)
			var raw net.Conn
			tr.DialTLS = nil
			tr.Dial = func(n, a string) (net.Conn, error) {
				cn, err := net.Dial(n, a)
				raw = cn
				return cn, err
			}
			hold := x.client == "h2-stay"
			h.hc.Timeout = 20 * time.Second
			if !hold {
				h.hc.Timeout = 200*time.Millisecond + pause
			}
			for j := 0; j < 3; j++ {
				h.ex("GET", target, nil, nil)
			}
			if x.client == "h2-rst" && raw != nil {
				rst(raw)
			}
			if !hold {
				tr.CloseIdleConnections()
			}
			c.Case(mode + " " + x.up + " " + x.client)
			done.Add(1)
			return
		}
		var cl *Client
		var err error
		if x.client == "handshake-stay" || x.client == "handshake-rst" || x.client == "no-tls" {
			cn, e := net.Dial("tcp", s.Addr)
			if e != nil {
				return
			}
			switch x.client {
			case "no-tls":
				io.WriteString(cn, "GET / HTTP/1.1\r\nHost: x\r\n\r\n")
			default:
				io.WriteString(cn, "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03")
			}
			if x.client == "handshake-rst" {
				time.Sleep(pause)
				rst(cn)
			} else {
				keep(cn)
			}
			c.Case(mode + " - " + x.client)
			done.Add(1)
			return
		}
		if cl, err = dial(s.Addr, tc); err != nil {
			return
		}
		read := func(m string) { cl.Read(m, 25*time.Second) }
		keepOpen := false
		abort := false
		switch x.client {
		case "normal":
			cl.Send(reqText("GET", target, nil, nil))
			read("GET")
		case "stay":
			cl.Send(reqText("GET", target, nil, nil))
			read("GET")
			keepOpen = true
		case "post":
			cl.Send(reqText("POST", target, nil, make([]byte, 30000)))
			read("POST")
		case "chunked-post":
			cl.Send(reqText("PUT", target, hv("Transfer-Encoding", "chunked"), []byte(chunked(make([]byte, 3000), []int{100}))))
			read("PUT")
		case "head":
			cl.Send(reqText("HEAD", target, nil, nil))
			read("HEAD")
		case "fin-early":
			cl.Send(reqText("GET", target, nil, nil))
			time.Sleep(pause)
		case "rst-early":
			cl.Send(reqText("GET", target, nil, nil))
			time.Sleep(pause)
			abort = true
		case "rst-late":
			cl.Send(reqText("GET", target, nil, nil))
			cl.cn.SetReadDeadline(time.Now().Add(20 * time.Second))
			var b [3]byte
			io.ReadFull(cl.br, b[:])
			abort = true
		case "unread":
			cl.Send(reqText("GET", target, nil, nil))
			keepOpen = true
		case "header-stay", "header-rst":
			cl.Send("GET /a/ok HTTP/1.1\r\nHost: x\r\nX-Pa")
			time.Sleep(pause)
			keepOpen = x.client == "header-stay"
			abort = !keepOpen
		case "body-stay", "body-rst":
			cl.Send("POST /a/ok HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\nhalf")
			time.Sleep(pause)
			keepOpen = x.client == "body-stay"
			abort = !keepOpen
		case "connect-stay":
			keepOpen = true
		case "garbage":
			cl.Send("\x00\x01\x02 no http\r\n\r\n")
			read("GET")
		case "pipeline-rst", "pipeline-stay":
			cl.Send(strings.Repeat(reqText("GET", target, nil, nil), 6))
			read("GET")
			keepOpen = x.client == "pipeline-stay"
			abort = !keepOpen
		case "slow-reader":
			// more than the socket buffers hold, never read
			for j := 0; j < 40; j++ {
				cl.cn.SetWriteDeadline(time.Now().Add(2 * time.Second))
				if cl.Send(reqText("GET", "/a/big", nil, nil)) != nil {
					break
				}
			}
			keepOpen = true
		case "405":
			cl.Send(reqText("PATCH", "/a/ok", nil, []byte("some body")))
			read("PATCH")
		case "401":
			cl.Send(reqText("POST", "/jwt", hv("Authorization", "Bearer a.b.c"), make([]byte, 2000)))
			read("POST")
		case "404":
			cl.Send(reqText("POST", "/none", nil, make([]byte, 2000)))
			read("POST")
		case "413", "413-stay":
			go cl.Send(reqText("POST", "/a/ok", nil, make([]byte, 500000)))
			read("POST")
			keepOpen = x.client == "413-stay"
		case "bad-chunk":
			cl.Send(reqText("POST", "/a/ok", hv("Transfer-Encoding", "chunked"), []byte("zz\r\n")))
			read("POST")
		case "about":
			cl.Send(reqText("POST", "/about", nil, make([]byte, 2000)))
			read("POST")
			keepOpen = true
		}
		switch {
		case keepOpen:
			keep(cl.cn)
		case abort:
			rst(cl.cn)
		default:
			cl.Close()
		}
		c.Case(mode + " " + x.up + " " + x.client)
		done.Add(1)
	})
	peak := s.sockets()
	// twin gets the same rest
	warm(twin)
	n, live := rest(s, base, 0, 45*time.Second)
	d := J{"mode": mode, "cases": done.Load(), "sockets-before": base, "sockets-at-end-of-load": peak, "sockets-after": n, "upstream-connections-after": live, "clients-still-open": len(held)}
	c.Count("load_cases", int(done.Load()))
	mu.Lock()
	for _, k := range served {
		c.Count("upstream_requests", k)
	}
	mu.Unlock()
	if !s.Alive() {
		c.Violate("server-died", d)
		return
	}
	if tc == nil && !s.controlOK(1) {
		c.Inconclusive("server too slow to tell: %v", d)
		return
	}
	gt, bt := twin.goroutines()
	time.Sleep(300 * time.Millisecond)
	g, b := s.goroutines()
	d["goroutines"], d["goroutines-unloaded"] = g, gt
	d["created-by"] = byText(b)
	d["created-by-unloaded"] = byText(bt)
	if n > base+3 {
		c.Violate("sockets-kept", d)
	} else if live > 0 {
		c.Violate("upstream-connections-kept", d)
	} else if g < 0 || gt < 0 {
		c.Inconclusive("no goroutine dump: %v", d)
	} else if g > gt+8 {
		c.Violate("goroutines-kept", d)
	} else {
		c.Case(mode + " rest")
	}
	c.Sample(d)
	c.checkHealthPanics(s)
}

func (c *Ctx) checkHealthPanics(s *Server) {
	for _, p := range s.Panics() {
		if strings.HasPrefix(p, "panic:") || strings.Contains(p, "http: panic serving") {
			c.Violate("handler-panic", J{"panic": p})
		}
	}
}

// c28pool: bursts leave at most poolSize idle upstream connections.
func c28pool(c *Ctx, bin string) {
	sizes := []int{1, 2, 5, 10}
	if c.Thorough() {
		sizes = []int{1, 2, 3, 4, 5, 7, 8, 10, 12, 16}
	}
	c.Par(len(sizes)*2, 4, func(i int) {
		size, hosts := sizes[i/2], 1+i%2
		const burst = 24
		var in atomic.Int64
		gate := make(chan struct{})
		var once sync.Once
		h := func(r *UpReq, w *UpConn) {
			if in.Add(1) >= burst {
				once.Do(func() { close(gate) })
			}
			select {
			case <-gate:
			case <-time.After(5 * time.Second):
			}
			w.Reply(r, 200, nil, []byte("x"))
		}
		var ups []*Upstream
		rs, res := A{}, J{}
		for k := 0; k < hosts; k++ {
			ups = append(ups, c.newUpstream(fmt.Sprint("u", k), h))
			rs = append(rs, J{"path": fmt.Sprintf("/%d", k), "resource": fmt.Sprintf("r%d", k)})
			res[fmt.Sprintf("r%d", k)] = resourceOf(ups[k])
		}
		s := c.start(J{"connection": J{"downstream": J{"readTimeoutSeconds": 100, "roundTripTimeoutSeconds": 100, "idleTimeoutSeconds": 100}, "upstream": J{"poolSize": size, "idleTimeoutSeconds": 300, "readTimeoutSeconds": 100}}, "routes": rs, "resources": res}, StartOpt{Bin: bin, Level: "INFO"})
		defer s.Stop()
		for round := 0; round < 2; round++ {
			c.Par(burst, burst, func(j int) {
				r, err := s.ex("GET", fmt.Sprintf("/%d", j%hosts), nil, nil)
				c.judge("burst", r, err, J{"size": size})
			})
		}
		live := func() (n int64) {
			for _, u := range ups {
				n += u.live.Load()
			}
			return
		}
		end := time.Now().Add(20 * time.Second)
		for live() > int64(size) && time.Now().Before(end) {
			time.Sleep(20 * time.Millisecond)
		}
		var most int64
		for _, u := range ups {
			most += u.maxLive.Load()
		}
		d := J{"poolSize": size, "upstreams": hosts, "idle": live(), "at-most-open": most}
		if live() > int64(size) {
			if !s.controlOK(2) {
				c.Inconclusive("pool %v", d)
				return
			}
			c.Violate("pool-too-large", d)
			return
		}
		if most <= int64(size) {
			return // the burst did not exceed the pool
		}
		c.Case(fmt.Sprintf("pool %d/%d", size, hosts))
		if size == 5 {
			c.Sample(d)
		}
	})
}

// c28reuse: sequential exchanges use one upstream connection, whatever came before.
func c28reuse(c *Ctx, bin string, rng *rand.Rand) {
	healthy := []struct {
		name   string
		method string
		body   int
		hs     Headers
		code   int
		rh     Headers
		rb     string
	}{
		{name: "get", method: "GET", code: 200, rb: "hello"},
		{name: "head", method: "HEAD", code: 200, rb: "hello"},
		{name: "post", method: "POST", body: 5000, code: 201, rb: "made"},
		{name: "put-chunked", method: "PUT", hs: hv("Transfer-Encoding", "chunked"), code: 200, rb: ""},
		{name: "204", method: "DELETE", code: 204},
		{name: "304", method: "GET", hs: hv("If-None-Match", "x"), code: 304},
		{name: "302", method: "GET", code: 302, rh: hv("Location", "/x"), rb: "moved"},
		{name: "404", method: "GET", code: 404, rb: "no such thing"},
		{name: "401", method: "POST", body: 10, code: 401, rb: "who"},
		{name: "500", method: "POST", body: 10, code: 500, rb: "oops"},
		{name: "500-retried", method: "GET", code: 500, rb: "oops"},
		{name: "chunked", method: "GET", code: 200, rh: hv("Transfer-Encoding", "chunked"), rb: "5\r\nhello\r\n0\r\n\r\n"},
		{name: "large", method: "GET", code: 200, rb: strings.Repeat("0123456789", 20000)},
		{name: "gzip", method: "GET", hs: hv("Accept-Encoding", "gzip"), code: 200, rb: strings.Repeat("0123456789", 2000)},
		{name: "upstream-gzip", method: "GET", code: 200, rh: hv("Content-Encoding", "gzip"), rb: string(gzipBytes([]byte("hello gzip")))},
		{name: "close", method: "GET", hs: hv("Connection", "close"), code: 200, rb: "bye"},
		{name: "options", method: "OPTIONS", code: 200},
		{name: "empty", method: "GET", code: 200},
	}
	byName := map[string]int{}
	for i, x := range healthy {
		byName[x.name] = i
	}
	faults := append(leakUps(), leakUp{"none", nil})
	c.Par(len(faults), 8, func(i int) {
		f := faults[i]
		rng := rand.New(rand.NewSource(c.Seed*1000 + int64(i)))
		var mu sync.Mutex
		conns := map[int64]int{}
		u := c.newUpstream("u", func(r *UpReq, w *UpConn) {
			name := r.Target[strings.LastIndexByte(r.Target, '/')+1:]
			if name == "fault" {
				f.step(r, w)
				return
			}
			mu.Lock()
			conns[r.Conn]++
			mu.Unlock()
			x := healthy[byName[name]]
			w.Reply(r, x.code, x.rh, []byte(x.rb))
		})
		s := c.start(simpleCfg(J{"readTimeoutSeconds": 100, "roundTripTimeoutSeconds": 100, "idleTimeoutSeconds": 100}, J{"poolSize": 1 + i%3, "idleTimeoutSeconds": 300, "readTimeoutSeconds": map[bool]int{true: 1, false: 60}[strings.Contains(f.name, "stall") || f.name == "drip" || f.name == "late" || f.name == "garbage" || f.name == "switch" || f.name == "continue-forever"], "maxAttempts": 2}, u), StartOpt{Bin: bin, Level: "INFO"})
		defer s.Stop()
		if f.step != nil {
			for k := 0; k < 2; k++ {
				s.ex("GET", "/fault", nil, nil)
			}
			time.Sleep(50 * time.Millisecond)
		}
		mu.Lock()
		conns = map[int64]int{}
		mu.Unlock()
		var names []string
		for r := 0; r < c.N(2, 10); r++ {
			for _, k := range rng.Perm(len(healthy)) {
				x := healthy[k]
				body := make([]byte, x.body)
				if x.hs.Has("Transfer-Encoding") {
					body = []byte("3\r\nabc\r\n0\r\n\r\n")
				}
				hs := x.hs
				if !hs.Has("Connection") {
					hs = append(append(Headers{}, hs...), HV{"Connection", "close"})
				}
				rp, err := s.ex(x.method, "/"+x.name, hs, body)
				if !c.judge("reuse", rp, err, J{"after": f.name, "kind": x.name}) {
					return
				}
				names = append(names, x.name)
				mu.Lock()
				n := len(conns)
				mu.Unlock()
				if n > 1 {
					c.Violate("connection-not-reused", J{"after": f.name, "sequence": names[max(0, len(names)-3):], "connections": n})
					return
				}
			}
		}
		c.Case("reuse after " + f.name)
		c.Count("sequential_exchanges", len(names))
	})
}

// c28memory: memory does not grow with the bytes that have passed.
func c28memory(c *Ctx, bin string) {
	body := make([]byte, 150<<10)
	rand.New(rand.NewSource(1)).Read(body)
	var n atomic.Int64
	u := c.newUpstream("u", func(r *UpReq, w *UpConn) {
		switch n.Add(1) % 8 {
		case 0:
			w.Reply(r, 500, nil, body)
		case 1:
			w.Reply(r, 404, nil, body)
		case 2:
			w.Send(httpResp(200, hv("Connection", "close"), body)[:len(body)/2])
			w.Reset()
		default:
			w.Reply(r, 200, hv("X-Large", strings.Repeat("h", 20000)), body)
		}
	})
	u.keep = false
	s := c.start(simpleCfg(J{"readTimeoutSeconds": 5, "roundTripTimeoutSeconds": 5, "idleTimeoutSeconds": 5, "maxBodyBytes": 1 << 20}, J{"readTimeoutSeconds": 4, "idleTimeoutSeconds": 4, "maxAttempts": 2, "poolSize": 20}, u), StartOpt{Bin: bin, Level: "WARN"})
	defer s.Stop()
	round := func(k int) (bytes int) {
		var total atomic.Int64
		c.Par(k, 24, func(i int) {
			var b []byte
			m := "GET"
			switch i % 4 {
			case 0:
				m, b = "POST", body
			case 1:
				m, b = "PUT", body
			}
			hs := hv("X-Big", strings.Repeat("y", 20000), "Connection", "close")
			if i%5 == 0 {
				hs = append(hs, HV{"Accept-Encoding", "gzip"})
			}
			if i%9 == 0 {
				// client leaves before it has its answer
				if cl, err := dial(s.Addr, nil); err == nil {
					cl.Send(reqText(m, "/x", hs, b))
					cl.Close()
				}
			} else if _, err := s.doRaw(m, reqText(m, "/x", hs, b)); err != nil && s.Alive() {
				return
			}
			total.Add(int64(len(b) + len(body) + 40000))
		})
		time.Sleep(5500 * time.Millisecond)
		return int(total.Load())
	}
	round(c.N(900, 1500))
	before := s.RSSKB()
	passed := round(c.N(2500, 20000))
	after := s.RSSKB()
	d := J{"rss-before-kb": before, "rss-after-kb": after, "passed-kb": passed >> 10}
	if before < 0 || after < 0 {
		c.Inconclusive("no memory figures: %v", d)
		return
	}
	if passed > 300<<20 && (after-before) > passed>>12 {
		c.Violate("memory-grows-with-traffic", d)
		return
	}
	c.Case("memory")
	c.Sample(d)
}
