package main

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C34: connecting to upstreams, and upstream connections nobody uses.

// deafPort is a loopback port that swallows connection requests: it listens with a full queue.
func (c *Ctx) deafPort() int {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0
	}
	c.OnCleanup(func() { syscall.Close(fd) })
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		return 0
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return 0
	}
	port := sa.(*syscall.SockaddrInet4).Port
	for i := 0; i < 8; i++ {
		cn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 300*time.Millisecond)
		if err != nil {
			return port // full
		}
		c.OnCleanup(func() { cn.Close() })
	}
	return 0
}

func init() {
	register("C34", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "socketTimeoutSeconds, idleTimeoutSeconds and maxAttempts in several orders; upstreams that swallow connection requests, accept and say nothing in the TLS handshake, stop after part of it, drip it, answer it with other bytes, hang up, refuse, have no address, or heal after one or two failures; 502 after attempts x timeout and not before, attempts counted; slow handshakes and answers within other limits delivered; pooled connections closed after idleTimeoutSeconds without use (9 kinds of responses, http and https, used again or not) and not before; pooled connections that upstream ends or speaks on (10 ways) while idle cost no request and deliver nothing; progress of other requests while many are stalled; key = way, method, settings"
		c.assume = []string{"in no run are all of at least six probes of one kind, or one of them four times running, delayed by 0.8 times the setting"}
		bin := c.buildJ8a(false)
		c.vastTimeouts(bin, "up.socketTimeoutSeconds", "up.idleTimeoutSeconds")
		p := newPKI()
		stc := &tls.Config{Certificates: []tls.Certificate{tlsCert(p.leaf)}}
		type conf struct{ socket, idle, attempts int }
		confs := []conf{{1, 2, 2}, {2, 1, 1}, {1, 3, 3}, {3, 2, 1}}
		if c.Thorough() {
			confs = append(confs, conf{2, 4, 3}, conf{4, 1, 2}, conf{1, 6, 5}, conf{5, 5, 2})
		}
		hello := "\x16\x03\x03\x00\x7a\x02\x00\x00\x76\x03\x03"
		var wg sync.WaitGroup
		for _, cf := range confs {
			cf := cf
			wg.Add(1)
			go func() { defer wg.Done(); c34conf(c, bin, cf.socket, cf.idle, cf.attempts, stc, hello) }()
		}
		wg.Add(4)
		go func() { defer wg.Done(); c.c34stale(bin, nil) }()
		go func() { defer wg.Done(); c.c34stale(bin, stc) }()
		go func() { defer wg.Done(); c34others(c, bin, false) }()
		go func() { defer wg.Done(); c34others(c, bin, true) }()
		wg.Wait()
	})
}

func c34conf(c *Ctx, bin string, socket, idle, attempts int, stc *tls.Config, hello string) {
	T, I := time.Duration(socket)*time.Second, time.Duration(idle)*time.Second
	mode := fmt.Sprintf("socket %d idle %d attempts %d", socket, idle, attempts)
	routes, res := A{}, J{}
	add := func(name, scheme, host string, port int) {
		routes = append(routes, J{"path": "/" + name + "/", "resource": name})
		res[name] = A{J{"url": J{"scheme": scheme, "host": host, "port": port}}}
	}
	ok := func(r *UpReq, w *UpConn) {
		code := 200
		f := strings.Split(r.Target, "/")
		fmt.Sscanf(f[len(f)-1], "%d", &code)
		switch f[len(f)-1] {
		case "chunked":
			w.Send("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n")
			return
		case "slow":
			time.Sleep(T*2 + 300*time.Millisecond)
		}
		w.Reply(r, code, nil, map[bool][]byte{true: nil, false: []byte("hello")}[code == 204 || code == 304])
	}
	quiet := func(say string, drip bool) *Upstream {
		u := c.newUpstream("quiet", nil)
		u.OnConn = func(n int64, cn net.Conn) bool {
			io.WriteString(cn, say)
			if drip {
				stop := make(chan bool)
				go func() {
					for {
						select {
						case <-stop:
							return
						case <-time.After(100 * time.Millisecond):
							io.WriteString(cn, "\x00")
						}
					}
				}()
				defer close(stop)
			}
			io.Copy(io.Discard, cn)
			return true
		}
		return u
	}
	silent, part, drip := quiet("", false), quiet(hello, false), quiet(hello, true)
	add("silent", "https", "127.0.0.1", silent.Port)
	add("part", "https", "127.0.0.1", part.Port)
	add("drip", "https", "127.0.0.1", drip.Port)
	stalls := []string{"silent", "part", "drip"}
	conns := map[string]*Upstream{"silent": silent, "part": part, "drip": drip}
	if d := c.deafPort(); d > 0 {
		add("deaf", "http", "127.0.0.1", d)
		add("deaf-tls", "https", "127.0.0.1", d)
		stalls = append(stalls, "deaf", "deaf-tls")
	} else {
		c.Count("no_deaf_port", 1)
	}
	garbage := c.newUpstream("garbage", nil)
	garbage.OnConn = func(n int64, cn net.Conn) bool {
		io.WriteString(cn, "HTTP/1.1 400 Bad Request\r\n\r\n")
		io.Copy(io.Discard, cn)
		return true
	}
	closer := c.newUpstream("closer", nil)
	closer.OnConn = func(n int64, cn net.Conn) bool { return true }
	add("garbage", "https", "127.0.0.1", garbage.Port)
	add("closer", "https", "127.0.0.1", closer.Port)
	add("refused", "http", "127.0.0.1", freePort())
	add("refused-tls", "https", "127.0.0.1", freePort())
	add("nowhere", "http", "127.9.9.9", freePort())
	plain, sec := c.newUpstream("plain", ok), c.newUpstreamAt("sec", "127.0.0.1:0", stc, ok)
	add("plain", "http", "127.0.0.1", plain.Port)
	add("sec", "https", "127.0.0.1", sec.Port)
	// heals after n connections, one per case
	slowTLS := c.newUpstreamAt("slow", "127.0.0.1:0", stc, ok)
	slowTLS.OnConn = func(n int64, cn net.Conn) bool { time.Sleep(T * 55 / 100); return false }
	add("slow-handshake", "https", "127.0.0.1", slowTLS.Port)
	heals := []*Upstream{}
	for k := 1; k < attempts; k++ {
		for v := 0; v < 2; v++ {
			var left atomic.Int64
			left.Store(int64(k))
			say := []string{"", hello}[v]
			u := c.newUpstreamAt("heal", "127.0.0.1:0", stc, ok)
			u.OnConn = func(n int64, cn net.Conn) bool {
				if left.Add(-1) >= 0 {
					io.WriteString(cn, say)
					io.Copy(io.Discard, cn)
					return true
				}
				return false
			}
			add(fmt.Sprintf("heal%d-%d", k, v), "https", "127.0.0.1", u.Port)
			heals = append(heals, u)
		}
	}
	s := c.start(J{"connection": J{"downstream": J{"readTimeoutSeconds": 100, "idleTimeoutSeconds": 100, "roundTripTimeoutSeconds": 100},
		"upstream": J{"socketTimeoutSeconds": socket, "idleTimeoutSeconds": idle, "readTimeoutSeconds": 60, "maxAttempts": attempts, "poolSize": 200, "tlsInsecureSkipVerify": true}},
		"routes": routes, "resources": res}, StartOpt{Bin: bin, Level: "INFO"})
	detail := func() J {
		return J{"socketTimeoutSeconds": socket, "idleTimeoutSeconds": idle, "maxAttempts": attempts}
	}
	type probe struct {
		name, method string
	}
	var ps []probe
	for r := 0; r < c.N(1, 4); r++ {
		for _, n := range stalls {
			for _, m := range []string{"GET", "POST", "HEAD", "PUT"} {
				ps = append(ps, probe{n, m})
			}
		}
	}
	nstall := len(ps)
	for _, n := range []string{"garbage", "closer", "refused", "refused-tls", "nowhere"} {
		for _, m := range []string{"GET", "POST", "PUT"} {
			ps = append(ps, probe{n, m})
		}
	}
	for _, m := range []string{"GET", "POST", "HEAD"} {
		ps = append(ps, probe{"slow-handshake", m}, probe{"slow", m})
	}
	for k := 1; k < attempts; k++ {
		for v := 0; v < 2; v++ {
			ps = append(ps, probe{fmt.Sprintf("heal%d-%d", k, v), "GET"})
		}
	}
	var mu sync.Mutex
	min := map[int]time.Duration{}
	cnt := map[int]int{}
	want := map[string]int64{}
	var late []probe
	c.Par(len(ps), len(ps), func(i int) {
		x := ps[i]
		time.Sleep(time.Duration(i%16) * 40 * time.Millisecond)
		tries := attempts
		if x.method == "POST" {
			tries = 1
		}
		target := "/" + x.name + "/x"
		if x.name == "slow" {
			target = []string{"/plain/slow", "/sec/slow"}[i%2]
		}
		var body []byte
		if x.method == "POST" || x.method == "PUT" {
			body = []byte("some body")
		}
		began := time.Now()
		r, err := s.ex(x.method, target, hv("Connection", "close"), body)
		el := time.Since(began)
		d := detail()
		d["upstream"], d["method"], d["after"] = x.name, x.method, el.String()
		if !c.judge("connect", r, err, d) {
			return
		}
		d["code"] = r.Code
		switch {
		case i < nstall:
			mu.Lock()
			want[x.name] += int64(tries)
			mu.Unlock()
			if r.Code != 502 {
				c.Violate("stalled-connect-not-502", d)
				return
			}
			if el < time.Duration(tries)*T-20*time.Millisecond {
				c.Violate("connect-given-up-early", d)
				return
			}
			mu.Lock()
			if m, ok := min[tries]; !ok || el < m {
				min[tries] = el
			}
			cnt[tries]++
			if el > time.Duration(tries)*T*9/5 {
				late = append(late, x)
			}
			mu.Unlock()
		case strings.HasPrefix(x.name, "heal"):
			k := int(x.name[4] - '0')
			if r.Code != 200 {
				c.Violate("no-retry-after-stalled-connect", d)
				return
			}
			if el < time.Duration(k)*T-20*time.Millisecond {
				c.Violate("connect-given-up-early", d)
				return
			}
		case strings.HasPrefix(x.name, "slow"):
			if r.Code != 200 {
				if el < T*9/10 && x.name == "slow-handshake" || x.name == "slow" || attempts == 1 && el < T*9/10 {
					c.Violate("slow-but-in-time-not-delivered", d)
				} else {
					c.Inconclusive("slow handshake not in time: %v", d)
				}
				return
			}
		default:
			if r.Code != 502 {
				c.Violate("failed-connect-not-502", d)
				return
			}
		}
		c.Case(fmt.Sprintf("%s %s %s", x.name, x.method, mode))
	})
	for tries, m := range min {
		if cnt[tries] >= 6 && m > time.Duration(tries)*T*9/5 {
			d := detail()
			d["attempts"], d["earliest"], d["probes"] = tries, m.String(), cnt[tries]
			c.Violate("connect-given-up-late", d)
		}
	}
	// one kind of stall that is late again and again, by itself
	if len(late) > 10 {
		late = late[:10]
	}
	c.Par(len(late), 5, func(i int) {
		x := late[i]
		tries := attempts
		if x.method == "POST" {
			tries = 1
		}
		d := detail()
		d["upstream"], d["method"] = x.name, x.method
		var took []string
		for try := 0; try < 3; try++ {
			c.Count("late_connects_repeated", 1)
			mu.Lock()
			want[x.name] += int64(tries)
			mu.Unlock()
			began := time.Now()
			r, err := s.ex(x.method, "/"+x.name+"/x", hv("Connection", "close"), nil)
			el := time.Since(began)
			if err != nil || r.Code != 502 {
				return
			}
			if el <= time.Duration(tries)*T*9/5 {
				return
			}
			took = append(took, el.String())
		}
		d["after"] = took
		c.Violate("connect-given-up-late-again-and-again", d)
	})
	for n, u := range conns {
		// a dial that outlives its attempt may add no connection, a lost one neither
		if got := u.conns.Load(); got != want[n] && c.Violations() == 0 {
			d := detail()
			d["upstream"], d["connections"], d["attempts-expected"] = n, got, want[n]
			c.Violate("attempts", d)
		}
		end := time.Now().Add(20 * time.Second)
		for u.live.Load() > 0 && time.Now().Before(end) {
			time.Sleep(20 * time.Millisecond)
		}
		if u.live.Load() > 0 {
			d := detail()
			d["upstream"], d["left"] = n, u.live.Load()
			if s.controlOK(2) {
				c.Violate("stalled-connections-kept", d)
			}
		}
	}
	// pooled connections
	kinds := []string{"200", "204", "304", "404", "500", "chunked", "301", "226", "403"}
	type life struct {
		conn  int64
		sent  time.Time
		ended time.Time
		kind  string
		used  int
	}
	for _, scheme := range []string{"plain", "sec"} {
		var lmu sync.Mutex
		lives := map[int64]*life{}
		up := map[string]*Upstream{"plain": plain, "sec": sec}[scheme]
		// each exchange of a batch holds its connection until all have one
		var gate chan struct{}
		var in atomic.Int64
		var size int64
		up.Handler = func(r *UpReq, w *UpConn) {
			lmu.Lock()
			l := lives[r.Conn]
			if l == nil {
				l = &life{conn: r.Conn, kind: r.Target[strings.LastIndexByte(r.Target, '/')+1:]}
				lives[r.Conn] = l
			}
			g := gate
			lmu.Unlock()
			if in.Add(1) >= size {
				select {
				case <-g:
				default:
					close(g)
				}
			}
			select {
			case <-g:
			case <-time.After(5 * time.Second):
			}
			lmu.Lock()
			l.sent = time.Now()
			l.used++
			l.ended = time.Time{}
			lmu.Unlock()
			ok(r, w)
		}
		batch := func(n int) {
			lmu.Lock()
			gate = make(chan struct{})
			lmu.Unlock()
			in.Store(0)
			size = int64(n)
			c.Par(n, n, func(i int) {
				m := []string{"GET", "HEAD", "POST"}[i%3]
				k := kinds[i%len(kinds)]
				if k == "500" || k == "chunked" && m == "HEAD" {
					m = "POST"
				}
				r, err := s.ex(m, "/"+scheme+"/"+k, hv("Connection", "close"), nil)
				c.judge("idle", r, err, detail())
			})
		}
		before := up.conns.Load()
		batch(18)
		opened := up.conns.Load() - before
		// again within 60%: the same connections
		began := time.Now()
		time.Sleep(I * 6 / 10)
		quick := time.Since(began) < I*8/10
		batch(18)
		quick = quick && time.Since(began) < I*85/100
		d := detail()
		d["upstream"], d["opened"], d["opened-again"] = scheme, opened, up.conns.Load()-before-opened
		if quick && up.conns.Load() > before+opened {
			c.Violate("pooled-connection-closed-early", d)
			continue
		}
		c.Case("reuse within idle timeout " + scheme + " " + mode)
		// then nobody uses them
		end := time.Now().Add(I + 25*time.Second)
		seen := map[int64]bool{}
		first := time.Duration(0)
		early := false
		for time.Now().Before(end) && up.live.Load() > 0 {
			time.Sleep(5 * time.Millisecond)
		}
		if up.live.Load() > 0 {
			d["left"] = up.live.Load()
			if s.controlOK(2) {
				c.Violate("idle-connection-kept", d)
			}
			continue
		}
		lmu.Lock()
		for id, l := range lives {
			at, ok := up.ended(id)
			if !ok || seen[id] {
				continue
			}
			seen[id] = true
			idleFor := at.Sub(l.sent)
			if idleFor < I-20*time.Millisecond {
				d["idle-for"], d["kind"], d["uses"] = idleFor.String(), l.kind, l.used
				early = true
			}
			if first == 0 || idleFor < first {
				first = idleFor
			}
		}
		n := len(seen)
		lmu.Unlock()
		d["connections"], d["earliest-end"] = n, first.String()
		if early {
			c.Violate("idle-connection-closed-early", d)
			continue
		}
		if n >= 10 && first > I*9/5 {
			c.Violate("idle-connection-closed-late", d)
			continue
		}
		c.Case("idle " + scheme + " " + mode)
		c.Count("idle_connections_observed", n)
	}
	c.Sample(J{"settings": mode, "earliest": fmt.Sprint(min), "connect-probes": nstall})
	c.checkHealthPanics(s)
}

// c34others: requests to a healthy upstream make progress while many are stuck with others.
func c34others(c *Ctx, bin string, tlsMode bool) {
	var silent atomic.Int64
	hold := func(r *UpReq, w *UpConn) {
		silent.Add(1)
		stallHandler(60*time.Second)(r, w)
	}
	stuck := c.newUpstream("stuck", hold)
	mute := c.silentUpstream("mute", nil)
	fine := c.newUpstream("fine", func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte("fine")) })
	routes := A{J{"path": "/stuck", "resource": "stuck"}, J{"path": "/mute", "resource": "mute"}, J{"path": "/fine", "resource": "fine"}, J{"path": "/about", "resource": "about"}}
	res := J{"stuck": resourceOf(stuck), "fine": resourceOf(fine), "mute": A{J{"url": J{"scheme": "https", "host": "127.0.0.1", "port": mute.Port}}}}
	if d := c.deafPort(); d > 0 {
		routes = append(routes, J{"path": "/deaf", "resource": "deaf"})
		res["deaf"] = A{J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": d}}}
	}
	down := J{"readTimeoutSeconds": 100, "idleTimeoutSeconds": 100, "roundTripTimeoutSeconds": 100}
	var tc *tls.Config
	if tlsMode {
		p := newPKI()
		tc = p.client()
		down = p.down(down)
	}
	s := c.start(J{"connection": J{"downstream": down, "upstream": J{"socketTimeoutSeconds": 8, "readTimeoutSeconds": 8, "idleTimeoutSeconds": 60, "maxAttempts": 1, "poolSize": 2}}, "routes": routes, "resources": res}, StartOpt{Bin: bin, Level: "INFO", TLS: tlsMode})
	n := 120
	var answered, sent atomic.Int64
	var first atomic.Int64
	var wg sync.WaitGroup
	one := func(target string) (*Resp, error) {
		cl, err := dial(s.Addr, tc)
		if err != nil {
			return nil, err
		}
		defer cl.Close()
		cl.Send(reqText("GET", target, nil, nil))
		sent.Add(1)
		return cl.Read("GET", watchdog)
	}
	paths := []string{"/stuck", "/mute", "/deaf", "/stuck"}
	if _, ok := res["deaf"]; !ok {
		paths[2] = "/mute"
	}
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := one(paths[i%4])
			if err == nil && r.Code < 500 {
				c.Violate("stalled-request-answered", J{"code": r.Code, "target": paths[i%4]})
			}
			if answered.Add(1) == 1 {
				first.Store(now())
			}
		}()
	}
	end := time.Now().Add(20 * time.Second)
	for (sent.Load() < int64(n) || silent.Load() < int64(n)/4 || mute.live.Load() < int64(n)/8) && time.Now().Before(end) && answered.Load() == 0 {
		time.Sleep(10 * time.Millisecond)
	}
	if answered.Load() > 0 || sent.Load() < int64(n) {
		c.Inconclusive("could not stall %d requests at once", n)
		wg.Wait()
		return
	}
	done := 0
	began := time.Now()
	for answered.Load() == 0 {
		r, err := one([]string{"/fine", "/fine", "/about", "/none"}[done%4])
		if answered.Load() > 0 {
			break
		}
		if err == nil && (r.Code == 200 || r.Code == 404) {
			done++
		} else if err != errWatchdog {
			c.Violate("other-upstream-affected", J{"err": fmt.Sprint(err), "resp": r})
			break
		}
	}
	el := time.Since(began)
	// how fast the machine is
	t1 := time.Now()
	if cl, err := dial(fmt.Sprintf("127.0.0.1:%d", fine.Port), nil); err == nil {
		cl.Send(reqText("GET", "/direct", hv("Connection", "close"), nil))
		cl.Read("GET", watchdog)
		cl.Close()
	}
	direct := time.Since(t1)
	wg.Wait()
	d := J{"stalled": n, "others-answered-meanwhile": done, "window": el.String(), "direct-exchange": direct.String(), "tls": tlsMode}
	switch {
	case el < 2*time.Second:
		c.Inconclusive("window too short: %v", d)
	case done < 5 && direct < 500*time.Millisecond:
		c.Violate("others-delayed", d)
	case done < 5:
		c.Inconclusive("machine too slow: %v", d)
	default:
		c.Case(fmt.Sprintf("others tls=%v", tlsMode))
		c.Count("others_answered_meanwhile", done)
		c.Sample(d)
	}
}
