package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C32: slow and idle clients.

// endConn notes when the peer ends a connection.
type endConn struct {
	net.Conn
	once sync.Once
	end  chan time.Time
}

// Close counts as well: the standard client closes when the server says it is going away.
func (e *endConn) Close() error {
	e.once.Do(func() { e.end <- time.Now() })
	return e.Conn.Close()
}

func (e *endConn) Read(b []byte) (int, error) {
	n, err := e.Conn.Read(b)
	if err != nil {
		e.once.Do(func() { e.end <- time.Now() })
	}
	return n, err
}

type cutProbe struct {
	name  string
	idle  bool // idleTimeoutSeconds applies, else readTimeoutSeconds
	tls   int  // 0 both, 1 only TLS, 2 only plain
	early bool // only an upper bound of patience is known: never earlier than the smaller of both
	run   func(s *Server, tc *tls.Config, limit time.Duration) gaveUp
}

// slowAfter does n exchanges, then sends start and stops.
func (s *Server) slowAfter(tc *tls.Config, n int, start string, pause, limit time.Duration) gaveUp {
	cl, err := dial(s.Addr, tc)
	if err != nil {
		return gaveUp{err: err}
	}
	defer cl.Close()
	for i := 0; i < n; i++ {
		cl.Send(reqText("GET", "/x", nil, nil))
		if _, err := cl.Read("GET", watchdog); err != nil {
			return gaveUp{err: err}
		}
	}
	time.Sleep(pause)
	began := time.Now()
	cl.Send(start)
	return s.until(cl.cn, began, limit)
}

// idleAfterReq is idleAfter for an arbitrary exchange.
func (s *Server) idleAfterReq(tc *tls.Config, method, text string, limit time.Duration) gaveUp {
	cl, err := dial(s.Addr, tc)
	if err != nil {
		return gaveUp{err: err}
	}
	defer cl.Close()
	began := time.Now()
	cl.Send(text)
	r, err := cl.Read(method, watchdog)
	if err != nil {
		return gaveUp{err: err}
	}
	if hasToken(r.H, "Connection", "close") {
		return gaveUp{err: fmt.Errorf("closed after %d", r.Code)}
	}
	return s.until(cl.cn, began, limit)
}

func init() {
	register("C32", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "servers with all orders of readTimeoutSeconds and idleTimeoutSeconds in 1-4 s, plain and TLS; clients that stop before the first byte, in the TLS handshake, at every tenth byte of a header, that drip bytes, that stop in a later header, that stay idle after 12 kinds of exchanges and on HTTP/2; closure never earlier than the setting, within 25 s at all, not in every one of the probes later than 1.8 times the setting, and no kind of probe four times running; headers completed and connections reused at 60% of the setting, other clients meanwhile always answered; key = probe, settings, protocol"
		c.assume = []string{"in no run are all of at least ten probes of one kind, or one of them four times running, delayed by 0.8 times the setting"}
		bin := c.buildJ8a(false)
		c.vastTimeouts(bin, "down.readTimeoutSeconds", "down.idleTimeoutSeconds")
		p := newPKI()
		type conf struct{ read, idle int }
		confs := []conf{{1, 3}, {3, 1}, {2, 2}, {4, 2}, {2, 4}}
		if c.Thorough() {
			confs = append(confs, conf{1, 6}, conf{6, 1}, conf{5, 8}, conf{8, 5}, conf{10, 3}, conf{3, 10})
		}
		full := "GET /x HTTP/1.1\r\nHost: j8a.test\r\nUser-Agent: probe\r\nX-Header: some value\r\n\r\n"
		var probes []cutProbe
		for i := 1; i < len(full); i += 7 {
			n := i
			probes = append(probes, cutProbe{name: fmt.Sprintf("header-cut-%d", n), run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowHeader(tc, full[:n], 0, l)
			}})
		}
		probes = append(probes,
			cutProbe{name: "header-cut-last", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowHeader(tc, full[:len(full)-1], 0, l)
			}},
			cutProbe{name: "silent", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp { return s.slowHeader(tc, "", 0, l) }},
			cutProbe{name: "drip", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowHeader(tc, "GET /x HTTP/1.1\r\nX-A: ", 50*time.Millisecond, l)
			}},
			cutProbe{name: "drip-lines", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowHeader(tc, "GET /", 130*time.Millisecond, l)
			}},
			cutProbe{name: "post-header-cut", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowHeader(tc, "POST /x HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n", 0, l)
			}},
			cutProbe{name: "second-header-cut", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowAfter(tc, 1, full[:30], 300*time.Millisecond, l)
			}},
			cutProbe{name: "fourth-header-cut", run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowAfter(tc, 3, full[:60], 100*time.Millisecond, l)
			}},
			cutProbe{name: "handshake", tls: 1, run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.slowHeader(nil, "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 0, l)
			}},
			cutProbe{name: "handshake-silent", tls: 1, run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp { return s.slowHeader(nil, "", 0, l) }},
		)
		for name, m := range map[string][2]string{
			"get": {"GET", reqText("GET", "/x", nil, nil)}, "head": {"HEAD", reqText("HEAD", "/x", nil, nil)},
			"post":         {"POST", reqText("POST", "/x", nil, make([]byte, 5000))},
			"post-chunked": {"POST", reqText("POST", "/x", hv("Transfer-Encoding", "chunked"), []byte("3\r\nabc\r\n0\r\n\r\n"))},
			"204":          {"DELETE", reqText("DELETE", "/204", nil, nil)}, "304": {"GET", reqText("GET", "/304", nil, nil)},
			"404": {"GET", reqText("GET", "/404", nil, nil)}, "502": {"POST", reqText("POST", "/500", nil, nil)},
			"400": {"PATCH", reqText("PATCH", "/x", nil, nil)}, "401": {"GET", reqText("GET", "/jwt", nil, nil)},
			"about": {"GET", reqText("GET", "/about", nil, nil)}, "gzip": {"GET", reqText("GET", "/x", hv("Accept-Encoding", "gzip"), nil)},
			"http10": {"GET", "GET /x HTTP/1.0\r\nConnection: keep-alive\r\n\r\n"},
		} {
			m := m
			probes = append(probes, cutProbe{name: "idle-after-" + name, idle: true, run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				return s.idleAfterReq(tc, m[0], m[1], l)
			}})
		}
		probes = append(probes,
			cutProbe{name: "idle-after-many", idle: true, run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp { return s.idleAfter(tc, "/x", 9, l) }},
			cutProbe{name: "idle-h2", idle: true, tls: 1, run: func(s *Server, tc *tls.Config, l time.Duration) gaveUp {
				h := s.h2(tc)
				e := &endConn{end: make(chan time.Time, 1)}
				h.hc.Transport.(*http.Transport).DialContext = func(ctx context.Context, n, a string) (net.Conn, error) {
					cn, err := (&net.Dialer{}).DialContext(ctx, n, a)
					e.Conn = cn
					return e, err
				}
				var began time.Time
				for i := 0; i < 2; i++ {
					began = time.Now()
					if r, err := h.ex("GET", "/x", nil, nil); err != nil {
						return gaveUp{err: err}
					} else if r.Proto != "HTTP/2.0" {
						return gaveUp{err: fmt.Errorf("protocol %s", r.Proto)}
					}
				}
				select {
				case t := <-e.end:
					return gaveUp{after: t.Sub(began)}
				case <-time.After(l):
					return gaveUp{never: true}
				}
			}},
		)
		var wg sync.WaitGroup
		for ci := 0; ci < len(confs)*2; ci++ {
			cf, isTLS := confs[ci/2], ci%2 == 1
			wg.Add(1)
			go func() {
				defer wg.Done()
				u := c.newUpstream("u", func(r *UpReq, w *UpConn) {
					code := 200
					fmt.Sscanf(strings.TrimPrefix(r.Target, "/"), "%d", &code)
					if code == 204 || code == 304 {
						w.Reply(r, code, nil, nil)
						return
					}
					w.Reply(r, code, nil, []byte("hello"))
				})
				u.keep = false
				down := J{"readTimeoutSeconds": cf.read, "idleTimeoutSeconds": cf.idle, "roundTripTimeoutSeconds": 40}
				var tc *tls.Config
				if isTLS {
					tc = p.client()
					down = p.down(down)
				}
				s := c.start(J{"connection": J{"downstream": down, "upstream": J{"maxAttempts": 1}}, "jwt": J{"hs": J{"alg": "HS256", "key": kitchenSecret}},
					"routes":    A{J{"path": "/jwt", "resource": "r", "jwt": "hs"}, J{"path": "/about", "resource": "about"}, J{"path": "/", "resource": "r"}},
					"resources": J{"r": resourceOf(u)}}, StartOpt{Bin: bin, Level: "INFO", TLS: isTLS})
				mode := fmt.Sprintf("read %d idle %d tls %v", cf.read, cf.idle, isTLS)
				d0 := func() J {
					return J{"readTimeoutSeconds": cf.read, "idleTimeoutSeconds": cf.idle, "tls": isTLS}
				}
				alive := func() bool {
					cl, err := dial(s.Addr, tc)
					if err != nil {
						return false
					}
					defer cl.Close()
					cl.Send(reqText("GET", "/x", nil, nil))
					r, err := cl.Read("GET", 20*time.Second)
					return err == nil && r.Code == 200
				}
				// other clients go on meanwhile
				var stop atomic.Bool
				var others sync.WaitGroup
				var othersN atomic.Int64
				for k := 0; k < 3; k++ {
					k := k
					others.Add(1)
					go func() {
						defer others.Done()
						var cl *Client
						last := time.Now()
						for !stop.Load() {
							fresh := cl == nil
							if fresh {
								var err error
								if cl, err = dial(s.Addr, tc); err != nil {
									d := d0()
									d["err"] = err.Error()
									if !stop.Load() {
										c.Violate("other-client-refused", d)
									}
									return
								}
								last = time.Now()
							}
							sent := time.Now()
							err := cl.Send(reqText("GET", "/x", nil, nil))
							var r *Resp
							if err == nil {
								r, err = cl.Read("GET", 30*time.Second)
							}
							if err != nil || r.Code != 200 {
								// our own pause may have been longer than meant
								if gap := sent.Sub(last); !fresh && gap > time.Duration(cf.idle)*800*time.Millisecond {
									cl.Close()
									cl = nil
									continue
								}
								d := d0()
								d["err"] = fmt.Sprint(err)
								if err == errWatchdog && !alive() {
									c.Inconclusive("other client: %v", d)
								} else {
									c.Violate("other-client-affected", d)
								}
								return
							}
							othersN.Add(1)
							last = time.Now()
							switch k {
							case 0:
								cl.Close()
								cl = nil
								time.Sleep(50 * time.Millisecond)
							case 1:
								time.Sleep(20 * time.Millisecond)
							case 2:
								time.Sleep(time.Duration(cf.idle) * 500 * time.Millisecond)
							}
						}
						if cl != nil {
							cl.Close()
						}
					}()
				}
				var mu sync.Mutex
				min := map[bool]time.Duration{}
				cnt := map[bool]int{}
				var ps, late []cutProbe
				for r := 0; r < c.N(1, 5); r++ {
					for _, x := range probes {
						if x.tls == 1 && !isTLS || x.tls == 2 && isTLS {
							continue
						}
						ps = append(ps, x)
					}
				}
				c.Par(len(ps), len(ps), func(i int) {
					x := ps[i]
					time.Sleep(time.Duration(i%20) * 60 * time.Millisecond)
					set := time.Duration(cf.read) * time.Second
					if x.idle {
						set = time.Duration(cf.idle) * time.Second
					}
					var ctc *tls.Config
					if isTLS {
						ctc = tc
					}
					g := x.run(s, ctc, 25*time.Second)
					d := d0()
					d["probe"], d["closed-after"] = x.name, g.text()
					if g.err != nil {
						if ne, ok := g.err.(net.Error); ok && ne.Timeout() || g.err == errWatchdog || g.err == io.EOF {
							c.Inconclusive("%s %s: %v", mode, x.name, g.err)
							return
						}
						c.Violate("probe-failed", d)
						return
					}
					if g.never {
						if !alive() {
							c.Inconclusive("%s %s: server does not answer others", mode, x.name)
							return
						}
						c.Violate("not-closed", d)
						return
					}
					if g.after < set-20*time.Millisecond {
						c.Violate("closed-early", d)
						return
					}
					mu.Lock()
					if m, ok := min[x.idle]; !ok || g.after < m {
						min[x.idle] = g.after
					}
					cnt[x.idle]++
					if g.after > set*9/5 {
						late = append(late, x)
					}
					mu.Unlock()
					c.Case(mode + " " + x.name)
				})
				for idle, m := range min {
					set := time.Duration(cf.read) * time.Second
					if idle {
						set = time.Duration(cf.idle) * time.Second
					}
					if cnt[idle] >= 10 && m > set*9/5 {
						d := d0()
						d["idle"], d["earliest-closure"], d["probes"] = idle, m.String(), cnt[idle]
						c.Violate("closed-late", d)
					}
				}
				// one kind of probe that is late again and again, by itself
				if len(late) > 10 {
					late = late[:10]
				}
				c.Par(len(late), 5, func(i int) {
					x := late[i]
					set := time.Duration(cf.read) * time.Second
					if x.idle {
						set = time.Duration(cf.idle) * time.Second
					}
					var ctc *tls.Config
					if isTLS {
						ctc = tc
					}
					d := d0()
					d["probe"] = x.name
					var took []string
					for try := 0; try < 3; try++ {
						c.Count("late_closures_repeated", 1)
						g := x.run(s, ctc, 25*time.Second)
						if g.err != nil || g.never || g.after <= set*9/5 {
							return
						}
						took = append(took, g.text())
					}
					d["closed-after"] = took
					c.Violate("closed-late-again-and-again", d)
				})
				// in time is in time
				c.Par(c.N(8, 30), 8, func(i int) {
					cl, err := dial(s.Addr, tc)
					if err != nil {
						c.Inconclusive("dial %v", err)
						return
					}
					defer cl.Close()
					d := d0()
					if i%2 == 0 {
						// a header in pieces over 60% of the time
						began := time.Now()
						k := 6
						for j := 0; j < k; j++ {
							cl.Send(full[j*len(full)/k : (j+1)*len(full)/k])
							if j < k-1 {
								time.Sleep(time.Duration(cf.read) * 600 * time.Millisecond / time.Duration(k-1))
							}
						}
						if time.Since(began) > time.Duration(cf.read)*850*time.Millisecond {
							return
						}
						d["probe"] = "header in pieces"
					} else {
						cl.Send(full)
						if _, err := cl.Read("GET", watchdog); err != nil {
							c.Inconclusive("first exchange %v", err)
							return
						}
						began := time.Now()
						time.Sleep(time.Duration(cf.idle) * 600 * time.Millisecond)
						cl.Send(full)
						if time.Since(began) > time.Duration(cf.idle)*850*time.Millisecond {
							return
						}
						d["probe"] = "reuse"
					}
					r, err := cl.Read("GET", watchdog)
					if err == errWatchdog {
						c.Inconclusive("in-time %v", d)
						return
					}
					if err != nil || r.Code != 200 {
						d["err"] = fmt.Sprint(err)
						c.Violate("cut-off-in-time", d)
						return
					}
					c.Case(mode + " in time " + d["probe"].(string))
				})
				stop.Store(true)
				others.Wait()
				c.Count("other_clients_exchanges", int(othersN.Load()))
				c.Sample(J{"settings": mode, "earliest-header-closure": min[false].String(), "earliest-idle-closure": min[true].String(), "probes": cnt[false] + cnt[true]})
				c.checkHealthPanics(s)
			}()
		}
		wg.Wait()
	})
}
