package main

import (
	"crypto/tls"
	"io"
	"net"
	"time"
)

// Probes that measure when the server gives something up. All bounds that lead to verdicts are lower bounds; that
// something never happens is only concluded while the server answers control requests.

type gaveUp struct {
	after time.Duration
	code  int
	never bool // not within the watchdog although the server answers others
	err   error
}

func (g gaveUp) text() string {
	if g.err != nil {
		return g.err.Error()
	}
	if g.never {
		return "never"
	}
	return g.after.Round(time.Millisecond).String()
}

// until reads from cn until it ends; after = time since began.
func (s *Server) until(cn net.Conn, began time.Time, limit time.Duration) gaveUp {
	cn.SetReadDeadline(time.Now().Add(limit))
	_, err := io.Copy(io.Discard, cn)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		if !s.TLS && !s.controlOK(2) {
			return gaveUp{err: errWatchdog}
		}
		return gaveUp{never: true}
	}
	return gaveUp{after: time.Since(began)}
}

// slowHeader opens a connection, sends an incomplete request header (one more byte every pause, 0 = none) and tells
// when the server hangs up.
func (s *Server) slowHeader(tc *tls.Config, start string, pause, limit time.Duration) gaveUp {
	began := time.Now()
	cn, err := net.DialTimeout("tcp", s.Addr, 20*time.Second)
	if err != nil {
		return gaveUp{err: err}
	}
	defer cn.Close()
	if tc != nil {
		t := tls.Client(cn, tc)
		if err := t.Handshake(); err != nil {
			return gaveUp{err: err}
		}
		cn = t
	}
	if start != "" {
		io.WriteString(cn, start)
	}
	stop := make(chan struct{})
	defer close(stop)
	if pause > 0 {
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(pause):
					if _, err := io.WriteString(cn, "a"); err != nil {
						return
					}
				}
			}
		}()
	}
	return s.until(cn, began, limit)
}

// idleAfter does n exchanges on one connection and tells how long after the last request was sent the server hangs up.
func (s *Server) idleAfter(tc *tls.Config, target string, n int, limit time.Duration) gaveUp {
	cl, err := dial(s.Addr, tc)
	if err != nil {
		return gaveUp{err: err}
	}
	defer cl.Close()
	var began time.Time
	for i := 0; i < n; i++ {
		began = time.Now()
		cl.Send(reqText("GET", target, nil, nil))
		r, err := cl.Read("GET", watchdog)
		if err != nil {
			return gaveUp{err: err}
		}
		if r.Err != nil {
			return gaveUp{err: r.Err}
		}
	}
	return s.until(cl.cn, began, limit)
}

// answerTime does one exchange and tells when and how it was answered.
func (s *Server) answerTime(tc *tls.Config, method, target string, hs Headers, body []byte, limit time.Duration) gaveUp {
	cl, err := dial(s.Addr, tc)
	if err != nil {
		return gaveUp{err: err}
	}
	defer cl.Close()
	began := time.Now()
	cl.Send(reqText(method, target, hs, body))
	r, err := cl.Read(method, limit)
	if err == errWatchdog {
		if !s.TLS && !s.controlOK(2) {
			return gaveUp{err: errWatchdog}
		}
		return gaveUp{never: true}
	}
	if err != nil {
		return gaveUp{err: err, after: time.Since(began)}
	}
	return gaveUp{after: time.Since(began), code: r.Code, err: r.Err}
}

// stallHandler keeps every request unanswered until the peer leaves or d has passed.
func stallHandler(d time.Duration) Step {
	return func(r *UpReq, w *UpConn) {
		select {
		case <-w.WatchPeer():
		case <-time.After(d):
		}
		w.Done()
	}
}

// silentUpstream accepts connections and never says anything; gone gets the time each peer took to leave.
func (c *Ctx) silentUpstream(name string, gone func(d time.Duration)) *Upstream {
	u := c.newUpstream(name, nil)
	u.OnConn = func(n int64, cn net.Conn) bool {
		began := time.Now()
		io.Copy(io.Discard, cn)
		if gone != nil {
			gone(time.Since(began))
		}
		return true
	}
	return u
}
