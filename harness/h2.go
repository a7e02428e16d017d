package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"
)

// h2Client is a standard HTTP/2 client for a TLS server of ours.
type h2Client struct {
	hc   *http.Client
	base string
	host string
}

func (s *Server) h2(tc *tls.Config) *h2Client {
	tr := &http.Transport{TLSClientConfig: tc.Clone(), ForceAttemptHTTP2: true, DisableCompression: true}
	s.c.OnCleanup(tr.CloseIdleConnections)
	return &h2Client{&http.Client{Transport: tr, Timeout: watchdog, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}, fmt.Sprintf("https://127.0.0.1:%d", s.Port), ""}
}

// h2From is like h2 but dials in a particular way.
func (s *Server) h2From(tc *tls.Config, d *net.Dialer, addr string) *h2Client {
	h := s.h2(tc)
	h.hc.Transport.(*http.Transport).DialContext = func(ctx context.Context, _, _ string) (net.Conn, error) {
		return d.DialContext(ctx, "tcp", addr)
	}
	return h
}

// ex does one exchange; Connection-like headers must not be given.
func (h *h2Client) ex(method, target string, hs Headers, body []byte) (*Resp, error) {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	rq, err := http.NewRequest(method, h.base+target, rd)
	if err != nil {
		return nil, err
	}
	for _, x := range hs {
		if strings.EqualFold(x.K, "Host") {
			rq.Host = x.V
			continue
		}
		rq.Header.Add(x.K, x.V)
	}
	rs, err := h.hc.Do(rq)
	if err != nil {
		if strings.Contains(err.Error(), "Client.Timeout") {
			return nil, errWatchdog
		}
		return nil, err
	}
	defer rs.Body.Close()
	out := &Resp{Proto: rs.Proto, Code: rs.StatusCode, T: now(), Framing: "h2"}
	for k, vs := range rs.Header {
		for _, v := range vs {
			out.H = append(out.H, HV{k, v})
		}
	}
	out.Body, out.Err = io.ReadAll(rs.Body)
	return out, nil
}

// served returns the access log records of one path.
func (s *Server) served(path string) []logLine {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.idx == nil {
		s.idx = map[string][]logLine{}
	}
	for ; s.idxN < len(s.lines); s.idxN++ {
		l := s.lines[s.idxN]
		if isAccess(l) {
			s.idx[l.S("dwnReqPath")] = append(s.idx[l.S("dwnReqPath")], l)
		}
	}
	return append([]logLine(nil), s.idx[path]...)
}

// logWait returns the access log records of a path once n have appeared (or d has passed).
func (s *Server) logWait(path string, n int, d time.Duration) []logLine {
	end := time.Now().Add(d)
	for {
		out := s.served(path)
		if len(out) >= n || time.Now().After(end) {
			return out
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// isAccess recognises an access log record by what it carries.
func isAccess(l logLine) bool {
	_, a := l["dwnResCode"]
	_, b := l["dwnReqMethod"]
	return a && b
}
