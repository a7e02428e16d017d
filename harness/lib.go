package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Par runs n cases over some workers; case order and content never depend on scheduling.
func (c *Ctx) Par(n, workers int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Script is what an upstream does for one case: one step per arriving attempt, the last one repeats.
type Step func(r *UpReq, w *UpConn)

type scripted struct {
	mu sync.Mutex
	m  map[string][]Step
	n  map[string]int
	df Step
}

func newScripted(df Step) *scripted {
	return &scripted{m: map[string][]Step{}, n: map[string]int{}, df: df}
}

func (s *scripted) Set(id string, steps ...Step) {
	s.mu.Lock()
	s.m[id] = steps
	s.mu.Unlock()
}

func (s *scripted) Handle(r *UpReq, w *UpConn) {
	id := r.Case()
	s.mu.Lock()
	st := s.m[id]
	k := s.n[id]
	s.n[id]++
	s.mu.Unlock()
	if len(st) == 0 {
		if s.df != nil {
			s.df(r, w)
			return
		}
		w.Reply(r, 200, Headers{{"X-Default", "1"}}, []byte("default"))
		return
	}
	if k >= len(st) {
		k = len(st) - 1
	}
	st[k](r, w)
}

func answer(raw string) Step { return func(r *UpReq, w *UpConn) { w.Send(raw) } }

// answerClose answers and closes so that no upstream connection is ever reused.
func answerClose(code int, hs Headers, body []byte) Step {
	raw := httpResp(code, append(Headers{{"Connection", "close"}}, hs...), body)
	return func(r *UpReq, w *UpConn) {
		if r.Method == "HEAD" {
			raw := raw[:strings.Index(raw, "\r\n\r\n")+4]
			w.Send(raw)
		} else {
			w.Send(raw)
		}
		w.Done()
	}
}

func resourceOf(ups ...*Upstream) A {
	a := A{}
	for _, u := range ups {
		a = append(a, J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": u.Port}})
	}
	return a
}

func labelled(u *Upstream, labels ...string) J {
	return J{"labels": labels, "url": J{"scheme": "http", "host": "127.0.0.1", "port": u.Port}}
}

func simpleCfg(down, up J, u *Upstream) J {
	if down == nil {
		down = J{}
	}
	if up == nil {
		up = J{}
	}
	return J{"connection": J{"downstream": down, "upstream": up},
		"routes":    A{J{"path": "/", "resource": "r"}},
		"resources": J{"r": resourceOf(u)}}
}

// errNoAnswer: a well-formed request got no response although the server still answers others.
var errNoAnswer = errors.New("request never answered while server answers control requests")

// exchange sends raw on a fresh connection and returns its single response. A watchdog expiry is resolved by control
// requests: if the server answers those, the request was dropped; if not, nothing is decided.
func (s *Server) exchange(method, raw string) (*Resp, error) {
	r, err := s.doRaw(method, raw)
	if err == errWatchdog {
		if s.controlOK(3) {
			return r, errNoAnswer
		}
		return r, errWatchdog
	}
	return r, err
}

// controlOK tells whether the server still answers a path no route has.
func (s *Server) controlOK(n int) bool {
	for i := 0; i < n; i++ {
		c, err := dial(s.Addr, nil)
		if err != nil {
			return false
		}
		c.Send("GET /vh-control-no-route HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
		_, err = c.Read("GET", 30*time.Second)
		c.Close()
		if err != nil {
			return false
		}
	}
	return true
}

func (s *Server) ex(method, target string, hs Headers, body []byte) (*Resp, error) {
	return s.exchange(method, reqText(method, target, hs, body))
}

// judge turns transport level outcomes into a verdict; true if there is a response to look at.
func (c *Ctx) judge(sig string, r *Resp, err error, detail J) bool {
	if err == errWatchdog {
		c.Inconclusive("%s: watchdog %v", sig, detail)
		return false
	}
	if detail == nil {
		detail = J{}
	}
	if err != nil {
		detail["err"] = err.Error()
		c.Violate(sig+"/no-response", detail)
		return false
	}
	if r.Err != nil {
		if r.Err == errWatchdog {
			c.Inconclusive("%s: watchdog in body %v", sig, detail)
			return false
		}
		detail["err"] = r.Err.Error()
		detail["code"] = r.Code
		c.Violate(sig+"/malformed-response", detail)
		return false
	}
	return true
}

type errBody struct {
	J8a      *string `json:"j8a"`
	ServerID *string `json:"ServerID"`
	Version  *string `json:"Version"`
	Code     *int    `json:"Code"`
	Message  *string `json:"Message"`
}

// wrapper explains why r is not a JSON error with code, or returns "".
func wrapper(r *Resp, code int) string {
	if r.Code != code {
		return fmt.Sprintf("status %d, want %d", r.Code, code)
	}
	if ct := r.H.All("Content-Type"); len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		return fmt.Sprintf("content type %q", ct)
	}
	b, err := r.decode()
	if err != nil {
		return "body: " + err.Error()
	}
	var e errBody
	dec := json.NewDecoder(strings.NewReader(string(b)))
	if err := dec.Decode(&e); err != nil {
		return fmt.Sprintf("not json: %v: %q", err, clip(b))
	}
	if _, err := dec.Token(); err != io.EOF {
		return fmt.Sprintf("data after json: %q", clip(b))
	}
	if e.Code == nil || *e.Code != code {
		return fmt.Sprintf("code in body: %q", clip(b))
	}
	if e.Message == nil || *e.Message == "" || *e.Message == "none" {
		return fmt.Sprintf("no message: %q", clip(b))
	}
	if e.ServerID == nil || *e.ServerID == "" || e.Version == nil || *e.Version == "" || e.J8a == nil || *e.J8a == "" {
		return fmt.Sprintf("no identity: %q", clip(b))
	}
	if sv := r.H.All("Server"); len(sv) != 1 || sv[0] != "j8a "+*e.Version+" "+*e.ServerID {
		return fmt.Sprintf("server header %q does not match body %q", sv, clip(b))
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%s...(%d bytes)", b[:160], len(b))
	}
	return string(b)
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func token(r *rand.Rand, n int) string {
	const a = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// body shapes: compressible text, json, binary, all byte values
func randBody(r *rand.Rand, n int) []byte {
	switch r.Intn(4) {
	case 0:
		return randBytes(r, n)
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		return b
	case 2:
		return []byte(strings.Repeat("{\"key\":\"value\"},", n/16+1))[:n]
	}
	return []byte(token(r, n))
}

// checkHealth reports handler panics and process death as violations of the running check.
func (c *Ctx) checkHealth(s *Server) {
	time.Sleep(100 * time.Millisecond)
	for _, p := range s.Panics() {
		c.Violate("handler-panic", J{"panic": p})
	}
	if !s.Alive() {
		c.Violate("server-died", J{"exit": s.ExitCode(), "tail": s.Tail(5)})
	}
}
