package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// mix is a load of requests with all kinds of outcomes whose every byte is derived from the request's own id, so that
// both sides can tell foreign data.

type mixer struct {
	c    *Ctx
	S    *Server
	Up   *Upstream
	Up2  *Upstream
	Jwks *rotJwt
	key  *jkey
	tc   *tls.Config
	mute bool // exchanges are only load, another oracle decides
	mu   sync.Mutex
	att  map[string]int
	gen  map[string]string // generated request ids -> request
	h2   *http.Client
	Out  map[string]int
	seq  atomic.Int64
	late atomic.Int64
	cfg  J
}

type mixReq struct {
	id, method, mode string
	n, m             int // request and response body length
	gz               bool
	xrid             bool
	path             string
	tok              string
}

// mixBytes is the content that belongs to an id.
func mixBytes(kind, id string, n int) []byte {
	h := fnv.New64a()
	io.WriteString(h, kind+id)
	r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
	b := make([]byte, 0, n+16)
	b = append(b, kind+id+"|"...)
	word := []byte(token(r, 7) + " ")
	for len(b) < n {
		if r.Intn(4) == 0 {
			word = []byte(token(r, 7) + " ")
		}
		b = append(b, word...)
	}
	if n < len(b) && n > 0 {
		b = b[:n]
	}
	if n == 0 {
		return nil
	}
	return b
}

func (m *mixer) bad(sig string, d J) {
	if m.mute {
		m.c.Count("muted "+sig, 1)
		return
	}
	m.c.Violate(sig, d)
}

func (m *mixer) attempt(id string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.att[id]++
	return m.att[id]
}

func (m *mixer) upHandle(r *UpReq, w *UpConn) {
	q := strings.SplitN(strings.TrimPrefix(r.Target[strings.Index(r.Target[1:], "/")+1:], "/"), "/", 2) // id/mode
	if len(q) != 2 {
		m.bad("foreign-target", J{"target": r.Target})
		w.Done()
		return
	}
	id, mode := q[0], q[1]
	n, _ := strconv.Atoi(r.H.Get("X-N"))
	rn, _ := strconv.Atoi(r.H.Get("X-M"))
	d := J{"target": r.Target, "method": r.Method, "headers": r.H.text(), "body": clip(r.Body)}
	if r.BodyErr != nil {
		// the attempt was cancelled while its body was under way
		w.Done()
		return
	}
	if r.H.Get("X-Id") != id || r.H.Get("X-Mode") != mode || r.H.Get("X-Method") != r.Method {
		m.bad("upstream-got-mixed-headers", d)
	}
	if x := r.H.All("X-Request-Id"); len(x) != 1 || r.H.Get("X-Own") == "1" && x[0] != id {
		m.bad("upstream-got-foreign-request-id", d)
	}
	if !bytes.Equal(r.Body, mixBytes("req", id, n)) {
		m.bad("upstream-got-foreign-body", d)
	}
	a := m.attempt(id)
	body := mixBytes(fmt.Sprintf("res%d-", a), id, rn)
	hs := hv("X-Echo", id, "X-Attempt", fmt.Sprint(a), "Content-Type", "text/x-"+id)
	send := func(code int) {
		hd := r.Method == "HEAD"
		b := body
		if strings.Contains(mode, "gz") {
			b = gzipBytes(b)
			hs = append(hs, HV{"Content-Encoding", "gzip"})
		}
		switch {
		case hd:
			w.Send(httpResp(code, append(hs, HV{"Content-Length", fmt.Sprint(len(b))}), nil))
		case strings.Contains(mode, "chunk"):
			w.Send(httpResp(code, append(hs, HV{"Transfer-Encoding", "chunked"}), []byte(chunked(b, []int{1 + len(b)/3, 7}))))
		case strings.Contains(mode, "slow"):
			raw := httpResp(code, hs, b)
			for i := 0; i < len(raw); i += len(raw)/3 + 1 {
				w.Send(raw[i:min(len(raw), i+len(raw)/3+1)])
				time.Sleep(2 * time.Millisecond)
			}
		default:
			w.Send(httpResp(code, hs, b))
		}
	}
	switch {
	case strings.HasPrefix(mode, "e4"):
		send(404 + len(id)%3)
	case strings.HasPrefix(mode, "e5"):
		hs = append(hs, HV{"Connection", "close"})
		send(503)
		w.Done()
	case strings.HasPrefix(mode, "flaky") && a == 1:
		raw := httpResp(200, append(hs, HV{"Connection", "close"}), body)
		w.Send(raw[:len(raw)*2/3])
		if len(id)%2 == 0 {
			w.Reset()
		} else {
			w.Done()
		}
	case strings.HasPrefix(mode, "late") && a == 1:
		raw := httpResp(200, hs, body)
		w.Send(raw[:len(raw)/3])
		select {
		case <-w.WatchPeer():
		case <-time.After(20 * time.Second):
		}
		w.Send(raw[len(raw)/3:])
		m.late.Add(1)
		w.Done()
	case strings.HasPrefix(mode, "stall"):
		select {
		case <-w.WatchPeer():
		case <-time.After(20 * time.Second):
		}
		w.Done()
	case strings.HasPrefix(mode, "edge"): // about the read timeout
		time.Sleep(time.Second + time.Duration(len(id)%7-3)*4*time.Millisecond)
		send(200)
	default:
		send(200)
	}
}

var mixModes = []string{"ok", "ok", "ok-gz", "ok-chunk", "ok-gz-chunk", "ok-slow", "e4", "e5", "flaky", "ok-slow-gz", "e4-gz"}
var mixSlowModes = []string{"late", "stall", "edge", "edge-gz"}

func (m *mixer) newReq(r *rand.Rand, slow bool) *mixReq {
	q := &mixReq{id: fmt.Sprintf("i%d%s", m.seq.Add(1), strings.Repeat("z", r.Intn(8))), method: pick(r, []string{"GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"})}
	q.mode = pick(r, mixModes)
	if slow {
		q.mode = pick(r, mixSlowModes)
	}
	if r.Intn(2) == 0 && q.method != "HEAD" {
		q.n = r.Intn(3000)
		if r.Intn(20) == 0 {
			q.n = 20000 + r.Intn(30000)
		}
	}
	q.m = 1 + r.Intn(3000)
	if r.Intn(20) == 0 {
		q.m = 50000 + r.Intn(300000)
	}
	q.gz, q.xrid = r.Intn(2) == 0, r.Intn(2) == 0
	switch v := r.Intn(30); {
	case v < 18:
		q.path = "/m/"
	case v < 21:
		q.path = "/pol/"
	case v < 23:
		q.path, q.tok = "/mj/", m.key.sign(J{"kid": m.key.kid}, J{"sub": q.id})
	case v < 24:
		q.path, q.tok = "/mj/", m.key.sign(J{"kid": "unknown-" + q.id}, J{"sub": q.id})
	case v < 26:
		q.path, q.tok = "/mj/", "a.b.c"
		if r.Intn(2) == 0 {
			x := newKey("ES256", 0)
			q.tok = x.sign(J{"kid": "foreign-" + q.id}, J{"sub": q.id})
		}
		q.mode = "denied"
	case v < 27:
		q.path, q.mode = "/unknown/", "nowhere"
	case v < 28:
		q.path, q.mode = "/dead/", "dead"
	case v < 29:
		q.path, q.mode = "/nores/", "nores"
	default:
		q.path, q.mode = "/about", "about"
	}
	return q
}

func (q *mixReq) target() string {
	if q.mode == "about" {
		return q.path
	}
	return q.path + q.id + "/" + q.mode
}

func (q *mixReq) headers() Headers {
	h := hv("X-Id", q.id, "X-Mode", q.mode, "X-Method", q.method, "X-N", fmt.Sprint(q.n), "X-M", fmt.Sprint(q.m))
	if q.gz {
		h = append(h, HV{"Accept-Encoding", "gzip"})
	}
	if q.xrid {
		h = append(h, HV{"X-Request-Id", q.id}, HV{"X-Own", "1"})
	}
	if len(q.id)%4 == 0 {
		h = append(h, HV{"X-Request-Debug", "true"})
	}
	if q.tok != "" {
		h = append(h, HV{"Authorization", "Bearer " + q.tok})
	}
	return h
}

func (q *mixReq) text() string {
	return reqText(q.method, q.target(), q.headers(), mixBytes("req", q.id, q.n))
}

// check judges a response: everything in it must belong to q.
func (m *mixer) check(q *mixReq, r *Resp) {
	d := J{"request": q.method + " " + q.target(), "gzip": q.gz, "code": r.Code, "headers": r.H.text(), "body": clip(r.Body)}
	m.mu.Lock()
	m.Out[fmt.Sprintf("%s%s %d", q.path, strings.SplitN(q.mode, "-", 2)[0], r.Code)]++
	m.mu.Unlock()
	if x := r.H.All("X-Request-Id"); len(x) != 1 {
		m.bad("request-id-count", d)
	} else if q.xrid {
		if x[0] != q.id {
			m.bad("foreign-request-id", d)
		}
	} else {
		m.mu.Lock()
		o, dup := m.gen[x[0]]
		m.gen[x[0]] = q.id
		m.mu.Unlock()
		if dup {
			d["other"] = o
			m.bad("request-id-not-unique", d)
		}
	}
	if q.mode == "about" {
		if r.Code != 200 {
			m.bad("about-status", d)
		}
		return
	}
	if r.Code >= 400 {
		if q.method != "HEAD" {
			if w := wrapper(r, r.Code); w != "" {
				d["why"] = w
				m.bad("error-with-foreign-content", d)
			}
		}
		if r.H.Has("X-Echo") || r.H.Has("X-Attempt") {
			m.bad("error-with-upstream-headers", d)
		}
		return
	}
	if q.mode == "denied" || q.mode == "nowhere" || q.mode == "nores" || q.mode == "dead" {
		m.bad("answered-without-upstream", d)
		return
	}
	if r.H.Get("X-Echo") != q.id || r.H.Get("Content-Type") != "text/x-"+q.id {
		m.bad("foreign-headers", d)
		return
	}
	a := r.H.Get("X-Attempt")
	if q.method != "HEAD" {
		b, err := r.decode()
		if err != nil {
			d["why"] = err.Error()
			m.bad("body-not-decodable", d)
			return
		}
		if !bytes.Equal(b, mixBytes("res"+a+"-", q.id, q.m)) {
			d["len"], d["want"] = len(b), q.m
			m.bad("foreign-body", d)
		}
	}
	// the answer to HEAD may be complete before upstream broke off
	if q.method != "HEAD" && (q.mode == "flaky" || q.mode == "late") && a == "1" {
		m.bad("aborted-attempt-delivered", d)
	}
}

// client runs reqs requests over keep-alive connections of its own, aborting some.
func (m *mixer) client(rng *rand.Rand, reqs int, slowEvery, abortEvery int) {
	var cl *Client
	defer func() {
		if cl != nil {
			cl.Close()
		}
	}()
	for i := 0; i < reqs; i++ {
		if cl == nil {
			var err error
			if cl, err = dial(m.S.Addr, m.tc); err != nil {
				m.c.Inconclusive("dial %v", err)
				return
			}
		}
		q := m.newReq(rng, slowEvery > 0 && i%slowEvery == slowEvery-1)
		if abortEvery > 0 && i%abortEvery == abortEvery-1 {
			t := q.text()
			cl.Send(t[:1+rng.Intn(len(t))])
			time.Sleep(time.Duration(rng.Intn(4)) * time.Millisecond)
			if tc, ok := cl.cn.(*net.TCPConn); ok && rng.Intn(2) == 0 {
				tc.SetLinger(0)
			}
			cl.Close()
			cl = nil
			m.c.Count("client-aborts", 1)
			continue
		}
		n := 1
		qs := []*mixReq{q}
		if rng.Intn(6) == 0 { // pipelined
			for n = 1; n < 1+rng.Intn(4); n++ {
				qs = append(qs, m.newReq(rng, false))
			}
		}
		var b strings.Builder
		for _, q := range qs {
			b.WriteString(q.text())
		}
		go cl.Send(b.String())
		for _, q := range qs {
			r, err := cl.Read(q.method, watchdog)
			if err == errWatchdog || r != nil && r.Err == errWatchdog {
				if m.S.controlOK(3) {
					m.bad("no-answer", J{"request": q.target(), "method": q.method})
				} else {
					m.c.Inconclusive("watchdog")
				}
				return
			}
			if err != nil || r.Err != nil {
				if len(qs) > 1 || i > 0 {
					// the server may close a persistent connection; the request was perhaps never read
					m.c.Count("connection-closed", 1)
				} else {
					m.bad("no-answer", J{"request": q.target(), "method": q.method, "err": fmt.Sprint(err)})
				}
				cl.Close()
				cl = nil
				break
			}
			m.check(q, r)
			m.c.Count("exchanges", 1)
			if strings.EqualFold(r.H.Get("Connection"), "close") {
				cl.Close()
				cl = nil
				break
			}
		}
	}
}

// clientH2 uses HTTP/2 over one connection, many streams at a time.
func (m *mixer) clientH2(rng *rand.Rand, reqs, streams, slowEvery, abortEvery int) {
	tr := &http.Transport{TLSClientConfig: m.tc.Clone(), ForceAttemptHTTP2: true, DisableCompression: true}
	hc := &http.Client{Transport: tr, Timeout: watchdog, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	defer tr.CloseIdleConnections()
	var wg sync.WaitGroup
	sem := make(chan bool, streams)
	for i := 0; i < reqs; i++ {
		q := m.newReq(rng, slowEvery > 0 && i%slowEvery == slowEvery-1)
		cut := time.Duration(0)
		if abortEvery > 0 && i%abortEvery == abortEvery-1 {
			cut = time.Duration(1+rng.Intn(5000)) * time.Microsecond
		}
		sem <- true
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			r, err := h2do(hc, "https://localhost:"+fmt.Sprint(m.S.Port), m.S.Addr, q, cut)
			if cut > 0 {
				m.c.Count("client-aborts", 1)
				if err != nil {
					return
				}
			}
			if err != nil {
				m.c.Count("h2-errors", 1)
				if !m.S.Alive() {
					return
				}
				m.bad("no-answer-h2", J{"request": q.target(), "method": q.method, "err": err.Error()})
				return
			}
			m.check(q, r)
			m.c.Count("exchanges-h2", 1)
		}()
	}
	wg.Wait()
}

func h2do(hc *http.Client, base, addr string, q *mixReq, cut time.Duration) (*Resp, error) {
	var body io.Reader
	if q.n > 0 {
		body = bytes.NewReader(mixBytes("req", q.id, q.n))
	}
	rq, err := http.NewRequest(q.method, base+q.target(), body)
	if err != nil {
		return nil, err
	}
	for _, h := range q.headers() {
		rq.Header.Add(h.K, h.V)
	}
	if cut > 0 {
		cc := make(chan struct{})
		rq.Cancel = cc
		time.AfterFunc(cut, func() { close(cc) })
	}
	rs, err := hc.Do(rq)
	if err != nil {
		return nil, err
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	if err != nil {
		return nil, err
	}
	out := &Resp{Proto: rs.Proto, Code: rs.StatusCode, Body: b, T: now()}
	for k, vs := range rs.Header {
		for _, v := range vs {
			out.H = append(out.H, HV{k, v})
		}
	}
	return out, nil
}

// mixer starts a server with all kinds of routes; tlsMode adds TLS with HTTP/2.
func (c *Ctx) mixer(bin string, tlsMode bool, down, up J, o StartOpt) *mixer {
	m := &mixer{c: c, att: map[string]int{}, gen: map[string]string{}, Out: map[string]int{}}
	m.Up = c.newUpstream("mix", m.upHandle)
	m.Up2 = c.newUpstream("mix2", m.upHandle)
	m.Up.keep, m.Up2.keep = false, false
	m.key = newKey("ES256", 0)
	m.key.kid = "mix"
	m.Jwks = &rotJwt{name: "mj"}
	m.Jwks.step = jsonAnswer(jwks(m.key))
	js := c.newUpstream("jwks", m.Jwks.handle)
	d := J{"readTimeoutSeconds": 10, "roundTripTimeoutSeconds": 5, "idleTimeoutSeconds": 20}
	for k, v := range down {
		d[k] = v
	}
	u := J{"readTimeoutSeconds": 1, "maxAttempts": 3, "poolSize": 64}
	for k, v := range up {
		u[k] = v
	}
	if tlsMode {
		p := newPKI()
		d = p.down(d)
		m.tc = p.client()
		o.TLS = true
	}
	m.cfg = J{"connection": J{"downstream": d, "upstream": u},
		"policies": J{"ab": A{J{"label": "a", "weight": 0.4}, J{"label": "b", "weight": 0.6}}},
		"jwt":      J{"mj": J{"alg": "ES256", "jwksUrl": fmt.Sprintf("http://127.0.0.1:%d/mj", js.Port)}},
		"routes": A{
			J{"path": "/m/", "resource": "r"}, J{"path": "/pol/", "resource": "ab", "policy": "ab"}, J{"path": "/mj/", "resource": "r", "jwt": "mj"},
			J{"path": "/dead/", "resource": "dead"}, J{"path": "/nores/", "resource": "missing"}, J{"path": "/about", "resource": "about"},
		},
		"resources": J{"r": resourceOf(m.Up), "ab": A{labelled(m.Up2, "a"), labelled(m.Up, "b")}, "dead": A{J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": c.deadPort()}}}}}
	o.Bin = bin
	m.S = c.start(m.cfg, o)
	return m
}

func (m *mixer) summary() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, n := range m.Out {
		m.c.mu.Lock()
		m.c.distinct[k] += n
		m.c.evals += n
		m.c.mu.Unlock()
	}
	b, _ := json.Marshal(m.Out)
	m.c.Sample(J{"outcomes": string(b), "late-answers": m.late.Load(), "upstream-connections": m.Up.conns.Load()})
}
