package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C31: framing on persistent connections.

// strictLine reads one line that must end in CRLF.
func strictLine(br *bufio.Reader) (string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		if l != "" {
			return "", fmt.Errorf("line cut off %q: %w", l, err)
		}
		return "", err
	}
	if !strings.HasSuffix(l, "\r\n") {
		return "", fmt.Errorf("line without CR %q", l)
	}
	return l[:len(l)-2], nil
}

func isTchar(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || strings.IndexByte("!#$%&'*+-.^_`|~", b) >= 0
}

func strictHeaders(br *bufio.Reader) (Headers, error) {
	var h Headers
	for {
		l, err := strictLine(br)
		if err != nil {
			return nil, err
		}
		if l == "" {
			return h, nil
		}
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			return nil, fmt.Errorf("malformed header line %q", l)
		}
		for j := 0; j < i; j++ {
			if !isTchar(l[j]) {
				return nil, fmt.Errorf("malformed header name %q", l)
			}
		}
		for j := i + 1; j < len(l); j++ {
			if l[j] < ' ' && l[j] != '\t' || l[j] == 0x7f {
				return nil, fmt.Errorf("control character in header %q", l)
			}
		}
		h = append(h, HV{l[:i], strings.Trim(l[i+1:], " \t")})
	}
}

func hasToken(h Headers, k, tok string) bool {
	for _, v := range h.All(k) {
		for _, p := range strings.Split(v, ",") {
			if strings.EqualFold(strings.TrimSpace(p), tok) {
				return true
			}
		}
	}
	return false
}

// strictResponse reads one response to method; io.EOF only before its first byte.
func strictResponse(br *bufio.Reader, method string) (*Resp, error) {
	r := &Resp{}
	for first := true; ; first = false {
		l, err := strictLine(br)
		if err != nil {
			if !first && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return nil, err
		}
		if len(l) < 13 || !(strings.HasPrefix(l, "HTTP/1.1 ") || strings.HasPrefix(l, "HTTP/1.0 ")) || l[12] != ' ' {
			return nil, fmt.Errorf("malformed status line %q", l)
		}
		r.Proto = l[:8]
		r.Reason = l[13:]
		if r.Code, err = strconv.Atoi(l[9:12]); err != nil || r.Code < 100 {
			return nil, fmt.Errorf("malformed status line %q", l)
		}
		if r.H, err = strictHeaders(br); err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return nil, err
		}
		if r.Code/100 == 1 && r.Code != 101 {
			if r.H.Has("Content-Length") || r.H.Has("Transfer-Encoding") {
				return nil, fmt.Errorf("framing in interim response %v", r.H.text())
			}
			r.Interim = append(r.Interim, r.Code)
			continue
		}
		break
	}
	cls, tes := r.H.All("Content-Length"), r.H.All("Transfer-Encoding")
	if len(cls) > 1 || len(tes) > 1 || len(cls) == 1 && len(tes) == 1 {
		return nil, fmt.Errorf("ambiguous framing %v", r.H.text())
	}
	n := -1
	if len(cls) == 1 {
		for _, ch := range cls[0] {
			if ch < '0' || ch > '9' {
				return nil, fmt.Errorf("content length %q", cls[0])
			}
		}
		var err error
		if n, err = strconv.Atoi(cls[0]); err != nil || n > 1<<30 && method != "HEAD" {
			return nil, fmt.Errorf("content length %q", cls[0])
		}
	}
	if len(tes) == 1 && (!strings.EqualFold(tes[0], "chunked") || r.Proto == "HTTP/1.0") {
		return nil, fmt.Errorf("transfer encoding %q in %s", tes[0], r.Proto)
	}
	var err error
	switch {
	case method == "HEAD" || r.Code == 204 || r.Code == 304:
		r.Framing = "none"
	case len(tes) == 1:
		r.Framing = "chunked"
		for {
			var l string
			if l, err = strictLine(br); err != nil {
				break
			}
			var sz int64
			if sz, err = strconv.ParseInt(l, 16, 32); err != nil || sz < 0 || l[0] == '+' || l[0] == '-' {
				return nil, fmt.Errorf("chunk size %q", l)
			}
			if sz == 0 {
				_, err = strictHeaders(br)
				break
			}
			b := make([]byte, sz+2)
			if _, err = io.ReadFull(br, b); err != nil {
				break
			}
			if string(b[sz:]) != "\r\n" {
				return nil, fmt.Errorf("chunk end %q", b[sz:])
			}
			r.Body = append(r.Body, b[:sz]...)
		}
	case n >= 0:
		r.Framing = "length"
		r.Body = make([]byte, n)
		_, err = io.ReadFull(br, r.Body)
	default:
		r.Framing = "close"
		r.Body, err = io.ReadAll(br)
	}
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return nil, fmt.Errorf("in %s body of %d %v: %w", r.Framing, r.Code, r.H.text(), err)
	}
	return r, nil
}

// one request of a history
type frq struct {
	id, kind, method string
	text             []byte
	ver              string
	closes           bool // client announces close
	reject           bool // net/http or j8a may answer it and hang up
	noID             bool // answered before any handler
	expectWait       bool
	body             []byte // sent after 100 (Continue)
	// what upstream answers
	code    int
	rh      Headers
	rbody   []byte // entity
	wire    []byte // as on upstream's wire, nil = length framing
	interim int
	plain   bool // body must equal rbody
	headLen int  // HEAD: upstream's length, -1 not judged
	own     int  // answered by j8a itself with this status
	gz      bool
	split   []int
}

var frCodes = []int{200, 200, 200, 200, 201, 202, 203, 204, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 304, 307, 308, 400, 401, 404, 405, 407, 409, 410, 416, 418, 426, 429, 451, 500, 503}

// genFrq makes a request with all that belongs to it.
func genFrq(rng *rand.Rand, id string) *frq {
	q := &frq{id: id, ver: "HTTP/1.1", headLen: -1}
	q.method = pick(rng, []string{"GET", "GET", "GET", "HEAD", "HEAD", "OPTIONS", "PUT", "DELETE", "POST", "POST", "TRACE"})
	q.code = pick(rng, frCodes)
	n := pick(rng, []int{0, 0, 1, 2, 10, 100, 1023, 1024, 2047, 2048, 2049, 4096, 4097, 20000, 70000})
	if n > 0 {
		q.rbody = mixBytes("fr", id, n)
	}
	if rng.Intn(6) == 0 && n > 30 {
		// bodies that look like responses
		q.rbody = []byte(strings.Repeat("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", n/38+1))[:n]
	}
	hs := hv("X-Case", id, "X-Request-Id", id)
	target := "/r/" + id
	q.kind = "proxied"
	switch rng.Intn(18) {
	case 0:
		target, q.own, q.kind = "/none/"+id, 404, "not-found"
	case 1:
		target, q.own, q.kind = "/jwt/"+id, 401, "unauthorized"
	case 2:
		target, q.own, q.kind = "/about?"+id, 200, "about"
	case 3:
		q.method, q.own, q.kind = pick(rng, []string{"PATCH", "PROPFIND", "PURGE"}), 400, "method"
	case 4:
		target, q.own, q.kind = "/dead/"+id, 502, "dead"
	}
	switch rng.Intn(5) {
	case 0:
		hs = append(hs, HV{"Accept-Encoding", "gzip"})
		q.gz = true
	case 1:
		hs = append(hs, HV{"Accept-Encoding", "gzip;q=0, identity"})
	}
	// how upstream frames it
	body := q.rbody
	if q.code == 204 || q.code == 304 {
		q.rbody, body = nil, nil
	}
	gzipUp := rng.Intn(4) == 0 && len(body) > 0
	if gzipUp {
		body = gzipBytes(body)
		q.rh = append(q.rh, HV{"Content-Encoding", "gzip"})
	}
	switch k := rng.Intn(6); {
	case q.code == 304 && k < 3:
		q.rh = append(q.rh, HV{"Content-Length", "1234"})
	case q.code == 204 || q.code == 304:
	case k == 0:
		q.rh = append(q.rh, HV{"Transfer-Encoding", "chunked"})
		q.wire = []byte(chunked(body, []int{1 + rng.Intn(3000)}))
	case k == 1:
		q.rh = append(q.rh, HV{"Connection", "close"}, HV{"@close", ""})
		q.wire = body
	default:
		q.rh = append(q.rh, HV{"Content-Length", fmt.Sprint(len(body))})
		q.wire = body
		if q.method == "HEAD" && q.code < 400 && (q.gz == gzipUp) {
			q.headLen = len(body)
			if rng.Intn(3) == 0 {
				// no body follows, so it may well be larger than anything this machine has
				q.headLen = pick(rng, []int{1<<31 - 1, 1 << 31, 1<<32 + rng.Intn(1<<30), 1 << 45})
				q.rh[len(q.rh)-1].V = fmt.Sprint(q.headLen)
			}
		}
	}
	if rng.Intn(8) == 0 {
		q.interim = pick(rng, []int{100, 102, 103})
	}
	q.plain = q.own == 0 && q.code < 400 && q.method != "HEAD" && q.code != 204 && q.code != 304
	// the request's own body
	var rb []byte
	if rng.Intn(3) == 0 || q.method == "POST" {
		rb = mixBytes("rq", id, pick(rng, []int{1, 5, 500, 4096, 10000, 29999, 30000}))
		if rng.Intn(5) == 0 {
			rb = []byte(strings.Repeat("GET /smuggled HTTP/1.1\r\nHost: x\r\n\r\n", 20))
		}
	}
	chunkedBody := false
	switch rng.Intn(14) {
	case 0:
		q.ver = "HTTP/1.0"
		if rng.Intn(2) == 0 {
			hs = append(hs, HV{"Connection", "keep-alive"})
		} else {
			q.closes = true
		}
	case 1:
		if rng.Intn(3) == 0 {
			hs = append(hs, HV{"Connection", pick(rng, []string{"close", "Close", "x, close"})})
			q.closes = true
		}
	case 2:
		rb = mixBytes("big", id, pick(rng, []int{30001, 60000, 300000, 700000}))
		q.kind += " too-large"
		q.reject = true
	case 3:
		if len(rb) > 0 {
			hs = append(hs, HV{"Expect", "100-continue"})
			q.expectWait = true
		}
	}
	if len(rb) > 0 && q.ver == "HTTP/1.1" && rng.Intn(3) == 0 {
		chunkedBody = true
		hs = append(hs, HV{"Transfer-Encoding", "chunked"})
		rb = []byte(chunked(rb, []int{1 + rng.Intn(4000)}))
	}
	t := reqText(q.method, target, hs, rb)
	if q.ver == "HTTP/1.0" {
		t = strings.Replace(t, " HTTP/1.1\r\n", " HTTP/1.0\r\n", 1)
	}
	// malformed in ways that end a connection
	if rng.Intn(40) == 0 {
		q.noID, q.reject, q.closes, q.own, q.expectWait = true, true, false, -1, false
		switch k := rng.Intn(7); k {
		case 0:
			t = "GET /r/x HTTP/1.1\r\nX-Case: " + id + "\r\n\r\n"
		case 1:
			t = strings.Replace(t, "X-Case: ", "X Case: ", 1)
		case 2:
			t = "GET / HTTP/3.7\r\nHost: x\r\n\r\n"
		case 3:
			t = "NONSENSE\r\n\r\n"
		case 4:
			t = reqText("POST", "/r/"+id, append(hv("X-Case", id), hv("Content-Length", "5", "Content-Length", "6")...), []byte("hello"))
		case 5:
			t = reqText("POST", "/r/"+id, append(hv("X-Case", id), hv("Transfer-Encoding", "chunky")...), []byte("hello"))
		case 6:
			t = reqText("POST", "/r/"+id, append(hv("X-Case", id), hv("Transfer-Encoding", "chunked")...), []byte("zz\r\n\r\n"))
		}
		q.kind = "malformed"
		q.plain, q.headLen = false, -1
		q.method = "GET" // what cannot be parsed has no method
		q.ver = "HTTP/1.1"
	}
	if chunkedBody {
		q.kind += " chunked-request"
	}
	q.text = []byte(t)
	if q.expectWait {
		i := bytes.Index(q.text, []byte("\r\n\r\n")) + 4
		q.body = q.text[i:]
		q.text = q.text[:i]
	}
	for i := 0; i < 3; i++ {
		q.split = append(q.split, rng.Intn(len(q.text)))
	}
	sort.Ints(q.split)
	return q
}

func init() {
	register("C31", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "random histories of up to 40 requests on one connection over HTTP and TLS, sequential, pipelined whole or in bursts, in one write or split at random points; methods, 35 statuses, bodies 0-70000 bytes, upstream framing by length, chunks or close, codings, interim responses, HTTP/1.0, Expect, close by either side, refused, oversized and malformed requests; strict parser: one response per request in order (request id, content), no stray bytes, no unannounced close; the same exchanges multiplexed over HTTP/2; key = method, status, framing, kind, pipelining"
		bin := c.buildJ8a(false)
		sc := newScripted(nil)
		up := func(r *UpReq, w *UpConn) { sc.Handle(r, w) }
		u := c.newUpstream("u", up)
		u.keep = false
		dead := freePort()
		cfg := func(down J) J {
			for k, v := range (J{"maxBodyBytes": 30000, "readTimeoutSeconds": 120, "roundTripTimeoutSeconds": 120, "idleTimeoutSeconds": 120}) {
				down[k] = v
			}
			return J{"connection": J{"downstream": down, "upstream": J{"maxAttempts": 2}},
				"jwt":       J{"hs": J{"alg": "HS256", "key": kitchenSecret}},
				"routes":    A{J{"path": "/r/", "resource": "r"}, J{"path": "/jwt", "resource": "r", "jwt": "hs"}, J{"path": "/dead", "resource": "dead"}, J{"path": "/about", "resource": "about"}},
				"resources": J{"r": resourceOf(u), "dead": A{J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": dead}}}}}
		}
		p := newPKI()
		plain := c.start(cfg(J{}), StartOpt{Bin: bin, Level: "INFO"})
		sec := c.start(cfg(p.down(J{})), StartOpt{Bin: bin, Level: "INFO", TLS: true})
		h2 := sec.h2(p.client())
		step := func(q *frq) Step {
			return func(r *UpReq, w *UpConn) {
				if q.interim > 0 {
					w.Send(fmt.Sprintf("HTTP/1.1 %d Wait\r\nX-Interim: 1\r\n\r\n", q.interim))
				}
				t := fmt.Sprintf("HTTP/1.1 %d X\r\nX-Echo: %s\r\n", q.code, q.id)
				cl := false
				for _, h := range q.rh {
					if h.K == "@close" {
						cl = true
						continue
					}
					t += h.K + ": " + h.V + "\r\n"
				}
				w.Send(t + "\r\n")
				if r.Method != "HEAD" {
					w.Conn.Write(q.wire)
				}
				if cl {
					w.Done()
				}
			}
		}
		// verify one response; "" if right
		check := func(q *frq, r *Resp, d J) string {
			d["code"], d["framing"], d["response"] = r.Code, r.Framing, r.H.text()
			if q.noID {
				if r.Code < 400 {
					return "malformed-request-accepted"
				}
				return ""
			}
			if x := r.H.All("X-Request-Id"); len(x) != 1 || x[0] != q.id {
				return "response-of-another-request"
			}
			if q.reject && r.Code == 413 {
				return ""
			}
			switch {
			case q.own > 0:
				if r.Code != q.own && !(q.reject && r.Code >= 400) {
					return "status"
				}
				if q.method == "HEAD" {
					return ""
				}
				b, err := r.decode()
				var e struct{ ServerID *string }
				if err != nil || json.Unmarshal(b, &e) != nil || e.ServerID == nil {
					d["body"] = clip(r.Body)
					return "own-body"
				}
			case q.code >= 500:
				if r.Code != 502 {
					return "status"
				}
			case r.Code != q.code:
				return "status"
			case q.code < 400 && r.H.Get("X-Echo") != q.id:
				return "foreign-response"
			}
			if q.plain {
				b, err := r.decode()
				if err != nil || !bytes.Equal(b, q.rbody) {
					d["body"] = clip(b)
					d["got"], d["want"] = len(b), len(q.rbody)
					return "body"
				}
			}
			if q.headLen >= 0 && r.H.Get("Content-Length") != fmt.Sprint(q.headLen) {
				d["want-length"] = q.headLen
				return "head-length"
			}
			return ""
		}
		var mu sync.Mutex
		counts := map[string]int{}
		history := func(i int) {
			rng := rand.New(rand.NewSource(c.Seed*100003 + int64(i)))
			s, mode := plain, "http"
			var tc *tls.Config
			if i%3 == 0 {
				s, mode = sec, "tls"
				tc = p.client()
			}
			pipe := []string{"sequential", "burst", "whole", "whole-split"}[i%4]
			k := 1 + rng.Intn(c.N(40, 80))
			var qs []*frq
			for j := 0; j < k; j++ {
				q := genFrq(rng, fmt.Sprintf("h%d-%d", i, j))
				if q.expectWait && pipe != "sequential" {
					// no waiting in pipelines
					q.text = append(q.text, q.body...)
					q.expectWait, q.body = false, nil
				}
				sc.Set(q.id, step(q))
				qs = append(qs, q)
			}
			cl, err := dial(s.Addr, tc)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			defer cl.Close()
			cl.cn.SetReadDeadline(time.Now().Add(2 * watchdog))
			go1 := make(chan bool, 1)
			next := make(chan *frq, len(qs)+1)
			stop := make(chan struct{})
			defer close(stop)
			// writer
			go func() {
				for {
					select {
					case <-stop:
						return
					case q := <-next:
						at := 0
						if pipe == "whole-split" || i%5 == 0 {
							for _, cut := range q.split {
								cl.cn.Write(q.text[at:cut])
								at = cut
								time.Sleep(time.Duration(cut%3) * 300 * time.Microsecond)
							}
						}
						if _, err := cl.cn.Write(q.text[at:]); err != nil {
							return
						}
						if q.expectWait {
							select {
							case ok := <-go1:
								if ok {
									cl.cn.Write(q.body)
								}
							case <-stop:
								return
							}
						}
					}
				}
			}()
			sent := 0
			feed := func(done int) {
				to := done + 1
				switch pipe {
				case "burst":
					if done%5 != 0 {
						return
					}
					to = done + 5
				case "whole", "whole-split":
					to = len(qs)
				}
				for ; sent < to && sent < len(qs); sent++ {
					if sent > 0 && qs[sent-1].closes && sent > done {
						return // nobody announces the end and goes on
					}
					next <- qs[sent]
				}
			}
			ended := ""
			for j, q := range qs {
				feed(j)
				d := J{"history": i, "mode": mode, "pipelining": pipe, "index": j, "kind": q.kind, "method": q.method, "version": q.ver, "upstream": fmt.Sprint(q.code, " ", q.rh.text(), " ", len(q.wire)), "request": clip(q.text)}
				if j > 0 {
					d["previous"] = clip(qs[j-1].text)
				}
				if q.expectWait {
					// an interim response comes first, or a refusal
					b, err := cl.br.Peek(12)
					if err != nil {
						d["err"] = err.Error()
						c.Violate("no-response-to-expectation", d)
						return
					}
					go1 <- string(b) == "HTTP/1.1 100"
					if string(b) != "HTTP/1.1 100" {
						q.reject = true // the body was never sent
					}
				}
				r, err := strictResponse(cl.br, q.method)
				if err != nil {
					var ne net.Error
					if errors.As(err, &ne) && ne.Timeout() {
						if !plain.controlOK(2) {
							c.Inconclusive("watchdog %v", d)
							return
						}
						c.Violate("request-not-answered", d)
						return
					}
					for _, x := range qs[j:max(j, sent)] {
						if x.reject && errors.Is(err, syscall.ECONNRESET) {
							// who hangs up on unread data may lose answers under way
							c.Count("undecided_resets", 1)
							return
						}
					}
					d["err"] = err.Error()
					switch {
					case err == io.EOF || errors.Is(err, syscall.ECONNRESET) && !strings.Contains(err.Error(), "in "):
						c.Violate("closed-unannounced", d)
					default:
						c.Violate("out-of-sync", d)
					}
					return
				}
				if why := check(q, r, d); why != "" {
					c.Violate(why, d)
					return
				}
				cls := hasToken(r.H, "Connection", "close") || r.Proto == "HTTP/1.0" && !hasToken(r.H, "Connection", "keep-alive") || r.Framing == "close"
				if q.ver == "HTTP/1.0" && !hasToken(r.H, "Connection", "keep-alive") {
					cls = true
				}
				c.Case(fmt.Sprintf("%s %d %s %s %s", q.method, r.Code, r.Framing, q.kind, pipe))
				mu.Lock()
				counts["responses"]++
				counts["interim"] += len(r.Interim)
				if len(qs) > 1 && j > 0 {
					counts["responses on used connections"]++
				}
				mu.Unlock()
				if cls || q.closes {
					ended = map[bool]string{true: "server", false: "client"}[cls]
					break
				}
			}
			if ended == "" {
				// nothing more may come: the next bytes answer the next request
				id := fmt.Sprintf("h%d-last", i)
				q := &frq{id: id, kind: "last", method: "GET", ver: "HTTP/1.1", headLen: -1, own: 404, text: []byte(reqText("GET", "/none", hv("X-Request-Id", id, "Connection", "close"), nil))}
				d := J{"history": i, "mode": mode, "pipelining": pipe, "kind": "last", "previous": clip(qs[len(qs)-1].text)}
				cl.cn.Write(q.text)
				r, err := strictResponse(cl.br, "GET")
				if err != nil {
					d["err"] = err.Error()
					c.Violate("out-of-sync", d)
					return
				}
				if why := check(q, r, d); why != "" {
					c.Violate(why, d)
					return
				}
				ended = "client"
			}
			// then only the end
			cl.cn.SetReadDeadline(time.Now().Add(watchdog))
			b, err := io.ReadAll(io.LimitReader(cl.br, 1000))
			d := J{"history": i, "mode": mode, "pipelining": pipe, "announced-by": ended}
			if len(b) > 0 {
				d["got"] = clip(b)
				c.Violate("bytes-after-close-was-announced", d)
				return
			}
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				if !plain.controlOK(2) {
					c.Inconclusive("watchdog %v", d)
					return
				}
				c.Violate("not-closed-although-announced", d)
				return
			}
			mu.Lock()
			counts["histories"]++
			mu.Unlock()
		}
		c.Par(c.N(4000, 40000), 24, history)
		// HTTP/2
		c.Par(c.N(2500, 20000), 48, func(i int) {
			rng := rand.New(rand.NewSource(c.Seed*100019 + int64(i)))
			q := genFrq(rng, fmt.Sprintf("x%d", i))
			if q.kind == "malformed" || q.ver == "HTTP/1.0" || q.reject || q.own > 0 {
				return
			}
			sc.Set(q.id, step(q))
			var hs Headers
			hs = append(hs, hv("X-Case", q.id, "X-Request-Id", q.id)...)
			if q.gz {
				hs = append(hs, HV{"Accept-Encoding", "gzip"})
			}
			var body []byte
			if q.method == "POST" || q.method == "PUT" {
				body = mixBytes("rq", q.id, 1+rng.Intn(30000))
			}
			r, err := h2.ex(q.method, "/r/"+q.id, hs, body)
			d := J{"mode": "h2", "kind": q.kind, "method": q.method, "upstream": fmt.Sprint(q.code, " ", q.rh.text(), " ", len(q.wire))}
			if !c.judge("h2", r, err, d) {
				return
			}
			if (q.method == "HEAD" || r.Code == 204 || r.Code == 304) && len(r.Body) > 0 {
				c.Violate("body-without-place", d)
				return
			}
			if cl := r.H.Get("Content-Length"); cl != "" && q.method != "HEAD" && r.Code != 304 && cl != fmt.Sprint(len(r.Body)) {
				c.Violate("length", d)
				return
			}
			if why := check(q, r, d); why != "" {
				c.Violate(why, d)
				return
			}
			c.Case(fmt.Sprintf("h2 %s %d %s", q.method, r.Code, q.kind))
			c.Count("h2_exchanges", 1)
		})
		for k, n := range counts {
			c.Count(strings.ReplaceAll(k, " ", "_"), n)
		}
		c.checkHealth(plain)
		c.checkHealth(sec)
	})
}
