package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// C06: error wrapper, code mapping, nothing of a failed upstream response leaks.

const c06secret = "LEAKED-UPSTREAM-SECRET"

// headWrapper judges the error answer to HEAD, which has headers only.
func headWrapper(r *Resp, code int) string {
	if r.Code != code {
		return fmt.Sprintf("status %d, want %d", r.Code, code)
	}
	if ct := r.H.All("Content-Type"); len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		return fmt.Sprintf("content type %q", ct)
	}
	if sv := r.H.All("Server"); len(sv) != 1 || !strings.HasPrefix(sv[0], "j8a ") {
		return fmt.Sprintf("server %q", sv)
	}
	return ""
}

func c06leak(r *Resp) string {
	for _, x := range r.H {
		if strings.Contains(x.K+x.V, c06secret) || strings.EqualFold(x.K, "X-Leak") || strings.EqualFold(x.K, "Set-Cookie") || strings.EqualFold(x.K, "WWW-Authenticate") || strings.EqualFold(x.K, "ETag") || strings.EqualFold(x.K, "Retry-After") {
			return "header " + x.K + ": " + x.V
		}
	}
	d, _ := r.decode()
	if bytes.Contains(r.Body, []byte(c06secret)) || bytes.Contains(d, []byte(c06secret)) || strings.Contains(r.Reason, c06secret) {
		return "body"
	}
	return ""
}

type badUp struct {
	name string
	st   Step
}

// badUpstreams breaks responses in ways that can never be taken for a complete one.
func badUpstreams() []badUp {
	raw := func(s string) Step { return func(r *UpReq, w *UpConn) { w.Send(s); w.Done() } }
	// to HEAD some of these are complete, so that without this Go would reuse the connection
	h := "Connection: close\r\nX-Leak: " + c06secret + "\r\n"
	return []badUp{
		{"close-at-once", func(r *UpReq, w *UpConn) { w.Done() }},
		{"reset-at-once", func(r *UpReq, w *UpConn) { w.Reset() }},
		{"partial-status", raw("HTTP/1.1 20")},
		{"status-only", raw("HTTP/1.1 200 " + c06secret + "\r\n")},
		{"partial-header", raw("HTTP/1.1 200 OK\r\n" + h + "Content-Le")},
		{"garbage", raw(c06secret + " \x00\x01\x02 not http\r\n\r\n")},
		{"bad-version", raw("HTTQ/9.x 200 OK\r\n" + h + "\r\n")},
		{"bad-status", raw("HTTP/1.1 abc OK\r\n" + h + "Content-Length: 0\r\n\r\n")},
		{"negative-status", raw("HTTP/1.1 -20 OK\r\n" + h + "Content-Length: 0\r\n\r\n")},
		{"bad-header-line", raw("HTTP/1.1 200 OK\r\n" + h + "no colon here\r\nContent-Length: 0\r\n\r\n")},
		{"bad-length", raw("HTTP/1.1 200 OK\r\n" + h + "Content-Length: 12x\r\n\r\n" + c06secret)},
		{"two-lengths", raw("HTTP/1.1 200 OK\r\n" + h + "Content-Length: 5\r\nContent-Length: 7\r\n\r\n" + c06secret)},
		{"unknown-te", raw("HTTP/1.1 200 OK\r\n" + h + "Transfer-Encoding: squash\r\n\r\n" + c06secret)},
		{"short-body", raw("HTTP/1.1 200 OK\r\n" + h + "Content-Length: 500\r\n\r\n" + c06secret)},
		{"short-chunk", raw("HTTP/1.1 200 OK\r\n" + h + "Transfer-Encoding: chunked\r\n\r\n40\r\n" + c06secret)},
		{"no-last-chunk", raw("HTTP/1.1 200 OK\r\n" + h + "Transfer-Encoding: chunked\r\n\r\n" + fmt.Sprintf("%x\r\n%s\r\n", len(c06secret), c06secret))},
		{"bad-chunk-size", raw("HTTP/1.1 200 OK\r\n" + h + "Transfer-Encoding: chunked\r\n\r\nzz\r\n" + c06secret + "\r\n0\r\n\r\n")},
		{"bad-chunk-end", raw("HTTP/1.1 200 OK\r\n" + h + "Transfer-Encoding: chunked\r\n\r\n5\r\n" + c06secret + "\r\n0\r\n\r\n")},
		{"interim-only", raw("HTTP/1.1 103 Hints\r\n" + h + "\r\n")},
		{"switching", raw("HTTP/1.1 101 Switching Protocols\r\n" + h + "Upgrade: x\r\n\r\n" + c06secret)},
		{"huge-header", raw("HTTP/1.1 200 OK\r\nX-Leak: " + strings.Repeat("x", 11<<20))},
		{"tls-alert", raw("\x15\x03\x01\x00\x02\x02\x46")},
		{"reset-in-body", func(r *UpReq, w *UpConn) {
			w.Send("HTTP/1.1 200 OK\r\n" + h + "Content-Length: 500\r\n\r\n" + c06secret)
			time.Sleep(30 * time.Millisecond)
			w.Reset()
		}},
	}
}

func init() {
	register("C06", func(c *Ctx) {
		c.rule = "every upstream status 400-599 and some beyond x method x body shape x framing, 23 ways of breaking a response, refused connections and every error the proxy raises itself; each answer must be the JSON wrapper and contain nothing of the marked upstream response; key = method x status or failure"
		bin := c.buildJ8a(false)
		rng := c.Rng("errors")
		k := c.kitchen(bin, J{"maxBodyBytes": 1000, "roundTripTimeoutSeconds": 200}, J{"readTimeoutSeconds": 100}, StartOpt{Level: "INFO"})
		k2 := c.kitchen(bin, J{"maxBodyBytes": 1000, "roundTripTimeoutSeconds": 200}, J{"readTimeoutSeconds": 100, "maxAttempts": 3}, StartOpt{Level: "INFO"})
		slow := c.kitchen(bin, J{"roundTripTimeoutSeconds": 1}, nil, StartOpt{Level: "INFO"})
		slow2 := c.kitchen(bin, nil, J{"readTimeoutSeconds": 1}, StartOpt{Level: "INFO"})
		type cs struct {
			k    *kitchen
			id   string
			m    string
			path string
			body []byte
			st   Step
			want int
			name string
			hs   Headers
		}
		var cases []cs
		add := func(k *kitchen, m, name, path string, body []byte, st Step, want int, hs Headers) {
			cases = append(cases, cs{k, fmt.Sprintf("c%d.", len(cases)), m, path, body, st, want, name, hs})
		}
		methods := []string{"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "TRACE"}
		shape := func(code int) Step {
			hs := hv("X-Leak", c06secret, "Set-Cookie", "a="+c06secret, "ETag", c06secret, "WWW-Authenticate", c06secret, "Retry-After", "5", "Content-Type", pick(rng, []string{"text/html", "application/json", "application/problem+json"}), "Server", c06secret, "X-Request-Id", c06secret)
			hs = append(hs, c.noiseResp(fmt.Sprint(rng.Int63()), "Retry-After", "Content-Type")...)
			body := []byte(strings.Repeat(c06secret+" ", rng.Intn(300)))
			if rng.Intn(4) == 0 {
				body = nil
			}
			ce := rng.Intn(4)
			if ce == 0 && len(body) > 0 {
				body = gzipBytes(body)
				hs = append(hs, HV{"Content-Encoding", "gzip"})
			} else if ce == 1 {
				hs = append(hs, HV{"Content-Encoding", "br"})
			}
			if rng.Intn(3) == 0 {
				hs = append(hs, HV{"Transfer-Encoding", "chunked"}, HV{"Connection", "close"})
				raw := httpResp(code, hs, nil)
				tail := chunked(body, []int{1 + rng.Intn(400)})
				return func(r *UpReq, w *UpConn) {
					if r.Method == "HEAD" {
						w.Send(raw)
					} else {
						w.Send(raw + tail)
					}
					w.Done()
				}
			}
			return answerClose(code, hs, body)
		}
		for rep := 0; rep < c.N(1, 12); rep++ {
			for code := 400; code < 600; code++ {
				want := code
				if code >= 500 {
					want = 502
				}
				kk := k
				if rng.Intn(2) == 0 {
					kk = k2
				}
				for _, m := range []string{"GET", methods[(code+rep)%len(methods)], pick(rng, methods)} {
					add(kk, m, fmt.Sprint(code), "/r/x", nil, shape(code), want, nil)
				}
			}
			for _, code := range []int{600, 700, 999} {
				add(k, "GET", fmt.Sprint(code), "/r/x", nil, shape(code), 502, nil)
			}
			for _, m := range methods {
				for _, b := range badUpstreams() {
					if m == "HEAD" && (strings.Contains(b.name, "chunk") || strings.Contains(b.name, "body")) {
						continue // for HEAD these are complete
					}
					kk := k
					if rng.Intn(3) == 0 {
						kk = k2
					}
					add(kk, m, b.name, "/r/x", nil, b.st, 502, nil)
				}
				add(k, m, "refused", "/dead/x", nil, nil, 502, nil)
				add(k2, m, "refused", "/dead/x", nil, nil, 502, nil)
				add(k, m, "no-route", "/none", nil, nil, 404, nil)
				add(k, m, "no-label", "/nolabel/x", nil, nil, 503, nil)
				add(k, m, "no-resource", "/nores/x", nil, nil, 503, nil)
				add(k, m, "jwt-missing", "/jwt/x", nil, nil, 401, nil)
				add(k, m, "jwt-garbage", "/jwt/x", nil, nil, 401, hv("Authorization", pick(rng, []string{"Bearer", "Bearer x.y.z", "Basic abc", "Bearer  ", "Bearer eyJ.e30."})))
				add(k, m, "too-large", "/r/x", make([]byte, 1001+rng.Intn(100)), nil, 413, nil)
			}
			for _, m := range []string{"PATCH", "PROPFIND", "FOO", "LINK", "get2"} {
				add(k, m, "bad-method", "/r/x", nil, nil, 400, nil)
			}
			add(k, "POST", "bad-chunks", "/r/x", []byte("zz\r\n\r\n"), nil, 400, hv("Transfer-Encoding", "chunked"))
			add(slow, "GET", "roundtrip", "/r/x", nil, func(r *UpReq, w *UpConn) { <-w.WatchPeer() }, 504, nil)
			add(slow2, "POST", "readtimeout", "/r/x", nil, func(r *UpReq, w *UpConn) { <-w.WatchPeer() }, 504, nil)
			add(slow2, "GET", "readtimeout-body", "/r/x", nil, func(r *UpReq, w *UpConn) {
				w.Send("HTTP/1.1 200 OK\r\nX-Leak: " + c06secret + "\r\nContent-Length: 500\r\n\r\n" + c06secret)
				<-w.WatchPeer()
			}, 504, nil)
			add(slow, "GET", "roundtrip-body", "/r/x", nil, func(r *UpReq, w *UpConn) {
				w.Send("HTTP/1.1 200 OK\r\nX-Leak: " + c06secret + "\r\nContent-Length: 500\r\n\r\n" + c06secret)
				<-w.WatchPeer()
			}, 504, nil)
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		aes := make([]string, len(cases))
		for i := range aes {
			aes[i] = pick(rng, []string{"", "gzip", "identity"})
		}
		c.Par(len(cases), 12, func(i int) {
			t := cases[i]
			if t.st != nil {
				t.k.Sc.Set(t.id, t.st)
			}
			hs := append(append(Headers{{"X-Case", t.id}}, t.hs...), c.noiseReq(t.id)...)
			if aes[i] != "" {
				hs = append(hs, HV{"Accept-Encoding", aes[i]})
			}
			r, proto, err := t.k.L.ex(i, t.m, t.path, hs, t.body)
			det := J{"proto": proto, "method": t.m, "case": t.name, "path": t.path, "want": t.want, "accept": aes[i]}
			if !c.judge("error", r, err, det) {
				return
			}
			det["code"], det["body"] = r.Code, clip(r.Body)
			w := ""
			if t.m == "HEAD" {
				w = headWrapper(r, t.want)
			} else {
				w = wrapper(r, t.want)
			}
			if w != "" {
				det["why"] = w
				c.Violate("wrapper", det)
				return
			}
			if l := c06leak(r); l != "" {
				det["leak"] = l
				c.Violate("leak", det)
				return
			}
			c.Case(t.m + " " + t.name)
			if i < 5 {
				c.Sample(det)
			}
			t.k.Up.ForgetPrefix(t.id)
		})
		for _, x := range []*kitchen{k, k2, slow, slow2} {
			c.checkHealth(x.S)
			x.L.check()
		}
	})
}
