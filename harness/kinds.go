package main

import "time"

// respKind is a request to a kitchen with one kind of outcome (maxBodyBytes 1000, 3 attempts, 1s read timeout).
type respKind struct {
	name     string
	method   string
	target   string // @ = case id
	hs       Headers
	body     []byte
	steps    []Step
	code     int
	attempts int // -1 = not judged
	slow     bool
	h1       bool
}

func respKinds() []respKind {
	mine := func(extra Headers, code int, kv ...string) Step {
		return answerClose(code, append(hv(kv...), extra...), []byte("body"))
	}
	drop := func(r *UpReq, w *UpConn) { w.Reset() }
	stall := func(r *UpReq, w *UpConn) {
		select {
		case <-w.WatchPeer():
		case <-time.After(20 * time.Second):
		}
		w.Done()
	}
	own := hv("X-Request-Id", "from-upstream-1")
	ok := mine(nil, 200)
	return []respKind{
		{name: "ok", method: "GET", target: "/r/@", steps: []Step{ok}, code: 200, attempts: 1},
		{name: "ok-own", method: "GET", target: "/r/@", steps: []Step{mine(own, 200)}, code: 200, attempts: 1},
		{name: "ok-own-two", method: "GET", target: "/r/@", steps: []Step{mine(append(own, hv("x-request-id", "from-upstream-2")...), 200)}, code: 200, attempts: 1},
		{name: "ok-own-connection", method: "GET", target: "/r/@", steps: []Step{mine(append(own, hv("Connection", "close, X-Request-Id")...), 200)}, code: 200, attempts: 1},
		{name: "head", method: "HEAD", target: "/r/@", steps: []Step{mine(own, 200)}, code: 200, attempts: 1},
		{name: "post", method: "POST", target: "/r/@", body: []byte("hello"), steps: []Step{mine(own, 201)}, code: 201, attempts: 1},
		{name: "204", method: "DELETE", target: "/r/@", steps: []Step{mine(own, 204)}, code: 204, attempts: 1},
		{name: "304", method: "GET", target: "/r/@", steps: []Step{mine(own, 304)}, code: 304, attempts: 1},
		{name: "redirect", method: "GET", target: "/r/@", steps: []Step{mine(own, 302, "Location", "/elsewhere")}, code: 302, attempts: 1},
		{name: "gzip", method: "GET", target: "/r/@", hs: hv("Accept-Encoding", "gzip"), steps: []Step{mine(own, 200)}, code: 200, attempts: 1},
		{name: "4xx-own", method: "GET", target: "/r/@", steps: []Step{mine(own, 404)}, code: 404, attempts: 1},
		{name: "5xx-own", method: "POST", target: "/r/@", steps: []Step{mine(own, 500)}, code: 502, attempts: 1},
		{name: "5xx-all", method: "GET", target: "/r/@", steps: []Step{mine(own, 500)}, code: 502, attempts: 3},
		{name: "retry-5xx", method: "PUT", target: "/r/@", body: []byte("x"), steps: []Step{mine(own, 503), drop, mine(own, 200)}, code: 200, attempts: 3},
		{name: "retry-4xx", method: "GET", target: "/r/@", steps: []Step{drop, mine(own, 410)}, code: 410, attempts: 2},
		{name: "broken", method: "POST", target: "/r/@", steps: []Step{drop}, code: 502, attempts: 1},
		{name: "attempt-timeout", method: "POST", target: "/r/@", steps: []Step{stall}, code: 504, attempts: 1, slow: true},
		{name: "retry-timeout", method: "GET", target: "/r/@", steps: []Step{stall, mine(own, 200)}, code: 200, attempts: 2, slow: true},
		{name: "round-trip-timeout", method: "GET", target: "/r/@", steps: []Step{stall}, code: 504, attempts: 3, slow: true},
		{name: "not-found", method: "GET", target: "/none/@", code: 404},
		{name: "unauthorized", method: "GET", target: "/jwt/@", code: 401},
		{name: "forged", method: "GET", target: "/jwt/@", hs: hv("Authorization", "Bearer a.b.c"), code: 401},
		{name: "authorized", method: "GET", target: "/jwt/@", hs: hv("Authorization", "@token"), steps: []Step{mine(own, 200)}, code: 200, attempts: 1},
		{name: "too-large", method: "POST", target: "/r/@", body: make([]byte, 2000), code: 413},
		{name: "method", method: "PATCH", target: "/r/@", code: 400},
		{name: "bad-body", method: "POST", target: "/r/@", hs: hv("Transfer-Encoding", "chunked"), body: []byte("zz\r\n"), code: 400, h1: true},
		{name: "unmapped", method: "GET", target: "/nolabel/@", code: 503},
		{name: "no-resource", method: "GET", target: "/nores/@", code: 503},
		{name: "dead", method: "GET", target: "/dead/@", code: 502},
		{name: "about", method: "GET", target: "/about?@", code: 200},
	}
}
