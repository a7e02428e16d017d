package main

import (
	"fmt"
	"strings"
	"time"
)

// Answers that do come, but after the time allowed for them. A timeout that is restarted by progress, by a retry or by
// the request body shows only with these: an upstream that never answers is given up either way.

type overdueShape struct {
	name string
	at   []time.Duration // when each part is sent, counted from the arrival of the attempt
	kind string          // how the answer is cut into these parts
	load time.Duration   // the client takes this long to send its body
	fail []time.Duration // earlier attempts answer 500 after these times
}

const ms = time.Millisecond

func overdueParts(kind, mark string, n int) []string {
	head := "HTTP/1.1 200 OK\r\nX-Marker: " + mark + "\r\nConnection: close\r\n"
	body := mark + strings.Repeat(".", 40)
	switch kind {
	case "interim":
		p := []string{}
		for i := 1; i < n; i++ {
			p = append(p, "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n\r\n")
		}
		return append(p, head+fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body))
	case "chunked":
		p := []string{head + "Transfer-Encoding: chunked\r\n\r\n"}
		for i := 1; i < n-1; i++ {
			p = append(p, fmt.Sprintf("%x\r\n%s\r\n", len(body), body))
		}
		return append(p, "0\r\n\r\n")
	case "header":
		full := head + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
		p := []string{}
		for i := 0; i < n-1; i++ {
			p = append(p, full[i*7:i*7+7])
		}
		return append(p, full[(n-1)*7:])
	case "close":
		p := []string{head + "\r\n"}
		for i := 1; i < n; i++ {
			p = append(p, body)
		}
		return p
	}
	// length
	full := fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))
	if n == 1 {
		return []string{head + full + body}
	}
	p := []string{head + full}
	for i := 1; i < n-1; i++ {
		p = append(p, body[i-1:i])
	}
	return append(p, body[n-2:])
}

// overdue runs the shapes; limit is for messages only. Every one of them must end in 504, with want attempts for
// repeatable methods (0: any number).
func (c *Ctx) overdue(k *kitchen, what string, limit time.Duration, shapes []overdueShape, want int) {
	rng := c.Rng("overdue " + what)
	type cs struct {
		sh    overdueShape
		m     string
		lane  int
		extra time.Duration
	}
	var cases []cs
	for rep := 0; rep < c.N(1, 6); rep++ {
		for _, sh := range shapes {
			for _, m := range []string{"GET", "POST", pick(rng, []string{"PUT", "DELETE", "OPTIONS"})} {
				if (m == "POST" && len(sh.fail) > 0) || (sh.load > 0 && m != "POST" && m != "PUT") {
					continue
				}
				cases = append(cases, cs{sh: sh, m: m, lane: rng.Intn(4), extra: time.Duration(rng.Intn(100)) * ms})
			}
		}
	}
	c.Par(len(cases), 60, func(i int) {
		t := cases[i]
		for try := 0; ; try++ {
			id := fmt.Sprintf("od%s%d.%d.", strings.ReplaceAll(what, " ", ""), i, try)
			parts := overdueParts(t.sh.kind, id, len(t.sh.at))
			late := func(r *UpReq, w *UpConn) {
				start := time.Now()
				for j, p := range parts {
					d := t.sh.at[j]
					if j == len(parts)-1 {
						d += t.extra
					}
					time.Sleep(time.Until(start.Add(d)))
					w.Send(p)
				}
				w.Done()
			}
			var steps []Step
			for _, f := range t.sh.fail {
				f := f
				steps = append(steps, func(r *UpReq, w *UpConn) {
					time.Sleep(f)
					answerClose(500, nil, nil)(r, w)
				})
			}
			for j := 0; j < 8; j++ {
				steps = append(steps, late)
			}
			k.Sc.Set(id, steps...)
			var r *Resp
			var err error
			proto := "h1"
			if t.sh.load > 0 {
				r, err = slowUpload(k.S, t.m, "/r/x", hv("X-Case", id), t.sh.load)
			} else {
				r, proto, err = k.L.ex(t.lane, t.m, "/r/x", hv("X-Case", id), nil)
			}
			d := J{"proto": proto, "limit": what + " " + limit.String(), "shape": t.sh.name, "parts-at": fmt.Sprint(t.sh.at), "method": t.m, "earlier": fmt.Sprint(t.sh.fail), "upload": t.sh.load.String()}
			if r == nil && err != errNoAnswer && try < 2 {
				continue // the server may be descheduled beyond its write deadline
			}
			if !c.judge("overdue", r, err, d) {
				return
			}
			n := len(k.Up.ForCase(id))
			k.Up.ForgetPrefix(id)
			d["code"], d["attempts"], d["body"] = r.Code, n, clip(r.Body)
			sig := ""
			switch {
			case r.Code != 504:
				sig = "overdue-answer-delivered"
			case wrapper(r, 504) != "":
				sig, d["why"] = "overdue-wrapper", wrapper(r, 504)
			case want > 0 && t.m != "POST" && n != want+len(t.sh.fail):
				sig = "overdue-attempt-not-counted-as-failed"
			}
			if sig != "" {
				// timers of a process that gets no time are late: only what happens three times running counts
				if try < 2 {
					continue
				}
				c.Violate(sig, d)
				return
			}
			c.Count("overdue_answers", 1)
			c.Case(fmt.Sprintf("overdue %s %s %s %s", what, t.sh.name, t.m, proto))
			return
		}
	})
}

// overdueShapes for a limit of 2 s; the last part comes well after it.
func overdueShapes() []overdueShape {
	end := 2800 * ms
	return []overdueShape{
		{name: "whole", kind: "length", at: []time.Duration{end}},
		{name: "header-then-body", kind: "length", at: []time.Duration{1300 * ms, end}},
		{name: "early-header", kind: "length", at: []time.Duration{0, end}},
		{name: "header-and-body-pieces", kind: "length", at: []time.Duration{700 * ms, 1400 * ms, 2100 * ms, end}},
		{name: "header-pieces", kind: "header", at: []time.Duration{500 * ms, 1200 * ms, 1900 * ms, end}},
		{name: "chunks", kind: "chunked", at: []time.Duration{600 * ms, 1200 * ms, 1800 * ms, 2300 * ms, end}},
		{name: "late-last-chunk", kind: "chunked", at: []time.Duration{100 * ms, 200 * ms, end}},
		{name: "interim", kind: "interim", at: []time.Duration{900 * ms, 1700 * ms, end}},
		{name: "close-delimited", kind: "close", at: []time.Duration{400 * ms, 1500 * ms, end}},
	}
}
