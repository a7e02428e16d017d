package main

import (
	"fmt"
	"time"
)

// c18odd: resources and routes that lead nowhere useful. A server may refuse to start with one of them; if it
// starts, requests to it are answered like all others.
func (c *Ctx) c18odd(bin string) {
	u := c.newUpstream("odd", func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte("odd")) })
	good := func(m J) J {
		url := J{"scheme": "http", "host": "127.0.0.1", "port": u.Port}
		for k, v := range m {
			url[k] = v
		}
		return J{"labels": A{"default"}, "url": url}
	}
	type odd struct {
		name string
		res  any
		rt   J
	}
	var odds []odd
	for _, h := range []string{"127.0.0.1 ", " 127.0.0.1", "127.0.0.1\n", "127.0.0.\t1", "\x7f", "%31", "%zz", "127.0.0.1%", "[::1", "::1", "[::1%25lo]", "127.0.0.1:1", "127.0.0.1/pre", "127.0.0.1?q", "127.0.0.1#f", "u@127.0.0.1", "u:p@127.0.0.1", "", ".", "a..b", "\\", "<host>", "\"", "{x}", "^", "|", "`", "no such host", "xn--", "*", "0", "-"} {
		odds = append(odds, odd{fmt.Sprintf("host %q", h), A{good(J{"host": h})}, nil})
	}
	for _, s := range []string{"", "HTTP", "http:", "http://", "https", "ftp", "ht tp", "1http", ":", "file", "\n"} {
		odds = append(odds, odd{fmt.Sprintf("scheme %q", s), A{good(J{"scheme": s})}, nil})
	}
	for _, p := range []any{0, 65535, 1} {
		odds = append(odds, odd{fmt.Sprint("port ", p), A{good(J{"port": p})}, nil})
	}
	odds = append(odds,
		odd{"no url", A{J{"labels": A{"default"}}}, nil}, odd{"null entry", A{nil, good(nil)}, nil}, odd{"null resource", nil, nil}, odd{"empty resource", A{}, nil},
		odd{"null labels", A{J{"labels": nil, "url": J{"scheme": "http", "host": "127.0.0.1", "port": u.Port}}}, J{"policy": "p"}},
		odd{"policy unknown", A{good(nil)}, J{"policy": "unknown"}}, odd{"policy empty", A{good(nil)}, J{"policy": "empty"}}, odd{"policy zero", A{good(nil)}, J{"policy": "zero"}}, odd{"policy null", A{good(nil)}, J{"policy": "null"}}, odd{"policy no label", A{good(nil)}, J{"policy": "nolabel"}},
	)
	for _, t := range []string{"/%zz", "/%", "/\n", "/\x7f", "/a b", "/\\", "/?", "/#", "/é", "//", "/..", "/{}"} {
		odds = append(odds, odd{fmt.Sprintf("transform %q", t), A{good(nil)}, J{"transform": t}})
	}
	c.Par(len(odds), 12, func(i int) {
		o := odds[i]
		rt := J{"path": "/odd/", "resource": "odd"}
		for k, v := range o.rt {
			rt[k] = v
		}
		cfg := J{"connection": J{"upstream": J{"maxAttempts": 1 + i%3, "socketTimeoutSeconds": 2}},
			"policies":  J{"p": A{J{"label": "default", "weight": 1.0}}, "empty": A{}, "zero": A{J{"label": "default", "weight": 0}}, "null": nil, "nolabel": A{J{"weight": 1.0}}},
			"routes":    A{rt, J{"path": "/ok/", "resource": "ok"}},
			"resources": J{"odd": o.res, "ok": resourceOf(u)}}
		s := c.launch(cfg, StartOpt{Bin: bin, Level: "TRACE"})
		defer s.Stop()
		if !s.WaitUp(30 * time.Second) {
			c.Case("odd " + o.name + " -> refused to start")
			return
		}
		for n, m := range []string{"GET", "POST", "HEAD", "PUT"} {
			d := J{"configuration": o.name, "method": m}
			r, err := s.ex(m, fmt.Sprintf("/odd/%d", n), hv("X-Case", fmt.Sprintf("odd%d.%d", i, n)), nil)
			if !c.judge("odd-configuration", r, err, d) {
				return
			}
			r2, err := s.ex(m, "/ok/x", nil, nil)
			if !c.judge("odd-configuration/others", r2, err, d) {
				return
			}
			c.Case(fmt.Sprintf("odd %s %s -> %d", o.name, m, r.Code))
		}
		c.checkHealth(s)
	})
}
