package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// C12: a response broken off at any byte never counts as that response.
func init() {
	register("C12", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "responses in 5 framings x every cut position (status line, headers, body, chunk lines, trailer) x FIN, RST; GET must get the answer of the second attempt, POST a 502, never a byte of the broken response; plus framing corruptions at each chunk line; key = framing x how x method x position"
		c.assume = []string{"close-delimited responses cannot be told from truncated ones and are excluded", "a chunked response lacking only the final CRLF may be judged either way"}
		bin := c.buildJ8a(false)
		rng := c.Rng("cuts")
		k := c.kitchen(bin, nil, J{"maxAttempts": 2, "readTimeoutSeconds": 100}, StartOpt{Level: "INFO"})
		type cs struct {
			id, m, fr, how string
			wire           string
			cut, optional  int // cut at or after optional: either verdict
			ae             string
			pause          bool
		}
		const bad = "BROKENBYTES"
		var cases []cs
		mk := func(fr string) (string, int) {
			body := strings.Repeat(bad+".", 1+rng.Intn(4))
			if strings.HasSuffix(fr, "-big") {
				body = strings.Repeat(bad+".", 2000+rng.Intn(8000))
			}
			hd := fmt.Sprintf("HTTP/1.1 %d OK\r\nX-Broken: %s\r\nConnection: close\r\n", pick(rng, []int{200, 201, 302, 404}), bad)
			switch fr {
			case "length", "length-big":
				w := hd + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
				return w, len(w)
			case "chunked-big":
				w := hd + "Transfer-Encoding: chunked\r\n\r\n" + chunked([]byte(body), []int{1 + rng.Intn(30000), 1 + rng.Intn(9000)})
				return w, len(w) - 2
			case "gzip-big":
				g := gzipBytes(append([]byte(body), randBody(rng, 30000)...))
				w := hd + fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n%s", len(g), g)
				return w, len(w)
			case "gzip":
				g := gzipBytes([]byte(body))
				w := hd + fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n%s", len(g), g)
				return w, len(w)
			case "chunked":
				w := hd + "Transfer-Encoding: chunked\r\n\r\n" + chunked([]byte(body), []int{1 + rng.Intn(9), 1 + rng.Intn(20)})
				return w, len(w) - 2
			default: // chunked with trailer
				w := hd + "Trailer: X-Sum\r\nTransfer-Encoding: chunked\r\n\r\n" + strings.TrimSuffix(chunked([]byte(body), []int{7}), "\r\n") + "X-Sum: 1\r\n\r\n"
				return w, len(w) - 2 - len("X-Sum: 1\r\n")
			}
		}
		for rep := 0; rep < c.N(1, 6); rep++ {
			for _, fr := range []string{"length", "gzip", "chunked", "trailer", "length-big", "chunked-big", "gzip-big"} {
				for _, m := range []string{"GET", "POST"} {
					w, opt := mk(fr)
					step := 1
					for cut := 0; cut <= len(w); cut += step {
						if strings.HasSuffix(fr, "-big") {
							step = 1 + rng.Intn(len(w)/40)
							if cut < 100 {
								step = 10
							}
						}
						cases = append(cases, cs{id: fmt.Sprintf("c%d.", len(cases)), m: m, fr: fr, how: pick(rng, []string{"fin", "fin", "rst"}), wire: w, cut: cut, optional: opt, ae: pick(rng, []string{"", "gzip"}), pause: rng.Intn(8) == 0})
					}
					cases = append(cases, cs{id: fmt.Sprintf("c%d.", len(cases)), m: m, fr: fr, how: "fin", wire: w, cut: len(w), optional: opt})
				}
			}
			// corrupt framing
			body := strings.Repeat(bad, 3)
			hd := fmt.Sprintf("HTTP/1.1 200 OK\r\nX-Broken: %s\r\nConnection: close\r\n", bad)
			ch := fmt.Sprintf("%x\r\n%s\r\n", len(body), body)
			for name, w := range map[string]string{
				"size-nonhex": hd + "Transfer-Encoding: chunked\r\n\r\n" + ch + "xy\r\n" + ch + "0\r\n\r\n",
				"size-short":  hd + "Transfer-Encoding: chunked\r\n\r\n" + ch + "5\r\n" + body + "\r\n0\r\n\r\n",
				"size-long":   hd + "Transfer-Encoding: chunked\r\n\r\n" + ch + fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(body)+3, body),
				"size-empty":  hd + "Transfer-Encoding: chunked\r\n\r\n" + ch + "\r\n" + body + "\r\n0\r\n\r\n",
				"size-neg":    hd + "Transfer-Encoding: chunked\r\n\r\n-5\r\n" + body + "\r\n0\r\n\r\n",
				"size-over":   hd + "Transfer-Encoding: chunked\r\n\r\nfffffffffffffffff\r\n" + body + "\r\n0\r\n\r\n",
				"len-nonnum":  hd + "Content-Length: abc\r\n\r\n" + body,
				"len-neg":     hd + "Content-Length: -5\r\n\r\n" + body,
				"len-two":     hd + "Content-Length: 5\r\nContent-Length: 6\r\n\r\n" + body,
				"len-over":    hd + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body)+1, body),
				"len-huge":    hd + "Content-Length: 99999999999999999999999\r\n\r\n" + body,
				"te-unknown":  hd + "Transfer-Encoding: frob\r\n\r\n" + body,
				"te-list":     hd + "Transfer-Encoding: gzip, chunked\r\n\r\n" + ch + "0\r\n\r\n",
				"header-nul":  "HTTP/1.1 200 OK\r\nX-Broken\x00: a\r\nContent-Length: 3\r\nConnection: close\r\n\r\nabc",
			} {
				for _, m := range []string{"GET", "POST"} {
					cases = append(cases, cs{id: fmt.Sprintf("c%d.", len(cases)), m: m, fr: name, how: "corrupt", wire: w, cut: len(w), optional: len(w) + 1})
				}
			}
		}
		rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
		c.Par(len(cases), 24, func(i int) {
			t := cases[i]
			k.Sc.Set(t.id, func(r *UpReq, w *UpConn) {
				w.Send(t.wire[:t.cut])
				if t.pause {
					time.Sleep(20 * time.Millisecond)
				}
				if t.how == "rst" && t.cut < len(t.wire) {
					if !t.pause {
						time.Sleep(2 * time.Millisecond)
					}
					w.Reset()
				} else {
					w.Done()
				}
			}, answerClose(200, hv("X-Good", t.id), []byte("good"+t.id)))
			hs := append(hv("X-Case", t.id), c.noiseReq(t.id)...)
			if t.ae != "" {
				hs = append(hs, HV{"Accept-Encoding", t.ae})
			}
			r, proto, err := k.L.ex(i, t.m, "/r/x", hs, nil)
			d := J{"proto": proto, "method": t.m, "framing": t.fr, "how": t.how, "cut": t.cut, "of": len(t.wire)}
			if !c.judge("cut", r, err, d) {
				return
			}
			n := len(k.Up.ForCase(t.id))
			d["code"], d["attempts"], d["body"] = r.Code, n, clip(r.Body)
			dec, derr := r.decode()
			leaked := bytes.Contains(r.Body, []byte(bad)) || bytes.Contains(dec, []byte(bad)) || r.H.Has("X-Broken") || derr != nil
			complete := t.cut == len(t.wire) && t.how != "corrupt"
			if complete {
				// control: this one has to be delivered
				if n != 1 || r.Code >= 500 || (r.Code < 400 && !r.H.Has("X-Broken")) {
					c.Violate("complete-response-not-delivered", d)
					return
				}
				c.Case("complete " + t.fr + " " + t.m)
				return
			}
			if t.cut >= t.optional && n == 1 && r.Code < 500 {
				c.Case("optional " + t.fr + " " + t.m)
				return
			}
			if leaked {
				c.Violate("broken-response-delivered", d)
				return
			}
			if t.m == "GET" {
				if n != 2 || r.Code != 200 || r.H.Get("X-Good") != t.id || string(dec) != "good"+t.id {
					c.Violate("broken-response-not-retried", d)
					return
				}
			} else {
				if w := wrapper(r, 502); n != 1 || w != "" {
					d["why"] = w
					c.Violate("broken-response-not-502", d)
					return
				}
			}
			pos := t.cut
			if t.fr == "length-big" {
				pos = t.cut / 1000
			}
			c.Case(fmt.Sprintf("%s %s %s @%d", t.fr, t.how, t.m, pos))
			if i < 5 {
				c.Sample(d)
			}
			k.Up.ForgetPrefix(t.id)
		})
		c.bigCuts(k.Sc, k.Up, "/r/", k.S.ex)
		c.checkHealth(k.S)
		k.L.check()
	})
}
