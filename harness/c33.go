package main

import (
	"bufio"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strings"
	"time"
)

// C33: client addresses.

func init() {
	register("C33", func(c *Ctx) {
		c.level = "exploration"
		c.rule = "random IPv4 addresses and IPv6 addresses in every textual form (leading zeros, any run of zeros compressed, upper case, dotted tail, mapped, zone) as host:port and inside every text net/http writes about a peer, with other addresses further on; extracted concurrently from shared and new extractors; and real clients from 127.0.0.0/8 and ::1 whose handshakes and prefaces fail in seven ways, some carrying addresses of others, and whose requests are served or refused; key = text, form"
		bin, why := c.buildTest(false, "addr_verif_test.go")
		if bin == "" {
			c.Inconclusive("in-package part does not compile: %s", firstLines(why, 5))
		} else {
			lines, err := c.runTest(bin, "TestVerifAddr", 10*time.Minute, fmt.Sprintf("VH_RUNS=%d", c.N(30000, 2000000)), fmt.Sprintf("VERIF_SEED=%d", c.Seed))
			done := false
			for _, l := range lines {
				switch {
				case strings.HasPrefix(l, "VHBAD "):
					var b struct{ What, Detail string }
					json.Unmarshal([]byte(l[6:]), &b)
					c.Violate(b.What, J{"detail": b.Detail})
				case strings.HasPrefix(l, "VHDONE "):
					done = true
					m := map[string]int{}
					json.Unmarshal([]byte(l[7:]), &m)
					for k, n := range m {
						c.Case(k)
						c.Count("texts", n)
					}
				case strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: "):
					c.Violate("extractor-panic", J{"line": l})
					done = true
				}
			}
			if !done {
				c.Inconclusive("address run ended early: %v", err)
			}
		}

		// real peers
		rng := c.Rng("addr")
		j8a := c.buildJ8a(false)
		p := newPKI()
		u := c.newUpstream("u", nil)
		u.Handler = func(r *UpReq, w *UpConn) { w.Reply(r, 200, nil, []byte("x")) }
		sec := c.start(simpleCfg(p.down(J{}), nil, u), StartOpt{Bin: j8a, TLS: true})
		plain := c.start(simpleCfg(nil, nil, u), StartOpt{Bin: j8a})
		v6 := true
		if l, err := net.Listen("tcp6", "[::1]:0"); err != nil {
			v6 = false
			c.Count("no_ipv6_loopback", 1)
		} else {
			l.Close()
		}
		type peer struct{ src, dst string }
		peers := []peer{{"127.0.0.1", "127.0.0.1"}, {"127.255.255.254", "127.0.0.1"}, {"127.1.0.9", "127.0.0.1"}}
		for i := 0; i < c.N(9, 60); i++ {
			peers = append(peers, peer{fmt.Sprintf("127.%d.%d.%d", rng.Intn(256), rng.Intn(256), 1+rng.Intn(254)), "127.0.0.1"})
		}
		if v6 {
			peers = append(peers, peer{"::1", "::1"}, peer{"::1", "::1"}, peer{"::1", "::1"})
		}
		type ev struct {
			src, port, kind string
		}
		var evs []ev
		kinds := []string{"hang-up", "http", "ssl2", "alert", "old-version", "foreign-alpn", "foreign-preface", "no-cipher"}
		for i, q := range peers {
			for _, k := range kinds {
				d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(q.src)}, Timeout: 20 * time.Second}
				cn, err := d.Dial("tcp", net.JoinHostPort(q.dst, fmt.Sprint(sec.Port)))
				if err != nil {
					c.Count("peers_not_possible", 1)
					break
				}
				_, port, _ := net.SplitHostPort(cn.LocalAddr().String())
				tc := p.client()
				foreign := []string{"10.9.8.7:6543", "[2001:db8::77]:6543", "203.0.113.9:1"}[i%3]
				switch k {
				case "hang-up":
					io.WriteString(cn, "\x16\x03\x01")
				case "http":
					io.WriteString(cn, "GET / HTTP/1.1\r\nHost: "+foreign+"\r\nX-Forwarded-For: "+foreign+"\r\n\r\n")
				case "ssl2":
					io.WriteString(cn, "\x80\x2e\x01\x00\x02\x00\x15\x00\x00\x00\x10"+strings.Repeat("a", 40))
				case "alert":
					tc.RootCAs = nil
					tls.Client(cn, tc).Handshake()
				case "old-version":
					tc.MinVersion, tc.MaxVersion = tls.VersionTLS10, tls.VersionTLS11
					tls.Client(cn, tc).Handshake()
				case "foreign-alpn":
					tc.NextProtos = []string{foreign}
					tls.Client(cn, tc).Handshake()
				case "no-cipher":
					tc.MaxVersion = tls.VersionTLS12
					tc.CipherSuites = []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA}
					tls.Client(cn, tc).Handshake()
				case "foreign-preface":
					tc.NextProtos = []string{"h2"}
					t := tls.Client(cn, tc)
					if t.Handshake() == nil {
						io.WriteString(t, "GET "+foreign+" "+foreign+" x\r\n\r\nmore and more to be read as preface")
						t.SetReadDeadline(time.Now().Add(5 * time.Second))
						io.Copy(io.Discard, t)
					}
				}
				evs = append(evs, ev{q.src, port, k})
				cn.SetReadDeadline(time.Now().Add(3 * time.Second))
				if k == "http" {
					io.Copy(io.Discard, cn)
				}
				cn.Close()
			}
			// requests
			for _, target := range []string{"/ok", "/about-" + strings.ReplaceAll(foreignFor(i), ":", ".")} {
				d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(q.src)}, Timeout: 20 * time.Second}
				cn, err := d.Dial("tcp", net.JoinHostPort(q.dst, fmt.Sprint(plain.Port)))
				if err != nil {
					break
				}
				cl := &Client{cn, bufio.NewReader(cn)}
				path := fmt.Sprintf("%s/%d/%s", target, i, q.src)
				cl.Send(reqText("GET", path, hv("X-Forwarded-For", foreignFor(i), "X-Real-Ip", foreignFor(i), "Forwarded", "for="+foreignFor(i), "Connection", "close"), nil))
				cl.Read("GET", watchdog)
				cl.Close()
				ls := plain.logWait(path, 1, 20*time.Second)
				if len(ls) != 1 {
					c.Inconclusive("no access record for %s", path)
					continue
				}
				if got := ls[0].S("dwnReqRemoteAddr"); got != q.src {
					c.Violate("access-record-address", J{"client": q.src, "logged": got})
					return
				}
				c.Case("request from " + map[bool]string{true: "v6", false: "v4"}[strings.Contains(q.src, ":")])
				c.Count("requests", 1)
			}
		}
		// every event that names one of our connections
		end := time.Now().Add(20 * time.Second)
		found := map[string]bool{}
		for len(found) < len(evs)*3/4 && time.Now().Before(end) {
			time.Sleep(50 * time.Millisecond)
			ls := sec.Lines()
			for _, e := range evs {
				hp := net.JoinHostPort(e.src, e.port)
				if found[hp] {
					continue
				}
				for _, l := range ls {
					t := l.S("netEvt")
					if !strings.Contains(t, " "+hp+": ") {
						continue
					}
					found[hp] = true
					if got := l.S("dwnReqRemoteAddr"); got != e.src {
						c.Violate("event-address", J{"client": e.src, "logged": got, "event": clip([]byte(t)), "kind": e.kind})
						return
					}
					c.Case("event " + e.kind + " " + map[bool]string{true: "v6", false: "v4"}[strings.Contains(e.src, ":")])
					c.Count("network_events", 1)
				}
			}
		}
		if len(evs) > 0 && len(found) == 0 {
			c.Inconclusive("no network events seen")
		}
	})
}

func foreignFor(i int) string {
	return []string{"10.9.8.7:6543", "[2001:db8::77]:6543", "203.0.113.9"}[i%3]
}
