package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C23: TLS mode.

type hello struct {
	legacy   uint16
	recVer   uint16
	versions []uint16 // supported_versions, nil = no extension
	suites   []uint16
	groups   []uint16
	sigs     []uint16
	alpn     []string
	sni      string
	noExt    bool
}

func u16s(xs []uint16) []byte {
	var b []byte
	for _, x := range xs {
		b = binary.BigEndian.AppendUint16(b, x)
	}
	return b
}

func vec(n int, b []byte) []byte {
	l := make([]byte, 4)
	binary.BigEndian.PutUint32(l, uint32(len(b)))
	return append(l[4-n:], b...)
}

func (h hello) bytes(r *rand.Rand) []byte {
	b := binary.BigEndian.AppendUint16(nil, h.legacy)
	b = append(b, randBytes(r, 32)...)
	b = append(b, vec(1, nil)...)
	b = append(b, vec(2, u16s(h.suites))...)
	b = append(b, vec(1, []byte{0})...)
	if !h.noExt {
		var e []byte
		ext := func(id uint16, d []byte) {
			e = binary.BigEndian.AppendUint16(e, id)
			e = append(e, vec(2, d)...)
		}
		if h.sni != "" {
			ext(0, vec(2, append([]byte{0}, vec(2, []byte(h.sni))...)))
		}
		ext(10, vec(2, u16s(h.groups)))
		ext(11, vec(1, []byte{0}))
		ext(13, vec(2, u16s(h.sigs)))
		if h.versions != nil {
			ext(43, vec(1, u16s(h.versions)))
			ext(51, vec(2, nil))
		}
		if h.alpn != nil {
			var a []byte
			for _, p := range h.alpn {
				a = append(a, vec(1, []byte(p))...)
			}
			ext(16, vec(2, a))
		}
		b = append(b, vec(2, e)...)
	}
	hs := append([]byte{1}, vec(3, b)...)
	rec := binary.BigEndian.AppendUint16([]byte{22}, h.recVer)
	return append(rec, vec(2, hs)...)
}

// serverHello reads the server's reaction: "alert", "closed", or the version and suite it selected.
func serverHello(cn net.Conn) (string, uint16, uint16) {
	cn.SetReadDeadline(time.Now().Add(20 * time.Second))
	br := bufio.NewReader(cn)
	h := make([]byte, 5)
	if _, err := io.ReadFull(br, h); err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return "silent", 0, 0
		}
		return "closed", 0, 0
	}
	p := make([]byte, int(binary.BigEndian.Uint16(h[3:])))
	io.ReadFull(br, p)
	if h[0] == 21 {
		return "alert", 0, 0
	}
	if h[0] != 22 || len(p) < 39 || p[0] != 2 {
		return "other", 0, 0
	}
	v := binary.BigEndian.Uint16(p[4:])
	sl := int(p[38])
	if len(p) < 39+sl+3 {
		return "other", 0, 0
	}
	su := binary.BigEndian.Uint16(p[39+sl:])
	e := p[39+sl+3:]
	if len(e) > 2 {
		e = e[2:]
		for len(e) >= 4 {
			id, n := binary.BigEndian.Uint16(e), int(binary.BigEndian.Uint16(e[2:]))
			if len(e) < 4+n {
				break
			}
			if id == 43 && n == 2 {
				v = binary.BigEndian.Uint16(e[4:])
			}
			e = e[4+n:]
		}
	}
	return "hello", v, su
}

func strongChoice(v, s uint16) bool {
	switch v {
	case tls.VersionTLS12:
		switch s {
		case tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384:
			return true
		}
	case tls.VersionTLS13:
		return s == tls.TLS_AES_128_GCM_SHA256 || s == tls.TLS_AES_256_GCM_SHA384 || s == tls.TLS_CHACHA20_POLY1305_SHA256
	}
	return false
}

func init() {
	register("C23", func(c *Ctx) {
		c.rule = "hand-made ClientHellos (versions SSL3 to 1.3, every suite of the IANA range sampled, random lists) and real handshakes (every Go suite, curve, ALPN, resumption) against servers with RSA and EC chains; 30 response kinds over HTTP, HTTPS/1.1 and HTTP/2 compared; plaintext and mutated handshakes on the TLS port with an upstream monitor; key = handshake offer class x result, or response kind x protocol"
		c.assume = []string{"security of Go's TLS implementation itself", "a Strict-Transport-Security header sent by upstream is passed on in addition"}
		bin := c.buildJ8a(false)
		r := c.Rng("tls")
		p := newPKI()
		pe := &pki{root: issue(nil, certOpt{cn: "ec root", ca: true, ec: true, to: 3650 * 24 * time.Hour})}
		pe.inter = issue(pe.root, certOpt{cn: "ec intermediate", ca: true, ec: true, to: 1000 * 24 * time.Hour})
		pe.leaf = issue(pe.inter, certOpt{ec: true, to: 300 * 24 * time.Hour})
		lim := J{"roundTripTimeoutSeconds": 20, "maxBodyBytes": 1000}
		upc := J{"maxAttempts": 3, "readTimeoutSeconds": 1}
		kp := c.kitchen(bin, lim, upc, StartOpt{Level: "INFO"})
		kt := c.kitchen(bin, p.down(lim), upc, StartOpt{Level: "INFO", TLS: true})
		lowmode := J{"mode": "tls"}
		for a, b := range lim {
			lowmode[a] = b
		}
		ke := c.kitchen(bin, pe.down(lowmode), upc, StartOpt{Level: "INFO", TLS: true})
		servers := []struct {
			name string
			k    *kitchen
			p    *pki
		}{{"rsa", kt, p}, {"ec", ke, pe}}

		// 1. raw hellos
		var offers []hello
		base := hello{recVer: 0x0301, groups: []uint16{23, 24, 25, 29}, sigs: []uint16{0x0403, 0x0804, 0x0401, 0x0503, 0x0805, 0x0501, 0x0806, 0x0601, 0x0203, 0x0201}, sni: "localhost"}
		weak := []uint16{0x0000, 0x0001, 0x0002, 0x0004, 0x0005, 0x000a, 0x0016, 0x002f, 0x0033, 0x0035, 0x0039, 0x003c, 0x003d, 0x0067, 0x006b, 0x009c, 0x009d, 0x009e, 0x009f, 0x0084, 0x00ff,
			0xc007, 0xc009, 0xc00a, 0xc011, 0xc012, 0xc013, 0xc014, 0xc023, 0xc024, 0xc027, 0xc028, 0xc0ac, 0xcca8, 0xcca9, 0xccaa, 0x5600, 0xc018, 0x006c, 0x0034}
		strong := []uint16{0xc02b, 0xc02c, 0xc02f, 0xc030}
		add := func(h hello) { offers = append(offers, h) }
		for _, v := range []uint16{0x0200, 0x0300, 0x0301, 0x0302, 0x0303, 0x0304, 0x0305, 0x0000, 0xffff} {
			h := base
			h.legacy, h.suites = v, append(append([]uint16{}, weak...), strong...)
			add(h)
			h.noExt = true
			add(h)
			h = base
			h.legacy, h.suites, h.versions = 0x0303, append([]uint16{0x1301, 0x1302, 0x1303}, append(weak, strong...)...), []uint16{v}
			add(h)
			h.legacy = v
			add(h)
		}
		for _, s := range weak {
			h := base
			h.legacy, h.suites = 0x0303, []uint16{s}
			add(h)
			h.legacy = 0x0301
			add(h)
		}
		{
			h := base
			h.legacy, h.suites = 0x0303, weak
			add(h)
		}
		all := []uint16{}
		for i := 0; i < 0x00c6; i++ {
			all = append(all, uint16(i))
		}
		for i := 0xc001; i < 0xc0b4; i++ {
			all = append(all, uint16(i))
		}
		all = append(all, 0xcca8, 0xcca9, 0xccaa, 0xccab, 0xccac, 0xccad, 0xccae, 0xd001, 0xd002, 0x1304, 0x1305)
		for _, s := range all { // one suite at a time
			h := base
			h.legacy, h.suites = 0x0303, []uint16{s}
			add(h)
		}
		for i := 0; i < c.N(300, 6000); i++ {
			h := base
			h.legacy = pick(r, []uint16{0x0301, 0x0302, 0x0303, 0x0303, 0x0303})
			for n := 1 + r.Intn(12); n > 0; n-- {
				h.suites = append(h.suites, pick(r, all))
			}
			if r.Intn(3) == 0 {
				h.suites = append(h.suites, pick(r, strong))
			}
			if r.Intn(3) == 0 {
				for n := 1 + r.Intn(4); n > 0; n-- {
					h.versions = append(h.versions, pick(r, []uint16{0x0300, 0x0301, 0x0302, 0x0303, 0x0304, 0x7f1c}))
				}
				h.suites = append(h.suites, 0x1301+uint16(r.Intn(5)))
			}
			h.groups = [][]uint16{{23}, {29}, {24, 25}, {22}, {256}, {29, 23, 24}}[r.Intn(6)]
			h.sni = pick(r, []string{"localhost", "", "other.test", "127.0.0.1"})
			add(h)
		}
		var seeds sync.Mutex
		for _, sv := range servers {
			sv := sv
			c.Par(len(offers), 32, func(i int) {
				h := offers[i]
				seeds.Lock()
				b := h.bytes(r)
				seeds.Unlock()
				cn, err := net.DialTimeout("tcp", sv.k.S.Addr, 10*time.Second)
				if err != nil {
					c.Inconclusive("dial %v", err)
					return
				}
				defer cn.Close()
				cn.Write(b)
				what, v, s := serverHello(cn)
				off := fmt.Sprintf("%s offer v%04x/%d", sv.name, h.legacy, len(h.versions))
				if what == "hello" {
					if !strongChoice(v, s) {
						c.Violate("weak-handshake", J{"server": sv.name, "offered-version": fmt.Sprintf("%04x %04x", h.legacy, h.versions), "offered-suites": fmt.Sprintf("%04x", h.suites), "selected": fmt.Sprintf("%04x %04x", v, s)})
					}
					what = fmt.Sprintf("selected %04x %04x", v, s)
				}
				c.Case(off + " -> " + what)
				c.Count("hellos", 1)
			})
		}
		// 2. real handshakes
		type hs struct {
			name string
			conf func(t *tls.Config)
			ok   int // 1 must succeed, -1 must fail, 0 open
		}
		var hss []hs
		for _, s := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
			s := s
			ok := 0
			if s.ID == tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 || s.ID == tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 {
				ok = 1
			} else if s.ID>>8 != 0x13 && s.ID != 0xc02b && s.ID != 0xc02c {
				ok = -1
			}
			if s.ID>>8 == 0x13 {
				continue
			}
			hss = append(hss, hs{"1.2 " + s.Name, func(t *tls.Config) { t.MaxVersion, t.CipherSuites = tls.VersionTLS12, []uint16{s.ID} }, ok})
		}
		for v, n := range map[uint16]string{tls.VersionTLS10: "1.0", tls.VersionTLS11: "1.1", tls.VersionTLS12: "1.2", tls.VersionTLS13: "1.3"} {
			v, n := v, n
			ok := 1
			if v < tls.VersionTLS12 {
				ok = -1
			}
			hss = append(hss, hs{"only " + n, func(t *tls.Config) { t.MinVersion, t.MaxVersion = v, v }, ok})
			hss = append(hss, hs{"up to " + n, func(t *tls.Config) { t.MinVersion, t.MaxVersion = tls.VersionTLS10, v }, ok})
		}
		for _, cv := range []tls.CurveID{tls.CurveP256, tls.CurveP384, tls.CurveP521} {
			cv := cv
			hss = append(hss, hs{"curve " + cv.String(), func(t *tls.Config) { t.CurvePreferences = []tls.CurveID{cv} }, 1})
		}
		for _, sni := range []string{"localhost", "j8a.test"} {
			sni := sni
			hss = append(hss, hs{"sni " + sni, func(t *tls.Config) { t.ServerName = sni }, 1})
		}
		hss = append(hss, hs{"foreign sni", func(t *tls.Config) { t.ServerName, t.InsecureSkipVerify = "elsewhere.test", true }, 1},
			hs{"no sni", func(t *tls.Config) { t.ServerName, t.InsecureSkipVerify = "", true }, 1})
		for _, al := range [][]string{{"h2"}, {"http/1.1"}, {"h2", "http/1.1"}, {"http/1.1", "h2"}} {
			al := al
			hss = append(hss, hs{"alpn " + strings.Join(al, ","), func(t *tls.Config) { t.NextProtos = al }, 1})
		}
		for _, sv := range servers {
			sv := sv
			want := [][]byte{sv.p.leaf.der, sv.p.inter.der, sv.p.root.der}
			c.Par(len(hss), 16, func(i int) {
				h := hss[i]
				t := sv.p.client()
				h.conf(t)
				d := J{"server": sv.name, "handshake": h.name}
				cn, err := net.DialTimeout("tcp", sv.k.S.Addr, 10*time.Second)
				if err != nil {
					c.Inconclusive("dial %v", err)
					return
				}
				defer cn.Close()
				cn.SetDeadline(time.Now().Add(30 * time.Second))
				tc := tls.Client(cn, t)
				err = tc.Handshake()
				must := h.ok
				if sv.name == "ec" && must == 1 && (t.MaxVersion == tls.VersionTLS12 || strings.HasPrefix(h.name, "1.2")) {
					must = 0 // an EC key cannot sign for the RSA suites
				}
				res := "refused"
				if err == nil {
					cs := tc.ConnectionState()
					d["version"], d["suite"] = tls.VersionName(cs.Version), tls.CipherSuiteName(cs.CipherSuite)
					res = fmt.Sprint(d["version"], " ", d["suite"], " ", cs.NegotiatedProtocol)
					if !strongChoice(cs.Version, cs.CipherSuite) {
						c.Violate("weak-handshake", d)
					}
					var got [][]byte
					for _, x := range cs.PeerCertificates {
						got = append(got, x.Raw)
					}
					if len(got) != len(want) || !bytes.Equal(bytes.Join(got, nil), bytes.Join(want, nil)) {
						d["presented"] = subjects(cs.PeerCertificates)
						c.Violate("chain-not-as-configured", d)
					}
					// the connection works
					if cs.NegotiatedProtocol != "h2" {
						cl := &Client{tc, bufio.NewReader(tc)}
						cl.Send("GET /about HTTP/1.1\r\nHost: x\r\n\r\n")
						rp, err := cl.Read("GET", 30*time.Second)
						if err != nil || rp.Code != 200 {
							d["err"] = fmt.Sprint(err)
							c.Violate("handshake-without-service", d)
						}
					}
				}
				if must == 1 && err != nil {
					d["err"] = err.Error()
					c.Violate("handshake-refused", d)
				}
				if must == -1 && err == nil {
					c.Violate("weak-handshake", d)
				}
				c.Case(sv.name + " handshake " + h.name + " -> " + res)
				c.Count("handshakes", 1)
			})
			// resumption keeps to the same rules
			for _, mx := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
				t := sv.p.client()
				t.MaxVersion = mx
				t.ClientSessionCache = tls.NewLRUClientSessionCache(4)
				for i := 0; i < 3; i++ {
					cl, err := dial(sv.k.S.Addr, t)
					if err != nil {
						if sv.name == "rsa" || mx == tls.VersionTLS13 {
							c.Violate("handshake-refused", J{"server": sv.name, "resumption": i, "err": err.Error()})
						}
						break
					}
					cl.Send("GET /about HTTP/1.1\r\nHost: x\r\n\r\n")
					rp, err := cl.Read("GET", 30*time.Second)
					cs := cl.cn.(*tls.Conn).ConnectionState()
					if err != nil || rp.Code != 200 || !strongChoice(cs.Version, cs.CipherSuite) {
						c.Violate("resumed-session-broken", J{"server": sv.name, "err": fmt.Sprint(err)})
					}
					c.Case(fmt.Sprintf("%s resumption %v %s", sv.name, cs.DidResume, tls.VersionName(cs.Version)))
					cl.Close()
				}
			}
		}
		// 3. same behaviour over HTTP, HTTPS/1.1 and HTTP/2, HSTS on every response in TLS mode only
		kinds := respKinds()
		kinds = append(kinds, respKind{name: "rich", method: "GET", target: "/r/@?q=1&q=2", code: 200, steps: []Step{answerClose(200, hv("X-A", "1", "X-A", "2", "Set-Cookie", "a=b", "Set-Cookie", "c=d", "ETag", `"x"`, "Cache-Control", "no-store", "Content-Type", "application/json"), []byte(`{"some":"body"}`))}},
			respKind{name: "empty", method: "GET", target: "/r/@", code: 200, steps: []Step{answerClose(200, nil, nil)}},
			respKind{name: "upstream-gzip", method: "GET", target: "/r/@", code: 200, hs: hv("Accept-Encoding", "gzip"), steps: []Step{answerClose(200, hv("Content-Encoding", "gzip"), gzipBytes(bytes.Repeat([]byte("z"), 5000)))}},
			respKind{name: "about-gzip", method: "GET", target: "/about?@", hs: hv("Accept-Encoding", "gzip"), code: 200},
			respKind{name: "404-gzip", method: "GET", target: "/none/@", hs: hv("Accept-Encoding", "gzip"), code: 404})
		h2 := kt.S.h2(p.client())
		h2e := ke.S.h2(pe.client())
		tok := kp.token()
		protos := []string{"http", "https", "h2", "h2-ec"}
		var seq atomic.Int64
		rounds := c.N(4, 40)
		c.Par(rounds*len(kinds), 64, func(i int) {
			sc := kinds[i%len(kinds)]
			if sc.slow && i >= len(kinds) && !c.Thorough() {
				return
			}
			views := map[string]string{}
			var dd []J
			for _, pr := range protos {
				if sc.h1 && pr[0:2] == "h2" {
					continue
				}
				k := map[string]*kitchen{"http": kp, "https": kt, "h2": kt, "h2-ec": ke}[pr]
				id := fmt.Sprintf("e%d.", seq.Add(1))
				if len(sc.steps) > 0 {
					k.Sc.Set(id, sc.steps...)
				}
				hs := hv("X-Case", id)
				for _, h := range sc.hs {
					if h.V == "@token" {
						h.V = "Bearer " + tok
					}
					hs = append(hs, h)
				}
				target := strings.ReplaceAll(sc.target, "@", id)
				var rp *Resp
				var err error
				switch pr {
				case "http":
					rp, err = k.S.ex(sc.method, target, hs, sc.body)
				case "https":
					var cl *Client
					if cl, err = dial(k.S.Addr, p.client()); err == nil {
						go cl.Send(reqText(sc.method, target, hs, sc.body))
						rp, err = cl.Read(sc.method, watchdog)
						cl.Close()
					}
				case "h2":
					rp, err = h2.ex(sc.method, target, hs, sc.body)
				default:
					rp, err = h2e.ex(sc.method, target, hs, sc.body)
				}
				d := J{"kind": sc.name, "proto": pr, "target": target}
				if err == errWatchdog || rp != nil && rp.Err == errWatchdog {
					c.Inconclusive("watchdog %v", d)
					return
				}
				if err != nil || rp.Err != nil {
					d["err"] = fmt.Sprint(err)
					if rp != nil {
						d["err"] = fmt.Sprint(err, rp.Err)
					}
					if pr != "http" {
						c.Violate("no-response-over-tls/"+sc.name, d)
					}
					return
				}
				d["code"], d["headers"], d["body"] = rp.Code, rp.H.text(), clip(rp.Body)
				if pr[0:2] == "h2" && rp.Proto != "HTTP/2.0" {
					c.Violate("not-http2", d)
				}
				sts := rp.H.All("Strict-Transport-Security")
				if pr == "http" && len(sts) != 0 {
					c.Violate("hsts-over-http/"+sc.name, d)
				}
				if pr != "http" {
					age := 0
					if len(sts) == 1 {
						fmt.Sscanf(strings.TrimSpace(sts[0]), "max-age=%d", &age)
					}
					if age <= 0 {
						c.Violate("hsts-missing/"+sc.name, d)
					}
				}
				views[pr] = respView(sc.method, rp)
				d["view"] = views[pr]
				dd = append(dd, d)
				k.Up.ForgetPrefix(id)
				c.Case("kind " + sc.name + " " + pr)
			}
			for pr, v := range views {
				if v != views["http"] {
					c.Violate("differs-from-http/"+sc.name+"/"+pr, J{"exchanges": dd})
				}
			}
			if i%61 == 0 && len(dd) > 0 {
				c.Sample(dd[len(dd)-1])
			}
		})
		// 4. plaintext and damaged handshakes
		var plain []string
		for _, m := range []string{"GET", "POST", "CONNECT"} {
			for _, tg := range []string{"/r/", "/about", "/jwt/", "*"} {
				plain = append(plain, fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nX-Case: plaintext.\r\nContent-Length: 0\r\n\r\n", m, tg))
			}
		}
		plain = append(plain, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "GET /r/ HTTP/1.1\r\nHost: x\r\nUpgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings\r\nHTTP2-Settings: AAMAAABkAAQAAP__\r\nX-Case: plaintext.\r\n\r\n", "GET /r/ HTTP/1.0\r\n\r\n", "\r\nGET /r/ HTTP/1.1\r\nHost: x\r\n\r\n")
		good := base
		good.legacy, good.suites = 0x0303, strong
		nf := c.N(600, 8000)
		before := len(kt.Up.Reqs()) + len(ke.Up.Reqs())
		c.Par(len(plain)*2+nf, 32, func(i int) {
			sv := servers[i%2]
			rr := c.Rng(fmt.Sprintf("fuzz%d", i))
			var b []byte
			name := "plaintext"
			if i < len(plain)*2 {
				b = []byte(plain[i/2])
			} else {
				b = good.bytes(rr)
				switch rr.Intn(6) {
				case 0:
					b = b[:rr.Intn(len(b))]
					name = "cut-hello"
				case 1:
					for n := 1 + rr.Intn(6); n > 0; n-- {
						b[rr.Intn(len(b))] ^= byte(1 << rr.Intn(8))
					}
					name = "flipped-hello"
				case 2:
					b = randBytes(rr, 1+rr.Intn(400))
					name = "random"
				case 3:
					b = append(b, []byte("GET /r/ HTTP/1.1\r\nHost: x\r\n\r\n")...)
					name = "plaintext-after-hello"
				case 4:
					b = append(b, b...)
					name = "two-hellos"
				default:
					b = append([]byte{byte(20 + rr.Intn(5)), 3, byte(rr.Intn(5)), byte(rr.Intn(255)), byte(rr.Intn(255))}, randBytes(rr, rr.Intn(600))...)
					name = "odd-record"
				}
			}
			cn, err := net.DialTimeout("tcp", sv.k.S.Addr, 10*time.Second)
			if err != nil {
				c.Inconclusive("dial %v", err)
				return
			}
			cn.Write(b)
			if tcp, ok := cn.(*net.TCPConn); ok {
				tcp.CloseWrite()
			}
			cn.SetReadDeadline(time.Now().Add(20 * time.Second))
			out, _ := io.ReadAll(io.LimitReader(cn, 1<<16))
			cn.Close()
			o := string(out)
			if strings.HasPrefix(o, "HTTP/") && (strings.Contains(o, "X-Request-Id") || strings.Contains(o, "Server: ") || !strings.HasPrefix(o, "HTTP/1.0 4")) {
				c.Violate("plaintext-answered", J{"server": sv.name, "sent": clip(b), "got": clip(out)})
			}
			c.Case(name + fmt.Sprintf(" -> %d bytes", min(len(out), 8)))
			c.Count("damaged", 1)
		})
		time.Sleep(100 * time.Millisecond)
		if n := len(kt.Up.Reqs()) + len(ke.Up.Reqs()); n != before {
			c.Violate("plaintext-proxied", J{"requests": n - before})
		}
		for _, sv := range servers {
			t := sv.p.client()
			cl, err := dial(sv.k.S.Addr, t)
			if err != nil {
				c.Violate("not-serving-after-fuzz", J{"server": sv.name, "err": err.Error()})
				continue
			}
			cl.Send("GET /about HTTP/1.1\r\nHost: x\r\n\r\n")
			if rp, err := cl.Read("GET", 30*time.Second); err != nil || rp.Code != 200 {
				c.Violate("not-serving-after-fuzz", J{"server": sv.name, "err": fmt.Sprint(err)})
			}
			cl.Close()
			c.checkHealth(sv.k.S)
		}
	})
}

func subjects(xs []*x509.Certificate) []string {
	var o []string
	for _, x := range xs {
		o = append(o, x.Subject.CommonName)
	}
	return o
}

// respView is what must not depend on the protocol.
func respView(method string, r *Resp) string {
	var ls []string
	for _, h := range r.H {
		switch k := strings.ToLower(h.K); k {
		case "date", "strict-transport-security", "x-request-id", "connection", "transfer-encoding":
		case "content-length":
			if r.Code < 300 && r.Code != 204 && method != "HEAD" && !strings.Contains(string(r.Body), `"ServerID"`) && r.H.Get("Content-Encoding") != "gzip" {
				ls = append(ls, k+": "+h.V)
			}
		default:
			ls = append(ls, k+": "+h.V)
		}
	}
	sort.Strings(ls)
	b, err := r.decode()
	body := string(b)
	if err != nil {
		body = "undecodable " + err.Error()
	}
	var e errBody
	if json.Unmarshal(b, &e) == nil && e.ServerID != nil {
		body = "j8a " + *e.ServerID + *e.Version
		if e.Code != nil {
			body += fmt.Sprint(*e.Code, *e.Message)
		}
	}
	return fmt.Sprintf("%d\n%s\n%s", r.Code, strings.Join(ls, "\n"), body)
}
