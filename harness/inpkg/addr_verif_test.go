package j8a

// Addresses in texts: everything net/http writes about a peer, with generated addresses in every textual form.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
)

func vhV4(r *rand.Rand) string {
	o := func() int {
		return []int{0, 1, 9, 10, 19, 25, 99, 100, 127, 199, 200, 249, 250, 254, 255, r.Intn(256), r.Intn(256), r.Intn(256)}[r.Intn(18)]
	}
	return fmt.Sprintf("%d.%d.%d.%d", o(), o(), o(), o())
}

// vhV6 renders a random address in a random textual form (RFC4291 2.2).
func vhV6(r *rand.Rand) (string, string) {
	var g [8]uint16
	for i := range g {
		switch r.Intn(5) {
		case 0, 1:
		case 2:
			g[i] = uint16(r.Intn(16))
		default:
			g[i] = uint16(r.Intn(1 << 16))
		}
	}
	form := "full"
	switch r.Intn(8) {
	case 0:
		for i := range g {
			g[i] = 0
		}
		g[r.Intn(8)] = uint16(r.Intn(1 << 16))
	case 1:
		for i := 0; i < 5; i++ {
			g[i] = 0
		}
		g[5] = 0xffff
	case 2:
		g[0], g[1], g[2], g[3] = 0xfe80, 0, 0, 0
	}
	dotted := r.Intn(4) == 0
	n := 8
	if dotted {
		n = 6
	}
	var parts []string
	for i := 0; i < n; i++ {
		switch r.Intn(3) {
		case 0:
			parts = append(parts, fmt.Sprintf("%04x", g[i]))
		default:
			parts = append(parts, fmt.Sprintf("%x", g[i]))
		}
	}
	if dotted {
		form = "dotted"
		parts = append(parts, fmt.Sprintf("%d.%d.%d.%d", g[6]>>8, g[6]&255, g[7]>>8, g[7]&255))
	}
	// compress one run of zeros, or none
	var runs [][2]int
	for i := 0; i < n; i++ {
		for j := i + 1; j <= n; j++ {
			if g[j-1] != 0 {
				break
			}
			runs = append(runs, [2]int{i, j})
		}
	}
	s := strings.Join(parts, ":")
	if len(runs) > 0 && r.Intn(4) > 0 {
		c := runs[r.Intn(len(runs))]
		s = strings.Join(parts[:c[0]], ":") + "::" + strings.Join(parts[c[1]:], ":")
		form += "-compressed"
	}
	if r.Intn(3) == 0 {
		s = strings.ToUpper(s)
	}
	if r.Intn(10) == 0 {
		s += "%" + []string{"eth0", "lo", "1", "en5", "wlan0"}[r.Intn(5)]
		form += "-zone"
	}
	return s, form
}

func vhErr(r *rand.Rand, local, peer string) string {
	es := []string{"EOF", "tls: first record does not look like a TLS handshake", "remote error: tls: unknown certificate", "remote error: tls: bad certificate",
		"read tcp " + local + "->" + peer + ": read: connection reset by peer", "read tcp " + local + "->" + peer + ": i/o timeout", "write tcp " + local + "->" + peer + ": write: broken pipe",
		"tls: client offered only unsupported versions: [301 300]", "tls: client requested unsupported application protocols ([\"" + local + "\"])",
		"tls: no cipher suite supported by both client and server", "bogus greeting \"GET / HTTP/1.1\\r\\nHost: " + local + "\"", "context deadline exceeded", "local error: tls: unexpected message", "tls: unsupported SSLv2 handshake received",
		"runtime error: invalid memory address or nil pointer dereference\ngoroutine 12 [running]:\nnet/http.(*conn).serve.func1()\n\t/usr/lib/go/src/net/http/server.go:1805 +0x153\npanic(0x89cb40, 0xc4b0a0)\n\t/x/y/abc:12"}
	return es[r.Intn(len(es))]
}

func TestVerifAddr(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	runs, _ := strconv.Atoi(os.Getenv("VH_RUNS"))
	shared := &iprex{}
	var wg sync.WaitGroup
	var mu sync.Mutex
	classes := map[string]int{}
	bad := 0
	for w := 0; w < 8; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*31 + int64(w)))
			for i := 0; i < runs; i++ {
				var hosts, forms [2]string
				for k := range hosts {
					if r.Intn(3) == 0 {
						hosts[k], forms[k] = vhV4(r), "v4"
					} else {
						hosts[k], forms[k] = vhV6(r)
					}
				}
				hp := func(h string) string {
					p := []int{1, 80, 443, 8080, 65535, 1 + r.Intn(65535)}[r.Intn(6)]
					if strings.Contains(h, ":") {
						return fmt.Sprintf("[%s]:%d", h, p)
					}
					return fmt.Sprintf("%s:%d", h, p)
				}
				peer := hp(hosts[0])
				other := hp(hosts[1])
				var text, tmpl string
				switch k := r.Intn(10); k {
				case 0, 1:
					text, tmpl = peer, "host:port"
				case 2, 3:
					text, tmpl = fmt.Sprintf("http: TLS handshake error from %s: %s\n", peer, vhErr(r, other, peer)), "handshake"
				case 4:
					text, tmpl = fmt.Sprintf("http: panic serving %s: %s\n", peer, vhErr(r, other, peer)), "panic"
				case 5:
					text, tmpl = fmt.Sprintf("http2: panic serving %s: %s\n", peer, vhErr(r, other, peer)), "panic2"
				case 6:
					text, tmpl = fmt.Sprintf("http2: server: error reading preface from client %s: %s\n", peer, vhErr(r, other, peer)), "preface"
				case 7:
					text, tmpl = fmt.Sprintf("http2: server connection from %s on 0xc000123456", peer), "connection"
				case 9:
					hosts[0], forms[0] = vhV4(r), "v4"
					text = fmt.Sprintf([]string{"i'm an ip address %s", "ip %s with some other text", "ip%swith some other text", "http://%s", "http://%s:80/a", "https://%s:443", "%s.", ",%s.", "%s,", "client %s closed", "(%s)", "[%s]", "peer=%s;"}[r.Intn(13)], hosts[0])
					tmpl = "bare"
				case 8:
					text, tmpl = fmt.Sprintf("http: Accept error: accept tcp %s: accept4: too many open files; retrying in 5ms", peer), "accept"
				}
				ex := shared
				if r.Intn(5) == 0 {
					ex = &iprex{}
				}
				got := ex.extractAddr(text)
				mu.Lock()
				classes[tmpl+" "+forms[0]]++
				if got != hosts[0] && bad < 3 {
					bad++
					j, _ := json.Marshal(map[string]interface{}{"what": "wrong-address", "detail": fmt.Sprintf("%q in %q, want %q", got, text, hosts[0])})
					fmt.Printf("\nVHBAD %s\n", j)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	j, _ := json.Marshal(classes)
	fmt.Printf("\nVHDONE %s\n", j)
}
