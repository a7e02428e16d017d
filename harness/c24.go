package main

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C24: verification of upstream certificates.

type upTLS struct {
	name  string
	host  string
	valid bool
	tc    *tls.Config
	u     *Upstream
}

func init() {
	register("C24", func(c *Ctx) {
		c.level = "fault_enumeration"
		c.rule = "upstreams with 8 valid and 25 defective certificate set-ups (the server's system roots are a root of ours) under three servers (verifying, verifying with retries, skipping) x methods x schemes as written; upstreams record every request and the first byte of every connection; key = set-up x server x method x status"
		c.assume = []string{"Go's x509 verification", "the system roots are those SSL_CERT_FILE names"}
		bin := c.buildJ8a(false)
		day := 24 * time.Hour
		lo := []net.IP{net.IPv4(127, 0, 0, 1)}
		root := issue(nil, certOpt{cn: "up root", ca: true, rsaN: 0, to: 3650 * day})
		inter := issue(root, certOpt{cn: "up inter", ca: true, rsaN: 1, to: 900 * day})
		other := issue(nil, certOpt{cn: "up root", ca: true, ec: true, to: 3650 * day}) // same name, not trusted
		otherInter := issue(other, certOpt{cn: "up inter", ca: true, ec: true, to: 900 * day})
		expInter := issue(root, certOpt{cn: "expired inter", ca: true, ec: true, from: -90 * day, to: -time.Hour})
		futInter := issue(root, certOpt{cn: "future inter", ca: true, ec: true, from: 2 * time.Hour, to: 90 * day})
		short := issue(root, certOpt{cn: "short inter", ca: true, ec: true, pathZero: true, to: 900 * day})
		below := issue(short, certOpt{cn: "below short", ca: true, ec: true, to: 900 * day})
		plainLeaf := issue(inter, certOpt{ec: true})
		expRoot := issue(nil, certOpt{cn: "expired root", ca: true, ec: true, from: -90 * day, to: -time.Hour})
		noSign := issue(root, certOpt{cn: "no sign", ca: true, ec: true, keyUsage: x509.KeyUsageDigitalSignature, to: 900 * day})
		clientInter := issue(root, certOpt{cn: "client inter", ca: true, ec: true, usage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, to: 900 * day})
		rootsFile := filepath.Join(c.Scratch, "roots.pem")
		os.WriteFile(rootsFile, []byte(pems(root, expRoot)), 0644)

		mk := func(chain ...tls.Certificate) *tls.Config { return &tls.Config{Certificates: chain} }
		ok := issue(inter, certOpt{rsaN: 2})
		var ups []*upTLS
		add := func(name, host string, valid bool, tc *tls.Config) {
			ups = append(ups, &upTLS{name: name, host: host, valid: valid, tc: tc})
		}
		add("valid-name", "localhost", true, mk(tlsCert(ok, inter)))
		add("valid-ip", "127.0.0.1", true, mk(tlsCert(ok, inter)))
		add("valid-with-root", "localhost", true, mk(tlsCert(ok, inter, root)))
		add("valid-ec", "localhost", true, mk(tlsCert(issue(inter, certOpt{ec: true}), inter)))
		add("valid-direct", "localhost", true, mk(tlsCert(issue(root, certOpt{ec: true}))))
		add("valid-short-lived", "localhost", true, mk(tlsCert(issue(inter, certOpt{ec: true, from: -time.Minute, to: 30 * time.Minute}), inter)))
		add("valid-upper-name", "localhost", true, mk(tlsCert(issue(inter, certOpt{ec: true, dns: []string{"LOCALHOST"}}), inter)))
		t13 := mk(tlsCert(ok, inter))
		t13.MinVersion = tls.VersionTLS13
		add("valid-tls13", "localhost", true, t13)
		self := issue(nil, certOpt{ec: true})
		add("self-signed", "localhost", false, mk(tlsCert(self)))
		selfCA := issue(nil, certOpt{cn: "localhost", ca: true, ec: true, dns: []string{"localhost"}, ips: lo})
		add("self-signed-ca", "localhost", false, mk(tlsCert(selfCA)))
		add("unknown-root", "localhost", false, mk(tlsCert(issue(otherInter, certOpt{ec: true}), otherInter, other)))
		add("unknown-root-leaf-only", "localhost", false, mk(tlsCert(issue(otherInter, certOpt{ec: true}))))
		add("own-root-sent-along", "127.0.0.1", false, mk(tlsCert(issue(other, certOpt{ec: true}), other)))
		add("foreign-key-own-intermediate", "localhost", false, mk(tlsCert(issue(otherInter, certOpt{ec: true}), inter, root)))
		add("expired", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, from: -90 * day, to: -time.Hour}), inter)))
		add("just-expired", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, from: -day, to: -3 * time.Second}), inter)))
		add("not-yet-valid", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, from: time.Hour, to: 90 * day}), inter)))
		add("expired-intermediate", "localhost", false, mk(tlsCert(issue(expInter, certOpt{ec: true}), expInter)))
		add("future-intermediate", "localhost", false, mk(tlsCert(issue(futInter, certOpt{ec: true}), futInter)))
		add("expired-root", "localhost", false, mk(tlsCert(issue(expRoot, certOpt{ec: true}))))
		add("wrong-name", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, dns: []string{"example.com"}}), inter)))
		add("wrong-name-suffix", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, dns: []string{"localhost.example.com", "notlocalhost"}}), inter)))
		add("wildcard", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, dns: []string{"*.localhost", "*"}}), inter)))
		add("ip-only-for-name", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, noDNS: true, ips: lo}), inter)))
		add("name-only-for-ip", "127.0.0.1", false, mk(tlsCert(issue(inter, certOpt{ec: true, noIP: true}), inter)))
		add("other-ip", "127.0.0.1", false, mk(tlsCert(issue(inter, certOpt{ec: true, ips: []net.IP{net.IPv4(127, 0, 0, 2)}}), inter)))
		add("ip-as-dns-name", "127.0.0.1", false, mk(tlsCert(issue(inter, certOpt{ec: true, noIP: true, dns: []string{"127.0.0.1"}}), inter)))
		add("common-name-only", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, noDNS: true, noIP: true, cn: "localhost"}), inter)))
		add("missing-intermediate", "localhost", false, mk(tlsCert(ok)))
		add("wrong-intermediate", "localhost", false, mk(tlsCert(ok, otherInter)))
		add("client-usage", "localhost", false, mk(tlsCert(issue(inter, certOpt{ec: true, usage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}), inter)))
		add("client-usage-intermediate", "localhost", false, mk(tlsCert(issue(clientInter, certOpt{ec: true}), clientInter)))
		add("leaf-as-issuer", "localhost", false, mk(tlsCert(issue(plainLeaf, certOpt{ec: true}), plainLeaf, inter)))
		add("path-length", "localhost", false, mk(tlsCert(issue(below, certOpt{ec: true}), below, short)))
		add("no-sign-usage", "localhost", false, mk(tlsCert(issue(noSign, certOpt{ec: true}), noSign)))
		_ = self
		mine := func(r *UpReq, w *UpConn) {
			answerClose(200, hv("X-Got", r.Case()), []byte("from "+r.Up))(r, w)
		}
		for _, u := range ups {
			u.u = c.newUpstreamAt(u.name, "127.0.0.1:0", u.tc, mine)
		}
		plain := c.newUpstream("plain", mine)
		resources, routes := J{}, A{}
		addRes := func(name, scheme, host string, port int) {
			resources[name] = A{J{"url": J{"scheme": scheme, "host": host, "port": port}}}
			routes = append(routes, J{"path": "/" + name + "/", "resource": name})
		}
		for _, u := range ups {
			addRes(u.name, "https", u.host, u.u.Port)
		}
		schemes := []string{"https", "https://", "HTTPS", "http", "http://", "", "HTTP"}
		vu := ups[0].u
		for i, sc := range schemes {
			addRes(fmt.Sprintf("s%d-tls", i), sc, "localhost", vu.Port)
			addRes(fmt.Sprintf("s%d-plain", i), sc, "localhost", plain.Port)
		}
		// certificates that change from connection to connection
		bad := tlsCert(issue(otherInter, certOpt{ec: true}), otherInter)
		good := tlsCert(ok, inter)
		var turn atomic.Bool
		flip := c.newUpstreamAt("flip", "127.0.0.1:0", &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			if turn.Load() {
				return &bad, nil
			}
			return &good, nil
		}}, mine)
		addRes("flip", "https", "localhost", flip.Port)
		start := func(skip any, att int) *Server {
			up := J{"maxAttempts": att, "socketTimeoutSeconds": 20, "readTimeoutSeconds": 30}
			if skip != nil {
				up["tlsInsecureSkipVerify"] = skip
			}
			return c.start(J{"connection": J{"upstream": up}, "routes": routes, "resources": resources}, StartOpt{Bin: bin, Level: "INFO", Env: []string{"SSL_CERT_FILE=" + rootsFile, "SSL_CERT_DIR=/nonexistent"}})
		}
		type srv struct {
			name string
			s    *Server
			skip bool
		}
		srvs := []srv{{"default", start(nil, 1), false}, {"verify-retries", start(false, 3), false}, {"skip", start(true, 2), true}}
		methods := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"}
		rounds := c.N(3, 30)
		var mu sync.Mutex
		var seq int
		type job struct {
			sv srv
			u  *upTLS
			m  string
		}
		var jobs []job
		for n := 0; n < rounds; n++ {
			for _, sv := range srvs {
				for i, u := range ups {
					jobs = append(jobs, job{sv, u, methods[(n+i)%len(methods)]})
				}
			}
		}
		one := func(sv srv, route, m string, u *Upstream, want bool, name string) {
			mu.Lock()
			seq++
			id := fmt.Sprintf("t%d.", seq)
			mu.Unlock()
			var body []byte
			if m == "POST" || m == "PUT" {
				body = []byte("secret of " + id)
			}
			r, err := sv.s.ex(m, "/"+route+"/"+id, hv("X-Case", id, "Authorization", "Bearer secret"), body)
			d := J{"server": sv.name, "upstream": name, "method": m}
			if !c.judge("upstream-tls", r, err, d) {
				return
			}
			got := u.ForCase(id)
			d["code"], d["requests"], d["body"] = r.Code, len(got), clip(r.Body)
			switch {
			case want && (r.Code != 200 || len(got) != 1 || r.H.Get("X-Got") != id):
				c.Violate("refused-"+name+"-"+sv.name, d)
			case !want && len(got) > 0:
				c.Violate("sent-despite-"+name, d)
			case !want && r.Code != 502:
				c.Violate("not-502-"+name, d)
			case !want && m != "HEAD":
				if w := wrapper(r, 502); w != "" {
					d["why"] = w
					c.Violate("not-502-"+name, d)
				}
			}
			u.ForgetPrefix(id)
			c.Case(fmt.Sprintf("%s %s %s %d", name, sv.name, m, r.Code))
		}
		c.Par(len(jobs), 24, func(i int) {
			j := jobs[i]
			one(j.sv, j.u.name, j.m, j.u.u, j.u.valid || j.sv.skip, j.u.name)
		})
		for _, sv := range srvs {
			for i, sc := range schemes {
				https := strings.Contains(strings.ToLower(sc), "https")
				for _, m := range []string{"GET", "POST"} {
					one(sv, fmt.Sprintf("s%d-tls", i), m, vu, https, "scheme-"+sc+"-to-tls")
					one(sv, fmt.Sprintf("s%d-plain", i), m, plain, !https, "scheme-"+sc+"-to-plain")
				}
			}
			// the same upstream, now with a good, now with a bad certificate
			r := c.Rng("flip" + sv.name)
			for n := 0; n < c.N(30, 300); n++ {
				b := r.Intn(2) == 0
				turn.Store(b)
				one(sv, "flip", pick(r, methods), flip, !b || sv.skip, map[bool]string{true: "now-bad", false: "now-good"}[b])
			}
		}
		nt, no := 0, 0
		for _, u := range ups {
			a, b := u.u.FirstBytes()
			if u.u == vu {
				continue // judged by scheme below
			}
			nt, no = nt+a, no+b
			if b > 0 {
				c.Violate("plaintext-to-https-upstream", J{"upstream": u.name, "connections": b})
			}
		}
		if _, b := flip.FirstBytes(); b > 0 {
			c.Violate("plaintext-to-https-upstream", J{"upstream": "flip", "connections": b})
		}
		// of the schemes, three are https: per server they opened 3*2 connections to each of the two (x attempts)
		ta, tb := vu.FirstBytes()
		pa, pb := plain.FirstBytes()
		c.Sample(J{"tls-upstream": J{"tls": ta, "plaintext": tb}, "plain-upstream": J{"tls": pa, "plaintext": pb}})
		c.Count("tls-connections", nt+ta)
		for _, sv := range srvs {
			c.checkHealth(sv.s)
		}
	})
}
