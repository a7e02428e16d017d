package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"syscall"
	"time"
)

// kitchen is a server with one route per kind of outcome.
type kitchen struct {
	S    *Server
	Up   *Upstream
	Sc   *scripted
	Dead int // port nothing listens on
	cfg  J
	L    *lanes
}

const kitchenSecret = "kitchen-secret-0123456789-abcdefghij"

// deadPort is a loopback port that refuses connections for as long as the check runs.
func (c *Ctx) deadPort() int {
	// a bound but not listening socket refuses connections and cannot be taken by others
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	var sa syscall.Sockaddr
	if err == nil {
		sa, err = syscall.Getsockname(fd)
	}
	if err != nil {
		c.Fatal("reserve port: %v", err)
	}
	c.OnCleanup(func() { syscall.Close(fd) })
	return sa.(*syscall.SockaddrInet4).Port
}

func (c *Ctx) kitchenCfg(down, up J, u *Upstream, dead int) J {
	if down == nil {
		down = J{}
	}
	if up == nil {
		up = J{}
	}
	return J{"connection": J{"downstream": down, "upstream": up},
		"policies": J{"nope": A{J{"label": "absent", "weight": 1.0}}},
		"jwt":      J{"hs": J{"alg": "HS256", "key": kitchenSecret}},
		"routes": A{
			J{"path": "/r/", "resource": "r"},
			J{"path": "/jwt/", "resource": "r", "jwt": "hs"},
			J{"path": "/nolabel/", "resource": "r", "policy": "nope"},
			J{"path": "/nores/", "resource": "missing"},
			J{"path": "/dead/", "resource": "dead"},
			J{"path": "/about", "resource": "about"},
		},
		"resources": J{"r": resourceOf(u), "dead": A{J{"url": J{"scheme": "http", "host": "127.0.0.1", "port": dead}}}}}
}

func (c *Ctx) kitchen(bin string, down, up J, o StartOpt) *kitchen {
	k := &kitchen{Sc: newScripted(nil), Dead: c.deadPort()}
	k.Up = c.newUpstream("kitchen", k.Sc.Handle)
	k.cfg = c.kitchenCfg(down, up, k.Up, k.Dead)
	o.Bin = bin
	k.S = c.start(k.cfg, o)
	k.L = c.lanes(k.S, k.cfg, o)
	return k
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func mustJSON(v any) []byte { b, _ := json.Marshal(v); return b }

func hs256(secret string, header, claims J) string {
	h := J{"alg": "HS256", "typ": "JWT"}
	for k, v := range header {
		h[k] = v
	}
	si := b64(mustJSON(h)) + "." + b64(mustJSON(claims))
	m := hmac.New(sha256.New, []byte(secret))
	m.Write([]byte(si))
	return si + "." + b64(m.Sum(nil))
}

func (k *kitchen) token() string {
	return hs256(kitchenSecret, nil, J{"sub": "x", "exp": time.Now().Add(time.Hour).Unix()})
}

// reqOut renders a request; extra header lines may repeat.
func hv(kv ...string) Headers {
	var h Headers
	for i := 0; i+1 < len(kv); i += 2 {
		h = append(h, HV{kv[i], kv[i+1]})
	}
	return h
}

func (h Headers) text() string {
	var b strings.Builder
	for _, x := range h {
		fmt.Fprintf(&b, "%s: %s; ", x.K, x.V)
	}
	return b.String()
}
