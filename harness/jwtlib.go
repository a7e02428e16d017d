package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"hash"
	"math/big"
	"strings"
	"sync"
	"time"
)

var jwtAlgs = []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512"}

type jkey struct {
	alg    string
	rsa    *rsa.PrivateKey
	ec     *ecdsa.PrivateKey
	secret []byte
	kid    string
}

var (
	rsaPool = map[int]*rsa.PrivateKey{}
	rsaMu   sync.Mutex
)

// rsaKey returns the n-th of a few RSA keys made once per run.
func rsaKey(n int) *rsa.PrivateKey {
	rsaMu.Lock()
	defer rsaMu.Unlock()
	if rsaPool[n] == nil {
		k, err := rsa.GenerateKey(crand.Reader, 2048)
		if err != nil {
			panic(err)
		}
		rsaPool[n] = k
	}
	return rsaPool[n]
}

func curveOf(alg string) elliptic.Curve {
	switch alg {
	case "ES256":
		return elliptic.P256()
	case "ES384":
		return elliptic.P384()
	}
	return elliptic.P521()
}

func newKey(alg string, n int) *jkey {
	k := &jkey{alg: alg}
	switch alg[0] {
	case 'R', 'P':
		k.rsa = rsaKey(n)
	case 'E':
		e, err := ecdsa.GenerateKey(curveOf(alg), crand.Reader)
		if err != nil {
			panic(err)
		}
		k.ec = e
	default:
		k.secret = []byte(fmt.Sprintf("secret-%s-%d-%s", alg, n, "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn"))
	}
	return k
}

func hashOf(alg string) (crypto.Hash, func() hash.Hash) {
	switch alg[2:] {
	case "256":
		return crypto.SHA256, sha256.New
	case "384":
		return crypto.SHA384, sha512.New384
	}
	return crypto.SHA512, sha512.New
}

// sigOver signs si with alg (which may differ from the key's own).
func (k *jkey) sigOver(alg, si string) []byte {
	h, nh := hashOf(alg)
	hh := nh()
	hh.Write([]byte(si))
	dg := hh.Sum(nil)
	switch alg[:2] {
	case "RS":
		s, err := rsa.SignPKCS1v15(crand.Reader, k.rsa, h, dg)
		if err != nil {
			panic(err)
		}
		return s
	case "PS":
		s, err := rsa.SignPSS(crand.Reader, k.rsa, h, dg, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		if err != nil {
			panic(err)
		}
		return s
	case "ES":
		r, s, err := ecdsa.Sign(crand.Reader, k.ec, dg)
		if err != nil {
			panic(err)
		}
		n := (k.ec.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	}
	return hmacSum(nh, k.secret, si)
}

func hmacSum(nh func() hash.Hash, secret []byte, si string) []byte {
	m := hmac.New(nh, secret)
	m.Write([]byte(si))
	return m.Sum(nil)
}

func signRaw(k *jkey, alg string, header, payload []byte) string {
	si := b64(header) + "." + b64(payload)
	return si + "." + b64(k.sigOver(alg, si))
}

func (k *jkey) sign(header J, claims any) string {
	h := J{"alg": k.alg, "typ": "JWT"}
	for a, b := range header {
		if b == nil {
			delete(h, a)
			continue
		}
		h[a] = b
	}
	return signRaw(k, k.alg, mustJSON(h), mustJSON(claims))
}

func (k *jkey) public() any {
	if k.rsa != nil {
		return &k.rsa.PublicKey
	}
	return &k.ec.PublicKey
}

func (k *jkey) private() crypto.Signer {
	if k.rsa != nil {
		return k.rsa
	}
	return k.ec
}

func (k *jkey) pubPEM() string {
	d, err := x509.MarshalPKIXPublicKey(k.public())
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: d}))
}

func (k *jkey) certPEM() string {
	t := &x509.Certificate{SerialNumber: big.NewInt(77), Subject: pkix.Name{CommonName: "jwt"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
	d, err := x509.CreateCertificate(crand.Reader, t, t, k.public(), k.private())
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d}))
}

// keyText is what goes into the config's key field.
func (k *jkey) keyText(cert bool) string {
	if k.secret != nil {
		return string(k.secret)
	}
	if cert {
		return k.certPEM()
	}
	return k.pubPEM()
}

func (k *jkey) jwk() J {
	o := J{"use": "sig", "alg": k.alg}
	if k.kid != "" {
		o["kid"] = k.kid
	}
	if k.rsa != nil {
		o["kty"] = "RSA"
		o["n"] = b64(k.rsa.N.Bytes())
		o["e"] = b64(big.NewInt(int64(k.rsa.E)).Bytes())
		return o
	}
	if k.ec != nil {
		n := (k.ec.Curve.Params().BitSize + 7) / 8
		x, y := make([]byte, n), make([]byte, n)
		k.ec.X.FillBytes(x)
		k.ec.Y.FillBytes(y)
		o["kty"], o["crv"], o["x"], o["y"] = "EC", k.ec.Curve.Params().Name, b64(x), b64(y)
		return o
	}
	o["kty"], o["k"] = "oct", b64(k.secret)
	return o
}

func jwks(ks ...*jkey) string {
	a := A{}
	for _, k := range ks {
		a = append(a, k.jwk())
	}
	return string(mustJSON(J{"keys": a}))
}

// jroute is one jwt configuration with the keys that may sign for it.
type jroute struct {
	name string
	alg  string
	keys []*jkey
	jwks bool
	path string
	skew string
	odd  bool // name that does not fit a path
}

// oddNames are unusual names for jwts, policies and resources.
var oddNames = []string{"j", "J", "0", "x y", "\u00e4\u65e5", "null", "-", "a/b", "true", strings.Repeat("n", 300), "~", "j."}

// jwtFarm is a server with a jwt protected route per algorithm and key source.
type jwtFarm struct {
	S      *Server
	L      *lanes
	Up     *Upstream
	Sc     *scripted
	Routes []*jroute
	Jwks   *Upstream
	docs   map[string]string
	dmu    sync.Mutex
	cfg    J
}

func (f *jwtFarm) setDoc(path, doc string) {
	f.dmu.Lock()
	f.docs[path] = doc
	f.dmu.Unlock()
}

func (c *Ctx) jwtFarm(bin string, extra func(f *jwtFarm, jwts J)) *jwtFarm {
	f := &jwtFarm{Sc: newScripted(answerClose(200, nil, []byte("served"))), docs: map[string]string{}}
	f.Up = c.newUpstream("jwtup", f.Sc.Handle)
	f.Jwks = c.newUpstream("jwks", func(r *UpReq, w *UpConn) {
		f.dmu.Lock()
		d := f.docs[r.Target]
		f.dmu.Unlock()
		answerClose(200, hv("Content-Type", "application/json"), []byte(d))(r, w)
	})
	jwts := J{}
	base := fmt.Sprintf("http://127.0.0.1:%d", f.Jwks.Port)
	for _, alg := range jwtAlgs {
		k := newKey(alg, 0)
		f.Routes = append(f.Routes, &jroute{name: alg + "-pem", alg: alg, keys: []*jkey{k}})
		jwts[alg+"-pem"] = J{"alg": alg, "key": k.keyText(false)}
		if alg[0] == 'H' {
			continue
		}
		k = newKey(alg, 1)
		f.Routes = append(f.Routes, &jroute{name: alg + "-cert", alg: alg, keys: []*jkey{k}})
		jwts[alg+"-cert"] = J{"alg": alg, "key": k.keyText(true)}
		var ks []*jkey
		for i := 0; i < 4; i++ {
			k := newKey(alg, 2+i)
			k.kid = fmt.Sprintf("kid-%s-%d", alg, i)
			if i == 3 {
				k.kid = ""
			}
			ks = append(ks, k)
		}
		f.docs["/"+alg] = jwks(ks...)
		f.Routes = append(f.Routes, &jroute{name: alg + "-jwks", alg: alg, keys: ks, jwks: true})
		jwts[alg+"-jwks"] = J{"alg": alg, "jwksUrl": base + "/" + alg}
		// one key without kid
		k1 := newKey(alg, 2)
		f.docs["/one"+alg] = jwks(k1)
		f.Routes = append(f.Routes, &jroute{name: alg + "-one", alg: alg, keys: []*jkey{k1}, jwks: true})
		jwts[alg+"-one"] = J{"alg": alg, "jwksUrl": base + "/one" + alg}
		// larger and smaller sets
		for _, n := range map[string][]int{"RS256": {2}, "PS384": {3}, "ES256": {2, 12}, "ES384": {2}}[alg] {
			var ks []*jkey
			for i := 0; i < n; i++ {
				k := newKey(alg, 2+i)
				k.kid = fmt.Sprintf("set%d-%s-%d", n, alg, i)
				ks = append(ks, k)
			}
			nm := fmt.Sprintf("%s-set%d", alg, n)
			f.docs["/"+nm] = jwks(ks...)
			f.Routes = append(f.Routes, &jroute{name: nm, alg: alg, keys: ks, jwks: true})
			jwts[nm] = J{"alg": alg, "jwksUrl": base + "/" + nm}
		}
	}
	for i, n := range oddNames {
		k := newKey([]string{"HS256", "ES256", "RS256"}[i%3], i)
		if k.alg == "HS256" {
			k.secret = []byte([]string{"k", " blanks around  ", "\u00e4\u65e5\"'\\%s\tx", strings.Repeat("long", 700)}[i/3%4])
		}
		f.Routes = append(f.Routes, &jroute{name: n, alg: k.alg, keys: []*jkey{k}, odd: true})
		jwts[n] = J{"alg": k.alg, "key": k.keyText(false)}
	}
	jwts["none"] = J{"alg": "none"}
	if extra != nil {
		extra(f, jwts)
	}
	routes := A{J{"path": "/open/", "resource": "r"}, J{"path": "/none/", "resource": "r", "jwt": "none"}}
	for i, r := range f.Routes {
		r.path = "/j/" + r.name + "/"
		if r.odd {
			r.path = fmt.Sprintf("/j/odd%d/", i)
		}
		routes = append(routes, J{"path": r.path, "resource": "r", "jwt": r.name})
	}
	f.cfg = J{"jwt": jwts, "routes": routes, "resources": J{"r": resourceOf(f.Up)}}
	f.S = c.start(f.cfg, StartOpt{Bin: bin, Level: "INFO"})
	f.L = c.lanes(f.S, f.cfg, StartOpt{Bin: bin, Level: "INFO"})
	return f
}
