package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"sync/atomic"
	"time"
)

// certOpt describes a certificate; zero values give a valid server certificate for localhost and 127.0.0.1.
type certOpt struct {
	cn        string
	dns       []string
	noDNS     bool
	ips       []net.IP
	noIP      bool
	ca        bool
	ec        bool
	rsaN      int // which pooled RSA key
	from, to  time.Duration
	serial    *big.Int
	usage     []x509.ExtKeyUsage
	keyUsage  x509.KeyUsage
	maxPath   int
	pathZero  bool
	noBasic   bool
	pathUnset bool
}

type cert struct {
	x   *x509.Certificate
	der []byte
	key crypto.Signer
}

var serialNext atomic.Int64

func issue(parent *cert, o certOpt) *cert {
	if o.serial == nil {
		o.serial = big.NewInt(1<<40 + serialNext.Add(1))
	}
	if o.to == 0 {
		o.to = 90 * 24 * time.Hour
	}
	if o.from == 0 {
		o.from = -24 * time.Hour
	}
	if o.cn == "" {
		o.cn = "localhost"
	}
	if !o.ca && !o.noDNS && o.dns == nil {
		o.dns = []string{"localhost", "j8a.test"}
	}
	if !o.ca && !o.noIP && o.ips == nil {
		o.ips = []net.IP{net.IPv4(127, 0, 0, 1)}
	}
	if o.usage == nil && !o.ca {
		o.usage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	}
	var key crypto.Signer
	if o.ec {
		k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		if err != nil {
			panic(err)
		}
		key = k
	} else {
		key = rsaKey(o.rsaN)
	}
	n := time.Now()
	t := &x509.Certificate{SerialNumber: o.serial, Subject: pkix.Name{CommonName: o.cn}, NotBefore: n.Add(o.from), NotAfter: n.Add(o.to), DNSNames: o.dns, IPAddresses: o.ips, ExtKeyUsage: o.usage, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, BasicConstraintsValid: true}
	if o.ca {
		t.IsCA, t.KeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageCRLSign
		t.MaxPathLen, t.MaxPathLenZero = o.maxPath, o.pathZero
		if o.maxPath == 0 && !o.pathZero {
			t.MaxPathLen = -1
		}
	}
	if o.keyUsage != 0 {
		t.KeyUsage = o.keyUsage
	}
	p, pk := t, key
	if parent != nil {
		p, pk = parent.x, parent.key
	}
	der, err := x509.CreateCertificate(crand.Reader, t, p, key.Public(), pk)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &cert{x, der, key}
}

func (c *cert) pem() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.der}))
}

func (c *cert) keyPEM() string {
	if r, ok := c.key.(*rsa.PrivateKey); ok {
		return string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(r)}))
	}
	d, err := x509.MarshalPKCS8PrivateKey(c.key)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: d}))
}

func pems(cs ...*cert) string {
	s := ""
	for _, c := range cs {
		s += c.pem()
	}
	return s
}

func pool(cs ...*cert) *x509.CertPool {
	p := x509.NewCertPool()
	for _, c := range cs {
		p.AddCert(c.x)
	}
	return p
}

func tlsCert(leaf *cert, chain ...*cert) tls.Certificate {
	t := tls.Certificate{Certificate: [][]byte{leaf.der}, PrivateKey: leaf.key, Leaf: leaf.x}
	for _, c := range chain {
		t.Certificate = append(t.Certificate, c.der)
	}
	return t
}

// pki is a root, an intermediate and a server certificate.
type pki struct{ root, inter, leaf *cert }

func newPKI() *pki {
	r := issue(nil, certOpt{cn: "vh root", ca: true, rsaN: 0, to: 3650 * 24 * time.Hour})
	i := issue(r, certOpt{cn: "vh intermediate", ca: true, rsaN: 1, to: 1000 * 24 * time.Hour})
	return &pki{r, i, issue(i, certOpt{rsaN: 2, to: 300 * 24 * time.Hour})}
}

func (p *pki) down(extra J) J {
	d := J{"mode": "TLS", "cert": pems(p.leaf, p.inter, p.root), "key": p.leaf.keyPEM()}
	for k, v := range extra {
		d[k] = v
	}
	return d
}

func (p *pki) client() *tls.Config {
	return &tls.Config{RootCAs: pool(p.root), ServerName: "localhost"}
}
