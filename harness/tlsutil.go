package main

// Certificates for the TLS checks.

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// CertSpec describes a certificate.
type CertSpec struct {
	CN       string
	DNS      []string
	RSA      bool
	CA       bool
	Signer   *Cert // nil: self-signed
	NotAfter time.Time
	NotYet   bool // valid from tomorrow on
	NoSubCA  bool // path length 0
	EKU      []x509.ExtKeyUsage
}

// Cert is a certificate with its key.
type Cert struct {
	Spec CertSpec
	X    *x509.Certificate
	Key  crypto.Signer
	TLS  tls.Certificate
	PEM  []byte
	KPEM []byte
}

var serial int64 = 1000
var serialMu sync.Mutex
var rsaOnce sync.Once
var rsaKey *rsa.PrivateKey

func mkCert(s CertSpec) *Cert {
	c := &Cert{Spec: s}
	var err error
	if s.RSA {
		// one key is enough for everybody
		rsaOnce.Do(func() { rsaKey, err = rsa.GenerateKey(rand.Reader, 2048) })
		c.Key = rsaKey
	} else {
		c.Key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	if err != nil {
		infra("key: %v", err)
	}
	serialMu.Lock()
	serial++
	sn := serial
	serialMu.Unlock()
	t := &x509.Certificate{
		SerialNumber: big.NewInt(sn),
		Subject:      pkix.Name{CommonName: s.CN, Organization: []string{"verif"}},
		DNSNames:     s.DNS,
		NotBefore:    time.Now().Add(-24 * time.Hour),
		NotAfter:     time.Now().Add(10000 * time.Hour),
		KeyUsage:     x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage:  s.EKU,
	}
	if !s.NotAfter.IsZero() {
		t.NotBefore = s.NotAfter.Add(-100 * time.Hour)
		t.NotAfter = s.NotAfter
	}
	if s.NotYet {
		t.NotBefore = time.Now().Add(24 * time.Hour)
	}
	if s.NoSubCA {
		t.MaxPathLenZero = true
	}
	if s.CA {
		t.IsCA = true
		t.BasicConstraintsValid = true
		t.KeyUsage |= x509.KeyUsageCertSign
	}
	parent, pk := t, c.Key
	if s.Signer != nil {
		parent, pk = s.Signer.X, s.Signer.Key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, c.Key.Public(), pk)
	if err != nil {
		infra("cert: %v", err)
	}
	c.X, err = x509.ParseCertificate(der)
	if err != nil {
		infra("cert: %v", err)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(c.Key)
	if err != nil {
		infra("key: %v", err)
	}
	c.PEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	c.KPEM = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
	c.TLS = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: c.Key, Leaf: c.X}
	return c
}

// save writes NAME.crt and NAME.key.
func (c *Cert) save(dir, name string) {
	for _, x := range []struct {
		n string
		b []byte
	}{{name + ".crt", c.PEM}, {name + ".key", c.KPEM}} {
		if err := os.WriteFile(filepath.Join(dir, x.n), x.b, 0666); err != nil {
			infra("%v", err)
		}
	}
}

var srvOnce sync.Once
var srvCert *Cert

// serverCert is a shared self-signed server certificate.
func serverCert() *Cert {
	srvOnce.Do(func() { srvCert = mkCert(CertSpec{CN: "srv.example", DNS: []string{"srv.example"}}) })
	return srvCert
}

func pemCert(der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func pemKey(k crypto.PrivateKey) []byte {
	b, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		infra("key: %v", err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b})
}
