package procp

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"sync"
	"time"

	"verif/harness/vt"
)

// cert is a certificate with its key.
type cert struct {
	der      []byte
	pem, key string
	ecdsa    bool
	parsed   *x509.Certificate
	keySEC1  string // key in the form automatic certificates are kept in
}

func makeCert(ec bool, bits int, from, to time.Time, serial int64, names ...string) *cert {
	var key crypto.Signer
	var err error
	if ec {
		curve := map[int]elliptic.Curve{256: elliptic.P256(), 384: elliptic.P384(), 521: elliptic.P521()}[bits]
		key, err = ecdsa.GenerateKey(curve, rand.Reader)
	} else {
		key, err = rsa.GenerateKey(rand.Reader, bits)
	}
	vt.Must(err)
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: names[0]}, DNSNames: names,
		NotBefore: from, NotAfter: to, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, key.Public(), key)
	vt.Must(err)
	k8, err := x509.MarshalPKCS8PrivateKey(key)
	vt.Must(err)
	c := &cert{der: der, ecdsa: ec}
	c.parsed, err = x509.ParseCertificate(der)
	vt.Must(err)
	c.pem = string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	c.key = string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k8}))
	if ek, ok := key.(*ecdsa.PrivateKey); ok {
		b, err := x509.MarshalECPrivateKey(ek)
		vt.Must(err)
		c.keySEC1 = string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}))
	} else {
		c.keySEC1 = string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key.(*rsa.PrivateKey))}))
	}
	return c
}

var pool struct {
	sync.Once
	certs   []*cert // usable
	expired *cert
	auto    []*cert // for auto.test: ECDSA and RSA
}

func certs() []*cert {
	pool.Do(func() {
		now := time.Now()
		from, to := now.Add(-24*time.Hour), now.Add(300*24*time.Hour)
		pool.certs = []*cert{
			makeCert(true, 256, from, to, 11, "one.test", "localhost"),
			makeCert(true, 384, from, to, 12, "two.test"),
			makeCert(false, 2048, from, to, 13, "three.test"),
			makeCert(false, 2048, from, to, 14, "four.test", "127.0.0.1"),
		}
		pool.expired = makeCert(true, 256, now.Add(-48*time.Hour), now.Add(-24*time.Hour), 15, "old.test")
		pool.auto = []*cert{
			makeCert(true, 256, from, now.Add(80*24*time.Hour), 16, "auto.test"),
			makeCert(false, 2048, from, now.Add(80*24*time.Hour), 17, "auto.test"),
		}
	})
	return pool.certs
}
