package xsrv

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"net"
	"time"
)

// PKI is generated at run time: a CA the client trusts and one it does not.
type PKI struct {
	Roots                             *x509.CertPool
	Good, WrongName, Expired, Unknown tls.Certificate
}

func ca(name string) (*x509.Certificate, *ecdsa.PrivateKey, error) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, nil, err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-240 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	d, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		return nil, nil, err
	}
	c, err := x509.ParseCertificate(d)
	return c, k, err
}

func leaf(c *x509.Certificate, ck *ecdsa.PrivateKey, host string, from, to time.Time) (tls.Certificate, error) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return tls.Certificate{}, err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: host}, NotBefore: from, NotAfter: to,
		DNSNames: []string{host}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if host == "localhost" {
		t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
	}
	d, err := x509.CreateCertificate(crand.Reader, t, c, &k.PublicKey, ck)
	if err != nil {
		return tls.Certificate{}, err
	}
	return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}, nil
}

func NewPKI() (*PKI, error) {
	c1, k1, err := ca("trusted")
	if err != nil {
		return nil, err
	}
	c2, k2, err := ca("unknown")
	if err != nil {
		return nil, err
	}
	p := &PKI{Roots: x509.NewCertPool()}
	p.Roots.AddCert(c1)
	now := time.Now()
	day := 24 * time.Hour
	if p.Good, err = leaf(c1, k1, "localhost", now.Add(-day), now.Add(day)); err != nil {
		return nil, err
	}
	if p.WrongName, err = leaf(c1, k1, "elsewhere.example", now.Add(-day), now.Add(day)); err != nil {
		return nil, err
	}
	if p.Expired, err = leaf(c1, k1, "localhost", now.Add(-5*day), now.Add(-2*day)); err != nil {
		return nil, err
	}
	p.Unknown, err = leaf(c2, k2, "localhost", now.Add(-day), now.Add(day))
	return p, err
}
