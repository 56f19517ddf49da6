package vh

// A small certificate authority, for drivers that exercise the certificate based security providers.

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

type vhCA struct {
	cert *x509.Certificate
	key  *rsa.PrivateKey
	pem  []byte
	file string
	sn   int64
}

type vhLeaf struct {
	cert []byte
	key  []byte
	pri  crypto.Signer
}

type vhCertSpec struct {
	CN     string
	SANs   []string
	Emails []string
	Usage  []x509.ExtKeyUsage
	From   time.Duration
	Till   time.Duration
	EC     bool
	Key    crypto.Signer // shared key, a new one is made when not set
	IPs    []net.IP
}

func vhNewCA(r *vhReporter, dir, name string) *vhCA {
	ca := &vhCA{sn: 10}
	var err error
	ca.key, err = rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		r.Error("ca key: %v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, t, ca.key.Public(), ca.key)
	if err != nil {
		r.Error("ca cert: %v", err)
	}
	ca.cert, _ = x509.ParseCertificate(der)
	ca.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	ca.file = filepath.Join(dir, name+".ca.pem")
	if err = os.WriteFile(ca.file, ca.pem, 0644); err != nil {
		r.Error("ca file: %v", err)
	}
	return ca
}

// Sub creates an intermediate authority signed by ca
func (ca *vhCA) Sub(r *vhReporter, dir, name string) *vhCA {
	s := &vhCA{sn: 1000}
	var err error
	s.key, err = rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		r.Error("ca key: %v", err)
	}
	ca.sn++
	t := &x509.Certificate{SerialNumber: big.NewInt(ca.sn), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.cert, s.key.Public(), ca.key)
	if err != nil {
		r.Error("ca cert: %v", err)
	}
	s.cert, _ = x509.ParseCertificate(der)
	s.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	return s
}

func (ca *vhCA) Leaf(r *vhReporter, s vhCertSpec) *vhLeaf {
	var pri crypto.Signer
	var err error
	l := &vhLeaf{}
	if s.Key != nil {
		pri = s.Key
	} else if s.EC {
		k, e := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		err, pri = e, k
	} else {
		k, e := rsa.GenerateKey(rand.Reader, 2048)
		err, pri = e, k
		if e == nil {
			l.key = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
		}
	}
	if err != nil {
		r.Error("leaf key: %v", err)
	}
	if s.Till == 0 {
		s.Till = 12 * time.Hour
	}
	if s.From == 0 {
		s.From = -time.Hour
	}
	if s.Usage == nil {
		s.Usage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}
	}
	ca.sn++
	t := &x509.Certificate{SerialNumber: big.NewInt(ca.sn), Subject: pkix.Name{CommonName: s.CN}, DNSNames: s.SANs, EmailAddresses: s.Emails, IPAddresses: s.IPs,
		NotBefore: time.Now().Add(s.From), NotAfter: time.Now().Add(s.Till), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: s.Usage}
	der, err := x509.CreateCertificate(rand.Reader, t, ca.cert, pri.Public(), ca.key)
	if err != nil {
		r.Error("leaf cert: %v", err)
	}
	l.pri = pri
	l.cert = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	return l
}
