package w

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"sync"
	"time"
)

// Good certificates are verified by those who trust the authority, the others
// by nobody.
var (
	TLSGood = []string{"ok", "chain"}
	TLSBad  = []string{"self", "host", "hostip", "expired", "future", "otherca", "usage", "leafca"}
)

var (
	tlsOnce  sync.Once
	tlsCerts map[string]tls.Certificate
	tlsCA    []byte
)

func makeCerts() {
	tlsCerts = map[string]tls.Certificate{}
	serial := int64(1)
	key := func() *ecdsa.PrivateKey {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		return k
	}
	base := func(cn string) *x509.Certificate {
		serial++
		return &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn, Organization: []string{cn}},
			NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(20 * 365 * 24 * time.Hour)}
	}
	sign := func(t, parent *x509.Certificate, pub, by *ecdsa.PrivateKey) []byte {
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &pub.PublicKey, by)
		must(err)
		return der
	}
	ca := func(cn string) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		t, k := base(cn), key()
		t.IsCA, t.BasicConstraintsValid, t.KeyUsage = true, true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature
		return t, k, sign(t, t, k, k)
	}
	root, rootKey, rootDER := ca("Scratch Root")
	// an authority of the same name that nobody trusts
	other, otherKey, _ := ca("Scratch Root")
	tlsCA = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: rootDER})
	leaf := func(cn string) *x509.Certificate {
		t := base(cn)
		t.KeyUsage, t.ExtKeyUsage = x509.KeyUsageDigitalSignature, []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		t.IPAddresses, t.DNSNames = []net.IP{net.ParseIP("127.0.0.1")}, []string{"localhost"}
		return t
	}
	for _, kind := range append(append([]string{}, TLSGood...), TLSBad...) {
		t, k := leaf(kind), key()
		parent, by := root, rootKey
		var more [][]byte
		switch kind {
		case "self":
			parent, by = t, k
		case "host":
			t.IPAddresses, t.DNSNames = nil, []string{"other.example"}
		case "hostip":
			t.IPAddresses = []net.IP{net.ParseIP("127.0.0.2")}
		case "expired":
			t.NotAfter = time.Now().Add(-24 * time.Hour)
		case "future":
			t.NotBefore = time.Now().Add(24 * time.Hour)
		case "otherca":
			parent, by = other, otherKey
		case "usage":
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
		case "chain", "leafca":
			i, ik := base("Scratch Middle"), key()
			i.BasicConstraintsValid, i.IsCA, i.KeyUsage = true, kind == "chain", x509.KeyUsageDigitalSignature
			if i.IsCA {
				i.KeyUsage |= x509.KeyUsageCertSign
			}
			more = append(more, sign(i, root, ik, rootKey))
			parent, by = i, ik
		}
		tlsCerts[kind] = tls.Certificate{Certificate: append([][]byte{sign(t, parent, k, by)}, more...), PrivateKey: k}
	}
}

// TLSRoot is the certificate of the authority, for SSL_CERT_FILE.
func TLSRoot() []byte {
	tlsOnce.Do(makeCerts)
	return tlsCA
}

// NewTLSServer starts a server that presents a certificate of the kind.
func NewTLSServer(dir, kind string) *Server {
	tlsOnce.Do(makeCerts)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &Server{dir: dir, l: l, seen: map[string]int{}, tls: true}
	s.srv = &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0)}
	tl := tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{tlsCerts[kind]}})
	go func() { _ = s.srv.Serve(tl) }()
	return s
}
