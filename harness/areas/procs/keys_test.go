package procs

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"
	"time"

	cs "github.com/chanjarster/gears/confstore"
	rsautil "github.com/chanjarster/gears/util/rsa"
	"verif/hx"
)

type KIn struct {
	Docs [][]string
	Bits [2]int
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func TestKeys(t *testing.T) {
	var in KIn
	hx.In(t, &in)
	k := [2]*rsa.PrivateKey{must(rsa.GenerateKey(rand.Reader, in.Bits[0])), must(rsa.GenerateKey(rand.Reader, in.Bits[1]))}
	ec := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tpl := &x509.Certificate{SerialNumber: big.NewInt(7), NotAfter: time.Now().Add(time.Hour)}
	cert := must(x509.CreateCertificate(rand.Reader, tpl, tpl, &k[0].PublicKey, k[0]))
	der := map[string][]byte{
		"priv1": x509.MarshalPKCS1PrivateKey(k[0]), "priv2": x509.MarshalPKCS1PrivateKey(k[1]),
		"pub1": must(x509.MarshalPKIXPublicKey(&k[0].PublicKey)), "pub2": must(x509.MarshalPKIXPublicKey(&k[1].PublicKey)),
		"cert1": cert, "ec": must(x509.MarshalPKIXPublicKey(&ec.PublicKey)), "pkcs8": must(x509.MarshalPKCS8PrivateKey(k[0])),
		"junk": []byte("this is no key at all, though it is encoded data"),
	}
	// numbers that do not belong together
	type num struct {
		Version               int
		N                     *big.Int
		E                     int
		D, P, Q, Dp, Dq, Qinv *big.Int
	}
	altered := func(f func(n *num)) []byte {
		var n num
		if _, err := asn1.Unmarshal(der["priv1"], &n); err != nil {
			panic(err)
		}
		f(&n)
		return must(asn1.Marshal(n))
	}
	der["priv-d"] = altered(func(n *num) { n.D = new(big.Int).Xor(n.D, new(big.Int).Lsh(big.NewInt(1), uint(n.D.BitLen()/2))) })
	der["priv-p"] = altered(func(n *num) { n.P = new(big.Int).Add(n.P, big.NewInt(2)) })
	der["priv-mix"] = altered(func(n *num) { n.N, n.D = k[1].N, k[1].D })
	der["priv-tail"] = append(bytes.Clone(der["priv1"]), 0)
	der["pub-tail"] = append(bytes.Clone(der["pub1"]), 5, 0)
	der["cert-tail"] = append(bytes.Clone(cert), 1, 2, 3)
	der["rsapub"] = x509.MarshalPKCS1PublicKey(&k[0].PublicKey)
	der["pub-alg"] = bytes.Replace(der["pub1"], []byte{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01}, []byte{0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x7e}, 1)
	der["trunc"] = der["priv1"][:len(der["priv1"])/2]
	head := map[string]string{"priv": "RSA PRIVATE KEY", "pub": "PUBLIC KEY", "cert": "CERTIFICATE", "pkcs8": "PRIVATE KEY", "rsapub": "RSA PUBLIC KEY", "xcert": "X509 CERTIFICATE", "lower": "Public Key"}
	text := func(tok string) string {
		if one := strings.TrimSuffix(tok, "-one"); one != tok {
			return base64.StdEncoding.EncodeToString(der[one])
		}
		if tok == "t" {
			return "text without meaning: it is skipped"
		}
		switch tok[:2] {
		case "B:":
			return "-----BEGIN " + head[tok[2:]] + "-----"
		case "E:":
			return "-----END " + head[tok[2:]] + "-----"
		case "W:":
			return strings.TrimSuffix(must(rsautil.ExtractPublicKeyPem(k[int(tok[5]-'1')])), "\n")
		}
		if d := der[tok]; d != nil {
			l := strings.Split(string(pem.EncodeToMemory(&pem.Block{Type: "X", Bytes: d})), "\n")
			return strings.Join(l[1:len(l)-2], "\n")
		}
		return "text without meaning: it is skipped"
	}
	name := func(v any) string {
		if reflect.ValueOf(v).IsNil() {
			return "nothing"
		}
		switch v := v.(type) {
		case *rsa.PrivateKey:
			for i := range k {
				if k[i].Equal(v) && v.Validate() == nil {
					return fmt.Sprint("priv", i+1)
				}
			}
		case *rsa.PublicKey:
			for i := range k {
				if k[i].PublicKey.Equal(v) {
					return fmt.Sprint("pub", i+1)
				}
			}
		case *x509.Certificate:
			if bytes.Equal(v.Raw, cert) {
				return "cert1"
			}
		}
		return fmt.Sprintf("other %T", v)
	}
	res := func(v any, err error) string {
		if err != nil {
			return "err"
		}
		return name(v)
	}
	proc := func(p cs.ValueProcessor, s string) string {
		if ok, _ := p.Validate(s); !ok {
			return "err"
		}
		v := p.Convert(s)
		switch v := v.(type) {
		case *rsa.PrivateKey:
			if v == nil {
				return "none"
			}
		case *rsa.PublicKey:
			if v == nil {
				return "none"
			}
		}
		return name(v)
	}
	read := func(kind, via, s string) (r string) {
		defer func() {
			if p := recover(); p != nil {
				r = "err"
				if !strings.HasPrefix(via, "must") {
					r = "panic"
				}
			}
		}()
		switch kind + " " + via {
		case "priv str":
			v, err := rsautil.ReadPrivateKey(s)
			return res(v, err)
		case "priv bytes":
			v, err := rsautil.ReadPrivateKeyBytes([]byte(s))
			return res(v, err)
		case "priv must":
			return name(rsautil.MustReadPrivateKey(s))
		case "priv mustbytes":
			return name(rsautil.MustReadPrivateKeyBytes([]byte(s)))
		case "priv proc":
			return proc(cs.RsaPrivateKeyPkcs1, s)
		case "pub str":
			v, err := rsautil.ReadPublicKey(s)
			return res(v, err)
		case "pub bytes":
			v, err := rsautil.ReadPublicKeyBytes([]byte(s))
			return res(v, err)
		case "pub must":
			return name(rsautil.MustReadPublicKey(s))
		case "pub mustbytes":
			return name(rsautil.MustReadPublicKeyBytes([]byte(s)))
		case "pub proc":
			return proc(cs.RsaPublicKey, s)
		case "cert str":
			v, err := rsautil.ReadX509Certificate(s)
			return res(v, err)
		case "cert bytes":
			v, err := rsautil.ReadX509CertificateBytes([]byte(s))
			return res(v, err)
		case "cert mustbytes":
			return name(rsautil.MustReadX509CertificateBytes([]byte(s)))
		}
		return "-"
	}
	ts := &hx.Traces{}
	for _, d := range in.Docs {
		evs := []hx.Ev{}
		var l []string
		for _, tok := range d {
			evs = append(evs, hx.Ev{"e": "put", "t": tok})
			l = append(l, text(tok))
		}
		s := strings.Join(l, "\n")
		for _, kind := range []string{"priv", "pub", "cert"} {
			for _, via := range []string{"str", "bytes", "must", "mustbytes", "proc"} {
				if r := read(kind, via, s); r != "-" {
					evs = append(evs, hx.Ev{"e": "read", "k": kind, "via": via, "r": r})
				}
			}
		}
		ts.Add(map[string]any{"ev": evs})
	}
	hx.OutTraces(t, ts)
}
