package main

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2/cert"
)

func init() {
	drivers["C19"] = driveC19
	drivers["C20"] = driveC20
	drivers["C21"] = driveC21
	drivers["C22"] = driveC22
	drivers["C23"] = driveC23
	drivers["C24"] = driveC24
	drivers["C25"] = driveC25
}

func (c *Ctx) csrOf(k *Key, id []byte) []byte {
	var r []byte
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "c", Organization: []string{"o"}}, DNSNames: []string{"a.b"},
		ExtraExtensions: []pkix.Extension{{Id: extOID(15), Value: []byte{3, 2, 5, 0xa0}}}}
	if c.Rng.Intn(2) == 0 {
		t = c.someCSR()
	}
	With(c.NewStream(), func() {
		DoErr(func() (err error) { r, err = cert.CreateCertificateRequest(t, k.Pub, k.Priv, id); return })
	})
	return r
}

// ---------------------------------------------------------------- C19

// a template by its structure, from GenCSR
type plan struct {
	Attrs []struct {
		Er   bool
		Vals [][]string
	}
	Extra []string
	Names bool
}

func (c *Ctx) plans(n int) (out []plan) {
	for _, line := range genLines(c.Gen) {
		var m plan
		if json.Unmarshal([]byte(line), &m) == nil {
			out = append(out, m)
		}
	}
	c.Rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if len(out) > n {
		out = out[:n]
	}
	return
}

func (c *Ctx) ofPlan(m plan) *x509.CertificateRequest {
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: "planned"}}
	oids := map[string]asn1.ObjectIdentifier{"A": c.readableOID(), "B": c.readableOID(), "S": extOID(17)}
	if c.Rng.Intn(2) == 0 { // standard ones
		oids["A"], oids["B"] = extOID(15), extOID(37)
	}
	val := func(x string) []byte {
		switch {
		case x == "S":
			return c.goodValue(17)
		case oids[x].Equal(extOID(15)):
			return c.goodValue(15)
		case oids[x].Equal(extOID(37)):
			return c.goodValue(37)
		}
		return c.Bytes(c.Rng.Intn(6))
	}
	for _, a := range m.Attrs {
		at := pkix.AttributeTypeAndValueSET{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}}
		if !a.Er {
			at.Type = []asn1.ObjectIdentifier{{1, 2, 840, 113549, 1, 9, 7}, {1, 2, 840, 113549, 1, 9, 2}, {2, 5, 4, 3}}[c.Rng.Intn(3)]
		}
		for _, v := range a.Vals {
			var items []pkix.AttributeTypeAndValue
			for _, x := range v {
				it := pkix.AttributeTypeAndValue{Type: oids[x], Value: val(x)}
				if !a.Er {
					it.Value = c.someString()
				}
				items = append(items, it)
			}
			if c.Rng.Intn(2) == 0 {
				items = append(make([]pkix.AttributeTypeAndValue, 0, len(items)+4), items...)
			}
			at.Value = append(at.Value, items)
		}
		t.Attributes = append(t.Attributes, at)
	}
	for _, x := range m.Extra {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: oids[x], Critical: c.Rng.Intn(2) == 0, Value: val(x)})
	}
	if m.Names {
		switch c.Rng.Intn(5) {
		case 0:
			t.DNSNames = []string{c.someDNS()}
		case 1:
			t.EmailAddresses = []string{c.someEmail()}
		case 2:
			t.IPAddresses = []net.IP{c.someIP()}
		case 3:
			t.URIs = []*url.URL{c.someURL()}
		case 4:
			t.URIs, t.DNSNames = []*url.URL{c.someURL(), c.someURL()}, []string{c.someDNS(), c.someDNS()}
		}
	}
	return t
}

func driveC19(c *Ctx) {
	ps := c.plans(c.N(1200, 100000))
	for len(ps) > 0 {
		k := 8
		if k > len(ps) {
			k = len(ps)
		}
		part := ps[:k]
		ps = ps[k:]
		key := c.randKey()
		c.Trace(func() {
			id := c.someId()
			for _, m := range part {
				if der := c.createCSR(c.ofPlan(m), key.Pub, key, id, c.NewStream()); der != nil {
					c.parseCSR(der)
				}
			}
		})
	}
	keys := c.specialKeys()
	for i := 0; i < c.N(400, 4000); i++ {
		k := c.randKey()
		if i < len(keys) {
			k = keys[i]
		}
		c.Trace(func() {
			id := c.someId()
			t := c.someCSR()
			if i%33 == 7 {
				c.enlarge(nil, t)
			}
			switch c.Rng.Intn(14) {
			case 0:
				t.Subject.Locality = append(t.Subject.Locality, c.badString())
			case 1:
				t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: c.refusedOID(), Value: []byte{1}})
			case 2:
				id = c.Bytes([]int{8191, 8192, 8193, 9000}[c.Rng.Intn(4)])
			case 3:
				t.Attributes = append(t.Attributes, pkix.AttributeTypeAndValueSET{Type: c.refusedOID()})
			}
			s := c.NewStream()
			if c.Rng.Intn(20) == 0 {
				s = c.Script(c.Bytes(c.Rng.Intn(32)))
			}
			pub := k.Pub
			if c.Rng.Intn(15) == 0 {
				pub = c.randKey().Pub
			}
			if der := c.createCSR(t, pub, k, id, s); der != nil {
				c.parseCSR(der)
				c.verifyCSR(der, id)
				if c.Rng.Intn(3) == 0 { // the same template again
					if der := c.createCSR(t, k.Pub, k, id, c.NewStream()); der != nil {
						c.verifyCSR(der, id)
					}
				}
			}
		})
	}
}

// ---------------------------------------------------------------- C20

func zaOf(k *Key, id []byte) []byte { return ownZ(k, id) }

func digestE(k *Key, id, m []byte) *big.Int {
	if id == nil {
		id = []byte("1234567812345678")
	}
	return new(big.Int).SetBytes(sm3sum(append(cp(ownZ(k, id)), m...)))
}

// sealed signs info with our own arithmetic
func (c *Ctx) sealed(info *node, k *Key, id []byte) []byte {
	r, s := ownSign(k, digestE(k, id, info.enc()), c.randScalar(nMinus(1)))
	return c.sealWith(info, cons(0x30, derInt(r), derInt(s)).enc())
}
func sm2Alg() *node { return cons(0x30, prim(6, oidBytes(1, 2, 156, 10197, 1, 501))) }
func (c *Ctx) sealWith(info *node, sig []byte) []byte {
	return cons(0x30, info, sm2Alg(), prim(3, append([]byte{0}, sig...))).enc()
}
func oidBytes(o ...int) []byte {
	b, err := asn1.Marshal(asn1.ObjectIdentifier(o))
	if err != nil {
		panic(err)
	}
	return b[2:]
}
func spkiNode(point []byte) *node {
	return cons(0x30, cons(0x30, prim(6, oidBytes(1, 2, 840, 10045, 2, 1)), prim(6, oidBytes(1, 2, 156, 10197, 1, 301))), prim(3, append([]byte{0}, point...)))
}
func point(k *Key) []byte { return append(append([]byte{4}, pad32(k.x)...), pad32(k.y)...) }
func cnName(s string) *node {
	return cons(0x30, cons(0x31, cons(0x30, prim(6, []byte{0x55, 4, 3}), prim(19, []byte(s)))))
}
func csrInfo(k *Key, cn string, attrs ...*node) *node {
	return cons(0x30, prim(2, []byte{0}), cnName(cn), spkiNode(point(k)), cons(0xa0, attrs...))
}

// oddAttrs gives attributes of a request: passwords, extension requests with critical extensions, several
// values, several requests, and now and then something that is no extension request at all.
func (c *Ctx) oddAttrs() []*node {
	var as []*node
	req := oidBytes(1, 2, 840, 113549, 1, 9, 14)
	exts := func() *node {
		var es []*node
		for i := c.Rng.Intn(4); i >= 0; i-- {
			id := knownIds[c.Rng.Intn(len(knownIds))]
			if id == 17 && c.Rng.Intn(3) > 0 {
				id = 15
			}
			es = append(es, extNode(knownOid(id), c.Rng.Intn(2) == 0, c.goodValue(id)))
		}
		return cons(0x30, es...)
	}
	o := prim(6, oidBytes(1, 2, 3))
	wrong := []*node{prim(5, nil), prim(2, []byte{7}), prim(4, []byte{0x30, 0}), cons(0x31), cons(0x30, prim(5, nil)), cons(0x30, cons(0x30)), cons(0x30, cons(0x30, o)),
		cons(0x30, cons(0x30, o, prim(12, []byte("x")))), cons(0x30, cons(0x30, o, prim(1, []byte{255}))), cons(0x30, cons(0x30, prim(4, []byte{1}), o)),
		cons(0x30, cons(0x30, o, prim(1, []byte{255}), prim(12, []byte("y")))), cons(0x30, cons(0x30, o, prim(4, nil)), prim(2, []byte{1})), cons(0x30, cons(0x31, o, prim(4, nil)))}
	for i := c.Rng.Intn(4); i >= 0; i-- {
		switch c.Rng.Intn(8) {
		case 0:
			as = append(as, cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 9, 7)), cons(0x31, prim(12, []byte("secret")))))
		case 1:
			as = append(as, cons(0x30, prim(6, oidBytes(1, 2, 3, 4)), cons(0x31, cons(0x30, cons(0x30, o, prim(19, []byte("v")))))))
		case 2:
			as = append(as, cons(0x30, prim(6, req), cons(0x31, wrong[c.Rng.Intn(len(wrong))])))
		case 3:
			as = append(as, cons(0x30, prim(6, req), cons(0x31)))
		case 4: // a second value, which counts for nothing
			as = append(as, cons(0x30, prim(6, req), cons(0x31, cons(0x30, extNode(knownOid(15), false, c.goodValue(15))), cons(0x30, exts().kids...))))
		default:
			as = append(as, cons(0x30, prim(6, req), cons(0x31, exts())))
		}
	}
	return as
}

func driveC20(c *Ctx) {
	check := func(der, id []byte) {
		c.verifyCSR(der, id)
		if c.Rng.Intn(3) == 0 {
			c.verifyParsed(der, id)
		}
	}
	ks := append(c.specialKeys(), c.randKey(), c.randKey())
	for i := 0; i < c.N(40, 200); i++ {
		k := ks[i%len(ks)]
		id := c.someId()
		der := c.csrOf(k, id)
		if der == nil {
			continue
		}
		other := c.randKey()
		c.Trace(func() {
			c.full = true
			defer func() { c.full = false }()
			check(der, id)
			check(der, c.someId())
			check(der, append(cp(id), 0))
			if len(id) > 0 {
				check(der, flip(id, c.Rng.Intn(8*len(id))))
				check(der, id[:len(id)-1])
			} else {
				check(der, []byte("1234567812345678"))
				check(der, []byte{})
			}
			check(der, nil)
		})
		c.Trace(func() { // single-bit changes
			n := c.N(40, 400)
			for j := 0; j < n; j++ {
				check(flip(der, c.Rng.Intn(8*len(der))), id)
			}
		})
		c.Trace(func() {
			for _, v := range c.derVariants(der, c.N(25, 200)) {
				check(v, id)
			}
			for j := 0; j < 4; j++ {
				check(der[:c.Rng.Intn(len(der))], id)
			}
			check(append(cp(der), 0), id)
			check(append(cp(der), der...), id)
		})
		c.Trace(func() { // requests put together here
			info := csrInfo(k, "mine")
			check(c.sealed(info, k, id), id)
			check(c.sealed(info, other, id), id)               // signed by another key
			check(c.sealed(csrInfo(other, "mine"), k, id), id) // another key inside
			check(c.sealed(csrInfo(other, "mine"), other, id), id)
			full := c.sealed(info, k, id)
			ts := parseDER(full)[0]
			sig := ts.kids[2].body[1:]
			check(c.sealWith(csrInfo(k, "minf"), sig), id) // the signature of another subject
			check(c.sealWith(csrInfo(other, "mine"), sig), id)
			// the signature encoded differently
			for _, v := range c.derVariants(sig, c.N(12, 60)) {
				check(c.sealWith(info, v), id)
			}
			r, s := new(big.Int).SetBytes(parseDER(sig)[0].kids[0].body), new(big.Int).SetBytes(parseDER(sig)[0].kids[1].body)
			for _, p := range [][2]*big.Int{{bigAdd(r, stdN), s}, {r, bigAdd(s, stdN)}, {new(big.Int).Neg(r), s}, {r, bigSub(s, stdN)}, {s, r}, {r, bigSub(stdN, s)}, {new(big.Int), s}, {r, new(big.Int)}, {stdN, s}} {
				check(c.sealWith(info, cons(0x30, derInt(p[0]), derInt(p[1])).enc()), id)
			}
			check(c.sealWith(info, nil), id)
			check(c.sealWith(info, []byte{0x30, 0}), id)
			check(c.sealWith(info, c.Bytes(70)), id)
			check(c.sealWith(info, append(cp(sig), 0)), id)
			// signed bytes in another form: the info is not what the signature is over
			odd := cons(0x30, prim(2, []byte{0}), cnName("mine"), spkiNode(point(k)), cons(0xa0), prim(5, nil))
			check(c.sealWith(odd, sig), id)
			check(c.sealed(odd, k, id), id)
			check(c.sealed(csrInfo(k, "mine", prim(5, nil)), k, id), id)
			check(c.sealed(csrInfo(k, "mine", cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 9, 7)), cons(0x31, prim(12, []byte("secret"))))), k, id), id)
			for _, bad := range c.oddPoints(k) {
				inf := cons(0x30, prim(2, []byte{0}), cnName("mine"), spkiNode(bad), cons(0xa0))
				check(c.sealed(inf, k, id), id)
			}
		})
	}
	for i := 0; i < c.N(20, 150); i++ { // other attributes, signed
		c.Trace(func() {
			for j := 0; j < 4; j++ {
				id, k := c.someId(), ks[c.Rng.Intn(len(ks))]
				check(c.sealed(csrInfo(k, "mine", c.oddAttrs()...), k, id), id)
			}
		})
	}
	// large requests: a change anywhere counts
	for i := 0; i < c.N(12, 100); i++ {
		k := c.randKey()
		c.Trace(func() {
			id := c.someId()
			info := csrInfo(k, strings.Repeat("n", bigSizes[c.Rng.Intn(len(bigSizes)-6)]))
			der := c.sealed(info, k, id)
			check(der, id)
			check(flip(der, 8*(len(der)-80)-1-c.Rng.Intn(8*100)), id)
			check(flip(der, c.Rng.Intn(8*len(der))), id)
		})
	}
	c.Trace(func() {
		for i := 0; i < c.N(60, 1000); i++ {
			check(c.Content(c.Rng.Intn(200)), nil)
		}
	})
}

// oddPoints: public keys that are not (or not in the usual form) points of the curve
func (c *Ctx) oddPoints(k *Key) [][]byte {
	p := point(k)
	x, y := k.x, k.y
	comp := append([]byte{2 + byte(y.Bit(0))}, pad32(x)...)
	hyb := cp(p)
	hyb[0] = 6 + byte(y.Bit(0))
	raw := func(x, y *big.Int) []byte { return append(append([]byte{4}, pad32(x)...), pad32(y)...) }
	res := [][]byte{flip(p, 8+c.Rng.Intn(512)), comp, hyb, p[:64], append(cp(p), 0), p[1:], {0}, {}, make([]byte, 65), append([]byte{4}, make([]byte, 64)...), raw(x, bigSub(stdP, y)),
		raw(stdP, y), raw(x, stdP), flip(p, c.Rng.Intn(8)), p[:33], append([]byte{0}, p...)}
	if x.BitLen() < 256 {
		if z := bigAdd(x, stdP); z.BitLen() <= 256 {
			res = append(res, raw(z, y))
		}
	}
	return res
}

// ---------------------------------------------------------------- combinations of extensions, from GenX509

type combo struct {
	F                 []string
	Empty, Self, Pski bool
}

var comboIds = []int{15, 37, 19, 14, 35, 1, 17, 32, 30, 31}

// genLines gives the scenarios TLC printed
func genLines(file string) []string {
	if file == "" {
		return nil
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func loadCombos(file string) (out []combo) {
	for _, line := range genLines(file) {
		var m combo
		if json.Unmarshal([]byte(line), &m) == nil && len(m.F) == len(comboIds) {
			out = append(out, m)
		}
	}
	return
}

// ofCombo is a template and a parent as m says, with random values.
func (c *Ctx) ofCombo(m combo) (t, p *x509.Certificate) {
	field := func(i int) bool { return i >= 1 && i <= 10 && (m.F[i-1] == "field" || m.F[i-1] == "both") }
	t = c.template(field)
	if field(2) && len(t.ExtKeyUsage)+len(t.UnknownExtKeyUsage) == 0 {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsage(c.Rng.Intn(14))}
	}
	if field(6) && len(t.OCSPServer)+len(t.IssuingCertificateURL) == 0 {
		t.IssuingCertificateURL = []string{c.uri()}
	}
	if field(7) && len(t.DNSNames)+len(t.EmailAddresses)+len(t.IPAddresses)+len(t.URIs) == 0 {
		t.IPAddresses = []net.IP{c.someIP()}
	}
	if field(8) && len(t.PolicyIdentifiers) == 0 {
		t.PolicyIdentifiers = []asn1.ObjectIdentifier{c.readableOID()}
	}
	if field(9) && len(t.PermittedDNSDomains)+len(t.ExcludedDNSDomains)+len(t.PermittedIPRanges)+len(t.ExcludedIPRanges)+len(t.PermittedEmailAddresses)+len(t.ExcludedEmailAddresses)+len(t.PermittedURIDomains)+len(t.ExcludedURIDomains) == 0 {
		t.ExcludedDNSDomains = []string{"x.example"}
	}
	if field(10) && len(t.CRLDistributionPoints) == 0 {
		t.CRLDistributionPoints = []string{c.uri()}
	}
	for i, w := range m.F {
		if w == "extra" || w == "both" {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: extOID(comboIds[i]), Critical: c.Rng.Intn(3) == 0, Value: c.goodValue(comboIds[i])})
		}
	}
	c.Rng.Shuffle(len(t.ExtraExtensions), func(i, j int) {
		t.ExtraExtensions[i], t.ExtraExtensions[j] = t.ExtraExtensions[j], t.ExtraExtensions[i]
	})
	if !m.Empty {
		t.Subject.CommonName = "subject"
	}
	p = &x509.Certificate{}
	if m.Self {
		p.Subject = t.Subject
	} else {
		p.Subject.CommonName = "issuer"
	}
	if m.Pski {
		p.SubjectKeyId = c.Bytes(1 + c.Rng.Intn(20))
	}
	return
}

// combos runs do on every combination, some in each trace
func (c *Ctx) combos(do func(t, p *x509.Certificate, csr *x509.CertificateRequest)) {
	ms := loadCombos(c.Gen)
	for len(ms) > 0 {
		k := 8
		if k > len(ms) {
			k = len(ms)
		}
		part := ms[:k]
		ms = ms[k:]
		c.Trace(func() {
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(c.basePoint()).enc()}
			for _, m := range part {
				t, p := c.ofCombo(m)
				do(t, p, csr)
			}
		})
	}
}

// ---------------------------------------------------------------- C21

func driveC21(c *Ctx) {
	c.combos(func(t, p *x509.Certificate, csr *x509.CertificateRequest) { c.createInfo(t, p, csr) })
	for i := 0; i < c.N(1500, 15000); i++ {
		c.Trace(func() {
			t, p := c.someTemplate(), c.someParent()
			if i%60 == 7 {
				c.enlarge(t, nil)
			}
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(c.randKey())).enc()}
			switch c.Rng.Intn(10) {
			case 0: // self-issued
				p = t
			case 1:
				p = &x509.Certificate{Subject: t.Subject, RawSubject: t.RawSubject, SubjectKeyId: c.Bytes(8)}
			case 2: // the same name in another form
				if t.RawSubject == nil {
					b, err := asn1.Marshal(t.Subject.ToRDNSequence())
					if err == nil {
						p = &x509.Certificate{RawSubject: b, SubjectKeyId: c.Bytes(8)}
					}
				}
			case 3:
				t.Subject, t.RawSubject = pkix.Name{}, nil
				if c.Rng.Intn(2) == 0 {
					t.RawSubject = []byte{0x30, 0}
				}
			}
			switch c.Rng.Intn(22) {
			case 0:
				t.SerialNumber = nil
			case 1:
				t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsage([]int{14, 15, 99, -1}[c.Rng.Intn(4)]))
			case 2:
				t.UnknownExtKeyUsage = append(t.UnknownExtKeyUsage, c.refusedOID())
			case 3:
				t.PolicyIdentifiers = append(t.PolicyIdentifiers, c.refusedOID())
			case 4:
				t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: c.refusedOID()})
			case 5:
				t.Subject.Organization = append(t.Subject.Organization, c.badString())
			case 6:
				p.Subject.Organization = append(p.Subject.Organization, c.badString())
			case 7:
				t.NotAfter = time.Date([]int{-1, 10000, 12345}[c.Rng.Intn(3)], 1, 1+c.Rng.Intn(2), 0, 0, 0, 0, time.UTC)
			case 8:
				s := c.pick("é.com", "\xff", "a\x80", "中")
				switch c.Rng.Intn(6) {
				case 0:
					t.PermittedDNSDomains = append(t.PermittedDNSDomains, s)
				case 1:
					t.ExcludedDNSDomains = append([]string{s}, t.ExcludedDNSDomains...)
				case 2:
					t.PermittedEmailAddresses = append(t.PermittedEmailAddresses, s)
				case 3:
					t.ExcludedEmailAddresses = append(t.ExcludedEmailAddresses, s)
				case 4:
					t.PermittedURIDomains = append(t.PermittedURIDomains, s)
				case 5:
					t.ExcludedURIDomains = append(t.ExcludedURIDomains, s)
				}
			case 9:
				vs := c.derVariants(csr.RawSubjectPublicKeyInfo, 1)
				csr.RawSubjectPublicKeyInfo = vs[0]
			case 10:
				csr.RawSubjectPublicKeyInfo = append(cp(csr.RawSubjectPublicKeyInfo), 0)
			case 11:
				csr.RawSubjectPublicKeyInfo = [][]byte{nil, {}, {0x30, 0}, c.Bytes(20)}[c.Rng.Intn(4)]
			case 12: // another kind of key: taken as it is
				csr.RawSubjectPublicKeyInfo = cons(0x30, cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 1, 1)), prim(5, nil)), prim(3, append([]byte{0}, c.Bytes(30)...))).enc()
			case 13:
				csr.RawSubjectPublicKeyInfo = cons(0x30, cons(0x30, prim(6, oidBytes(1, 2, 3))), prim(3, []byte{byte(c.Rng.Intn(10)), byte(c.Rng.Intn(256))})).enc()
			}
			c.createInfo(t, p, csr)
			if c.Rng.Intn(4) == 0 {
				c.createInfo(t, p, csr) // nothing was used up by the first call
			}
		})
	}
	// every key usage value, every extended key usage, path lengths
	c.Trace(func() {
		csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(c.randKey())).enc()}
		p := &x509.Certificate{}
		for ku := 1; ku < 512; ku++ {
			if c.Thorough() || ku&(ku-1) == 0 || ku > 500 || c.Rng.Intn(4) == 0 {
				c.createInfo(&x509.Certificate{SerialNumber: one, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1, 0), KeyUsage: x509.KeyUsage(ku)}, p, csr)
			}
		}
		for u := -1; u < 17; u++ {
			c.createInfo(&x509.Certificate{SerialNumber: one, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1, 0), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsage(u)}}, p, csr)
		}
		for _, n := range []int{-1, 0, 1, 127, 128} {
			for f := 0; f < 4; f++ {
				c.createInfo(&x509.Certificate{SerialNumber: one, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1, 0), BasicConstraintsValid: true, MaxPathLen: n, MaxPathLenZero: f&1 == 1, IsCA: f&2 == 2}, p, csr)
			}
		}
	})
	// each extension asked for by fields and given explicitly
	for _, id := range knownIds {
		c.Trace(func() {
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(c.randKey())).enc()}
			full := func() *x509.Certificate {
				for {
					t := c.template(func(i int) bool { return i < 11 })
					t.KeyUsage = 5
					t.OCSPServer = []string{"http://o"}
					t.DNSNames = []string{"d"}
					t.PermittedDNSDomains = []string{"p"}
					t.ExtKeyUsage = []x509.ExtKeyUsage{1}
					t.PolicyIdentifiers = []asn1.ObjectIdentifier{{1, 2, 3}}
					t.CRLDistributionPoints = []string{"http://c"}
					return t
				}
			}
			t := full()
			t.ExtraExtensions = []pkix.Extension{c.someExt(), {Id: extOID(id), Value: []byte("explicit")}}
			c.createInfo(t, c.someParent(), csr)
			t.ExtraExtensions = t.ExtraExtensions[:1]
			c.createInfo(t, c.someParent(), csr)
		})
	}
	// templates filled from requests
	for i := 0; i < c.N(100, 1500); i++ {
		c.Trace(func() {
			der := c.csrOf(c.randKey(), nil)
			if der == nil {
				return
			}
			csr := c.parseCSR(der)
			if csr == nil {
				return
			}
			t := c.someTemplate()
			c.fill(t, csr)
			c.createInfo(t, c.someParent(), csr)
		})
	}
}

// ---------------------------------------------------------------- C22

func driveC22(c *Ctx) {
	keys := c.specialKeys()
	for i := 0; i < c.N(400, 3500); i++ {
		ca := c.randKey()
		if i < len(keys) {
			ca = keys[i]
		}
		c.Trace(func() {
			t, p := c.someTemplate(), c.someParent()
			if i%33 == 7 {
				c.enlarge(t, nil)
			}
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(c.randKey())).enc()}
			ownParts(t)
			ownParts(p)
			info := c.createInfo(t, p, csr)
			if info == nil {
				return
			}
			if c.Rng.Intn(3) == 0 { // what it was made from does not matter any more
				reuse(t)
				reuse(p)
				for i := range csr.RawSubjectPublicKeyInfo {
					csr.RawSubjectPublicKeyInfo[i] ^= 0x81
				}
				csr = &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(c.randKey())).enc()}
			}
			var info2 *cert.TBSCertificate
			if c.Rng.Intn(2) == 0 { // another one in between
				info2 = c.createInfo(c.someTemplate(), p, csr)
			}
			id := c.someId()
			if c.Rng.Intn(12) == 0 {
				id = c.Bytes([]int{8191, 8192, 8193, 9000}[c.Rng.Intn(4)])
			}
			s := c.NewStream()
			if c.Rng.Intn(15) == 0 {
				s = c.Script(c.Bytes(c.Rng.Intn(32)))
			}
			if der := c.issue(info, ca, id, s); der != nil {
				c.parseCert(der)
			}
			if info2 != nil {
				if der := c.issue(info2, ca, c.someId(), c.NewStream()); der != nil {
					c.parseCert(der)
				}
			}
			// a signature made elsewhere
			sig := c.Content([]int{0, 1, 70, 71, 72, 64, 127, 128, 300}[c.Rng.Intn(9)])
			if der := c.createCert(info, sig); der != nil {
				c.parseCert(der)
			}
			reuse(t)
			reuse(p)
			if der := c.createCert(info, c.Bytes(70)); der != nil {
				c.parseCert(der)
			}
		})
	}
}

// ---------------------------------------------------------------- certificates built here

type certParts struct {
	version, serial, inner, issuer, validity, subject, spki *node
	uids                                                    []*node
	exts                                                    []*node // nil: no extensions
	noExts                                                  bool
	more                                                    []*node // behind the known fields
	outer, sig                                              *node
}

func (c *Ctx) parts() *certParts {
	return &certParts{version: cons(0xa0, prim(2, []byte{2})), serial: prim(2, []byte{7}), inner: sm2Alg(), issuer: cnName("i"),
		validity: cons(0x30, prim(23, []byte("240102030405Z")), prim(23, []byte("340102030405Z"))), subject: cnName("s"),
		spki: spkiNode(c.basePoint()), outer: sm2Alg(), sig: prim(3, []byte{0, 0x30, 6, 2, 1, 1, 2, 1, 1})}
}

var basePt []byte

func (c *Ctx) basePoint() []byte {
	if basePt == nil {
		basePt = point(keyOf(0, big.NewInt(77)))
	}
	return basePt
}

func (p *certParts) der() []byte {
	var k []*node
	for _, n := range []*node{p.version, p.serial, p.inner, p.issuer, p.validity, p.subject, p.spki} {
		if n != nil {
			k = append(k, n)
		}
	}
	k = append(k, p.uids...)
	if !p.noExts {
		k = append(k, cons(0xa3, cons(0x30, p.exts...)))
	}
	k = append(k, p.more...)
	return cons(0x30, cons(0x30, k...), p.outer, p.sig).enc()
}

func extNode(oid []byte, crit bool, v []byte) *node {
	k := []*node{prim(6, oid)}
	if crit {
		k = append(k, prim(1, []byte{255}))
	}
	return cons(0x30, append(k, prim(4, v))...)
}
func knownOid(id int) []byte { return oidBytes(extOID(id)...) }

// certWith: a certificate with these extensions
func (c *Ctx) certWith(exts ...*node) []byte {
	p := c.parts()
	p.exts = exts
	if exts == nil {
		p.noExts = true
	}
	return p.der()
}

// request with these extensions asked for
func (c *Ctx) csrWith(exts ...*node) []byte {
	info := cons(0x30, prim(2, []byte{0}), cnName("r"), spkiNode(c.basePoint()),
		cons(0xa0, cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 9, 14)), cons(0x31, cons(0x30, exts...)))))
	return c.sealWith(info, []byte{0x30, 6, 2, 1, 1, 2, 1, 1})
}

// variety gives well-formed values of a known extension
func (c *Ctx) variety(id int) []byte {
	oid := func() *node { b, _ := asn1.Marshal(c.readableOID()); return prim(6, b[2:]) }
	rep := func(n int, f func() *node) (r []*node) {
		for i := 0; i < n; i++ {
			r = append(r, f())
		}
		return
	}
	n := 1 + c.Rng.Intn(4)
	gn := func() *node {
		switch c.Rng.Intn(9) {
		case 0:
			return cons(0xa0, oid(), cons(0xa0, prim(12, []byte("other"))))
		case 1:
			return prim(0x81, []byte(c.someEmail()))
		case 2:
			return prim(0x82, []byte(c.someDNS()))
		case 3:
			return cons(0xa4, cnName("dir"))
		case 4:
			return prim(0x86, []byte(c.pick("http://a.b/c", "https://h", "ldap://x.y/z", "ftp://a-b.c/~d_e")))
		case 5:
			return prim(0x87, c.Bytes(4))
		case 6:
			return prim(0x87, c.sixteen())
		case 7:
			return prim(0x88, oid().body)
		default:
			return cons(0xa3, prim(5, nil))
		}
	}
	switch id {
	case 14:
		return prim(4, c.Bytes(c.Rng.Intn(30))).enc()
	case 15:
		ku := 1 + c.Rng.Intn(511)
		var b [2]byte
		top := 0
		for i := 0; i < 9; i++ {
			if ku>>uint(i)&1 == 1 {
				b[i/8] |= 0x80 >> uint(i%8)
				top = i
			}
		}
		return prim(3, append([]byte{byte(7 - top%8)}, b[:top/8+1]...)).enc()
	case 17:
		return cons(0x30, rep(c.Rng.Intn(5), gn)...).enc()
	case 19:
		v := []*node{}
		if c.Rng.Intn(2) == 0 {
			v = append(v, prim(1, []byte{255}))
		}
		if c.Rng.Intn(2) == 0 {
			v = append(v, derInt(big.NewInt([]int64{0, 1, 127, 128, 255, 65536, 1<<31 - 1}[c.Rng.Intn(7)])))
		}
		return cons(0x30, v...).enc()
	case 30:
		sub := func() *node {
			switch c.Rng.Intn(6) {
			case 0:
				return cons(0x30, prim(0x82, []byte(c.goodDomain())))
			case 1:
				return cons(0x30, prim(0x81, []byte(c.goodMailbox())))
			case 2:
				return cons(0x30, prim(0x86, []byte(c.goodDomain())))
			case 3:
				m := c.someNet()
				ip := m.IP
				if len(m.Mask) == 4 {
					ip = ip.To4()
				}
				return cons(0x30, prim(0x87, append(cp(ip), m.Mask...)))
			case 4:
				return cons(0x30, cons(0xa4, cnName("d")))
			default:
				return cons(0x30, prim(0x88, []byte{0x2a, 3}))
			}
		}
		var v []*node
		if c.Rng.Intn(2) == 0 {
			v = append(v, cons(0xa0, rep(n, sub)...))
		}
		if c.Rng.Intn(2) == 0 || v == nil {
			v = append(v, cons(0xa1, rep(n, sub)...))
		}
		return cons(0x30, v...).enc()
	case 31:
		return cons(0x30, rep(n, func() *node {
			return cons(0x30, cons(0xa0, cons(0xa0, rep(1+c.Rng.Intn(3), func() *node {
				if c.Rng.Intn(4) == 0 {
					return cons(0xa4, cnName("dp"))
				}
				return prim(0x86, []byte(c.uri()))
			})...)))
		})...).enc()
	case 32:
		return cons(0x30, rep(n, func() *node { return cons(0x30, oid()) })...).enc()
	case 35:
		if c.Rng.Intn(8) == 0 {
			return []byte{0x30, 0}
		}
		return cons(0x30, prim(0x80, c.Bytes(c.Rng.Intn(30)))).enc()
	case 37:
		return cons(0x30, rep(n, func() *node {
			switch c.Rng.Intn(6) {
			case 0:
				return oid()
			case 1:
				return prim(6, [][]byte{oidBytes(2, 5, 29, 37, 0), oidBytes(1, 3, 6, 1, 4, 1, 311, 10, 3, 3), oidBytes(2, 16, 840, 1, 113730, 4, 1), oidBytes(1, 3, 6, 1, 4, 1, 311, 2, 1, 22), oidBytes(1, 3, 6, 1, 4, 1, 311, 61, 1, 1)}[c.Rng.Intn(5)])
			default:
				return prim(6, oidBytes(1, 3, 6, 1, 5, 5, 7, 3, c.Rng.Intn(12)))
			}
		})...).enc()
	case 1:
		return cons(0x30, rep(n, func() *node {
			m := prim(6, oidBytes(1, 3, 6, 1, 5, 5, 7, 48, 1+c.Rng.Intn(3)))
			if c.Rng.Intn(4) == 0 {
				return cons(0x30, m, cons(0xa4, cnName("dir")))
			}
			return cons(0x30, m, prim(0x86, []byte(c.uri())))
		})...).enc()
	}
	return nil
}

// ---------------------------------------------------------------- C23

func driveC23(c *Ctx) {
	c.combos(func(t, p *x509.Certificate, csr *x509.CertificateRequest) {
		var der []byte
		DoErr(func() error {
			info, err := cert.CreateCertificateInfo(t, p, csr)
			if err == nil {
				der, err = cert.CreateCertificate(info, c.Bytes(70))
			}
			return err
		})
		if der != nil {
			c.full = true
			c.parseCert(der)
			c.full = false
		}
	})
	// built by the library
	for i := 0; i < c.N(800, 8000); i++ {
		c.Trace(func() {
			t, p := c.someTemplate(), c.someParent()
			if i%40 == 7 {
				c.enlarge(t, nil)
			}
			if c.Rng.Intn(8) == 0 { // every single key usage etc.
				t.KeyUsage = 1 << uint(c.Rng.Intn(9))
			}
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(c.randKey())).enc()}
			var info *cert.TBSCertificate
			var err error
			if o := DoErr(func() error { info, err = cert.CreateCertificateInfo(t, p, csr); return err }); o != "ok" {
				return
			}
			var der []byte
			if o := DoErr(func() error { der, err = cert.CreateCertificate(info, c.Bytes(70)); return err }); o != "ok" {
				return
			}
			c.parseCert(der)
		})
	}
	// built here: any selection of extensions, in any order, critical or not
	for i := 0; i < c.N(1000, 10000); i++ {
		c.Trace(func() {
			p := c.parts()
			perm := c.Rng.Perm(len(knownIds) + 2)
			n := c.Rng.Intn(len(perm) + 1)
			if c.Rng.Intn(2) == 0 {
				n = c.Rng.Intn(3)
			}
			for _, j := range perm[:n] {
				if j < len(knownIds) {
					id := knownIds[j]
					p.exts = append(p.exts, extNode(knownOid(id), c.Rng.Intn(2) == 0, c.variety(id)))
					continue
				}
				o := [][]byte{oidBytes(2, 5, 29, 36), oidBytes(2, 5, 29, 54), oidBytes(2, 5, 29, 18), oidBytes(1, 3, 6, 1, 5, 5, 7, 1, 11), oidBytes(2, 5, 29), oidBytes(2, 5, 29, 15, 1), oidBytes(1, 3, 6, 1, 5, 5, 7, 1), oidBytes(2, 5, 30, 15), oidBytes(1, 5, 29, 15), oidBytes(2, 4, 29, 17)}[c.Rng.Intn(10)]
				p.exts = append(p.exts, extNode(o, c.Rng.Intn(2) == 0, c.Content(c.Rng.Intn(6))))
			}
			p.noExts = len(p.exts) == 0
			p.serial = derInt(c.someSerial())
			tt := func() *node {
				var t x509.Certificate
				c.times(&t)
				if y := t.NotBefore.UTC().Year(); c.Rng.Intn(2) == 0 && y >= 1950 && y < 2050 {
					return prim(23, []byte(t.NotBefore.UTC().Format("060102150405Z")))
				}
				return prim(24, []byte(t.NotBefore.UTC().Format("20060102150405Z")))
			}
			p.validity = cons(0x30, tt(), tt())
			if c.Rng.Intn(2) == 0 {
				p.subject = parseDER(c.rawName())[0]
				p.issuer = parseDER(c.rawName())[0]
			}
			if c.Rng.Intn(4) == 0 {
				p.spki = spkiNode(point(c.randKey()))
			}
			p.sig = prim(3, append([]byte{0}, c.Bytes(c.Rng.Intn(80))...))
			c.parseCert(p.der())
		})
	}
	// critical extensions one by one
	c.Trace(func() {
		for _, id := range append(append([]int{}, knownIds...), 9, 16, 18, 20, 28, 36, 54) {
			for _, crit := range []bool{true, false} {
				v := c.goodValue(id)
				if v == nil {
					v = []byte{5, 0}
				}
				c.parseCert(c.certWith(extNode(knownOid(id), crit, v)))
			}
		}
		for _, n := range []*node{cons(0xa0, prim(6, []byte{0x2a}), cons(0xa0, prim(12, nil))), prim(0x88, []byte{0x2a, 3}), cons(0xa4, cnName("x")), prim(0x82, nil), prim(0x81, nil), prim(0x86, []byte("http://a/")), prim(0x87, []byte{1, 2, 3, 4})} {
			c.parseCert(c.certWith(extNode(knownOid(17), true, cons(0x30, n).enc())))
			c.parseCert(c.certWith(extNode(knownOid(17), true, cons(0x30, n).enc()), extNode(oidBytes(1, 2, 3), true, nil)))
			c.parseCert(c.certWith(extNode(knownOid(30), true, cons(0x30, cons(0xa0, cons(0x30, prim(0x82, []byte("x"))), cons(0x30, n))).enc())))
			c.parseCert(c.certWith(extNode(knownOid(30), true, cons(0x30, cons(0xa1, cons(0x30, n))).enc())))
			c.parseCert(c.certWith(extNode(knownOid(30), false, cons(0x30, cons(0xa1, cons(0x30, n))).enc())))
		}
	})
}

// ---------------------------------------------------------------- C24

func driveC24(c *Ctx) {
	cert1 := c.certWith(extNode(knownOid(15), true, c.goodValue(15)), extNode(knownOid(17), false, c.goodValue(17)), extNode(knownOid(19), true, c.goodValue(19)))
	csr1 := c.csrWith(extNode(knownOid(17), false, c.goodValue(17)), extNode(knownOid(15), false, c.goodValue(15)))
	full := func() []byte {
		var es []*node
		for _, id := range knownIds {
			es = append(es, extNode(knownOid(id), c.Rng.Intn(2) == 0, c.variety(id)))
		}
		return c.certWith(es...)
	}
	both := func(csr bool, b []byte) {
		if csr {
			c.parseCSR(b)
			if c.Rng.Intn(4) == 0 {
				c.verifyCSR(b, nil)
			}
		} else {
			c.parseCert(b)
		}
	}
	split := func(bs [][]byte, csr bool) {
		for len(bs) > 0 {
			n := len(bs)
			if n > 20 {
				n = 20
			}
			part := bs[:n]
			bs = bs[n:]
			c.Trace(func() {
				for _, b := range part {
					both(csr, b)
				}
			})
		}
	}
	split(c.derVariants(cert1, c.N(1500, 0)), false)
	split(c.derVariants(csr1, c.N(1000, 0)), true)
	split(c.cuts(cert1, c.N(5, 1)), false)
	split(c.cuts(csr1, c.N(5, 1)), true)
	// single-bit changes and other damage
	var fl, fr [][]byte
	for i := 0; i < c.N(600, 8000); i++ {
		b, r := full(), csr1
		for k := 1 + c.Rng.Intn(2); k > 0; k-- {
			b, r = flip(b, c.Rng.Intn(8*len(b))), flip(r, c.Rng.Intn(8*len(r)))
		}
		if c.Rng.Intn(4) == 0 {
			i := c.Rng.Intn(len(b))
			b = append(cp(b[:i]), b[i+c.Rng.Intn(len(b)-i):]...)
		}
		fl, fr = append(fl, b), append(fr, r)
	}
	split(fl, false)
	split(fr, true)
	// each recognised extension, damaged inside a well-formed certificate
	for _, id := range knownIds {
		var bs, rs [][]byte
		for j := 0; j < c.N(8, 30); j++ {
			v := c.variety(id)
			ext := func(x []byte) []byte { return c.certWith(extNode(knownOid(id), c.Rng.Intn(2) == 0, x)) }
			vs := append(c.derVariants(v, c.N(25, 0)), append(cp(v), 0), append(cp(v), 5, 0), append(cp(v), v...), v[:len(v)-1], nil, []byte{5, 0}, []byte{0x30, 0}, c.Bytes(6))
			if len(v) > 0 {
				vs = append(vs, flip(v, c.Rng.Intn(8*len(v))), flip(v, c.Rng.Intn(16)), v[:c.Rng.Intn(len(v))])
			}
			for _, x := range vs {
				bs = append(bs, ext(x))
				if id == 17 {
					rs = append(rs, c.csrWith(extNode(knownOid(id), false, x)))
				}
			}
		}
		split(bs, false)
		split(rs, true)
	}
	// trailing data behind each extension's value, alone
	c.Trace(func() {
		for _, id := range knownIds {
			v := c.goodValue(id)
			c.parseCert(c.certWith(extNode(knownOid(id), false, v)))
			for _, t := range [][]byte{{0}, {5, 0}, v, {0x30, 0}, {0xff}} {
				c.parseCert(c.certWith(extNode(knownOid(id), false, append(cp(v), t...))))
			}
		}
	})
	// addresses of every length, URIs
	c.Trace(func() {
		for n := 0; n <= 20; n++ {
			san := cons(0x30, prim(0x82, []byte("d")), prim(0x87, c.Bytes(n))).enc()
			both(false, c.certWith(extNode(knownOid(17), false, san)))
			both(true, c.csrWith(extNode(knownOid(17), false, san)))
		}
	})
	c.Trace(func() {
		for _, u := range []string{"http://a.b/", "http://a..b/", "http://a.b./", "http://.a.b/", "http://a\x7fb/", "http://a/\x01", "\x00", ":x", "::", "http://a/%zz", "http://a/%4", "http://a/%", "http://a/%41",
			"", "x", "//h/p", "http://", "http:///p", "http://[::1/", "http://a:b/", "http://a:99999/", "http:// a/", "http://a b/", "1http://a/", "ht tp://a/", "http://\xff/", "http://a/\xff", "mailto:x", "urn:a:b", "http://a.b.:80/", "a:b:c", "http://-/", "http://a_b/", strings.Repeat("a", 300), "http://" + strings.Repeat("a.", 100) + "b/"} {
			san := cons(0x30, prim(0x86, []byte(u))).enc()
			both(false, c.certWith(extNode(knownOid(17), false, san)))
			both(true, c.csrWith(extNode(knownOid(17), false, san)))
		}
	})
	// lists of attributes, with extension requests in every form
	for i := 0; i < c.N(60, 500); i++ {
		c.Trace(func() {
			for j := 0; j < 4; j++ {
				b := c.sealWith(csrInfo(keyOf(0, big.NewInt(77)), "r", c.oddAttrs()...), []byte{0x30, 6, 2, 1, 1, 2, 1, 1})
				c.parseCSR(b)
				if j == 0 {
					c.verifyCSR(b, nil)
				}
			}
		})
	}
	// algorithms and keys
	k := keyOf(0, big.NewInt(77))
	ec, curveO := oidBytes(1, 2, 840, 10045, 2, 1), oidBytes(1, 2, 156, 10197, 1, 301)
	var spkis []*node
	for _, o := range [][]byte{oidBytes(1, 2, 840, 10045, 3, 1, 7), oidBytes(1, 2, 156, 10197, 1, 501), oidBytes(1, 3, 132, 0, 10), oidBytes(1, 2, 156, 10197, 1, 300), oidBytes(1, 2, 156, 10197, 1, 301, 1), oidBytes(1, 2, 156, 10197, 1)} {
		spkis = append(spkis, cons(0x30, cons(0x30, prim(6, ec), prim(6, o)), prim(3, append([]byte{0}, point(k)...))))
		spkis = append(spkis, cons(0x30, cons(0x30, prim(6, o), prim(6, curveO)), prim(3, append([]byte{0}, point(k)...))))
	}
	spkis = append(spkis, cons(0x30, cons(0x30, prim(6, ec)), prim(3, append([]byte{0}, point(k)...))),
		cons(0x30, cons(0x30, prim(6, ec), prim(5, nil)), prim(3, append([]byte{0}, point(k)...))),
		cons(0x30, cons(0x30, prim(6, ec), prim(6, curveO), prim(5, nil)), prim(3, append([]byte{0}, point(k)...))),
		cons(0x30, cons(0x30, prim(6, ec), cons(0x30, prim(6, curveO))), prim(3, append([]byte{0}, point(k)...))),
		cons(0x30, cons(0x30, prim(6, ec), prim(6, curveO)), prim(3, append([]byte{1}, point(k)...))),
		cons(0x30, cons(0x30, prim(6, ec), prim(6, curveO)), prim(3, nil)),
		cons(0x30, cons(0x30, prim(6, ec), prim(6, curveO)), prim(4, point(k))),
		cons(0x30, cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 1, 1)), prim(5, nil)), prim(3, append([]byte{0}, c.Bytes(40)...))))
	for i := 0; i < c.N(1, 10); i++ {
		for _, p := range c.oddPoints(k) {
			spkis = append(spkis, spkiNode(p))
		}
	}
	for x := int64(0); x < 40; x++ { // tiny x: x + p is another writing of the same point
		xx := big.NewInt(x)
		y2 := new(big.Int).Exp(xx, big.NewInt(3), stdP)
		y2.Add(y2, new(big.Int).Mul(stdCurve.A, xx)).Add(y2, stdCurve.B).Mod(y2, stdP)
		if y := new(big.Int).ModSqrt(y2, stdP); y != nil {
			spkis = append(spkis, spkiNode(append(append([]byte{4}, pad32(bigAdd(xx, stdP))...), pad32(y)...)),
				spkiNode(append(append([]byte{4}, pad32(xx)...), pad32(y)...)))
			if x > 4 {
				break
			}
		}
	}
	for _, s := range spkis {
		c.Trace(func() {
			p := c.parts()
			p.spki = s
			p.noExts = true
			c.parseCert(p.der())
			c.parseCSR(c.sealWith(cons(0x30, prim(2, []byte{0}), cnName("r"), s, cons(0xa0)), []byte{0x30, 0}))
		})
	}
	algs := []*node{cons(0x30, prim(6, oidBytes(1, 2, 840, 10045, 4, 3, 2))), cons(0x30, prim(6, oidBytes(1, 2, 156, 10197, 1, 502))), cons(0x30, prim(6, oidBytes(1, 2, 156, 10197, 1, 501)), prim(5, nil)),
		cons(0x30, prim(6, oidBytes(1, 2, 156, 10197, 1, 501, 1))), cons(0x30, prim(6, oidBytes(1, 2, 156, 10197, 1))), cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 1, 11)), prim(5, nil)), cons(0x30), prim(5, nil), cons(0x30, prim(5, nil)), cons(0x31, prim(6, oidBytes(1, 2, 156, 10197, 1, 501))),
		cons(0x30, prim(6, ec)), cons(0x30, prim(6, curveO))}
	for _, a := range algs {
		c.Trace(func() {
			p := c.parts()
			p.noExts = true
			p.outer = a
			c.parseCert(p.der())
			p.outer, p.inner = sm2Alg(), a
			c.parseCert(p.der())
			info := cons(0x30, prim(2, []byte{0}), cnName("r"), spkiNode(c.basePoint()), cons(0xa0))
			b := cons(0x30, info, a, prim(3, []byte{0, 0x30, 0})).enc()
			c.parseCSR(b)
			c.verifyCSR(b, nil)
		})
	}
	// names, times, versions, signatures in unusual forms
	var odd [][]byte
	with := func(f func(p *certParts)) {
		p := c.parts()
		p.noExts = true
		f(p)
		odd = append(odd, p.der())
	}
	atv := func(tag byte, v []byte) *node {
		return cons(0x30, cons(0x31, cons(0x30, prim(6, []byte{0x55, 4, 3}), prim(tag, v))))
	}
	for _, n := range []*node{atv(12, []byte("x")), atv(12, []byte("\xff")), atv(19, []byte("a*b")), atv(19, []byte("a_b")), atv(19, []byte("\xe4")), atv(22, []byte("a_@")), atv(22, []byte("\x80")), atv(20, []byte("\xe9")), atv(30, []byte{0, 65}), atv(30, []byte{65}), atv(18, []byte("1 2")), atv(18, []byte("x")), atv(2, []byte{1}), atv(2, []byte{0, 1}), atv(5, nil),
		cons(0x30), cons(0x30, cons(0x31)), cons(0x30, prim(5, nil)), cons(0x31), prim(5, nil), cons(0x30, cons(0x31, cons(0x30, prim(6, []byte{0x55, 4, 3})))), cons(0x30, cons(0x31, cons(0x30, prim(6, []byte{0x80, 1}), prim(19, []byte("x"))))), cons(0x30, cons(0x31, cons(0x30, prim(6, nil), prim(19, []byte("x")))))} {
		with(func(p *certParts) { p.subject = n })
		with(func(p *certParts) { p.issuer = n })
	}
	for _, t := range []string{"240229000000Z", "230229000000Z", "241301000000Z", "240100000000Z", "240101240000Z", "240101006000Z", "240101000060Z", "2401010000Z", "240101000000", "240101000000+0800", "24010100000Z", "2401010000000Z", "240101000000z", "24010100000aZ", "", "Z", "500101000000Z", "491231235959Z", "000229000000Z", "500229000000Z"} {
		with(func(p *certParts) { p.validity = cons(0x30, prim(23, []byte(t)), prim(23, []byte("340102030405Z"))) })
		with(func(p *certParts) {
			p.validity = cons(0x30, prim(24, []byte("19700101000000Z")), prim(24, []byte("20"+t)))
		})
	}
	with(func(p *certParts) { p.validity = cons(0x30, prim(23, []byte("340102030405Z"))) })
	with(func(p *certParts) { p.validity = cons(0x30) })
	with(func(p *certParts) {
		p.validity = cons(0x30, prim(19, []byte("340102030405Z")), prim(23, []byte("340102030405Z")))
	})
	for _, v := range []*node{nil, cons(0xa0, prim(2, []byte{0})), cons(0xa0, prim(2, []byte{1})), cons(0xa0, prim(2, []byte{3})), cons(0xa0), prim(2, []byte{2}), cons(0xa0, prim(2, []byte{0, 2})), cons(0xa0, prim(2, []byte{255})), cons(0xa0, prim(2, []byte{2}), prim(5, nil))} {
		with(func(p *certParts) { p.version = v })
	}
	for _, s := range []*node{prim(2, nil), prim(2, []byte{0, 1}), prim(2, []byte{255, 255}), prim(2, []byte{0}), prim(2, []byte{255}), prim(2, c.Bytes(200)), prim(10, []byte{1}), nil} {
		with(func(p *certParts) { p.serial = s })
	}
	for _, s := range []*node{prim(3, []byte{0}), prim(3, nil), prim(3, []byte{1, 2}), prim(3, []byte{1, 1}), prim(3, []byte{8, 1}), prim(4, []byte{0, 1}), cons(0x23, prim(3, []byte{0, 1})), prim(3, []byte{7})} {
		with(func(p *certParts) { p.sig = s })
	}
	with(func(p *certParts) { p.uids = []*node{prim(0x81, []byte{0, 1})} })
	with(func(p *certParts) { p.uids = []*node{prim(0x82, []byte{0, 1})} })
	with(func(p *certParts) {
		p.uids = []*node{prim(0x81, []byte{0, 1}), prim(0x82, []byte{0, 1})}
		p.noExts = false
	})
	with(func(p *certParts) { p.more = []*node{prim(5, nil)} })
	with(func(p *certParts) { p.noExts = false })
	with(func(p *certParts) { p.noExts = false; p.exts = []*node{prim(5, nil)} })
	e15 := extNode(knownOid(15), true, c.goodValue(15))
	for _, x := range []*node{cons(0x30, prim(6, knownOid(15))), cons(0x30, prim(6, knownOid(15)), prim(1, []byte{0}), prim(4, c.goodValue(15))), cons(0x30, prim(6, knownOid(15)), prim(1, []byte{1}), prim(4, c.goodValue(15))),
		cons(0x30, prim(6, knownOid(15)), prim(4, c.goodValue(15)), prim(5, nil)), cons(0x30, prim(4, c.goodValue(15))), cons(0x30, prim(6, knownOid(15)), prim(3, c.goodValue(15))), cons(0x30, prim(6, []byte{0x80, 1}), prim(4, nil)), cons(0x30)} {
		with(func(p *certParts) { p.noExts = false; p.exts = []*node{x} })
		with(func(p *certParts) { p.noExts = false; p.exts = []*node{e15, x} })
	}
	with(func(p *certParts) { p.noExts = false; p.exts = []*node{e15, e15} })
	split(odd, false)
	// arbitrary bytes
	c.Trace(func() {
		for i := 0; i < c.N(60, 1500); i++ {
			b := c.Content(c.Rng.Intn(120))
			if len(b) > 4 && c.Rng.Intn(2) == 0 {
				copy(b, []byte{0x30, byte(len(b) - 2), 0x30, byte(c.Rng.Intn(len(b)))})
			}
			both(c.Rng.Intn(2) == 0, b)
		}
	})
	// deep nesting and long lengths
	c.Trace(func() {
		b := []byte{5, 0}
		for i := 0; i < 400; i++ {
			b = prim(0x30, b).enc()
		}
		both(false, b)
		both(true, b)
		both(false, c.certWith(extNode(knownOid(17), false, b)))
		both(false, c.certWith(extNode(oidBytes(1, 2, 3), false, b)))
		big := c.certWith(extNode(oidBytes(1, 2, 3, 4), false, c.Bytes(c.N(3000, 20000))))
		both(false, big)
		both(false, big[:len(big)-1])
	})
}

// ---------------------------------------------------------------- C25

func driveC25(c *Ctx) {
	// through templates
	for i := 0; i < c.N(700, 8000); i++ {
		c.Trace(func() {
			t := &x509.Certificate{SerialNumber: one, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1, 0)}
			c.constraints(t)
			if c.Rng.Intn(3) == 0 { // whatever text
				s := c.someConstraint()
				switch c.Rng.Intn(6) {
				case 0:
					t.PermittedDNSDomains = append(t.PermittedDNSDomains, s)
				case 1:
					t.ExcludedDNSDomains = append(t.ExcludedDNSDomains, s)
				case 2:
					t.PermittedEmailAddresses = append(t.PermittedEmailAddresses, s)
				case 3:
					t.ExcludedEmailAddresses = append(t.ExcludedEmailAddresses, s)
				case 4:
					t.PermittedURIDomains = append(t.PermittedURIDomains, s)
				case 5:
					t.ExcludedURIDomains = append(t.ExcludedURIDomains, s)
				}
			}
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(c.basePoint()).enc()}
			info := c.createInfo(t, &x509.Certificate{}, csr)
			if info == nil {
				return
			}
			if der := c.createCert(info, []byte{0x30, 0}); der != nil {
				c.parseCert(der)
			}
		})
	}
	nc := func(crit bool, p, e []*node) []byte {
		var v []*node
		if p != nil {
			v = append(v, cons(0xa0, p...))
		}
		if e != nil {
			v = append(v, cons(0xa1, e...))
		}
		return c.certWith(extNode(knownOid(30), crit, cons(0x30, v...).enc()))
	}
	sub := func(tag byte, v []byte) *node { return cons(0x30, prim(tag, v)) }
	one := func(n *node) {
		ok := sub(0x82, []byte("fine.example"))
		switch c.Rng.Intn(4) {
		case 0:
			c.parseCert(nc(true, []*node{n}, nil))
		case 1:
			c.parseCert(nc(false, nil, []*node{n}))
		case 2:
			c.parseCert(nc(true, []*node{ok, n, ok}, []*node{ok}))
		case 3:
			c.parseCert(nc(false, []*node{ok}, []*node{ok, n}))
		}
	}
	// every text as every kind
	texts := append([]string(nil), constraintTexts...)
	for i := 0; i < c.N(900, 9000); i++ {
		texts = append(texts, c.someConstraint())
	}
	for i := 0; i < len(texts); i += 8 {
		c.Trace(func() {
			for j := i; j < i+8 && j < len(texts); j++ {
				for _, tag := range []byte{0x82, 0x81, 0x86} {
					one(sub(tag, []byte(texts[j])))
				}
			}
		})
	}
	// every octet in every position that has rules of its own
	for b := 0; b < 256; b++ {
		b := string([]byte{byte(b)})
		c.Trace(func() {
			for _, s := range []string{b + "@h", "x" + b + "y@h", "\"x" + b + "y\"@h", "\"x\\" + b + "\"@h", "x\\" + b + "@h", "x@a" + b + "b"} {
				one(sub(0x81, []byte(s)))
			}
			one(sub([]byte{0x82, 0x86, 0x81}[c.Rng.Intn(3)], []byte("a"+b+"b.c")))
			one(sub(0x82, []byte(b)))
		})
	}
	// masks
	c.Trace(func() {
		for n := 0; n <= 40; n++ {
			one(sub(0x87, c.Bytes(n)))
			one(sub(0x87, make([]byte, n)))
		}
	})
	for i := 0; i < c.N(30, 300); i++ {
		c.Trace(func() {
			for j := 0; j < 10; j++ {
				m := net.CIDRMask(c.Rng.Intn(33), 32)
				one(sub(0x87, append(c.Bytes(4), m...)))
				one(sub(0x87, append(c.Bytes(4), flip(m, c.Rng.Intn(32))...)))
				m = net.CIDRMask(c.Rng.Intn(129), 128)
				one(sub(0x87, append(c.sixteen(), m...)))
				one(sub(0x87, append(c.sixteen(), flip(m, c.Rng.Intn(128))...)))
			}
		})
	}
	c.Trace(func() {
		for k := 0; k <= 32; k++ {
			one(sub(0x87, append([]byte{1, 2, 3, 4}, net.CIDRMask(k, 32)...)))
		}
	})
	c.Trace(func() {
		for k := 0; k <= 128; k += 1 + c.Rng.Intn(c.N(8, 2)) {
			one(sub(0x87, append(c.sixteen(), net.CIDRMask(k, 128)...)))
		}
	})
	// structure
	c.Trace(func() {
		d := sub(0x82, []byte("d"))
		for _, v := range []*node{cons(0x30), cons(0x30, cons(0xa0)), cons(0x30, cons(0xa1)), cons(0x30, cons(0xa0), cons(0xa1)), cons(0x30, cons(0xa0, d), cons(0xa1)), cons(0x30, cons(0xa0), cons(0xa1, d)),
			cons(0x30, cons(0xa1, d), cons(0xa0, d)), cons(0x30, cons(0xa0, d), cons(0xa0, d)), cons(0x30, cons(0xa2, d)), cons(0x30, cons(0xa0, d), cons(0xa1, d), cons(0xa2, d)), cons(0x30, d), cons(0x30, prim(0x80, d.enc())), cons(0x31, cons(0xa0, d)),
			cons(0x30, cons(0xa0, prim(0x82, []byte("d")))), cons(0x30, cons(0xa0, cons(0x30))), cons(0x30, cons(0xa0, cons(0x30, prim(0x82, []byte("d")), prim(0x80, []byte{0})))), cons(0x30, cons(0xa0, cons(0x30, prim(0x82, []byte("d")), prim(0x81, []byte{5})))),
			cons(0x30, cons(0xa0, sub(0x88, []byte{0x2a}))), cons(0x30, cons(0xa0, cons(0x30, cons(0xa4, cnName("x"))))), cons(0x30, cons(0xa0, d), prim(5, nil)), cons(0x30, cons(0xa0, sub(2, []byte("d")))), cons(0x30, cons(0xa0, sub(0xa2, []byte{5, 0})))} {
			c.parseCert(c.certWith(extNode(knownOid(30), c.Rng.Intn(2) == 0, v.enc())))
			c.parseCert(c.certWith(extNode(knownOid(30), true, append(v.enc(), 0))))
		}
	})
}

var constraintTexts = []string{"", ".", "..", "a", ".a", "..a", "a.", ".a.", "a.b", "a..b", ".a.b", "..a.b", ".a..b", "a.b.", "a b", "a\tb", "\x20", "!", "~", "\x7f", "a\x1f", "\x80", "é", "a.\xff", "a_b", "-", "a-.b",
	"1.2.3.4", "1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "1.2.3.04", "0.0.0.0", "255.255.255.255", ".1.2.3.4", "1.2.3.4.", "::1", "::", "fe80::1", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::8", "1::2::3", "::1.2.3.4", "1.2.3.4::", ":::", "12345::", "g::", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "fe80::1%eth0", "[::1]", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:",
	"@", "a@", "@b", "a@b", "a@b.c", "a@.b", "a@b.", "a@b..c", "a.b@c", ".a@b", "a.@b", "a..b@c", "a b@c", "\"a b\"@c", "\"a\"b@c", "\"\"@c", "\"@c", "\"a\\\"b\"@c", "\"a\\\x0d\"@c", "\"a\\\x00\"@c", "\"a\x0d\"@c", "a\\@b@c", "a\\ b@c", "\\@c", "\\.a@b", "a\\", "a(b)@c", "a,b@c", "a<b>@c", "a+b=c/d?e^f_g`h{i|j}k~l!m#n$o%p&q'r*s@t", "a@b@c", "a@b c", "\"a@b\"@c", "a:b@c", "a;b@c", "a[b]@c", "\"a\nb\"@c", "\"a\\\x0a\"@c", "a@", "a@@", "\"", "\"\\\"@c", "a\x7f@b", "\"\x7f\"@b", "\"\x00\"@b", "\"a\x0bb\"@c", "a\\\x01b@c", "user@[1.2.3.4]", "a@-"}

func (c *Ctx) someConstraint() string {
	s := constraintTexts[c.Rng.Intn(len(constraintTexts))]
	switch c.Rng.Intn(4) {
	case 0:
		return s
	case 1: // put two together
		return s + c.pick("", ".", "@", "a", ":") + constraintTexts[c.Rng.Intn(len(constraintTexts))]
	case 2:
		b := []byte(s)
		if len(b) > 0 {
			b[c.Rng.Intn(len(b))] = c.pick(".", "@", "a", "\"", "\\", " ", ":", "0", "\x80", "\x09", "f")[0]
		}
		return string(b)
	default:
		const al = "ab.@\"\\ 1:-_\x0b"
		n := c.Rng.Intn(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = al[c.Rng.Intn(len(al))]
		}
		return string(b)
	}
}
