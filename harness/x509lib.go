package main

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
)

// ---------------------------------------------------------------- deep snapshots

// dump writes everything reachable from v, slices up to their capacity.
func dump(w *strings.Builder, v reflect.Value, depth int, spare bool) {
	if depth > 12 {
		return
	}
	if !v.IsValid() {
		w.WriteString("nil;")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *big.Int:
			if x == nil {
				w.WriteString("nil;")
			} else {
				fmt.Fprintf(w, "int%s;", x)
			}
			return
		case time.Time:
			fmt.Fprintf(w, "time%s/%d;", x.Format(time.RFC3339Nano), x.UnixNano())
			return
		case *url.URL:
			if x != nil {
				fmt.Fprintf(w, "url%q,%q,%q,%q,%q,%q,%v,%q,%q;", x.Scheme, x.Opaque, x.User.String(), x.Host, x.Path, x.RawPath, x.ForceQuery, x.RawQuery, x.Fragment)
			}
			return
		case *sm2.PublicKey:
			if x != nil {
				fmt.Fprintf(w, "pub%v,%v;", x.X, x.Y)
			}
			return
		case []byte:
			n := len(x)
			if spare {
				x = x[:cap(x)]
			}
			fmt.Fprintf(w, "%d:%x;", n, x)
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil;")
			return
		}
		dump(w, v.Elem(), depth+1, spare)
	case reflect.Slice:
		fmt.Fprintf(w, "[%d:", v.Len())
		full := v
		if spare {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			dump(w, full.Index(i), depth+1, spare)
		}
		w.WriteString("]")
	case reflect.Struct:
		w.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(w, v.Field(i), depth+1, spare)
		}
		w.WriteString("}")
	case reflect.Func, reflect.Map, reflect.Chan:
	default:
		fmt.Fprintf(w, "%v;", v)
	}
}

// dumps shows everything reachable from xs, spare capacity included.
func dumps(xs ...interface{}) string {
	var w strings.Builder
	for _, x := range xs {
		dump(&w, reflect.ValueOf(x), 0, true)
	}
	return w.String()
}

// values shows what xs mean, without the spare capacity behind slices.
func values(xs ...interface{}) string {
	var w strings.Builder
	for _, x := range xs {
		dump(&w, reflect.ValueOf(x), 0, false)
	}
	return w.String()
}

// frozen tells whether nothing reachable from xs has changed.
func frozen(xs ...interface{}) func() bool {
	a := dumps(xs...)
	return func() bool { return a == dumps(xs...) }
}

// ---------------------------------------------------------------- records

func strs(ss []string) []B {
	r := []B{}
	for _, s := range ss {
		r = append(r, B(s))
	}
	return r
}
func ipsEv(ips []net.IP) []B {
	r := []B{}
	for _, s := range ips {
		r = append(r, cp(s))
	}
	return r
}
func urisEv(us []*url.URL) []B {
	r := []B{}
	for _, u := range us {
		r = append(r, B(u.String()))
	}
	return r
}
func oidsEv(os []asn1.ObjectIdentifier) [][]Ev {
	r := [][]Ev{}
	for _, o := range os {
		r = append(r, oidEv(o))
	}
	return r
}
func extsEv(es []pkix.Extension) []Ev {
	r := []Ev{}
	for _, e := range es {
		r = append(r, Ev{"oid": oidEv(e.Id), "crit": e.Critical, "v": cp(e.Value)})
	}
	return r
}
func netsEv(ns []*net.IPNet) []Ev {
	r := []Ev{}
	for _, n := range ns {
		r = append(r, Ev{"ip": cp(n.IP), "mask": cp(n.Mask)})
	}
	return r
}

// valOf gives kind and octets of an attribute value.
func valOf(v interface{}) (string, B) {
	switch x := v.(type) {
	case string:
		return "str", B(x)
	case []byte:
		return "bytes", cp(x)
	}
	return "other", B{}
}
func atvsEv(as []pkix.AttributeTypeAndValue) []Ev {
	r := []Ev{}
	for _, a := range as {
		k, v := valOf(a.Value)
		r = append(r, Ev{"oid": oidEv(a.Type), "kind": k, "v": v})
	}
	return r
}
func attrsEv(as []pkix.AttributeTypeAndValueSET) []Ev {
	r := []Ev{}
	for _, a := range as {
		vals := [][]Ev{}
		for _, v := range a.Value {
			vals = append(vals, atvsEv(v))
		}
		r = append(r, Ev{"oid": oidEv(a.Type), "vals": vals})
	}
	return r
}
func nameEv(n pkix.Name, raw []byte) Ev {
	return Ev{"c": strs(n.Country), "o": strs(n.Organization), "ou": strs(n.OrganizationalUnit), "l": strs(n.Locality), "st": strs(n.Province),
		"street": strs(n.StreetAddress), "pc": strs(n.PostalCode), "cn": B(n.CommonName), "sn": B(n.SerialNumber),
		"names": atvsEv(n.Names), "extra": atvsEv(n.ExtraNames), "raw": cp(raw)}
}
func ekuEv(us []x509.ExtKeyUsage) []int {
	r := []int{}
	for _, u := range us {
		r = append(r, int(u))
	}
	return r
}

// certEv is a certificate structure, as template or as result.
func certEv(t *x509.Certificate) Ev {
	ser := t.SerialNumber
	return Ev{"hasserial": ser != nil, "serial": Int(ser), "version": t.Version, "nb": timeEv(t.NotBefore.UTC()), "na": timeEv(t.NotAfter.UTC()),
		"ku": int(t.KeyUsage), "eku": ekuEv(t.ExtKeyUsage), "ueku": oidsEv(t.UnknownExtKeyUsage), "bcv": t.BasicConstraintsValid, "ca": t.IsCA,
		"mpl": t.MaxPathLen, "mplz": t.MaxPathLenZero, "ski": cp(t.SubjectKeyId), "aki": cp(t.AuthorityKeyId), "ocsp": strs(t.OCSPServer),
		"issurl": strs(t.IssuingCertificateURL), "dns": strs(t.DNSNames), "email": strs(t.EmailAddresses), "ips": ipsEv(t.IPAddresses),
		"uris": urisEv(t.URIs), "pol": oidsEv(t.PolicyIdentifiers), "crl": strs(t.CRLDistributionPoints),
		"nc": Ev{"pdns": strs(t.PermittedDNSDomains), "edns": strs(t.ExcludedDNSDomains), "pip": netsEv(t.PermittedIPRanges), "eip": netsEv(t.ExcludedIPRanges),
			"pemail": strs(t.PermittedEmailAddresses), "eemail": strs(t.ExcludedEmailAddresses), "puri": strs(t.PermittedURIDomains),
			"euri": strs(t.ExcludedURIDomains), "crit": t.PermittedDNSDomainsCritical}}
}
func tmplEv(t *x509.Certificate) Ev {
	e := certEv(t)
	e["subject"], e["extra"] = nameEv(t.Subject, t.RawSubject), extsEv(t.ExtraExtensions)
	return e
}
func csrTmplEv(t *x509.CertificateRequest) Ev {
	return Ev{"subject": nameEv(t.Subject, t.RawSubject), "attrs": attrsEv(t.Attributes), "extra": extsEv(t.ExtraExtensions),
		"dns": strs(t.DNSNames), "email": strs(t.EmailAddresses), "ips": ipsEv(t.IPAddresses), "uris": urisEv(t.URIs)}
}
func pubXY(k interface{}) (B, B) {
	if p, ok := k.(*sm2.PublicKey); ok && p != nil {
		return Nat(p.X), Nat(p.Y)
	}
	return B{}, B{}
}

// ---------------------------------------------------------------- calls

func (c *Ctx) idFields(e Ev, id []byte) []byte {
	e["nilid"], e["id"] = id == nil, cp(id)
	if id == nil {
		return nil
	}
	b, _ := c.in("id", id, 3)
	return b
}

func (c *Ctx) createCSR(t *x509.CertificateRequest, pub *sm2.PublicKey, k *Key, id []byte, s *Stream) []byte {
	e := Ev{"op": "CreateCSR", "t": csrTmplEv(t), "x": Nat(pub.X), "y": Nat(pub.Y), "d": Nat(k.d)}
	idb := c.idFields(e, id)
	t, q, priv := c.csr(t), c.pub(0, pub), c.priv(0, k.Priv)
	ok := frozen(t, idb, q, priv.D)
	var r []byte
	With(s, func() {
		e["out"] = DoErr(func() (err error) { r, err = cert.CreateCertificateRequest(t, q, priv, idb); return })
	})
	e["r"], e["failed"], e["same"] = cp(r), s.failed, ok()
	c.Add(e)
	return r
}

// csr and crt return t in an object of their own or in one that held another template before.
func (c *Ctx) csr(t *x509.CertificateRequest) *x509.CertificateRequest {
	if conc || c.Rng.Intn(2) == 0 {
		return t
	}
	c.csrObj = *t
	return &c.csrObj
}

func (c *Ctx) crt(slot int, t *x509.Certificate) *x509.Certificate {
	if conc || c.Rng.Intn(2) == 0 {
		return t
	}
	c.crtObj[slot] = *t
	return &c.crtObj[slot]
}

func csrEv(e Ev, r *x509.CertificateRequest) {
	if r == nil {
		return
	}
	for k, v := range csrTmplEv(r) {
		e[k] = v
	}
	e["raw"], e["tbs"], e["sig"], e["rawSubject"], e["rawSPKI"] = cp(r.Raw), cp(r.RawTBSCertificateRequest), cp(r.Signature), cp(r.RawSubject), cp(r.RawSubjectPublicKeyInfo)
	e["version"], e["exts"] = r.Version, extsEv(r.Extensions)
	e["x"], e["y"] = pubXY(r.PublicKey)
}

func (c *Ctx) parseCSR(in []byte) *x509.CertificateRequest {
	e := Ev{"op": "ParseCSR", "in": cp(in)}
	b, same := Spare(in, 6)
	var r *x509.CertificateRequest
	e["out"] = DoErr(func() (err error) { r, err = cert.ParseCertificateRequest(b); return })
	csrEv(e, r)
	e["same"] = same()
	c.Add(e)
	if r != nil && c.again() {
		scrawl(reflect.ValueOf(r))
		return c.parseCSR(in)
	}
	return r
}

func (c *Ctx) verifyCSR(in, id []byte) bool {
	e := Ev{"op": "VerifyCSR", "in": cp(in)}
	idb := c.idFields(e, id)
	b, same := c.in("der", in, 6)
	ok := frozen(idb)
	var res bool
	e["out"] = DoErr(func() (err error) { res, err = cert.VerifyDERCSRSign(b, idb); return })
	e["res"], e["same"] = res, same() && ok()
	c.Add(e)
	return res
}

// verifyParsed goes through the parsed request.
func (c *Ctx) verifyParsed(in, id []byte) {
	r, err := cert.ParseCertificateRequest(cp(in))
	if err != nil || r == nil {
		return
	}
	e := Ev{"op": "VerifyCSR", "in": cp(in)}
	idb := c.idFields(e, id)
	ok := frozen(r, idb)
	var res bool
	e["out"], _ = Do(func() { res = cert.VerifyCSRSign(r, idb) })
	e["res"], e["same"] = res, ok()
	c.Add(e)
}

func (c *Ctx) createInfo(t, parent *x509.Certificate, csr *x509.CertificateRequest) *cert.TBSCertificate {
	e := Ev{"op": "CreateInfo", "t": tmplEv(t), "parent": Ev{"subject": nameEv(parent.Subject, parent.RawSubject), "ski": cp(parent.SubjectKeyId)},
		"spki": cp(csr.RawSubjectPublicKeyInfo)}
	t, parent, csr = c.crt(0, t), c.crt(1, parent), c.csr(csr)
	ok := frozen(t, parent, csr)
	var r *cert.TBSCertificate
	e["out"] = DoErr(func() (err error) { r, err = cert.CreateCertificateInfo(t, parent, csr); return })
	e["raw"] = B{}
	if r != nil {
		if c.made == nil {
			c.made = map[*cert.TBSCertificate][]byte{}
		}
		c.made[r] = cp(r.Raw)
		e["raw"] = B(c.made[r])
	}
	e["same"] = ok()
	c.Add(e)
	return r
}

// rawOf is the encoding that info was created with.
func (c *Ctx) rawOf(info *cert.TBSCertificate) B {
	if raw, ok := c.made[info]; ok {
		return raw
	}
	return cp(info.Raw)
}

// ownParts gives the template its own copies of what reuse changes.
func ownParts(t *x509.Certificate) {
	if t.SerialNumber != nil {
		t.SerialNumber = new(big.Int).Set(t.SerialNumber)
	}
	own := func(b *[]byte) {
		if *b != nil {
			*b = cp(*b)
		}
	}
	own(&t.RawSubject)
	own(&t.SubjectKeyId)
	own(&t.AuthorityKeyId)
	t.ExtraExtensions = append([]pkix.Extension(nil), t.ExtraExtensions...)
	for i := range t.ExtraExtensions {
		e := &t.ExtraExtensions[i]
		e.Id = append(asn1.ObjectIdentifier(nil), e.Id...)
		own(&e.Value)
	}
}

// reuse uses the memory of a template for other things: what was made from it must not change any more.
func reuse(t *x509.Certificate) {
	if t.SerialNumber != nil {
		t.SerialNumber.Add(t.SerialNumber, one)
	}
	flip := func(b []byte) {
		for i := range b {
			b[i] ^= 0x15
		}
	}
	flip(t.RawSubject)
	flip(t.SubjectKeyId)
	flip(t.AuthorityKeyId)
	for i := range t.ExtraExtensions {
		e := &t.ExtraExtensions[i]
		flip(e.Value)
		e.Critical = !e.Critical
		if len(e.Id) > 0 {
			e.Id[len(e.Id)-1] ^= 1
		}
	}
	t.DNSNames = []string{"changed"}
}

func (c *Ctx) issue(info *cert.TBSCertificate, k *Key, id []byte, s *Stream) []byte {
	e := Ev{"op": "Issue", "raw": c.rawOf(info), "d": Nat(k.d)}
	idb := c.idFields(e, id)
	priv := c.priv(0, k.Priv)
	if !conc && c.Rng.Intn(2) == 0 {
		c.info = *info
		info = &c.info
	}
	ok := frozen(info, idb, priv.D)
	var r []byte
	With(s, func() {
		e["out"] = DoErr(func() (err error) { r, err = cert.IssueCertificateBySoftCAKey(info, priv, idb); return })
	})
	e["r"], e["failed"], e["same"] = cp(r), s.failed, ok()
	c.Add(e)
	return r
}

func (c *Ctx) createCert(info *cert.TBSCertificate, sig []byte) []byte {
	e := Ev{"op": "CreateCert", "raw": c.rawOf(info), "sig": cp(sig)}
	sb, same := c.in("sig", sig, 4)
	ok := frozen(info)
	var r []byte
	e["out"] = DoErr(func() (err error) { r, err = cert.CreateCertificate(info, sb); return })
	e["r"], e["same"] = cp(r), ok() && same()
	c.Add(e)
	return r
}

func (c *Ctx) parseCert(in []byte) *x509.Certificate {
	e := Ev{"op": "ParseCert", "in": cp(in)}
	b, same := Spare(in, 6)
	var r *x509.Certificate
	e["out"] = DoErr(func() (err error) { r, err = cert.ParseCertificate(b); return })
	if r != nil {
		for k, v := range certEv(r) {
			e[k] = v
		}
		e["raw"], e["tbs"], e["sig"], e["rawSubject"], e["rawIssuer"], e["rawSPKI"] = cp(r.Raw), cp(r.RawTBSCertificate), cp(r.Signature), cp(r.RawSubject), cp(r.RawIssuer), cp(r.RawSubjectPublicKeyInfo)
		e["issuer"], e["subject"] = nameEv(r.Issuer, nil), nameEv(r.Subject, nil)
		e["exts"], e["unhandled"] = extsEv(r.Extensions), oidsEv(r.UnhandledCriticalExtensions)
		e["x"], e["y"] = pubXY(r.PublicKey)
	}
	e["same"] = same()
	c.Add(e)
	if r != nil && c.again() {
		scrawl(reflect.ValueOf(r))
		return c.parseCert(in)
	}
	return r
}

// again says, now and then, that something parsed is to be overwritten by its owner and parsed
// once more: what the second call gives is no business of whoever holds the first result.
func (c *Ctx) again() bool {
	if conc {
		return false
	}
	c.parses++
	return c.parses%5 == 2
}

// scrawl writes over everything that can be reached from v, except through interfaces that hold no
// public key (curves are shared by design).
func scrawl(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if n, ok := v.Interface().(*big.Int); ok {
			if n != nil {
				n.Add(n, big.NewInt(1))
			}
			return
		}
		if !v.IsNil() {
			scrawl(v.Elem())
		}
	case reflect.Interface:
		if k, ok := v.Interface().(*sm2.PublicKey); ok && k != nil {
			scrawl(reflect.ValueOf(k.X))
			scrawl(reflect.ValueOf(k.Y))
		}
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(7, 0)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scrawl(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scrawl(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	}
}

func (c *Ctx) fill(t *x509.Certificate, csr *x509.CertificateRequest) {
	e := Ev{"op": "Fill"}
	o := Ev{}
	csrEv(o, csr)
	e["csr"] = Ev{"subject": nameEv(csr.Subject, nil), "x": o["x"], "y": o["y"], "exts": o["exts"], "extra": o["extra"], "dns": o["dns"],
		"email": o["email"], "ips": o["ips"], "uris": o["uris"]}
	rest := func() string {
		u := *t
		u.Subject, u.PublicKey, u.PublicKeyAlgorithm, u.Extensions, u.ExtraExtensions = pkix.Name{}, nil, 0, nil, nil
		u.DNSNames, u.EmailAddresses, u.IPAddresses, u.URIs = nil, nil, nil, nil
		return dumps(&u)
	}
	before := rest()
	ok := frozen(csr)
	e["out"], _ = Do(func() { cert.FillCertificateTemplateByCSR(t, csr) })
	e["subject"], e["exts"], e["extra"] = nameEv(t.Subject, nil), extsEv(t.Extensions), extsEv(t.ExtraExtensions)
	e["x"], e["y"] = pubXY(t.PublicKey)
	e["dns"], e["email"], e["ips"], e["uris"] = strs(t.DNSNames), strs(t.EmailAddresses), ipsEv(t.IPAddresses), urisEv(t.URIs)
	e["rest"], e["same"] = before == rest(), ok()
	c.Add(e)
}

// ---------------------------------------------------------------- choosing inputs

func (c *Ctx) pick(ss ...string) string { return ss[c.Rng.Intn(len(ss))] }

func (c *Ctx) someString() string {
	switch c.Rng.Intn(10) {
	case 0:
		return c.pick("", "a", "*.example.com", "A&B", "x@y", "a_b", "Q\"uote", "tab\tend", "\x00", "\x7f", "under_score")
	case 1:
		return c.pick("中国", "Москва", "é", "\U0001F600", "\u07ff", "\u0800", "\uffff", "\U0010ffff", "a中b")
	case 2:
		return strings.Repeat(c.pick("x", "long name ", "汉"), 1+c.Rng.Intn(60))
	case 3: // any characters of PrintableString, with one or two others at times
		b := []byte{}
		for n := 1 + c.Rng.Intn(70); n > 0; n-- {
			b = append(b, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?"[c.Rng.Intn(74)])
		}
		if c.Rng.Intn(3) == 0 {
			b[c.Rng.Intn(len(b))] = byte(c.Rng.Intn(128))
		}
		return string(b)
	case 4: // any code points
		r := []rune{}
		for n := 1 + c.Rng.Intn(12); n > 0; n-- {
			x := rune(c.Rng.Intn(1 << uint(1+c.Rng.Intn(20))))
			if x >= 0xd800 && x < 0xe000 {
				x = 'd'
			}
			r = append(r, x)
		}
		return string(r)
	default:
		return c.pick("CN", "Beijing", "Test Org", "unit 1", "Hai Dian", "a-b", "O'Neil (x), +/:=?", "0123456789", "example.com", "CA")
	}
}

func (c *Ctx) badString() string {
	return c.pick("\xff", "a\xc0\x80", "\xed\xa0\x80", "ok\xe4\xb8", "\xf4\x90\x80\x80", "\xc1\xbf", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\x80", "\xf8\x88\x80\x80\x80")
}

// some: a list of up to n values, often empty, with spare capacity behind it
func some[T any](c *Ctx, n int, f func() T) []T {
	if n == 0 || c.Rng.Intn(2) == 0 {
		return nil
	}
	k := 1 + c.Rng.Intn(n)
	if c.Rng.Intn(50) == 0 {
		k = 1 + c.Rng.Intn(20)
	}
	r := make([]T, 0, k+c.Rng.Intn(3))
	for i := 0; i < k; i++ {
		r = append(r, f())
	}
	return r
}

func (c *Ctx) someName() pkix.Name {
	if c.Rng.Intn(8) == 0 {
		return pkix.Name{}
	}
	n := pkix.Name{CommonName: c.someString()}
	n.Country = some(c, 2, c.someString)
	n.Organization = some(c, 3, c.someString)
	n.OrganizationalUnit = some(c, 3, c.someString)
	n.Locality = some(c, 2, c.someString)
	n.Province = some(c, 2, c.someString)
	n.StreetAddress = some(c, 2, c.someString)
	n.PostalCode = some(c, 2, c.someString)
	if c.Rng.Intn(3) == 0 {
		n.SerialNumber = c.someString()
	}
	if c.Rng.Intn(4) == 0 {
		n.ExtraNames = some(c, 3, func() pkix.AttributeTypeAndValue {
			o := asn1.ObjectIdentifier{2, 5, 4, []int{3, 5, 6, 10, 11, 12, 41}[c.Rng.Intn(7)]}
			if c.Rng.Intn(3) == 0 {
				o = c.readableOID()
			}
			return pkix.AttributeTypeAndValue{Type: o, Value: c.someString()}
		})
	}
	if c.Rng.Intn(4) == 0 { // as names look after parsing
		n.Names = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: "stale"}}
	}
	return n
}

// readableOID: first component pair below 2^31 in total
func (c *Ctx) readableOID() asn1.ObjectIdentifier {
	for {
		o := c.someOID()
		if o[0] < 2 || o[1] < 1<<31-80 {
			return o
		}
	}
}

func (c *Ctx) rawName() []byte {
	n := c.someName()
	n.ExtraNames = nil
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		return []byte{0x30, 0}
	}
	if c.Rng.Intn(3) == 0 { // another string type than this library would choose
		return cons(0x30, cons(0x31, cons(0x30, prim(6, []byte{0x55, 4, 3}), prim(12, []byte("utf8 cn"))))).enc()
	}
	return b
}

func (c *Ctx) someIP() net.IP {
	switch c.Rng.Intn(5) {
	case 0:
		return net.IP(c.sixteen())
	case 1:
		return net.IPv4(byte(c.Rng.Intn(256)), 0, 255, byte(c.Rng.Intn(256))) // 16-byte form
	case 2:
		return net.ParseIP(c.pick("::1", "::", "fe80::1", "::ffff:0:1.2.3.4", "2001:db8::1", "0.0.0.0"))
	default:
		return net.IP(c.Bytes(4))
	}
}

func (c *Ctx) someURL() *url.URL {
	s := c.pick("http://a.example/", "https://example.com", "https://example.com:8443/x?y=z#f", "ldap://h/cn=a", "urn:uuid:1", "http://[::1]/", "http://u:p@h.x/%20", "mailto:a@b.c", "ftp://x.y.z/a/b.c",
		"http://a/"+strings.Repeat("p", c.Rng.Intn(200)))
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func (c *Ctx) someDNS() string {
	return c.pick("example.com", "*.example.com", "a", "xn--fiq.cn", "A.B.C.", "", ".x", "中.cn", "\xff\xfe", strings.Repeat("a.", 70)+"b")
}
func (c *Ctx) someEmail() string {
	return c.pick("a@b.c", "user@example.com", "", "not an address", "é@x", "\"q q\"@h")
}
func (c *Ctx) uri() string {
	return c.pick("http://ocsp.example/", "ldap:///x", "", "http://a/"+strings.Repeat("q", 120+c.Rng.Intn(20)), "\xff", "h")
}

func (c *Ctx) someExt() pkix.Extension {
	e := pkix.Extension{Id: c.readableOID(), Critical: c.Rng.Intn(2) == 0, Value: c.Content(c.Rng.Intn(20))}
	if c.Rng.Intn(6) == 0 {
		e.Value = c.Content(120 + c.Rng.Intn(20))
	}
	return e
}

// goodValue is a well-formed value for a known extension.
func (c *Ctx) goodValue(id int) []byte {
	uri := prim(0x86, []byte("http://x/y"))
	switch id {
	case 14:
		return prim(4, c.Bytes(20)).enc()
	case 15:
		return []byte{3, 2, 5, 0xa0}
	case 17:
		return cons(0x30, prim(0x82, []byte("extra.example")), prim(0x87, []byte{1, 2, 3, 4})).enc()
	case 19:
		return cons(0x30, prim(1, []byte{255}), prim(2, []byte{3})).enc()
	case 30:
		return cons(0x30, cons(0xa0, cons(0x30, prim(0x82, []byte("extra.example"))))).enc()
	case 31:
		return cons(0x30, cons(0x30, cons(0xa0, cons(0xa0, uri)))).enc()
	case 32:
		return cons(0x30, cons(0x30, prim(6, []byte{0x2a, 3, 4}))).enc()
	case 35:
		return cons(0x30, prim(0x80, c.Bytes(4))).enc()
	case 37:
		return cons(0x30, prim(6, []byte{0x2b, 6, 1, 5, 5, 7, 3, 1})).enc()
	case 1: // AIA
		return cons(0x30, cons(0x30, prim(6, []byte{0x2b, 6, 1, 5, 5, 7, 48, 1}), uri)).enc()
	}
	return nil
}

var knownIds = []int{14, 15, 17, 19, 30, 31, 32, 35, 37, 1}

func idOf(o asn1.ObjectIdentifier) (int, bool) {
	for _, id := range knownIds {
		if o.Equal(extOID(id)) {
			return id, true
		}
	}
	return 0, false
}

func extOID(id int) asn1.ObjectIdentifier {
	if id == 1 {
		return asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 1}
	}
	return asn1.ObjectIdentifier{2, 5, 29, id}
}

func (c *Ctx) someSerial() *big.Int {
	switch c.Rng.Intn(6) {
	case 0:
		return big.NewInt([]int64{0, 1, 127, 128, 255, 256, -1, -128, -129}[c.Rng.Intn(9)])
	case 1:
		return new(big.Int).SetBytes(c.Bytes(20))
	case 2:
		x := new(big.Int).SetBytes(c.Content(1 + c.Rng.Intn([]int{22, 140}[c.Rng.Intn(2)])))
		if c.Rng.Intn(4) == 0 {
			x.Neg(x)
		}
		return x
	default:
		return new(big.Int).SetBytes(c.Bytes(1 + c.Rng.Intn(16)))
	}
}

// serials in ordinary use
func (c *Ctx) times(t *x509.Certificate) {
	y := []int{1950, 1970, 2000, 2024, 2049, 2050, 2051, 2100, 9999, 1949, 1900, 1, 0}
	tm := func() time.Time {
		z := []*time.Location{time.UTC, time.FixedZone("e", 8*3600), time.FixedZone("w", -11*3600), time.FixedZone("h", 5*3600+1800)}[c.Rng.Intn(4)]
		yr := y[c.Rng.Intn(len(y))]
		ns := 0
		if c.Rng.Intn(3) == 0 {
			ns = c.Rng.Intn(1000000000)
		}
		if yr == 2049 || yr == 2050 || yr == 1950 || yr == 1949 {
			if c.Rng.Intn(2) == 0 { // around the change of form, in other zones
				d := time.Duration(c.Rng.Intn(48)-24) * time.Hour
				b := time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)
				if yr < 2000 {
					b = time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC)
				}
				return b.Add(d).Add(time.Duration(c.Rng.Intn(3)-1) * time.Second).In(z)
			}
		}
		r := time.Date(yr, time.Month(1+c.Rng.Intn(12)), 1+c.Rng.Intn(28), c.Rng.Intn(24), c.Rng.Intn(60), c.Rng.Intn(60), ns, z)
		if r.UTC().Year() < 0 || r.UTC().Year() > 9999 {
			return time.Date(2024, 2, 29, 12, 0, 0, 0, z)
		}
		return r
	}
	t.NotBefore, t.NotAfter = tm(), tm()
}

func (c *Ctx) someNet() *net.IPNet {
	if c.Rng.Intn(2) == 0 {
		n := &net.IPNet{IP: net.IP(c.Bytes(4)), Mask: net.CIDRMask(c.Rng.Intn(33), 32)}
		if c.Rng.Intn(4) == 0 {
			n.IP = n.IP.To16()
		}
		return n
	}
	n := &net.IPNet{IP: net.IP(c.sixteen()), Mask: net.CIDRMask(c.Rng.Intn(129), 128)}
	if n.IP.To4() != nil {
		n.Mask = net.CIDRMask(c.Rng.Intn(40)+89, 128)
	}
	return n
}

// sixteen gives an address of 16 bytes, often one that stands for an IPv4 address.
func (c *Ctx) sixteen() []byte {
	b := c.Bytes(16)
	switch c.Rng.Intn(5) {
	case 0, 1:
		copy(b, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
	case 2:
		copy(b, make([]byte, 12))
	}
	return b
}

func (c *Ctx) goodDomain() string {
	return c.pick("example.com", ".example.com", "a", "a.b.c.d", "x_y", "", "EXAMPLE", "*.x")
}
func (c *Ctx) goodMailbox() string {
	return c.pick("a@b.c", "example.com", ".example.com", "first.last@x", "\"q\\\"q\"@h.x", "a+b=c@d", "")
}

// constraints fills in name constraints that are valid
func (c *Ctx) constraints(t *x509.Certificate) {
	t.PermittedDNSDomainsCritical = c.Rng.Intn(2) == 0
	t.PermittedDNSDomains = some(c, 3, c.goodDomain)
	t.ExcludedDNSDomains = some(c, 3, c.goodDomain)
	t.PermittedIPRanges = some(c, 3, c.someNet)
	t.ExcludedIPRanges = some(c, 3, c.someNet)
	t.PermittedEmailAddresses = some(c, 3, c.goodMailbox)
	t.ExcludedEmailAddresses = some(c, 3, c.goodMailbox)
	t.PermittedURIDomains = some(c, 3, c.goodDomain)
	t.ExcludedURIDomains = some(c, 3, c.goodDomain)
}

// template: a certificate template; want(i) says whether feature i is used
func (c *Ctx) template(want func(i int) bool) *x509.Certificate {
	t := &x509.Certificate{SerialNumber: c.someSerial()}
	c.times(t)
	if want(0) {
		t.Subject = c.someName()
	}
	if want(1) {
		t.KeyUsage = x509.KeyUsage(1 + c.Rng.Intn(511))
	}
	if want(2) {
		t.ExtKeyUsage = some(c, 14, func() x509.ExtKeyUsage { return x509.ExtKeyUsage(c.Rng.Intn(14)) })
		t.UnknownExtKeyUsage = some(c, 2, c.readableOID)
	}
	if want(3) {
		t.BasicConstraintsValid = true
		t.IsCA = c.Rng.Intn(2) == 0
		t.MaxPathLen = []int{0, 0, 0, -1, 1, 2, 127, 128, 255, 256, 65535, 1<<31 - 1}[c.Rng.Intn(12)]
		t.MaxPathLenZero = c.Rng.Intn(2) == 0
	} else if c.Rng.Intn(4) == 0 {
		t.IsCA, t.MaxPathLen = true, 3 // not valid without the flag
	}
	if want(4) {
		t.SubjectKeyId, _ = Spare(c.keyId(), c.Rng.Intn(3))
	}
	if want(5) {
		t.AuthorityKeyId, _ = Spare(c.keyId(), c.Rng.Intn(3))
	}
	if want(6) {
		t.OCSPServer, t.IssuingCertificateURL = some(c, 3, c.uri), some(c, 3, c.uri)
	}
	if want(7) {
		t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = some(c, 3, c.someDNS), some(c, 2, c.someEmail), some(c, 3, c.someIP), some(c, 2, c.someURL)
	}
	if want(8) {
		t.PolicyIdentifiers = some(c, 3, c.readableOID)
	}
	if want(9) {
		c.constraints(t)
	}
	if want(10) {
		t.CRLDistributionPoints = some(c, 3, c.uri)
	}
	if want(11) {
		t.ExtraExtensions = some(c, 4, func() pkix.Extension {
			if c.Rng.Intn(2) == 0 {
				id := knownIds[c.Rng.Intn(len(knownIds))]
				return pkix.Extension{Id: extOID(id), Critical: c.Rng.Intn(2) == 0, Value: c.goodValue(id)}
			}
			return c.someExt()
		})
		if n := len(t.ExtraExtensions); n > 0 && c.Rng.Intn(3) == 0 { // one that is there twice
			e := t.ExtraExtensions[c.Rng.Intn(n)]
			if c.Rng.Intn(2) == 0 {
				e = c.someExt()
				t.ExtraExtensions = append(t.ExtraExtensions, e)
			}
			e.Critical, e.Value = c.Rng.Intn(2) == 0, append([]byte{}, e.Value...)
			if _, ok := idOf(e.Id); !ok && c.Rng.Intn(2) == 0 {
				e.Value = c.Content(c.Rng.Intn(5))
			}
			t.ExtraExtensions = append(t.ExtraExtensions, e)
		}
	}
	if want(12) {
		t.RawSubject = c.rawName()
	}
	return t
}

func (c *Ctx) keyId() []byte {
	if c.Rng.Intn(20) == 0 {
		return c.Content([]int{32, 64, 65, 120, 127, 128, 255, 256, 300}[c.Rng.Intn(9)])
	}
	return c.Content(1 + c.Rng.Intn(24))
}

// enlarge makes one part of a template much larger than usual.
func (c *Ctx) enlarge(t *x509.Certificate, r *x509.CertificateRequest) {
	n := 257 + c.Rng.Intn(50)
	kind := c.larges // one kind after the other
	c.larges++
	list := func(f func() string) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, f())
		}
		return
	}
	ext := pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, 4}, Value: c.Content(c.bigSize())}
	many := func() (l []pkix.Extension) {
		for i := 0; i < n; i++ {
			l = append(l, pkix.Extension{Id: asn1.ObjectIdentifier{1, 2, 3, i}, Value: c.Bytes(c.Rng.Intn(9)), Critical: i%3 == 0})
		}
		return
	}
	org := strings.Repeat("o", c.bigSize()%40000)
	host := func() string { return fmt.Sprintf("h%d.example", c.Rng.Intn(1000)) }
	names := func() (dns, mail []string, ips []net.IP, uris []*url.URL) {
		switch kind % 4 {
		case 0:
			mail = list(func() string { return "u@" + host() })
		case 1:
			for i := 0; i < n; i++ {
				ips = append(ips, c.someIP())
			}
		case 2:
			for i := 0; i < n; i++ {
				uris = append(uris, c.someURL())
			}
		default:
			dns = list(host)
		}
		return
	}
	if r != nil {
		if kind%8 < 4 {
			r.ExtraExtensions = nil
		}
		switch kind % 8 {
		case 0, 1, 2, 3:
			r.DNSNames, r.EmailAddresses, r.IPAddresses, r.URIs = names()
		case 4:
			r.ExtraExtensions = append(r.ExtraExtensions, ext)
		case 5:
			r.ExtraExtensions = append(r.ExtraExtensions, many()...)
		case 6:
			r.Subject.Organization = append(r.Subject.Organization, org)
		case 7:
			r.Subject.OrganizationalUnit = list(host)
		}
		return
	}
	t.ExtraExtensions = nil
	switch kind % 14 {
	case 0, 1, 2, 3:
		t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = names()
	case 9:
		for i := 0; i < n; i++ {
			t.UnknownExtKeyUsage = append(t.UnknownExtKeyUsage, c.readableOID())
		}
	case 10:
		for i := 0; i < n; i++ {
			t.PermittedIPRanges = append(t.PermittedIPRanges, c.someNet())
			t.ExcludedIPRanges = append(t.ExcludedIPRanges, c.someNet())
		}
		t.PermittedEmailAddresses, t.ExcludedURIDomains = list(func() string { return "u@" + host() }), list(host)
	case 11:
		t.ExtraExtensions = append(t.ExtraExtensions, ext)
	case 12:
		t.ExtraExtensions = append(t.ExtraExtensions, many()...)
	case 13:
		t.Subject.Organization = append(t.Subject.Organization, org)
	case 4:
		t.Subject.OrganizationalUnit = list(host)
	case 5:
		t.PolicyIdentifiers = nil
		for i := 0; i < n; i++ {
			t.PolicyIdentifiers = append(t.PolicyIdentifiers, c.readableOID())
		}
	case 6:
		t.CRLDistributionPoints = list(func() string { return "http://" + host() + "/crl" })
	case 7:
		t.PermittedDNSDomains = list(host)
		t.ExcludedDNSDomains = list(host)
	case 8:
		t.OCSPServer = list(func() string { return "http://" + host() })
	}
}

func (c *Ctx) someTemplate() *x509.Certificate {
	m := c.Rng.Intn(1 << 13)
	switch c.Rng.Intn(6) {
	case 0:
		m = 1<<12 - 1
	case 1:
		m = 1 << uint(c.Rng.Intn(13))
	}
	if c.Rng.Intn(4) != 0 {
		m &^= 1 << 12
	}
	return c.template(func(i int) bool { return m>>uint(i)&1 == 1 })
}

func (c *Ctx) someParent() *x509.Certificate {
	p := &x509.Certificate{Subject: c.someName()}
	if c.Rng.Intn(2) == 0 {
		p.RawSubject = c.rawName()
	}
	if c.Rng.Intn(3) != 0 {
		p.SubjectKeyId = c.keyId()
	}
	return p
}

func (c *Ctx) someAttrs() []pkix.AttributeTypeAndValueSET {
	extReq := asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	return some(c, 3, func() pkix.AttributeTypeAndValueSET {
		a := pkix.AttributeTypeAndValueSET{Type: extReq}
		str := c.Rng.Intn(2) == 0
		if str {
			a.Type = c.readableOID()
		}
		nv := c.Rng.Intn(3)
		if c.Rng.Intn(4) != 0 {
			nv = 1
		}
		a.Value = make([][]pkix.AttributeTypeAndValue, 0, nv+1)
		for i := 0; i < nv; i++ {
			v := make([]pkix.AttributeTypeAndValue, 0, 6)
			for j := c.Rng.Intn(3); j > 0; j-- {
				it := pkix.AttributeTypeAndValue{Type: c.readableOID(), Value: []byte(c.Content(c.Rng.Intn(10)))}
				if str {
					it.Value = c.someString()
				} else if c.Rng.Intn(3) == 0 {
					it = pkix.AttributeTypeAndValue{Type: extOID(17), Value: c.goodValue(17)}
				}
				v = append(v, it)
			}
			a.Value = append(a.Value, v)
		}
		return a
	})
}

func (c *Ctx) someCSR() *x509.CertificateRequest {
	t := &x509.CertificateRequest{Subject: c.someName()}
	if c.Rng.Intn(5) == 0 {
		t.RawSubject = c.rawName()
	}
	if c.Rng.Intn(3) != 0 {
		t.DNSNames, t.EmailAddresses, t.IPAddresses, t.URIs = some(c, 3, c.someDNS), some(c, 2, c.someEmail), some(c, 3, c.someIP), some(c, 2, c.someURL)
	}
	t.ExtraExtensions = some(c, 3, func() pkix.Extension {
		if c.Rng.Intn(3) == 0 {
			id := knownIds[c.Rng.Intn(len(knownIds))]
			return pkix.Extension{Id: extOID(id), Critical: c.Rng.Intn(2) == 0, Value: c.goodValue(id)}
		}
		return c.someExt()
	})
	if c.Rng.Intn(2) == 0 {
		t.Attributes = c.someAttrs()
		// an extension both in an attribute and asked for
		if len(t.ExtraExtensions) > 0 && len(t.Attributes) > 0 && c.Rng.Intn(2) == 0 {
			a := &t.Attributes[c.Rng.Intn(len(t.Attributes))]
			if len(a.Value) > 0 && a.Type.Equal(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}) {
				i := c.Rng.Intn(len(a.Value))
				a.Value[i] = append(a.Value[i], pkix.AttributeTypeAndValue{Type: t.ExtraExtensions[0].Id, Value: []byte("first")})
			}
		}
	}
	return t
}

// badOID without the negative arcs, which encoding/asn1 does not refuse
func (c *Ctx) refusedOID() asn1.ObjectIdentifier {
	return []asn1.ObjectIdentifier{nil, {}, {1}, {3, 1}, {0, 40}, {1, 40, 5}, {0, 1000}, {4, 0}}[c.Rng.Intn(8)]
}
