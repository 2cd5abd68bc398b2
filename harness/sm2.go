package main

import (
	crand "crypto/rand"
	"io"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
)

func init() {
	drivers["C08"] = driveC08
	drivers["C09"] = driveC09
	drivers["C10"] = driveC10
	drivers["C11"] = driveC11
	drivers["C12"] = driveC12
	drivers["C13"] = driveC13
	drivers["C14"] = driveC14
	drivers["C15"] = driveC15
	drivers["C16"] = driveC16
}

var one = big.NewInt(1)

func nMinus(i int64) *big.Int { return new(big.Int).Sub(stdN, big.NewInt(i)) }

// ---- single calls

func (c *Ctx) genKey(s *Stream) *Key {
	var priv *sm2.PrivateKey
	var pub *sm2.PublicKey
	u := s.used
	var src io.Reader = s
	if genuine {
		src = crand.Reader
	}
	out := DoErr(func() (err error) { priv, pub, err = sm2.GenerateKey(src); return })
	e := Ev{"op": "GenerateKey", "cv": 0, "out": out, "nilr": priv == nil && pub == nil, "d": B{}, "x": B{}, "y": B{}}
	if priv != nil && pub != nil {
		e["d"], e["x"], e["y"] = Nat(priv.D), Nat(pub.X), Nat(pub.Y)
	}
	c.Add(rngFields(e, s, u))
	if out != "ok" || c.dead {
		return nil
	}
	return keyOf(0, priv.D)
}

func (c *Ctx) calcPub(k *Key) {
	var pub *sm2.PublicKey
	priv := c.priv(0, k.Priv)
	same := watchInts(append(curveInts(priv.Curve), priv.D)...)
	out, _ := Do(func() { pub = sm2.CalculatePubKey(priv) })
	e := Ev{"op": "CalcPub", "cv": k.cv, "d": Nat(k.d), "out": out, "same": same(), "x": B{}, "y": B{}}
	if pub != nil {
		e["x"], e["y"] = Nat(pub.X), Nat(pub.Y)
	}
	c.Add(e)
}

func (c *Ctx) keyBytes(k *Key) {
	var unc, raw, pr []byte
	pub, priv := c.pub(0, k.Pub), c.priv(0, k.Priv)
	same := watchInts(pub.X, pub.Y, priv.D)
	out, _ := Do(func() { unc = pub.GetUnCompressBytes(); raw = pub.GetRawBytes() })
	c.Add(Ev{"op": "PubBytes", "x": Nat(k.x), "y": Nat(k.y), "unc": cp(unc), "raw": cp(raw), "out": out, "same": same()})
	out, _ = Do(func() { pr = priv.GetRawBytes() })
	c.Add(Ev{"op": "PrivBytes", "d": Nat(k.d), "raw": cp(pr), "out": out, "same": same()})
	if c.dead {
		return
	}
	c.rawToPub(raw)
	c.rawToPriv(pr)
	// the decoded key must work like the original
	if p, err := sm2.RawBytesToPrivateKey(append([]byte(nil), pr...)); err == nil && p != nil {
		c.calcPub(&Key{cv: 0, d: k.d, Priv: p})
	}
}

func (c *Ctx) rawToPub(in []byte) {
	var p *sm2.PublicKey
	in0 := cp(in)
	buf, same := c.in("in", in, 3)
	out := DoErr(func() (err error) { p, err = sm2.RawBytesToPublicKey(buf); return })
	s := same()
	for i := range buf {
		if !conc {
			buf[i] ^= 0x5a // the caller may reuse its buffer
		}
	}
	e := Ev{"op": "RawToPub", "in": in0, "out": out, "nilr": p == nil, "same": s, "x": B{}, "y": B{}}
	if p != nil {
		e["x"], e["y"] = Nat(p.X), Nat(p.Y)
	}
	c.Add(e)
}

func (c *Ctx) rawToPriv(in []byte) {
	var p *sm2.PrivateKey
	in0 := cp(in)
	buf, same := c.in("in", in, 3)
	out := DoErr(func() (err error) { p, err = sm2.RawBytesToPrivateKey(buf); return })
	s := same()
	for i := range buf {
		if !conc {
			buf[i] ^= 0x5a
		}
	}
	e := Ev{"op": "RawToPriv", "in": in0, "out": out, "nilr": p == nil, "same": s, "d": B{}}
	if p != nil {
		e["d"] = Nat(p.D)
	}
	c.Add(e)
}

// sign calls Sign (der) or SignToRS and returns the pair if there is one.
func (c *Ctx) sign(k *Key, id, m []byte, s *Stream, der bool) (r, ss *big.Int) {
	var sig []byte
	idb, idok := c.in("id", id, 5)
	if id == nil {
		idb = nil
	}
	mb, mok := c.in("m", m, 5)
	priv := c.priv(0, k.Priv)
	intsok := watchInts(append(curveInts(priv.Curve), priv.D)...)
	u := s.used
	var out string
	e := Ev{"cv": k.cv, "d": Nat(k.d), "nilid": id == nil, "id": cp(id), "m": cp(m)}
	With(s, func() {
		if der {
			out = DoErr(func() (err error) { sig, err = sm2.Sign(priv, idb, mb); return })
		} else {
			out = DoErr(func() (err error) { r, ss, err = sm2.SignToRS(priv, idb, mb); return })
		}
	})
	e["out"], e["same"] = out, idok() && mok() && intsok()
	if der {
		e["op"], e["sig"], e["nilr"] = "Sign", cp(sig), sig == nil
	} else {
		e["op"], e["r"], e["s"], e["nilr"] = "SignRS", Int(r), Int(ss), r == nil && ss == nil
	}
	c.Add(rngFields(e, s, u))
	if out != "ok" {
		return nil, nil
	}
	if der {
		r, ss, _ = sm2.UnmarshalSign(sig)
	}
	return r, ss
}

func (c *Ctx) verifyRS(cv int, pub *sm2.PublicKey, id, m []byte, r, s *big.Int) bool {
	var res bool
	idb, idok := c.in("id", id, 4)
	if id == nil {
		idb = nil
	}
	mb, mok := c.in("m", m, 4)
	q, r1, s1 := c.pub(0, pub), c.int(0, r), c.int(1, s)
	intsok := watchInts(append(curveInts(q.Curve), q.X, q.Y, r1, s1)...)
	out, _ := Do(func() { res = sm2.VerifyByRS(q, idb, mb, r1, s1) })
	c.Add(Ev{"op": "VerifyRS", "cv": cv, "x": Int(pub.X), "y": Int(pub.Y), "nilid": id == nil, "id": cp(id), "m": cp(m),
		"r": Int(r), "s": Int(s), "res": res, "out": out, "same": idok() && mok() && intsok()})
	return res
}

func (c *Ctx) verify(cv int, pub *sm2.PublicKey, id, m, sig []byte) bool {
	var res bool
	idb, idok := c.in("id", id, 4)
	if id == nil {
		idb = nil
	}
	mb, mok := c.in("m", m, 4)
	sb, sok := c.in("sig", sig, 4)
	q := c.pub(0, pub)
	intsok := watchInts(append(curveInts(q.Curve), q.X, q.Y)...)
	out, _ := Do(func() { res = sm2.Verify(q, idb, mb, sb) })
	c.Add(Ev{"op": "Verify", "cv": cv, "x": Int(pub.X), "y": Int(pub.Y), "nilid": id == nil, "id": cp(id), "m": cp(m),
		"sig": cp(sig), "res": res, "out": out, "same": idok() && mok() && sok() && intsok()})
	return res
}

func (c *Ctx) encrypt(k *Key, m []byte, typ int, s *Stream) []byte {
	var ct []byte
	mb, mok := c.in("m", m, 7)
	q := c.pub(0, k.Pub)
	intsok := watchInts(append(curveInts(q.Curve), q.X, q.Y)...)
	u := s.used
	var out string
	With(s, func() {
		out = DoErr(func() (err error) { ct, err = sm2.Encrypt(q, mb, sm2.Sm2CipherTextType(typ)); return })
	})
	c.Add(rngFields(Ev{"op": "Encrypt", "cv": k.cv, "d": Nat(k.d), "x": Int(k.Pub.X), "y": Int(k.Pub.Y), "m": cp(m), "type": typ,
		"ct": cp(ct), "out": out, "nilr": ct == nil, "same": mok() && intsok()}, s, u))
	if out != "ok" {
		return nil
	}
	return ct
}

func (c *Ctx) decrypt(k *Key, ct []byte, typ int) []byte {
	var m []byte
	cb, cok := c.in("ct", ct, 9)
	priv := c.priv(0, k.Priv)
	intsok := watchInts(append(curveInts(priv.Curve), priv.D)...)
	out := DoErr(func() (err error) { m, err = sm2.Decrypt(priv, cb, sm2.Sm2CipherTextType(typ)); return })
	c.Add(Ev{"op": "Decrypt", "cv": k.cv, "d": Nat(k.d), "ct": cp(ct), "type": typ, "r": cp(m), "nilr": m == nil, "out": out,
		"same": cok() && intsok()})
	if out != "ok" {
		return nil
	}
	return m
}

func (c *Ctx) marshalCipher(in []byte, typ int) []byte {
	var r []byte
	ib, iok := c.in("in", in, 5)
	out := DoErr(func() (err error) { r, err = sm2.MarshalCipher(ib, sm2.Sm2CipherTextType(typ)); return })
	c.Add(Ev{"op": "MarshalCipher", "in": cp(in), "type": typ, "r": cp(r), "nilr": r == nil, "out": out, "same": iok()})
	return r
}

func (c *Ctx) unmarshalCipher(in []byte, typ int) []byte {
	var r []byte
	ib, iok := c.in("in", in, 5)
	out := DoErr(func() (err error) { r, err = sm2.UnmarshalCipher(ib, sm2.Sm2CipherTextType(typ)); return })
	c.Add(Ev{"op": "UnmarshalCipher", "in": cp(in), "type": typ, "r": cp(r), "nilr": r == nil, "out": out, "same": iok()})
	return r
}

func (c *Ctx) marshalSign(r, s *big.Int) []byte {
	var der []byte
	r1, s1 := c.int(0, r), c.int(1, s)
	ok := watchInts(r1, s1)
	out := DoErr(func() (err error) { der, err = sm2.MarshalSign(r1, s1); return })
	c.Add(Ev{"op": "MarshalSign", "r": Int(r), "s": Int(s), "der": cp(der), "out": out, "same": ok()})
	return der
}

func (c *Ctx) unmarshalSign(in []byte) {
	var r, s *big.Int
	ib, iok := c.in("in", in, 5)
	out := DoErr(func() (err error) { r, s, err = sm2.UnmarshalSign(ib); return })
	same := iok()
	for i := range ib {
		if !conc {
			ib[i] ^= 0x77
		}
	}
	c.Add(Ev{"op": "UnmarshalSign", "in": cp(in), "r": Int(r), "s": Int(s), "nilr": r == nil && s == nil, "out": out, "same": same})
}

// ---- C08: keys

func driveC08(c *Ctx) {
	sameSid = true
	c.Trace(func() {
		for i := 0; i < 3; i++ {
			cv := sm2.GetSm2P256V1()
			c.Add(Ev{"op": "Curve", "p": Nat(cv.P), "a": Nat(cv.A), "b": Nat(cv.B), "n": Nat(cv.N), "gx": Nat(cv.Gx), "gy": Nat(cv.Gy), "bits": cv.BitSize, "out": "ok"})
			c.genKey(c.NewStream())
		}
	})
	// generated keys, the candidates n-1, n, 0, all ones and all zeros among them
	edge := func(v *big.Int) []byte {
		b := pad32(v)
		b[1] ^= 0x42 // how elliptic.GenerateKey reads its source
		return b
	}
	var edges [][]byte
	for _, v := range []*big.Int{nMinus(1), stdN, new(big.Int), nMinus(2), nMinus(3), one, new(big.Int).Add(stdN, one), stdP} {
		edges = append(edges, edge(v), pad32(v))
	}
	ff := make([]byte, 32)
	for i := range ff {
		ff[i] = 0xff
	}
	edges = append(edges, ff, make([]byte, 32))
	for i := range edges {
		c.Trace(func() {
			c.genKey(c.ScriptThen(append([]byte(nil), edges[i]...)))
			// two rejected candidates in a row
			c.genKey(c.ScriptThen(append(append([]byte(nil), edges[i]...), edges[c.Rng.Intn(len(edges))]...)))
		})
	}
	for t := 0; t < c.N(20, 600); t++ {
		c.Trace(func() {
			if k := c.genKey(c.NewStream()); k != nil {
				c.calcPub(k)
				c.keyBytes(k)
			}
		})
	}
	ks := c.specialKeys()
	for i := 0; i < c.N(10, 250); i++ {
		ks = append(ks, keyOf(0, c.anyShort(stdCurve.Gx, stdCurve.Gy, one)))
	}
	for bits := uint(1); bits < 256; bits += uint(c.N(9, 1)) { // private keys of every length
		ks = append(ks, keyOf(0, c.randScalar(new(big.Int).Lsh(one, bits-1))))
	}
	for i := int64(1); i <= int64(c.N(6, 60)); i++ {
		ks = append(ks, keyOf(0, big.NewInt(i)), keyOf(0, nMinus(i+1)))
	}
	for _, k := range ks {
		c.Trace(func() { c.calcPub(k); c.keyBytes(k) })
	}
	for cv := 1; cv <= len(toys); cv++ {
		n := toys[cv-1].n
		for d := int64(1); d < n-1; d += 1 + n/int64(c.N(12, 200)) {
			c.Trace(func() { c.calcPub(keyOf(cv, big.NewInt(d))) })
		}
	}
	// raw bytes of every length and shape
	for n := 0; n <= 100; n++ {
		if n > 70 && n%7 != 0 && !c.Thorough() {
			continue
		}
		c.Trace(func() {
			b := c.Content(n)
			c.rawToPub(b)
			c.rawToPriv(b)
			if n == 0 {
				c.rawToPub(nil)
				c.rawToPriv(nil)
			}
		})
	}
	c.Trace(func() {
		k := c.randKey()
		c.rawToPub(k.Pub.GetUnCompressBytes())
		for _, b := range [][]byte{make([]byte, 64), append(pad32(stdP), pad32(stdP)...), append(pad32(k.x), pad32(k.x)...)} {
			c.rawToPub(b)
		}
		for _, v := range []*big.Int{new(big.Int), one, nMinus(2), nMinus(1), stdN} {
			c.rawToPriv(pad32(v))
		}
	})
}

// ---- C09: signing

func driveC09(c *Ctx) {
	sameSid = true
	keys := c.specialKeys()
	for i := 0; i < c.N(6, 200); i++ {
		keys = append(keys, c.randKey())
	}
	per := c.N(6, 20)
	for _, k := range keys {
		c.Trace(func() {
			for i := 0; i < per; i++ {
				id, m := c.someId(), c.someMsg()
				r, s := c.sign(k, id, m, c.NewStream(), i%2 == 0)
				if r != nil {
					c.verifyRS(0, k.Pub, id, m, r, s)
				}
			}
		})
	}
	// every message length over two blocks, every id length around block and limit boundaries
	k := c.randKey()
	for n := 0; n <= 135; n += 1 + c.Rng.Intn(c.N(5, 1)) {
		c.Trace(func() { c.sign(k, nil, c.Content(n), c.NewStream(), true) })
	}
	for _, n := range bigSizes {
		c.Trace(func() {
			m := c.Content(n)
			r, s := c.sign(k, nil, m, c.NewStream(), n%2 == 0)
			if r != nil {
				c.verifyRS(0, k.Pub, nil, m, r, s)
			}
		})
	}
	lens := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 40, 45, 46, 47, 54, 55, 61, 62, 63, 64, 65, 255, 256, 8190, 8191, 8192, 8193, 16384}
	if c.Thorough() {
		for n := 0; n < 300; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 65535, 65536, 65537)
	}
	for _, n := range lens {
		c.Trace(func() {
			id := c.Content(n)
			m := c.someMsg()
			r, s := c.sign(k, id, m, c.NewStream(), n%2 == 0)
			if r != nil {
				c.verifyRS(0, k.Pub, id, m, r, s)
			}
		})
	}
	// chosen nonces on the real curve: extreme values, and points with short coordinates
	for i := 0; i < c.N(6, 60); i++ {
		c.Trace(func() {
			for _, v := range []*big.Int{c.findScalar(stdCurve.Gx, stdCurve.Gy, shortX(1)), c.shortScalar(true, 2+i%3), c.shortScalar(false, 2+i%3), c.oddScalar(true), c.oddScalar(true), one, nMinus(1), nMinus(2), big.NewInt(2), new(big.Int).Rsh(stdN, 9)} {
				c.sign(c.randKey(), nil, c.someMsg(), c.ScriptThen(pad32(v)), i%2 == 0)
			}
			// candidates out of range first
			var data []byte
			for _, v := range []*big.Int{stdN, new(big.Int), new(big.Int).Add(stdN, one), new(big.Int), c.randScalar(nMinus(1))} {
				data = append(data, pad32(v)...)
			}
			c.sign(c.randKey(), nil, c.someMsg(), c.ScriptThen(data), true)
		})
	}
	// messages for which r, s or r + s has leading zero octets, or r = e + x1 does not exceed n
	for i := 0; i < c.N(8, 60); i++ {
		c.Trace(func() {
			kk := c.randScalar(nMinus(1))
			m := c.shortSig(k, kk, i%4, 16)
			r, s := c.sign(k, nil, m, c.ScriptThen(pad32(kk)), i%8 < 4)
			if r != nil {
				c.verifyRS(0, k.Pub, nil, m, r, s)
				c.verify(0, k.Pub, nil, m, cons(0x30, derInt(r), derInt(s)).enc())
			}
		})
	}
	// digests with leading or trailing zero octets
	c.Trace(func() {
		k := edgeKey()
		for i, v := range edgeMessages {
			m := edgeMessage(v)
			r, s := c.sign(k, nil, m, c.NewStream(), i%2 == 0)
			if r != nil {
				c.verifyRS(0, k.Pub, nil, m, r, s)
			}
		}
	})
	// small curves: r = 0, r + k = n and s = 0 occur; the source offers the nonces in a chosen order
	for cv := 2; cv <= len(toys); cv++ {
		n := int(toys[cv-1].n)
		for t := 0; t < c.N(6, 60); t++ {
			c.Trace(func() {
				k := c.toyKey(cv)
				for i := 0; i < c.N(20, 40); i++ {
					c.sign(k, c.someId(), c.Content(c.Rng.Intn(8)), c.Script(c.toyStream(n)), i%2 == 0)
				}
			})
		}
	}
}

// shortSig is a message whose signature with key k and nonce kk (default id) has bits leading zeros in
// r, s, r + s mod n or the digest value.
func (c *Ctx) shortSig(k *Key, kk *big.Int, which, bits int) []byte {
	z := ownZ(k, []byte("1234567812345678"))
	x1, _ := mulBase(0, kk)
	inv := new(big.Int).ModInverse(bigAdd(k.d, one), stdN)
	m := append(cp(z), c.Bytes(10)...)
	for i := 0; ; i++ {
		m[40], m[39], m[38] = byte(i), byte(i>>8), byte(i>>16)
		e := new(big.Int).SetBytes(sm3sum(m))
		r := modN(bigAdd(e, x1))
		s := modN(new(big.Int).Mul(bigSub(kk, new(big.Int).Mul(r, k.d)), inv))
		if []*big.Int{r, s, modN(bigAdd(r, s)), e}[which].BitLen() <= 256-bits {
			return append([]byte(nil), m[32:]...)
		}
	}
}

// toyStream offers every residue as a nonce, several times in random order.
func (c *Ctx) toyStream(n int) []byte {
	var data []byte
	w := (big.NewInt(int64(n-1)).BitLen() + 7) / 8
	for round := 0; round < 6; round++ {
		for _, v := range c.Rng.Perm(n + 1) {
			if w == 2 {
				data = append(data, byte(v>>8))
			}
			data = append(data, byte(v))
		}
	}
	return data
}
