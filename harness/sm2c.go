package main

import (
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
)

// ---- C13: encryption

func driveC13(c *Ctx) {
	sameSid = true
	keys := c.specialKeys()
	for i := 0; i < c.N(4, 80); i++ {
		keys = append(keys, c.randKey())
	}
	round := func(k *Key, m []byte, typ int, s *Stream) {
		if ct := c.encrypt(k, m, typ, s); ct != nil {
			c.decrypt(k, ct, typ)
		}
	}
	for _, k := range keys {
		c.Trace(func() {
			for i := 0; i < c.N(4, 12); i++ {
				round(k, c.someMsg(), 1+i%2, c.NewStream())
			}
		})
	}
	// every length over several key stream blocks, larger ones at block and counter boundaries
	k := c.randKey()
	var lens []int
	for n := 0; n <= 130; n += 1 + c.Rng.Intn(c.N(3, 1)) {
		lens = append(lens, n)
	}
	lens = append(lens, 0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 8159, 8160, 8161, 8192, 8193, 8224)
	if c.Thorough() {
		for n := 130; n < 700; n++ {
			lens = append(lens, n)
		}
	}
	for _, n := range lens {
		c.Trace(func() {
			round(k, c.Content(n), 1, c.NewStream())
			round(k, c.Content(n), 2, c.NewStream())
		})
	}
	// long messages of any content
	for _, n := range bigSizes {
		c.Trace(func() { round(k, c.Content(n), 1+c.Rng.Intn(2), c.NewStream()) })
	}
	// one-byte messages, many times: the key stream byte must not be zero
	for t := 0; t < 2; t++ {
		c.Trace(func() {
			s := c.NewStream()
			for i := 0; i < c.N(150, 3000); i++ {
				c.encrypt(k, []byte{byte(i)}, 1+i%2, s)
			}
		})
	}
	// the same on a small curve with every ephemeral scalar offered in turn
	for cv := 1; cv <= len(toys); cv++ {
		n := int(toys[cv-1].n)
		c.Trace(func() {
			for i := 0; i < c.N(6, 20); i++ {
				k := c.toyKey(cv)
				for j := 0; j < c.N(12, 60); j++ {
					c.encrypt(k, c.Content(1), 1+j%2, c.Script(c.toyStream(n)))
				}
				round(k, c.someMsg(), 1+i%2, c.Script(c.toyStream(n)))
			}
		})
	}
	// chosen ephemeral scalars: short coordinates of C1 and of the shared point, extreme scalars
	for i := 0; i < c.N(5, 60); i++ {
		c.Trace(func() {
			k := c.randKey()
			for _, v := range []*big.Int{
				c.findScalar(stdCurve.Gx, stdCurve.Gy, shortX(1)), c.findScalar(stdCurve.Gx, stdCurve.Gy, shortY(1)),
				c.findScalar(k.x, k.y, shortX(1)), c.findScalar(k.x, k.y, shortY(1)), one, nMinus(1), big.NewInt(2),
				c.shortScalar(true, 2+i%3), c.shortScalar(false, 2+i%3), c.anyShort(k.x, k.y, k.d), c.anyShort(k.x, k.y, k.d), c.anyShort(k.x, k.y, k.d),
				c.oddScalar(false), c.oddVia(k.d), c.oddVia(k.d)} {
				round(k, c.someMsg(), 1+c.Rng.Intn(2), c.ScriptThen(pad32(v)))
			}
		})
	}
	// a key stream of zeros for the first scalar on the real curve
	for i := 0; i < c.N(3, 30); i++ {
		c.Trace(func() {
			k := c.randKey()
			v := c.findScalar(k.x, k.y, func(x, y *big.Int) bool { return zeroStream(x, y, 1) })
			ct := c.encrypt(k, []byte{0x41}, 1+i%2, c.ScriptThen(pad32(v)))
			if ct != nil {
				c.decrypt(k, ct, 1+i%2)
			}
			v2 := c.findScalar(k.x, k.y, func(x, y *big.Int) bool { return zeroStream(x, y, 1) })
			c.encrypt(k, []byte{0}, 1, c.ScriptThen(append(pad32(v), pad32(v2)...)))
			// zero first byte, but not a zero stream
			round(k, []byte{7, 7}, 1, c.ScriptThen(pad32(v)))
			// an empty message needs no key stream
			round(k, nil, 2, c.ScriptThen(pad32(v)))
		})
	}
	// key streams that begin with two or three zero octets: no such stream for messages of up to that many octets,
	// whatever they are, but one for longer messages
	for i := 0; i < c.N(14, 60); i++ {
		c.Trace(func() {
			k := c.randKey()
			for n := 1; n <= 5; n++ {
				round(k, c.Content(n), 1+i%2, c.ScriptThen(pad32(c.zeroVia(k.d))))
			}
			round(k, c.Content(1+c.Rng.Intn(100)), 1+i%2, c.ScriptThen(append(pad32(c.zeroVia(k.d)), pad32(c.zeroVia(k.d))...)))
			// the source fails when it is asked again
			c.encrypt(k, c.Content(1+i%3), 1+i%2, c.Script(pad32(c.zeroVia(k.d))))
		})
	}
	// unusable keys and orders
	c.Trace(func() {
		z := new(big.Int)
		m := []byte("message")
		for _, p := range [][2]*big.Int{{z, z}, {one, one}, {bigAdd(k.x, stdP), k.y}, {k.x, bigAdd(k.y, stdP)}, {new(big.Int).Neg(k.x), k.y},
			{k.x, new(big.Int).Neg(k.y)}, {k.y, k.x}, {bigSub(k.x, stdP), k.y}, {flipInt(k.x, 0), k.y}, {k.x, flipInt(k.y, 255)}} {
			bad := &Key{cv: 0, d: k.d, x: p[0], y: p[1], Pub: pubAt(0, p[0], p[1])}
			c.encrypt(bad, m, 1, c.NewStream())
			c.encrypt(bad, nil, 2, c.NewStream())
		}
		for _, t := range []int{0, 3, -1, 4, 255, 256, 257, 258, 65537, 1 << 30} {
			c.encrypt(k, m, t, c.NewStream())
			c.encrypt(k, nil, t, c.NewStream())
		}
	})
	// long messages: the counter of the key stream passes 2^8 and 2^16
	c.Trace(func() {
		c.encryptBig(k, 1<<21+77, []int{1, 2, 255, 256, 257, 258, 65534, 65535, 65536, 65537}, 1)
		c.encryptBig(k, 1<<18+5, []int{1, 255, 256, 257, 511, 512, 513, 4096, 8191, 8192}, 2)
		if c.Thorough() {
			c.encryptBig(k, 1<<23+32, []int{1, 65535, 65536, 65537, 131072, 131073, 262143, 262144}, 2)
		}
	})
}

// zeroStream tells whether the first n key stream bytes for the point are zero; used only to choose inputs.
func zeroStream(x, y *big.Int, n int) bool {
	h := sm3sum(append(append(pad32(x), pad32(y)...), 0, 0, 0, 1))
	for i := 0; i < n; i++ {
		if h[i] != 0 {
			return false
		}
	}
	return true
}

func (c *Ctx) encryptBig(k *Key, n int, blocks []int, typ int) {
	m := make([]byte, n)
	var ct, back []byte
	s := c.NewStream()
	var out string
	With(s, func() {
		out = DoErr(func() (err error) { ct, err = sm2.Encrypt(k.Pub, m, sm2.Sm2CipherTextType(typ)); return })
	})
	e := Ev{"op": "EncryptBig", "cv": k.cv, "d": Nat(k.d), "n": n, "len": len(ct), "blocks": blocks, "out": out, "same": isZero(m), "win": []B{},
		"c1": B{}, "c3": B{}, "back": false, "nilr": ct == nil}
	if out == "ok" && len(ct) == n+97 {
		e["c1"] = cp(ct[:65])
		c2, c3 := ct[65:65+n], ct[65+n:]
		if typ == 2 {
			c3, c2 = ct[65:97], ct[97:]
		}
		var w []B
		for _, b := range blocks {
			w = append(w, cp(c2[32*(b-1):32*b]))
		}
		e["win"], e["c3"] = w, cp(c3)
		o := DoErr(func() (err error) { back, err = sm2.Decrypt(k.Priv, ct, sm2.Sm2CipherTextType(typ)); return })
		e["back"] = o == "ok" && len(back) == n && isZero(back)
	}
	c.Add(rngFields(e, s, 0))
}

func isZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// ---- C14: decryption

func driveC14(c *Ctx) {
	enc := func(k *Key, m []byte, typ int) (ct []byte) {
		With(c.NewStream(), func() {
			DoErr(func() (err error) { ct, err = sm2.Encrypt(k.Pub, m, sm2.Sm2CipherTextType(typ)); return })
		})
		return
	}
	keys := c.specialKeys()
	for i := 0; i < c.N(3, 60); i++ {
		keys = append(keys, c.randKey())
	}
	for _, k := range keys {
		c.Trace(func() {
			for typ := 1; typ <= 2; typ++ {
				m := c.someMsg()
				ct := enc(k, m, typ)
				if ct == nil {
					continue
				}
				c.decrypt(k, ct, typ)
				c.decrypt(k, ct, 3-typ)
				c.decrypt(c.randKey(), ct, typ)
			}
		})
	}
	k := c.randKey()
	for typ := 1; typ <= 2; typ++ {
		for _, n := range []int{0, 1, 5, 32, 40} {
			ct := enc(k, c.Content(n), typ)
			if ct == nil {
				continue
			}
			st := c.N(9, 1)
			if n == 5 {
				st = 1
			}
			for bit := 0; bit < 8*len(ct); bit += 1 + c.Rng.Intn(st) {
				c.Trace(func() { c.decrypt(k, flip(ct, bit), typ) })
			}
			c.Trace(func() {
				for bit := 0; bit < 8; bit++ {
					c.decrypt(k, flip(ct, bit), typ)
				}
				for _, b := range []byte{0, 1, 2, 3, 5, 6, 7} {
					x := append([]byte(nil), ct...)
					x[0] = b
					c.decrypt(k, x, typ)
					c.decrypt(k, append([]byte{b}, ct[1:33]...), typ) // compressed forms
				}
			})
			for _, b := range c.cuts(ct, c.N(6, 1)) {
				c.Trace(func() { c.decrypt(k, b, typ) })
			}
			c.Trace(func() {
				c.decrypt(k, nil, typ)
				for _, t := range []int{0, 3, -1, 257, 1 << 16} {
					c.decrypt(k, ct, t)
				}
				// other C1: -C1, another point, infinity, off the curve, congruent coordinates, C1 of another cipher text
				y := new(big.Int).SetBytes(ct[33:65])
				x := new(big.Int).SetBytes(ct[1:33])
				alt := func(x, y *big.Int) {
					c.decrypt(k, append(append(append([]byte{4}, pad32(x)...), pad32(y)...), ct[65:]...), typ)
				}
				alt(x, bigSub(stdP, y))
				alt(stdCurve.Gx, stdCurve.Gy)
				alt(new(big.Int), new(big.Int))
				alt(y, x)
				alt(x, x)
				alt(stdP, stdP)
				alt(new(big.Int), y)
				other := enc(k, c.Content(n), typ)
				if len(other) == len(ct) {
					c.decrypt(k, append(append([]byte(nil), other[:65]...), ct[65:]...), typ)
					c.decrypt(k, append(append([]byte(nil), ct[:65]...), other[65:]...), typ)
				}
				// permuted parts
				for i := 0; i < 6; i++ {
					z := append([]byte(nil), ct...)
					a, b := c.Rng.Intn(len(z)), c.Rng.Intn(len(z))
					z[a], z[b] = z[b], z[a]
					c.decrypt(k, z, typ)
				}
			})
		}
	}
	// long cipher texts: a change anywhere counts
	for _, n := range bigSizes {
		typ := 1 + c.Rng.Intn(2)
		ct := enc(k, c.Content(n), typ)
		if ct == nil {
			continue
		}
		c.Trace(func() {
			c.decrypt(k, ct, typ)
			c.decrypt(k, flip(ct, 8*len(ct)-1-c.Rng.Intn(8)), typ)
			if n < 40000 {
				c.decrypt(k, flip(ct, 8*65+c.Rng.Intn(8*(len(ct)-65))), typ)
				c.decrypt(k, ct[:len(ct)-1], typ)
				c.decrypt(k, ct[:97+c.Rng.Intn(n)], typ)
				c.decrypt(k, append(cp(ct), 0), typ)
			}
		})
	}
	// all lengths of garbage with a valid C1
	for n := 0; n <= 140; n += 1 + c.Rng.Intn(c.N(4, 1)) {
		c.Trace(func() {
			c.decrypt(k, c.Content(n), 1+n%2)
			b := append(append([]byte{4}, pad32(stdCurve.Gx)...), pad32(stdCurve.Gy)...)
			c.decrypt(k, append(b, c.Content(n)...), 1+n%2)
		})
	}
	// crafted authentic cipher texts: C1 or the shared point with short coordinates, any M, also a zero key stream
	for i := 0; i < c.N(4, 60); i++ {
		c.Trace(func() {
			k := c.randKey()
			for _, v := range []*big.Int{
				c.findScalar(stdCurve.Gx, stdCurve.Gy, shortX(1)), c.findScalar(k.x, k.y, shortX(1)), c.findScalar(k.x, k.y, shortY(1)),
				c.shortScalar(true, 2+i%3), c.shortScalar(false, 2+i%3), c.anyShort(k.x, k.y, k.d), c.anyShort(k.x, k.y, k.d),
				c.oddScalar(false), c.oddVia(k.d), c.oddVia(k.d), one, nMinus(1), new(big.Int).ModInverse(k.d, stdN)} {
				for typ := 1; typ <= 2; typ++ {
					m := c.someMsg()
					c.decrypt(k, ownEncrypt(k, v, m, typ), typ)
				}
			}
			for n := 0; n <= 5; n++ {
				c.decrypt(k, ownEncrypt(k, c.zeroVia(k.d), c.Content(n), 1+n%2), 1+n%2)
			}
			v := c.findScalar(k.x, k.y, func(x, y *big.Int) bool { return zeroStream(x, y, 1) })
			c.decrypt(k, ownEncrypt(k, v, []byte{9}, 1), 1)
			c.decrypt(k, ownEncrypt(k, v, nil, 2), 2)
		})
	}
	// small curves: any cipher text with C1 on the curve or not
	for cv := 1; cv <= len(toys); cv++ {
		c.Trace(func() {
			k := c.toyKey(cv)
			p := toys[cv-1].p
			for i := 0; i < c.N(30, 400); i++ {
				m := c.Content(c.Rng.Intn(40))
				typ := 1 + i%2
				ct := ownEncrypt(k, big.NewInt(1+c.Rng.Int63n(toys[cv-1].n-1)), m, typ)
				c.decrypt(k, ct, typ)
				x := append(append([]byte{4}, pad32(big.NewInt(c.Rng.Int63n(p+2)))...), pad32(big.NewInt(c.Rng.Int63n(p+2)))...)
				c.decrypt(k, append(x, ct[65:]...), typ)
			}
		})
	}
}

// ownEncrypt builds a cipher text for a chosen scalar, independently of sm2.Encrypt.
func ownEncrypt(k *Key, v *big.Int, m []byte, typ int) []byte {
	c := curve(k.cv)
	x1, y1 := ecMul(c, v, c.Gx, c.Gy)
	x2, y2 := ecMul(c, v, k.x, k.y)
	c2 := append([]byte(nil), m...)
	for i := range c2 {
		ct := i/32 + 1
		if i%32 == 0 || i == 0 {
			h := sm3sum(append(append(pad32(x2), pad32(y2)...), byte(ct>>24), byte(ct>>16), byte(ct>>8), byte(ct)))
			for j := i; j < len(c2) && j < i+32; j++ {
				c2[j] ^= h[j-i]
			}
		}
	}
	c3 := sm3sum(append(append(pad32(x2), m...), pad32(y2)...))
	out := append(append([]byte{4}, pad32(x1)...), pad32(y1)...)
	if typ == 1 {
		return append(append(out, c2...), c3...)
	}
	return append(append(out, c3...), c2...)
}

// ---- C15: cipher text encoding

func driveC15(c *Ctx) {
	coord := func() []byte {
		b := c.Bytes(32)
		switch c.Rng.Intn(8) {
		case 0:
			b = make([]byte, 32)
		case 1:
			for i := 0; i < 1+c.Rng.Intn(31); i++ {
				b[i] = 0
			}
		case 2:
			b[0] |= 0x80
		case 3:
			b[0] = 0
			b[1] |= 0x80
		case 4:
			for i := range b {
				b[i] = 0xff
			}
		case 5:
			b[0] &= 0x7f
		}
		return b
	}
	raw := func(n int) []byte {
		return append(append(append([]byte{4}, coord()...), coord()...), c.Content(32+n)...)
	}
	for t := 0; t < c.N(300, 5000); t++ {
		c.Trace(func() {
			n := c.Rng.Intn(40)
			switch t % 10 {
			case 0:
				n = 0
			case 1:
				n = 28 + c.Rng.Intn(40) // the SEQUENCE length passes 127 and 255
			case 2:
				n = 100 + c.Rng.Intn(80)
			}
			in := raw(n)
			for typ := 1; typ <= 2; typ++ {
				der := c.marshalCipher(in, typ)
				if der != nil {
					c.unmarshalCipher(der, typ)
					c.unmarshalCipher(der, 3-typ)
				}
			}
		})
	}
	// lengths
	for n := 0; n <= 200; n += 1 + c.Rng.Intn(c.N(4, 1)) {
		c.Trace(func() { c.marshalCipher(c.Content(n), 1+n%2) })
	}
	for _, n := range []int{95, 96, 97, 98} {
		c.Trace(func() {
			c.marshalCipher(c.Content(n), 1)
			c.marshalCipher(c.Content(n), 2)
			c.marshalCipher(nil, 1+n%2)
		})
	}
	big1 := []int{65535 - 110, 65536, 70000}
	for _, n := range big1 {
		c.Trace(func() {
			if der := c.marshalCipher(raw(n), 1+n%2); der != nil {
				c.unmarshalCipher(der, 1+n%2)
			}
		})
	}
	c.Trace(func() {
		in := raw(5)
		for _, t := range []int{0, 3, -1, 257, 258, 1 << 16} {
			c.marshalCipher(in, t)
			c.unmarshalCipher(in, t)
			c.unmarshalCipher(cons(0x30, derInt(one), derInt(one), prim(4, make([]byte, 32)), prim(4, make([]byte, 32))).enc(), t)
		}
	})
	// wrong encodings
	for typ := 1; typ <= 2; typ++ {
		for v := 0; v < c.N(2, 8); v++ {
			in := raw(c.Rng.Intn(50))
			x, y := new(big.Int).SetBytes(in[1:33]), new(big.Int).SetBytes(in[33:65])
			mk := func(x, y *big.Int, a, b []byte) []byte {
				if typ == 1 {
					a, b = b, a
				}
				return cons(0x30, derInt(x), derInt(y), prim(4, a), prim(4, b)).enc()
			}
			der := mk(x, y, in[65:97], in[97:])
			for _, b := range append(c.cuts(der, c.N(4, 1)), c.derVariants(der, 0)...) {
				c.Trace(func() { c.unmarshalCipher(b, typ) })
			}
			for bit := 0; bit < 8*len(der); bit += 1 + c.Rng.Intn(c.N(11, 1)) {
				c.Trace(func() { c.unmarshalCipher(flip(der, bit), typ) })
			}
			c.Trace(func() {
				lim := new(big.Int).Lsh(one, 256)
				for _, z := range []*big.Int{lim, bigSub(lim, one), new(big.Int), big.NewInt(-1), new(big.Int).Neg(x), bigAdd(x, lim),
					new(big.Int).Lsh(one, 264), new(big.Int).Lsh(one, 2000), big.NewInt(-256)} {
					c.unmarshalCipher(mk(z, y, in[65:97], in[97:]), typ)
					c.unmarshalCipher(mk(x, z, in[65:97], in[97:]), typ)
				}
				for _, n := range []int{0, 1, 31, 33, 64, 127, 128} {
					c.unmarshalCipher(mk(x, y, c.Content(n), in[97:]), typ)
					c.unmarshalCipher(mk(x, y, in[65:97], c.Content(n)), typ)
				}
			})
		}
	}
	for t := 0; t < c.N(100, 3000); t++ {
		c.Trace(func() { c.unmarshalCipher(c.Content(c.Rng.Intn(140)), 1+t%2) })
	}
	c.Trace(func() { c.unmarshalCipher(nil, 1); c.unmarshalCipher(nil, 2) })
}

// ---- C16: signature encoding

func driveC16(c *Ctx) {
	num := func() *big.Int {
		bits := uint(c.Rng.Intn(270))
		switch c.Rng.Intn(8) {
		case 0:
			bits = uint(8 * c.Rng.Intn(34))
		case 1:
			bits = uint(8*c.Rng.Intn(34)) + 7
		case 2:
			bits = uint(c.Rng.Intn(2200))
		}
		x := new(big.Int).Rand(c.Rng, new(big.Int).Lsh(one, bits))
		switch c.Rng.Intn(6) {
		case 0:
			x.Lsh(one, bits)
		case 1:
			x.Sub(new(big.Int).Lsh(one, bits), one)
		case 2:
			x.Neg(x)
		case 3:
			x.Neg(new(big.Int).Lsh(one, bits))
		}
		return x
	}
	for t := 0; t < c.N(600, 10000); t++ {
		c.Trace(func() {
			if der := c.marshalSign(num(), num()); der != nil {
				c.unmarshalSign(der)
			}
		})
	}
	// integers whose encodings need two and three length octets
	for _, n := range []int{511, 512, 1000, 4096, 32760, 32766, 32767, 32768, 65530, 65534, 65535, 65536, 70000} {
		c.Trace(func() {
			x := new(big.Int).SetBytes(append([]byte{byte(1 + c.Rng.Intn(255))}, c.Content(n-1)...))
			if c.Rng.Intn(2) == 0 {
				x.Neg(x)
			}
			a, b := x, num()
			if c.Rng.Intn(2) == 0 {
				a, b = b, a
			}
			if der := c.marshalSign(a, b); der != nil {
				c.unmarshalSign(der)
				c.unmarshalSign(der[:len(der)-1])
				c.unmarshalSign(append(cp(der), 0))
			}
		})
	}
	for _, v := range []int64{0, 1, -1, 127, 128, 255, 256, -127, -128, -129, -255, -256, -257, 32767, 32768, -32768, -32769} {
		c.Trace(func() {
			for _, w := range []int64{0, 128, -129} {
				if der := c.marshalSign(big.NewInt(v), big.NewInt(w)); der != nil {
					c.unmarshalSign(der)
				}
			}
		})
	}
	for v := 0; v < c.N(4, 30); v++ {
		r, s := c.randScalar(nMinus(1)), c.randScalar(nMinus(1))
		if v == 1 {
			r, s = big.NewInt(5), big.NewInt(200)
		}
		if v == 2 {
			s = new(big.Int).Lsh(s, 800)
		}
		der := cons(0x30, derInt(r), derInt(s)).enc()
		for _, b := range append(c.cuts(der, 2), c.derVariants(der, 0)...) {
			c.Trace(func() { c.unmarshalSign(b) })
		}
		for bit := 0; bit < 8*len(der); bit += 1 + c.Rng.Intn(c.N(5, 1)) {
			c.Trace(func() { c.unmarshalSign(flip(der, bit)) })
		}
		// two wrong elements at once
		for i := 0; i < c.N(60, 500); i++ {
			vs := c.derVariants(der, 1)
			if len(vs) == 1 {
				if ws := c.derVariants(vs[0], 1); len(ws) == 1 {
					c.Trace(func() { c.unmarshalSign(ws[0]) })
				}
			}
		}
	}
	for t := 0; t < c.N(300, 5000); t++ {
		c.Trace(func() {
			b := c.Content(c.Rng.Intn(20))
			if t%2 == 0 && len(b) > 4 { // make it look plausible
				b[0], b[1] = 0x30, byte(len(b)-2)
				b[2], b[3] = 2, byte(c.Rng.Intn(4))
			}
			c.unmarshalSign(b)
		})
	}
	c.Trace(func() { c.unmarshalSign(nil) })
}
