package main

import (
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
)

// ---- C10: verification

func pubAt(cv int, x, y *big.Int) *sm2.PublicKey {
	return &sm2.PublicKey{X: x, Y: y, Curve: curve(cv)}
}

func bigAdd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bigSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func modN(a *big.Int) *big.Int      { return new(big.Int).Mod(a, stdN) }
func flipInt(x *big.Int, bit int) *big.Int {
	return new(big.Int).SetBit(x, bit, x.Bit(bit)^1)
}

// ownSign makes a signature with our own arithmetic, from a digest value e.
func ownSign(k *Key, e, nonce *big.Int) (r, s *big.Int) {
	n := curve(k.cv).N
	x, _ := mulBase(k.cv, nonce)
	r = new(big.Int).Mod(bigAdd(e, x), n)
	inv := new(big.Int).ModInverse(bigAdd(k.d, one), n)
	s = new(big.Int).Mul(r, k.d)
	s.Sub(nonce, s).Mul(s, inv).Mod(s, n)
	return
}

func driveC10(c *Ctx) {
	// valid signatures made by the library, and every single-bit change of one of them
	sgn := func(k *Key, id, m []byte) (r, s *big.Int) {
		With(c.NewStream(), func() { DoErr(func() (err error) { r, s, err = sm2.SignToRS(k.Priv, id, m); return }) })
		return
	}
	ders := func(r, s *big.Int) []byte { return cons(0x30, derInt(r), derInt(s)).enc() }
	keys := c.specialKeys()
	for i := 0; i < c.N(8, 120); i++ {
		keys = append(keys, c.randKey())
	}
	for _, k := range keys {
		c.Trace(func() {
			for i := 0; i < c.N(2, 8); i++ {
				id, m := c.someId(), c.someMsg()
				r, s := sgn(k, id, m)
				if r == nil {
					continue
				}
				c.verifyRS(0, k.Pub, id, m, r, s)
				c.verify(0, k.Pub, id, m, ders(r, s))
				// the same signature for another id, message or key
				c.verifyRS(0, k.Pub, c.someId(), m, r, s)
				c.verifyRS(0, k.Pub, id, append(cp(m), 0), r, s)
				c.verifyRS(0, c.randKey().Pub, id, m, r, s)
				c.verify(0, k.Pub, id, m, ders(s, r))
				if id == nil {
					c.verifyRS(0, k.Pub, []byte{}, m, r, s)
					c.verifyRS(0, k.Pub, []byte("1234567812345678"), m, r, s)
				}
				// -P, swapped coordinates
				c.verifyRS(0, pubAt(0, k.x, bigSub(stdP, k.y)), id, m, r, s)
				c.verifyRS(0, pubAt(0, k.y, k.x), id, m, r, s)
				c.verifyRS(0, k.Pub, id, m, r, bigSub(stdN, s))
				c.verifyRS(0, k.Pub, id, m, bigSub(stdN, r), s)
			}
		})
	}
	// digests with leading or trailing zero octets, signed by the library and by own arithmetic
	c.Trace(func() {
		k := edgeKey()
		for i, v := range edgeMessages {
			m := edgeMessage(v)
			if i%2 == 0 {
				if r, s := sgn(k, nil, m); r != nil {
					c.verify(0, k.Pub, []byte("1234567812345678"), m, ders(r, s))
				}
				continue
			}
			r, s := ownSign(k, digestE(k, nil, m), c.randScalar(nMinus(1)))
			c.verifyRS(0, k.Pub, nil, m, r, s)
		}
	})
	k := c.randKey()
	id, m := []byte("someone@example.com"), []byte("a message of some length")
	r, s := sgn(k, id, m)
	if r != nil {
		step := func(n int) int { return 1 + c.Rng.Intn(n) }
		st := c.N(1, 1)
		for bit := 0; bit < 257; bit += step(st) {
			c.Trace(func() {
				c.verifyRS(0, k.Pub, id, m, flipInt(r, bit), s)
				c.verifyRS(0, k.Pub, id, m, r, flipInt(s, bit))
				c.verifyRS(0, pubAt(0, flipInt(k.x, bit), k.y), id, m, r, s)
				c.verifyRS(0, pubAt(0, k.x, flipInt(k.y, bit)), id, m, r, s)
			})
		}
		for bit := 0; bit < 8*len(id); bit += step(st) {
			c.Trace(func() { c.verifyRS(0, k.Pub, flip(id, bit), m, r, s) })
		}
		for bit := 0; bit < 8*len(m); bit += step(st) {
			c.Trace(func() { c.verifyRS(0, k.Pub, id, flip(m, bit), r, s) })
		}
		der := ders(r, s)
		for bit := 0; bit < 8*len(der); bit += step(st) {
			c.Trace(func() { c.verify(0, k.Pub, id, m, flip(der, bit)) })
		}
		for _, b := range append(c.cuts(der, 4), c.derVariants(der, 0)...) {
			c.Trace(func() { c.verify(0, k.Pub, id, m, b) })
		}
		c.Trace(func() {
			c.verify(0, k.Pub, id, m, nil)
			// congruent and out-of-range pairs
			z := new(big.Int)
			for _, p := range [][2]*big.Int{{bigAdd(r, stdN), s}, {r, bigAdd(s, stdN)}, {bigSub(r, stdN), s}, {r, bigSub(s, stdN)},
				{z, s}, {r, z}, {z, z}, {stdN, s}, {r, stdN}, {one, one}, {nMinus(1), nMinus(1)}, {bigAdd(r, new(big.Int).Lsh(stdN, 256)), s},
				{new(big.Int).Neg(r), s}, {r, new(big.Int).Neg(s)}, {new(big.Int).Lsh(one, 300), s}, {r, new(big.Int).Lsh(one, 300)}} {
				c.verifyRS(0, k.Pub, id, m, p[0], p[1])
				c.verify(0, k.Pub, id, m, ders(p[0], p[1]))
			}
			// unusable keys
			for _, p := range [][2]*big.Int{{z, z}, {bigAdd(k.x, stdP), k.y}, {k.x, bigAdd(k.y, stdP)}, {new(big.Int).Neg(k.x), k.y},
				{k.x, new(big.Int).Neg(k.y)}, {k.x, new(big.Int).Neg(bigSub(stdP, k.y))}, {bigSub(k.x, stdP), k.y}, {one, one}, {stdP, stdP},
				{bigAdd(k.x, new(big.Int).Lsh(stdP, 64)), k.y}, {z, k.y}, {k.x, z}} {
				c.verifyRS(0, pubAt(0, p[0], p[1]), id, m, r, s)
			}
			// ids that are too long, and ids whose bit length has the same low 16 bits
			for _, n := range []int{8191, 8192, 8193, 8192 + len(id), 16384} {
				long := append(cp(id), make([]byte, n-len(id))...)
				c.verifyRS(0, k.Pub, long, m, r, s)
			}
		})
	}
	// long messages and ids: a change anywhere counts
	for _, n := range bigSizes {
		c.Trace(func() {
			k := c.randKey()
			id, m := []byte(nil), c.Content(n)
			if c.Rng.Intn(2) == 0 {
				id = c.Content(c.Rng.Intn(8192))
			}
			r, s := sgn(k, id, m)
			if r == nil {
				return
			}
			c.verifyRS(0, k.Pub, id, m, r, s)
			c.verifyRS(0, k.Pub, id, flip(m, 8*n-1-c.Rng.Intn(8)), r, s)
			if n < 20000 {
				c.verifyRS(0, k.Pub, id, flip(m, c.Rng.Intn(8*n)), r, s)
				c.verifyRS(0, k.Pub, id, m[:n-1], r, s)
				c.verifyRS(0, k.Pub, id, append(cp(m), 0), r, s)
			}
			if len(id) > 0 {
				c.verifyRS(0, k.Pub, flip(id, c.Rng.Intn(8*len(id))), m, r, s)
				c.verifyRS(0, k.Pub, flip(id, 8*len(id)-1-c.Rng.Intn(8)), m, r, s)
				c.verifyRS(0, k.Pub, id[:len(id)-1], m, r, s)
			}
		})
	}
	// crafted with knowledge of d: t = 0, sum at infinity, s or r at the ends, short r or s
	for i := 0; i < c.N(10, 100); i++ {
		c.Trace(func() {
			k := c.randKey()
			msg := c.someMsg()
			// recover e from a signature of the library: r - x([k]G)
			r, s := sgn(k, nil, msg)
			if r == nil {
				return
			}
			nonce := modN(bigAdd(s, new(big.Int).Mul(bigAdd(r, s), k.d)))
			x, _ := mulBase(0, nonce)
			e := modN(bigSub(r, x))
			c.verifyRS(0, k.Pub, nil, msg, r, bigSub(stdN, r)) // t = 0
			if e.Sign() > 0 {
				// s = -r d / (1 + d): [s]G + [t]P is the point at infinity; with r = e an implementation
				// that takes its x for 0 would accept
				inv := new(big.Int).ModInverse(bigAdd(k.d, one), stdN)
				for _, rr := range []*big.Int{e, r} {
					ss := modN(new(big.Int).Neg(new(big.Int).Mul(new(big.Int).Mul(rr, k.d), inv)))
					c.verifyRS(0, k.Pub, nil, msg, rr, ss)
				}
				c.verifyRS(0, k.Pub, nil, msg, e, bigSub(stdN, e)) // t = 0 and r = e
			}
			for _, nn := range []*big.Int{one, nMinus(1), big.NewInt(2), c.randScalar(nMinus(1)), c.oddScalar(true)} {
				r, s := ownSign(k, e, nn)
				c.verifyRS(0, k.Pub, nil, msg, r, s)
				c.verify(0, k.Pub, nil, msg, ders(r, s))
			}
			// doubling inside the sum: [s]G = [t]P, i.e. s = t d = (r+s) d
			if i := new(big.Int).ModInverse(bigSub(k.d, one), stdN); i != nil {
				ss := modN(new(big.Int).Mul(new(big.Int).Mul(r, k.d), new(big.Int).Neg(i)))
				c.verifyRS(0, k.Pub, nil, msg, r, ss)
			}
		})
	}
	// small curves: every pair (r, s), in and out of range
	for cv := 1; cv <= 4; cv++ {
		n := toys[cv-1].n
		for t := 0; t < c.N(4, 40); t++ {
			c.Trace(func() {
				k := c.toyKey(cv)
				m := c.Content(c.Rng.Intn(5))
				for r := int64(0); r <= n+1; r++ {
					for s := int64(0); s <= n+1; s++ {
						c.verifyRS(cv, k.Pub, nil, m, big.NewInt(r), big.NewInt(s))
					}
				}
			})
		}
	}
	for cv := 1; cv <= len(toys); cv++ {
		c.Trace(func() {
			n := toys[cv-1].n
			for i := 0; i < c.N(60, 1000); i++ {
				k := c.toyKey(cv)
				c.verifyRS(cv, k.Pub, c.someId(), c.Content(c.Rng.Intn(5)), big.NewInt(c.Rng.Int63n(n)), big.NewInt(c.Rng.Int63n(n)))
			}
		})
	}
}

// ---- C11: nonces

func driveC11(c *Ctx) {
	key := c.randKey()
	call := func(kind int, k *Key, m []byte, s *Stream) {
		switch kind % 4 {
		case 0:
			c.sign(k, nil, m, s, true)
		case 1:
			c.sign(k, nil, m, s, false)
		case 2:
			c.encrypt(k, m, 1+c.Rng.Intn(2), s)
		case 3:
			c.genKey(s)
		}
	}
	// histories on one source, mixing all operations, same message and key again and again
	for t := 0; t < c.N(6, 60); t++ {
		c.Trace(func() {
			s := c.NewStream()
			s.chunk = []int{0, 0, 1, 7, 31, 33}[t%6]
			s.stutter = t%2 == 1
			m := c.Content(20)
			for i := 0; i < c.N(24, 60); i++ {
				k := key
				if c.Rng.Intn(3) == 0 {
					k = c.randKey()
				}
				// the source is one long stream here: every call reads a new part of it
				s.sid = c.nextSid()
				call(c.Rng.Intn(4), k, m, s)
			}
		})
	}
	// the same with the system's own source
	for t := 0; t < c.N(3, 30); t++ {
		c.Trace(func() {
			withGenuine(func() {
				for i := 0; i < c.N(24, 60); i++ {
					call(c.Rng.Intn(4), key, []byte("m"), c.NewStream())
				}
			})
		})
	}
	// equal streams in between: a scalar must depend on the present stream only
	for t := 0; t < c.N(4, 40); t++ {
		c.Trace(func() {
			m := c.Content(9)
			var streams [][]byte
			var sids []int
			for i := 0; i < 4; i++ {
				streams = append(streams, c.Bytes(400))
				sids = append(sids, c.nextSid())
			}
			for i := 0; i < 16; i++ {
				j := c.Rng.Intn(4)
				s := c.ScriptThen(append([]byte(nil), streams[j]...))
				s.sid = sids[j]
				call(c.Rng.Intn(4), key, m, s)
			}
		})
	}
	// streams that differ in a single bit: all scalars differ
	for kind := 0; kind < 4; kind++ {
		c.Trace(func() {
			base := c.Bytes(32)
			base[0] &= 0x7f // far from n, so that no candidate is rejected
			rest := c.Bytes(200)
			m := c.Content(11)
			for bit := -1; bit < 256; bit++ {
				b := base
				if bit >= 0 {
					b = flip(base, bit)
				}
				call(kind, key, m, c.ScriptThen(append(append([]byte(nil), b...), rest...)))
				if kind == 0 && bit%2 == 0 && !c.Thorough() {
					bit++
				}
			}
		})
	}
	// bit statistics of recovered scalars
	for t := 0; t < c.N(2, 4); t++ {
		c.Trace(func() {
			s := c.NewStream()
			for i := 0; i < c.N(200, 2000); i++ {
				s.sid = c.nextSid()
				if t%2 == 0 {
					c.sign(key, nil, []byte{byte(i)}, s, false)
				} else {
					c.genKey(s)
				}
			}
			c.Add(Ev{"op": "BitStats", "out": "ok"})
		})
	}
	// small curves: the distribution itself
	for _, cv := range []int{2, 4} {
		n := int(toys[cv-1].n)
		N := 220 * (n - 1)
		c.Trace(func() {
			s := c.NewStream()
			for i := 0; i < N; i++ {
				c.sign(keyOf(cv, big.NewInt(1+c.Rng.Int63n(int64(n-2)))), nil, c.Bytes(4), s, false)
			}
			c.Add(Ev{"op": "ToyStats", "cv": cv, "out": "ok"})
		})
		c.Trace(func() {
			s := c.NewStream()
			type pt = [2]B
			var pts []pt
			for i := 0; i < N; i++ {
				k := keyOf(cv, big.NewInt(1+c.Rng.Int63n(int64(n-2))))
				With(s, func() {
					DoErr(func() error {
						ct, err := sm2.Encrypt(k.Pub, []byte("0123456789abcdef"), sm2.C1C2C3)
						if err == nil && len(ct) > 65 {
							pts = append(pts, pt{Nat(new(big.Int).SetBytes(ct[1:33])), Nat(new(big.Int).SetBytes(ct[33:65]))})
						}
						return err
					})
				})
			}
			c.Add(Ev{"op": "ToyPoints", "cv": cv, "c1s": pts, "out": "ok"})
		})
	}
}

// ---- C12: failing source

func driveC12(c *Ctx) {
	key := c.randKey()
	tk := c.toyKey(5)
	call := func(kind int, k *Key, s *Stream) {
		m := c.Content(c.Rng.Intn(20))
		switch kind {
		case 0:
			c.sign(k, nil, m, s, true)
		case 1:
			c.sign(k, c.someId(), m, s, false)
		case 2:
			c.encrypt(k, m, 1+c.Rng.Intn(2), s)
		case 3:
			c.genKey(s)
		}
	}
	// every position of the failure in the first two candidates, in every call
	for kind := 0; kind < 4; kind++ {
		for at := 0; at <= 33; at++ {
			c.Trace(func() {
				for f := range failures { // a partial read, then each kind of failure
					if at > 0 && at < 32 && at%3 == f%3 {
						s := c.NewStream()
						s.failAt, s.err, s.eager = at, failures[f], c.Rng.Intn(2) == 0
						call(kind, key, s)
					}
				}
				for _, chunk := range []int{0, 0, 1, 5, 32} {
					s := c.failing(c.NewStream())
					s.failAt, s.chunk = at, chunk
					call(kind, key, s)
				}
				call(kind, key, c.NewStream()) // afterwards all is well again
			})
		}
		// the first candidate is out of range, and the source fails while the next is drawn
		for at := 30; at <= 100; at += 1 + c.Rng.Intn(c.N(5, 1)) {
			c.Trace(func() {
				ff := make([]byte, 32)
				for i := range ff {
					ff[i] = 0xff
				}
				pre := [][]byte{ff, pad32(stdN), make([]byte, 32), pad32(nMinus(1))}[c.Rng.Intn(4)]
				if kind == 3 {
					pre = append([]byte(nil), pre...)
					pre[1] ^= 0x42
				}
				s := c.failing(c.ScriptThen(append(append([]byte(nil), pre...), pre...)))
				s.failAt = at
				call(kind, key, s)
				call(kind, key, s) // still failing
				call(c.Rng.Intn(4), key, c.NewStream())
			})
		}
	}
	// histories with failures at random places and finite sources
	for t := 0; t < c.N(30, 500); t++ {
		c.Trace(func() {
			s := c.failing(c.NewStream())
			s.failAt = c.Rng.Intn(400)
			s.chunk = c.Rng.Intn(40)
			if t%3 == 0 {
				s = c.failing(c.Script(c.Bytes(c.Rng.Intn(300))))
			}
			for i := 0; i < 10; i++ {
				s.sid = c.nextSid()
				call(c.Rng.Intn(4), key, s)
			}
			call(c.Rng.Intn(4), key, c.NewStream())
		})
	}
	// on a small curve signing rejects candidates for further reasons; the source ends meanwhile
	for t := 0; t < c.N(30, 500); t++ {
		c.Trace(func() {
			cv := []int{2, 4, 5}[t%3]
			k := c.toyKey(cv)
			for i := 0; i < 20; i++ {
				call(c.Rng.Intn(3), k, c.failing(c.Script(c.Bytes(c.Rng.Intn(5)))))
			}
			call(c.Rng.Intn(3), tk, c.NewStream())
		})
	}
	// encryption rejects a candidate whose key stream is zero over the length of the message; the source ends meanwhile
	for at := 32; at <= 64; at++ {
		c.Trace(func() {
			z := c.ScriptThen(append(pad32(c.zeroVia(key.d)), pad32(c.zeroVia(key.d))...))
			s := c.failing(z)
			s.failAt = at
			c.encrypt(key, c.Content(1+at%2), 1+at%2, s)
			c.encrypt(key, c.Content(1+at%2), 1+at%2, s)
			call(c.Rng.Intn(4), key, c.NewStream())
		})
	}
	for t := 0; t < c.N(4, 40); t++ {
		c.Trace(func() {
			for i := 0; i < c.N(120, 400); i++ {
				c.encrypt(tk, c.Content(1), 1+i%2, c.failing(c.Script(c.Bytes(1+c.Rng.Intn(2)))))
			}
			call(c.Rng.Intn(3), tk, c.NewStream())
		})
	}
}
