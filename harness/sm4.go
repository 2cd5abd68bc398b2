package main

import (
	"crypto/cipher"
	"unsafe"

	"github.com/ZZMarquis/gm/sm4"
)

func init() {
	drivers["C04"] = driveC04
	drivers["C05"] = driveC05
	drivers["C05L"] = driveC05L
	drivers["C06"] = driveC06
}

// overlap tells whether two slices' backing arrays share memory.
func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	at := func(s []byte) uintptr { return uintptr(unsafe.Pointer(unsafe.SliceData(s))) }
	return at(a) < at(b)+uintptr(cap(b)) && at(b) < at(a)+uintptr(cap(a))
}

type cobj struct {
	c *Ctx
	o int
	b cipher.Block
}

func (c *Ctx) newCipher(o int, key []byte, scribble bool) *cobj {
	x := &cobj{c: c, o: o}
	k, same := c.in("key", key, c.Rng.Intn(40))
	if key == nil {
		k = nil
	}
	bs := 0
	out := DoErr(func() error {
		b, err := sm4.NewCipher(k)
		x.b = b
		if err == nil {
			bs = b.BlockSize()
		}
		return err
	})
	c.Add(Ev{"op": "NewCipher", "o": o, "key": B(key), "out": out, "bs": bs, "same": same(), "nilout": x.b == nil})
	if scribble {
		for i := range k {
			k[i] ^= byte(0x11 * (i + 1))
		}
	}
	return x
}

// crypt runs one Encrypt/Decrypt with a dst of length 16+extra (extra<0: in place).
func (x *cobj) crypt(dec bool, src []byte, extra, srcExtra int) {
	if x.c.dead {
		return
	}
	c := x.c
	full := append(append([]byte(nil), src...), c.Bytes(srcExtra)...)
	in, same := c.in("block", full, c.Rng.Intn(20))
	var dst, before []byte
	inplace := extra < 0
	if inplace {
		dst = in
		before = append([]byte(nil), in...)
	} else {
		dst = c.Bytes(16 + extra)
		before = append([]byte(nil), dst...)
	}
	op := "BlockEncrypt"
	if dec {
		op = "BlockDecrypt"
	}
	out, _ := Do(func() {
		if dec {
			x.b.Decrypt(dst, in)
		} else {
			x.b.Encrypt(dst, in)
		}
	})
	s := inplace || same()
	c.Add(Ev{"op": op, "o": x.o, "src": B(full), "dst": B(before), "dst2": B(append([]byte(nil), dst...)), "out": out, "same": s})
}

func driveC04(c *Ctx) {
	// histories over several cipher objects, encrypting and decrypting in any order
	for i := 0; i < c.N(260, 3000); i++ {
		c.Trace(func() {
			n := 1 + c.Rng.Intn(3)
			var cs []*cobj
			for o := 1; o <= n; o++ {
				cs = append(cs, c.newCipher(o, c.Content(16), true))
			}
			var last []byte
			for k := 0; k < 3+c.Rng.Intn(12); k++ {
				x := cs[c.Rng.Intn(n)]
				b := c.Content(16)
				if last != nil && c.Rng.Intn(3) == 0 {
					b = last
				}
				extra, sx := 0, 0
				switch c.Rng.Intn(5) {
				case 0:
					extra = -1
				case 1:
					extra = c.Rng.Intn(40)
				case 2:
					sx = c.Rng.Intn(40)
				}
				x.crypt(c.Rng.Intn(2) == 0, b, extra, sx)
				if len(c.cur) > 0 {
					last = append([]byte(nil), c.cur[len(c.cur)-1]["dst2"].(B)[:16]...)
				}
			}
		})
	}
	// every byte value in every key position and in every block position (S-box coverage, single-bit inputs)
	for v := 0; v < 256; v++ {
		c.Trace(func() {
			key := c.Bytes(16)
			key[v%16] = byte(v)
			x := c.newCipher(1, key, false)
			blk := make([]byte, 16)
			for j := range blk {
				blk[j] = byte(v + 17*j)
			}
			x.crypt(false, blk, 0, 0)
			x.crypt(true, blk, 0, 0)
		})
	}
	for bit := 0; bit < 128; bit++ {
		c.Trace(func() {
			z := make([]byte, 16)
			z[bit/8] = 0x80 >> uint(bit%8)
			x := c.newCipher(1, z, false)
			x.crypt(false, make([]byte, 16), 0, 0)
			y := c.newCipher(2, make([]byte, 16), false)
			y.crypt(false, z, 0, 0)
			y.crypt(true, z, 0, 0)
		})
	}
	c.rareStates(c.N(1, 8))
	// encrypt then decrypt the same data, in place, repeatedly
	for i := 0; i < c.N(20, 100); i++ {
		c.Trace(func() {
			x := c.newCipher(1, c.Bytes(16), true)
			b := c.Bytes(16)
			for k := 0; k < 12; k++ {
				x.crypt(false, b, -1, 0)
				x.crypt(true, b, 0, 0)
			}
		})
	}
}

// mode runs one ECB/CBC helper.
func (c *Ctx) mode(op string, key, iv, m []byte) []byte {
	k, s1 := c.in("key", key, c.Rng.Intn(20))
	v, s2 := c.in("iv", iv, c.Rng.Intn(20))
	in, s3 := c.in("m", m, c.Rng.Intn(40))
	if key == nil {
		k = nil
	}
	if iv == nil {
		v = nil
	}
	if m == nil {
		in = nil
	}
	var r []byte
	out := DoErr(func() error {
		var err error
		switch op {
		case "ECBEncrypt":
			r, err = sm4.ECBEncrypt(k, in)
		case "ECBDecrypt":
			r, err = sm4.ECBDecrypt(k, in)
		case "CBCEncrypt":
			r, err = sm4.CBCEncrypt(k, v, in)
		case "CBCDecrypt":
			r, err = sm4.CBCDecrypt(k, v, in)
		}
		return err
	})
	same := s1() && s2() && s3()
	fresh := !overlap(r, k) && !overlap(r, v) && !overlap(r, in)
	c.Add(Ev{"op": op, "key": B(key), "iv": B(iv), "m": B(m), "r": B(append([]byte(nil), r...)), "out": out, "same": same, "fresh": fresh, "nilout": len(r) == 0})
	return r
}

var modeOps = []string{"ECBEncrypt", "ECBDecrypt", "CBCEncrypt", "CBCDecrypt"}

func xorB(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range r {
		r[i] = a[i] ^ b[i]
	}
	return r
}

// blocks returns n blocks, with repetitions to expose chaining mistakes.
func (c *Ctx) blocks(n int) []byte {
	if c.Rng.Intn(3) == 0 {
		b := c.Content(16)
		var r []byte
		for i := 0; i < n; i++ {
			r = append(r, b...)
		}
		return r
	}
	return c.Content(16 * n)
}

func driveC05(c *Ctx) {
	for n := 0; n <= c.N(20, 80); n++ {
		for _, op := range modeOps {
			c.Trace(func() { c.mode(op, c.Content(16), c.Content(16), c.blocks(n)) })
		}
	}
	for i := 0; i < c.N(250, 3000); i++ {
		c.Trace(func() {
			key, iv, m := c.Content(16), c.Content(16), c.blocks(c.Rng.Intn(7))
			if c.Rng.Intn(2) == 0 {
				r := c.mode("ECBEncrypt", key, iv, m)
				c.mode("ECBDecrypt", key, iv, append([]byte(nil), r...))
				c.mode("ECBDecrypt", key, iv, m)
			} else {
				r := c.mode("CBCEncrypt", key, iv, m)
				c.mode("CBCDecrypt", key, iv, append([]byte(nil), r...))
				c.mode("CBCDecrypt", key, iv, m)
			}
			// the same call again gives the same answer
			c.mode(modeOps[c.Rng.Intn(4)], key, iv, m)
		})
	}
	// rare words inside the rounds and the key schedule; chaining through blocks of zeros, of ones, and the iv
	for i := 0; i < c.N(40, 400); i++ {
		c.Trace(func() {
			key, b := c.rareKeyBlock(c.Rng.Intn(32), c.Rng.Intn(8))
			iv := c.Content(16)
			if i%2 == 0 {
				iv = make([]byte, 16)
			}
			first := xorB(b, iv)
			r := c.mode("CBCEncrypt", key, iv, append(append([]byte(nil), first...), c.blocks(2)...))
			c.mode("CBCDecrypt", key, iv, append([]byte(nil), r...))
			r = c.mode("ECBEncrypt", key, iv, append(append([]byte(nil), b...), b...))
			c.mode("ECBDecrypt", key, iv, append([]byte(nil), r...))
			// ciphertext blocks with rare words: b encrypts to them
			rk := roundKeys(key)
			out := [4]uint32{c.rareWord(), c.rareWord(), c.rareWord(), c.rareWord()}
			if i%4 == 0 {
				out = [4]uint32{}
			}
			z := blockThrough(rk, out, 32)
			r = c.mode("CBCEncrypt", key, iv, append(xorB(z, iv), append(xorB(z, words(out)), c.Bytes(16)...)...))
			c.mode("CBCDecrypt", key, iv, append([]byte(nil), r...))
			c.mode("CBCDecrypt", key, words(out), append(append(words(out), words(out)...), b...))
		})
	}
	for _, n := range []int{64, 128, 255, 256, 257} {
		for _, op := range modeOps {
			c.Trace(func() { c.mode(op, c.Bytes(16), c.Bytes(16), c.Bytes(16*n)) })
		}
	}
	if c.Thorough() {
		for _, n := range []int{1000, 4096, 4097} {
			for _, op := range modeOps {
				c.Trace(func() { c.mode(op, c.Bytes(16), c.Bytes(16), c.Bytes(16*n)) })
			}
		}
	}
}

// driveC05L: long inputs, around the sizes at which an implementation would split the work.
func driveC05L(c *Ctx) {
	sizes := []int{511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385}
	for _, n := range sizes {
		for _, op := range modeOps {
			c.Trace(func() { c.mode(op, c.Content(16), c.Content(16), c.blocks(n)) })
		}
	}
	for i := 0; i < c.N(40, 400); i++ {
		c.Trace(func() {
			n := 1 + c.Rng.Intn(1<<uint(6+c.Rng.Intn(7)))
			key, iv, m := c.Content(16), c.Content(16), c.blocks(n)
			mode := []string{"ECB", "CBC"}[i%2]
			r := c.mode(mode+"Encrypt", key, iv, m)
			c.mode(mode+"Decrypt", key, iv, append([]byte(nil), r...))
		})
	}
	for _, n := range []int{1<<16 + 1, 1 << 16}[:c.N(1, 2)] {
		for _, op := range modeOps {
			c.Trace(func() { c.mode(op, c.Bytes(16), c.Bytes(16), c.Bytes(16*n)) })
		}
	}
}

func driveC06(c *Ctx) {
	lens := []int{-1, 0, 1, 8, 15, 16, 17, 24, 31, 32, 33, 48, 64}
	mk := func(n int) []byte {
		if n < 0 {
			return nil
		}
		return c.Bytes(n)
	}
	for k := -1; k <= c.N(66, 300); k++ {
		c.Trace(func() { c.newCipher(1, mk(k), false) })
	}
	for _, op := range modeOps {
		for _, k := range lens {
			for _, m := range []int{-1, 0, 1, 15, 16, 17, 31, 32, 47, 48} {
				c.Trace(func() { c.mode(op, mk(k), c.Bytes(16), mk(m)) })
			}
		}
		for iv := -1; iv <= 40; iv++ {
			for _, m := range []int{0, 16, 32, 5} {
				c.Trace(func() { c.mode(op, c.Bytes(16), mk(iv), mk(m)) })
			}
		}
		for m := 0; m <= c.N(80, 400); m++ {
			c.Trace(func() { c.mode(op, c.Bytes(16), c.Bytes(16), mk(m)) })
		}
		for i := 0; i < c.N(60, 2000); i++ {
			c.Trace(func() {
				c.mode(op, mk(lens[c.Rng.Intn(len(lens))]), mk(lens[c.Rng.Intn(len(lens))]), mk(lens[c.Rng.Intn(len(lens))]))
			})
		}
		for _, big := range []int{255, 256, 257, 272, 65535, 65536, 65552} {
			c.Trace(func() { c.mode(op, mk(big), c.Bytes(16), mk(16)) })
			c.Trace(func() { c.mode(op, c.Bytes(16), mk(big), mk(16)) })
		}
		for _, big := range []int{255, 257, 1023, 4095, 4097, 16383, 32769, 65535, 65537, 65544, 131073, 1<<20 + 15} {
			c.Trace(func() { c.mode(op, c.Bytes(16), c.Bytes(16), mk(big)) })
		}
	}
}
