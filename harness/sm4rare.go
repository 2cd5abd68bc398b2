package main

import (
	"encoding/binary"
	"math/bits"
)

// SM4 run from its middle: keys and blocks chosen so that a particular word inside the computation (the
// argument of the round function, a round key, a state word) has a value that random inputs practically never
// give it. This only chooses inputs; what the library must answer is the specification's matter.

var rareBox = func() (t [256]byte) {
	mul := func(a, b int) (r int) {
		for ; b > 0; b >>= 1 {
			if b&1 == 1 {
				r ^= a
			}
			if a <<= 1; a >= 256 {
				a ^= 0x1F5
			}
		}
		return
	}
	affine := func(x byte) (r byte) {
		for i := 0; i < 8; i++ {
			row := bits.RotateLeft8(0xD3, -i)
			r |= byte(bits.OnesCount8(x&row)&1) << uint(7-i)
		}
		return r ^ 0xD3
	}
	for x := range t {
		a := int(affine(byte(x)))
		inv := 1
		for i := 0; i < 254; i++ {
			inv = mul(inv, a)
		}
		t[x] = affine(byte(inv))
	}
	return
}()

func rareTau(w uint32) uint32 {
	return uint32(rareBox[w>>24])<<24 | uint32(rareBox[w>>16&255])<<16 | uint32(rareBox[w>>8&255])<<8 | uint32(rareBox[w&255])
}

func rareT(w uint32, key bool) uint32 {
	b := rareTau(w)
	if key {
		return b ^ bits.RotateLeft32(b, 13) ^ bits.RotateLeft32(b, 23)
	}
	return b ^ bits.RotateLeft32(b, 2) ^ bits.RotateLeft32(b, 10) ^ bits.RotateLeft32(b, 18) ^ bits.RotateLeft32(b, 24)
}

func rareCK(i int) (w uint32) {
	for j := 0; j < 4; j++ {
		w = w<<8 | uint32(byte((4*i+j)*7))
	}
	return
}

var rareFK = [4]uint32{0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC}

// back turns the four words after round i into the four words before round 0.
func back(x [4]uint32, i int, rk func(int) uint32, key bool) [4]uint32 {
	for ; i > 0; i-- {
		x = [4]uint32{x[3] ^ rareT(x[0]^x[1]^x[2]^rk(i-1), key), x[0], x[1], x[2]}
	}
	return x
}

func words(x [4]uint32) []byte {
	b := make([]byte, 16)
	for i, w := range x {
		binary.BigEndian.PutUint32(b[4*i:], w)
	}
	return b
}

// keyThrough is the key whose schedule has the words x just before step i.
func keyThrough(x [4]uint32, i int) []byte {
	x = back(x, i, rareCK, true)
	for j := range x {
		x[j] ^= rareFK[j]
	}
	return words(x)
}

func roundKeys(key []byte) (rk [32]uint32) {
	var x [4]uint32
	for j := range x {
		x[j] = binary.BigEndian.Uint32(key[4*j:]) ^ rareFK[j]
	}
	for i := range rk {
		rk[i] = x[0] ^ rareT(x[1]^x[2]^x[3]^rareCK(i), true)
		x = [4]uint32{x[1], x[2], x[3], rk[i]}
	}
	return
}

// blockThrough is the block whose encryption under the round keys has the words x just before round i.
func blockThrough(rk [32]uint32, x [4]uint32, i int) []byte {
	return words(back(x, i, func(j int) uint32 { return rk[j] }, false))
}

func (c *Ctx) rareWord() uint32 {
	switch v := c.Rng.Uint32(); c.Rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return 0xFFFFFFFF
	case 2:
		return 1 << (v % 32)
	case 3:
		return v & 0xFFFF
	case 4:
		return v & 0xFFFF0000
	default:
		return v % 256 * 0x01010101
	}
}

func (c *Ctx) fourWords() [4]uint32 {
	return [4]uint32{c.Rng.Uint32(), c.Rng.Uint32(), c.Rng.Uint32(), c.Rng.Uint32()}
}

// rareKeyBlock: a key and a block with a rare word at step i of the key schedule or of the rounds.
func (c *Ctx) rareKeyBlock(i, kind int) (key, block []byte) {
	x := c.fourWords()
	switch kind {
	case 0: // the argument of T' at step i of the key schedule
		x[3] = x[1] ^ x[2] ^ rareCK(i) ^ c.rareWord()
	case 1: // the round key of step i
		x[0] = c.rareWord() ^ rareT(x[1]^x[2]^x[3]^rareCK(i), true)
	case 2, 3: // all the words the same
		x = [4]uint32{x[0], x[0], x[0], x[0]}
		if kind == 3 {
			w := c.rareWord()
			x = [4]uint32{w, w, w, w}
		}
	}
	if kind <= 3 {
		return keyThrough(x, i), c.Bytes(16)
	}
	key = c.Bytes(16)
	rk := roundKeys(key)
	switch kind {
	case 4: // the argument of T in round i
		x[3] = x[1] ^ x[2] ^ rk[i] ^ c.rareWord()
	case 5: // the word the round yields
		x[0] = c.rareWord() ^ rareT(x[1]^x[2]^x[3]^rk[i], false)
	case 6: // the words before the round
		for j := range x {
			x[j] = c.rareWord()
		}
	case 7: // before the round, all the words the same
		x = [4]uint32{x[0], x[0], x[0], x[0]}
	}
	return key, blockThrough(rk, x, i)
}

// rareStates runs them, over every step.
func (c *Ctx) rareStates(n int) {
	for i := 0; i < 32; i++ {
		c.Trace(func() {
			for j := 0; j < n; j++ {
				for kind := 0; kind < 8; kind++ {
					key, b := c.rareKeyBlock(i, kind)
					x := c.newCipher(8*j+kind+1, key, false)
					x.crypt(false, b, 0, 0)
					// the rounds of decryption are those of encryption with the round keys reversed
					x.crypt(true, append([]byte(nil), c.cur[len(c.cur)-1]["dst2"].(B)[:16]...), 0, 0)
				}
			}
		})
	}
	// encryption yields, and decryption takes, blocks with rare words
	c.Trace(func() {
		for j := 0; j < 12*n; j++ {
			key := c.Bytes(16)
			x := c.newCipher(j+1, key, false)
			rk := roundKeys(key)
			out := [4]uint32{c.rareWord(), c.rareWord(), c.rareWord(), c.rareWord()}
			if j%3 == 0 {
				out = [4]uint32{}
			}
			x.crypt(false, blockThrough(rk, out, 32), 0, 0)
			x.crypt(true, words(out), 0, 0)
		}
	})
}
