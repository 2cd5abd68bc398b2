package main

import (
	"bufio"
	"bytes"
	"crypto/hmac"
	"encoding/json"
	"hash"
	"os"

	"github.com/ZZMarquis/gm/sm3"
)

func init() {
	drivers["C01"] = driveC01
	drivers["C01L"] = driveC01L
	drivers["C01X"] = driveC01X
	drivers["C02"] = driveC02
	drivers["C03"] = driveC03
}

func (c *Ctx) digest(m []byte) {
	in, same := c.in("m", m, c.Rng.Intn(70))
	var r []byte
	out, _ := Do(func() { d := sm3.Sum(in); r = d[:] })
	c.Add(Ev{"op": "Digest", "m": B(m), "r": B(r), "out": out, "same": same()})
}

type hobj struct {
	c   *Ctx
	o   int
	h   hash.Hash
	mac bool
}

func (c *Ctx) newHash(o int) *hobj {
	x := &hobj{c: c, o: o}
	out, _ := Do(func() { x.h = sm3.New() })
	c.Add(Ev{"op": "New", "o": o, "out": out})
	return x
}

func (c *Ctx) newMac(o int, key []byte) *hobj {
	x := &hobj{c: c, o: o, mac: true}
	k := append([]byte(nil), key...)
	var size, block int
	out, _ := Do(func() {
		x.h = hmac.New(func() hash.Hash { return sm3.New() }, k)
		size, block = x.h.Size(), x.h.BlockSize()
	})
	for i := range k {
		k[i] ^= 0x77
	}
	c.Add(Ev{"op": "NewMac", "o": o, "key": B(key), "size": size, "block": block, "out": out})
	return x
}

func (x *hobj) name(s string) string {
	if x.mac {
		return "Mac" + s
	}
	return s
}

func (x *hobj) write(p []byte) {
	if x.c.dead {
		return
	}
	in, same := x.c.in("p", p, x.c.Rng.Intn(70))
	var n int
	var err error
	out, _ := Do(func() { n, err = x.h.Write(in) })
	s := same()
	es := ""
	if err != nil {
		es = err.Error()
	}
	// the caller reuses its buffer
	for i := range in[:cap(in)] {
		if !conc {
			in[:cap(in)][i] ^= 0xC3
		}
	}
	x.c.Add(Ev{"op": x.name("Write"), "o": x.o, "p": B(p), "n": n, "err": es, "out": out, "same": s})
}

func (x *hobj) sum(prefix []byte) {
	if x.c.dead {
		return
	}
	spare := []int{0, 0, 7, 32, 64, 100}[x.c.Rng.Intn(6)]
	b, _ := Spare(prefix, spare)
	if len(prefix) == 0 && x.c.Rng.Intn(2) == 0 {
		b = nil
	}
	var r []byte
	out, _ := Do(func() { r = x.h.Sum(b) })
	same := string(b) == string(prefix)
	rr := append([]byte(nil), r...)
	// the caller owns the result
	for i := range r {
		r[i] ^= 0x5A
	}
	x.c.Add(Ev{"op": x.name("Sum"), "o": x.o, "b": B(prefix), "r": B(rr), "out": out, "same": same})
}

func (x *hobj) reset() {
	if x.c.dead {
		return
	}
	out, _ := Do(func() { x.h.Reset() })
	x.c.Add(Ev{"op": x.name("Reset"), "o": x.o, "out": out})
}

func (x *hobj) sizes() {
	if x.c.dead {
		return
	}
	var s, b int
	out, _ := Do(func() { s, b = x.h.Size(), x.h.BlockSize() })
	x.c.Add(Ev{"op": "Sizes", "o": x.o, "size": s, "block": b, "out": out})
}

func driveC01(c *Ctx) {
	// every length up to several blocks, one-shot and through an object
	max := c.N(330, 1100)
	for n := 0; n <= max; n++ {
		c.Trace(func() {
			c.digest(c.Content(n))
			h := c.newHash(1)
			h.write(c.Bytes(n))
			h.sum(nil)
		})
	}
	// data-dependent carries: random blocks
	for i := 0; i < c.N(300, 6000); i++ {
		c.Trace(func() { c.digest(c.Content(c.Rng.Intn(130))) })
	}
	// longer messages
	for i := 0; i < c.N(30, 200); i++ {
		c.Trace(func() { c.digest(c.Content(500 + c.Rng.Intn(c.N(3000, 20000)))) })
	}
	// bit lengths around 2^16, 2^24 and (thorough; else in C01X) 2^32
	for _, n := range []int{8191, 8192, 8193} {
		c.Trace(func() { c.digest(c.Content(n)) })
	}
	rep := []int{32767, 32768}
	if c.Thorough() {
		rep = append(rep, 1<<23-1, 1<<23, 1<<23+1, 3<<23+5)
	}
	for _, n := range rep {
		for _, r := range []int{0, c.Rng.Intn(56), 56 + c.Rng.Intn(8)} {
			c.Trace(func() { c.digestRep(c.Content(64), n, c.Bytes(r)) })
		}
	}
}

// driveC01L: long messages of any content, hashed at once and through an object.
func driveC01L(c *Ctx) {
	for _, n := range bigSizes {
		c.Trace(func() {
			c.digest(c.Content(n + c.Rng.Intn(2)*c.Rng.Intn(64)))
			m := c.Bytes(n)
			h := c.newHash(1)
			h.write(m)
			h.sum(nil)
		})
	}
	for i := 0; i < c.N(12, 200); i++ {
		c.Trace(func() { c.digest(c.Bytes(c.bigSize())) })
	}
	for _, n := range []int{1 << 20, 1<<20 - 9, 1<<18 + 55}[:c.N(2, 3)] {
		c.Trace(func() { c.digest(c.Bytes(n)) })
	}
}

// driveC01X: one object takes more than 2^32 octets, and is asked for the digest where counts of 29, 31 and 32 bits end.
func driveC01X(c *Ctx) {
	c.Trace(func() {
		block := c.Content(64)
		chunk := bytes.Repeat(block, 1<<14)
		var h hash.Hash
		if out, _ := Do(func() { h = sm3.New() }); out != "ok" {
			return
		}
		n := 0
		at := func(blocks int, rest []byte) {
			var r []byte
			out, _ := Do(func() {
				for n < blocks {
					k := least(blocks-n, 1<<14)
					h.Write(chunk[:64*k])
					n += k
				}
				if len(rest) == 0 {
					r = h.Sum(nil)
				}
			})
			if len(rest) > 0 { // the object ends here
				out, _ = Do(func() { h.Write(rest); r = h.Sum(nil) })
			}
			c.Add(Ev{"op": "DigestRep", "block": B(block), "n": blocks, "rest": B(rest), "r": B(r), "out": out})
		}
		for _, n := range []int{1 << 23, 1 << 25, 1<<25 + 77, 1<<26 - 1, 1 << 26} {
			at(n, nil)
		}
		if c.Thorough() {
			at(1<<27, nil)
			at(3<<26, nil)
		}
		at(n+1, c.Bytes(1+c.Rng.Intn(63)))
	})
}

// digestRep hashes block repeated n times followed by rest.
func (c *Ctx) digestRep(block []byte, n int, rest []byte) {
	chunk := make([]byte, 0, 64*4096)
	for i := 0; i < 4096; i++ {
		chunk = append(chunk, block...)
	}
	var r []byte
	out, _ := Do(func() {
		h := sm3.New()
		for left := n; left > 0; {
			k := left
			if k > 4096 {
				k = 4096
			}
			h.Write(chunk[:64*k])
			left -= k
		}
		h.Write(rest)
		r = h.Sum(nil)
	})
	c.Add(Ev{"op": "DigestRep", "block": B(block), "n": n, "rest": B(rest), "r": B(r), "out": out})
}

// a step of a scenario generated by TLC (GenHash.tla)
type hstep struct {
	Op string `json:"op"`
	O  int    `json:"o"`
	N  int    `json:"n"`
}

func (c *Ctx) scenarios(into func([]byte)) {
	if c.Gen == "" {
		return
	}
	f, err := os.Open(c.Gen)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		into(sc.Bytes())
	}
}

func driveC02(c *Ctx) {
	// histories generated by TLC from GenHash
	c.scenarios(func(line []byte) {
		var steps []hstep
		if err := json.Unmarshal(line, &steps); err != nil {
			panic(err)
		}
		c.Trace(func() {
			var hs []*hobj
			for _, s := range steps {
				switch s.Op {
				case "New":
					hs = append(hs, c.newHash(len(hs)+1))
				case "Write":
					hs[s.O-1].write(c.Bytes(s.N))
				case "Sum":
					hs[s.O-1].sum(c.Bytes(s.N))
				case "Reset":
					hs[s.O-1].reset()
				}
			}
			for _, h := range hs {
				h.sum(nil)
			}
		})
	})
	// all splits of small messages into two and three writes
	step := c.N(7, 1)
	for a := 0; a <= 66; a++ {
		for b := a % step; b <= 66; b += step {
			c.Trace(func() {
				h := c.newHash(1)
				h.write(c.Bytes(a))
				if (a+b)%3 == 0 {
					h.sum(nil)
				}
				h.write(c.Bytes(b))
				h.sum(c.Bytes((a + b) % 5))
			})
		}
	}
	// long random histories over several objects
	for i := 0; i < c.N(400, 4000); i++ {
		c.Trace(func() {
			nobj := 1 + c.Rng.Intn(3)
			var hs []*hobj
			for o := 1; o <= nobj; o++ {
				hs = append(hs, c.newHash(o))
			}
			for k := 0; k < 4+c.Rng.Intn(24); k++ {
				h := hs[c.Rng.Intn(nobj)]
				switch c.Rng.Intn(12) {
				case 0:
					h.reset()
				case 1, 2, 3:
					h.sum(c.Bytes(c.Rng.Intn(3) * c.Rng.Intn(20)))
				case 4:
					h.sum(nil)
					h.sum(nil)
				case 5:
					h.write(nil)
				case 6:
					h.write(c.Bytes(64 * c.Rng.Intn(4)))
				case 7:
					h.write(c.Bytes([]int{1, 3, 4, 55, 56, 60, 63, 65, 119, 120, 127, 128, 129}[c.Rng.Intn(13)]))
				default:
					h.write(c.Bytes(c.Rng.Intn(80)))
				}
			}
			for _, h := range hs {
				h.sum(nil)
				h.sizes()
			}
		})
	}
	// byte by byte, and large writes
	for i := 0; i < c.N(6, 40); i++ {
		c.Trace(func() {
			h := c.newHash(1)
			for k := 0; k < 70+c.Rng.Intn(130); k++ {
				h.write(c.Bytes(1))
				if k%9 == i%9 {
					h.sum(nil)
				}
			}
			h.sum(nil)
		})
		c.Trace(func() {
			h := c.newHash(1)
			h.write(c.Bytes(c.Rng.Intn(7)))
			h.write(c.Bytes(1000 + c.Rng.Intn(5000)))
			h.sum(nil)
			h.write(c.Bytes(c.Rng.Intn(600)))
			h.sum(nil)
			h.reset()
			h.sum(nil)
		})
		// writes larger than any buffer, after a partial block and between small ones
		c.Trace(func() {
			h := c.newHash(1)
			for k := 0; k < 2+c.Rng.Intn(3); k++ {
				h.write(c.Bytes(c.Rng.Intn(70)))
				if k > 0 && c.Rng.Intn(3) == 0 {
					h.sum(c.Bytes(c.Rng.Intn(9)))
				}
				h.write(c.Bytes(c.bigSize()))
				if c.Rng.Intn(3) == 0 {
					h.sum(nil)
				}
			}
			h.sum(nil)
			h.reset()
			h.write(c.Bytes(c.bigSize()))
			h.sum(nil)
		})
		// many writes of the same size
		c.Trace(func() {
			h := c.newHash(1)
			n := []int{31, 32, 63, 64, 65, 127, 128, 129, 1000}[c.Rng.Intn(9)]
			for k := 0; k < 100+c.Rng.Intn(200); k++ {
				h.write(c.Bytes(n))
			}
			h.sum(nil)
		})
	}
}

func driveC03(c *Ctx) {
	c.Trace(func() {
		h := c.newHash(1)
		h.sizes()
		h.write(c.Bytes(70))
		h.sizes()
		h.sum(nil)
		h.reset()
		h.sizes()
		h.sum(nil)
	})
	for kl := 0; kl <= c.N(140, 400); kl++ {
		c.Trace(func() {
			m := c.newMac(1, c.Content(kl))
			m.write(c.Bytes(c.Rng.Intn(150)))
			m.sum(nil)
		})
	}
	for i := 0; i < c.N(24, 200); i++ {
		c.Trace(func() {
			m := c.newMac(1, c.Content([]int{20, 64, 65, c.bigSize()}[i%4]))
			for k := 0; k < 2; k++ {
				m.write(c.Bytes(c.bigSize()))
				m.sum(nil)
				m.write(c.Bytes(c.Rng.Intn(100)))
				m.sum(nil)
				m.reset()
			}
		})
	}
	for i := 0; i < c.N(500, 5000); i++ {
		c.Trace(func() {
			nobj := 1 + c.Rng.Intn(2)
			var ms []*hobj
			for o := 1; o <= nobj; o++ {
				ms = append(ms, c.newMac(o, c.Content([]int{0, 1, 16, 31, 32, 33, 63, 64, 65, 128, 200}[c.Rng.Intn(11)])))
			}
			for k := 0; k < 3+c.Rng.Intn(10); k++ {
				m := ms[c.Rng.Intn(nobj)]
				switch c.Rng.Intn(5) {
				case 0:
					m.reset()
				case 1:
					m.sum(c.Bytes(c.Rng.Intn(5)))
				default:
					m.write(c.Bytes(c.Rng.Intn(140)))
				}
			}
			for _, m := range ms {
				m.sum(nil)
				m.reset()
				m.sum(nil)
			}
		})
	}
	// the hash.Hash contract on its own
	for i := 0; i < c.N(150, 1500); i++ {
		c.Trace(func() {
			h := c.newHash(1)
			for k := 0; k < 3+c.Rng.Intn(8); k++ {
				h.write(c.Bytes(c.Rng.Intn(100)))
				h.sum(c.Bytes(c.Rng.Intn(40)))
				if c.Rng.Intn(4) == 0 {
					h.reset()
				}
				h.sizes()
			}
			h.sum(nil)
		})
	}
}
