package main

import "github.com/ZZMarquis/gm/util"

func init() { drivers["C07"] = driveC07 }

// padTrace: one backing array, several calls on windows of it.
func (c *Ctx) padTrace(data []byte, spare, bs int) {
	c.Trace(func() {
		back := append(append([]byte(nil), data...), c.Bytes(spare)...)
		snap := func() B { return append([]byte(nil), back...) }
		n := len(data)
		c.Add(Ev{"op": "Alloc", "back": snap()})
		var r []byte
		out, _ := Do(func() { r = util.PKCS5Padding(back[:n], bs) })
		c.Add(Ev{"op": "PKCS5Padding", "n": n, "bs": bs, "r": B(append([]byte(nil), r...)), "out": out, "back": snap()})
		if c.dead {
			return
		}
		padded := append([]byte(nil), r...)
		for i := range r {
			if i >= n {
				r[i] ^= 0xFF // the added bytes belong to the result
			}
		}
		c.Add(Ev{"op": "Scribble", "back": snap()})
		var z []byte
		out, _ = Do(func() { z = util.ZeroPadding(back[:n], bs) })
		c.Add(Ev{"op": "ZeroPadding", "n": n, "bs": bs, "r": B(append([]byte(nil), z...)), "out": out, "back": snap()})
		if c.dead {
			return
		}
		zpadded := append([]byte(nil), z...)

		// removing it again, from a window with spare capacity
		back = append(append([]byte(nil), padded...), c.Bytes(spare)...)
		c.Add(Ev{"op": "Alloc", "back": snap()})
		out, _ = Do(func() { r = util.PKCS5UnPadding(back[:len(padded)]) })
		c.Add(Ev{"op": "PKCS5UnPadding", "n": len(padded), "bs": bs, "r": B(append([]byte(nil), r...)), "out": out, "back": snap()})
		if c.dead {
			return
		}
		back = append(append([]byte(nil), zpadded...), c.Bytes(spare)...)
		c.Add(Ev{"op": "Alloc", "back": snap()})
		for _, k := range []int{len(zpadded) - n, 0, len(zpadded), c.Rng.Intn(len(zpadded) + 1)} {
			out, _ = Do(func() { r = util.UnZeroPadding(back[:len(zpadded)], k) })
			c.Add(Ev{"op": "UnZeroPadding", "n": len(zpadded), "k": k, "r": B(append([]byte(nil), r...)), "out": out, "back": snap()})
		}
	})
}

func driveC07(c *Ctx) {
	for n := 0; n <= 50; n++ {
		for _, bs := range []int{1, 2, 7, 8, 16} {
			c.padTrace(c.Content(n), []int{0, 1, 5, 16, 300}[c.Rng.Intn(5)], bs)
		}
	}
	for bs := 1; bs <= 255; bs++ {
		for _, n := range []int{0, 1, bs - 1, bs, bs + 1, 2 * bs, c.Rng.Intn(3*bs + 1)} {
			if c.Thorough() || c.Rng.Intn(3) == 0 {
				c.padTrace(c.Content(n), c.Rng.Intn(2)*c.Rng.Intn(2*bs), bs)
			}
		}
	}
	// data that looks like padding
	for bs := 2; bs <= 16; bs++ {
		for v := 1; v <= bs; v++ {
			d := make([]byte, v)
			for i := range d {
				d[i] = byte(v)
			}
			c.padTrace(d, 20, bs)
		}
	}
	for i := 0; i < c.N(300, 5000); i++ {
		c.padTrace(c.Content(c.Rng.Intn(200)), c.Rng.Intn(64), 1+c.Rng.Intn(255))
	}
	// long data
	for _, n := range bigSizes {
		if n > 20000 && n != 65536 && n != 131073 && !c.Thorough() {
			continue
		}
		c.padTrace(c.Content(n), c.Rng.Intn(2)*c.Rng.Intn(600), []int{3, 7, 24, 100, 251, 253, 255, 3 + 2*c.Rng.Intn(126)}[c.Rng.Intn(8)])
		if n < 20000 {
			c.padTrace(c.Content(n), c.Rng.Intn(2)*c.Rng.Intn(600), []int{1, 8, 16, 64, 128}[c.Rng.Intn(5)])
		}
	}
}
