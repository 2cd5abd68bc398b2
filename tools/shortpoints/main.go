// Command shortpoints looks for multiples of the SM2 base point with small coordinates; it made harness/short.go.
package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"strconv"
	"sync"
)

// field arithmetic modulo the SM2 prime on 4 limbs, Montgomery form
type fe [4]uint64

var (
	P, _  = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", 16)
	A     = new(big.Int).Sub(P, big.NewInt(3))
	Gx, _ = new(big.Int).SetString("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7", 16)
	Gy, _ = new(big.Int).SetString("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0", 16)
	p     = fe{0xFFFFFFFFFFFFFFFF, 0xFFFFFFFF00000000, 0xFFFFFFFFFFFFFFFF, 0xFFFFFFFEFFFFFFFF}
	R2    fe
	raw1  = fe{1}
)

func fromBig(x *big.Int) (r fe) {
	b := new(big.Int).Mod(x, P)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(b, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64()
	}
	return
}
func red(r *fe, c uint64) {
	var t fe
	var b uint64
	for i := 0; i < 4; i++ {
		t[i], b = bits.Sub64(r[i], p[i], b)
	}
	if c != 0 || b == 0 {
		*r = t
	}
}
func sub(a, b *fe) (r fe) {
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	if c != 0 {
		c = 0
		for i := 0; i < 4; i++ {
			r[i], c = bits.Add64(r[i], p[i], c)
		}
	}
	return
}

// -p^-1 mod 2^64 = 1 since p = -1 mod 2^64
func mul(a, b *fe) (r fe) {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var k uint64
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j], c = lo, hi
		}
		var k uint64
		t[4], k = bits.Add64(t[4], c, 0)
		t[5] = k
		m := t[0]
		hi, lo := bits.Mul64(m, p[0])
		_, k = bits.Add64(lo, t[0], 0)
		c = hi + k
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, p[j])
			lo, k = bits.Add64(lo, t[j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[j-1], c = lo, hi
		}
		t[3], k = bits.Add64(t[4], c, 0)
		t[4] = t[5] + k
	}
	copy(r[:], t[:4])
	red(&r, t[4])
	return
}
func mont(x *big.Int) fe { f := fromBig(x); return mul(&f, &R2) }
func plain(f *fe) fe     { return mul(f, &raw1) }
func toBig(f *fe) *big.Int {
	q := plain(f)
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64).Or(r, new(big.Int).SetUint64(q[i]))
	}
	return r
}

func add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1.Sign() == 0 && y1.Sign() == 0 {
		return x2, y2
	}
	var n, d *big.Int
	if x1.Cmp(x2) == 0 {
		n = new(big.Int).Mul(x1, x1)
		n.Mul(n, big.NewInt(3)).Add(n, A)
		d = new(big.Int).Lsh(y1, 1)
	} else {
		n, d = new(big.Int).Sub(y2, y1), new(big.Int).Sub(x2, x1)
	}
	d.Mod(d, P).ModInverse(d, P)
	l := n.Mul(n, d).Mod(n, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1).Sub(x, x2).Mod(x, P)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l).Sub(y, y1).Mod(y, P)
	return x, y
}
func mulG(k *big.Int) (*big.Int, *big.Int) {
	x, y := new(big.Int), new(big.Int)
	for i := k.BitLen() - 1; i >= 0; i-- {
		if x.Sign() != 0 || y.Sign() != 0 {
			x, y = add(x, y, x, y)
		}
		if k.Bit(i) == 1 {
			x, y = add(x, y, Gx, Gy)
		}
	}
	return x, y
}

func zeros(f *fe) int { q := plain(f); return bits.LeadingZeros64(q[3]) }

// odd reports other runs of at least min equal bits in a coordinate: t trailing zeros, f leading ones, m (M) zeros
// (ones) from bit 126 down, h zeros from bit 127 down, 2 (0) zeros from the top of the third (lowest) 64 bits.
func odd(f *fe, min int) (s string) {
	q := plain(f)
	for _, c := range []struct {
		n   int
		tag string
	}{{bits.TrailingZeros64(q[0]), "t"}, {bits.LeadingZeros64(^q[3]), "f"}, {bits.LeadingZeros64(q[1] << 1), "m"},
		{bits.LeadingZeros64(^(q[1] << 1)), "M"}, {bits.LeadingZeros64(q[1]), "h"}, {bits.LeadingZeros64(q[2]), "2"},
		{bits.LeadingZeros64(q[0]), "0"}} {
		if c.n >= min {
			s += fmt.Sprintf("%s%d", c.tag, c.n)
		}
	}
	return
}

// streamZeros counts the leading zero bits of SM3(x || y || 00000001), the first block of SM2's key stream.
func streamZeros(x, y *fe) (n int) {
	b := make([]byte, 68)
	for c, f := range []*fe{x, y} {
		q := plain(f)
		for i := range q {
			binary.BigEndian.PutUint64(b[32*c+24-8*i:], q[i])
		}
	}
	b[67] = 1
	return bits.LeadingZeros64(binary.BigEndian.Uint64(sm3sum(b)))
}

func sm3sum(m []byte) []byte {
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	b := append(append([]byte(nil), m...), 0x80)
	for len(b)%64 != 56 {
		b = append(b, 0)
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], uint64(len(m))*8)
	b = append(b, l[:]...)
	rol := bits.RotateLeft32
	for ; len(b) > 0; b = b[64:] {
		var w [68]uint32
		for i := range w {
			if i < 16 {
				w[i] = binary.BigEndian.Uint32(b[4*i:])
			} else {
				x := w[i-16] ^ w[i-9] ^ rol(w[i-3], 15)
				w[i] = x ^ rol(x, 15) ^ rol(x, 23) ^ rol(w[i-13], 7) ^ w[i-6]
			}
		}
		s := v
		for j := 0; j < 64; j++ {
			k := uint32(0x79cc4519)
			f, g := s[0]^s[1]^s[2], s[4]^s[5]^s[6]
			if j >= 16 {
				k = 0x7a879d8a
				f = s[0]&s[1] | s[0]&s[2] | s[1]&s[2]
				g = s[4]&s[5] | ^s[4]&s[6]
			}
			ss1 := rol(rol(s[0], 12)+s[4]+rol(k, j%32), 7)
			t1 := f + s[3] + (ss1 ^ rol(s[0], 12)) + (w[j] ^ w[j+4])
			t2 := g + s[7] + ss1 + w[j]
			s = [8]uint32{t1, s[0], rol(s[1], 9), s[2], t2 ^ rol(t2, 9) ^ rol(t2, 17), s[4], rol(s[5], 19), s[6]}
		}
		for i := range v {
			v[i] ^= s[i]
		}
	}
	var out []byte
	for _, x := range v {
		out = append(out, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return out
}

// shortpoints STEPS BITS WORKERS [odd|stream]
func main() {
	R2 = fromBig(new(big.Int).Lsh(big.NewInt(1), 512))
	steps, _ := strconv.Atoi(os.Args[1]) // per worker, in batches
	min, _ := strconv.Atoi(os.Args[2])   // leading zero bits to report
	workers, _ := strconv.Atoi(os.Args[3])
	const W = 512 // points per batch: base + j*G
	// table of jG, j = 1..W
	tx, ty := make([]fe, W), make([]fe, W)
	x, y := Gx, Gy
	for j := 0; j < W; j++ {
		tx[j], ty[j] = mont(x), mont(y)
		if j == W-1 {
			break
		}
		x, y = add(x, y, Gx, Gy)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			k := new(big.Int).Lsh(big.NewInt(int64(w)+0x5eed), 200)
			k.Add(k, new(big.Int).Lsh(big.NewInt(0x123456789), 100))
			bxB, byB := mulG(k)
			bx, by := mont(bxB), mont(byB)
			pre := make([]fe, W+1)
			d := make([]fe, W)
			for s := 0; s < steps; s++ {
				pre[0] = mont(big.NewInt(1))
				for j := 0; j < W; j++ {
					d[j] = sub(&tx[j], &bx)
					pre[j+1] = mul(&pre[j], &d[j])
				}
				inv := new(big.Int).ModInverse(toBig(&pre[W]), P)
				iv := mont(inv)
				var nx, ny fe
				for j := W - 1; j >= 0; j-- {
					id := mul(&iv, &pre[j])
					iv = mul(&iv, &d[j])
					n := sub(&ty[j], &by)
					l := mul(&n, &id)
					l2 := mul(&l, &l)
					qx := sub(&l2, &bx)
					qx = sub(&qx, &tx[j])
					t := sub(&bx, &qx)
					qy := mul(&l, &t)
					qy = sub(&qy, &by)
					if j == W-1 {
						nx, ny = qx, qy
					}
					if len(os.Args) > 4 && os.Args[4] == "stream" {
						if n := streamZeros(&qx, &qy); n >= min {
							mu.Lock()
							fmt.Printf("%x %d\n", new(big.Int).Add(k, big.NewInt(int64(s)*W+int64(j)+1)), n)
							mu.Unlock()
						}
						continue
					}
					if len(os.Args) > 4 {
						if ox, oy := odd(&qx, min), odd(&qy, min); ox != "" || oy != "" {
							kk := new(big.Int).Add(k, big.NewInt(int64(s)*W+int64(j)+1))
							mu.Lock()
							fmt.Printf("%x x%s y%s\n", kk, ox, oy)
							mu.Unlock()
						}
						continue
					}
					zx, zy := zeros(&qx), zeros(&qy)
					if zx >= min || zy >= min {
						kk := new(big.Int).Add(k, big.NewInt(int64(s)*W+int64(j)+1))
						mu.Lock()
						fmt.Printf("%x %d %d\n", kk, zx, zy)
						mu.Unlock()
					}
				}
				bx, by = nx, ny
			}
		}(w)
	}
	wg.Wait()
}
