package main

import (
	"encoding/json"
	"math/big"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/util"
)

func init() { drivers["C31"] = driveC31 }

// ecPool is what the caller holds in one trace: points and integers, all of them results of earlier calls or its own.
type ecPool struct {
	c    *Ctx
	cv   int
	cu   sm2.P256V1Curve
	x, y []*big.Int
	z    []*big.Int
}

func (c *Ctx) newPool(cv int) *ecPool {
	p := &ecPool{c: c, cv: cv, cu: curve(cv)}
	if cv == 0 {
		p.cu = sm2.GetSm2P256V1()
	}
	e := Ev{"op": "CurveIs", "cv": cv}
	q := p.cu.CurveParams
	if c.Rng.Intn(2) == 0 {
		e["out"], _ = Do(func() { q = p.cu.Params() })
	} else {
		e["out"] = "ok"
	}
	e["p"], e["a"], e["b"], e["n"], e["gx"], e["gy"], e["bits"] = Nat(q.P), Nat(p.cu.A), Nat(q.B), Nat(q.N), Nat(q.Gx), Nat(q.Gy), q.BitSize
	c.Add(e)
	return p
}

func pair(x, y *big.Int) Ev { return Ev{"x": Int(x), "y": Int(y)} }

// add records an event together with the present value of everything in the pool.
func (p *ecPool) add(e Ev, same bool) {
	pts, ints := []Ev{}, []Ev{}
	for i := range p.x {
		pts = append(pts, pair(p.x[i], p.y[i]))
	}
	for _, z := range p.z {
		ints = append(ints, Int(z))
	}
	e["pts"], e["ints"], e["same"] = pts, ints, same
	p.c.Add(e)
}

func (p *ecPool) point(e Ev, k []byte, f func() (x, y *big.Int)) {
	var x, y *big.Int
	wk, wc := Watch(k), watchInts(curveInts(p.cu)...)
	out, _ := Do(func() { x, y = f() })
	e["out"], e["r"] = out, pair(x, y)
	if k != nil {
		e["k"] = cp(k)
	}
	if x == nil || y == nil {
		x, y = new(big.Int), new(big.Int)
		if out == "ok" {
			e["out"] = "nil"
		}
	}
	p.x, p.y = append(p.x, x), append(p.y, y)
	p.add(e, wk() && wc())
}

func (p *ecPool) put(x, y *big.Int) {
	p.point(Ev{"op": "Point"}, nil, func() (*big.Int, *big.Int) { return new(big.Int).Set(x), new(big.Int).Set(y) })
}
func (p *ecPool) base(k []byte) {
	p.point(Ev{"op": "ScalarBaseMult"}, k, func() (*big.Int, *big.Int) { return p.cu.ScalarBaseMult(k) })
}
func (p *ecPool) mult(i int, k []byte) {
	p.point(Ev{"op": "ScalarMult", "i": i + 1}, k, func() (*big.Int, *big.Int) { return p.cu.ScalarMult(p.x[i], p.y[i], k) })
}
func (p *ecPool) sum(i, j int) {
	p.point(Ev{"op": "AddPoints", "i": i + 1, "j": j + 1}, nil, func() (*big.Int, *big.Int) { return p.cu.Add(p.x[i], p.y[i], p.x[j], p.y[j]) })
}
func (p *ecPool) double(i int) {
	p.point(Ev{"op": "DoublePoint", "i": i + 1}, nil, func() (*big.Int, *big.Int) { return p.cu.Double(p.x[i], p.y[i]) })
}
func (p *ecPool) on(x, y *big.Int) {
	var res bool
	w := watchInts(append(curveInts(p.cu), x, y)...)
	out, _ := Do(func() { res = p.cu.IsOnCurve(x, y) })
	p.add(Ev{"op": "IsOnCurve", "x": Int(x), "y": Int(y), "res": res, "out": out}, w())
}
func (p *ecPool) infinity(i int) {
	var res bool
	out, _ := Do(func() { res = util.IsEcPointInfinity(p.x[i], p.y[i]) })
	p.add(Ev{"op": "PointInfinity", "i": i + 1, "res": res, "out": out}, true)
}

// scalar gives a scalar by name (GenEC), or a random one, possibly with leading zeros.
func (p *ecPool) scalar(name string) []byte {
	c := p.c
	n := p.cu.N
	var k *big.Int
	switch name {
	case "zero":
		k = new(big.Int)
	case "one":
		k = big.NewInt(1)
	case "two":
		k = big.NewInt(2)
	case "nm1":
		k = new(big.Int).Sub(n, one)
	case "n":
		k = n
	case "np1":
		k = new(big.Int).Add(n, one)
	default:
		switch c.Rng.Intn(9) {
		case 0:
			k = new(big.Int).Rsh(n, 1)
		case 1:
			k = new(big.Int).Sub(n, big.NewInt(2))
		case 2: // longer than the group order
			k = new(big.Int).SetBytes(c.Bytes(33 + c.Rng.Intn([]int{20, 20, 100, 300}[c.Rng.Intn(4)])))
		case 3:
			k = new(big.Int).Lsh(one, uint(c.Rng.Intn(260)))
		case 4: // more than n in 32 bytes
			k = new(big.Int).Sub(new(big.Int).Lsh(one, 256), big.NewInt(int64(1+c.Rng.Intn(9))))
		case 5:
			k = new(big.Int).Lsh(n, uint(1+c.Rng.Intn(4)))
		case 6: // sparse
			k = new(big.Int)
			for i := 0; i < 3; i++ {
				k.SetBit(k, c.Rng.Intn(256), 1)
			}
		default:
			k = c.randScalar(n)
		}
	}
	b := k.Bytes()
	if m := c.Rng.Intn(4); m > 0 {
		b = append(make([]byte, []int{0, 1, 7, 33}[m]), b...)
	}
	if len(b) < 32 && c.Rng.Intn(3) == 0 {
		b = append(make([]byte, 32-len(b)), b...)
	}
	return b
}

type ecStep struct {
	F    string
	I, J int
	K    string
}

func driveC31(c *Ctx) {
	// histories generated by TLC
	var hists [][]ecStep
	for _, line := range genLines(c.Gen) {
		var h []ecStep
		if json.Unmarshal([]byte(line), &h) == nil {
			hists = append(hists, h)
		}
	}
	c.Rng.Shuffle(len(hists), func(i, j int) { hists[i], hists[j] = hists[j], hists[i] })
	if m := c.N(700, 20000); len(hists) > m {
		hists = hists[:m]
	}
	for n, h := range hists {
		c.Trace(func() {
			p := c.newPool([]int{0, 0, 1 + n%len(toys)}[n%3])
			p.put(new(big.Int), new(big.Int))
			p.put(p.cu.Gx, p.cu.Gy)
			for _, s := range h {
				switch s.F {
				case "Add":
					p.sum(s.I-1, s.J-1)
				case "Double":
					p.double(s.I - 1)
				case "Mult":
					p.mult(s.I-1, p.scalar(s.K))
				case "Base":
					p.base(p.scalar(s.K))
				}
			}
			p.infinity(len(p.x) - 1)
		})
	}
	// every pair of points of the smallest curves, every scalar
	for cv := 1; cv <= c.N(3, 4); cv++ {
		cu := curve(cv)
		n := int(cu.N.Int64())
		for i := 0; i < n; i++ {
			c.Trace(func() {
				p := c.newPool(cv)
				p.put(ecMul(cu, big.NewInt(int64(i)), cu.Gx, cu.Gy))
				p.double(0)
				p.base(big.NewInt(int64(i)).Bytes())
				for j := 0; j < n; j++ {
					if j%4 == 0 {
						p.x, p.y = p.x[:1:1], p.y[:1:1]
						c.flush()
						p = c.newPool(cv)
						p.put(ecMul(cu, big.NewInt(int64(i)), cu.Gx, cu.Gy))
					}
					p.put(ecMul(cu, big.NewInt(int64(j)), cu.Gx, cu.Gy))
					p.sum(0, len(p.x)-1)
					p.mult(0, big.NewInt(int64(j)).Bytes())
				}
			})
		}
		p := int(cu.P.Int64())
		for x := -1; x <= p+1; x++ {
			c.Trace(func() {
				q := c.newPool(cv)
				for y := -1; y <= p+1; y++ {
					q.on(big.NewInt(int64(x)), big.NewInt(int64(y)))
				}
			})
		}
	}
	// the SM2 curve at random
	ks := c.specialKeys()
	for n := 0; n < c.N(150, 3000); n++ {
		c.Trace(func() {
			p := c.newPool(0)
			for i := 0; i < 3; i++ {
				k := ks[c.Rng.Intn(len(ks))]
				if c.Rng.Intn(2) == 0 {
					k = c.randKey()
				}
				p.put(k.x, k.y)
				if c.Rng.Intn(2) == 0 {
					p.put(k.x, new(big.Int).Sub(stdP, k.y)) // its inverse
				}
			}
			for i := 0; i < 5; i++ {
				a, b := c.Rng.Intn(len(p.x)), c.Rng.Intn(len(p.x))
				switch c.Rng.Intn(8) {
				case 0, 1:
					p.sum(a, b)
				case 2:
					p.double(a)
				case 3, 4:
					p.mult(a, p.scalar("any"))
				case 5:
					p.base(p.scalar("any"))
				case 6:
					x, y := p.x[a], p.y[a]
					switch c.Rng.Intn(9) {
					case 0:
						y = new(big.Int).Sub(stdP, y)
					case 1:
						x = new(big.Int).Add(x, stdP)
					case 2:
						y = new(big.Int).Neg(y)
					case 3:
						y = new(big.Int).Add(y, one)
					case 4:
						x, y = y, x
					case 5:
						x = new(big.Int).Neg(x)
					case 6:
						y = new(big.Int).Add(y, stdP)
					case 7:
						x, y = c.randScalar(stdP), c.randScalar(stdP)
					}
					p.on(x, y)
				case 7:
					p.infinity(a)
				}
			}
		})
	}
	// integers
	for n := 0; n < c.N(300, 8000); n++ {
		c.Trace(func() {
			p := c.newPool(0)
			for i := 0; i < 4; i++ {
				p.someInt()
			}
			for i := 0; i < 12; i++ {
				p.intStep()
			}
		})
	}
}

func (p *ecPool) someInt() {
	c := p.c
	z := new(big.Int)
	switch c.Rng.Intn(10) {
	case 0:
	case 1:
		z.SetInt64(int64(c.Rng.Intn(5)))
	case 2:
		z.Lsh(one, []uint{7, 8, 31, 32, 63, 64, 65, 127, 128, 255, 256, 512}[c.Rng.Intn(12)])
	case 3:
		z.Lsh(one, []uint{7, 8, 31, 32, 63, 64, 65, 127, 128, 255, 256, 512}[c.Rng.Intn(12)])
		z.Sub(z, one)
	case 4:
		z.Set(stdN)
	case 5:
		z.Set(stdP)
	case 6:
		z.SetBytes(c.Bytes(1 + c.Rng.Intn(9)))
	default:
		z.SetBytes(c.Bytes(1 + c.Rng.Intn(80)))
	}
	if c.Rng.Intn(3) == 0 {
		z.Neg(z)
	}
	p.integer(Ev{"op": "Integer"}, func() *big.Int { return z })
}

func (p *ecPool) integer(e Ev, f func() *big.Int) {
	var z *big.Int
	out, _ := Do(func() { z = f() })
	e["out"], e["r"] = out, Int(z)
	if z == nil {
		z = new(big.Int)
		if out == "ok" {
			e["out"] = "nil"
		}
	}
	p.z = append(p.z, z)
	p.add(e, true)
}

func (p *ecPool) intStep() {
	c := p.c
	i, j := c.Rng.Intn(len(p.z)), c.Rng.Intn(len(p.z))
	if c.Rng.Intn(6) == 0 {
		j = i
	}
	x, y := p.z[i], p.z[j]
	e := Ev{"i": i + 1, "j": j + 1}
	big3 := x.BitLen() > 2000 || y.BitLen() > 2000
	switch c.Rng.Intn(11) {
	case 0:
		e["op"] = "IntAdd"
		p.integer(e, func() *big.Int { return util.Add(x, y) })
	case 1:
		e["op"] = "IntSub"
		p.integer(e, func() *big.Int { return util.Sub(x, y) })
	case 2:
		if !big3 {
			e["op"] = "IntMul"
			p.integer(e, func() *big.Int { return util.Mul(x, y) })
		}
	case 3, 4:
		if y.Sign() != 0 {
			e["op"] = "IntMod"
			p.integer(e, func() *big.Int { return util.Mod(x, y) })
		}
	case 5:
		if y.Sign() > 0 && new(big.Int).GCD(nil, nil, new(big.Int).Mod(x, y), y).Cmp(one) == 0 {
			e["op"] = "IntModInverse"
			p.integer(e, func() *big.Int { return util.ModInverse(x, y) })
		}
	case 6:
		if !big3 {
			n := []int{0, 1, 7, 8, 9, 31, 32, 63, 64, 65, 255, 256, 300, 1000}[c.Rng.Intn(14)]
			if c.Rng.Intn(20) == 0 { // shifts and bits that do not fit in 16 bits
				n = 65536 + c.Rng.Intn(200)
			}
			e["op"], e["n"] = "IntLsh", n
			p.integer(e, func() *big.Int { return util.Lsh(x, uint(n)) })
		}
	case 7:
		n := []int{0, 1, 7, 8, 63, 64, 65, 127, 200, x.BitLen(), c.Rng.Intn(x.BitLen() + 1), x.BitLen() + 70}[c.Rng.Intn(12)]
		if c.Rng.Intn(20) == 0 {
			n = 65536 + c.Rng.Intn(200)
		}
		b := c.Rng.Intn(2)
		e["op"], e["n"], e["b"] = "IntSetBit", n, b
		p.integer(e, func() *big.Int { return util.SetBit(x, n, uint(b)) })
	case 8:
		e["op"] = "IntAnd"
		p.integer(e, func() *big.Int { return util.And(x, y) })
	case 9:
		e["op"] = "IntInfinity"
		var res bool
		e["out"], _ = Do(func() { res = util.IsEcPointInfinity(x, y) })
		e["res"] = res
		p.add(e, true)
	case 10:
		e["op"] = "IntZ"
		p.integer(e, func() *big.Int { return util.ZForAffine(x, y) })
	}
}
