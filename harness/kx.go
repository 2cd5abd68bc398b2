package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"github.com/ZZMarquis/gm/sm2"
)

func init() {
	drivers["C17"] = driveC17
	drivers["C18"] = driveC18
}

// side is one side's input to the exchange.
type side struct {
	st, eph    *Key   // own keys
	id         []byte // own id
	ost, oeph  *sm2.PublicKey
	oid        []byte
	bits       int
	emptyAsNil bool
}

func (c *Ctx) kx(init bool, s side, tag []byte) *sm2.ExchangeResult {
	var res *sm2.ExchangeResult
	sp := func(slot string, b []byte) ([]byte, func() bool) {
		if b == nil {
			return nil, func() bool { return true }
		}
		return c.in(slot, b, 5)
	}
	idb, ok1 := sp("id", s.id)
	oidb, ok2 := sp("oid", s.oid)
	tagb, ok3 := sp("tag", tag)
	st, eph, ost, oeph := c.priv(0, s.st.Priv), c.priv(1, s.eph.Priv), c.pub(0, s.ost), c.pub(1, s.oeph)
	ints := watchInts(append(curveInts(st.Curve), st.D, eph.D, ost.X, ost.Y, oeph.X, oeph.Y)...)
	out := DoErr(func() (err error) {
		res, err = sm2.CalculateKeyWithConfirmation(init, s.bits, tagb, st, eph, idb, ost, oeph, oidb)
		return
	})
	e := Ev{"op": "KX", "init": init, "bits": s.bits, "niltag": tag == nil, "tag": cp(tag), "d": Nat(s.st.d), "r": Nat(s.eph.d),
		"id": cp(s.id), "oid": cp(s.oid), "ox": Int(s.ost.X), "oy": Int(s.ost.Y), "rx": Int(s.oeph.X), "ry": Int(s.oeph.Y),
		"out": out, "nilr": res == nil, "key": B{}, "s1": B{}, "s2": B{}, "same": ok1() && ok2() && ok3() && ints()}
	if res != nil {
		e["key"], e["s1"], e["s2"] = cp(res.Key), cp(res.S1), cp(res.S2)
	}
	c.Add(e)
	if out != "ok" {
		return nil
	}
	return res
}

func (c *Ctx) confirm(a, b []byte) bool {
	var res bool
	ab, ok1 := c.in("a", a, 3)
	bb, ok2 := c.in("b", b, 3)
	if a == nil {
		ab = nil
	}
	if b == nil {
		bb = nil
	}
	out, _ := Do(func() { res = sm2.ResponderConfirm(ab, bb) })
	c.Add(Ev{"op": "ResponderConfirm", "a": cp(a), "b": cp(b), "res": res, "out": out, "same": ok1() && ok2()})
	return res
}

// run is one undisturbed exchange.
func (c *Ctx) run(A, a, Bk, b *Key, idA, idB []byte, bits int) {
	rb := c.kx(false, side{st: Bk, eph: b, id: idB, ost: A.Pub, oeph: a.Pub, oid: idA, bits: bits}, nil)
	if rb == nil {
		return
	}
	ra := c.kx(true, side{st: A, eph: a, id: idA, ost: Bk.Pub, oeph: b.Pub, oid: idB, bits: bits}, rb.S1)
	if ra == nil {
		return
	}
	c.confirm(rb.S2, ra.S2)
}

func (c *Ctx) someBits() int {
	switch c.Rng.Intn(6) {
	case 0:
		return 1 + c.Rng.Intn(16)
	case 1:
		return 8 * (1 + c.Rng.Intn(100))
	case 2:
		return 256 + c.Rng.Intn(3) - 1
	default:
		return 1 + c.Rng.Intn(700)
	}
}

func driveC17(c *Ctx) {
	keys := c.specialKeys()
	any := func() *Key {
		if c.Rng.Intn(2) == 0 {
			return keys[c.Rng.Intn(len(keys))]
		}
		return c.randKey()
	}
	kid := func() []byte {
		if c.Rng.Intn(5) == 0 {
			return nil
		}
		return c.Content(c.Rng.Intn(50))
	}
	for t := 0; t < c.N(40, 800); t++ {
		c.Trace(func() { c.run(any(), any(), any(), any(), kid(), kid(), c.someBits()) })
	}
	// every key length around the blocks of the key derivation
	A, a, Bk, b := c.randKey(), c.randKey(), c.randKey(), c.randKey()
	for n := 1; n <= 530; n += 1 + c.Rng.Intn(c.N(40, 2)) {
		c.Trace(func() { c.run(A, a, Bk, b, []byte("Alice"), []byte("Bob"), n) })
	}
	for _, n := range []int{1, 7, 8, 9, 127, 128, 129, 136, 255, 256, 257, 264, 512, 513, 520, 768, 8 * 8160, 8*8160 + 1, 8 * 8192, 8*8192 + 3} {
		c.Trace(func() { c.run(A, a, Bk, b, []byte("Alice"), []byte("Bob"), n) })
	}
	// ids
	for _, n := range []int{0, 1, 16, 45, 46, 47, 63, 64, 255, 256, 8190, 8191} {
		c.Trace(func() {
			c.run(A, a, Bk, b, c.Content(n), c.Content(c.Rng.Intn(30)), 128)
			c.run(A, a, Bk, b, c.Content(c.Rng.Intn(30)), c.Content(n), 128)
		})
	}
	c.Trace(func() {
		c.run(A, a, Bk, b, nil, nil, 200)
		c.run(A, a, Bk, b, []byte{}, nil, 200)
		c.run(A, a, Bk, b, []byte("1234567812345678"), nil, 200)
	})
	for _, n := range []int{8192, 8193, 16384} {
		c.Trace(func() {
			s := side{st: Bk, eph: b, id: c.Content(n), ost: A.Pub, oeph: a.Pub, oid: []byte("x"), bits: 128}
			c.kx(false, s, nil)
			s.id, s.oid = s.oid, s.id
			c.kx(false, s, nil)
			c.kx(true, s, c.Bytes(32))
		})
	}
	// ephemeral and static points with short coordinates, and a shared point with short coordinates
	for i := 0; i < c.N(6, 60); i++ {
		c.Trace(func() {
			f := []func(x, y *big.Int) bool{shortX(1), shortY(1)}[i%2]
			sk := func() *Key { return keyOf(0, c.findScalar(stdCurve.Gx, stdCurve.Gy, f)) }
			c.run(sk(), a, Bk, b, []byte("Alice"), []byte("Bob"), 300)
			c.run(A, sk(), Bk, b, []byte("Alice"), []byte("Bob"), 300)
			c.run(A, a, sk(), b, []byte("Alice"), []byte("Bob"), 300)
			c.run(A, a, Bk, sk(), []byte("Alice"), []byte("Bob"), 300)
			// vary B's static key so that U has a short coordinate: U moves by multiples of [tA]G
			tA := tOf(A, a)
			ux, uy := sharedPoint(A, a, Bk, b)
			gx, gy := ecMul(stdCurve, tA, stdCurve.Gx, stdCurve.Gy)
			d := new(big.Int).Set(Bk.d)
			for !f(ux, uy) {
				ux, uy = ecAdd(stdCurve, ux, uy, gx, gy)
				d.Add(d, one)
			}
			if d.Cmp(nMinus(2)) <= 0 {
				c.run(A, a, keyOf(0, d), b, []byte("Alice"), []byte("Bob"), 300)
			}
		})
	}
	// likewise, with up to four leading zero octets: A's static key is chosen so that U = [tA tB]G is such a point
	for i := 0; i < c.N(9, 90); i++ {
		c.Trace(func() {
			sk := func() *Key { return keyOf(0, c.shortScalar(c.Rng.Intn(2) == 0, 2+i%3)) }
			switch i % 5 {
			case 0:
				c.run(sk(), a, Bk, b, []byte("Alice"), []byte("Bob"), 300)
			case 1:
				c.run(A, sk(), Bk, b, []byte("Alice"), []byte("Bob"), 300)
			case 2:
				c.run(A, a, sk(), b, []byte("Alice"), []byte("Bob"), 300)
			case 3:
				c.run(A, a, Bk, sk(), []byte("Alice"), []byte("Bob"), 300)
			}
			u := c.shortScalar(i%2 == 0, 2+i%3)
			d := modN(u.Mul(u, new(big.Int).ModInverse(tOf(Bk, b), stdN)))
			d = modN(bigSub(d, new(big.Int).Mul(xbar(a.x), a.d)))
			c.run(keyOf(0, d), a, Bk, b, []byte("Alice"), []byte("Bob"), 300)
		})
	}
	// runs of equal bits elsewhere: in x of the ephemeral keys, whose low 127 bits enter the computation, and in U
	var eph []*Key
	for _, o := range oddPoints {
		if o.kind[0] == 'x' {
			eph = append(eph, keyOf(0, c.oddAt(o.k)))
		}
	}
	c.Rng.Shuffle(len(eph), func(i, j int) { eph[i], eph[j] = eph[j], eph[i] })
	for i := 0; i+1 < len(eph); i += 2 {
		c.Trace(func() {
			a, b := eph[i], eph[i+1]
			u := c.oddScalar(false)
			d := modN(u.Mul(u, new(big.Int).ModInverse(tOf(Bk, b), stdN)))
			d = modN(bigSub(d, new(big.Int).Mul(xbar(a.x), a.d)))
			c.run(keyOf(0, d), a, Bk, b, []byte("Alice"), []byte("Bob"), 300)
		})
	}
	// the same key in several places, doubling inside the sum: PB = [x2]RB
	c.Trace(func() {
		c.run(A, a, A, a, []byte("Alice"), []byte("Alice"), 128)
		c.run(A, A, Bk, Bk, []byte("Alice"), []byte("Bob"), 128)
		d := modN(new(big.Int).Mul(xbar(b.x), b.d))
		c.run(A, a, keyOf(0, d), b, []byte("Alice"), []byte("Bob"), 128)
	})
	// keys that are equal or each other's inverse, in every combination of places, with equal and different ids
	k1, k2 := c.randKey(), c.randKey()
	rel := []*Key{k1, keyOf(0, bigSub(stdN, k1.d)), k2, keyOf(0, bigSub(stdN, k2.d))}
	for _, i := range c.Rng.Perm(256)[:c.N(48, 256)] {
		c.Trace(func() {
			ids := [][]byte{kid(), kid()}
			for _, j := range []int{0, 1} {
				c.run(rel[i&3], rel[i>>2&3], rel[i>>4&3], rel[i>>6&3], ids[0], ids[j], 128+i)
			}
		})
	}
}

func xbar(x *big.Int) *big.Int {
	w := new(big.Int).Lsh(one, 127)
	r := new(big.Int).And(x, bigSub(w, one))
	return r.Add(r, w)
}

func tOf(st, eph *Key) *big.Int {
	return modN(bigAdd(st.d, new(big.Int).Mul(xbar(eph.x), eph.d)))
}

func sharedPoint(A, a, Bk, b *Key) (x, y *big.Int) {
	qx, qy := ecMul(stdCurve, xbar(b.x), b.x, b.y)
	qx, qy = ecAdd(stdCurve, qx, qy, Bk.x, Bk.y)
	return ecMul(stdCurve, tOf(A, a), qx, qy)
}

func driveC18(c *Ctx) {
	A, a, Bk, b := c.randKey(), c.randKey(), c.randKey(), c.randKey()
	idA, idB := []byte("Alice"), []byte("Bob")
	sb := side{st: Bk, eph: b, id: idB, ost: A.Pub, oeph: a.Pub, oid: idA, bits: 128}
	sa := side{st: A, eph: a, id: idA, ost: Bk.Pub, oeph: b.Pub, oid: idB, bits: 128}
	// every bit of the tag, and other wrong tags
	var rb *sm2.ExchangeResult
	c.Trace(func() {
		rb = c.kx(false, sb, nil)
		if rb == nil {
			return
		}
		c.kx(true, sa, rb.S1)
		for _, t := range [][]byte{nil, {}, rb.S2, rb.Key, rb.S1[:31], rb.S1[1:], rb.S1[:1], append(cp(rb.S1), 0), append(cp(rb.S1), rb.S1...),
			append(B{0}, rb.S1...), make([]byte, 32), c.Bytes(32)} {
			c.kx(true, sa, t)
		}
	})
	if rb != nil {
		for bit := 0; bit < 8*len(rb.S1); bit += 1 + c.Rng.Intn(c.N(6, 1)) {
			c.Trace(func() { c.kx(true, sa, flip(rb.S1, bit)) })
		}
		// one input of the initiator differs
		c.Trace(func() {
			try := func(f func(s *side)) { s := sa; f(&s); c.kx(true, s, rb.S1) }
			neg := func(k *Key) *sm2.PublicKey { return pubAt(0, k.x, bigSub(stdP, k.y)) }
			try(func(s *side) { s.id = []byte("Alicf") })
			try(func(s *side) { s.id = nil })
			try(func(s *side) { s.oid = nil })
			try(func(s *side) { s.id, s.oid = s.oid, s.id })
			try(func(s *side) { s.id = []byte("AliceB"); s.oid = []byte("ob") })
			try(func(s *side) { s.st = c.randKey() })
			try(func(s *side) { s.eph = c.randKey() })
			try(func(s *side) { s.st, s.eph = s.eph, s.st })
			try(func(s *side) { s.ost = c.randKey().Pub })
			try(func(s *side) { s.oeph = c.randKey().Pub })
			try(func(s *side) { s.ost, s.oeph = s.oeph, s.ost })
			try(func(s *side) { s.ost = neg(Bk) })
			try(func(s *side) { s.oeph = neg(b) })
			try(func(s *side) { s.ost = neg(Bk); s.oeph = neg(b) })
			try(func(s *side) { s.st = keyOf(0, bigSub(stdN, A.d)) })
			try(func(s *side) { s.eph = keyOf(0, bigSub(stdN, a.d)) })
			try(func(s *side) { s.st = keyOf(0, bigSub(stdN, A.d)); s.eph = keyOf(0, bigSub(stdN, a.d)) })
			try(func(s *side) { s.bits = 777 })
			// roles: B's tag computed as if B had initiated
			c.kx(false, sa, nil)
			c.kx(false, sa, rb.S1)
			c.kx(true, sb, rb.S1)
		})
	}
	// tags are compared exactly
	c.Trace(func() {
		x := c.Bytes(32)
		for _, p := range [][2][]byte{{x, x}, {x, x[:31]}, {x[:31], x}, {x, append(cp(x), 0)}, {nil, nil}, {nil, {}}, {{}, {}}, {nil, x}, {x, nil}, {x[:1], x[:1]}, {x, {}}} {
			c.confirm(p[0], p[1])
		}
		for bit := 0; bit < 256; bit++ {
			c.confirm(x, flip(x, bit))
		}
	})
	// unusable points of the peer, on both sides
	z := new(big.Int)
	for i, p := range [][2]*big.Int{{z, z}, {one, one}, {bigAdd(b.x, stdP), b.y}, {b.x, bigAdd(b.y, stdP)}, {new(big.Int).Neg(b.x), b.y},
		{b.x, new(big.Int).Neg(b.y)}, {b.y, b.x}, {bigSub(b.x, stdP), b.y}, {flipInt(b.x, 3), b.y}, {b.x, flipInt(b.y, 200)}, {stdP, stdP}, {z, b.y}, {b.x, z},
		{bigAdd(b.x, new(big.Int).Lsh(stdP, 80)), b.y}} {
		bad := pubAt(0, p[0], p[1])
		c.Trace(func() {
			for _, init := range []bool{false, true} {
				s := sa
				s.ost = bad
				c.kx(init, s, c.Bytes(32))
				s = sa
				s.oeph = bad
				c.kx(init, s, c.Bytes(32))
				if i%4 == 0 {
					s.ost = bad
					c.kx(init, s, c.Bytes(32))
				}
			}
		})
	}
	// shared point at infinity: the peer chooses its static key as -[x2]RB, or the own side has tA = 0;
	// the tag is the one belonging to the point (0, 0) that represents infinity
	for t := 0; t < c.N(4, 40); t++ {
		c.Trace(func() {
			e := c.randKey()
			evil := keyOf(0, modN(new(big.Int).Neg(new(big.Int).Mul(xbar(e.x), e.d))))
			s := side{st: A, eph: a, id: idA, ost: evil.Pub, oeph: e.Pub, oid: idB, bits: 128}
			c.kx(false, s, nil)
			c.kx(true, s, infinityTag(A, a, evil, e, idA, idB))
			own := keyOf(0, modN(new(big.Int).Neg(new(big.Int).Mul(xbar(a.x), a.d))))
			s = side{st: own, eph: a, id: idA, ost: Bk.Pub, oeph: b.Pub, oid: idB, bits: 128}
			c.kx(false, s, nil)
			c.kx(true, s, infinityTag(own, a, Bk, b, idA, idB))
		})
	}
	// attacker scenarios enumerated by TLC from the protocol model
	scns := loadScenarios(c.Gen)
	c.Rng.Shuffle(len(scns), func(i, j int) { scns[i], scns[j] = scns[j], scns[i] })
	// those whose outcome is not just a wrong tag are rare: take runs close to the honest one first
	var near, far []map[string]string
	for _, s := range scns {
		if dist(s) <= 2 {
			near = append(near, s)
		} else {
			far = append(far, s)
		}
	}
	if n := c.N(120, len(far)); len(far) > n {
		far = far[:n]
	}
	if n := c.N(150, len(near)); len(near) > n {
		near = near[:n]
	}
	for _, s := range append([]map[string]string{honest}, append(near, far...)...) {
		c.Trace(func() { c.scenario(s) })
	}
}

var honest = map[string]string{"aPeer": "B", "aEph": "b1", "aId": "idB", "bPeer": "A", "bEph": "a1", "bId": "idA", "tag": "S1", "fin": "S2"}

func dist(s map[string]string) (n int) {
	for k, v := range honest {
		if s[k] != v {
			n++
		}
	}
	return
}

// infinityTag is the confirmation value an implementation would expect that takes infinity for the point (0, 0).
func infinityTag(A, a, Bk, b *Key, idA, idB []byte) []byte {
	z32 := make([]byte, 32)
	h := append([]byte(nil), z32...)
	h = append(h, ownZ(A, idA)...)
	h = append(h, ownZ(Bk, idB)...)
	for _, v := range []*big.Int{a.x, a.y, b.x, b.y} {
		h = append(h, pad32(v)...)
	}
	return sm3sum(append(append([]byte{2}, z32...), sm3sum(h)...))
}

func ownZ(k *Key, id []byte) []byte {
	h := []byte{byte(len(id) >> 5), byte(len(id) << 3)}
	h = append(h, id...)
	for _, v := range []*big.Int{stdCurve.A, stdCurve.B, stdCurve.Gx, stdCurve.Gy, k.x, k.y} {
		h = append(h, pad32(v)...)
	}
	return sm3sum(h)
}

// scenario replays one scenario of the protocol model with concrete keys.
func (c *Ctx) scenario(s map[string]string) {
	st := map[string]*Key{"A": c.randKey(), "B": c.randKey(), "E": c.randKey()}
	eph := map[string]*Key{}
	for _, n := range []string{"a0", "a1", "b0", "b1", "e1"} {
		eph[n] = c.randKey()
	}
	ids := map[string][]byte{"idA": []byte("Alice"), "idB": []byte("Bob"), "idE": []byte("Eve"), "nil": nil}
	mk := func(own, oe, id, peer, pe, pid string) side {
		return side{st: st[own], eph: eph[oe], id: ids[id], ost: st[peer].Pub, oeph: eph[pe].Pub, oid: ids[pid], bits: 160}
	}
	var old, oldA, forged *sm2.ExchangeResult
	if s["tag"] == "old" || s["fin"] == "old" {
		old = c.kx(false, mk("B", "b0", "idB", "A", "a0", "idA"), nil)
		if old == nil {
			return
		}
		oldA = c.kx(true, mk("A", "a0", "idA", "B", "b0", "idB"), old.S1)
		if oldA == nil {
			return
		}
	}
	if s["tag"] == "forged" {
		if forged = c.kx(false, mk("E", "e1", "idE", "A", "a1", "idA"), nil); forged == nil {
			return
		}
	}
	rb := c.kx(false, mk("B", "b1", "idB", s["bPeer"], s["bEph"], s["bId"]), nil)
	if rb == nil {
		return
	}
	var tag []byte
	switch s["tag"] {
	case "S1":
		tag = rb.S1
	case "S2":
		tag = rb.S2
	case "old":
		tag = old.S1
	case "forged":
		tag = forged.S1
	case "flip":
		tag = flip(rb.S1, c.Rng.Intn(256))
	}
	ra := c.kx(true, mk("A", "a1", "idA", s["aPeer"], s["aEph"], s["aId"]), tag)
	var fin []byte
	switch s["fin"] {
	case "S2":
		if ra != nil {
			fin = ra.S2
		}
	case "S1":
		fin = rb.S1
	case "old":
		fin = oldA.S2
	case "flip":
		fin = flip(rb.S2, c.Rng.Intn(256))
	}
	bacc := c.confirm(rb.S2, fin)
	c.Add(Ev{"op": "Session", "s": s, "bacc": bacc, "out": "ok"})
}

func loadScenarios(file string) (out []map[string]string) {
	if file == "" {
		return nil
	}
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var m map[string]string
		if json.Unmarshal(sc.Bytes(), &m) == nil && len(m) > 0 {
			out = append(out, m)
		}
	}
	return
}
