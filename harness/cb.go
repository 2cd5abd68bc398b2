package main

import (
	"bufio"
	"bytes"
	"encoding/asn1"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"time"

	cb "github.com/ZZMarquis/gm/cryptobyte"
	cbasn1 "github.com/ZZMarquis/gm/cryptobyte/asn1"
)

func init() {
	drivers["C26"] = driveC26
	drivers["C27"] = driveC27
	drivers["C28"] = driveC28
}

// ---------------------------------------------------------------- builder programs

// step is one call; opens have kids. "value" runs its kids inside AddValue.
type step struct {
	ev   Ev
	do   func(b *cb.Builder)
	kids []*step
}

type marshaler func(b *cb.Builder) error

func (m marshaler) Marshal(b *cb.Builder) error { return m(b) }

func (c *Ctx) announce(p []*step) {
	for _, s := range p {
		if s.ev != nil {
			c.Add(s.ev)
		}
		if s.kids != nil {
			c.announce(s.kids)
		}
		if s.ev != nil && s.ev["op"] == "Open" {
			c.Add(Ev{"op": "Close"})
		}
	}
}

func runSteps(b *cb.Builder, p []*step) {
	for _, s := range p {
		s.do(b)
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func (c *Ctx) sAddUint(n int, v uint32) *step {
	return &step{ev: Ev{"op": "AddUint", "n": n, "v": B{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}},
		do: func(b *cb.Builder) {
			switch n {
			case 1:
				b.AddUint8(uint8(v))
			case 2:
				b.AddUint16(uint16(v))
			case 3:
				b.AddUint24(v)
			case 4:
				b.AddUint32(v)
			}
		}}
}

func (c *Ctx) sAddBytes(v []byte) *step {
	via := c.Rng.Intn(4) == 0
	return &step{ev: Ev{"op": "AddBytes", "b": B(cp(v))}, do: func(b *cb.Builder) {
		w := cp(v)
		if via {
			b.AddValue(marshaler(func(b *cb.Builder) error { b.AddBytes(w); return nil }))
		} else {
			b.AddBytes(w)
		}
		scribble(w)
	}}
}

func (c *Ctx) sOpen(kind string, n int, kids []*step) *step {
	return &step{ev: Ev{"op": "Open", "kind": kind, "n": n}, kids: kids, do: func(b *cb.Builder) {
		f := func(ch *cb.Builder) { runSteps(ch, kids) }
		if kind == "asn1" {
			b.AddASN1(cbasn1.Tag(n), f)
			return
		}
		switch n {
		case 1:
			b.AddUint8LengthPrefixed(f)
		case 2:
			b.AddUint16LengthPrefixed(f)
		case 3:
			b.AddUint24LengthPrefixed(f)
		case 4:
			b.AddUint32LengthPrefixed(f)
		}
	}}
}

// sValue runs kids inside AddValue, which is transparent
func (c *Ctx) sValue(kids []*step) *step {
	return &step{kids: kids, do: func(b *cb.Builder) {
		b.AddValue(marshaler(func(b *cb.Builder) error { runSteps(b, kids); return nil }))
	}}
}

// sErr reports an error; inside tells whether a continuation is running
func (c *Ctx) sErr(inside bool) *step {
	k := c.Rng.Intn(4)
	if k == 3 && !inside {
		k = 0
	}
	return &step{ev: Ev{"op": "AddErr", "way": k}, do: func(b *cb.Builder) {
		switch k {
		case 0:
			b.AddValue(marshaler(func(b *cb.Builder) error { return errors.New("unset") }))
		case 1:
			b.AddValue(marshaler(func(b *cb.Builder) error { b.AddUint8(7); return errors.New("unset") }))
		case 2:
			b.MarshalASN1(3.25)
		case 3:
			panic(cb.BuildError{Err: errors.New("stop")})
		}
	}}
}

func (c *Ctx) sInt(tag int, v *big.Int) *step {
	return &step{ev: Ev{"op": "AddInt", "tag": tag, "v": Int(v)}, do: func(b *cb.Builder) {
		if tag == 10 {
			b.AddASN1Enum(v.Int64())
			return
		}
		switch k := c.Rng.Intn(4); {
		case k == 0 && v.IsInt64():
			b.AddASN1Int64(v.Int64())
		case k == 1 && v.IsUint64():
			b.AddASN1Uint64(v.Uint64())
		case k == 2:
			b.MarshalASN1(v)
		default:
			w := new(big.Int).Set(v)
			b.AddASN1BigInt(w)
			w.SetInt64(99)
		}
	}}
}

func oidEv(o asn1.ObjectIdentifier) []Ev {
	r := []Ev{}
	for _, x := range o {
		r = append(r, Int(big.NewInt(int64(x))))
	}
	return r
}

func (c *Ctx) sOID(o asn1.ObjectIdentifier) *step {
	return &step{ev: Ev{"op": "AddOID", "oid": oidEv(o)}, do: func(b *cb.Builder) { b.AddASN1ObjectIdentifier(o) }}
}

func timeEv(t time.Time) Ev {
	return Ev{"y": t.Year(), "mo": int(t.Month()), "d": t.Day(), "h": t.Hour(), "mi": t.Minute(), "s": t.Second()}
}

func (c *Ctx) sTime(t time.Time) *step {
	return &step{ev: Ev{"op": "AddTime", "t": timeEv(t)}, do: func(b *cb.Builder) { b.AddASN1GeneralizedTime(t) }}
}

func (c *Ctx) sOctets(v []byte) *step {
	return &step{ev: Ev{"op": "AddOctets", "b": B(cp(v))}, do: func(b *cb.Builder) { w := cp(v); b.AddASN1OctetString(w); scribble(w) }}
}
func (c *Ctx) sBits(v []byte) *step {
	return &step{ev: Ev{"op": "AddBits", "b": B(cp(v))}, do: func(b *cb.Builder) { w := cp(v); b.AddASN1BitString(w); scribble(w) }}
}
func (c *Ctx) sBool(v bool) *step {
	return &step{ev: Ev{"op": "AddBool", "v": v}, do: func(b *cb.Builder) { b.AddASN1Boolean(v) }}
}
func (c *Ctx) sNull() *step {
	return &step{ev: Ev{"op": "AddNull"}, do: func(b *cb.Builder) { b.AddASN1NULL() }}
}

func (c *Ctx) boundaryInt() *big.Int {
	x := new(big.Int)
	switch c.Rng.Intn(6) {
	case 0:
		x.SetInt64(int64(c.Rng.Intn(600) - 300))
	case 1, 2: // +-2^k + e
		x.Lsh(big.NewInt(1), uint(c.Rng.Intn(70)))
		x.Add(x, big.NewInt(int64(c.Rng.Intn(5)-2)))
	case 3:
		x.SetBytes(c.Bytes(c.Rng.Intn(10)))
	case 4:
		x.SetBytes(c.Content(c.Rng.Intn(140)))
	case 5:
		x.Lsh(big.NewInt(1), uint(8*c.Rng.Intn(140)+7*c.Rng.Intn(2)))
		x.Sub(x, big.NewInt(int64(c.Rng.Intn(3))))
	}
	if c.Rng.Intn(2) == 0 {
		x.Neg(x)
	}
	return x
}

func (c *Ctx) someOID() asn1.ObjectIdentifier {
	o := asn1.ObjectIdentifier{c.Rng.Intn(3), c.Rng.Intn(40)}
	if o[0] == 2 && c.Rng.Intn(2) == 0 {
		o[1] = c.Rng.Intn(1000)
	}
	if o[0] == 2 && c.Rng.Intn(6) == 0 {
		o[1] = []int{47, 48, 127, 128, 16303, 16304, math.MaxInt32 - 81, math.MaxInt32 - 80, math.MaxInt32 - 79, math.MaxInt32}[c.Rng.Intn(10)]
	}
	for n := c.Rng.Intn(6); n > 0; n-- {
		k := uint(7 * c.Rng.Intn(6))
		v := []int{0, 1, 39, 40, 127, 128, 1<<k - 1, 1 << k, 1<<k + 1, math.MaxInt32, c.Rng.Intn(1 << 31), 1 << uint(c.Rng.Intn(31))}[c.Rng.Intn(12)]
		o = append(o, v)
	}
	return o
}

func (c *Ctx) badOID() asn1.ObjectIdentifier {
	return []asn1.ObjectIdentifier{nil, {}, {1}, {3, 1}, {0, 40}, {1, 40, 5}, {1, -1}, {-1, 3}, {1, 2, -5}, {2, 5, 4, -1, 3}, {0, 1000}, {4, 0}}[c.Rng.Intn(12)]
}

func (c *Ctx) someTime() time.Time {
	y := []int{0, 1, 4, 99, 100, 400, 999, 1000, 1583, 1899, 1900, 1949, 1950, 1970, 1999, 2000, 2024, 2049, 2050, 2100, 9999, 1600 + c.Rng.Intn(800)}[c.Rng.Intn(22)]
	mo := 1 + c.Rng.Intn(12)
	d := 1 + c.Rng.Intn(31)
	if c.Rng.Intn(3) == 0 {
		mo, d = 2, 28+c.Rng.Intn(2)
	}
	t := time.Date(y, time.Month(mo), d, c.Rng.Intn(24), c.Rng.Intn(60), c.Rng.Intn(60), 0, time.UTC)
	if t.Year() > 9999 {
		t = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
	}
	return t
}

func (c *Ctx) lenAround() int {
	switch c.Rng.Intn(10) {
	case 0, 1:
		return 120 + c.Rng.Intn(16)
	case 2:
		return 250 + c.Rng.Intn(12)
	default:
		return c.Rng.Intn(12)
	}
}

func (c *Ctx) randLeaf(inside bool, errs int) *step {
	if errs > 0 && c.Rng.Intn(100) < errs {
		switch c.Rng.Intn(4) {
		case 0:
			return c.sOID(c.badOID())
		case 1:
			return c.sTime(time.Date([]int{-1, 10000, -400, 12345}[c.Rng.Intn(4)], 5, 6, 7, 8, 9, 0, time.UTC))
		default:
			return c.sErr(inside)
		}
	}
	switch c.Rng.Intn(16) {
	case 0, 1, 2, 3:
		return c.sAddUint(1+c.Rng.Intn(4), c.Rng.Uint32()>>uint(c.Rng.Intn(32)))
	case 4, 5, 6, 7, 8:
		return c.sAddBytes(c.Content(c.lenAround()))
	case 9:
		return c.sInt(2, c.boundaryInt())
	case 10:
		return c.sInt(10, big.NewInt(c.Rng.Int63()>>uint(c.Rng.Intn(63))-c.Rng.Int63()>>uint(c.Rng.Intn(63))))
	case 11:
		return c.sOID(c.someOID())
	case 12:
		return c.sOctets(c.Content(c.lenAround()))
	case 13:
		return c.sBits(c.Content(c.lenAround()))
	case 14:
		return c.sTime(c.someTime())
	default:
		if c.Rng.Intn(2) == 0 {
			return c.sNull()
		}
		return c.sBool(c.Rng.Intn(2) == 0)
	}
}

var someTags = []int{0x30, 0x31, 0x02, 0x04, 0x05, 0x80, 0xa0, 0xa1, 0xa3, 0x1e, 0xde, 0x9e, 0x00, 0x60}

func (c *Ctx) randOpen(depth int, errs int, inside bool, n *int) *step {
	if c.Rng.Intn(9) == 0 {
		return c.sValue(c.randProg(depth-1, errs, inside, n))
	}
	kids := c.randProg(depth-1, errs, true, n)
	switch c.Rng.Intn(9) {
	case 0, 1, 2:
		return c.sOpen("lp", 1+c.Rng.Intn(4), kids)
	case 3:
		if errs > 0 && c.Rng.Intn(4) == 0 {
			return c.sOpen("asn1", []int{0x1f, 0x3f, 0x9f, 0xff, 0xbf}[c.Rng.Intn(5)], kids)
		}
		fallthrough
	default:
		return c.sOpen("asn1", someTags[c.Rng.Intn(len(someTags))], kids)
	}
}

func (c *Ctx) randProg(depth, errs int, inside bool, n *int) []*step {
	p := []*step{}
	for k := c.Rng.Intn(5); k > 0 && *n > 0; k-- {
		*n--
		if depth > 0 && c.Rng.Intn(5) < 3 {
			p = append(p, c.randOpen(depth, errs, inside, n))
		} else {
			p = append(p, c.randLeaf(inside, errs))
		}
	}
	return p
}

// build runs one program on a growing builder (capacity < 0) or a fixed one.
// spare is the unused capacity behind init of a growing builder.
func (c *Ctx) build(init []byte, capacity, spare int, p []*step, zero bool) (res []byte) {
	fixed := capacity >= 0
	c.Add(Ev{"op": "NewBuilder", "init": B(init), "fixed": fixed, "cap": capacity})
	c.announce(p)
	room := len(init) + spare
	if fixed {
		room = capacity
	}
	back := c.Bytes(8 + room + 40)
	buf := back[8 : 8+len(init) : 8+room]
	copy(buf, init)
	head, tail := cp(back[:8+len(init)]), cp(back[8+room:])
	var b *cb.Builder
	switch {
	case fixed:
		b = cb.NewFixedBuilder(buf)
	case zero && len(init) == 0:
		b = new(cb.Builder)
	default:
		b = cb.NewBuilder(buf)
	}
	var r, r2 []byte
	out := DoErr(func() error {
		runSteps(b, p)
		var err error
		r, err = b.Bytes()
		return err
	})
	bop := ""
	if out != "panic" {
		bop, _ = Do(func() { r2 = b.BytesOrPanic() })
	}
	same := string(back[:len(head)]) == string(head) && string(back[8+room:]) == string(tail)
	c.Add(Ev{"op": "Result", "out": out, "r": B(r), "same": same, "bop": bop, "r2": B(r2),
		"inplace": len(r) == 0 || &r[0] == &back[8]})
	return cp(r)
}

func held(p []*step) int { // a rough upper bound of the size of a program, to choose capacities
	n := 0
	for _, s := range p {
		n += 8
		if b, ok := s.ev["b"].(B); ok {
			n += len(b)
		}
		n += held(s.kids)
	}
	return n
}

func (c *Ctx) fromTokens(ts []string) []*step {
	var stack [][]*step
	var opens []string
	cur := []*step{}
	for _, t := range ts {
		switch t {
		case "u8":
			cur = append(cur, c.sAddUint(1, c.Rng.Uint32()))
		case "u16":
			cur = append(cur, c.sAddUint(2, c.Rng.Uint32()))
		case "u24":
			cur = append(cur, c.sAddUint(3, c.Rng.Uint32()))
		case "empty":
			cur = append(cur, c.sAddBytes(nil))
		case "bytes":
			cur = append(cur, c.sAddBytes(c.Bytes(3)))
		case "int":
			cur = append(cur, c.sInt(2, big.NewInt(int64(c.Rng.Intn(400)-200))))
		case "bool":
			cur = append(cur, c.sBool(c.Rng.Intn(2) == 0))
		case "oid":
			cur = append(cur, c.sOID(asn1.ObjectIdentifier{1, 2, 3}))
		case "err":
			cur = append(cur, c.sErr(len(opens) > 0))
		case "close":
			k := cur
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			o := opens[len(opens)-1]
			opens = opens[:len(opens)-1]
			switch o {
			case "asn":
				cur = append(cur, c.sOpen("asn1", 0x30, k))
			case "high":
				cur = append(cur, c.sOpen("asn1", 0x3f, k))
			default:
				cur = append(cur, c.sOpen("lp", int(o[2]-'0'), k))
			}
		default:
			stack = append(stack, cur)
			opens = append(opens, t)
			cur = []*step{}
		}
	}
	return cur
}

func loadPrograms(file string) (out [][]string) {
	if file == "" {
		return nil
	}
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var m []string
		if json.Unmarshal(sc.Bytes(), &m) == nil && len(m) > 0 {
			out = append(out, m)
		}
	}
	return
}

func (c *Ctx) bigPart(kind string, w, n, capacity int) {
	c.Add(Ev{"op": "NewBuilder", "init": B{}, "fixed": false, "cap": -1})
	var b *cb.Builder
	var back []byte
	if capacity >= 0 {
		back = make([]byte, capacity+8)
		for i := range back[capacity:] {
			back[capacity+i] = 0xAA
		}
		b = cb.NewFixedBuilder(back[:0:capacity])
	} else {
		b = cb.NewBuilder(nil)
	}
	var r []byte
	out := DoErr(func() error {
		f := func(ch *cb.Builder) { ch.AddBytes(make([]byte, n)) }
		switch {
		case kind == "asn1":
			b.AddASN1(cbasn1.Tag(w), f)
		case w == 1:
			b.AddUint8LengthPrefixed(f)
		case w == 2:
			b.AddUint16LengthPrefixed(f)
		case w == 3:
			b.AddUint24LengthPrefixed(f)
		case w == 4:
			b.AddUint32LengthPrefixed(f)
		}
		var err error
		r, err = b.Bytes()
		return err
	})
	h := len(r) - n
	if h < 0 {
		h = 0
	}
	hdr := r[:h]
	if len(hdr) > 12 {
		hdr = hdr[:12]
	}
	z := true
	for _, x := range r[h:] {
		z = z && x == 0
	}
	same := true
	if capacity >= 0 {
		for _, x := range back[capacity:] {
			same = same && x == 0xAA
		}
	}
	c.Add(Ev{"op": "BigPart", "kind": kind, "w": w, "n": n, "cap": capacity, "out": out, "hdr": B(cp(hdr)), "total": len(r), "zeros": z, "same": same})
}

func driveC26(c *Ctx) {
	// every program TLC enumerated, growing and with every capacity around its size
	progs := loadPrograms(c.Gen)
	c.Rng.Shuffle(len(progs), func(i, j int) { progs[i], progs[j] = progs[j], progs[i] })
	for _, ts := range progs {
		p := c.fromTokens(ts)
		c.Trace(func() {
			r := c.build(nil, -1, c.Rng.Intn(3), p, c.Rng.Intn(2) == 0)
			n := len(r)
			if n == 0 {
				n = c.Rng.Intn(6)
			}
			k := c.Rng.Intn(3)
			c.build(c.Bytes(k), k+n, 0, p, false) // exactly enough
			if n > 0 {
				c.build(nil, n-1, 0, p, false)
				c.build(c.Bytes(1), c.Rng.Intn(n)+1, 0, p, false)
			}
			c.build(c.Bytes(2), n+2+c.Rng.Intn(9), 0, p, false)
			c.build(c.Bytes(3), -1, c.Rng.Intn(2*n+2), p, false)
		})
	}
	// random programs, with lengths around every boundary
	for i := 0; i < c.N(1200, 20000); i++ {
		errs := 0
		if i%3 == 0 {
			errs = 6
		}
		n := 4 + c.Rng.Intn(20)
		p := c.randProg(1+c.Rng.Intn(6), errs, false, &n)
		c.Trace(func() {
			r := c.build(c.Content(c.Rng.Intn(4)), -1, c.Rng.Intn(40), p, true)
			switch c.Rng.Intn(3) {
			case 0:
				c.build(nil, len(r), 0, p, false)
			case 1:
				c.build(nil, c.Rng.Intn(held(p)+1), 0, p, false)
			case 2:
				if len(r) > 0 {
					c.build(nil, len(r)-1, 0, p, false)
				}
			}
		})
	}
	// a chain of nested parts whose sizes cross the header boundaries one after the other
	for n := 100; n < 300; n += 1 + c.Rng.Intn(3) {
		n := n
		c.Trace(func() {
			p := []*step{c.sAddBytes(c.Bytes(n))}
			for k := 0; k < 6; k++ {
				q := []*step{c.sOpen("asn1", 0x30, p)}
				if c.Rng.Intn(2) == 0 {
					q = append(q, c.sAddUint(1, 7))
				}
				if c.Rng.Intn(2) == 0 {
					q = append([]*step{c.sAddBytes(c.Bytes(c.Rng.Intn(3)))}, q...)
				}
				p = q
			}
			r := c.build(nil, -1, 0, p, true)
			c.build(nil, len(r), 0, p, false)
			c.build(nil, len(r)-1, 0, p, false)
		})
	}
	for n := 250; n < 262; n++ {
		n := n
		for w := 1; w <= 4; w++ {
			w := w
			c.Trace(func() { c.build(nil, -1, 0, []*step{c.sOpen("lp", w, []*step{c.sAddBytes(c.Bytes(n))})}, true) })
		}
	}
	// long parts
	for _, n := range []int{65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
		for w := 1; w <= 4; w++ {
			c.Trace(func() { c.bigPart("lp", w, n, -1) })
		}
		c.Trace(func() { c.bigPart("asn1", 0x30, n, -1) })
		for d := -1; d <= 6; d++ {
			c.Trace(func() { c.bigPart("asn1", 0x30, n, n+d) })
			c.Trace(func() { c.bigPart("lp", 1+c.Rng.Intn(4), n, n+d) })
		}
	}
	// writing to the parent while a child is open
	for i := 0; i < c.N(60, 400); i++ {
		c.Trace(func() {
			n := 6
			var parent *cb.Builder
			before, inner, after := c.randProg(1, 0, false, &n), c.randProg(1, 0, true, &n), c.randProg(1, 0, true, &n)
			bad := &step{ev: Ev{"op": "ParentWrite"}, do: func(*cb.Builder) { parent.AddUint8(1) }}
			kids := append(append(append([]*step{}, inner...), bad), after...)
			o := c.sOpen([]string{"lp", "asn1"}[i%2], []int{2, 0x30}[i%2], kids)
			grab := &step{do: func(b *cb.Builder) { parent = b }}
			c.build(nil, []int{-1, 4000}[c.Rng.Intn(2)], 0, append(append([]*step{grab}, before...), o), true)
		})
	}
}

// ---------------------------------------------------------------- strings

type reader struct {
	c    *Ctx
	s    cb.String
	back []byte
	snap []byte
}

// newReader puts b in front of other octets, which no read may see.
func (c *Ctx) newReader(b, behind []byte) *reader {
	back := append(append(append(c.Bytes(3), b...), behind...), c.Bytes(5)...)
	r := &reader{c: c, back: back, snap: cp(back)}
	if r.s = cb.String(back[3 : 3+len(b)]); len(b) == 0 && c.Rng.Intn(2) == 0 {
		r.s = nil
	}
	c.Add(Ev{"op": "NewString", "b": B(cp(b))})
	return r
}

func (r *reader) do(op string, e Ev, f func() bool) (res bool) {
	out, _ := Do(func() { res = f() })
	e["op"], e["out"], e["res"] = op, out, res
	e["rest"] = B(cp(r.s))
	e["same"] = string(r.back) == string(r.snap) && r.c.held()
	r.c.Add(e)
	return
}

// hold watches memory that belongs to the caller from now on: what earlier reads returned, default values and what
// the variables that are set referred to before. held tells whether all of it is as it was.
func (c *Ctx) hold(ok func() bool) {
	if len(c.holds) == 24 {
		c.holds = append(c.holds[:0], c.holds[12:]...)
	}
	c.holds = append(c.holds, ok)
}
func (c *Ctx) held() bool {
	for _, ok := range c.holds {
		if !ok() {
			return false
		}
	}
	return true
}
func (c *Ctx) junk() []byte {
	g := cp(garbage)
	c.hold(Watch(g))
	return g
}
func (c *Ctx) holdOID(v asn1.ObjectIdentifier) {
	w := append(asn1.ObjectIdentifier(nil), v...)
	c.hold(func() bool { return v.Equal(w) })
}

var garbage = []byte{0xde, 0xad, 0xbe, 0xef, 0x5a}

// the specification's integers have 32 bits; larger counts mean the same
func clamp(n int) int {
	if n > math.MaxInt32 {
		return math.MaxInt32
	}
	if n < -math.MaxInt32 {
		return -math.MaxInt32
	}
	return n
}

func (r *reader) skip(n int) { r.do("Skip", Ev{"n": clamp(n)}, func() bool { return r.s.Skip(n) }) }
func (r *reader) empty()     { r.do("Empty", Ev{}, func() bool { return r.s.Empty() }) }
func (r *reader) peek(tag int) {
	r.do("Peek", Ev{"tag": tag}, func() bool { return r.s.PeekASN1Tag(cbasn1.Tag(tag)) })
}
func (r *reader) uint(n int) {
	e := Ev{"n": n}
	r.do("ReadUint", e, func() bool {
		v, ok := uint32(0xdeadbeef), false
		switch n {
		case 1:
			x := uint8(0x5a)
			ok = r.s.ReadUint8(&x)
			v = uint32(x)
		case 2:
			x := uint16(0x5a5a)
			ok = r.s.ReadUint16(&x)
			v = uint32(x)
		case 3:
			ok = r.s.ReadUint24(&v)
		case 4:
			ok = r.s.ReadUint32(&v)
		}
		e["val"] = B{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
		return ok
	})
}
func (r *reader) bytes(n int) {
	e := Ev{"n": n}
	r.do("ReadBytes", e, func() bool {
		v := []byte(r.c.junk())
		ok := r.s.ReadBytes(&v, n)
		e["val"] = B(cp(v))
		r.c.hold(Watch(v))
		return ok
	})
}
func (r *reader) copyBytes(n int) {
	e := Ev{"n": n}
	r.do("CopyBytes", e, func() bool {
		v := r.c.Bytes(n)
		ok := r.s.CopyBytes(v)
		e["val"] = B(v)
		return ok
	})
}
func (r *reader) lp(n int) (ch []byte, ok bool) {
	e := Ev{"n": n}
	ok = r.do("ReadLP", e, func() bool {
		v := cb.String(r.c.junk())
		ok := false
		switch n {
		case 1:
			ok = r.s.ReadUint8LengthPrefixed(&v)
		case 2:
			ok = r.s.ReadUint16LengthPrefixed(&v)
		case 3:
			ok = r.s.ReadUint24LengthPrefixed(&v)
		}
		e["val"] = B(cp(v))
		ch = cp(v)
		return ok
	})
	return
}
func (r *reader) tlv(any, element bool, tag int) (ch []byte, ok bool) {
	e := Ev{"any": any, "element": element, "tag": tag}
	ok = r.do("ReadTLV", e, func() bool {
		v := cb.String(r.c.junk())
		t := cbasn1.Tag(0x77)
		ok := false
		switch {
		case any && element:
			ok = r.s.ReadAnyASN1Element(&v, &t)
		case any:
			ok = r.s.ReadAnyASN1(&v, &t)
		case element:
			ok = r.s.ReadASN1Element(&v, cbasn1.Tag(tag))
		case r.c.Rng.Intn(2) == 0:
			ok = r.s.ReadASN1(&v, cbasn1.Tag(tag))
		default:
			ok = r.s.ReadASN1Bytes((*[]byte)(&v), cbasn1.Tag(tag))
		}
		e["val"], e["gottag"] = B(cp(v)), int(t)
		ch = cp(v)
		return ok
	})
	return
}
func (r *reader) anyNoTag() {
	e := Ev{"any": true, "element": false, "tag": 0}
	r.do("ReadTLV", e, func() bool {
		var v cb.String
		save := r.s
		ok := r.s.ReadAnyASN1(&v, nil) // the tag may be dropped
		e["val"], e["gottag"] = B(cp(v)), 0
		if len(save) > 0 {
			e["gottag"] = int(save[0])
		}
		return ok
	})
}
func (r *reader) skipTLV(optional bool, tag int) {
	r.do("SkipTLV", Ev{"optional": optional, "tag": tag}, func() bool {
		if optional {
			return r.s.SkipOptionalASN1(cbasn1.Tag(tag))
		}
		return r.s.SkipASN1(cbasn1.Tag(tag))
	})
}
func (r *reader) optional(tag int) {
	e := Ev{"tag": tag}
	nilp := r.c.Rng.Intn(4) == 0
	r.do("ReadOptional", e, func() bool {
		v := cb.String(r.c.junk())
		present := r.c.Rng.Intn(2) == 0
		ok := false
		if nilp {
			present = r.s.PeekASN1Tag(cbasn1.Tag(tag))
			ok = r.s.ReadOptionalASN1(&v, nil, cbasn1.Tag(tag))
		} else {
			ok = r.s.ReadOptionalASN1(&v, &present, cbasn1.Tag(tag))
		}
		e["val"], e["present"] = B(cp(v)), present
		return ok
	})
}

var intKinds = map[string]interface{}{
	"int8": int8(0x5a), "int16": int16(0x5a5a), "int32": int32(0x5a5a5a5a), "int64": int64(0x5a5a5a5a5a5a5a5a), "int": int(0x5a5a5a5a5a5a5a5a),
	"uint8": uint8(0xa5), "uint16": uint16(0xa5a5), "uint32": uint32(0xa5a5a5a5), "uint64": uint64(0xa5a5a5a5a5a5a5a5), "uint": uint(0xa5a5a5a5a5a5a5a5),
	"big": nil,
}
var intKindNames = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "big"}

// callers have integer types of their own, of the same kinds
type (
	namedI8  int8
	namedI16 int16
	namedI32 int32
	namedI64 int64
	namedI   int
	namedU8  uint8
	namedU16 uint16
	namedU32 uint32
	namedU64 uint64
	namedU   uint
)

var namedKinds = map[string]interface{}{"int8": namedI8(0), "int16": namedI16(0), "int32": namedI32(0), "int64": namedI64(0), "int": namedI(0),
	"uint8": namedU8(0), "uint16": namedU16(0), "uint32": namedU32(0), "uint64": namedU64(0), "uint": namedU(0)}

// target makes a pointer to a variable of the given kind, of a type with a name of its own or not, set to v
func target(kind string, named bool, v *big.Int) interface{} {
	if kind == "big" {
		return new(big.Int).Set(v)
	}
	p := reflect.New(reflect.TypeOf(intKinds[kind]))
	if named {
		p = reflect.New(reflect.TypeOf(namedKinds[kind]))
	}
	if kind[0] == 'u' {
		p.Elem().SetUint(v.Uint64())
	} else {
		p.Elem().SetInt(v.Int64())
	}
	return p.Interface()
}
func valueOf(p interface{}) *big.Int {
	if b, ok := p.(*big.Int); ok {
		return b
	}
	e := reflect.ValueOf(p).Elem()
	switch e.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(e.Uint())
	}
	return big.NewInt(e.Int())
}

func (r *reader) int(kind string) {
	e := Ev{"kind": kind}
	r.do("ReadInt", e, func() bool {
		p := target(kind, r.c.Rng.Intn(3) == 0, big.NewInt(77))
		ok := r.s.ReadASN1Integer(p)
		e["val"] = Int(valueOf(p))
		r.c.hold(watchInts(valueOf(p)))
		return ok
	})
}
func (r *reader) enum() {
	e := Ev{"kind": "int"}
	r.do("ReadEnum", e, func() bool {
		v := 77
		ok := r.s.ReadASN1Enum(&v)
		e["val"] = Int(big.NewInt(int64(v)))
		return ok
	})
}
func (r *reader) boolean() {
	e := Ev{}
	r.do("ReadBool", e, func() bool {
		v := r.c.Rng.Intn(2) == 0
		ok := r.s.ReadASN1Boolean(&v)
		e["val"] = v
		return ok
	})
}
func (r *reader) optBool(def bool) {
	e := Ev{"def": def}
	r.do("ReadOptBool", e, func() bool {
		v := r.c.Rng.Intn(2) == 0
		ok := r.s.ReadOptionalASN1Boolean(&v, def)
		e["val"] = v
		return ok
	})
}
func (r *reader) oid() {
	e := Ev{}
	r.do("ReadOID", e, func() bool {
		v := asn1.ObjectIdentifier{9, 9}
		r.c.holdOID(v)
		ok := r.s.ReadASN1ObjectIdentifier(&v)
		l := []B{}
		for _, x := range v {
			l = append(l, B(big.NewInt(int64(x)).Bytes()))
		}
		e["val"] = l
		r.c.holdOID(v)
		return ok
	})
}
func (r *reader) bits() {
	e := Ev{}
	r.do("ReadBits", e, func() bool {
		v := asn1.BitString{Bytes: r.c.junk(), BitLength: 40}
		ok := r.s.ReadASN1BitString(&v)
		e["val"], e["bits"] = B(cp(v.Bytes)), v.BitLength
		r.c.hold(Watch(v.Bytes))
		return ok
	})
}
func (r *reader) bitsAsBytes() {
	e := Ev{}
	r.do("ReadBitsAsBytes", e, func() bool {
		v := []byte(r.c.junk())
		ok := r.s.ReadASN1BitStringAsBytes(&v)
		e["val"] = B(cp(v))
		r.c.hold(Watch(v))
		return ok
	})
}
func (r *reader) time() {
	e := Ev{}
	r.do("ReadTime", e, func() bool {
		v := time.Date(1977, 7, 7, 7, 7, 7, 0, time.UTC)
		ok := r.s.ReadASN1GeneralizedTime(&v)
		_, off := v.Zone()
		e["val"], e["off"] = timeEv(v), off/60
		return ok
	})
}
func (r *reader) optInt(kind string, tag int, def *big.Int) {
	e := Ev{"kind": kind, "tag": tag, "def": Int(def)}
	r.do("ReadOptInt", e, func() bool {
		named := r.c.Rng.Intn(3) == 0
		p := target(kind, named, big.NewInt(77))
		d := target(kind, named, def)
		var di interface{} = d
		if kind == "big" {
			r.c.hold(watchInts(d.(*big.Int)))
		} else {
			di = reflect.ValueOf(d).Elem().Interface()
		}
		ok := r.s.ReadOptionalASN1Integer(p, cbasn1.Tag(tag), di)
		e["val"] = Int(valueOf(p))
		if v, big := p.(*big.Int); big && r.c.Rng.Intn(2) == 0 {
			v.SetBit(v, 0, 1^v.Bit(0)) // the caller goes on with its variable
		}
		return ok
	})
}
func (r *reader) optOctets(tag int) {
	e := Ev{"tag": tag}
	nilp := r.c.Rng.Intn(4) == 0
	r.do("ReadOptOctets", e, func() bool {
		v := []byte(r.c.junk())
		present := r.c.Rng.Intn(2) == 0
		ok := false
		if nilp {
			present = r.s.PeekASN1Tag(cbasn1.Tag(tag))
			ok = r.s.ReadOptionalASN1OctetString(&v, nil, cbasn1.Tag(tag))
		} else {
			ok = r.s.ReadOptionalASN1OctetString(&v, &present, cbasn1.Tag(tag))
		}
		e["val"], e["present"] = B(cp(v)), present
		return ok
	})
}

// randRead makes one random read, knowing the tag that comes next with some probability.
func (r *reader) randRead(depth int) {
	c := r.c
	tag := someTags[c.Rng.Intn(len(someTags))]
	if len(r.s) > 0 && c.Rng.Intn(4) > 0 {
		tag = int(r.s[0])
	}
	var ch []byte
	var ok bool
	switch c.Rng.Intn(24) {
	case 0:
		r.skip([]int{0, 1, 2, len(r.s), len(r.s) + 1, -1, math.MinInt64, math.MaxInt64}[c.Rng.Intn(8)])
	case 1:
		r.uint(1 + c.Rng.Intn(4))
	case 2:
		r.bytes([]int{0, 1, 3, len(r.s), len(r.s) + 1, -1, -7}[c.Rng.Intn(7)])
	case 3:
		r.copyBytes([]int{0, 1, 3, len(r.s), len(r.s) + 1}[c.Rng.Intn(5)])
	case 4, 5:
		ch, ok = r.lp(1 + c.Rng.Intn(3))
	case 6, 7, 8, 9:
		ch, ok = r.tlv(c.Rng.Intn(3) == 0, c.Rng.Intn(3) == 0, tag)
	case 10:
		r.peek(tag)
		r.empty()
	case 11:
		r.skipTLV(c.Rng.Intn(2) == 0, tag)
	case 12:
		r.optional(tag)
	case 13:
		r.int(intKindNames[c.Rng.Intn(11)])
	case 14:
		r.enum()
	case 15:
		r.boolean()
	case 16:
		r.optBool(c.Rng.Intn(2) == 0)
	case 17:
		r.oid()
	case 18:
		r.bits()
	case 19:
		r.bitsAsBytes()
	case 20:
		r.time()
	case 21:
		r.optInt(intKindNames[c.Rng.Intn(11)], tag, big.NewInt(int64(c.Rng.Intn(100))))
	case 22:
		r.optOctets(tag)
	case 23:
		r.anyNoTag()
	}
	if ok && depth > 0 && len(ch) > 0 && c.Rng.Intn(2) == 0 {
		x := c.newReader(ch, c.Bytes(2))
		for n := 0; n < 4; n++ {
			x.randRead(depth - 1)
		}
		c.Add(Ev{"op": "NewString", "b": B(cp(r.s))})
	}
}

// every read on a fresh string
func (c *Ctx) allReads(b, behind []byte, which int) {
	tag := 2
	if len(b) > 0 {
		tag = int(b[0])
	}
	ops := []func(r *reader){
		func(r *reader) { r.tlv(true, false, 0) },
		func(r *reader) { r.tlv(true, true, 0) },
		func(r *reader) { r.tlv(false, false, tag) },
		func(r *reader) { r.tlv(false, true, tag) },
		func(r *reader) { r.skipTLV(false, tag) },
		func(r *reader) { r.skipTLV(true, tag) },
		func(r *reader) { r.optional(tag) },
		func(r *reader) { r.lp(1) },
		func(r *reader) { r.lp(2) },
		func(r *reader) { r.lp(3) },
		func(r *reader) { r.uint(1); r.uint(2) },
		func(r *reader) { r.uint(3); r.uint(1) },
		func(r *reader) { r.uint(4); r.empty() },
		func(r *reader) { r.skip(2); r.bytes(1) },
		func(r *reader) { r.peek(tag); r.bytes(2); r.copyBytes(1) },
		func(r *reader) { r.int("int8") },
		func(r *reader) { r.int("uint8") },
		func(r *reader) { r.int("big") },
		func(r *reader) { r.boolean() },
		func(r *reader) { r.optBool(true) },
		func(r *reader) { r.oid() },
		func(r *reader) { r.bits() },
		func(r *reader) { r.bitsAsBytes() },
		func(r *reader) { r.enum() },
		func(r *reader) { r.optInt("uint8", tag, big.NewInt(5)) },
		func(r *reader) { r.optOctets(tag) },
		func(r *reader) { r.time() },
	}
	for i, f := range ops {
		if which < 0 || (i+which)%9 == 0 {
			f(c.newReader(b, behind))
		}
	}
}

func driveC27(c *Ctx) {
	// every short string over an alphabet of interesting octets, every read
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x1f, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff}
	var rec func(p []byte, n int)
	k := 0
	rec = func(p []byte, n int) {
		c.Trace(func() {
			which := -1
			if len(p) >= 3 && !c.Thorough() {
				which = k
			}
			k++
			c.allReads(p, c.Bytes(c.Rng.Intn(6)), which)
		})
		if n == 0 {
			return
		}
		for _, x := range alpha {
			rec(append(cp(p), x), n-1)
		}
	}
	rec(nil, 3)
	if c.Thorough() {
		alpha = []byte{0x00, 0x01, 0x02, 0x30, 0x7f, 0x80, 0x81, 0x82, 0xff}
		rec(nil, 4)
	}
	// what a builder wrote, read back; then cut, extended and with lengths changed
	for i := 0; i < c.N(700, 9000); i++ {
		var enc []byte
		c.Trace(func() {
			n := 10
			enc = c.build(nil, -1, 0, c.randProg(3, 0, false, &n), true)
			r := c.newReader(enc, c.Bytes(9))
			for j := 0; j < 10; j++ {
				r.randRead(2)
			}
		})
		if len(enc) == 0 {
			continue
		}
		for j := 0; j < 3; j++ {
			c.Trace(func() {
				cut := c.Rng.Intn(len(enc) + 1)
				r := c.newReader(enc[:cut], enc[cut:]) // the missing part lies right behind
				for j := 0; j < 6; j++ {
					r.randRead(2)
				}
			})
			c.Trace(func() {
				m := cp(enc)
				m[c.Rng.Intn(len(m))] ^= byte(1 << uint(c.Rng.Intn(8)))
				if c.Rng.Intn(2) == 0 && len(m) > 1 {
					m[1] = []byte{0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0xff, 0}[c.Rng.Intn(8)]
				}
				r := c.newReader(m, c.Bytes(20))
				for j := 0; j < 6; j++ {
					r.randRead(2)
				}
			})
		}
	}
	// the header forms of one element, with exact, missing and surplus content
	for _, n := range []int{0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 300, 65535, 65536} {
		content := c.Bytes(n)
		for _, hdr := range headers(n) {
			for _, d := range []int{0, -1, 1, -2} {
				if n+d < 0 || (n > 1000 && !c.Thorough() && (d != 0 && d != -1 || hdr[0] < 0x82 || hdr[0] > 0x83)) {
					continue
				}
				body := append(cp(content), 0x05)
				body = body[:n+d]
				s := append(append([]byte{0x30}, hdr...), body...)
				c.Trace(func() {
					c.newReader(s, content).tlv(true, c.Rng.Intn(2) == 0, 0)
					if n < 1000 {
						c.newReader(s, content).tlv(false, c.Rng.Intn(2) == 0, 0x30)
						c.newReader(s, content).skipTLV(true, 0x30)
						c.newReader(s, content).optional(0x30)
					}
				})
			}
		}
		// length prefixes
		for w := 1; w <= 3; w++ {
			for _, d := range []int{0, -1, 1} {
				if n+d < 0 || n > 1000 && d != 0 && !c.Thorough() {
					continue
				}
				p := make([]byte, w)
				x := n
				for i := w - 1; i >= 0; i-- {
					p[i] = byte(x)
					x >>= 8
				}
				body := append(cp(content), 0x05)[:n+d]
				c.Trace(func() { c.newReader(append(p, body...), content).lp(w) })
			}
		}
	}
	c.bigReads()
}

// bigReads reads elements of up to 2^24 octets and more. They are all the same memory, whose octet i is pat(i).
func (c *Ctx) bigReads() {
	const off, most = 16, 1<<24 + 64
	buf := make([]byte, off+most)
	pat := func(i int) byte { return byte(i ^ i>>8*7 ^ i>>16*13) }
	for i := range buf {
		buf[i] = pat(i)
	}
	read := func(head []byte, avail, hl int, how string, tag, n int) {
		b := buf[off-len(head):]
		copy(b, head)
		total := len(head) + avail
		b = b[:total:total]
		begin := B(cp(b[:least(8, total)]))
		s := cb.String(b)
		is := func(x []byte, at int) bool {
			if len(x) > len(b)-at {
				return false
			}
			return bytes.Equal(x, b[at:at+len(x)])
		}
		var out []byte
		var v cb.String
		t := cbasn1.Tag(0x77)
		var res, present bool
		r, _ := Do(func() {
			switch how {
			case "lp":
				switch n {
				case 1:
					res = s.ReadUint8LengthPrefixed(&v)
				case 2:
					res = s.ReadUint16LengthPrefixed(&v)
				case 3:
					res = s.ReadUint24LengthPrefixed(&v)
				}
				out = v
			case "bytes":
				res = s.ReadBytes(&out, n)
			case "skip":
				res = s.Skip(n)
			case "any":
				res = s.ReadAnyASN1(&v, &t)
				out = v
			case "anyelement":
				res = s.ReadAnyASN1Element(&v, &t)
				out = v
			case "asn1":
				res = s.ReadASN1(&v, cbasn1.Tag(tag))
				out = v
			case "element":
				res = s.ReadASN1Element(&v, cbasn1.Tag(tag))
				out = v
			case "skipasn1":
				res = s.SkipASN1(cbasn1.Tag(tag))
			case "optional":
				res = s.ReadOptionalASN1(&v, &present, cbasn1.Tag(tag))
				out = v
			}
		})
		at := -1
		if is(out, hl) {
			at = hl
		} else if is(out, 0) {
			at = 0
		}
		rest := []byte(s)
		same := bytes.Equal(b[:len(head)], head)
		for i := off; i < len(buf); i += 1 + c.Rng.Intn(64) {
			same = same && buf[i] == pat(i)
		}
		c.Add(Ev{"op": "BigRead", "how": how, "head": begin, "total": total, "n": n, "tag": tag, "res": res, "out": r, "len": len(out), "at": at,
			"rest": len(rest), "restok": len(rest) <= len(b) && is(rest, len(b)-len(rest)), "gottag": int(t), "present": present, "same": same})
	}
	for _, n := range []int{65535, 65536, 1<<23 - 1, 1 << 23, 1<<23 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 5} {
		for _, d := range []int{0, 1, -1} {
			c.Trace(func() {
				p := []byte{byte(n >> 16), byte(n >> 8), byte(n)}
				if n < 1<<24 {
					read(p, n+d, 3, "lp", 0, 3)
				}
				read([]byte{p[1], p[2]}, n&0xffff+d+1, 2, "lp", 0, 2)
				read(nil, n+d, 0, "bytes", 0, n)
				read(nil, n+d, 0, "skip", 0, n)
				for i, h := range headers(n) {
					how := []string{"any", "anyelement", "asn1", "element", "skipasn1", "optional"}
					for j, w := range how {
						if len(h) < 7 && (c.Thorough() || j == i%6 || len(h) == 1+len(big.NewInt(int64(n)).Bytes())) {
							read(append([]byte{0x30}, h...), n+d, 1+len(h), w, 0x30, 0)
						}
					}
				}
			})
		}
	}
}

// headers: the length octets for n, minimal and not
func headers(n int) [][]byte {
	var out [][]byte
	if n < 128 {
		out = append(out, []byte{byte(n)})
	}
	for w := 1; w <= 5; w++ {
		h := []byte{0x80 | byte(w)}
		for i := w - 1; i >= 0; i-- {
			if i > 3 {
				h = append(h, 0)
			} else {
				h = append(h, byte(uint32(n)>>uint(8*i)))
			}
		}
		out = append(out, h)
	}
	out = append(out, []byte{0x80}, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, []byte{0x84, 0xff, 0xff, 0xff, 0xfa}, []byte{0x84, 0x80, 0, 0, byte(n)},
		[]byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x88, 0, 0, 0, 0, 0, 0, 0, byte(n)}, []byte{0xff})
	return out
}

// ---------------------------------------------------------------- ASN.1 values

func tlvBytes(tag byte, content []byte) []byte {
	return append(append([]byte{tag}, derLen(len(content))...), content...)
}

func driveC28(c *Ctx) {
	follow := func() []byte { return c.Bytes(c.Rng.Intn(3)) }
	// integers of every size, written and read into every type
	ints := []*big.Int{}
	for k := 0; k <= 66; k++ {
		for e := -2; e <= 2; e++ {
			x := new(big.Int).Lsh(big.NewInt(1), uint(k))
			x.Add(x, big.NewInt(int64(e)))
			ints = append(ints, x, new(big.Int).Neg(x))
		}
	}
	for i := 0; i < c.N(150, 2000); i++ {
		ints = append(ints, c.boundaryInt())
	}
	for _, x := range ints {
		x := x
		c.Trace(func() {
			enc := c.build(nil, -1, 0, []*step{c.sInt(2, x)}, true)
			f := follow()
			for j := 0; j < 4; j++ {
				k := intKindNames[c.Rng.Intn(11)]
				if j == 0 {
					k = []string{"int64", "uint64", "big"}[c.Rng.Intn(3)]
				}
				c.newReader(append(cp(enc), f...), nil).int(k)
			}
			if x.IsInt64() {
				enc = c.build(nil, -1, 0, []*step{c.sInt(10, x)}, true)
				c.newReader(append(cp(enc), f...), nil).enum()
			}
			// explicitly tagged, optional
			tag := someTags[c.Rng.Intn(len(someTags))]
			enc = c.build(nil, -1, 0, []*step{c.sOpen("asn1", tag, []*step{c.sInt(2, x)})}, true)
			c.newReader(append(cp(enc), f...), nil).optInt(intKindNames[c.Rng.Intn(11)], tag, big.NewInt(3))
			c.newReader(append(cp(enc), f...), nil).optInt(intKindNames[c.Rng.Intn(11)], tag^1, big.NewInt(4))
		})
	}
	// every content of one octet and many of two, minimal or not
	for v := 0; v < 256; v++ {
		v := v
		c.Trace(func() {
			for _, k := range []string{"int8", "uint8", "int64", "big"} {
				c.newReader(append([]byte{2, 1, byte(v)}, follow()...), nil).int(k)
			}
			c.newReader([]byte{10, 1, byte(v)}, nil).enum()
			c.newReader([]byte{1, 1, byte(v)}, nil).boolean()
			c.newReader([]byte{1, 1, byte(v)}, nil).optBool(v%2 == 0)
			c.newReader([]byte{6, 1, byte(v)}, nil).oid()
			c.newReader([]byte{3, 1, byte(v)}, nil).bits()
			c.newReader([]byte{3, 2, byte(v), 0x80}, nil).bits()
			c.newReader([]byte{3, 2, byte(v), 0}, nil).bits()
			c.newReader([]byte{3, 2, 3, byte(v)}, nil).bits()
			c.newReader([]byte{3, 2, byte(v), 0x40}, nil).bitsAsBytes()
		})
	}
	for hi := 0; hi < 256; hi++ {
		hi := hi
		c.Trace(func() {
			los := []int{0, 1, 0x7f, 0x80, 0x81, 0xff, c.Rng.Intn(256)}
			if c.Thorough() {
				los = nil
				for lo := 0; lo < 256; lo++ {
					los = append(los, lo)
				}
			}
			for _, lo := range los {
				s := []byte{2, 2, byte(hi), byte(lo)}
				c.newReader(s, nil).int(intKindNames[c.Rng.Intn(11)])
				c.newReader(s, nil).int([]string{"int8", "uint8", "int16", "uint16", "big"}[c.Rng.Intn(5)])
				c.newReader([]byte{10, 2, byte(hi), byte(lo)}, nil).enum()
				c.newReader([]byte{6, 2, byte(hi), byte(lo)}, nil).oid()
				c.newReader([]byte{1, 2, byte(hi), byte(lo)}, nil).boolean()
			}
		})
	}
	// longer contents at the edges of the types, with and without padding octets
	for i := 0; i < c.N(400, 5000); i++ {
		c.Trace(func() {
			n := 1 + c.Rng.Intn(11)
			v := c.Content(n)
			v[0] = []byte{0, 0, 0xff, 0x7f, 0x80, 1, v[0]}[c.Rng.Intn(7)]
			if n > 1 && c.Rng.Intn(2) == 0 {
				v[1] = []byte{0, 0x7f, 0x80, 0xff}[c.Rng.Intn(4)]
			}
			s := tlvBytes(2, v)
			for _, k := range intKindNames {
				c.newReader(s, nil).int(k)
			}
			s[0] = 10
			c.newReader(s, nil).enum()
			tag := 0xa0 + c.Rng.Intn(4)
			s[0] = 2
			extra := [][]byte{nil, nil, {0}, {2, 1, 0}, {5, 0}}[c.Rng.Intn(5)]
			c.newReader(tlvBytes(byte(tag), append(s, extra...)), follow()).optInt(intKindNames[c.Rng.Intn(11)], tag, big.NewInt(9))
		})
	}
	// wrong tags and empty contents
	for tag := 0; tag < 256; tag++ {
		tag := tag
		c.Trace(func() {
			for _, v := range [][]byte{{}, {0}, {0xff}, {0, 0x80}, []byte("20200102030405Z")} {
				s := tlvBytes(byte(tag), v)
				b := func() *reader { return c.newReader(s, follow()) }
				b().int("int64")
				b().enum()
				b().boolean()
				b().optBool(true)
				b().oid()
				b().bits()
				b().bitsAsBytes()
				b().time()
				b().optInt("int", 0xa0, big.NewInt(1))
				b().optOctets(0xa0)
			}
		})
	}
	// long values
	for _, n := range append([]int{135, 136, 144, 200, 255, 256, 257, 262, 263, 264, 300, 384, 400}, bigSizes...) {
		if n > 70000 {
			continue
		}
		n -= c.Rng.Intn(8)
		c.Trace(func() {
			v := c.Content(n)
			x := new(big.Int).SetBytes(v)
			for _, y := range []*big.Int{x, new(big.Int).Neg(x)} {
				enc := c.build(nil, -1, 0, []*step{c.sInt(2, y)}, true)
				c.newReader(append(cp(enc), follow()...), nil).int("big")
				if n < 2000 {
					enc = c.build(nil, -1, 0, []*step{c.sOpen("asn1", 0xa1, []*step{c.sInt(2, y)})}, true)
					c.newReader(append(cp(enc), follow()...), nil).optInt("big", 0xa1, big.NewInt(3))
				}
			}
			c.newReader(append(c.build(nil, -1, 0, []*step{c.sOctets(v)}, true), follow()...), nil).tlv(false, false, 4)
			enc := c.build(nil, -1, 0, []*step{c.sOpen("asn1", 0xa1, []*step{c.sOctets(v)})}, true)
			c.newReader(append(cp(enc), follow()...), nil).optOctets(0xa1)
			enc = c.build(nil, -1, 0, []*step{c.sBits(v)}, true)
			c.newReader(append(cp(enc), follow()...), nil).bits()
			c.newReader(append(cp(enc), follow()...), nil).bitsAsBytes()
		})
	}
	for i := 0; i < c.N(12, 100); i++ {
		c.Trace(func() {
			o := asn1.ObjectIdentifier{c.Rng.Intn(3), c.Rng.Intn(40)}
			for k := []int{14, 40, 126, 127, 128, 130, 255, 300, 600}[c.Rng.Intn(9)] + c.Rng.Intn(3); k > 0; k-- {
				o = append(o, c.Rng.Intn(1<<uint([]int{3, 7, 8, 15, 31}[c.Rng.Intn(5)])))
			}
			enc := c.build(nil, -1, 0, []*step{c.sOID(o)}, true)
			c.newReader(append(cp(enc), follow()...), nil).oid()
		})
	}
	// octet strings, bit strings, booleans
	for i := 0; i < c.N(200, 2000); i++ {
		c.Trace(func() {
			v := c.Content(c.lenAround())
			enc := c.build(nil, -1, 0, []*step{c.sOctets(v)}, true)
			c.newReader(append(cp(enc), follow()...), nil).tlv(false, false, 4)
			tag := 0xa0 + c.Rng.Intn(3)
			enc = c.build(nil, -1, 0, []*step{c.sOpen("asn1", tag, []*step{c.sOctets(v)})}, true)
			c.newReader(append(cp(enc), follow()...), nil).optOctets(tag)
			c.newReader(append(cp(enc), follow()...), nil).optOctets(tag + 1)
			c.newReader(tlvBytes(byte(tag), append(tlvBytes(4, v), []byte{0, 5}[c.Rng.Intn(2)])), nil).optOctets(tag)
			c.newReader(tlvBytes(byte(tag), tlvBytes(3, v)), nil).optOctets(tag)
			enc = c.build(nil, -1, 0, []*step{c.sBits(v)}, true)
			c.newReader(append(cp(enc), follow()...), nil).bits()
			c.newReader(append(cp(enc), follow()...), nil).bitsAsBytes()
			w := append([]byte{byte(c.Rng.Intn(9))}, v...)
			if len(v) > 0 && c.Rng.Intn(3) > 0 {
				w[len(w)-1] &= byte(0xff << uint(c.Rng.Intn(8)))
			}
			c.newReader(append(tlvBytes(3, w), follow()...), nil).bits()
			c.newReader(append(tlvBytes(3, w), follow()...), nil).bitsAsBytes()
			enc = c.build(nil, -1, 0, []*step{c.sBool(i%2 == 0), c.sNull(), c.sBool(i%3 == 0)}, true)
			r := c.newReader(append(cp(enc), follow()...), nil)
			r.boolean()
			r.optBool(true)
			r.skipTLV(i%2 == 0, 5)
			r.optBool(i%2 == 0)
			r.optBool(i%2 == 0)
		})
	}
	// object identifiers
	for i := 0; i < c.N(600, 8000); i++ {
		c.Trace(func() {
			o := c.someOID()
			enc := c.build(nil, -1, 0, []*step{c.sOID(o)}, true)
			c.newReader(append(cp(enc), follow()...), nil).oid()
			c.build(nil, -1, 0, []*step{c.sOID(c.badOID())}, true)
			// arbitrary sub-identifiers
			v := []byte{}
			for n := c.Rng.Intn(4); n >= 0; n-- {
				k := c.Rng.Intn(7)
				for ; k > 0; k-- {
					v = append(v, []byte{0x80, 0x81, 0x87, 0x88, 0x8f, 0x90, 0xff, 0x80 | byte(c.Rng.Intn(128))}[c.Rng.Intn(8)])
				}
				if c.Rng.Intn(12) > 0 {
					v = append(v, byte(c.Rng.Intn(128)))
				}
			}
			c.newReader(tlvBytes(6, v), follow()).oid()
		})
	}
	for _, v := range [][]byte{{0x87, 0xff, 0xff, 0xff, 0x7f}, {0x88, 0x80, 0x80, 0x80, 0}, {0x88, 0x80, 0x80, 0x80, 0x4f}, {0x87, 0xff, 0xff, 0xff, 0xff, 0x7f},
		{0x2a, 0x87, 0xff, 0xff, 0xff, 0x7f}, {0x2a, 0x88, 0x80, 0x80, 0x80, 0}, {0x2a, 0x8f, 0xff, 0xff, 0xff, 0x7f}, {0x2a, 0x90, 0x80, 0x80, 0x80, 0},
		{0x2a, 0x81, 0x80, 0x80, 0x80, 0}, {0x80, 1}, {0x2a, 0x80, 1}, {0x2a, 0x80}, {0x2a, 0xff}, {0x4f}, {0x50}, {0x27}, {0x28}, {0x81, 0x34}} {
		v := v
		c.Trace(func() { c.newReader(tlvBytes(6, v), follow()).oid() })
	}
	// times
	for i := 0; i < c.N(500, 6000); i++ {
		c.Trace(func() {
			t := c.someTime()
			enc := c.build(nil, -1, 0, []*step{c.sTime(t)}, true)
			c.newReader(append(cp(enc), follow()...), nil).time()
			v := cp(enc[2:])
			switch c.Rng.Intn(6) {
			case 0: // some field
				k := c.Rng.Intn(7)
				copy(v[2*k:], fmt.Sprintf("%02d", []int{0, 1, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 99}[c.Rng.Intn(15)]))
			case 1:
				v[c.Rng.Intn(len(v))] = []byte("0 9:-+Zz.,/a\x00\xff")[c.Rng.Intn(14)]
			case 2:
				v = v[:c.Rng.Intn(len(v))]
			case 3:
				v = append(v[:14], []string{"", "Z0", "+0000", "-0000", "+0800", "-0130", "+2400", "+9999", ".5Z", ".0Z", ".Z", ",5Z", "z", "+08", "+08:00", "ZZ", " Z"}[c.Rng.Intn(17)]...)
			case 4: // without seconds, two-digit year
				v = [][]byte{v[2:], append(cp(v[:12]), 'Z'), append(cp(v[:10]), 'Z'), append([]byte("0"), v...)}[c.Rng.Intn(4)]
			case 5: // days of a month
				copy(v[4:], fmt.Sprintf("%02d%02d", 1+c.Rng.Intn(12), 28+c.Rng.Intn(5)))
			}
			c.newReader(tlvBytes(24, v), follow()).time()
			if i%4 == 0 {
				c.build(nil, -1, 0, []*step{c.sTime(time.Date([]int{-1, 10000, 10001, -9999}[c.Rng.Intn(4)], 1, 1, 0, 0, 0, 0, time.UTC))}, true)
				off := []int{480, -60, 90, 1, -1439, 720}[c.Rng.Intn(6)]
				lt := t.In(time.FixedZone("", off*60))
				var r []byte
				out := DoErr(func() error {
					b := cb.NewBuilder(nil)
					b.AddASN1GeneralizedTime(lt)
					var err error
					r, err = b.Bytes()
					return err
				})
				c.Add(Ev{"op": "ZonedPart", "t": timeEv(t), "lt": timeEv(lt), "off": off, "out": out, "r": B(r)})
			}
		})
	}
}
