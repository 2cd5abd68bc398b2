package main

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/sm3"
	"github.com/ZZMarquis/gm/sm4"
	"github.com/ZZMarquis/gm/util"
)

func init() { drivers["C30"] = driveC30 }

// A store is the caller's memory: byte arrays, integers and larger objects, in numbered cells. Arguments of
// calls are cells or windows of cells, so that they may overlap; after every call the whole store is recorded.
type store struct {
	c     *Ctx
	cells []*cell
	ret   [][]byte // byte slices returned by the latest call
	reti  []*big.Int
	past  []func() // the calls so far
	kept  []int    // cells that are results of earlier calls

	failed bool        // the random source failed during the latest call
	pre    func() bool // whether the next call may be made with the present values

	signed arg // a message, and the cells of its signature by the first key
	r, s   int
}

// functions whose value the specification gives
var valued = map[string]bool{"Add": true, "Sub": true, "Mul": true, "Mod": true, "ModInverse": true, "Lsh": true, "SetBit": true, "And": true,
	"IsEcPointInfinity": true, "ZForAffine": true, "Sum": true, "PKCS5Padding": true, "ZeroPadding": true, "ECBEncrypt": true, "ECBDecrypt": true,
	"CBCEncrypt": true, "CBCDecrypt": true, "CalculatePubKey": true, "PubBytes": true, "PrivBytes": true, "VerifyByRS": true, "MarshalSign": true,
	"ResponderConfirm": true, "Verify": true, "Decrypt": true, "MarshalCipher": true, "UnmarshalCipher": true, "UnmarshalSign": true,
	"Sign": true, "SignToRS": true, "Encrypt": true, "Issue": true, "CreateCert": true}

type cell struct {
	b   []byte
	x   *big.Int
	obj []interface{}
}

func (x *cell) ev() Ev {
	switch {
	case x.obj != nil:
		return Ev{"k": "o", "neg": false, "v": B(sm3sum([]byte(dumps(x.obj...))))}
	case x.x != nil:
		return intVal(x.x)
	default:
		return Ev{"k": "b", "neg": false, "v": cp(x.b)}
	}
}
func intVal(x *big.Int) Ev { return Ev{"k": "i", "neg": x.Sign() < 0, "v": B(x.Bytes())} }

func (s *store) put(x *cell) int {
	s.cells = append(s.cells, x)
	s.c.Add(Ev{"op": "Put", "v": x.ev()})
	return len(s.cells)
}
func (s *store) bytes(b []byte, spare int) int {
	return s.put(&cell{b: append(append(make([]byte, 0, len(b)+spare), b...), s.c.Bytes(spare)...)})
}
func (s *store) int(x *big.Int) int { return s.put(&cell{x: x}) }
func (s *store) obj(o ...interface{}) int {
	return s.put(&cell{obj: o})
}
func (s *store) after() []Ev {
	r := []Ev{}
	for _, x := range s.cells {
		r = append(r, x.ev())
	}
	return r
}

// arguments
type arg struct{ c, o, n int }

func (s *store) win(a arg) []byte {
	if a.c < 0 {
		return nil
	}
	return s.cells[a.c-1].b[a.o : a.o+a.n]
}
func (s *store) val(i int) *big.Int { return s.cells[i-1].x }
func cellArg(i int) arg             { return arg{i, 0, 0} }
func num(n int) arg                 { return arg{0, n, 0} }

var nilArg = arg{-1, 0, 0}

// some window of a cell: n bytes, or any number if n < 0
func (s *store) window(i, n int) arg {
	l := len(s.cells[i-1].b)
	if n < 0 {
		n = s.c.Rng.Intn(l + 1)
	}
	return arg{i, s.c.Rng.Intn(l - n + 1), n}
}

// call records one call: what it returned, and the store afterwards. f returns byte slices, integers, booleans, ints, strings.
func (s *store) call(fn string, args []arg, f func() ([]interface{}, error)) {
	if s.c.dead {
		return
	}
	pre := s.pre
	s.pre = nil
	s.past = append(s.past, func() {
		if pre == nil || pre() {
			s.once(fn, args, f)
		}
	})
	if pre != nil && !pre() {
		return
	}
	s.once(fn, args, f)
	s.keep()
	if s.c.Rng.Intn(3) == 0 {
		defer s.repeat()
	}
}

// keep makes results of the latest call, up to their capacity, cells of the store: no later call may change
// them, nor may a change of another result or of an argument. From time to time a kept result is changed.
func (s *store) keep() {
	if len(s.kept) > 0 && s.c.Rng.Intn(4) == 0 {
		s.set(pickOf(s.c, s.kept))
	}
	if s.c.dead || len(s.kept) >= 6 || s.c.Rng.Intn(3) > 0 {
		return
	}
	for _, b := range s.ret {
		if cap(b) > 0 && cap(b) <= 4096 {
			s.kept = append(s.kept, s.put(&cell{b: b[:cap(b)]}))
		}
	}
	for _, x := range s.reti {
		s.kept = append(s.kept, s.put(&cell{x: x}))
	}
	s.ret, s.reti = nil, nil // the caller's from now on: not overwritten as a whole
}

// repeat makes some earlier call again.
func (s *store) repeat() {
	s.scribble(false)
	if len(s.past) > 0 {
		pickOf(s.c, s.past)()
	}
}

func (s *store) once(fn string, args []arg, f func() ([]interface{}, error)) {
	if s.c.dead {
		return
	}
	var r []interface{}
	s.failed = false
	out := DoErr(func() (err error) { r, err = f(); return })
	as := []Ev{}
	for _, a := range args {
		as = append(as, Ev{"c": a.c, "o": a.o, "n": a.n})
	}
	ret := []Ev{}
	s.ret, s.reti = nil, nil
	for _, x := range r {
		switch v := x.(type) {
		case []byte:
			ret = append(ret, Ev{"k": "b", "neg": false, "v": cp(v)})
			s.ret = append(s.ret, v)
		case *big.Int:
			if v == nil {
				ret = append(ret, Ev{"k": "nil", "neg": false, "v": B{}})
				continue
			}
			ret = append(ret, intVal(v))
			s.reti = append(s.reti, v)
		case bool:
			n := byte(0)
			if v {
				n = 1
			}
			ret = append(ret, Ev{"k": "s", "neg": false, "v": B{n}})
		case string:
			ret = append(ret, Ev{"k": "o", "neg": false, "v": B(sm3sum([]byte(v)))})
		}
	}
	s.c.Add(Ev{"op": "Call", "fn": fn, "args": as, "ret": ret, "out": out, "after": s.after(), "full": valued[fn] && out == "ok", "failed": s.failed})
}

// scribble overwrites what the latest call returned, which belongs to the caller, up to its capacity.
func (s *store) scribble(ints bool) {
	if s.c.dead {
		return
	}
	for _, b := range s.ret {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	if ints {
		for _, x := range s.reti {
			w := x.Bits()
			w = w[:cap(w)]
			for i := range w {
				w[i] ^= 0x5a5a5a
			}
		}
	}
	s.ret, s.reti = nil, nil
	s.c.Add(Ev{"op": "Scribble", "after": s.after()})
}

// set overwrites cell i in place: the caller's memory has new contents, at the old address.
func (s *store) set(i int) {
	if s.c.dead {
		return
	}
	x := s.cells[i-1]
	switch {
	case x.obj != nil:
		switch t := x.obj[0].(type) {
		case *x509.Certificate:
			*t = *s.c.someTemplate()
		case *x509.CertificateRequest:
			*t = *s.c.someCSR()
		}
	case x.x != nil:
		switch s.c.Rng.Intn(4) {
		case 0:
			x.x.SetBit(x.x, s.c.Rng.Intn(x.x.BitLen()+2), 1)
		case 1:
			x.x.Neg(x.x)
		default:
			x.x.SetBytes(s.c.Content(s.c.Rng.Intn(40)))
		}
	default:
		if len(x.b) > 0 && s.c.Rng.Intn(2) == 0 {
			x.b[s.c.Rng.Intn(len(x.b))] ^= 1 << uint(s.c.Rng.Intn(8))
		} else {
			copy(x.b, s.c.Content(len(x.b)))
		}
	}
	s.c.Add(Ev{"op": "Set", "c": i, "v": x.ev(), "after": s.after()})
}

// setInt is set with a given value.
func (s *store) setInt(i int, v *big.Int) {
	if s.c.dead {
		return
	}
	x := s.cells[i-1]
	x.x.Set(v)
	s.c.Add(Ev{"op": "Set", "c": i, "v": x.ev(), "after": s.after()})
}

func (s *store) setKey(k skey, to *Key) {
	s.setInt(k.d, to.d)
	s.setInt(k.x, to.x)
	s.setInt(k.y, to.y)
}

func (c *Ctx) newStore() *store {
	s := &store{c: c}
	cv := sm2.GetSm2P256V1()
	for _, x := range curveInts(cv) {
		s.int(x)
	}
	return s
}

type rs = []interface{}

func (s *store) utilCall(ints []int) {
	c := s.c
	a, b := pickOf(c, ints), pickOf(c, ints)
	x, y := s.val(a), s.val(b)
	ab := []arg{cellArg(a), cellArg(b)}
	switch c.Rng.Intn(11) {
	case 0:
		s.call("Add", ab, func() ([]interface{}, error) { return rs{util.Add(x, y)}, nil })
	case 1:
		s.call("Sub", ab, func() ([]interface{}, error) { return rs{util.Sub(x, y)}, nil })
	case 2:
		s.call("Mul", ab, func() ([]interface{}, error) { return rs{util.Mul(x, y)}, nil })
	case 3, 4:
		if y.Sign() > 0 {
			s.pre = func() bool { return y.Sign() > 0 }
			s.call("Mod", ab, func() ([]interface{}, error) { return rs{util.Mod(x, y)}, nil })
		}
	case 5:
		s.pre = func() bool {
			return y.Cmp(one) > 0 && new(big.Int).GCD(nil, nil, new(big.Int).Mod(x, y), y).Cmp(one) == 0
		}
		if s.pre() {
			s.call("ModInverse", ab, func() ([]interface{}, error) { return rs{util.ModInverse(x, y)}, nil })
		}
	case 6:
		n := []int{0, 1, 7, 8, 9, 31, 32, 63, 64, 65, 200}[c.Rng.Intn(11)]
		s.call("Lsh", []arg{cellArg(a), num(n)}, func() ([]interface{}, error) { return rs{util.Lsh(x, uint(n))}, nil })
	case 7:
		n := []int{0, 1, 7, 8, 63, 64, 65, 127, 200, least(x.BitLen(), 255), c.Rng.Intn(least(x.BitLen(), 255) + 1)}[c.Rng.Intn(11)]
		v := c.Rng.Intn(2)
		s.call("SetBit", []arg{cellArg(a), num(n), num(v)}, func() ([]interface{}, error) { return rs{util.SetBit(x, n, uint(v))}, nil })
	case 8:
		s.call("And", ab, func() ([]interface{}, error) { return rs{util.And(x, y)}, nil })
	case 9:
		s.call("IsEcPointInfinity", ab, func() ([]interface{}, error) { return rs{util.IsEcPointInfinity(x, y)}, nil })
	case 10:
		s.call("ZForAffine", ab, func() ([]interface{}, error) { return rs{util.ZForAffine(x, y)}, nil })
	}
}

func (s *store) symCall(mem int) {
	c := s.c
	l := len(s.cells[mem-1].b)
	key, iv := s.window(mem, 16), s.window(mem, 16)
	m := s.window(mem, 16*c.Rng.Intn(l/16+1))
	switch c.Rng.Intn(12) {
	case 0:
		key = s.window(mem, 15)
	case 1:
		iv = s.window(mem, c.Rng.Intn(15))
	case 2:
		m = s.window(mem, -1)
	case 3:
		iv = key
	case 4:
		m = arg{key.c, key.o, 16}
	}
	switch c.Rng.Intn(9) {
	case 0, 1, 2, 3, 4, 5:
		op := modeOps[c.Rng.Intn(4)]
		as := []arg{key, m}
		if op[0] == 'C' {
			as = []arg{key, iv, m}
		}
		s.call(op, as, func() (r []interface{}, err error) {
			var o []byte
			switch op {
			case "ECBEncrypt":
				o, err = sm4.ECBEncrypt(s.win(key), s.win(m))
			case "ECBDecrypt":
				o, err = sm4.ECBDecrypt(s.win(key), s.win(m))
			case "CBCEncrypt":
				o, err = sm4.CBCEncrypt(s.win(key), s.win(iv), s.win(m))
			case "CBCDecrypt":
				o, err = sm4.CBCDecrypt(s.win(key), s.win(iv), s.win(m))
			}
			return rs{o}, err
		})
		if c.Rng.Intn(2) == 0 {
			s.scribble(false)
		}
	case 6:
		m = s.window(mem, -1)
		s.call("Sum", []arg{m}, func() ([]interface{}, error) { d := sm3.Sum(s.win(m)); return rs{d[:]}, nil })
	case 7:
		m = s.window(mem, -1)
		bs := 1 + c.Rng.Intn(40)
		s.call("PKCS5Padding", []arg{m, num(bs)}, func() ([]interface{}, error) { return rs{util.PKCS5Padding(s.win(m), bs)}, nil })
	case 8:
		m = s.window(mem, -1)
		bs := 1 + c.Rng.Intn(40)
		s.call("ZeroPadding", []arg{m, num(bs)}, func() ([]interface{}, error) { return rs{util.ZeroPadding(s.win(m), bs)}, nil })
	}
}

// keys whose integers are cells of the store
type skey struct {
	k       *Key
	d, x, y int
}

func (s *store) key(k *Key) skey {
	r := skey{k: k}
	r.d, r.x, r.y = s.int(k.Priv.D), s.int(k.Pub.X), s.int(k.Pub.Y)
	cv := sm2.GetSm2P256V1()
	k.Priv.Curve, k.Pub.Curve = cv, cv
	return r
}

func (s *store) random(f func() ([]interface{}, error)) func() ([]interface{}, error) {
	st := s.c.someSource()
	return func() (r []interface{}, err error) {
		With(st, func() { r, err = f() })
		s.failed = st.failed
		return
	}
}

func (s *store) sm2Call(ks []skey, mem, sigs, cts, tag int) {
	c := s.c
	k := pickOf(c, ks)
	id, m := s.window(mem, -1), s.window(mem, -1)
	if c.Rng.Intn(4) == 0 {
		id = nilArg
	}
	sig := s.window(sigs, len(s.cells[sigs-1].b)-8)
	sig.o = 0
	typ := 1 + c.Rng.Intn(2)
	ctl := len(s.cells[cts-1].b) - 8
	ct := arg{cts, 0, ctl}
	if c.Rng.Intn(5) == 0 {
		ct = s.window(cts, -1)
	}
	what := c.Rng.Intn(17)
	a, b := pickOf(c, []int{k.d, k.x, k.y, 4}), pickOf(c, []int{k.d, k.x, k.y, 4})
	if what < 4 && c.Rng.Intn(2) == 0 { // the valid signature of the store
		k, id, m, a, b = ks[0], nilArg, s.signed, s.r, s.s
	}
	pub := []arg{cellArg(k.x), cellArg(k.y)}
	switch what {
	case 0:
		s.call("Sign", []arg{cellArg(k.d), id, m}, s.random(func() ([]interface{}, error) {
			r, err := sm2.Sign(k.k.Priv, s.win(id), s.win(m))
			return rs{r}, err
		}))
		s.scribble(false)
	case 1:
		s.call("SignToRS", []arg{cellArg(k.d), id, m}, s.random(func() ([]interface{}, error) {
			r, t, err := sm2.SignToRS(k.k.Priv, s.win(id), s.win(m))
			return rs{r, t}, err
		}))
	case 2:
		s.call("Verify", append(pub, id, m, sig), func() ([]interface{}, error) {
			return rs{sm2.Verify(k.k.Pub, s.win(id), s.win(m), s.win(sig))}, nil
		})
	case 3: // r and s may be any integers of the store, those of the key among them
		s.call("VerifyByRS", append(pub, id, m, cellArg(a), cellArg(b)), func() ([]interface{}, error) {
			return rs{sm2.VerifyByRS(k.k.Pub, s.win(id), s.win(m), s.val(a), s.val(b))}, nil
		})
	case 4:
		s.call("Encrypt", append(pub, m, num(typ), cellArg(k.d)), s.random(func() ([]interface{}, error) {
			r, err := sm2.Encrypt(k.k.Pub, s.win(m), sm2.Sm2CipherTextType(typ))
			return rs{r}, err
		}))
		s.scribble(false)
	case 5, 6:
		k = ks[0]
		s.call("Decrypt", []arg{cellArg(k.d), ct, num(typ)}, func() ([]interface{}, error) {
			r, err := sm2.Decrypt(k.k.Priv, s.win(ct), sm2.Sm2CipherTextType(typ))
			return rs{r}, err
		})
		s.scribble(false)
	case 7:
		s.call("MarshalCipher", []arg{ct, num(typ)}, func() ([]interface{}, error) {
			r, err := sm2.MarshalCipher(s.win(ct), sm2.Sm2CipherTextType(typ))
			return rs{r}, err
		})
		s.scribble(false)
	case 8:
		d, err := sm2.MarshalCipher(s.win(ct), sm2.Sm2CipherTextType(typ))
		if err != nil {
			return
		}
		dc := s.bytes(d, 4)
		w := arg{dc, 0, len(d)}
		s.call("UnmarshalCipher", []arg{w, num(typ)}, func() ([]interface{}, error) {
			r, err := sm2.UnmarshalCipher(s.win(w), sm2.Sm2CipherTextType(typ))
			return rs{r}, err
		})
		s.scribble(false)
	case 9:
		s.call("MarshalSign", []arg{cellArg(a), cellArg(b)}, func() ([]interface{}, error) {
			r, err := sm2.MarshalSign(s.val(a), s.val(b))
			return rs{r}, err
		})
		s.scribble(false)
	case 10:
		s.call("UnmarshalSign", []arg{sig}, func() ([]interface{}, error) {
			r, t, err := sm2.UnmarshalSign(s.win(sig))
			return rs{r, t}, err
		})
	case 11:
		s.call("PubBytes", pub, func() ([]interface{}, error) { return rs{k.k.Pub.GetUnCompressBytes(), k.k.Pub.GetRawBytes()}, nil })
		s.scribble(false)
		s.call("PrivBytes", []arg{cellArg(k.d)}, func() ([]interface{}, error) { return rs{k.k.Priv.GetRawBytes()}, nil })
		s.scribble(false)
	case 12:
		w := s.window(mem, 64)
		s.call("RawBytesToPublicKey", []arg{w}, func() ([]interface{}, error) {
			p, err := sm2.RawBytesToPublicKey(s.win(w))
			if p == nil {
				return nil, err
			}
			return rs{p.X, p.Y}, err
		})
		w2 := s.window(mem, 32)
		s.call("RawBytesToPrivateKey", []arg{w2}, func() ([]interface{}, error) {
			p, err := sm2.RawBytesToPrivateKey(s.win(w2))
			if p == nil {
				return nil, err
			}
			return rs{p.D}, err
		})
	case 13:
		s.call("CalculatePubKey", []arg{cellArg(k.d)}, func() ([]interface{}, error) {
			p := sm2.CalculatePubKey(k.k.Priv)
			return rs{p.X, p.Y}, nil
		})
	case 14, 15: // static and ephemeral keys in any combination, also equal ones
		e, o, oe := pickOf(c, ks), pickOf(c, ks), pickOf(c, ks)
		init := c.Rng.Intn(2) == 0
		id2 := s.window(mem, -1)
		bits := 1 + c.Rng.Intn(300)
		t := arg{tag, 0, 32}
		iv := 0
		if init {
			iv = 1
		}
		s.call("KX", []arg{num(iv), num(bits), t, cellArg(k.d), cellArg(e.d), id, cellArg(o.x), cellArg(o.y), cellArg(oe.x), cellArg(oe.y), id2}, func() ([]interface{}, error) {
			r, err := sm2.CalculateKeyWithConfirmation(init, bits, s.win(t), k.k.Priv, e.k.Priv, s.win(id), o.k.Pub, oe.k.Pub, s.win(id2))
			if r == nil {
				return nil, err
			}
			return rs{r.Key, r.S1, r.S2}, err
		})
		s.scribble(false)
	case 16:
		a, b := s.window(mem, 32), s.window(mem, 32)
		s.call("ResponderConfirm", []arg{a, b}, func() ([]interface{}, error) { return rs{sm2.ResponderConfirm(s.win(a), s.win(b))}, nil })
	}
}

func driveC30(c *Ctx) {
	for i := 0; i < c.N(150, 1000); i++ {
		c.Trace(func() { // big integers
			s := c.newStore()
			ints := []int{1, 2, 4}
			ints = append(ints, s.int(new(big.Int)), s.int(new(big.Int)))
			for k := 0; k < 6; k++ {
				x := new(big.Int).SetBytes(c.Content(c.Rng.Intn(40)))
				switch c.Rng.Intn(4) {
				case 0:
					x = big.NewInt(int64(c.Rng.Intn(5) - 2))
				case 1:
					x.Neg(x)
				}
				ints = append(ints, s.int(x))
			}
			for k := 0; k < 30; k++ {
				s.utilCall(ints)
				if c.Rng.Intn(4) == 0 {
					s.set(pickOf(c, ints[3:]))
				}
				if c.Rng.Intn(2) == 0 {
					s.scribble(true)
				}
			}
		})
		c.Trace(func() { // SM3, SM4, padding, with overlapping arguments
			s := c.newStore()
			mem := s.bytes(c.Content(16*(1+c.Rng.Intn(6))), 0)
			if c.Rng.Intn(2) == 0 {
				mem = s.bytes(c.Content(20+c.Rng.Intn(50)), c.Rng.Intn(20))
			}
			for k := 0; k < 12; k++ {
				s.symCall(mem)
				if c.Rng.Intn(3) == 0 {
					s.set(mem)
				}
			}
		})
	}
	for i := 0; i < c.N(120, 800); i++ {
		c.Trace(func() {
			s := c.newStore()
			var ks []skey
			for k := 0; k < 3; k++ {
				ks = append(ks, s.key(c.randKey()))
			}
			ks = append(ks, s.key(keyOf(0, ks[0].k.d)), s.key(keyOf(0, bigSub(stdN, ks[0].k.d)))) // the same again, and with the same x
			mem := s.bytes(c.Content(64+c.Rng.Intn(60)), c.Rng.Intn(10))
			m := s.window(mem, -1)
			r, t := ownSign(ks[0].k, digestE(ks[0].k, nil, s.win(m)), c.randScalar(nMinus(1)))
			s.signed, s.r, s.s = m, s.int(r), s.int(t)
			sigs := s.bytes(cons(0x30, derInt(r), derInt(t)).enc(), 8)
			cts := s.bytes(ownEncrypt(ks[0].k, c.randScalar(nMinus(1)), c.Bytes(c.Rng.Intn(70)), 1+c.Rng.Intn(2)), 8)
			tag := s.bytes(c.Bytes(32), 3)
			if c.Rng.Intn(2) == 0 { // a tag that is right for some combination of the keys
				if r, err := sm2.CalculateKeyWithConfirmation(false, 128, nil, ks[1].k.Priv, ks[2].k.Priv, nil, ks[0].k.Pub, ks[2].k.Pub, nil); err == nil && r != nil {
					tag = s.bytes(r.S1, 3)
				}
			}
			for k := 0; k < 14; k++ {
				s.sm2Call(ks, mem, sigs, cts, tag)
				switch c.Rng.Intn(6) {
				case 0:
					s.set(mem)
				case 1:
					s.set([]int{sigs, cts, tag}[c.Rng.Intn(3)])
				case 2:
					s.setKey(pickOf(c, ks), pickOf(c, []*Key{c.randKey(), keyOf(0, ks[0].k.d), keyOf(0, ks[1].k.d)}))
				}
			}
		})
	}
	for i := 0; i < c.N(120, 800); i++ {
		c.Trace(func() {
			s := c.newStore()
			k := s.key(c.randKey())
			mem := s.bytes(c.Content(40), c.Rng.Intn(10))
			t, p, req := c.someTemplate(), c.someParent(), c.someCSR()
			if c.Rng.Intn(3) == 0 {
				t.SignatureAlgorithm, t.PublicKeyAlgorithm = x509.ECDSAWithSHA256, x509.ECDSA
				t.NotBefore = t.NotBefore.In(time.FixedZone("x", 3600))
			}
			ct, cpar, cr := s.obj(t), s.obj(p), s.obj(req)
			csr := &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(k.k)).enc(), Subject: pkix.Name{CommonName: "s"}, DNSNames: []string{"n"}}
			cc := s.obj(csr)
			id := s.window(mem, -1)
			var info *cert.TBSCertificate
			var cinfo, craw int
			reqDer, certDer := c.sealed(csrInfo(k.k, "cn"), k.k, s.win(id)), c.certWith(extNode(knownOid(17), false, c.goodValue(17)), extNode(knownOid(19), true, c.goodValue(19)))
			if c.Rng.Intn(3) == 0 {
				reqDer = flip(reqDer, c.Rng.Intn(8*len(reqDer)))
			}
			if c.Rng.Intn(3) == 0 {
				certDer = flip(certDer, c.Rng.Intn(8*len(certDer)))
			}
			rd, cd := s.bytes(reqDer, 5), s.bytes(certDer, 5)
			rw, cw := arg{rd, 0, len(reqDer)}, arg{cd, 0, len(certDer)}
			for n := 0; n < 10 && !c.dead; n++ {
				switch c.Rng.Intn(8) {
				case 0:
					s.set(pickOf(c, []int{ct, cpar, cr}))
				case 1:
					s.set(pickOf(c, []int{rd, cd, mem}))
				case 2:
					s.setKey(k, c.randKey())
				}
				switch c.Rng.Intn(8) {
				case 0:
					s.call("CreateCSR", []arg{cellArg(cr), cellArg(k.x), cellArg(k.y), cellArg(k.d), id}, s.random(func() ([]interface{}, error) {
						r, err := cert.CreateCertificateRequest(req, k.k.Pub, k.k.Priv, s.win(id))
						return rs{r}, err
					}))
				case 1, 2:
					var in *cert.TBSCertificate
					s.call("CreateInfo", []arg{cellArg(ct), cellArg(cpar), cellArg(cc)}, func() ([]interface{}, error) {
						var err error
						in, err = cert.CreateCertificateInfo(t, p, csr)
						if in == nil {
							return nil, err
						}
						return rs{append([]byte{}, in.Raw...)}, err
					})
					if in != nil && info == nil {
						info = in
						cinfo = s.obj(info)
						craw = s.put(&cell{b: info.Raw})
					}
				case 3:
					if info != nil {
						s.call("Issue", []arg{cellArg(cinfo), cellArg(k.d), id, {craw, 0, len(info.Raw)}}, s.random(func() ([]interface{}, error) {
							r, err := cert.IssueCertificateBySoftCAKey(info, k.k.Priv, s.win(id))
							return rs{r}, err
						}))
						s.scribble(false)
					}
				case 4:
					if info != nil {
						w := s.window(mem, -1)
						s.call("CreateCert", []arg{cellArg(cinfo), w, {craw, 0, len(info.Raw)}}, func() ([]interface{}, error) {
							r, err := cert.CreateCertificate(info, s.win(w))
							return rs{r}, err
						})
						s.scribble(false)
					}
				case 5:
					s.call("ParseCert", []arg{cw}, func() ([]interface{}, error) {
						r, err := cert.ParseCertificate(s.win(cw))
						if err != nil && r == nil {
							return nil, err
						}
						return rs{values(r), keyInt(r.PublicKey, false), keyInt(r.PublicKey, true), r.SerialNumber}, err
					})
				case 6:
					s.call("ParseCSR", []arg{rw}, func() ([]interface{}, error) {
						r, err := cert.ParseCertificateRequest(s.win(rw))
						if err != nil && r == nil {
							return nil, err
						}
						return rs{values(r), keyInt(r.PublicKey, false), keyInt(r.PublicKey, true)}, err
					})
				case 7:
					s.call("VerifyCSR", []arg{rw, id}, func() ([]interface{}, error) {
						r, err := cert.VerifyDERCSRSign(s.win(rw), s.win(id))
						return rs{r}, err
					})
				}
			}
		})
	}
}

// keyInt is a coordinate of a parsed key, or nil.
func keyInt(k interface{}, y bool) *big.Int {
	p, _ := k.(*sm2.PublicKey)
	if p == nil {
		return nil
	}
	if y {
		return p.Y
	}
	return p.X
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}
