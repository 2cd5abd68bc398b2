package main

import (
	"crypto/elliptic"
	crand "crypto/rand"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"math/bits"
	mrand "math/rand"
	"os"
	"syscall"

	"github.com/ZZMarquis/gm/sm2"
)

// Nat is a non-negative integer as minimal big-endian bytes.
func Nat(x *big.Int) B {
	if x == nil {
		return B{}
	}
	return B(x.Bytes())
}

// Int is a signed integer.
func Int(x *big.Int) Ev {
	if x == nil {
		return Ev{"neg": false, "mag": B{}}
	}
	return Ev{"neg": x.Sign() < 0, "mag": B(x.Bytes())}
}

// Stream is a random source under the control of the driver.
type Stream struct {
	sid          int
	data         []byte      // scripted part
	rng          *mrand.Rand // then pseudo-random bytes, or failure if nil
	err          error       // the failure
	failAt       int         // fail once this many bytes have been delivered (-1: never)
	chunk        int         // at most this many bytes per Read (0: no limit)
	used         int
	eager        bool // the error comes with the last bytes, not after them
	failed       bool
	stutter, odd bool // every other Read gives nothing, without error
}

var errSource = errors.New("random source failed")

func (s *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.odd = !s.odd; s.odd && s.stutter {
		return 0, nil
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.failAt >= 0 && s.used+n > s.failAt {
		n = s.failAt - s.used
	}
	if s.rng == nil && n > len(s.data) {
		n = len(s.data)
	}
	if n <= 0 {
		s.failed = true
		return 0, s.err
	}
	last := s.failAt >= 0 && s.used+n == s.failAt || s.rng == nil && n == len(s.data)
	k := copy(p[:n], s.data)
	s.data = s.data[k:]
	if k < n {
		s.rng.Read(p[k:n])
	}
	s.used += n
	if last && s.eager { // the failure comes with the last bytes
		if n < len(p) {
			s.failed = true
		}
		return n, s.err
	}
	return n, nil
}

// failures: what sources may fail with
var failures = []error{errSource, io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, temporary{}}

type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// failing makes s fail in some way.
func (c *Ctx) failing(s *Stream) *Stream {
	s.err, s.eager = failures[c.Rng.Intn(len(failures))], c.Rng.Intn(3) == 0
	return s
}

var sameSid bool

// nextSid numbers the random streams; those of different goroutines differ.
func (c *Ctx) nextSid() int { c.sid++; return 1000000*c.g + c.sid }

// NewStream is an endless pseudo-random source.
func (c *Ctx) NewStream() *Stream {
	return &Stream{sid: c.nextSid(), rng: mrand.New(mrand.NewSource(c.Rng.Int63())), failAt: -1, err: errSource}
}

// Script is a source that delivers exactly these bytes and then fails.
func (c *Ctx) Script(data []byte) *Stream {
	return &Stream{sid: c.nextSid(), data: data, failAt: -1, err: io.EOF}
}

// ScriptThen delivers these bytes and goes on pseudo-randomly.
func (c *Ctx) ScriptThen(data []byte) *Stream {
	s := c.NewStream()
	s.data = data
	return s
}

// genuine: crypto/rand.Reader is left alone, and nothing is known about what it delivers.
var genuine bool

// withGenuine runs f, in which all randomness comes from the system.
func withGenuine(f func()) {
	genuine = true
	defer func() { genuine = false }()
	f()
}

// With runs f with s as crypto/rand.Reader.
func With(s *Stream, f func()) {
	if genuine {
		f()
		return
	}
	if conc {
		sources[goid()%len(sources)] = s
		f()
		return
	}
	old := crand.Reader
	crand.Reader = s
	defer func() { crand.Reader = old }()
	f()
}

// rngFields adds what the source saw during a call.
func rngFields(e Ev, s *Stream, used0 int) Ev {
	if genuine {
		e["genuine"], e["sid"], e["used"], e["failed"] = true, s.sid, 0, false
		return e
	}
	e["sid"], e["used"], e["failed"] = s.sid, s.used-used0, s.failed
	if sameSid { // equal scripts occur: say nothing about scalars of different calls
		e["sid"] = 0
	}
	return e
}

// ---- curves

type toy struct{ p, b, n, gx, gy int64 }

var toys = []toy{{11, 10, 7, 2, 1}, {23, 15, 17, 1, 6}, {13, 1, 19, 0, 1}, {31, 15, 29, 3, 8},
	{107, 5, 101, 1, 18}, {229, 4, 223, 0, 2}, {1019, 15, 977, 0, 228}, {257, 9, 271, 0, 3}}

var stdCurve = sm2.GetSm2P256V1()
var stdN = new(big.Int).Set(stdCurve.N)
var stdP = new(big.Int).Set(stdCurve.P)

// curve returns curve number cv; 0 is the SM2 curve.
func curve(cv int) sm2.P256V1Curve {
	if cv == 0 {
		return stdCurve
	}
	t := toys[cv-1]
	return sm2.P256V1Curve{
		CurveParams: &elliptic.CurveParams{Name: "toy", BitSize: 256, P: big.NewInt(t.p), N: big.NewInt(t.n),
			B: big.NewInt(t.b), Gx: big.NewInt(t.gx), Gy: big.NewInt(t.gy)},
		A: big.NewInt(t.p - 3),
	}
}

// Key is a key pair on a numbered curve.
type Key struct {
	cv   int
	d    *big.Int
	x, y *big.Int
	Priv *sm2.PrivateKey
	Pub  *sm2.PublicKey
}

// multiples are computed with our own arithmetic, so that inputs do not depend on the code under test
func mulBase(cv int, d *big.Int) (x, y *big.Int) {
	c := curve(cv)
	return ecMul(c, d, c.Gx, c.Gy)
}

func ecAdd(c sm2.P256V1Curve, x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1.Sign() == 0 && y1.Sign() == 0 {
		return x2, y2
	}
	if x2.Sign() == 0 && y2.Sign() == 0 {
		return x1, y1
	}
	p := c.P
	var num, den *big.Int
	if x1.Cmp(x2) == 0 {
		if y1.Cmp(y2) != 0 || y1.Sign() == 0 {
			return new(big.Int), new(big.Int)
		}
		num = new(big.Int).Mul(x1, x1)
		num.Mul(num, big.NewInt(3)).Add(num, c.A)
		den = new(big.Int).Lsh(y1, 1)
	} else {
		num = new(big.Int).Sub(y2, y1)
		den = new(big.Int).Sub(x2, x1)
	}
	den.Mod(den, p).ModInverse(den, p)
	lam := num.Mul(num, den)
	lam.Mod(lam, p)
	x3 := new(big.Int).Mul(lam, lam)
	x3.Sub(x3, x1).Sub(x3, x2).Mod(x3, p)
	y3 := new(big.Int).Sub(x1, x3)
	y3.Mul(y3, lam).Sub(y3, y1).Mod(y3, p)
	return x3, y3
}

func ecMul(c sm2.P256V1Curve, k, x, y *big.Int) (*big.Int, *big.Int) {
	rx, ry := new(big.Int), new(big.Int)
	for i := k.BitLen() - 1; i >= 0; i-- {
		rx, ry = ecAdd(c, rx, ry, rx, ry)
		if k.Bit(i) == 1 {
			rx, ry = ecAdd(c, rx, ry, x, y)
		}
	}
	return rx, ry
}

func keyOf(cv int, d *big.Int) *Key {
	k := &Key{cv: cv, d: new(big.Int).Set(d)}
	k.x, k.y = mulBase(cv, d)
	k.Priv = &sm2.PrivateKey{D: new(big.Int).Set(d), Curve: curve(cv)}
	k.Pub = &sm2.PublicKey{X: new(big.Int).Set(k.x), Y: new(big.Int).Set(k.y), Curve: curve(cv)}
	return k
}

// pub, priv and int return p in an object of their own or, in half of the cases, in one that held other values before.
func (c *Ctx) pub(slot int, p *sm2.PublicKey) *sm2.PublicKey {
	if conc || p == nil || p.X == nil || p.Y == nil || c.Rng.Intn(2) == 0 {
		return p
	}
	if c.pubs[slot] == nil {
		c.pubs[slot] = &sm2.PublicKey{X: new(big.Int), Y: new(big.Int)}
	}
	q := c.pubs[slot]
	q.X.Set(p.X)
	q.Y.Set(p.Y)
	q.Curve = p.Curve
	return q
}

func (c *Ctx) priv(slot int, p *sm2.PrivateKey) *sm2.PrivateKey {
	if conc || p == nil || p.D == nil || c.Rng.Intn(2) == 0 {
		return p
	}
	if c.privs[slot] == nil {
		c.privs[slot] = &sm2.PrivateKey{D: new(big.Int)}
	}
	q := c.privs[slot]
	q.D.Set(p.D)
	q.Curve = p.Curve
	return q
}

func (c *Ctx) int(slot int, x *big.Int) *big.Int {
	if conc || x == nil || c.Rng.Intn(2) == 0 {
		return x
	}
	if c.ints[slot] == nil {
		c.ints[slot] = new(big.Int)
	}
	return c.ints[slot].Set(x)
}

// randScalar is uniform in [1, max].
func (c *Ctx) randScalar(max *big.Int) *big.Int {
	r := new(big.Int).Rand(c.Rng, max)
	return r.Add(r, big.NewInt(1))
}

func (c *Ctx) randKey() *Key { return keyOf(0, c.randScalar(new(big.Int).Sub(stdN, big.NewInt(2)))) }

func (c *Ctx) toyKey(cv int) *Key {
	n := toys[cv-1].n
	return keyOf(cv, big.NewInt(1+c.Rng.Int63n(n-2)))
}

// findScalar looks for a scalar k such that want holds for [k](x, y), starting at a random place.
func (c *Ctx) findScalar(x, y *big.Int, want func(x, y *big.Int) bool) *big.Int {
	k := c.randScalar(new(big.Int).Rsh(stdN, 1))
	px, py := ecMul(stdCurve, k, x, y)
	for i := 0; ; i++ {
		if want(px, py) {
			return k
		}
		k.Add(k, big.NewInt(1))
		px, py = ecAdd(stdCurve, px, py, x, y)
	}
}

func shortX(n int) func(x, y *big.Int) bool {
	return func(x, y *big.Int) bool { return x.BitLen() <= 256-8*n }
}
func shortY(n int) func(x, y *big.Int) bool {
	return func(x, y *big.Int) bool { return y.BitLen() <= 256-8*n }
}

// specialKeys: extreme scalars and points with leading zero octets.
func (c *Ctx) specialKeys() []*Key {
	nm := func(i int64) *big.Int { return new(big.Int).Sub(stdN, big.NewInt(i)) }
	ks := []*Key{keyOf(0, big.NewInt(1)), keyOf(0, big.NewInt(2)), keyOf(0, nm(2)), keyOf(0, nm(3)),
		keyOf(0, new(big.Int).Rsh(stdN, 1)),
		keyOf(0, c.randScalar(new(big.Int).Lsh(big.NewInt(1), 247))),
		keyOf(0, c.randScalar(new(big.Int).Lsh(big.NewInt(1), 200))),
		keyOf(0, c.randScalar(new(big.Int).Lsh(big.NewInt(1), 62)))}
	ks = append(ks, keyOf(0, c.findScalar(stdCurve.Gx, stdCurve.Gy, shortX(1))))
	ks = append(ks, keyOf(0, c.findScalar(stdCurve.Gx, stdCurve.Gy, shortY(1))))
	for n := 2; n <= 4; n++ {
		ks = append(ks, keyOf(0, c.shortScalar(true, n)), keyOf(0, c.shortScalar(false, n)))
	}
	for i := 0; i < c.N(4, 40); i++ {
		ks = append(ks, keyOf(0, c.oddScalar(false)))
	}
	return ks
}

// shortScalar is a scalar k such that the x (or y) coordinate of [k]G has n leading zero octets, n from 2 to 4.
func (c *Ctx) shortScalar(x bool, n int) *big.Int {
	var fit []string
	for _, s := range shortPoints {
		z := s.zy
		if x {
			z = s.zx
		}
		if z/8 == n {
			fit = append(fit, s.k)
		}
	}
	if len(fit) == 0 {
		return c.shortScalar(x, n-1)
	}
	k, _ := new(big.Int).SetString(fit[c.Rng.Intn(len(fit))], 16)
	if c.Rng.Intn(2) == 0 {
		k.Sub(stdN, k)
	}
	return k
}

// anyShort is a scalar k such that [k](x, y) has a coordinate with one to four leading zero octets; (x, y) is [d]G.
func (c *Ctx) anyShort(x, y, d *big.Int) *big.Int {
	n := 1 + c.Rng.Intn(4)
	if n == 1 {
		if c.Rng.Intn(2) == 0 {
			return c.findScalar(x, y, shortX(1))
		}
		return c.findScalar(x, y, shortY(1))
	}
	t := c.shortScalar(c.Rng.Intn(2) == 0, n)
	return modN(t.Mul(t, new(big.Int).ModInverse(d, stdN)))
}

// pad32 is x as 32 bytes.
func pad32(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

// ids of interesting lengths; nil is the default id.
func (c *Ctx) someId() []byte {
	switch c.Rng.Intn(12) {
	case 0, 1, 2:
		return nil
	case 3:
		return []byte{}
	case 4:
		return []byte("1234567812345678")
	case 5:
		return c.Content(1)
	case 6:
		return c.Content(15 + c.Rng.Intn(3))
	case 7:
		return c.Content(30 + c.Rng.Intn(100))
	default:
		return c.Content(c.Rng.Intn(40))
	}
}

func (c *Ctx) someMsg() []byte {
	if c.Rng.Intn(30) == 0 {
		return c.Content(c.bigSize() % 20000)
	}
	switch c.Rng.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return nil
	case 2:
		return c.Content(c.Rng.Intn(400))
	default:
		return c.Content(c.Rng.Intn(80))
	}
}

func cp(b []byte) B { return append(B{}, b...) }

// watchInts tells whether integers keep their values.
func watchInts(xs ...*big.Int) func() bool {
	var snap []*big.Int
	for _, x := range xs {
		if x == nil {
			snap = append(snap, nil)
		} else {
			snap = append(snap, new(big.Int).Set(x))
		}
	}
	return func() bool {
		for i, x := range xs {
			if (x == nil) != (snap[i] == nil) || x != nil && x.Cmp(snap[i]) != 0 {
				return false
			}
		}
		return true
	}
}

func curveInts(c sm2.P256V1Curve) []*big.Int {
	return []*big.Int{c.P, c.A, c.B, c.N, c.Gx, c.Gy}
}

// sm3sum is an independent SM3, used only to choose inputs.
func sm3sum(m []byte) []byte {
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	b := append(append([]byte(nil), m...), 0x80)
	for len(b)%64 != 56 {
		b = append(b, 0)
	}
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], uint64(len(m))*8)
	b = append(b, l[:]...)
	rol := bits.RotateLeft32
	for ; len(b) > 0; b = b[64:] {
		var w [68]uint32
		for i := range w {
			if i < 16 {
				w[i] = binary.BigEndian.Uint32(b[4*i:])
			} else {
				x := w[i-16] ^ w[i-9] ^ rol(w[i-3], 15)
				w[i] = x ^ rol(x, 15) ^ rol(x, 23) ^ rol(w[i-13], 7) ^ w[i-6]
			}
		}
		s := v
		for j := 0; j < 64; j++ {
			k := uint32(0x79cc4519)
			f, g := s[0]^s[1]^s[2], s[4]^s[5]^s[6]
			if j >= 16 {
				k = 0x7a879d8a
				f = s[0]&s[1] | s[0]&s[2] | s[1]&s[2]
				g = s[4]&s[5] | ^s[4]&s[6]
			}
			ss1 := rol(rol(s[0], 12)+s[4]+rol(k, j%32), 7)
			t1 := f + s[3] + (ss1 ^ rol(s[0], 12)) + (w[j] ^ w[j+4])
			t2 := g + s[7] + ss1 + w[j]
			s = [8]uint32{t1, s[0], rol(s[1], 9), s[2], t2 ^ rol(t2, 9) ^ rol(t2, 17), s[4], rol(s[5], 19), s[6]}
		}
		for i := range v {
			v[i] ^= s[i]
		}
	}
	var out []byte
	for _, x := range v {
		out = append(out, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return out
}
