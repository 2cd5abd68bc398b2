package main

import (
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
	"github.com/ZZMarquis/gm/util"
)

func init() {
	drivers["C29"] = driveC29
	drivers["C29cb"] = driveC29cb
	drivers["C29y"] = driveC29y
}

// ---- running goroutines side by side
//
// The goroutines share the inputs of their calls and nothing else: no lock and no
// channel orders their steps, so that the race detector sees every unordered pair
// of accesses. Each records its calls by itself, with the times between which they
// ran; the records are merged afterwards.

// sources[i] is the random source of the goroutine with number i (modulo the size).
var sources [1 << 14]*Stream

func goid() int {
	var b [64]byte
	s := b[len("goroutine "):runtime.Stack(b[:], false)]
	n := 0
	for _, ch := range s {
		if ch < '0' || ch > '9' {
			break
		}
		n = 10*n + int(ch-'0')
	}
	return n
}

// dispatch is crypto/rand.Reader while goroutines run. Reading is a place where another goroutine may go on.
type dispatch struct{}

func (dispatch) Read(p []byte) (int, error) {
	s := sources[goid()%len(sources)]
	if s.rng != nil && s.rng.Intn(2) == 0 {
		runtime.Gosched()
	}
	return s.Read(p)
}

// forked runs f in n goroutines, each with a context of its own, and returns these.
func (c *Ctx) forked(n int, dedupe bool, f func(g *Ctx)) []*Ctx {
	var gs []*Ctx
	for i := 1; i <= n; i++ {
		g := &Ctx{Rng: rand.New(rand.NewSource(c.Rng.Int63())), Tier: c.Tier, g: i}
		if dedupe {
			g.seen = map[string]bool{}
		}
		gs = append(gs, g)
	}
	old := crand.Reader
	if !genuine {
		crand.Reader = dispatch{}
	}
	conc = true
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, g := range gs {
		wg.Add(1)
		go func(g *Ctx) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if st := string(debug.Stack()); !strings.Contains(st, "github.com/ZZMarquis/gm/") {
						broken(r, st)
						return
					}
					g.dead = false
					g.Add(Ev{"op": "Crash", "out": "panic", "what": fmt.Sprint(r)})
				}
			}()
			<-start
			g.t0 = time.Now()
			f(g)
		}(g)
	}
	close(start)
	wg.Wait()
	conc = false
	crand.Reader = old
	return gs
}

// together adds the calls of n goroutines to the present trace, as invocations and returns in the order in
// which they were seen.
func (c *Ctx) together(n int, dedupe bool, f func(g *Ctx)) {
	type item struct {
		t    time.Time
		g, k int
		e    Ev
	}
	var items []item
	for _, g := range c.forked(n, dedupe, f) {
		for k, e := range g.cur {
			items = append(items, item{g.stamps[k][0], g.g, 2 * k, Ev{"op": "Invoke", "g": g.g, "call": e["op"]}},
				item{g.stamps[k][1], g.g, 2*k + 1, e})
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.g == b.g {
			return a.k < b.k
		}
		return a.t.Before(b.t)
	})
	// objects are numbered in the order in which they were made
	count := map[string]int{}
	name := map[string]int{}
	for _, e := range c.cur {
		switch e["op"] {
		case "New", "NewMac", "NewCipher":
			count[kindOf(e)]++
		}
	}
	for _, it := range items {
		e := it.e
		if o, ok := e["o"].(int); ok && o > 0 {
			key := fmt.Sprint(kindOf(e), it.g, o)
			if op := e["op"]; op == "New" || op == "NewMac" || op == "NewCipher" && e["out"] == "ok" {
				count[kindOf(e)]++
				name[key] = count[kindOf(e)]
			}
			e["o"] = name[key]
		} else if ok {
			e["o"] = -o // made before the goroutines started
		}
		c.cur = append(c.cur, e)
	}
}

func kindOf(e Ev) string {
	switch e["op"] {
	case "New", "Write", "Sum", "Reset", "Sizes":
		return "h"
	case "NewMac", "MacWrite", "MacSum", "MacReset":
		return "m"
	}
	return "c"
}

// ---- what they share

type pool struct {
	keys  []*Key
	msgs  [][]byte
	ids   [][]byte
	k16   [][]byte // SM4 keys and ivs
	sigs  []poolSig
	cts   []poolCt
	rs    []poolSig
	certs [][]byte
	csrs  []poolSig // sig: the request
	reqs  []*x509.CertificateRequest
	tmpls []*x509.Certificate
	pars  []*x509.Certificate
	subj  []*x509.CertificateRequest // with the subject's public key
	infos []*cert.TBSCertificate
	ciph  []*cobj
}
type poolSig struct {
	k          *Key
	id, m, sig []byte
	r, s       *big.Int
}
type poolCt struct {
	k   *Key
	m   []byte
	ct  []byte
	typ int
}

// poolOf makes inputs without calling the code under test.
func (c *Ctx) poolOf(n int) *pool {
	p := &pool{}
	for i := 0; i < n; i++ {
		p.keys = append(p.keys, c.randKey())
		p.msgs = append(p.msgs, c.Content([]int{0, 1, 31, 55, 56, 64, 100, 200}[c.Rng.Intn(8)]))
		p.k16 = append(p.k16, c.Bytes(16), c.Bytes(16))
		p.tmpls = append(p.tmpls, c.someTemplate())
		p.pars = append(p.pars, c.someParent())
		p.reqs = append(p.reqs, c.someCSR())
	}
	p.msgs = append(p.msgs, c.Bytes(300))
	p.ids = [][]byte{nil, c.Bytes(5), c.Bytes(16), c.Bytes(70)}
	for i := 0; i < 2*n; i++ {
		k, id, m := p.keys[i%n], p.ids[c.Rng.Intn(4)], p.msgs[c.Rng.Intn(len(p.msgs))]
		r, s := ownSign(k, digestE(k, id, m), c.randScalar(nMinus(1)))
		if c.Rng.Intn(4) == 0 {
			s = flipInt(s, c.Rng.Intn(256))
		}
		p.sigs = append(p.sigs, poolSig{k, id, m, cons(0x30, derInt(r), derInt(s)).enc(), r, s})
		typ := 1 + c.Rng.Intn(2)
		ct := ownEncrypt(k, c.randScalar(nMinus(1)), m, typ)
		if c.Rng.Intn(4) == 0 {
			ct = flip(ct, c.Rng.Intn(8*len(ct)))
		}
		p.cts = append(p.cts, poolCt{k, m, ct, typ})
		der := c.sealed(csrInfo(k, c.pick("a", "bb", "CN"), cons(0x30, prim(6, oidBytes(1, 2, 840, 113549, 1, 9, 14)),
			cons(0x31, cons(0x30, extNode(knownOid(17), false, c.goodValue(17)))))), k, id)
		if c.Rng.Intn(4) == 0 {
			der = flip(der, c.Rng.Intn(8*len(der)))
		}
		p.csrs = append(p.csrs, poolSig{k: k, id: id, sig: der})
		var ex []*node
		for _, x := range knownIds {
			if c.Rng.Intn(2) == 0 {
				ex = append(ex, extNode(knownOid(x), c.Rng.Intn(2) == 0, c.goodValue(x)))
			}
		}
		d := c.certWith(ex...)
		if c.Rng.Intn(4) == 0 {
			d = flip(d, c.Rng.Intn(8*len(d)))
		}
		p.certs = append(p.certs, d)
		p.subj = append(p.subj, &x509.CertificateRequest{RawSubjectPublicKeyInfo: spkiNode(point(k)).enc(), Subject: pkix.Name{CommonName: "x"},
			PublicKey: k.Pub, DNSNames: []string{"q.r"}, Extensions: []pkix.Extension{{Id: extOID(15), Value: []byte{3, 2, 5, 0xa0}}}})
	}
	return p
}

func pickOf[T any](g *Ctx, xs []T) T { return xs[g.Rng.Intn(len(xs))] }

// the calls that goroutines make; det: the result is determined by the inputs
type concOp struct {
	name string
	det  bool
	f    func(g *Ctx, p *pool)
}

var concOps = []concOp{
	{"digest", true, func(g *Ctx, p *pool) { g.digest(pickOf(g, p.msgs)) }},
	{"hash", false, func(g *Ctx, p *pool) {
		g.obj[0]++
		h := g.newHash(g.obj[0])
		h.write(pickOf(g, p.msgs))
		runtime.Gosched()
		h.sum(nil)
		h.write(pickOf(g, p.msgs))
		h.sum(nil)
		h.reset()
		h.write(pickOf(g, p.msgs))
		h.sum(nil)
	}},
	{"hmac", false, func(g *Ctx, p *pool) {
		g.obj[1]++
		h := g.newMac(g.obj[1], pickOf(g, p.msgs))
		h.write(pickOf(g, p.msgs))
		h.sum(nil)
	}},
	{"cipher", false, func(g *Ctx, p *pool) {
		g.obj[2]++
		x := g.newCipher(g.obj[2], pickOf(g, p.k16), false)
		for i := 0; i < 3; i++ {
			x.crypt(g.Rng.Intn(2) == 0, pickOf(g, p.k16), 0, 0)
		}
	}},
	{"block", true, func(g *Ctx, p *pool) { // one cipher object used by all
		x := *pickOf(g, p.ciph)
		x.c = g
		x.o = -x.o
		for i := 0; i < 2; i++ {
			src, dst := pickOf(g, p.k16), make([]byte, 16)
			dec := g.Rng.Intn(2) == 0
			out, _ := Do(func() {
				if dec {
					x.b.Decrypt(dst, src)
				} else {
					x.b.Encrypt(dst, src)
				}
			})
			g.Add(Ev{"op": map[bool]string{true: "BlockDecrypt", false: "BlockEncrypt"}[dec], "o": x.o, "src": cp(src), "dst": B(make([]byte, 16)), "dst2": B(dst), "out": out, "same": true})
		}
	}},
	{"mode", true, func(g *Ctx, p *pool) {
		m := pickOf(g, p.msgs)
		m = m[: len(m)/16*16 : len(m)/16*16]
		key, iv := pickOf(g, p.k16), pickOf(g, p.k16)
		if g.Rng.Intn(12) == 0 {
			key = key[:15]
		}
		g.mode(modeOps[g.Rng.Intn(4)], key, iv, m)
	}},
	{"pad", true, func(g *Ctx, p *pool) {
		m := pickOf(g, p.msgs)
		bs := 1 + g.Rng.Intn(40)
		var r, r2 []byte
		out, _ := Do(func() { r = util.PKCS5Padding(m[:len(m):len(m)], bs) })
		g.Add(Ev{"op": "PadOnly", "m": cp(m), "bs": bs, "r": cp(r), "out": out})
		if out != "ok" {
			return
		}
		out, _ = Do(func() { r2 = util.PKCS5UnPadding(r) })
		g.Add(Ev{"op": "UnPadOnly", "m": cp(r), "r": cp(r2), "out": out})
	}},
	{"curve", true, func(g *Ctx, p *pool) {
		cv := sm2.GetSm2P256V1()
		g.Add(Ev{"op": "Curve", "p": Nat(cv.P), "a": Nat(cv.A), "b": Nat(cv.B), "n": Nat(cv.N), "gx": Nat(cv.Gx), "gy": Nat(cv.Gy), "bits": cv.BitSize, "out": "ok"})
	}},
	{"genkey", false, func(g *Ctx, p *pool) { g.genKey(g.NewStream()) }},
	{"calcpub", true, func(g *Ctx, p *pool) { g.calcPub(pickOf(g, p.keys)) }},
	{"keybytes", true, func(g *Ctx, p *pool) { g.keyBytes(pickOf(g, p.keys)) }},
	{"sign", false, func(g *Ctx, p *pool) {
		g.sign(pickOf(g, p.keys), pickOf(g, p.ids), pickOf(g, p.msgs), g.someSource(), g.Rng.Intn(2) == 0)
	}},
	{"verify", true, func(g *Ctx, p *pool) {
		s := pickOf(g, p.sigs)
		if g.Rng.Intn(2) == 0 {
			g.verify(0, s.k.Pub, s.id, s.m, s.sig)
		} else {
			g.verifyRS(0, s.k.Pub, s.id, s.m, s.r, s.s)
		}
	}},
	{"encrypt", false, func(g *Ctx, p *pool) {
		if m := pickOf(g, p.msgs); len(m) > 0 {
			g.encrypt(pickOf(g, p.keys), m, 1+g.Rng.Intn(2), g.someSource())
		}
	}},
	{"decrypt", true, func(g *Ctx, p *pool) { s := pickOf(g, p.cts); g.decrypt(s.k, s.ct, s.typ) }},
	{"cipherder", true, func(g *Ctx, p *pool) {
		s := pickOf(g, p.cts)
		if d := g.marshalCipher(s.ct, s.typ); d != nil {
			g.unmarshalCipher(d, s.typ)
		}
	}},
	{"signder", true, func(g *Ctx, p *pool) {
		s := pickOf(g, p.sigs)
		g.unmarshalSign(g.marshalSign(s.r, s.s))
	}},
	{"kx", true, func(g *Ctx, p *pool) {
		i := g.Rng.Intn(len(p.keys))
		at := func(j int) *Key { return p.keys[(i+j)%len(p.keys)] }
		g.run(at(0), at(1), at(2), at(3), p.msgs[i], p.msgs[0], 1+i*37)
	}},
	{"createcsr", false, func(g *Ctx, p *pool) {
		k := pickOf(g, p.keys)
		g.createCSR(pickOf(g, p.reqs), k.Pub, k, pickOf(g, p.ids), g.someSource())
	}},
	{"parsecsr", true, func(g *Ctx, p *pool) { g.parseCSR(pickOf(g, p.csrs).sig) }},
	{"verifycsr", true, func(g *Ctx, p *pool) { s := pickOf(g, p.csrs); g.verifyCSR(s.sig, s.id) }},
	{"createinfo", true, func(g *Ctx, p *pool) { g.createInfo(pickOf(g, p.tmpls), pickOf(g, p.pars), pickOf(g, p.subj)) }},
	{"issue", false, func(g *Ctx, p *pool) {
		info := g.createInfo(pickOf(g, p.tmpls), pickOf(g, p.pars), pickOf(g, p.subj))
		if info == nil {
			return
		}
		der := g.issue(info, pickOf(g, p.keys), pickOf(g, p.ids), g.someSource())
		if der != nil && g.Rng.Intn(3) == 0 {
			g.parseCert(der)
		}
	}},
	{"issueshared", false, func(g *Ctx, p *pool) {
		info := pickOf(g, p.infos)
		if g.Rng.Intn(2) == 0 {
			g.issue(info, pickOf(g, p.keys), pickOf(g, p.ids), g.someSource())
		} else {
			g.createCert(info, pickOf(g, p.sigs).sig)
		}
	}},
	{"parsecert", true, func(g *Ctx, p *pool) { g.parseCert(pickOf(g, p.certs)) }},
	{"fill", true, func(g *Ctx, p *pool) {
		t := *pickOf(g, p.tmpls)
		g.fill(&t, pickOf(g, p.subj))
	}},
}

// someSource sometimes fails early.
func (c *Ctx) someSource() *Stream {
	if c.Rng.Intn(12) == 0 && !genuine {
		return c.failing(c.Script(c.Bytes(c.Rng.Intn(32))))
	}
	return c.NewStream()
}

// common makes what is shared by calling the code under test, one call after the other.
func (c *Ctx) common(p *pool) {
	p.ciph, p.infos = nil, nil
	for o := 1; o <= 2; o++ {
		p.ciph = append(p.ciph, c.newCipher(o, p.k16[o], false))
	}
	for len(p.infos) < 2 {
		if info := c.createInfo(c.someTemplate(), pickOf(c, p.pars), pickOf(c, p.subj)); info != nil {
			p.infos = append(p.infos, info)
		}
	}
}

func driveC29(c *Ctx) {
	c.basePoint()
	workers := 8
	p := c.poolOf(4)
	// the very first use of everything is concurrent
	for _, o := range concOps {
		if o.name == "block" || o.name == "issueshared" {
			continue
		}
		o := o
		c.Trace(func() { c.together(4, false, func(g *Ctx) { o.f(g, p) }) })
	}
	// everybody does everything
	n := c.N(40, 300)
	if raceBuild {
		n = c.N(20, 150)
	}
	for i := 0; i < n; i++ {
		if i%4 == 0 {
			p = c.poolOf(4)
		}
		genuine = i%3 == 2
		c.Trace(func() {
			c.common(p)
			c.together(workers, false, func(g *Ctx) {
				for k := 0; k < 5; k++ {
					concOps[g.Rng.Intn(len(concOps))].f(g, p)
				}
			})
		})
	}
	genuine = false
	// many goroutines make the same kind of call, again and again; equal observations are recorded once
	spin := time.Duration(c.N(200, 3000)) * time.Millisecond
	for _, o := range concOps {
		if raceBuild && !c.Thorough() {
			spin = 60 * time.Millisecond
		}
		o := o
		for k, procs := range []int{runtime.NumCPU(), 4 * runtime.NumCPU(), runtime.NumCPU()} {
			if k == 2 && o.det {
				continue
			}
			genuine = k == 2
			if raceBuild && procs > runtime.NumCPU() {
				continue
			}
			runtime.GOMAXPROCS(procs)
			c.Trace(func() {
				c.common(p)
				end := time.Now().Add(spin)
				c.together(workers, o.det, func(g *Ctx) {
					for k := 0; time.Now().Before(end) && len(g.cur) < c.N(60, 150) && (o.det || k < c.N(6, 20)); k++ {
						o.f(g, p)
					}
				})
			})
		}
		genuine = false
		runtime.GOMAXPROCS(runtime.NumCPU())
	}
}

// driveC29y is for a build of the code in which other goroutines may go on at every statement (see yields/).
// Few processors, so that who yields waits until others have made some way.
func driveC29y(c *Ctx) {
	c.basePoint()
	p := c.poolOf(4)
	spin := time.Duration(c.N(150, 3000)) * time.Millisecond
	for round, procs := range []int{2, 1, runtime.NumCPU()} {
		runtime.GOMAXPROCS(procs)
		for i := 0; i < c.N(5, 60); i++ {
			c.Trace(func() {
				c.common(p)
				c.together(6, false, func(g *Ctx) {
					for k := 0; k < 5; k++ {
						concOps[g.Rng.Intn(len(concOps))].f(g, p)
					}
				})
			})
		}
		for _, o := range concOps {
			if round > 0 && !o.det {
				continue
			}
			o := o
			c.Trace(func() {
				c.common(p)
				end := time.Now().Add(spin)
				c.together(6, o.det, func(g *Ctx) {
					for k := 0; time.Now().Before(end) && len(g.cur) < c.N(60, 150) && (o.det || k < c.N(12, 40)); k++ {
						o.f(g, p)
					}
				})
			})
		}
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
}

// Builders and Strings of different goroutines: what each goroutine does with its own is a trace.
func driveC29cb(c *Ctx) {
	for i := 0; i < c.N(60, 600); i++ {
		shared := c.build0()
		gs := c.forked(8, false, func(g *Ctx) {
			for k := 0; k < 3; k++ {
				n := 12
				der := g.build(nil, -1, g.Rng.Intn(20), g.randProg(3, 0, false, &n), g.Rng.Intn(2) == 0)
				if g.Rng.Intn(2) == 0 {
					der = shared
				}
				r := g.newReader(der, g.Bytes(2))
				for j := 0; j < 6; j++ {
					r.randRead(2)
				}
			}
		})
		for _, g := range gs {
			c.Trace(func() { c.cur = g.cur })
		}
	}
}

func (c *Ctx) build0() []byte {
	return cons(0x30, prim(2, []byte{5}), prim(4, c.Bytes(3)), cons(0xa0, prim(1, []byte{255})), prim(6, []byte{0x2a, 3, 4}), prim(3, []byte{0, 0xff}),
		prim(24, []byte("20240102030405Z"))).enc()
}
