// Command harness drives the public API of github.com/ZZMarquis/gm and records
// what it observes as traces, one JSON array of events per line. It contains no
// expectations: the specification in /verif/spec decides whether a trace is a
// behaviour of the system.
package main

import (
	"bufio"
	"crypto/x509"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/sm2/cert"
)

// B is a byte string, written to JSON as an array of integers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(x), 10)
	}
	return append(out, ']'), nil
}

// Ev is one event.
type Ev map[string]interface{}

// Ctx is the state of one driver run.
type Ctx struct {
	Rng    *rand.Rand
	Tier   string
	Gen    string // file with scenarios generated by TLC, if any
	w      *bufio.Writer
	f      *os.File
	cur    []Ev
	dead   bool // the current trace ended with a panic
	full   bool // the events recorded now have regular inputs, whose results are determined in full
	Count  int
	start  time.Time
	g      int            // the goroutine this is the context of, in a concurrent run
	sid    int            // random streams handed out
	obj    [3]int         // objects made by this goroutine
	t0     time.Time      // a moment before the call under way began
	stamps [][2]time.Time // of the events in cur
	bufs   map[string][]byte
	holds  []func() bool                   // see hold
	larges int                             // see enlarge
	parses int                             // see again
	made   map[*cert.TBSCertificate][]byte // the Raw of those made in this trace
	pubs   [4]*sm2.PublicKey
	privs  [4]*sm2.PrivateKey
	ints   [4]*big.Int
	csrObj x509.CertificateRequest
	crtObj [2]x509.Certificate
	info   cert.TBSCertificate
	seen   map[string]bool // when repeated observations are to be dropped: those made
}

// conc: several goroutines are at work, each with its own Ctx. Set while only one is running.
var conc bool

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// harnessPanic tells of panics of the driver itself. They come from results the driver could not work with; what was
// recorded up to then is still judged, and the run counts as failed only if all of that is accepted.
var harnessPanic string

var brokenMu sync.Mutex

func broken(r interface{}, stack string) {
	brokenMu.Lock()
	defer brokenMu.Unlock()
	if harnessPanic == "" {
		harnessPanic = fmt.Sprint(r, "\n", stack)
	}
}

// Trace records one trace.
func (c *Ctx) Trace(f func()) {
	c.cur, c.holds, c.made = nil, nil, nil
	c.dead = false
	defer c.flush()
	defer func() {
		// a panic of the code under test in a call that the driver does not guard itself
		if r := recover(); r != nil {
			if st := string(debug.Stack()); !strings.Contains(st, "github.com/ZZMarquis/gm/") {
				broken(r, st)
				return
			}
			c.dead = false
			c.Add(Ev{"op": "Crash", "out": "panic", "what": fmt.Sprint(r)})
		}
	}()
	f()
}

func (c *Ctx) flush() {
	if len(c.cur) == 0 {
		return
	}
	b, err := json.Marshal(c.cur)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: marshal:", err)
		os.Exit(3)
	}
	c.w.Write(b)
	c.w.WriteByte('\n')
	c.Count++
	c.cur, c.holds, c.made = nil, nil, nil
}

// Add appends an event to the current trace.
func (c *Ctx) Add(e Ev) {
	if c.dead {
		return
	}
	if c.full {
		e["full"] = true
	}
	if c.g > 0 {
		t1 := time.Now()
		t0 := c.t0
		c.t0 = t1
		e["g"] = c.g
		if c.seen != nil {
			b, err := json.Marshal(e)
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness: marshal:", err)
				os.Exit(3)
			}
			if c.seen[string(b)] {
				return
			}
			c.seen[string(b)] = true
		}
		c.stamps = append(c.stamps, [2]time.Time{t0, t1})
	}
	c.cur = append(c.cur, e)
	if o, ok := e["out"].(string); ok && o != "ok" && o != "err" {
		c.dead = true
		if o == "hang" {
			// the goroutine cannot be stopped: end the whole run here
			c.flush()
			c.finish()
			os.Exit(0)
		}
	}
}

func (c *Ctx) finish() {
	c.w.Flush()
	c.f.Close()
}

const hangTimeout = 60 * time.Second

// Do runs one call of the code under test. The outcome is "ok", "panic" or "hang".
func Do(f func()) (out, info string) {
	type res struct{ out, info string }
	if conc { // the goroutine of this call is one of those that run concurrently
		defer func() {
			if r := recover(); r != nil {
				out, info = "panic", fmt.Sprint(r)
			}
		}()
		f()
		return "ok", ""
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- res{"panic", fmt.Sprint(r)}
			}
		}()
		f()
		ch <- res{"ok", ""}
	}()
	t := time.NewTimer(hangTimeout)
	defer t.Stop()
	select {
	case r := <-ch:
		return r.out, r.info
	case <-t.C:
		return "hang", ""
	}
}

// DoErr is Do for calls that return an error, giving "ok", "err", "panic" or "hang".
func DoErr(f func() error) string {
	var err error
	out, _ := Do(func() { err = f() })
	if out == "ok" && err != nil {
		return "err"
	}
	return out
}

// Bytes returns n random bytes.
func (c *Ctx) Bytes(n int) []byte {
	b := make([]byte, n)
	c.Rng.Read(b)
	return b
}

// Content returns n bytes of one of several shapes.
func (c *Ctx) Content(n int) []byte {
	b := make([]byte, n)
	switch c.Rng.Intn(8) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // one bit
		if n > 0 {
			b[c.Rng.Intn(n)] = 1 << uint(c.Rng.Intn(8))
		}
	case 3:
		for i := range b {
			b[i] = byte(i)
		}
	case 4:
		x := byte(c.Rng.Intn(256))
		for i := range b {
			b[i] = x
		}
	default:
		c.Rng.Read(b)
	}
	return b
}

// Spare returns a copy of b with the given spare capacity filled with a pattern,
// together with a function telling whether the whole backing array is unchanged.
func Spare(b []byte, spare int) ([]byte, func() bool) {
	if conc { // the callers share their inputs
		return b, Watch(b)
	}
	back := make([]byte, len(b)+spare)
	copy(back, b)
	for i := len(b); i < len(back); i++ {
		back[i] = 0xA5 ^ byte(i)
	}
	snap := append([]byte(nil), back...)
	return back[:len(b)], func() bool { return string(snap) == string(back) }
}

// dataSlot has the slots of arguments that are plain data, for which nil and an empty slice mean the same.
var dataSlot = map[string]bool{"in": true, "m": true, "ct": true, "p": true, "der": true, "sig": true, "block": true}

// in is Spare, but in half of the cases the argument lies in a buffer that was used before for the same purpose:
// a caller may write the next input over the last one.
func (c *Ctx) in(slot string, b []byte, spare int) ([]byte, func() bool) {
	const size = 4096
	if len(b) == 0 && dataSlot[slot] && c.Rng.Intn(2) == 0 {
		return nil, func() bool { return true } // a nil slice is the same octets: none
	}
	if conc || len(b) > size-64 || c.Rng.Intn(2) == 0 {
		return Spare(b, spare)
	}
	if c.bufs == nil {
		c.bufs = map[string][]byte{}
	}
	back := c.bufs[slot]
	if back == nil {
		back = make([]byte, size)
		c.bufs[slot] = back
	}
	back = back[:len(b)+spare]
	copy(back, b)
	for i := len(b); i < len(back); i++ {
		back[i] = 0xA5 ^ byte(i)
	}
	snap := append([]byte(nil), back...)
	return back[:len(b):len(back)], func() bool { return string(snap) == string(back) }
}

// Watch returns a function telling whether b still has its present contents.
func Watch(bs ...[]byte) func() bool {
	var full, snap [][]byte
	for _, b := range bs {
		b = b[:cap(b)]
		full = append(full, b)
		snap = append(snap, append([]byte(nil), b...))
	}
	return func() bool {
		for i := range full {
			if string(full[i]) != string(snap[i]) {
				return false
			}
		}
		return true
	}
}

var drivers = map[string]func(*Ctx){}

func main() {
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "trace file")
	gen := flag.String("gen", "", "scenario file")
	flag.Parse()
	name := flag.Arg(0)
	d := drivers[name]
	if d == nil {
		var names []string
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "drivers:", strings.Join(names, " "))
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(runtime.NumCPU())
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	h := int64(0)
	for _, ch := range name {
		h = h*131 + int64(ch)
	}
	c := &Ctx{Rng: rand.New(rand.NewSource(*seed*1000003 + h)), Tier: *tier, Gen: *gen,
		w: bufio.NewWriterSize(f, 1<<20), f: f, start: time.Now()}
	func() {
		defer func() {
			if r := recover(); r != nil {
				broken(r, string(debug.Stack()))
			}
		}()
		d(c)
	}()
	c.finish()
	fmt.Printf("traces %d\n", c.Count)
	if harnessPanic != "" {
		fmt.Fprintln(os.Stderr, harnessPanic)
		os.Exit(4)
	}
}

// bigSizes are lengths around powers of two at which buffers, counters and length fields change.
var bigSizes = []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385,
	32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073}

// bigSize picks one of them, or any length below the largest, shorter ones more often.
func (c *Ctx) bigSize() int {
	if c.Rng.Intn(3) == 0 {
		return c.Rng.Intn(1 << uint(9+c.Rng.Intn(9)))
	}
	return bigSizes[c.Rng.Intn(len(bigSizes))]
}
