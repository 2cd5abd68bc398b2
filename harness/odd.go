package main

import "math/big"

// Multiples [k]G of the SM2 base point whose x or y has a long run of equal bits in some place other than the top:
// x or y, then t trailing zeros, f leading ones, m (M) zeros (ones) from bit 126 down, h zeros from bit 127 down,
// 2 (0) zeros from the top of the third (lowest) 64 bits; found by tools/shortpoints.
var oddPoints = []struct {
	kind, k string
	n       int
}{
	{"x0", "5eed00000000000000001234567890000000000000000005cec005", 29},
	{"x0", "5ef300000000000000001234567890000000000000000002c29756", 28},
	{"x0", "5ef200000000000000001234567890000000000000000001c96494", 27},
	{"x0", "5ef4000000000000000012345678900000000000000000001c92d5", 23},
	{"x0", "5ef400000000000000001234567890000000000000000000074d23", 17},
	{"x0", "5ef400000000000000001234567890000000000000000000008ea4", 17},
	{"x2", "5eef00000000000000001234567890000000000000000005993296", 31},
	{"x2", "5ef3000000000000000012345678900000000000000000060e639f", 29},
	{"x2", "5ef3000000000000000012345678900000000000000000041e5ac1", 29},
	{"x2", "5ef300000000000000001234567890000000000000000000b9315e", 23},
	{"x2", "5ef400000000000000001234567890000000000000000000068ec6", 17},
	{"x2", "5ef4000000000000000012345678900000000000000000000345f4", 17},
	{"xM", "5eee00000000000000001234567890000000000000000003d5a83d", 30},
	{"xM", "5ef100000000000000001234567890000000000000000004729918", 29},
	{"xM", "5ef000000000000000001234567890000000000000000000b96815", 29},
	{"xM", "5ef400000000000000001234567890000000000000000000e2bc6f", 23},
	{"xM", "5ef400000000000000001234567890000000000000000000092498", 17},
	{"xM", "5ef40000000000000000123456789000000000000000000005bce4", 17},
	{"xf", "5ef300000000000000001234567890000000000000000001fcbf8c", 28},
	{"xf", "5ef100000000000000001234567890000000000000000002582dfd", 27},
	{"xf", "5ef0000000000000000012345678900000000000000000027d4beb", 27},
	{"xf", "5ef3000000000000000012345678900000000000000000000191be", 23},
	{"xf", "5ef400000000000000001234567890000000000000000000044bd3", 17},
	{"xf", "5ef4000000000000000012345678900000000000000000000439e1", 17},
	{"xh", "5ef3000000000000000012345678900000000000000000060a69af", 28},
	{"xh", "5eee00000000000000001234567890000000000000000003251c7e", 28},
	{"xh", "5eed00000000000000001234567890000000000000000003da5cb6", 28},
	{"xh", "5ef30000000000000000123456789000000000000000000011a84b", 23},
	{"xh", "5ef40000000000000000123456789000000000000000000008a07d", 17},
	{"xh", "5ef4000000000000000012345678900000000000000000000622e3", 17},
	{"xm", "5ef100000000000000001234567890000000000000000001e00111", 29},
	{"xm", "5ef3000000000000000012345678900000000000000000060a69af", 27},
	{"xm", "5ef200000000000000001234567890000000000000000005336033", 27},
	{"xm", "5eef00000000000000001234567890000000000000000000c1cf27", 23},
	{"xm", "5ef300000000000000001234567890000000000000000000087234", 17},
	{"xm", "5ef30000000000000000123456789000000000000000000002e7ac", 17},
	{"xt", "5ef40000000000000000123456789000000000000000000368ce18", 29},
	{"xt", "5eef000000000000000012345678900000000000000000036dfb32", 28},
	{"xt", "5eed0000000000000000123456789000000000000000000399a142", 28},
	{"xt", "5ef400000000000000001234567890000000000000000000dd914f", 23},
	{"xt", "5ef400000000000000001234567890000000000000000000087b6d", 17},
	{"xt", "5ef40000000000000000123456789000000000000000000006a21f", 17},
	{"y0", "5ef400000000000000001234567890000000000000000002961c48", 30},
	{"y0", "5ef3000000000000000012345678900000000000000000057683a4", 28},
	{"y0", "5ef400000000000000001234567890000000000000000004c8e505", 27},
	{"y0", "5ef300000000000000001234567890000000000000000000225e8e", 23},
	{"y0", "5ef400000000000000001234567890000000000000000000094e23", 17},
	{"y0", "5ef4000000000000000012345678900000000000000000000840cc", 17},
	{"y2", "5ef1000000000000000012345678900000000000000000036a6b10", 31},
	{"y2", "5eee000000000000000012345678900000000000000000005b6812", 29},
	{"y2", "5ef2000000000000000012345678900000000000000000024e885c", 27},
	{"y2", "5ef400000000000000001234567890000000000000000000707eae", 23},
	{"y2", "5ef40000000000000000123456789000000000000000000000b307", 17},
	{"y2", "5ef4000000000000000012345678900000000000000000000053ec", 17},
	{"yM", "5ef200000000000000001234567890000000000000000001decf3c", 29},
	{"yM", "5ef40000000000000000123456789000000000000000000492cc5f", 28},
	{"yM", "5ef100000000000000001234567890000000000000000003163c4f", 28},
	{"yM", "5ef400000000000000001234567890000000000000000000e6424b", 23},
	{"yM", "5ef400000000000000001234567890000000000000000000090c0a", 17},
	{"yM", "5ef40000000000000000123456789000000000000000000008f0bb", 17},
	{"yf", "5eee0000000000000000123456789000000000000000000518f54e", 30},
	{"yf", "5eee0000000000000000123456789000000000000000000544312a", 29},
	{"yf", "5ef200000000000000001234567890000000000000000000c33413", 28},
	{"yf", "5ef40000000000000000123456789000000000000000000061e755", 23},
	{"yf", "5ef40000000000000000123456789000000000000000000006470f", 17},
	{"yf", "5ef400000000000000001234567890000000000000000000026e7d", 17},
	{"yh", "5ef400000000000000001234567890000000000000000000deca7e", 31},
	{"yh", "5ef0000000000000000012345678900000000000000000038c523d", 31},
	{"yh", "5ef0000000000000000012345678900000000000000000041ca46c", 30},
	{"yh", "5ef400000000000000001234567890000000000000000000d97a0c", 23},
	{"yh", "5ef400000000000000001234567890000000000000000000033f8e", 17},
	{"yh", "5ef400000000000000001234567890000000000000000000032a79", 17},
	{"ym", "5ef400000000000000001234567890000000000000000000deca7e", 30},
	{"ym", "5ef0000000000000000012345678900000000000000000038c523d", 30},
	{"ym", "5ef0000000000000000012345678900000000000000000041ca46c", 29},
	{"ym", "5ef4000000000000000012345678900000000000000000007d1de3", 23},
	{"ym", "5ef4000000000000000012345678900000000000000000000907c1", 17},
	{"ym", "5ef40000000000000000123456789000000000000000000002f42e", 17},
	{"yt", "5ef40000000000000000123456789000000000000000000495701d", 29},
	{"yt", "5ef2000000000000000012345678900000000000000000036d2a4f", 28},
	{"yt", "5eed0000000000000000123456789000000000000000000256a78c", 28},
	{"yt", "5ef400000000000000001234567890000000000000000000ea2f14", 23},
	{"yt", "5ef4000000000000000012345678900000000000000000000493a2", 17},
	{"yt", "5ef400000000000000001234567890000000000000000000019a62", 17},
}

// Multiples [k]G for which the first block of the key stream, SM3(x || y || 1), begins with zero octets: three, then
// two; found by tools/shortpoints.
var zeroStreams = []string{
	"5ef2000000000000000012345678900000000000000000005bc634",
	"5ef10000000000000000123456789000000000000000000069e5f8",
	"5eed0000000000000000123456789000000000000000000046399a",
	"5eed00000000000000001234567890000000000000000000455d9b",
	"5ef00000000000000000123456789000000000000000000019be71",
	"5eef0000000000000000123456789000000000000000000115ace7",
	"5eee00000000000000001234567890000000000000000000739a87",
	"5eee000000000000000012345678900000000000000000004abecc",
	"5eed00000000000000001234567890000000000000000000c461a8",
	"5ef0000000000000000012345678900000000000000000000091e9",
	"5eef0000000000000000123456789000000000000000000000826d",
	"5eee00000000000000001234567890000000000000000000005386",
	"5eed000000000000000012345678900000000000000000000043ac",
	"5eed000000000000000012345678900000000000000000000025b0",
}

// zeroVia is a scalar t such that the key stream of [t]P begins with two or three zero octets, for P = [d]G.
func (c *Ctx) zeroVia(d *big.Int) *big.Int {
	t, _ := new(big.Int).SetString(zeroStreams[c.Rng.Intn(len(zeroStreams))], 16)
	return modN(t.Mul(t, new(big.Int).ModInverse(d, stdN)))
}

// oddScalar is a scalar k such that [k]G is one of them; x only: with the run in x.
func (c *Ctx) oddScalar(x bool) *big.Int {
	for {
		o := oddPoints[c.Rng.Intn(len(oddPoints))]
		if !x || o.kind[0] == 'x' {
			return c.oddAt(o.k)
		}
	}
}

func (c *Ctx) oddAt(h string) *big.Int {
	k, _ := new(big.Int).SetString(h, 16)
	if c.Rng.Intn(2) == 0 {
		k.Sub(stdN, k)
	}
	return k
}

// oddVia is a scalar t such that [t]P is one of them, for P = [d]G.
func (c *Ctx) oddVia(d *big.Int) *big.Int {
	t := c.oddScalar(false)
	return modN(t.Mul(t, new(big.Int).ModInverse(d, stdN)))
}
