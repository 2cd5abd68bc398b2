package main

import (
	"math/big"
)

// A small DER tree for building well-formed and deliberately wrong encodings.
type node struct {
	tag  byte
	body []byte
	kids []*node
	cons bool
}

func prim(tag byte, body []byte) *node { return &node{tag: tag, body: body} }
func cons(tag byte, kids ...*node) *node {
	return &node{tag: tag, kids: kids, cons: true}
}

func derLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	b := big.NewInt(int64(n)).Bytes()
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func (n *node) content() []byte {
	if !n.cons {
		return n.body
	}
	var b []byte
	for _, k := range n.kids {
		b = append(b, k.enc()...)
	}
	return b
}

func (n *node) enc() []byte {
	c := n.content()
	return append(append([]byte{n.tag}, derLen(len(c))...), c...)
}

func derIntBytes(x *big.Int) []byte {
	if x.Sign() >= 0 {
		b := x.Bytes()
		if len(b) == 0 || b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	y := new(big.Int).Not(x) // -x-1
	b := y.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	for i := range b {
		b[i] ^= 0xff
	}
	return b
}

func derInt(x *big.Int) *node { return prim(2, derIntBytes(x)) }

// parseDER reads a tree back (lenient, for mutation of given encodings); nil if not parseable
func parseDER(b []byte) []*node {
	var out []*node
	for len(b) > 0 {
		if len(b) < 2 {
			return nil
		}
		n, h := int(b[1]), 2
		if n >= 128 {
			k := n - 128
			if k == 0 || k > 3 || len(b) < 2+k {
				return nil
			}
			n = 0
			for i := 0; i < k; i++ {
				n = n<<8 | int(b[2+i])
			}
			h += k
		}
		if len(b) < h+n {
			return nil
		}
		nd := &node{tag: b[0], body: append([]byte(nil), b[h:h+n]...)}
		if b[0]&0x20 != 0 {
			nd.kids = parseDER(nd.body)
			if nd.kids != nil || n == 0 {
				nd.cons = true
			}
		}
		out = append(out, nd)
		b = b[h+n:]
	}
	return out
}

// encWith encodes the tree, using rule for the node at (a preorder) index at.
func (n *node) encWith(idx *int, at int, rule func(n *node, content []byte) []byte) []byte {
	me := *idx
	*idx++
	var c []byte
	if n.cons {
		for _, k := range n.kids {
			c = append(c, k.encWith(idx, at, rule)...)
		}
	} else {
		c = n.body
	}
	if me == at {
		return rule(n, c)
	}
	return append(append([]byte{n.tag}, derLen(len(c))...), c...)
}

func (n *node) count() int {
	t := 1
	if n.cons {
		for _, k := range n.kids {
			t += k.count()
		}
	}
	return t
}

// the ways to encode one element wrongly (or at least differently)
func (c *Ctx) derRules() []func(n *node, b []byte) []byte {
	hdr := func(tag byte, l []byte, b []byte) []byte { return append(append([]byte{tag}, l...), b...) }
	be := func(n, w int) []byte {
		o := make([]byte, w)
		for i := w - 1; i >= 0; i-- {
			o[i] = byte(n)
			n >>= 8
		}
		return o
	}
	return []func(n *node, b []byte) []byte{
		func(n *node, b []byte) []byte { return hdr(n.tag, append([]byte{0x81}, be(len(b), 1)...), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, append([]byte{0x82}, be(len(b), 2)...), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, append([]byte{0x83}, be(len(b), 3)...), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, append([]byte{0x84}, be(len(b), 4)...), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, append([]byte{0x85}, be(len(b), 5)...), b) },
		func(n *node, b []byte) []byte { return append(hdr(n.tag, []byte{0x80}, b), 0, 0) }, // indefinite
		func(n *node, b []byte) []byte { return hdr(n.tag, derLen(len(b)+1), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, []byte{0x84, 0x7f, 0xff, 0xff, 0xff}, b) },
		func(n *node, b []byte) []byte { return hdr(n.tag, derLen(len(b)+1), append([]byte{0}, b...)) }, // leading zero
		func(n *node, b []byte) []byte { return hdr(n.tag, derLen(len(b)+1), append([]byte{0xff}, b...)) },
		func(n *node, b []byte) []byte { return hdr(n.tag, derLen(len(b)+2), append([]byte{0, 0}, b...)) },
		func(n *node, b []byte) []byte {
			return hdr(n.tag, derLen(len(b)+2), append(append([]byte{}, b...), 5, 0))
		}, // extra element or octets
		func(n *node, b []byte) []byte {
			return hdr(n.tag, derLen(len(b)+3), append(append([]byte{}, b...), 2, 1, 0))
		},
		func(n *node, b []byte) []byte {
			return hdr(n.tag, derLen(len(b)+1), append(append([]byte{}, b...), 0))
		},
		func(n *node, b []byte) []byte { // drop the last octet, with the length
			if len(b) == 0 {
				return nil
			}
			return hdr(n.tag, derLen(len(b)-1), b[:len(b)-1])
		},
		func(n *node, b []byte) []byte { // drop the first octet
			if len(b) == 0 {
				return nil
			}
			return hdr(n.tag, derLen(len(b)-1), b[1:])
		},
		func(n *node, b []byte) []byte { return nil },                        // element missing
		func(n *node, b []byte) []byte { return hdr(n.tag, []byte{0}, nil) }, // empty
		func(n *node, b []byte) []byte { x := hdr(n.tag, derLen(len(b)), b); return append(x, x...) },
		func(n *node, b []byte) []byte { return hdr(n.tag^0x20, derLen(len(b)), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag^0x40, derLen(len(b)), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag^0x80, derLen(len(b)), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag^0x01, derLen(len(b)), b) },
		func(n *node, b []byte) []byte { return hdr(n.tag^0x06, derLen(len(b)), b) },
		func(n *node, b []byte) []byte {
			return hdr(n.tag|0x1f, append([]byte{n.tag & 0x1f}, derLen(len(b))...), b)
		}, // high tag form
		func(n *node, b []byte) []byte {
			x := hdr(n.tag, derLen(len(b)), b)
			return append(hdr(0x30, derLen(len(x)), nil), x...)
		},
	}
}

// derVariants gives every rule applied to every element (a sample of them if max > 0).
func (c *Ctx) derVariants(b []byte, max int) [][]byte {
	ts := parseDER(b)
	if len(ts) != 1 {
		return nil
	}
	var out [][]byte
	for at := 0; at < ts[0].count(); at++ {
		for _, rule := range c.derRules() {
			i := 0
			out = append(out, ts[0].encWith(&i, at, rule))
		}
	}
	c.Rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if max > 0 && len(out) > max {
		out = out[:max]
	}
	return out
}

// truncations and extensions
func (c *Ctx) cuts(b []byte, step int) [][]byte {
	var out [][]byte
	for n := 0; n < len(b); n += 1 + c.Rng.Intn(step) {
		out = append(out, b[:n])
	}
	out = append(out, append(cp(b), 0), append(cp(b), 0xff), append(cp(b), c.Bytes(7)...), append(cp(b), b...), append(B{0}, b...))
	return out
}

func flip(b []byte, bit int) []byte {
	r := append([]byte(nil), b...)
	r[bit/8] ^= 1 << uint(7-bit%8)
	return r
}
