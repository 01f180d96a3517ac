package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Terms are hash-consed SMT terms. Sort is given by w: 0 is Bool, 1..64 is a
// bit-vector of that width, -1 is (Array (_ BitVec 64) (_ BitVec 8)).
// Floating point values are bit-vectors of width 32/64 (their IEEE bits).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // hi, lo
	OZext
	OSext
	OSelect
	OStore
	OFadd
	OFsub
	OFmul
	OFdiv
	OFsqrt
	OFlt
	OFle
	OFeq
	OFtoF  // float -> float of width w
	OFtoSI // float -> signed int of width w, truncating
	OFtoUI
	OSItoF
	OUItoF
)

type Term struct {
	op     Op
	w      int16
	hi, lo int16
	c      uint64
	a      [3]*Term
	n      uint8
	id     uint32
	name   string
	sym    bool // contains a variable
	fp     bool // contains floating point arithmetic
}

type tkey struct {
	op         Op
	w, hi, lo  int16
	c          uint64
	a0, a1, a2 *Term
	name       string
}

type Ctx struct {
	tab   map[tkey]*Term
	next  uint32
	True  *Term
	False *Term
	small [65][]*Term
	upper map[*Term]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[tkey]*Term), upper: make(map[*Term]uint64)}
	c.True = c.mk(OConst, 0, 0, 0, 1, nil, nil, nil, "")
	c.False = c.mk(OConst, 0, 0, 0, 0, nil, nil, nil, "")
	for _, w := range []int{8, 16, 32, 64} {
		c.small[w] = make([]*Term, 257)
		for i := range c.small[w] {
			if w == 8 && i > 255 {
				continue
			}
			c.small[w][i] = c.mk(OConst, int16(w), 0, 0, uint64(i), nil, nil, nil, "")
		}
	}
	return c
}

func (c *Ctx) mk(op Op, w, hi, lo int16, cv uint64, a0, a1, a2 *Term, name string) *Term {
	k := tkey{op, w, hi, lo, cv, a0, a1, a2, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, w: w, hi: hi, lo: lo, c: cv, a: [3]*Term{a0, a1, a2}, id: c.next, name: name}
	switch {
	case a2 != nil:
		t.n = 3
	case a1 != nil:
		t.n = 2
	case a0 != nil:
		t.n = 1
	}
	t.sym = op == OVar || (a0 != nil && a0.sym) || (a1 != nil && a1.sym) || (a2 != nil && a2.sym)
	switch op {
	case OFadd, OFsub, OFmul, OFdiv, OFsqrt:
		t.fp = true
	default:
		t.fp = (a0 != nil && a0.fp) || (a1 != nil && a1.fp) || (a2 != nil && a2.fp)
	}
	c.tab[k] = t
	return t
}

func mask(w int16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int16) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *Ctx) BV(w int, v uint64) *Term {
	v &= mask(int16(w))
	if v <= 256 && c.small[w] != nil && int(v) < len(c.small[w]) && c.small[w][v] != nil {
		return c.small[w][v]
	}
	return c.mk(OConst, int16(w), 0, 0, v, nil, nil, nil, "")
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w int) *Term {
	return c.mk(OVar, int16(w), 0, 0, 0, nil, nil, nil, name)
}

func (c *Ctx) Not(x *Term) *Term {
	if x.isConst() {
		return c.Bool(x.c == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return c.mk(ONot, 0, 0, 0, 0, x, nil, nil, "")
}

func (c *Ctx) And(x, y *Term) *Term {
	if x.isConst() {
		if x.c == 0 {
			return x
		}
		return y
	}
	if y.isConst() {
		if y.c == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return c.False
	}
	return c.mk(OAnd, 0, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) Or(x, y *Term) *Term {
	if x.isConst() {
		if x.c != 0 {
			return x
		}
		return y
	}
	if y.isConst() {
		if y.c != 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return c.True
	}
	return c.mk(OOr, 0, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.c == y.c)
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.c != 0 {
				return x
			}
			return c.Not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case OZext:
			in := x.a[0]
			if y.c&^mask(in.w) != 0 {
				return c.False
			}
			return c.Eq(in, c.BV(int(in.w), y.c))
		case OSext:
			in := x.a[0]
			if uint64(sx(y.c&mask(in.w), in.w))&mask(x.w) != y.c {
				return c.False
			}
			return c.Eq(in, c.BV(int(in.w), y.c))
		case OConcat:
			lo := x.a[1]
			return c.And(c.Eq(x.a[0], c.BV(int(x.a[0].w), y.c>>uint(lo.w))), c.Eq(lo, c.BV(int(lo.w), y.c)))
		case OIte:
			a, b := x.a[1], x.a[2]
			if a.isConst() && b.isConst() {
				ra, rb := a.c == y.c, b.c == y.c
				switch {
				case ra && rb:
					return c.True
				case ra:
					return x.a[0]
				case rb:
					return c.Not(x.a[0])
				default:
					return c.False
				}
			}
		case OAdd:
			if x.a[1].isConst() {
				return c.Eq(x.a[0], c.BV(int(x.w), y.c-x.a[1].c))
			}
		}
	}
	if x.id > y.id && !y.isConst() {
		x, y = y, x
	}
	return c.mk(OEq, 0, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b.isConst() {
		if b.c != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if b.op == ONot {
		return c.Ite(b.a[0], y, x)
	}
	if x.w == 0 {
		if x.isConst() {
			if x.c != 0 {
				return c.Or(b, y)
			}
			return c.And(c.Not(b), y)
		}
		if y.isConst() {
			if y.c != 0 {
				return c.Or(c.Not(b), x)
			}
			return c.And(b, x)
		}
	}
	return c.mk(OIte, x.w, 0, 0, 0, b, x, y, "")
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor, OFadd, OFmul, OFeq:
		return true
	}
	return false
}

// umax is a cheap upper bound on the unsigned value of t.
func (c *Ctx) umax(t *Term) uint64 {
	return c.umaxd(t, 4)
}

func (c *Ctx) umaxd(t *Term, d int) uint64 {
	m := mask(t.w)
	if t.isConst() {
		return t.c
	}
	if u, ok := c.upper[t]; ok && u < m {
		m = u
	}
	if d == 0 {
		return m
	}
	switch t.op {
	case OZext:
		return min(m, c.umaxd(t.a[0], d-1))
	case OBand:
		return min(m, c.umaxd(t.a[0], d-1), c.umaxd(t.a[1], d-1))
	case OIte:
		return min(m, max(c.umaxd(t.a[1], d-1), c.umaxd(t.a[2], d-1)))
	case OAdd:
		a, b := c.umaxd(t.a[0], d-1), c.umaxd(t.a[1], d-1)
		if s := a + b; s >= a && s <= m {
			return s
		}
	case OLshr:
		if t.a[1].isConst() && t.a[1].c < 64 {
			return min(m, c.umaxd(t.a[0], d-1)>>t.a[1].c)
		}
	case OUrem:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return min(m, t.a[1].c-1)
		}
	case OUdiv:
		if t.a[1].isConst() && t.a[1].c > 0 {
			return min(m, c.umaxd(t.a[0], d-1)/t.a[1].c)
		}
	case OConcat:
		if t.a[0].isConst() {
			return min(m, t.a[0].c<<uint(t.a[1].w)|c.umaxd(t.a[1], d-1))
		}
	}
	return m
}

func foldBin(op Op, w int16, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		sxv, syv := sx(x, w), sx(y, w)
		if syv == 0 {
			if sxv < 0 {
				return 1, true
			}
			return m, true
		}
		if syv == -1 {
			return uint64(-sxv) & m, true
		}
		return uint64(sxv/syv) & m, true
	case OSrem:
		sxv, syv := sx(x, w), sx(y, w)
		if syv == 0 {
			return x, true
		}
		if syv == -1 {
			return 0, true
		}
		return uint64(sxv%syv) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OBxor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

func foldCmp(op Op, w int16, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("foldCmp")
}

type seg struct {
	w int16
	t *Term
}

// pieces splits t in segments, most significant first.
func (c *Ctx) pieces(t *Term) []seg {
	switch t.op {
	case OConcat:
		return append(append([]seg{}, c.pieces(t.a[0])...), c.pieces(t.a[1])...)
	case OZext:
		return append([]seg{{t.w - t.a[0].w, c.BV(int(t.w-t.a[0].w), 0)}}, c.pieces(t.a[0])...)
	}
	return []seg{{t.w, t}}
}

func (c *Ctx) orPieces(x, y *Term) *Term {
	px, py := c.pieces(x), c.pieces(y)
	if len(px) == 1 && len(py) == 1 {
		return nil
	}
	var out []*Term
	for len(px) > 0 && len(py) > 0 {
		a, b := px[0], py[0]
		w := min(a.w, b.w)
		at, bt := a.t, b.t
		if a.w > w {
			at = c.Extract(a.t, a.w-1, a.w-w)
			px[0] = seg{a.w - w, c.Extract(a.t, a.w-w-1, 0)}
		} else {
			px = px[1:]
		}
		if b.w > w {
			bt = c.Extract(b.t, b.w-1, b.w-w)
			py[0] = seg{b.w - w, c.Extract(b.t, b.w-w-1, 0)}
		} else {
			py = py[1:]
		}
		switch {
		case at.isConst() && at.c == 0:
			out = append(out, bt)
		case bt.isConst() && bt.c == 0:
			out = append(out, at)
		case at.isConst() && bt.isConst():
			out = append(out, c.BV(int(w), at.c|bt.c))
		default:
			return nil
		}
	}
	r := out[0]
	for _, t := range out[1:] {
		r = c.Concat(r, t)
	}
	return r
}

func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %d width mismatch %d %d", op, x.w, y.w))
	}
	w := x.w
	if x.isConst() && y.isConst() {
		v, ok := foldBin(op, w, x.c, y.c)
		if ok {
			return c.BV(int(w), v)
		}
	}
	if commut(op) && (x.isConst() || (!y.isConst() && x.id > y.id)) {
		x, y = y, x
	}
	yc := y.isConst()
	switch op {
	case OAdd:
		if yc && y.c == 0 {
			return x
		}
		if yc && x.op == OAdd && x.a[1].isConst() {
			return c.Bin(OAdd, x.a[0], c.BV(int(w), x.a[1].c+y.c))
		}
	case OSub:
		if yc {
			return c.Bin(OAdd, x, c.BV(int(w), -y.c))
		}
		if x == y {
			return c.BV(int(w), 0)
		}
		// (a+k) - a
		if x.op == OAdd && x.a[0] == y {
			return x.a[1]
		}
		if x.op == OAdd && x.a[1] == y {
			return x.a[0]
		}
	case OMul:
		if yc && y.c == 0 {
			return y
		}
		if yc && y.c == 1 {
			return x
		}
		if yc && bits.OnesCount64(y.c) == 1 {
			return c.Bin(OShl, x, c.BV(int(w), uint64(bits.TrailingZeros64(y.c))))
		}
	case OUdiv, OSdiv:
		if yc && y.c == 1 {
			return x
		}
		if op == OUdiv && yc && bits.OnesCount64(y.c) == 1 {
			return c.Bin(OLshr, x, c.BV(int(w), uint64(bits.TrailingZeros64(y.c))))
		}
	case OUrem:
		if yc && bits.OnesCount64(y.c) == 1 {
			return c.Bin(OBand, x, c.BV(int(w), y.c-1))
		}
	case OBand:
		if x == y {
			return x
		}
		if yc {
			if y.c == 0 {
				return y
			}
			if y.c == mask(w) {
				return x
			}
			if y.c&(y.c+1) == 0 { // low mask
				k := int16(bits.OnesCount64(y.c))
				return c.Zext(c.Extract(x, k-1, 0), w)
			}
			// contiguous mask
			tz := int16(bits.TrailingZeros64(y.c))
			if s := y.c >> uint(tz); s&(s+1) == 0 {
				k := int16(bits.OnesCount64(s))
				mid := c.Extract(x, tz+k-1, tz)
				r := c.Concat(mid, c.BV(int(tz), 0))
				return c.Zext(r, w)
			}
		}
	case OBor:
		if x == y {
			return x
		}
		if yc {
			if y.c == 0 {
				return x
			}
			if y.c == mask(w) {
				return y
			}
		}
		if r := c.orPieces(x, y); r != nil {
			return r
		}
	case OBxor:
		if x == y {
			return c.BV(int(w), 0)
		}
		if yc && y.c == 0 {
			return x
		}
	case OShl:
		if yc {
			if y.c == 0 {
				return x
			}
			if y.c >= uint64(w) {
				return c.BV(int(w), 0)
			}
			k := int16(y.c)
			return c.Concat(c.Extract(x, w-k-1, 0), c.BV(int(k), 0))
		}
		if x.isConst() && x.c == 0 {
			return x
		}
	case OLshr:
		if yc {
			if y.c == 0 {
				return x
			}
			if y.c >= uint64(w) {
				return c.BV(int(w), 0)
			}
			k := int16(y.c)
			return c.Zext(c.Extract(x, w-1, k), w)
		}
		if x.isConst() && x.c == 0 {
			return x
		}
	case OAshr:
		if yc {
			if y.c == 0 {
				return x
			}
			k := y.c
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return c.Sext(c.Extract(x, w-1, int16(k)), w)
		}
	}
	return c.mk(op, w, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) Cmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Cmp width mismatch %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return c.Bool(foldCmp(op, x.w, x.c, y.c))
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	half := uint64(1) << uint(x.w-1)
	switch op {
	case OUlt:
		if y.isConst() && c.umax(x) < y.c {
			return c.True
		}
		if x.isConst() && c.umax(y) <= x.c {
			return c.False
		}
	case OUle:
		if y.isConst() && c.umax(x) <= y.c {
			return c.True
		}
		if x.isConst() && c.umax(y) < x.c {
			return c.False
		}
		if x.isConst() && x.c == 0 {
			return c.True
		}
	case OSlt, OSle:
		// both known non-negative: use unsigned reasoning
		ux, uy := c.umax(x), c.umax(y)
		if ux < half && uy < half {
			if op == OSlt {
				return c.Cmp(OUlt, x, y)
			}
			return c.Cmp(OUle, x, y)
		}
		if ux < half && y.isConst() && y.c >= half { // x >= 0 > y
			return c.False
		}
		if uy < half && x.isConst() && x.c >= half {
			return c.True
		}
		if y.isConst() && x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
			return c.Ite(x.a[0], c.Cmp(op, x.a[1], y), c.Cmp(op, x.a[2], y))
		}
		// sign extended operand against a constant
		if x.op == OSext && y.isConst() {
			in := x.a[0]
			lo, hi := -int64(1)<<uint(in.w-1), int64(1)<<uint(in.w-1)-1
			v := sx(y.c, y.w)
			switch {
			case v < lo:
				return c.False
			case v > hi:
				return c.True
			default:
				return c.Cmp(op, in, c.BV(int(in.w), uint64(v)))
			}
		}
		if y.op == OSext && x.isConst() {
			in := y.a[0]
			lo, hi := -int64(1)<<uint(in.w-1), int64(1)<<uint(in.w-1)-1
			v := sx(x.c, x.w)
			switch {
			case v < lo:
				return c.True
			case v > hi:
				return c.False
			default:
				return c.Cmp(op, c.BV(int(in.w), uint64(v)), in)
			}
		}
	}
	return c.mk(op, 0, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) Extract(x *Term, hi, lo int16) *Term {
	if hi < lo {
		panic("bad extract")
	}
	if lo == 0 && hi == x.w-1 {
		return x
	}
	w := hi - lo + 1
	switch x.op {
	case OConst:
		return c.BV(int(w), x.c>>uint(lo))
	case OExtract:
		return c.Extract(x.a[0], hi+x.lo, lo+x.lo)
	case OConcat:
		l := x.a[1]
		if hi < l.w {
			return c.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return c.Extract(x.a[0], hi-l.w, lo-l.w)
		}
		return c.Concat(c.Extract(x.a[0], hi-l.w, 0), c.Extract(l, l.w-1, lo))
	case OZext:
		in := x.a[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo >= in.w {
			return c.BV(int(w), 0)
		}
		return c.Zext(c.Extract(in, in.w-1, lo), w)
	case OSext:
		in := x.a[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo < in.w {
			return c.Sext(c.Extract(in, in.w-1, lo), w)
		}
	case OBand, OBor, OBxor:
		return c.Bin(x.op, c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() {
			return c.Ite(x.a[0], c.Extract(x.a[1], hi, lo), c.Extract(x.a[2], hi, lo))
		}
	case OAdd, OSub:
		if lo == 0 {
			return c.Bin(x.op, c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	}
	return c.mk(OExtract, w, hi, lo, 0, x, nil, nil, "")
}

func (c *Ctx) Concat(x, y *Term) *Term {
	w := x.w + y.w
	if w > 64 {
		panic("concat > 64")
	}
	if x.isConst() && y.isConst() {
		return c.BV(int(w), x.c<<uint(y.w)|y.c)
	}
	if x.isConst() && x.c == 0 {
		return c.Zext(y, w)
	}
	if x.op == OExtract && y.op == OExtract && x.a[0] == y.a[0] && x.lo == y.hi+1 {
		return c.Extract(x.a[0], x.hi, y.lo)
	}
	// re-associate so that adjacent extracts / constants meet
	if y.op == OConcat {
		return c.Concat(c.Concat(x, y.a[0]), y.a[1])
	}
	if x.op == OConcat {
		l := x.a[1]
		if (l.op == OExtract && y.op == OExtract && l.a[0] == y.a[0] && l.lo == y.hi+1) || (l.isConst() && y.isConst()) {
			return c.Concat(x.a[0], c.Concat(l, y))
		}
	}
	if x.op == OZext {
		return c.Zext(c.Concat(x.a[0], y), w)
	}
	return c.mk(OConcat, w, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) Zext(x *Term, w int16) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BV(int(w), x.c)
	}
	if x.op == OZext {
		return c.Zext(x.a[0], w)
	}
	return c.mk(OZext, w, 0, 0, 0, x, nil, nil, "")
}

func (c *Ctx) Sext(x *Term, w int16) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BV(int(w), uint64(sx(x.c, x.w)))
	}
	if x.op == OSext {
		return c.Sext(x.a[0], w)
	}
	if x.op == OZext {
		return c.Zext(x, w)
	}
	return c.mk(OSext, w, 0, 0, 0, x, nil, nil, "")
}

func (c *Ctx) Select(a, i *Term) *Term {
	for a.op == OStore {
		e := c.Eq(a.a[1], i)
		if e == c.True {
			return a.a[2]
		}
		if e == c.False {
			a = a.a[0]
			continue
		}
		break
	}
	return c.mk(OSelect, 8, 0, 0, 0, a, i, nil, "")
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	return c.mk(OStore, -1, 0, 0, 0, a, i, v, "")
}

// ---- floats

func fval(v uint64, w int16) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(f float64, w int16) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func foldF(op Op, w int16, x, y uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFadd:
			r = a + b
		case OFsub:
			r = a - b
		case OFmul:
			r = a * b
		case OFdiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFadd:
		r = a + b
	case OFsub:
		r = a - b
	case OFmul:
		r = a * b
	case OFdiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func foldFcmp(op Op, w int16, x, y uint64) bool {
	a, b := fval(x, w), fval(y, w)
	switch op {
	case OFlt:
		return a < b
	case OFle:
		return a <= b
	case OFeq:
		return a == b
	}
	panic("foldFcmp")
}

func (c *Ctx) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.BV(int(x.w), foldF(op, x.w, x.c, y.c))
	}
	if commut(op) && (x.isConst() || (!y.isConst() && x.id > y.id)) {
		x, y = y, x
	}
	if op == OFsub { // a - b == a + (-b)
		return c.FBin(OFadd, x, c.FNeg(y))
	}
	if op == OFmul && y.isConst() && fval(y.c, y.w) == 1 {
		return x
	}
	return c.mk(op, x.w, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) FCmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.Bool(foldFcmp(op, x.w, x.c, y.c))
	}
	if op == OFeq && x.id > y.id {
		x, y = y, x
	}
	return c.mk(op, 0, 0, 0, 0, x, y, nil, "")
}

func (c *Ctx) FNeg(x *Term) *Term {
	return c.Bin(OBxor, x, c.BV(int(x.w), uint64(1)<<uint(x.w-1)))
}

func (c *Ctx) FSqrt(x *Term) *Term {
	if x.isConst() {
		return c.BV(int(x.w), fbits(math.Sqrt(fval(x.c, x.w)), x.w))
	}
	return c.mk(OFsqrt, x.w, 0, 0, 0, x, nil, nil, "")
}

func foldFConv(op Op, x uint64, xw, w int16) uint64 {
	switch op {
	case OFtoF:
		return fbits(fval(x, xw), w)
	case OFtoSI:
		f := fval(x, xw)
		if w == 64 {
			return uint64(int64(f))
		}
		return uint64(int64(f)) & mask(w)
	case OFtoUI:
		f := fval(x, xw)
		return uint64(f) & mask(w)
	case OSItoF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(x, xw))))
		}
		return math.Float64bits(float64(sx(x, xw)))
	case OUItoF:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	panic("foldFConv")
}

func (c *Ctx) FConv(op Op, x *Term, w int16) *Term {
	if op == OFtoF && x.w == w {
		return x
	}
	if x.isConst() {
		return c.BV(int(w), foldFConv(op, x.c, x.w, w))
	}
	return c.mk(op, w, 0, 0, 0, x, nil, nil, "")
}

// ---- concrete evaluation under a model

type Model struct {
	v   map[string]uint64
	arr map[string]*ArrModel
}

type ArrModel struct {
	m   map[uint64]byte
	def byte
}

func NewModel() *Model { return &Model{v: map[string]uint64{}, arr: map[string]*ArrModel{}} }

type Evaler struct {
	m    *Model
	memo map[*Term]uint64
}

func (m *Model) Evaler() *Evaler { return &Evaler{m, map[*Term]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaler) selectAt(a *Term, i uint64) uint64 {
	for a.op == OStore {
		if e.Eval(a.a[1]) == i {
			return e.Eval(a.a[2])
		}
		a = a.a[0]
	}
	if a.op == OIte {
		if e.Eval(a.a[0]) != 0 {
			return e.selectAt(a.a[1], i)
		}
		return e.selectAt(a.a[2], i)
	}
	am := e.m.arr[a.name]
	if am == nil {
		return 0
	}
	if v, ok := am.m[i]; ok {
		return uint64(v)
	}
	return uint64(am.def)
}

func (e *Evaler) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OVar:
		r = e.m.v[t.name]
	case ONot:
		r = 1 - e.Eval(t.a[0])
	case OAnd:
		r = e.Eval(t.a[0]) & e.Eval(t.a[1])
	case OOr:
		r = e.Eval(t.a[0]) | e.Eval(t.a[1])
	case OEq:
		r = b2u(e.Eval(t.a[0]) == e.Eval(t.a[1]))
	case OIte:
		if e.Eval(t.a[0]) != 0 {
			r = e.Eval(t.a[1])
		} else {
			r = e.Eval(t.a[2])
		}
	case OAdd, OSub, OMul, OUdiv, OSdiv, OUrem, OSrem, OBand, OBor, OBxor, OShl, OLshr, OAshr:
		r, _ = foldBin(t.op, t.w, e.Eval(t.a[0]), e.Eval(t.a[1]))
	case OUlt, OUle, OSlt, OSle:
		r = b2u(foldCmp(t.op, t.a[0].w, e.Eval(t.a[0]), e.Eval(t.a[1])))
	case OConcat:
		r = e.Eval(t.a[0])<<uint(t.a[1].w) | e.Eval(t.a[1])
	case OExtract:
		r = e.Eval(t.a[0]) >> uint(t.lo) & mask(t.w)
	case OZext:
		r = e.Eval(t.a[0])
	case OSext:
		r = uint64(sx(e.Eval(t.a[0]), t.a[0].w)) & mask(t.w)
	case OSelect:
		r = e.selectAt(t.a[0], e.Eval(t.a[1]))
	case OFadd, OFsub, OFmul, OFdiv:
		r = foldF(t.op, t.w, e.Eval(t.a[0]), e.Eval(t.a[1]))
	case OFlt, OFle, OFeq:
		r = b2u(foldFcmp(t.op, t.a[0].w, e.Eval(t.a[0]), e.Eval(t.a[1])))
	case OFsqrt:
		r = fbits(math.Sqrt(fval(e.Eval(t.a[0]), t.w)), t.w)
	case OFtoF, OFtoSI, OFtoUI, OSItoF, OUItoF:
		r = foldFConv(t.op, e.Eval(t.a[0]), t.a[0].w, t.w)
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	e.memo[t] = r
	return r
}
