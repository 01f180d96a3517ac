package main

import (
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Character classes are decided by one term instead of forking.

var classes = map[string]func(rune) bool{
	"unicode.IsLetter":  unicode.IsLetter,
	"unicode.IsNumber":  unicode.IsNumber,
	"unicode.IsDigit":   unicode.IsDigit,
	"unicode.IsSpace":   unicode.IsSpace,
	"unicode.IsUpper":   unicode.IsUpper,
	"unicode.IsLower":   unicode.IsLower,
	"unicode.IsTitle":   unicode.IsTitle,
	"unicode.IsPunct":   unicode.IsPunct,
	"unicode.IsSymbol":  unicode.IsSymbol,
	"unicode.IsControl": unicode.IsControl,
	"unicode.IsMark":    unicode.IsMark,
	"unicode.IsPrint":   unicode.IsPrint,
	"unicode.IsGraphic": unicode.IsGraphic,
}

func init() {
	for n := range classes {
		n := n
		intrinsics[n] = func(m *M, g *G, a []Value) (Value, bool) { return m.class(n, a[0].(*Term)), true }
	}
}

// class tells whether r is in the class tested by a function.
func (m *M) class(name string, r *Term) *Term {
	f := classes[name]
	if r.isConst() {
		return m.c.Bool(f(rune(int32(r.c))))
	}
	last := rune(unicode.MaxRune)
	if r.op == OZext && r.a[0].w <= 16 {
		last = 1<<r.a[0].w - 1
	}
	t := m.c.False
	for i := rune(0); i <= last; i++ {
		if !f(i) {
			continue
		}
		from := i
		for i < last && f(i+1) {
			i++
		}
		in := m.c.Eq(r, m.c.BV(32, uint64(from)))
		if i > from {
			in = m.c.Cmp(OUle, m.c.Bin(OSub, r, m.c.BV(32, uint64(from))), m.c.BV(32, uint64(i-from)))
		}
		t = m.c.Or(t, in)
	}
	return t
}

// predicateCall tells whether a predicate may contain a call.
func predicateCall(c *ssa.Call, depth int) bool {
	fn := c.Call.StaticCallee()
	if fn == nil || depth > 3 {
		return false
	}
	if _, ok := classes[fnName(fn)]; ok {
		return true
	}
	return intrinsics[fnName(fn)] == nil && predicateOrder(fn, depth+1) != nil
}
