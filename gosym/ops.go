package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func constString(x *ssa.Const) string {
	if x.Value.Kind() == constant.String {
		return constant.StringVal(x.Value)
	}
	if v, ok := constant.Int64Val(x.Value); ok {
		return string(rune(v))
	}
	unsup("string constant %v", x)
	return ""
}

func constBool(x *ssa.Const) bool { return constant.BoolVal(x.Value) }

func constBits(x *ssa.Const) uint64 {
	v := constant.ToInt(x.Value)
	if i, ok := constant.Int64Val(v); ok {
		return uint64(i)
	}
	if u, ok := constant.Uint64Val(v); ok {
		return u
	}
	unsup("constant %v", x)
	return 0
}

func (m *M) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eqTyped(xt, yt, x, y)
	case token.NEQ:
		return c.Not(m.eqTyped(xt, yt, x, y))
	}
	if isString(xt) {
		a, b := x.(*Str), y.(*Str)
		switch op {
		case token.ADD:
			return m.strCat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return c.Not(m.strLess(b, a))
		case token.GEQ:
			return c.Not(m.strLess(a, b))
		}
	}
	w, signed, fl, ok := numInfo(xt)
	if !ok {
		unsup("binop %v on %v", op, xt)
	}
	a, b := x.(*Term), y.(*Term)
	if w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	if fl {
		switch op {
		case token.ADD:
			return c.FBin(OFadd, a, b)
		case token.SUB:
			return c.FBin(OFsub, a, b)
		case token.MUL:
			return c.FBin(OFmul, a, b)
		case token.QUO:
			return c.FBin(OFdiv, a, b)
		case token.LSS:
			return c.FCmp(OFlt, a, b)
		case token.LEQ:
			return c.FCmp(OFle, a, b)
		case token.GTR:
			return c.FCmp(OFlt, b, a)
		case token.GEQ:
			return c.FCmp(OFle, b, a)
		}
		unsup("float op %v", op)
	}
	switch op {
	case token.ADD:
		return c.Bin(OAdd, a, b)
	case token.SUB:
		return c.Bin(OSub, a, b)
	case token.MUL:
		return c.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.BV(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.Bin(OSdiv, a, b)
		case op == token.QUO:
			return c.Bin(OUdiv, a, b)
		case signed:
			return c.Bin(OSrem, a, b)
		default:
			return c.Bin(OUrem, a, b)
		}
	case token.AND:
		return c.Bin(OBand, a, b)
	case token.OR:
		return c.Bin(OBor, a, b)
	case token.XOR:
		return c.Bin(OBxor, a, b)
	case token.AND_NOT:
		return c.Bin(OBand, a, c.Bin(OBxor, b, c.BV(w, ^uint64(0))))
	case token.SHL, token.SHR:
		yw, ysigned, _, _ := numInfo(yt)
		if ysigned && m.branch(c.Cmp(OSlt, b, c.BV(yw, 0))) {
			m.rtPanic("negative shift amount")
		}
		// bring the shift amount to the operand's width, saturating
		var s *Term
		if yw > w {
			big := c.Cmp(OUle, c.BV(yw, uint64(w)), b)
			s = c.Ite(big, c.BV(w, uint64(w)), c.Extract(b, int16(w-1), 0))
		} else {
			s = c.Zext(b, int16(w))
		}
		if op == token.SHL {
			return c.Bin(OShl, a, s)
		}
		if signed {
			return c.Bin(OAshr, a, s)
		}
		return c.Bin(OLshr, a, s)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return c.Cmp(lt, a, b)
		case token.GTR:
			return c.Cmp(lt, b, a)
		case token.LEQ:
			return c.Cmp(le, a, b)
		default:
			return c.Cmp(le, b, a)
		}
	}
	unsup("binop %v", op)
	return nil
}

func (m *M) eqTyped(xt, yt types.Type, x, y Value) *Term {
	xi, yi := types.IsInterface(xt), types.IsInterface(yt)
	if xi && !yi {
		return m.ifaceEq(x.(Iface), Iface{yt, y})
	}
	if yi && !xi {
		return m.ifaceEq(Iface{xt, x}, y.(Iface))
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return m.equal(x, y, yt)
	}
	return m.equal(x, y, xt)
}

func (m *M) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return m.load(x)
	case token.NOT:
		return m.c.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if _, _, fl, _ := numInfo(in.X.Type()); fl {
			return m.c.FNeg(t)
		}
		return m.c.Bin(OSub, m.c.BV(int(t.w), 0), t)
	case token.XOR:
		t := x.(*Term)
		return m.c.Bin(OBxor, t, m.c.BV(int(t.w), ^uint64(0)))
	}
	unsup("unop %v", in.Op)
	return nil
}

func (m *M) fieldAddr(p Value, in *ssa.FieldAddr) Value {
	switch q := p.(type) {
	case *Cell:
		if q == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if q.sub == nil {
			unsup("field of a non struct cell")
		}
		return q.sub[in.Field]
	case VPtr:
		st := q.t.Underlying().(*types.Struct)
		return m.viewField(q, st, in.Field)
	}
	unsup("field address of %T", p)
	return nil
}

func (m *M) idx64(i *Term, t types.Type) *Term {
	if i.w == 64 {
		return i
	}
	_, signed, _, _ := numInfo(t)
	if signed {
		return m.c.Sext(i, 64)
	}
	return m.c.Zext(i, 64)
}

func (m *M) boundsCheck(i, n *Term) {
	if !m.branch(m.c.Cmp(OUlt, i, n)) {
		is, ns := "?", "?"
		if i.isConst() {
			is = fmt.Sprint(int64(i.c))
		}
		if n.isConst() {
			ns = fmt.Sprint(n.c)
		}
		m.rtPanic(fmt.Sprintf("index out of range [%s] with length %s", is, ns))
	}
}

func (m *M) indexAddr(x Value, i *Term, in *ssa.IndexAddr) Value {
	i = m.idx64(i, in.Index.Type())
	switch q := x.(type) {
	case *Slice:
		m.boundsCheck(i, q.len)
		return m.addrAt(q.arr, m.c.Bin(OAdd, q.off, i))
	case *Cell:
		if q == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.boundsCheck(i, m.int64c(q.arr.n))
		return m.addrAt(q.arr, i)
	case VPtr:
		at := q.t.Underlying().(*types.Array)
		m.boundsCheck(i, m.int64c(int(at.Len())))
		es := gcSizes.Sizeof(at.Elem())
		off := m.c.Bin(OAdd, q.off, m.c.Bin(OMul, i, m.c.BV(64, uint64(es))))
		if isByteType(at.Elem()) {
			return BPtr{q.arr, off}
		}
		return VPtr{q.arr, off, at.Elem()}
	}
	unsup("index address of %T", x)
	return nil
}

func (m *M) addrAt(a *Arr, i *Term) Value {
	if a.isB {
		return BPtr{a, i}
	}
	k := m.concretize(i, "index")
	return m.elem(a, int(k))
}

func (m *M) indexVal(x Value, i *Term, it types.Type) Value {
	i = m.idx64(i, it)
	switch q := x.(type) {
	case *Str:
		m.boundsCheck(i, m.int64c(q.Len()))
		return m.strIndex(q, i)
	case *ArrVal:
		n := len(q.e)
		if q.isB {
			n = len(q.b)
		}
		m.boundsCheck(i, m.int64c(n))
		k := m.concretize(i, "index")
		if q.isB {
			return q.b[k]
		}
		return q.e[k]
	}
	unsup("index of %T", x)
	return nil
}

func (m *M) strIndex(s *Str, i *Term) Value {
	if i.isConst() {
		return m.strAt(s, int(i.c))
	}
	if s.Len() <= 256 {
		r := m.strAt(s, s.Len()-1)
		for k := s.Len() - 2; k >= 0; k-- {
			r = m.c.Ite(m.c.Eq(i, m.int64c(k)), m.strAt(s, k), r)
		}
		return r
	}
	return m.strAt(s, int(m.concretize(i, "string index")))
}

func (m *M) lookup(in *ssa.Lookup, x, k Value) Value {
	if s, ok := x.(*Str); ok {
		i := m.idx64(k.(*Term), in.Index.Type())
		m.boundsCheck(i, m.int64c(s.Len()))
		return m.strIndex(s, i)
	}
	mo := x.(*MapObj)
	var v Value
	ok := false
	if mo != nil {
		v, ok = m.mapGet(mo, k)
	}
	if !ok {
		v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, m.c.Bool(ok)}
	}
	return v
}

func (m *M) next(in *ssa.Next, it Value) Value {
	switch x := it.(type) {
	case *mapIter:
		if x.m != nil {
			m.mapAccess(x.m, false)
		}
		for x.i < len(x.ents) {
			e := x.ents[x.i]
			x.i++
			if e.dead {
				continue
			}
			return Tuple{m.c.True, e.k, m.loadCellQuiet(e.cell)}
		}
		tp := in.Type().(*types.Tuple)
		zk, zv := Value(nil), Value(nil)
		if b, ok := tp.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = m.zero(tp.At(1).Type())
		}
		if b, ok := tp.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = m.zero(tp.At(2).Type())
		}
		return Tuple{m.c.False, zk, zv}
	case *strIter:
		if x.i >= x.s.Len() {
			return Tuple{m.c.False, m.int64c(0), m.c.BV(32, 0)}
		}
		i := x.i
		r, sz := m.decodeRune(x.s, i)
		x.i += sz
		return Tuple{m.c.True, m.int64c(i), r}
	}
	unsup("next on %T", it)
	return nil
}

func (m *M) decodeRune(s *Str, i int) (*Term, int) {
	b := m.strAt(s, i)
	if m.branch(m.c.Cmp(OUlt, b, m.c.BV(8, 0x80))) {
		return m.c.Zext(b, 32), 1
	}
	// the bytes of a well-formed sequence, by the first one
	c := m.c
	k := func(v uint64) *Term { return c.BV(8, v) }
	in := func(t *Term, lo, hi uint64) *Term { return c.And(c.Cmp(OUle, k(lo), t), c.Cmp(OUle, t, k(hi))) }
	part := func(t *Term, mask uint64, shift int) *Term {
		return c.Bin(OShl, c.Zext(c.Bin(OBand, t, k(mask)), 32), c.BV(32, uint64(shift)))
	}
	for _, q := range []struct {
		lo, hi, lo1, hi1 uint64
		n                int
	}{
		{0xC2, 0xDF, 0x80, 0xBF, 2},
		{0xE0, 0xE0, 0xA0, 0xBF, 3},
		{0xE1, 0xEC, 0x80, 0xBF, 3},
		{0xED, 0xED, 0x80, 0x9F, 3},
		{0xEE, 0xEF, 0x80, 0xBF, 3},
		{0xF0, 0xF0, 0x90, 0xBF, 4},
		{0xF1, 0xF3, 0x80, 0xBF, 4},
		{0xF4, 0xF4, 0x80, 0x8F, 4},
	} {
		if i+q.n > s.Len() {
			continue
		}
		ok := c.And(in(b, q.lo, q.hi), in(m.strAt(s, i+1), q.lo1, q.hi1))
		r := part(b, uint64(0x7F)>>uint(q.n), 6*(q.n-1))
		for j := 1; j < q.n; j++ {
			t := m.strAt(s, i+j)
			if j > 1 {
				ok = c.And(ok, in(t, 0x80, 0xBF))
			}
			r = c.Bin(OAdd, r, part(t, 0x3F, 6*(q.n-1-j)))
		}
		if m.branch(ok) {
			return r, q.n
		}
	}
	return c.BV(32, utf8.RuneError), 1
}

// bigAlloc reports an allocation of n elements, if possible for an input for
// which a native replay notices it and survives it.
func (m *M) bigAlloc(n *Term) {
	for _, c := range []*Term{m.c.Cmp(OSle, m.int64c(1<<20), n), m.c.Cmp(OSle, n, m.int64c(1<<24))} {
		if r, _ := m.check(c); r == Sat {
			m.assume(c)
		}
	}
	m.violate("alloc", "allocation of more than %d elements controlled by the input", m.w.maxAlloc)
}

func (m *M) makeSlice(fr *Frame, in *ssa.MakeSlice, ins *Ins) Value {
	n := m.idx64(fr.get(ins.ops[0], m).(*Term), in.Len.Type())
	cp := m.idx64(fr.get(ins.ops[1], m).(*Term), in.Cap.Type())
	if m.branch(m.c.Cmp(OSlt, n, m.int64c(0))) {
		m.rtPanic("makeslice: len out of range")
	}
	lim := m.int64c(m.w.maxAlloc)
	if m.branch(m.c.Cmp(OSlt, lim, n)) {
		// the element size decides whether this is an error in Go; a length
		// beyond the address space panics, anything else is a huge request
		es := uint64(max(1, gcSizes.Sizeof(in.Type().Underlying().(*types.Slice).Elem())))
		if m.branch(m.c.Cmp(OUlt, m.c.BV(64, (uint64(1)<<47)/es), n)) {
			m.rtPanic("makeslice: len out of range")
		}
		if m.allocLimit {
			m.bigAlloc(n)
		}
		m.cut("allocations of more than %d elements at %s", m.w.maxAlloc, m.where())
		panic(sigEnd{"cut"})
	}
	nc := int(m.concretize(n, "slice length"))
	cc := nc
	if cp != n {
		if m.branch(m.c.Cmp(OSlt, cp, m.int64c(nc))) {
			m.rtPanic("makeslice: cap out of range")
		}
		cc = int(m.concretize(cp, "slice capacity"))
	}
	a := m.newArr(in.Type().Underlying().(*types.Slice).Elem(), cc)
	if fr.fi.model {
		a.norace = true
	}
	return &Slice{a, m.int64c(0), m.int64c(nc), m.int64c(cc)}
}

func (m *M) sliceOp(fr *Frame, in *ssa.Slice, ins *Ins) Value {
	x := fr.get(ins.ops[0], m)
	opt := func(k int, v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return m.idx64(fr.get(ins.ops[k], m).(*Term), v.Type())
	}
	// Operands of Slice: X, Low, High, Max (absent ones are nil)
	lo, hi, mx := opt(1, in.Low), opt(2, in.High), opt(3, in.Max)
	if s, ok := x.(*Str); ok {
		n := m.int64c(s.Len())
		if lo == nil {
			lo = m.int64c(0)
		}
		if hi == nil {
			hi = n
		}
		if !m.branch(m.c.Cmp(OUle, hi, n)) || !m.branch(m.c.Cmp(OUle, lo, hi)) {
			m.rtPanic("slice bounds out of range")
		}
		return m.strSlice(s, int(m.concretize(lo, "slice bound")), int(m.concretize(hi, "slice bound")))
	}
	var base *Slice
	switch q := x.(type) {
	case *Slice:
		base = q
	case *Cell:
		if q == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		base = m.mkSlice(q.arr)
	case VPtr:
		at := q.t.Underlying().(*types.Array)
		if !isByteType(at.Elem()) {
			unsup("slice of a view of %v", q.t)
		}
		n := m.int64c(int(at.Len()))
		m.viewBytes(VPtr{q.arr, q.off, q.t}, 0)
		base = &Slice{q.arr, q.off, n, n}
	default:
		unsup("slice of %T", x)
	}
	if lo == nil {
		lo = m.int64c(0)
	}
	if hi == nil {
		hi = base.len
	}
	if mx == nil {
		mx = base.cap
	} else if !m.branch(m.c.Cmp(OUle, mx, base.cap)) {
		m.rtPanic("slice bounds out of range")
	}
	if !m.branch(m.c.Cmp(OUle, hi, mx)) || !m.branch(m.c.Cmp(OUle, lo, hi)) {
		m.rtPanic("slice bounds out of range")
	}
	if base.arr == nil {
		return base
	}
	return &Slice{base.arr, m.c.Bin(OAdd, base.off, lo), m.c.Bin(OSub, hi, lo), m.c.Bin(OSub, mx, lo)}
}

func (m *M) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if types.IsInterface(in.AssertedType) {
		if x.t != nil && m.w.implements(x.t, in.AssertedType.Underlying().(*types.Interface)) {
			ok, v = true, x
		} else {
			v = Iface{}
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok, v = true, x.v
	} else if in.CommaOk {
		v = m.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, m.c.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
	}
	return v
}

// realFtoSI is the amd64 behaviour of float to integer conversion.
func (m *M) ftoi(x *Term, w int, signed bool) *Term {
	c := m.c
	if x.isConst() {
		f := fval(x.c, x.w)
		if signed || w < 64 {
			return c.BV(w, uint64(int64(f)))
		}
		return c.BV(w, uint64(f))
	}
	if !signed && w == 64 {
		unsup("symbolic float to uint64 conversion")
	}
	lim := fbits(9223372036854775808.0, x.w)
	neg := fbits(-9223372036854775808.0, x.w)
	in := c.And(c.FCmp(OFlt, x, c.BV(int(x.w), lim)), c.FCmp(OFle, c.BV(int(x.w), neg), x))
	r := c.Ite(in, c.FConv(OFtoSI, x, 64), c.BV(64, 1<<63))
	return c.Extract(r, int16(w-1), 0)
}

// encodeRune gives the UTF-8 form of a rune beyond ASCII.
func (m *M) encodeRune(r *Term) Value {
	c := m.c
	byteOf := func(shift int, or uint64, bits int) *Term {
		return c.Bin(OAdd, c.Zext(c.Extract(r, int16(shift+bits-1), int16(shift)), 8), c.BV(8, or))
	}
	in := func(lo, hi uint64) bool {
		return m.branch(c.And(c.Cmp(OUle, c.BV(64, lo), r), c.Cmp(OUle, r, c.BV(64, hi))))
	}
	switch {
	case in(0x80, 0x7FF):
		return m.strFromTerms([]*Term{byteOf(6, 0xC0, 5), byteOf(0, 0x80, 6)})
	case in(0x800, 0xD7FF), in(0xE000, 0xFFFF):
		return m.strFromTerms([]*Term{byteOf(12, 0xE0, 4), byteOf(6, 0x80, 6), byteOf(0, 0x80, 6)})
	case in(0x10000, utf8.MaxRune):
		return m.strFromTerms([]*Term{byteOf(18, 0xF0, 3), byteOf(12, 0x80, 6), byteOf(6, 0x80, 6), byteOf(0, 0x80, 6)})
	}
	return m.mkStr(string(utf8.RuneError))
}

func (m *M) convert(from, to types.Type, v Value) Value {
	c := m.c
	fu, tu := from.Underlying(), to.Underlying()
	if isString(to) {
		switch u := fu.(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return v
			}
			t := v.(*Term)
			if t.isConst() {
				return m.mkStr(string(rune(sx(t.c, t.w))))
			}
			if m.branch(c.Cmp(OUlt, m.idx64(t, from), m.int64c(0x80))) {
				return m.strFromTerms([]*Term{c.Extract(t, 7, 0)})
			}
			return m.encodeRune(m.idx64(t, from))
		case *types.Slice:
			if isByteType(u.Elem()) {
				return m.strFromTerms(m.sliceBytes(v.(*Slice)))
			}
			// []rune
			s := v.(*Slice)
			n := m.sliceLen(s)
			var out []*Term
			for i := 0; i < n; i++ {
				r := m.convert(types.Typ[types.Rune], types.Typ[types.String], m.loadCell(m.elem(s.arr, int(s.off.c)+i))).(*Str)
				for k := 0; k < r.Len(); k++ {
					out = append(out, m.strAt(r, k))
				}
			}
			return m.strFromTerms(out)
		}
	}
	if ts, ok := tu.(*types.Slice); ok && isString(from) {
		s := v.(*Str)
		if isByteType(ts.Elem()) {
			a := &Arr{id: m.nextID(), n: s.Len(), et: ts.Elem(), isB: true, b: append([]*Term{}, m.strTerms(s)...)}
			a.norace = m.inModel()
			return m.mkSlice(a)
		}
		var rs []*Term
		for i := 0; i < s.Len(); {
			r, sz := m.decodeRune(s, i)
			rs = append(rs, r)
			i += sz
		}
		a := m.newArr(ts.Elem(), len(rs))
		for i, r := range rs {
			m.storeCell(m.elem(a, i), r)
		}
		return m.mkSlice(a)
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if tok && tb.Kind() == types.UnsafePointer {
		if fok && fb.Kind() == types.Uintptr {
			if o, isO := v.(*Term); isO && o.isConst() && o.c == 0 {
				return nilPtr
			}
			unsup("uintptr to unsafe.Pointer")
		}
		return v
	}
	if fok && fb.Kind() == types.UnsafePointer {
		if tp, ok := tu.(*types.Pointer); ok {
			switch p := v.(type) {
			case BPtr:
				if isByteType(tp.Elem()) {
					return p
				}
				return VPtr{p.arr, p.idx, tp.Elem()}
			case VPtr:
				if isByteType(tp.Elem()) {
					return BPtr{p.arr, p.off}
				}
				return VPtr{p.arr, p.off, tp.Elem()}
			}
			return v
		}
		if tok && tb.Kind() == types.Uintptr {
			unsup("unsafe.Pointer to uintptr")
		}
	}
	if fok && tok {
		fw, fs, ff, ok1 := basicWidth(fb)
		tw, ts, tf, ok2 := basicWidth(tb)
		if ok1 && ok2 && fw > 0 && tw > 0 {
			t := v.(*Term)
			switch {
			case ff && tf:
				return c.FConv(OFtoF, t, int16(tw))
			case ff:
				return m.ftoi(t, tw, ts)
			case tf && fs:
				return c.FConv(OSItoF, t, int16(tw))
			case tf:
				return c.FConv(OUItoF, t, int16(tw))
			case tw <= fw:
				return c.Extract(t, int16(tw-1), 0)
			case fs:
				return c.Sext(t, int16(tw))
			default:
				return c.Zext(t, int16(tw))
			}
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	unsup("conversion from %v to %v", from, to)
	return nil
}

func (m *M) nextID() int { m.nextArr++; return m.nextArr }

func (m *M) builtin(g *G, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := m.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return m.int64c(x.Len())
		case *Slice:
			return x.len
		case *MapObj:
			m.mapAccess(x, false)
			if x == nil {
				return m.int64c(0)
			}
			return m.int64c(x.n)
		case *Chan:
			if x == nil {
				return m.int64c(0)
			}
			return m.int64c(len(x.buf))
		case *Cell:
			return m.int64c(x.arr.n)
		case *ArrVal:
			if x.isB {
				return m.int64c(len(x.b))
			}
			return m.int64c(len(x.e))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			return x.cap
		case *Chan:
			return m.int64c(x.cap)
		case *Cell:
			return m.int64c(x.arr.n)
		}
	case "append":
		return m.appendOp(args[0].(*Slice), args[1], cc)
	case "copy":
		return m.copyOp(args[0].(*Slice), args[1])
	case "delete":
		if mo := args[0].(*MapObj); mo != nil {
			m.mapDel(mo, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.mapAccess(x, true)
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[string]*mapEnt{}, 0, 0
			}
			return nil
		case *Slice:
			n := m.sliceLen(x)
			for i := 0; i < n; i++ {
				p := m.addrAt(x.arr, c.Bin(OAdd, x.off, m.int64c(i)))
				m.store(p, m.zero(x.arr.et))
			}
			return nil
		}
	case "print", "println":
		return nil
	case "panic":
		panic(sigPanic{args[0].(Iface)})
	case "recover":
		fr := g.top()
		if fr.dp != nil && !fr.dp.recovered {
			fr.dp.recovered = true
			return fr.dp.v
		}
		return Iface{}
	case "close":
		m.closeChan(g, args[0].(*Chan))
		return nil
	case "min", "max":
		t := cc.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if isString(t) {
				if m.branch(m.binop(op, t, t, a, r).(*Term)) {
					r = a
				}
				continue
			}
			if _, _, fl, _ := numInfo(t); fl {
				if m.branch(c.Not(c.FCmp(OFeq, a.(*Term), a.(*Term)))) || m.branch(m.binop(op, t, t, a, r).(*Term)) {
					r = a
				}
				continue
			}
			r = c.Ite(m.binop(op, t, t, a, r).(*Term), a.(*Term), r.(*Term))
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.concretize(args[1].(*Term), "length"))
		if n == 0 {
			return emptyStr
		}
		p, ok := args[0].(BPtr)
		if !ok {
			unsup("unsafe.String of %T", args[0])
		}
		b := make([]*Term, n)
		for i := range b {
			b[i] = m.loadBPtr(BPtr{p.arr, c.Bin(OAdd, p.idx, m.int64c(i))})
		}
		return m.strFromTerms(b)
	case "SliceData":
		s := args[0].(*Slice)
		if s.arr == nil {
			return nilPtr
		}
		if !s.arr.isB {
			unsup("unsafe.SliceData of non bytes")
		}
		return BPtr{s.arr, s.off}
	case "StringData":
		s := args[0].(*Str)
		a := &Arr{id: m.nextID(), n: s.Len(), et: types.Typ[types.Byte], isB: true, b: m.strTerms(s), norace: true}
		return BPtr{a, m.int64c(0)}
	case "Slice":
		n := args[1].(*Term)
		if isNilPtr(args[0]) {
			return m.w.nilSlice
		}
		p, ok := args[0].(BPtr)
		if !ok {
			unsup("unsafe.Slice of %T", args[0])
		}
		return &Slice{p.arr, p.idx, m.idx64(n, types.Typ[types.Int]), m.idx64(n, types.Typ[types.Int])}
	case "Add":
		p, ok := args[0].(BPtr)
		if !ok {
			if v, ok2 := args[0].(VPtr); ok2 {
				p = BPtr{v.arr, v.off}
			} else {
				unsup("unsafe.Add of %T", args[0])
			}
		}
		return BPtr{p.arr, c.Bin(OAdd, p.idx, m.idx64(args[1].(*Term), types.Typ[types.Int]))}
	}
	unsup("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (m *M) appendOp(s *Slice, more Value, cc *ssa.CallCommon) Value {
	var add []Value
	var bytes []*Term
	isB := isByteType(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	switch y := more.(type) {
	case *Str:
		bytes = m.strTerms(y)
	case *Slice:
		if isB {
			bytes = m.sliceBytes(y)
		} else {
			n := m.sliceLen(y)
			for i := 0; i < n; i++ {
				add = append(add, m.loadCell(m.elem(y.arr, int(m.concretize(y.off, "offset"))+i)))
			}
		}
	}
	k := len(add)
	if isB {
		k = len(bytes)
	}
	if k == 0 {
		return s
	}
	n := m.sliceLen(s)
	cp := int(m.concretize(s.cap, "capacity"))
	off := int(m.concretize(s.off, "offset"))
	a := s.arr
	if n+k > cp {
		nc := max(2*cp, n+k)
		if isB && nc < 8 {
			nc = 8
		}
		na := m.newArr(et, nc)
		na.norace = m.inModel()
		for i := 0; i < n; i++ {
			if isB {
				na.b[i] = m.loadByte(a, off+i)
			} else {
				m.storeCell(m.elem(na, i), m.loadCell(m.elem(a, off+i)))
			}
		}
		a, off, cp = na, 0, nc
	}
	for i := 0; i < k; i++ {
		if isB {
			m.storeByte(a, off+n+i, bytes[i])
		} else {
			m.storeCell(m.elem(a, off+n+i), add[i])
		}
	}
	return &Slice{a, m.int64c(off), m.int64c(n + k), m.int64c(cp)}
}

func (m *M) copyOp(d *Slice, src Value) Value {
	var sl *Term
	switch y := src.(type) {
	case *Str:
		sl = m.int64c(y.Len())
	case *Slice:
		sl = y.len
	}
	var n int
	if m.branch(m.c.Cmp(OSlt, sl, d.len)) {
		n = int(m.concretize(sl, "copy length"))
	} else {
		n = int(m.concretize(d.len, "copy length"))
	}
	if n == 0 {
		return m.int64c(0)
	}
	if d.arr.isB {
		var b []*Term
		switch y := src.(type) {
		case *Str:
			b = m.strTerms(y)[:n]
		case *Slice:
			b = m.sliceBytes(&Slice{y.arr, y.off, m.int64c(n), m.int64c(n)})
		}
		for i := 0; i < n; i++ {
			m.storeBPtr(BPtr{d.arr, m.c.Bin(OAdd, d.off, m.int64c(i))}, b[i])
		}
		return m.int64c(n)
	}
	y := src.(*Slice)
	so, do := int(m.concretize(y.off, "offset")), int(m.concretize(d.off, "offset"))
	vals := make([]Value, n)
	for i := range vals {
		vals[i] = m.loadCell(m.elem(y.arr, so+i))
	}
	for i := range vals {
		m.storeCell(m.elem(d.arr, do+i), vals[i])
	}
	return m.int64c(n)
}
