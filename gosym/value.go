package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integer, float), *Str, *Cell / BPtr / VPtr
// (pointers; a nil pointer is (*Cell)(nil)), *Struct, *ArrVal, *Slice, Iface,
// *MapObj, *Closure, *Chan, Tuple, *NativeFn, *Obj.
type Value interface{}

type Tuple []Value

type Str struct {
	s    string
	b    []*Term // non nil when some byte is symbolic
	conc bool
	opq  bool // text formatted from a symbolic number: its content is not known
}

func (s *Str) Len() int {
	if s.conc {
		return len(s.s)
	}
	return len(s.b)
}

type Cell struct {
	v      Value
	sub    []*Cell
	arr    *Arr
	acc    *Acc
	norace bool
	shared bool
}

type Arr struct {
	id       int
	n        int
	et       types.Type
	isB      bool
	b        []*Term // byte arrays
	smt      *Term   // symbolic input buffer
	nT       *Term   // length when smt != nil
	e        []*Cell
	bacc     []*Acc
	norace   bool
	shared   bool
	unmapped bool
	log      bool // stores are logged (mapped file)
	wlog     []storeRec
	name     string
}

type storeRec struct {
	g   int
	vc  []uint32
	idx int
	val *Term
	old *Term
}

type BPtr struct {
	arr *Arr
	idx *Term
}

type VPtr struct {
	arr *Arr
	off *Term
	t   types.Type
}

type Struct struct{ f []Value }

type ArrVal struct {
	isB bool
	b   []*Term
	e   []Value
}

type Slice struct {
	arr           *Arr
	off, len, cap *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(m *M, g *G, args []Value) Value
}

type Chan struct {
	id     int
	cap    int
	buf    []chanMsg
	closed bool
	cvc    []uint32 // close clock
	rvc    [][]uint32
	et     types.Type
}

type chanMsg struct {
	v  Value
	vc []uint32
}

type mapEnt struct {
	k    Value
	cell *Cell
	dead bool
}

type MapObj struct {
	id   int
	ents []*mapEnt
	idx  map[string]*mapEnt // fully concrete keys
	nsym int                // live entries with symbolic keys
	n    int
	acc  *Acc
	kt   types.Type
	et   types.Type
}

// Obj is an opaque host object (a compiled regexp for instance).
type Obj struct {
	v interface{}
}

type mapIter struct {
	m    *MapObj
	ents []*mapEnt
	i    int
}

type strIter struct {
	s *Str
	i int
}

var nilPtr = (*Cell)(nil)

func isNilPtr(v Value) bool {
	c, ok := v.(*Cell)
	return ok && c == nil
}

func under(t types.Type) types.Type { return t.Underlying() }

func basicWidth(b *types.Basic) (w int, signed, float, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false, true
	case types.Int8:
		return 8, true, false, true
	case types.Int16:
		return 16, true, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, false, true
	case types.Uint8:
		return 8, false, false, true
	case types.Uint16:
		return 16, false, false, true
	case types.Uint32:
		return 32, false, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, false, true
	case types.Float32:
		return 32, false, true, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true, true
	}
	return 0, false, false, false
}

func numInfo(t types.Type) (w int, signed, float, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false, false
	}
	return basicWidth(b)
}

func isByteType(t types.Type) bool {
	w, _, f, ok := numInfo(t)
	return ok && w == 8 && !f
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *M) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return nilPtr
		}
		w, _, _, ok := basicWidth(u)
		if !ok {
			unsup("zero of %v", t)
		}
		if w == 0 {
			return m.c.False
		}
		return m.c.BV(w, 0)
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return m.w.nilSlice
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		s := &Struct{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if isByteType(u.Elem()) {
			a := &ArrVal{isB: true, b: make([]*Term, n)}
			z := m.c.BV(8, 0)
			for i := range a.b {
				a.b[i] = z
			}
			return a
		}
		a := &ArrVal{e: make([]Value, n)}
		for i := range a.e {
			a.e[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero of %v", t)
	return nil
}

var emptyStr = &Str{conc: true}

// newCell allocates memory for a variable of type t, zeroed.
func (m *M) newCell(t types.Type) *Cell {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c := &Cell{sub: make([]*Cell, u.NumFields())}
		for i := range c.sub {
			c.sub[i] = m.newCell(u.Field(i).Type())
		}
		return c
	case *types.Array:
		return &Cell{arr: m.newArr(u.Elem(), int(u.Len()))}
	}
	return &Cell{v: m.zero(t)}
}

func (m *M) newArr(et types.Type, n int) *Arr {
	m.nextArr++
	a := &Arr{id: m.nextArr, n: n, et: et}
	if n > m.w.maxAlloc {
		unsup("allocation of %d elements", n)
	}
	if isByteType(et) {
		a.isB = true
		a.b = make([]*Term, n)
		z := m.c.BV(8, 0)
		for i := range a.b {
			a.b[i] = z
		}
	} else {
		a.e = make([]*Cell, n)
	}
	return a
}

func (m *M) elem(a *Arr, i int) *Cell {
	c := a.e[i]
	if c == nil {
		c = m.newCell(a.et)
		if a.norace {
			c.norace = true
		}
		c.shared = a.shared
		a.e[i] = c
	}
	return c
}

func cellNoRace(c *Cell) {
	c.norace = true
	for _, s := range c.sub {
		cellNoRace(s)
	}
	if c.arr != nil {
		c.arr.norace = true
		for _, e := range c.arr.e {
			if e != nil {
				cellNoRace(e)
			}
		}
	}
}

// load reads the value in a cell.
func (m *M) loadCell(c *Cell) Value {
	if c.sub != nil {
		s := &Struct{make([]Value, len(c.sub))}
		for i, f := range c.sub {
			s.f[i] = m.loadCell(f)
		}
		return s
	}
	if c.arr != nil {
		return m.loadArr(c.arr)
	}
	if m.race && !c.norace {
		m.accessCell(c, false)
	}
	if c.v == nil {
		// zero sized struct
		return &Struct{}
	}
	return c.v
}

func (m *M) loadArr(a *Arr) *ArrVal {
	if a.isB {
		r := &ArrVal{isB: true, b: make([]*Term, a.n)}
		for i := range r.b {
			r.b[i] = m.loadByte(a, i)
		}
		return r
	}
	r := &ArrVal{e: make([]Value, a.n)}
	for i := range r.e {
		r.e[i] = m.loadCell(m.elem(a, i))
	}
	return r
}

func (m *M) storeCell(c *Cell, v Value) {
	if c.sub != nil {
		s := v.(*Struct)
		for i, f := range c.sub {
			m.storeCell(f, s.f[i])
		}
		return
	}
	if c.arr != nil {
		av := v.(*ArrVal)
		for i := 0; i < c.arr.n; i++ {
			if c.arr.isB {
				m.storeByte(c.arr, i, av.b[i])
			} else {
				m.storeCell(m.elem(c.arr, i), av.e[i])
			}
		}
		return
	}
	if c.shared && !m.initing {
		unsup("store to a shared standard library cell")
	}
	if m.race && !c.norace {
		m.accessCell(c, true)
	}
	c.v = v
}

func (m *M) checkMapped(a *Arr, what string) {
	if a.unmapped {
		m.violate("segfault", "%s of memory after it was unmapped (SIGSEGV)", what)
	}
}

func (m *M) loadByte(a *Arr, i int) *Term {
	if a.unmapped {
		m.checkMapped(a, "read")
	}
	if a.smt != nil {
		return m.c.Select(a.smt, m.c.BV(64, uint64(i)))
	}
	if m.race && !a.norace {
		m.accessByte(a, i, false)
	}
	return a.b[i]
}

func (m *M) storeByte(a *Arr, i int, v *Term) {
	if a.unmapped {
		m.checkMapped(a, "write")
	}
	if a.shared && !m.initing {
		unsup("store to a shared standard library array")
	}
	if a.smt != nil {
		a.smt = m.c.Store(a.smt, m.c.BV(64, uint64(i)), v)
		return
	}
	if m.race && !a.norace {
		m.accessByte(a, i, true)
	}
	if a.log {
		a.wlog = append(a.wlog, storeRec{m.cur.id, append([]uint32{}, m.cur.vc...), i, v, a.b[i]})
	}
	a.b[i] = v
}

// ---- strings

func (m *M) mkStr(s string) *Str { return &Str{s: s, conc: true} }

func (m *M) strFromTerms(b []*Term) *Str {
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.c)
	}
	return &Str{s: string(bs), conc: true}
}

func (m *M) strAt(s *Str, i int) *Term {
	if s.conc {
		return m.c.small[8][s.s[i]]
	}
	return s.b[i]
}

func (m *M) strTerms(s *Str) []*Term {
	if !s.conc {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = m.c.small[8][s.s[i]]
	}
	return r
}

func (m *M) strSlice(s *Str, lo, hi int) *Str {
	if s.conc {
		return &Str{s: s.s[lo:hi], conc: true, opq: s.opq}
	}
	return m.strFromTerms(s.b[lo:hi])
}

func (m *M) strCat(a, b *Str) *Str {
	if a.conc && b.conc {
		return &Str{s: a.s + b.s, conc: true, opq: a.opq || b.opq}
	}
	if a.opq || b.opq {
		return &Str{s: approxStr(a) + approxStr(b), conc: true, opq: true}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(append(r, m.strTerms(a)...), m.strTerms(b)...)
	return &Str{b: r}
}

func (m *M) strEq(a, b *Str) *Term {
	if a == b {
		return m.c.True
	}
	if a.opq || b.opq {
		unsup("comparison of text formatted from a symbolic number")
	}
	if a.Len() != b.Len() {
		return m.c.False
	}
	if a.conc && b.conc {
		return m.c.Bool(a.s == b.s)
	}
	r := m.c.True
	for i := 0; i < a.Len(); i++ {
		r = m.c.And(r, m.c.Eq(m.strAt(a, i), m.strAt(b, i)))
		if r == m.c.False {
			return r
		}
	}
	return r
}

func (m *M) strLess(a, b *Str) *Term {
	if a.conc && b.conc {
		return m.c.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := m.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := m.strAt(a, i), m.strAt(b, i)
		r = m.c.Or(m.c.Cmp(OUlt, x, y), m.c.And(m.c.Eq(x, y), r))
	}
	return r
}

// concStr forces a string to be concrete (used for text that is never
// inspected by a property); symbolic bytes become '?'.
func approxStr(s *Str) string {
	if s.conc {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.b {
		if t.isConst() {
			sb.WriteByte(byte(t.c))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// ---- equality

func (m *M) equal(x, y Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(x.(*Str), y.(*Str))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return m.ptrEq(x, y)
		}
		if u.Info()&types.IsFloat != 0 {
			return m.c.FCmp(OFeq, x.(*Term), y.(*Term))
		}
		return m.c.Eq(x.(*Term), y.(*Term))
	case *types.Pointer:
		return m.ptrEq(x, y)
	case *types.Interface:
		return m.ifaceEq(x.(Iface), y.(Iface))
	case *types.Struct:
		r := m.c.True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.c.And(r, m.equal(x.(*Struct).f[i], y.(*Struct).f[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a, b := x.(*ArrVal), y.(*ArrVal)
		r := m.c.True
		for i := 0; i < int(u.Len()); i++ {
			if a.isB {
				r = m.c.And(r, m.c.Eq(a.b[i], b.b[i]))
			} else {
				r = m.c.And(r, m.equal(a.e[i], b.e[i], u.Elem()))
			}
		}
		return r
	case *types.Map:
		return m.c.Bool(x.(*MapObj) == y.(*MapObj))
	case *types.Chan:
		return m.c.Bool(x.(*Chan) == y.(*Chan))
	case *types.Signature:
		return m.c.Bool(x.(*Closure) == y.(*Closure))
	case *types.Slice:
		a, b := x.(*Slice), y.(*Slice)
		return m.c.Bool(a.arr == nil && b.arr == nil)
	}
	unsup("equality on %v", t)
	return nil
}

func (m *M) ptrEq(x, y Value) *Term {
	switch a := x.(type) {
	case *Cell:
		b, ok := y.(*Cell)
		return m.c.Bool(ok && a == b)
	case BPtr:
		if b, ok := y.(BPtr); ok {
			if a.arr != b.arr {
				return m.c.False
			}
			return m.c.Eq(a.idx, b.idx)
		}
		return m.c.False
	case VPtr:
		if b, ok := y.(VPtr); ok {
			if a.arr != b.arr {
				return m.c.False
			}
			return m.c.Eq(a.off, b.off)
		}
		return m.c.False
	case *Obj:
		b, ok := y.(*Obj)
		return m.c.Bool(ok && a == b)
	}
	unsup("pointer comparison of %T", x)
	return nil
}

func comparable_(t types.Type) bool { return types.Comparable(t) }

func (m *M) ifaceEq(x, y Iface) *Term {
	if x.t == nil || y.t == nil {
		return m.c.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return m.c.False
	}
	if !types.Comparable(x.t) {
		m.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return m.equal(x.v, y.v, x.t)
}

// keyString gives a canonical string for a fully concrete map key.
func (m *M) keyString(k Value, t types.Type) (string, bool) {
	switch v := k.(type) {
	case *Term:
		if !v.isConst() {
			return "", false
		}
		if _, _, f, _ := numInfo(t); f {
			if fv := fval(v.c, v.w); fv != fv {
				return "", false
			} else if fv == 0 {
				return "f0", true
			}
		}
		return fmt.Sprintf("i%d:%d", v.w, v.c), true
	case *Str:
		if v.opq {
			unsup("map key made of text formatted from a symbolic number")
		}
		if !v.conc {
			return "", false
		}
		return "s" + v.s, true
	case *Cell:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case *Obj:
		return fmt.Sprintf("o%p", v), true
	case BPtr:
		if !v.idx.isConst() {
			return "", false
		}
		return fmt.Sprintf("b%p:%d", v.arr, v.idx.c), true
	case VPtr:
		if !v.off.isConst() {
			return "", false
		}
		return fmt.Sprintf("v%p:%d", v.arr, v.off.c), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := m.keyString(v.v, v.t)
		return "I" + types.TypeString(v.t, nil) + "/" + s, ok
	case *Struct:
		st := t.Underlying().(*types.Struct)
		r := "S{"
		for i, f := range v.f {
			s, ok := m.keyString(f, st.Field(i).Type())
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(s), s)
		}
		return r + "}", true
	case *ArrVal:
		r := "A{"
		if v.isB {
			for _, b := range v.b {
				if !b.isConst() {
					return "", false
				}
				r += fmt.Sprintf("%d,", b.c)
			}
			return r + "}", true
		}
		et := t.Underlying().(*types.Array).Elem()
		for _, f := range v.e {
			s, ok := m.keyString(f, et)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(s), s)
		}
		return r + "}", true
	}
	return "", false
}

// ---- maps

func (m *M) newMap(t *types.Map) *MapObj {
	m.nextArr++
	return &MapObj{id: m.nextArr, idx: map[string]*mapEnt{}, kt: t.Key(), et: t.Elem()}
}

func (m *M) mapFind(mo *MapObj, k Value) *mapEnt {
	if mo == nil {
		return nil
	}
	if ik, ok := k.(Iface); ok && ik.t != nil && !types.Comparable(ik.t) {
		m.rtPanic("hash of unhashable type " + ik.t.String())
	}
	ks, conc := m.keyString(k, mo.kt)
	if conc {
		if e, ok := mo.idx[ks]; ok {
			return e
		}
		if mo.nsym == 0 {
			return nil
		}
	}
	for _, e := range mo.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := m.keyString(e.k, mo.kt); ec {
				continue
			}
		}
		if m.branch(m.equal(e.k, k, mo.kt)) {
			return e
		}
	}
	return nil
}

func (m *M) mapAccess(mo *MapObj, write bool) {
	if !m.race || mo == nil || m.cur == nil {
		return
	}
	if mo.acc == nil {
		mo.acc = &Acc{}
	}
	m.access(mo.acc, write, "map")
}

func (m *M) mapGet(mo *MapObj, k Value) (Value, bool) {
	m.mapAccess(mo, false)
	e := m.mapFind(mo, k)
	if e == nil {
		return nil, false
	}
	return m.loadCellQuiet(e.cell), true
}

func (m *M) loadCellQuiet(c *Cell) Value {
	r := m.race
	m.race = false
	v := m.loadCell(c)
	m.race = r
	return v
}

func (m *M) mapSet(mo *MapObj, k, v Value) {
	m.mapAccess(mo, true)
	e := m.mapFind(mo, k)
	r := m.race
	m.race = false
	if e != nil {
		m.storeCell(e.cell, v)
	} else {
		e = &mapEnt{k: k, cell: m.newCell(mo.et)}
		m.storeCell(e.cell, v)
		mo.ents = append(mo.ents, e)
		if ks, ok := m.keyString(k, mo.kt); ok {
			mo.idx[ks] = e
		} else {
			mo.nsym++
		}
		mo.n++
	}
	m.race = r
}

func (m *M) mapDel(mo *MapObj, k Value) {
	m.mapAccess(mo, true)
	e := m.mapFind(mo, k)
	if e == nil {
		return
	}
	e.dead = true
	mo.n--
	if ks, ok := m.keyString(e.k, mo.kt); ok {
		delete(mo.idx, ks)
	} else {
		mo.nsym--
	}
	var live []*mapEnt
	for _, x := range mo.ents {
		if !x.dead {
			live = append(live, x)
		}
	}
	mo.ents = live
}

// mapOrder gives the entries in an order chosen by the current mode.
func (m *M) mapOrder(mo *MapObj) []*mapEnt {
	if mo == nil {
		return nil
	}
	es := append([]*mapEnt{}, mo.ents...)
	n := len(es)
	if n < 2 || m.cur == nil || m.inModel() {
		return es
	}
	switch m.mapMode {
	case 1: // two orders: insertion and reverse
		if m.choose(2, "maporder") == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				es[i], es[j] = es[j], es[i]
			}
		}
	case 2: // every order
		for i := 0; i < n-1; i++ {
			k := m.choose(n-i, "maporder")
			e := es[i+k]
			copy(es[i+1:i+k+1], es[i:i+k])
			es[i] = e
		}
	}
	return es
}

// ---- slices

func (m *M) int64c(v int) *Term { return m.c.BV(64, uint64(v)) }

func (m *M) mkSlice(a *Arr) *Slice {
	n := m.int64c(a.n)
	return &Slice{a, m.int64c(0), n, n}
}

func (m *M) arrLen(a *Arr) *Term {
	if a.smt != nil {
		return a.nT
	}
	return m.int64c(a.n)
}

func (m *M) sliceLen(s *Slice) int {
	return int(int64(m.concretize(s.len, "slice length")))
}

// sliceBytes reads all the bytes of a byte slice (concretizing its length).
func (m *M) sliceBytes(s *Slice) []*Term {
	if s.arr == nil {
		return nil
	}
	n := m.sliceLen(s)
	r := make([]*Term, n)
	if s.off.isConst() {
		off := int(s.off.c)
		for i := range r {
			r[i] = m.loadByte(s.arr, off+i)
		}
		return r
	}
	for i := range r {
		r[i] = m.loadBPtr(BPtr{s.arr, m.c.Bin(OAdd, s.off, m.int64c(i))})
	}
	return r
}

func (m *M) loadBPtr(p BPtr) *Term {
	if p.idx.isConst() {
		i := int64(p.idx.c)
		if p.arr.smt == nil && (i < 0 || i >= int64(p.arr.n)) {
			m.violate("oob", "out of bounds memory read at index %d of a buffer of %d bytes", i, p.arr.n)
		}
		return m.loadByte(p.arr, int(i))
	}
	if p.arr.smt != nil {
		return m.c.Select(p.arr.smt, p.idx)
	}
	if p.arr.n <= 64 {
		if p.arr.unmapped {
			m.checkMapped(p.arr, "read")
		}
		r := m.loadByte(p.arr, p.arr.n-1)
		for i := p.arr.n - 2; i >= 0; i-- {
			r = m.c.Ite(m.c.Eq(p.idx, m.int64c(i)), m.loadByte(p.arr, i), r)
		}
		return r
	}
	if p.arr.n <= 256 {
		if t := m.table(p.arr, p.idx); t != nil {
			return t
		}
	}
	i := m.concretize(p.idx, "byte index")
	return m.loadByte(p.arr, int(i))
}

// table reads an array of constants at a symbolic index that is known to be
// inside it, and gives nil if it has anything else in it.
func (m *M) table(a *Arr, idx *Term) *Term {
	if a.unmapped || a.smt != nil {
		return nil
	}
	type run struct {
		from, to int
		v        *Term
	}
	var runs []run
	count := map[*Term]int{}
	for i := 0; i < a.n; i++ {
		v := m.loadByte(a, i)
		if !v.isConst() {
			return nil
		}
		if n := len(runs); n > 0 && runs[n-1].v == v {
			runs[n-1].to = i
			continue
		}
		runs = append(runs, run{i, i, v})
		count[v]++
	}
	r := runs[0].v
	for _, x := range runs {
		if count[x.v] > count[r] {
			r = x.v
		}
	}
	for _, x := range runs {
		if x.v == r {
			continue
		}
		in := m.c.Cmp(OUle, m.c.Bin(OSub, idx, m.int64c(x.from)), m.int64c(x.to-x.from))
		if x.from == x.to {
			in = m.c.Eq(idx, m.int64c(x.from))
		}
		r = m.c.Ite(in, x.v, r)
	}
	return r
}

func (m *M) storeBPtr(p BPtr, v *Term) {
	if p.arr.smt != nil && !p.idx.isConst() {
		p.arr.smt = m.c.Store(p.arr.smt, p.idx, v)
		return
	}
	i := int64(m.concretize(p.idx, "byte index"))
	if p.arr.smt == nil && (i < 0 || i >= int64(p.arr.n)) {
		m.violate("oob", "out of bounds memory write at index %d of a buffer of %d bytes", i, p.arr.n)
	}
	m.storeByte(p.arr, int(i), v)
}

// ---- views: byte memory seen as a typed value (unsafe casts)

var gcSizes = types.SizesFor("gc", "amd64")

func (m *M) viewBytes(p VPtr, n int) []*Term {
	// memory safety of the access
	end := m.c.Bin(OAdd, p.off, m.int64c(n))
	al := m.arrLen(p.arr)
	bad := m.c.Or(m.c.Cmp(OUlt, al, end), m.c.Cmp(OUlt, end, p.off))
	if m.branch(bad) {
		m.violate("oob", "unsafe cast reads %d bytes beyond the end of the buffer", n)
	}
	r := make([]*Term, n)
	for i := range r {
		r[i] = m.loadBPtr(BPtr{p.arr, m.c.Bin(OAdd, p.off, m.int64c(i))})
	}
	return r
}

func (m *M) fromBytesLE(b []*Term) *Term {
	r := b[len(b)-1]
	for i := len(b) - 2; i >= 0; i-- {
		r = m.c.Concat(r, b[i])
	}
	return r
}

func (m *M) loadView(p VPtr) Value {
	switch u := p.t.Underlying().(type) {
	case *types.Basic:
		w, _, _, ok := basicWidth(u)
		if !ok {
			unsup("view of %v", p.t)
		}
		if w == 0 {
			b := m.viewBytes(p, 1)
			return m.c.Not(m.c.Eq(b[0], m.c.BV(8, 0)))
		}
		return m.fromBytesLE(m.viewBytes(p, w/8))
	case *types.Struct:
		s := &Struct{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.loadView(m.viewField(p, u, i))
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if isByteType(u.Elem()) {
			return &ArrVal{isB: true, b: m.viewBytes(p, n)}
		}
		es := gcSizes.Sizeof(u.Elem())
		a := &ArrVal{e: make([]Value, n)}
		for i := range a.e {
			a.e[i] = m.loadView(VPtr{p.arr, m.c.Bin(OAdd, p.off, m.c.BV(64, uint64(es)*uint64(i))), u.Elem()})
		}
		return a
	}
	unsup("view of %v", p.t)
	return nil
}

func structOffsets(st *types.Struct) []int64 {
	fs := make([]*types.Var, st.NumFields())
	for i := range fs {
		fs[i] = st.Field(i)
	}
	return gcSizes.Offsetsof(fs)
}

func (m *M) viewField(p VPtr, st *types.Struct, i int) VPtr {
	offs := structOffsets(st)
	return VPtr{p.arr, m.c.Bin(OAdd, p.off, m.c.BV(64, uint64(offs[i]))), st.Field(i).Type()}
}

func (m *M) storeView(p VPtr, v Value) {
	switch u := p.t.Underlying().(type) {
	case *types.Basic:
		w, _, _, ok := basicWidth(u)
		if !ok || w == 0 {
			unsup("view store of %v", p.t)
		}
		m.viewBytes(p, w/8)
		for i := 0; i < w/8; i++ {
			m.storeBPtr(BPtr{p.arr, m.c.Bin(OAdd, p.off, m.int64c(i))}, m.c.Extract(v.(*Term), int16(8*i+7), int16(8*i)))
		}
		return
	case *types.Struct:
		for i, f := range v.(*Struct).f {
			m.storeView(m.viewField(p, u, i), f)
		}
		return
	}
	unsup("view store of %v", p.t)
}

func (m *M) load(p Value) Value {
	switch q := p.(type) {
	case *Cell:
		if q == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.loadCell(q)
	case BPtr:
		return m.loadBPtr(q)
	case VPtr:
		return m.loadView(q)
	}
	unsup("load through %T", p)
	return nil
}

func (m *M) store(p, v Value) {
	switch q := p.(type) {
	case *Cell:
		if q == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.storeCell(q, v)
	case BPtr:
		m.storeBPtr(q, v.(*Term))
	case VPtr:
		m.storeView(q, v)
	default:
		unsup("store through %T", p)
	}
}
