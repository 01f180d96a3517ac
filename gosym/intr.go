package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]Intrinsic

func ret1(f func(m *M, a []Value) Value) Intrinsic {
	return func(m *M, g *G, a []Value) (Value, bool) { return f(m, a), true }
}

func concName(v Value) string {
	s := v.(*Str)
	if !s.conc {
		unsup("symbolic name")
	}
	return s.s
}

// inputName makes the name of an input unique on its path.
func (m *M) inputName(n string) string {
	m.nameCount[n]++
	if k := m.nameCount[n]; k > 1 {
		return fmt.Sprintf("%s~%d", n, k)
	}
	return n
}

func (m *M) concVal(name string) (string, bool) {
	l := m.concIn[name]
	if len(l) == 0 {
		return "", false
	}
	m.concIn[name] = l[1:]
	return l[0], true
}

func (m *M) intInput(n string, w int) *Term {
	name := m.inputName(n)
	if m.initing {
		unsup("input during initialisation")
	}
	if m.concrete {
		v := uint64(0)
		if s, ok := m.concVal(name); ok {
			v, _ = strconv.ParseUint(s, 10, 64)
		}
		return m.c.BV(w, v)
	}
	t := m.c.Var(name, w)
	m.inputs = append(m.inputs, &Input{name: name, kind: "int", terms: []*Term{t}})
	return t
}

func (m *M) bytesInput(n string, k int) []*Term {
	name := m.inputName(n)
	b := make([]*Term, k)
	if m.concrete {
		raw := []byte{}
		if s, ok := m.concVal(name); ok {
			raw, _ = hex.DecodeString(s)
		}
		for i := range b {
			v := byte(0)
			if i < len(raw) {
				v = raw[i]
			}
			b[i] = m.c.BV(8, uint64(v))
		}
		return b
	}
	for i := range b {
		b[i] = m.c.Var(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	m.inputs = append(m.inputs, &Input{name: name, kind: "bytes", terms: b})
	return b
}

// assume restricts the path to inputs satisfying t.
func (m *M) assume(t *Term) {
	if t.isConst() {
		if t.c == 0 {
			panic(sigEnd{"assume"})
		}
		return
	}
	m.addPC(t, true)
	if m.pos >= m.nprefix && m.model != nil && m.ev.Eval(t) == 0 {
		m.model, m.ev = nil, nil
	}
}

func (m *M) assert(t *Term, msg string) {
	m.asserts++
	m.w.stats.mu.Lock()
	m.w.stats.asserts++
	m.w.stats.mu.Unlock()
	if t.isConst() {
		if t.c == 0 {
			m.violate("assert", "%s", msg)
		}
		m.w.stats.mu.Lock()
		m.w.stats.assertsTrivial++
		m.w.stats.mu.Unlock()
		return
	}
	if b, ok := m.known[t]; ok {
		if !b {
			m.violate("assert", "%s", msg)
		}
		return
	}
	if nd := m.replayNode('a'); nd != nil {
		m.known[t] = true
		if nd.choice == 1 {
			m.addPC(t, true)
		}
		return
	}
	nd := &Node{kind: 'a'}
	r, mod := m.check(m.c.Not(t))
	switch r {
	case Sat:
		m.report("assert", msg, mod)
		nd.choice = 1
	case Unknown:
		m.w.stats.mu.Lock()
		m.w.stats.assertUnknown++
		m.w.stats.mu.Unlock()
		nd.choice = 1
	}
	m.pushNode(nd)
	m.known[t] = true
	if nd.choice == 1 {
		m.addPC(t, true)
		if m.model != nil && m.ev.Eval(t) == 0 {
			m.model, m.ev = nil, nil
		}
	}
}

func (m *M) byteSlice(b []*Term) *Slice {
	a := &Arr{id: m.nextID(), n: len(b), et: types.Typ[types.Byte], isB: true, b: b}
	return m.mkSlice(a)
}

func (m *M) bufInput(n string, max int) *Slice {
	name := m.inputName(n)
	if m.concrete {
		raw := []byte{}
		if s, ok := m.concVal(name); ok {
			raw, _ = hex.DecodeString(s)
		}
		b := make([]*Term, len(raw))
		for i, v := range raw {
			b[i] = m.c.BV(8, uint64(v))
		}
		return m.byteSlice(b)
	}
	arr := m.c.Var(name, -1)
	nT := m.c.Var(name+".len", 64)
	m.inputs = append(m.inputs, &Input{name: name, kind: "buf", arr: arr, n: nT, max: max})
	m.assume(m.c.Cmp(OUle, nT, m.int64c(max)))
	a := &Arr{id: m.nextID(), n: max, et: types.Typ[types.Byte], isB: true, smt: arr, nT: nT, norace: true}
	return &Slice{a, m.int64c(0), nT, nT}
}

func (m *M) nowMono() *Term {
	if m.initing {
		return m.int64c(1)
	}
	if m.clock != nil {
		return m.clock
	}
	t := m.intInput("clock.mono", 64)
	lo := m.lastMono
	if lo == nil {
		lo = m.int64c(1000)
	}
	if !m.concrete {
		m.assume(m.c.Cmp(OSle, lo, t))
		m.assume(m.c.Cmp(OSlt, t, m.c.BV(64, 1<<62)))
	}
	m.lastMono = t
	return t
}

func (m *M) nowSec() *Term {
	t := m.intInput("clock.sec", 64)
	if !m.concrete {
		m.assume(m.c.Cmp(OSle, m.int64c(1_000_000_000), t))
		m.assume(m.c.Cmp(OSlt, t, m.c.BV(64, 4_000_000_000)))
	}
	return t
}

func floatFn(f func(float64) float64) Intrinsic {
	return ret1(func(m *M, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			unsup("math function of a symbolic float")
		}
		return m.c.BV(64, math.Float64bits(f(math.Float64frombits(t.c))))
	})
}

func (m *M) ifaceArg(v Value) Iface { return v.(Iface) }

// mkIface boxes a Go string in an interface value.
func strType() types.Type { return types.Typ[types.String] }

func indexBytes(m *M, b []*Term, c *Term) *Term {
	r := m.c.BV(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(b[i], c), m.int64c(i), r)
	}
	return r
}

func indexSub(m *M, b, sub []*Term) *Term {
	r := m.c.BV(64, ^uint64(0))
	for i := len(b) - len(sub); i >= 0; i-- {
		eq := m.c.True
		for k := range sub {
			eq = m.c.And(eq, m.c.Eq(b[i+k], sub[k]))
		}
		r = m.c.Ite(eq, m.int64c(i), r)
	}
	return r
}

func countBytes(m *M, b []*Term, c *Term) *Term {
	r := m.int64c(0)
	for _, x := range b {
		r = m.c.Bin(OAdd, r, m.c.Ite(m.c.Eq(x, c), m.int64c(1), m.int64c(0)))
	}
	return r
}

func cmpBytes(m *M, a, b []*Term) *Term {
	x, y := m.strFromTerms(a), m.strFromTerms(b)
	return m.c.Ite(m.strLess(x, y), m.c.BV(64, ^uint64(0)), m.c.Ite(m.strEq(x, y), m.int64c(0), m.int64c(1)))
}

func cellOf(v Value) *Cell {
	c, ok := v.(*Cell)
	if !ok {
		unsup("atomic operation through %T", v)
	}
	return c
}

func (m *M) logArr(p Value) *Arr {
	s := p.(*Slice)
	return s.arr
}

func kindNumber(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return int(reflect.Bool)
		case types.Int:
			return int(reflect.Int)
		case types.Int8:
			return int(reflect.Int8)
		case types.Int16:
			return int(reflect.Int16)
		case types.Int32:
			return int(reflect.Int32)
		case types.Int64:
			return int(reflect.Int64)
		case types.Uint:
			return int(reflect.Uint)
		case types.Uint8:
			return int(reflect.Uint8)
		case types.Uint16:
			return int(reflect.Uint16)
		case types.Uint32:
			return int(reflect.Uint32)
		case types.Uint64:
			return int(reflect.Uint64)
		case types.Uintptr:
			return int(reflect.Uintptr)
		case types.Float32:
			return int(reflect.Float32)
		case types.Float64:
			return int(reflect.Float64)
		case types.String:
			return int(reflect.String)
		}
	case *types.Pointer:
		return int(reflect.Ptr)
	case *types.Slice:
		return int(reflect.Slice)
	case *types.Map:
		return int(reflect.Map)
	case *types.Struct:
		return int(reflect.Struct)
	case *types.Array:
		return int(reflect.Array)
	case *types.Chan:
		return int(reflect.Chan)
	case *types.Signature:
		return int(reflect.Func)
	}
	return 0
}

func symbolicVal(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return !x.isConst()
	case *Str:
		return !x.conc
	case Iface:
		return x.t != nil && symbolicVal(x.v)
	case *Slice:
		if !x.len.isConst() {
			return true
		}
		if x.arr != nil && x.arr.smt != nil {
			return true
		}
		if x.arr != nil && x.arr.isB && x.off.isConst() {
			for i := 0; i < int(x.len.c); i++ {
				if !x.arr.b[int(x.off.c)+i].isConst() {
					return true
				}
			}
		}
	}
	return false
}

// crashImage gives the contents a mapped file has when the process dies at an
// arbitrary moment: every goroutine has performed some prefix of its stores,
// and the set of stores is closed under the happens-before order.
func (m *M) crashImage(sl *Slice) Value {
	a := sl.arr
	per := map[int][]int{} // goroutine -> indexes in wlog
	var order []int
	for i, r := range a.wlog {
		if _, ok := per[r.g]; !ok {
			order = append(order, r.g)
		}
		per[r.g] = append(per[r.g], i)
	}
	cut := map[int]*Term{}
	for _, g := range order {
		t := m.intInput(fmt.Sprintf("crash.g%d", g), 32)
		cut[g] = t
		if !m.concrete {
			m.assume(m.c.Cmp(OUle, t, m.c.BV(32, uint64(len(per[g])))))
		}
	}
	if !m.concrete {
		for _, g := range order {
			last := map[int]int{}
			for k, i := range per[g] {
				r := &a.wlog[i]
				for _, h := range order {
					if h == g {
						continue
					}
					n := 0
					for _, j := range per[h] {
						if atVC(a.wlog[j].vc, h) <= atVC(r.vc, h) {
							n++
						} else {
							break
						}
					}
					if n > last[h] {
						last[h] = n
						m.assume(m.c.Or(m.c.Cmp(OUle, cut[g], m.c.BV(32, uint64(k))), m.c.Cmp(OUle, m.c.BV(32, uint64(n)), cut[h])))
					}
				}
			}
		}
	}
	img := make([]*Term, a.n)
	copy(img, a.b)
	first := map[int]bool{}
	for i := range a.wlog {
		r := &a.wlog[i]
		if !first[r.idx] {
			first[r.idx] = true
			img[r.idx] = r.old
		}
	}
	rank := map[int]int{}
	for i := range a.wlog {
		r := &a.wlog[i]
		k := rank[r.g]
		rank[r.g]++
		img[r.idx] = m.c.Ite(m.c.Cmp(OUlt, m.c.BV(32, uint64(k)), cut[r.g]), r.val, img[r.idx])
	}
	done := m.c.True
	for _, g := range order {
		done = m.c.And(done, m.c.Eq(cut[g], m.c.BV(32, uint64(len(per[g])))))
	}
	m.w.stats.mu.Lock()
	m.w.stats.crashPoints += int64(len(a.wlog) + 1)
	m.w.stats.mu.Unlock()
	return Tuple{m.byteSlice(img), done}
}

func init() {
	I := map[string]Intrinsic{}
	intrinsics = I
	// sync
	I["(*sync.Mutex).Lock"] = intrMutexLock
	I["(*sync.Mutex).Unlock"] = intrMutexUnlock
	I["(*sync.Mutex).TryLock"] = intrMutexTryLock
	I["(*sync.RWMutex).Lock"] = intrRWLock
	I["(*sync.RWMutex).Unlock"] = intrRWUnlock
	I["(*sync.RWMutex).RLock"] = intrRLock
	I["(*sync.RWMutex).RUnlock"] = intrRUnlock
	I["(*sync.WaitGroup).Add"] = intrWGAdd
	I["(*sync.WaitGroup).Done"] = intrWGDone
	I["(*sync.WaitGroup).Wait"] = intrWGWait
	// sync/atomic
	for _, ty := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		ty := ty
		I["sync/atomic.Load"+ty.n] = func(m *M, g *G, a []Value) (Value, bool) {
			m.atomicOp(g, a[0], false, func() Value { return m.load(a[0]) })
			return nil, false
		}
		I["sync/atomic.Store"+ty.n] = func(m *M, g *G, a []Value) (Value, bool) {
			m.atomicOp(g, a[0], true, func() Value { m.store(a[0], a[1]); return nil })
			return nil, false
		}
		I["sync/atomic.Swap"+ty.n] = func(m *M, g *G, a []Value) (Value, bool) {
			m.atomicOp(g, a[0], true, func() Value { o := m.load(a[0]); m.store(a[0], a[1]); return o })
			return nil, false
		}
		I["sync/atomic.CompareAndSwap"+ty.n] = func(m *M, g *G, a []Value) (Value, bool) {
			m.atomicOp(g, a[0], true, func() Value {
				o := m.load(a[0])
				var eq *Term
				if ty.w == 0 {
					eq = m.ptrEq(o, a[1])
				} else {
					eq = m.c.Eq(o.(*Term), a[1].(*Term))
				}
				if m.branch(eq) {
					m.store(a[0], a[2])
					return m.c.True
				}
				return m.c.False
			})
			return nil, false
		}
		if ty.w > 0 {
			for _, op := range []struct {
				n string
				f func(m *M, x, y *Term) *Term
				o bool
			}{{"Add", func(m *M, x, y *Term) *Term { return m.c.Bin(OAdd, x, y) }, false},
				{"And", func(m *M, x, y *Term) *Term { return m.c.Bin(OBand, x, y) }, true},
				{"Or", func(m *M, x, y *Term) *Term { return m.c.Bin(OBor, x, y) }, true}} {
				op := op
				I["sync/atomic."+op.n+ty.n] = func(m *M, g *G, a []Value) (Value, bool) {
					m.atomicOp(g, a[0], true, func() Value {
						o := m.load(a[0]).(*Term)
						n := op.f(m, o, a[1].(*Term))
						m.store(a[0], n)
						if op.o {
							return o
						}
						return n
					})
					return nil, false
				}
			}
		}
	}
	valCell := func(v Value) *Cell {
		c := cellOf(v)
		for c.sub != nil {
			c = c.sub[0]
		}
		return c
	}
	I["(*sync/atomic.Value).Load"] = func(m *M, g *G, a []Value) (Value, bool) {
		c := valCell(a[0])
		m.atomicOp(g, c, false, func() Value { return m.loadCell(c) })
		return nil, false
	}
	I["(*sync/atomic.Value).Store"] = func(m *M, g *G, a []Value) (Value, bool) {
		c := valCell(a[0])
		m.atomicOp(g, c, true, func() Value { m.storeCell(c, a[1]); return nil })
		return nil, false
	}
	I["(*sync/atomic.Value).Swap"] = func(m *M, g *G, a []Value) (Value, bool) {
		c := valCell(a[0])
		m.atomicOp(g, c, true, func() Value { o := m.loadCell(c); m.storeCell(c, a[1]); return o })
		return nil, false
	}
	// runtime
	I["internal/abi.NoEscape"] = ret1(func(m *M, a []Value) Value { return a[0] })
	I["internal/abi.Escape"] = ret1(func(m *M, a []Value) Value { return a[0] })
	I["strings.noescape"] = ret1(func(m *M, a []Value) Value { return a[0] })
	I["runtime.Callers"] = ret1(func(m *M, a []Value) Value { return m.int64c(0) })
	I["runtime.NumGoroutine"] = ret1(func(m *M, a []Value) Value { return m.int64c(1) })
	I["runtime.GOMAXPROCS"] = ret1(func(m *M, a []Value) Value { return m.int64c(8) })
	I["runtime.NumCPU"] = ret1(func(m *M, a []Value) Value { return m.int64c(8) })
	I["runtime.KeepAlive"] = ret1(func(m *M, a []Value) Value { return nil })
	I["runtime.SetFinalizer"] = ret1(func(m *M, a []Value) Value { return nil })
	I["runtime.GC"] = ret1(func(m *M, a []Value) Value { return nil })
	I["runtime.Gosched"] = func(m *M, g *G, a []Value) (Value, bool) {
		m.visible(g, &VOp{sig: opSig{kind: opYield, objs: nil}, run: func() Value { return nil }})
		return nil, false
	}
	I["time.Sleep"] = I["runtime.Gosched"]
	I["(runtime.errorString).Error"] = ret1(func(m *M, a []Value) Value { return m.strCat(m.mkStr("runtime error: "), a[0].(*Str)) })
	// time
	I["time.Now"] = ret1(func(m *M, a []Value) Value {
		sec, mono := m.nowSec(), m.nowMono()
		// wall = hasMonotonic | (sec-since-1885)<<30 | nsec ; 1885 -> unix: 2682288000 s
		w := m.c.Bin(OShl, m.c.Bin(OAdd, sec, m.c.BV(64, 2682288000)), m.int64c(30))
		w = m.c.Bin(OBor, w, m.c.BV(64, 1<<63))
		return &Struct{[]Value{w, mono, nilPtr}}
	})
	I["time.runtimeIsBubbled"] = ret1(func(m *M, a []Value) Value { return m.c.False })
	I["time.runtimeNano"] = ret1(func(m *M, a []Value) Value { return m.nowMono() })
	I["time.now"] = ret1(func(m *M, a []Value) Value {
		return Tuple{m.nowSec(), m.c.BV(32, 0), m.nowMono()}
	})
	// the decimal form of a symbolic number is not looked into
	num := func(f func(m *M, a []Value) string) Intrinsic {
		return ret1(func(m *M, a []Value) Value {
			for _, v := range a {
				if !v.(*Term).isConst() {
					return &Str{s: "<num>", conc: true, opq: true}
				}
			}
			return m.mkStr(f(m, a))
		})
	}
	I["strconv.Itoa"] = num(func(m *M, a []Value) string { return strconv.Itoa(int(a[0].(*Term).c)) })
	I["strconv.FormatInt"] = num(func(m *M, a []Value) string { return strconv.FormatInt(int64(a[0].(*Term).c), int(a[1].(*Term).c)) })
	I["strconv.FormatUint"] = num(func(m *M, a []Value) string { return strconv.FormatUint(a[0].(*Term).c, int(a[1].(*Term).c)) })
	I["os.Getpid"] = ret1(func(m *M, a []Value) Value {
		if m.pid == nil {
			m.pid = m.intInput("pid", 64)
			if !m.concrete {
				m.assume(m.c.Cmp(OUlt, m.c.Bin(OSub, m.pid, m.int64c(1)), m.c.BV(64, 1<<22)))
			}
		}
		return m.pid
	})
	// math
	I["math.Sqrt"] = ret1(func(m *M, a []Value) Value { return m.c.FSqrt(a[0].(*Term)) })
	I["math.sqrt"] = I["math.Sqrt"]
	I["math.Abs"] = ret1(func(m *M, a []Value) Value {
		return m.c.Bin(OBand, a[0].(*Term), m.c.BV(64, 1<<63-1))
	})
	I["math.Floor"] = floatFn(math.Floor)
	I["math.Ceil"] = floatFn(math.Ceil)
	I["math.Trunc"] = floatFn(math.Trunc)
	I["math.Log"] = floatFn(math.Log)
	I["math.Log2"] = floatFn(math.Log2)
	I["math.Log10"] = floatFn(math.Log10)
	I["math.Exp"] = floatFn(math.Exp)
	I["math.Round"] = floatFn(math.Round)
	I["math.Pow"] = ret1(func(m *M, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if !x.isConst() || !y.isConst() {
			unsup("math.Pow of symbolic floats")
		}
		return m.c.BV(64, math.Float64bits(math.Pow(math.Float64frombits(x.c), math.Float64frombits(y.c))))
	})
	lenBits := func(w int) Intrinsic {
		return ret1(func(m *M, a []Value) Value {
			x := a[0].(*Term)
			r := m.int64c(0)
			for i := 0; i < w; i++ {
				r = m.c.Ite(m.c.Cmp(OUle, m.c.BV(w, uint64(1)<<uint(i)), x), m.int64c(i+1), r)
			}
			return r
		})
	}
	I["math/bits.Len64"] = lenBits(64)
	I["math/bits.Len32"] = lenBits(32)
	I["math/bits.Len"] = lenBits(64)
	// internal/bytealg
	sb := func(m *M, v Value) []*Term {
		if s, ok := v.(*Str); ok {
			return m.strTerms(s)
		}
		return m.sliceBytes(v.(*Slice))
	}
	I["internal/bytealg.IndexByte"] = ret1(func(m *M, a []Value) Value { return indexBytes(m, sb(m, a[0]), a[1].(*Term)) })
	I["internal/bytealg.IndexByteString"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.Index"] = ret1(func(m *M, a []Value) Value { return indexSub(m, sb(m, a[0]), sb(m, a[1])) })
	I["internal/bytealg.IndexString"] = I["internal/bytealg.Index"]
	I["strings.Index"] = I["internal/bytealg.Index"]
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["internal/bytealg.Count"] = ret1(func(m *M, a []Value) Value { return countBytes(m, sb(m, a[0]), a[1].(*Term)) })
	I["internal/bytealg.CountString"] = I["internal/bytealg.Count"]
	I["internal/bytealg.Compare"] = ret1(func(m *M, a []Value) Value { return cmpBytes(m, sb(m, a[0]), sb(m, a[1])) })
	I["internal/bytealg.CompareString"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.Equal"] = ret1(func(m *M, a []Value) Value { return m.strEq(m.strFromTerms(sb(m, a[0])), m.strFromTerms(sb(m, a[1]))) })
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.MakeNoZero"] = ret1(func(m *M, a []Value) Value {
		n := int(m.concretize(a[0].(*Term), "buffer size"))
		return m.mkSlice(m.newArr(types.Typ[types.Byte], n))
	})
	I["internal/stringslite.Index"] = I["internal/bytealg.Index"]
	I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["strings.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["hash/maphash.MakeSeed"] = ret1(func(m *M, a []Value) Value { unsup("maphash"); return nil })

	// ---- package sym
	S := func(n string, f Intrinsic) { I[symPkg+"."+n] = f }
	for n, w := range map[string]int{"Int": 64, "Int64": 64, "Int32": 32, "Int16": 16, "Int8": 8, "Uint": 64, "Uint8": 8, "Uint16": 16, "Uint32": 32, "Uint64": 64, "Float64": 64, "Float32": 32} {
		w := w
		S(n, ret1(func(m *M, a []Value) Value { return m.intInput(concName(a[0]), w) }))
	}
	S("Bool", ret1(func(m *M, a []Value) Value {
		t := m.intInput(concName(a[0]), 8)
		if !m.concrete {
			m.assume(m.c.Cmp(OUle, t, m.c.BV(8, 1)))
		}
		return m.c.Eq(t, m.c.BV(8, 1))
	}))
	S("Choose", ret1(func(m *M, a []Value) Value {
		name := m.inputName(concName(a[0]))
		n := int(m.concretize(a[1].(*Term), "choice"))
		k := m.choose(n, name)
		m.inputs = append(m.inputs, &Input{name: name, kind: "choose", val: k})
		return m.int64c(k)
	}))
	S("Concretize", ret1(func(m *M, a []Value) Value {
		return m.int64c(int(m.concretize(a[0].(*Term), "value")))
	}))
	S("String", ret1(func(m *M, a []Value) Value {
		n := int(m.concretize(a[1].(*Term), "length"))
		return m.strFromTerms(m.bytesInput(concName(a[0]), n))
	}))
	S("Bytes", ret1(func(m *M, a []Value) Value {
		n := int(m.concretize(a[1].(*Term), "length"))
		return m.byteSlice(m.bytesInput(concName(a[0]), n))
	}))
	S("Buf", ret1(func(m *M, a []Value) Value {
		n := int(m.concretize(a[1].(*Term), "length"))
		return m.bufInput(concName(a[0]), n)
	}))
	S("Assume", ret1(func(m *M, a []Value) Value { m.assume(a[0].(*Term)); return nil }))
	S("Assert", ret1(func(m *M, a []Value) Value { m.assert(a[0].(*Term), approxStr(a[1].(*Str))); return nil }))
	S("Reach", ret1(func(m *M, a []Value) Value {
		m.needModelQuiet()
		m.reached[concName(a[0])] = true
		return nil
	}))
	S("Observe", ret1(func(m *M, a []Value) Value {
		s := a[1].(*Slice)
		o := obs{label: concName(a[0])}
		n := m.sliceLen(s)
		for i := 0; i < n; i++ {
			v := m.loadCellQuiet(m.elem(s.arr, int(s.off.c)+i))
			// snapshot byte slices: the memory may change afterwards
			if f, ok := v.(Iface); ok {
				if sl, ok := f.v.(*Slice); ok && sl.arr != nil && sl.arr.isB && sl.arr.smt == nil && sl.off.isConst() {
					na := &Arr{n: sl.arr.n, isB: true, b: append([]*Term{}, sl.arr.b...)}
					v = Iface{f.t, &Slice{na, sl.off, sl.len, sl.cap}}
				}
			}
			o.vals = append(o.vals, v)
		}
		m.observes = append(m.observes, o)
		return nil
	}))
	S("Bound", ret1(func(m *M, a []Value) Value {
		if m.w.ex.cfg.tier == "thorough" {
			return a[1]
		}
		return a[0]
	}))
	S("Thorough", ret1(func(m *M, a []Value) Value { return m.c.Bool(m.w.ex.cfg.tier == "thorough") }))
	S("SetClock", ret1(func(m *M, a []Value) Value {
		m.clock = a[0].(*Term)
		return nil
	}))
	S("Known", ret1(func(m *M, a []Value) Value {
		_, ok := m.knownVal(a[0].(*Term))
		return m.c.Bool(ok)
	}))
	S("Sequential", ret1(func(m *M, a []Value) Value {
		// the schedule of what follows is not explored; only with no other goroutine around
		for _, g := range m.gs {
			if g != m.cur && !g.done {
				return nil
			}
		}
		m.sched.all = false
		return nil
	}))
	S("Schedule", ret1(func(m *M, a []Value) Value {
		m.sched.all = true
		m.sched.was = true
		m.sched.bound = int(int64(a[0].(*Term).c))
		m.hasConc = true
		return nil
	}))
	S("MapOrder", ret1(func(m *M, a []Value) Value { m.mapMode = int(a[0].(*Term).c); return nil }))
	S("RaceCheck", ret1(func(m *M, a []Value) Value {
		m.raceOn = a[0].(*Term).c != 0
		m.race = m.raceOn && m.multi
		return nil
	}))
	S("NoNative", ret1(func(m *M, a []Value) Value { m.hasConc = true; return nil }))
	S("AllocLimit", ret1(func(m *M, a []Value) Value {
		m.w.maxAlloc = int(a[0].(*Term).c)
		m.allocLimit = true
		return nil
	}))
	S("MaxSteps", ret1(func(m *M, a []Value) Value { m.maxSteps = m.steps + int(a[0].(*Term).c); return nil }))
	S("Faults", ret1(func(m *M, a []Value) Value {
		m.faults = int(int64(a[0].(*Term).c))
		m.nfaults = 0
		m.hasConc = true
		return nil
	}))
	S("NFaults", ret1(func(m *M, a []Value) Value { return m.int64c(m.nfaults) }))
	S("Native", ret1(func(m *M, a []Value) Value { return m.c.False }))
	S("LogStores", ret1(func(m *M, a []Value) Value { m.logStores = a[0].(*Term).c != 0; m.hasConc = true; return nil }))
	S("CrashImage", func(m *M, g *G, a []Value) (Value, bool) {
		p, ok := m.lastMapped()
		if !ok {
			unsup("no mapped file")
		}
		return m.crashImage(&Slice{p, m.int64c(0), m.int64c(p.n), m.int64c(p.n)}), true
	})
	S("Reinit", func(m *M, g *G, a []Value) (Value, bool) {
		// run the initialiser of the package under test again
		path := concName(a[0])
		p := m.w.ld.prog.ImportedPackage(path)
		if p == nil {
			unsup("package %s", path)
		}
		for _, mem := range p.Members {
			if gl, ok := mem.(*ssa.Global); ok {
				delete(m.globals, gl)
			}
		}
		fn := p.Func("init")
		m.pushFrame(g, m.w.fnInfo(fn), nil, nil, -1)
		return nil, true
	})
	S("Leaked", ret1(func(m *M, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done && g != m.cur {
				n++
			}
		}
		return m.int64c(n)
	}))
	S("Allocated", ret1(func(m *M, a []Value) Value { return m.int64c(0) }))
	S("SameBits64", ret1(func(m *M, a []Value) Value { return m.c.Eq(a[0].(*Term), a[1].(*Term)) }))
	S("Ite", ret1(func(m *M, a []Value) Value { return m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }))
	S("And", ret1(func(m *M, a []Value) Value { return m.c.And(a[0].(*Term), a[1].(*Term)) }))
	S("Or", ret1(func(m *M, a []Value) Value { return m.c.Or(a[0].(*Term), a[1].(*Term)) }))
	S("Implies", ret1(func(m *M, a []Value) Value { return m.c.Or(m.c.Not(a[0].(*Term)), a[1].(*Term)) }))
	S("EqBytes", ret1(func(m *M, a []Value) Value {
		x, y := m.sliceBytes(a[0].(*Slice)), m.sliceBytes(a[1].(*Slice))
		if len(x) != len(y) {
			return m.c.False
		}
		r := m.c.True
		for i := range x {
			r = m.c.And(r, m.c.Eq(x[i], y[i]))
		}
		return r
	}))

	// ---- package model
	D := func(n string, f Intrinsic) { I[modelPkg+"."+n] = f }
	D("fault", ret1(func(m *M, a []Value) Value {
		if m.nfaults >= m.faults {
			return m.c.False
		}
		if m.choose(2, "fault in "+approxStr(a[0].(*Str))) == 1 {
			m.nfaults++
			return m.c.True
		}
		return m.c.False
	}))
	D("alias", ret1(func(m *M, a []Value) Value {
		s := a[0].(*Slice)
		n := m.sliceLen(s)
		off := int(s.off.c)
		na := &Arr{id: m.nextID(), n: n, et: types.Typ[types.Byte], isB: true, log: m.logStores}
		if s.arr != nil {
			na.b = s.arr.b[off : off+n : off+n]
		}
		m.mapped = append(m.mapped, na)
		return m.mkSlice(na)
	}))
	D("unalias", ret1(func(m *M, a []Value) Value {
		s := a[0].(*Slice)
		if s.arr != nil {
			s.arr.unmapped = true
		}
		return nil
	}))
	D("sameArray", ret1(func(m *M, a []Value) Value {
		x, y := a[0].(*Slice), a[1].(*Slice)
		return m.c.Bool(x.arr == y.arr)
	}))
	D("kind", ret1(func(m *M, a []Value) Value {
		f := a[0].(Iface)
		if f.t == nil {
			return m.int64c(0)
		}
		return m.int64c(kindNumber(f.t))
	}))
	D("base", ret1(func(m *M, a []Value) Value {
		f := a[0].(Iface)
		if f.t == nil {
			return f
		}
		if b, ok := f.t.Underlying().(*types.Basic); ok {
			return Iface{types.Typ[b.Kind()], f.v}
		}
		if s, ok := f.t.Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
			return Iface{types.NewSlice(types.Typ[types.Byte]), f.v}
		}
		return f
	}))
	D("typeString", ret1(func(m *M, a []Value) Value {
		f := a[0].(Iface)
		if f.t == nil {
			return m.mkStr("<nil>")
		}
		return m.mkStr(types.TypeString(f.t, shortPkg))
	}))
	D("isSym", ret1(func(m *M, a []Value) Value { return m.c.Bool(symbolicVal(a[0])) }))
	D("opaque", ret1(func(m *M, a []Value) Value { return &Str{s: approxStr(a[0].(*Str)), conc: true, opq: true} }))
	D("show", ret1(func(m *M, a []Value) Value { return m.mkStr(m.showIface(a[0].(Iface))) }))
	D("fmtFloat", ret1(func(m *M, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			return &Str{s: "<float>", conc: true, opq: true}
		}
		w := int(a[1].(*Term).c)
		return m.mkStr(strconv.FormatFloat(fval(t.c, t.w), 'g', -1, w))
	}))
	D("quote", ret1(func(m *M, a []Value) Value { return m.mkStr(strconv.Quote(approxStr(a[0].(*Str)))) }))
	ifSlice := func(v Value) (*Slice, types.Type) {
		f := v.(Iface)
		s, ok := f.v.(*Slice)
		if !ok {
			m := f.t
			unsup("slice helper on %v", m)
		}
		return s, f.t.Underlying().(*types.Slice).Elem()
	}
	D("sliceLen", ret1(func(m *M, a []Value) Value {
		s, _ := ifSlice(a[0])
		return m.int64c(m.sliceLen(s))
	}))
	D("sliceAt", ret1(func(m *M, a []Value) Value {
		s, et := ifSlice(a[0])
		i := int(m.concretize(a[1].(*Term), "index"))
		v := m.load(m.addrAt(s.arr, m.c.Bin(OAdd, s.off, m.int64c(i))))
		if f, ok := v.(Iface); ok && types.IsInterface(et) {
			return f
		}
		return Iface{et, v}
	}))
	D("sliceSwap", ret1(func(m *M, a []Value) Value {
		s, _ := ifSlice(a[0])
		p := m.addrAt(s.arr, m.c.Bin(OAdd, s.off, a[1].(*Term)))
		q := m.addrAt(s.arr, m.c.Bin(OAdd, s.off, a[2].(*Term)))
		x, y := m.load(p), m.load(q)
		m.store(p, y)
		m.store(q, x)
		return nil
	}))
	D("deref", ret1(func(m *M, a []Value) Value {
		f := a[0].(Iface)
		pt, ok := f.t.Underlying().(*types.Pointer)
		if !ok {
			return f
		}
		v := m.load(f.v)
		if ff, ok := v.(Iface); ok {
			return ff
		}
		return Iface{pt.Elem(), v}
	}))
	D("comparable", ret1(func(m *M, a []Value) Value {
		f := a[0].(Iface)
		return m.c.Bool(f.t == nil || types.Comparable(f.t))
	}))
	D("fatal", ret1(func(m *M, a []Value) Value { m.violate("fatal", "%s", approxStr(a[0].(*Str))); return nil }))
	D("unsupported", ret1(func(m *M, a []Value) Value { unsup("%s", approxStr(a[0].(*Str))); return nil }))
	D("yield", I["runtime.Gosched"])
	regexIntrinsics(I)
}

func (m *M) lastMapped() (*Arr, bool) {
	for i := len(m.mapped) - 1; i >= 0; i-- {
		if m.mapped[i].log {
			return m.mapped[i], true
		}
	}
	return nil, false
}

func trimGo(s string) string { return strings.TrimSpace(s) }
