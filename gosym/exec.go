package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// control signals (Go panics inside the executor)

type sigUnsup struct{ msg string }
type sigEnd struct{ why string } // the path ends (assume false, violation, infeasible)
type sigPanic struct{ v Iface }  // a panic of the interpreted program
type sigPrune struct{}           // sleep set blocked

func unsup(f string, a ...interface{}) { panic(sigUnsup{fmt.Sprintf(f, a...)}) }

// ---- compiled functions

type Ins struct {
	in  ssa.Instruction
	ops []int32
	dst int32
}

type FnInfo struct {
	fn     *ssa.Function
	name   string
	nslots int
	blocks [][]Ins
	consts []Value
	params []int32
	intr   Intrinsic
	pkg    string
	model  bool
	repo   bool
	cov    bool
	pred   []*ssa.BasicBlock
	simple []bool
}

type globalRef struct{ g *ssa.Global }
type noneRef struct{}

type Intrinsic func(m *M, g *G, args []Value) (Value, bool)

func (w *Worker) fnInfo(fn *ssa.Function) *FnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	name := fnName(fn)
	if rep, ok := w.ld.replace[name]; ok && rep != fn {
		fi := w.fnInfo(rep)
		w.fns[fn] = fi
		return fi
	}
	fi := &FnInfo{fn: fn, name: name}
	w.fns[fn] = fi
	if p := fnPkg(fn); p != nil {
		fi.pkg = p.Pkg.Path()
		fi.model = isModelPkg(fi.pkg)
		fi.repo = isRepoPkg(fi.pkg)
	}
	if it, ok := intrinsics[name]; ok {
		fi.intr = it
		return fi
	}
	if fn.Origin() != nil {
		if it, ok := intrinsics[fnName(fn.Origin())]; ok {
			fi.intr = it
			return fi
		}
	}
	if fn.Blocks == nil {
		fi.intr = func(m *M, g *G, args []Value) (Value, bool) {
			unsup("call of %s, which has no Go body", name)
			return nil, true
		}
		return fi
	}
	slots := map[ssa.Value]int32{}
	n := int32(0)
	slot := func(v ssa.Value) int32 {
		s, ok := slots[v]
		if !ok {
			s = n
			n++
			slots[v] = s
		}
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, slot(p))
	}
	for _, f := range fn.FreeVars {
		slot(f)
	}
	cidx := map[ssa.Value]int32{}
	operand := func(v ssa.Value) int32 {
		if v == nil {
			fi.consts = append(fi.consts, noneRef{})
			return -int32(len(fi.consts))
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			if i, ok := cidx[v]; ok {
				return i
			}
			fi.consts = append(fi.consts, w.constVal(x))
			i := -int32(len(fi.consts))
			cidx[v] = i
			return i
		}
		return slot(v)
	}
	fi.blocks = make([][]Ins, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			i := Ins{in: in, dst: -1}
			for _, op := range in.Operands(nil) {
				i.ops = append(i.ops, operand(*op))
			}
			if v, ok := in.(ssa.Value); ok {
				i.dst = slot(v)
			}
			fi.blocks[bi] = append(fi.blocks[bi], i)
		}
	}
	fi.nslots = int(n)
	fi.pred = predicateOrder(fn, 0)
	return fi
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if fn.Origin() != nil && fn.Origin().Pkg != nil {
			return fn.Origin().Pkg
		}
		fn = fn.Parent()
	}
	return nil
}

func fnName(fn *ssa.Function) string { return fn.String() }

func (w *Worker) constVal(v ssa.Value) Value {
	c := w.c
	switch x := v.(type) {
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	case *ssa.Global:
		return globalRef{x}
	case *ssa.Const:
		t := x.Type()
		if x.Value == nil {
			return w.zeroM.zero(t)
		}
		if isString(t) {
			return &Str{s: constString(x), conc: true}
		}
		wd, _, fl, ok := numInfo(t)
		if !ok {
			if tp, isTP := t.(*types.TypeParam); isTP {
				unsup("constant of type parameter %v", tp)
			}
			unsup("constant %v", x)
		}
		if wd == 0 {
			return c.Bool(constBool(x))
		}
		if fl {
			return c.BV(wd, fbits(x.Float64(), int16(wd)))
		}
		return c.BV(wd, constBits(x))
	}
	panic("constVal")
}

// ---- frames and goroutines

type deferred struct {
	fn   Value // *Closure or *ssa.Builtin
	args []Value
	inv  *ssa.Function
}

type Frame struct {
	fi     *FnInfo
	env    []Value
	blk    int
	prev   int
	pc     int
	defers []*deferred
	dst    int32 // slot of the caller's frame that receives the result, or -1
	dp     *Panic
	inDef  bool // this frame was started by RunDefers
	onRet  func(Value)
}

type Panic struct {
	v         Iface
	recovered bool
	where     string
}

type G struct {
	id     int
	frames []*Frame
	pend   *VOp
	unwind *Panic
	done   bool
	vc     []uint32
	name   string
	nops   int
}

func (g *G) top() *Frame { return g.frames[len(g.frames)-1] }

func (m *M) newG(name string) *G {
	g := &G{id: len(m.gs), name: name}
	g.vc = make([]uint32, g.id+1)
	g.vc[g.id] = 1
	m.gs = append(m.gs, g)
	return g
}

func (fr *Frame) get(i int32, m *M) Value {
	if i >= 0 {
		return fr.env[i]
	}
	v := fr.fi.consts[-i-1]
	if gr, ok := v.(globalRef); ok {
		return m.global(gr.g)
	}
	return v
}

func (m *M) pushFrame(g *G, fi *FnInfo, free, args []Value, dst int32) *Frame {
	fr := &Frame{fi: fi, env: make([]Value, fi.nslots), dst: dst, prev: -1}
	if len(args) != len(fi.params) {
		panic(fmt.Sprintf("call of %s with %d args, want %d", fi.name, len(args), len(fi.params)))
	}
	copy(fr.env, args) // params occupy the first slots
	copy(fr.env[len(args):], free)
	if len(g.frames) > 3000 {
		unsup("call depth")
	}
	if !fi.cov && (fi.repo) {
		fi.cov = true
		m.w.covered[fi.name] = true
	}
	g.frames = append(g.frames, fr)
	return fr
}

// callValue starts a call; when the callee is an intrinsic that completes
// immediately the result is stored right away.
func (m *M) callValue(g *G, f Value, args []Value, dst int32) {
	switch c := f.(type) {
	case *Closure:
		if c == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if c.nat != nil {
			m.setDst(g, dst, c.nat(m, g, args))
			return
		}
		m.callFn(g, c.fn, c.free, args, dst)
	default:
		unsup("call of %T", f)
	}
}

func (m *M) setDst(g *G, dst int32, v Value) {
	if dst >= 0 {
		g.top().env[dst] = v
	}
}

func (m *M) callFn(g *G, fn *ssa.Function, free, args []Value, dst int32) {
	fi := m.w.fnInfo(fn)
	if fi.intr != nil {
		v, done := fi.intr(m, g, args)
		if done {
			m.setDst(g, dst, v)
		} else if g.pend != nil {
			if len(g.frames) > 0 {
				g.pend.fr = g.top()
			}
			g.pend.dst = dst
		}
		return
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && isStd(fi.pkg) {
		return // standard library packages are initialised lazily
	}
	if fi.pred != nil && dst >= 0 {
		for _, a := range args {
			if !a.(*Term).isConst() {
				if !fi.cov && fi.repo {
					fi.cov = true
					m.w.covered[fi.name] = true
				}
				m.setDst(g, dst, m.predicate(fi, args))
				return
			}
		}
	}
	m.pushFrame(g, fi, free, args, dst)
}

func (m *M) inModel() bool {
	return m.cur != nil && len(m.cur.frames) > 0 && m.cur.top().fi.model
}

func (m *M) where() string {
	if m.cur == nil {
		return ""
	}
	var out []string
	for i := len(m.cur.frames) - 1; i >= 0 && len(out) < 12; i-- {
		fr := m.cur.frames[i]
		pos := token.NoPos
		if fr.blk < len(fr.fi.blocks) && fr.pc-1 >= 0 && fr.pc-1 < len(fr.fi.blocks[fr.blk]) {
			pos = fr.fi.blocks[fr.blk][fr.pc-1].in.Pos()
		}
		p := m.w.ld.fset.Position(pos)
		out = append(out, fmt.Sprintf("%s (%s:%d)", fr.fi.name, p.Filename, p.Line))
	}
	return strings.Join(out, " < ")
}

// runG executes g until it finishes or stops before a visible operation.
func (m *M) runG(g *G) {
	m.cur = g
	for !g.done && g.pend == nil {
		m.runSome(g)
	}
}

func (m *M) runSome(g *G) {
	defer func() {
		if r := recover(); r != nil {
			if sp, ok := r.(sigPanic); ok {
				m.startPanic(g, sp.v)
				return
			}
			panic(r)
		}
	}()
	for g.pend == nil {
		if g.unwind != nil {
			m.unwindStep(g)
			if g.done {
				return
			}
			continue
		}
		if len(g.frames) == 0 {
			g.done = true
			return
		}
		m.step(g)
	}
}

func (m *M) startPanic(g *G, v Iface) {
	g.unwind = &Panic{v: v, where: m.where()}
}

func (m *M) unwindStep(g *G) {
	p := g.unwind
	if len(g.frames) == 0 {
		m.violate("panic", "uncaught panic: %s [at %s]", m.showIface(p.v), p.where)
	}
	fr := g.top()
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		before := len(g.frames)
		m.runDeferred(g, d)
		if len(g.frames) > before {
			g.top().dp = p
			g.unwind = nil
		}
		return
	}
	// nothing deferred: leave the frame
	g.frames = g.frames[:len(g.frames)-1]
}

func (m *M) runDeferred(g *G, d *deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		m.builtin(g, b, d.args, nil)
		return
	}
	if d.inv != nil {
		m.callFn(g, d.inv, nil, d.args, -1)
		return
	}
	m.callValue(g, d.fn, d.args, -1)
}

func (m *M) ret(g *G, v Value) {
	fr := g.top()
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
	}
	if fr.dp != nil {
		p := fr.dp
		if !p.recovered {
			g.unwind = p
			return
		}
		// recovered: the frame that deferred the call returns normally
		caller := g.top()
		if rb := caller.fi.fn.Recover; rb != nil {
			caller.prev = caller.blk
			caller.blk = rb.Index
			caller.pc = 0
			return
		}
		rt := caller.fi.fn.Signature.Results()
		switch rt.Len() {
		case 0:
			m.ret(g, nil)
		case 1:
			m.ret(g, m.zero(rt.At(0).Type()))
		default:
			m.ret(g, m.zero(rt))
		}
		return
	}
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	m.setDst(g, fr.dst, v)
}

func (m *M) jump(fr *Frame, to *ssa.BasicBlock) {
	from := fr.blk
	if len(fr.fi.blocks[to.Index]) == 0 {
		m.enter(fr, from, to, nil)
		return
	}
	if _, ok := fr.fi.blocks[to.Index][0].in.(*ssa.Phi); !ok {
		m.enter(fr, from, to, nil)
		return
	}
	m.enter(fr, from, to, m.phis(fr, from, to))
}

// enter goes to a block, whose phis get the given values.
func (m *M) enter(fr *Frame, from int, to *ssa.BasicBlock, vals []Value) {
	fr.prev = from
	fr.blk = to.Index
	fr.pc = len(vals)
	for i, v := range vals {
		fr.env[fr.fi.blocks[to.Index][i].dst] = v
	}
}

func (m *M) step(g *G) {
	fr := g.top()
	ins := &fr.fi.blocks[fr.blk][fr.pc]
	fr.pc++
	m.steps++
	if m.steps > m.maxSteps {
		m.timeout()
	}
	switch in := ins.in.(type) {
	case *ssa.Alloc:
		c := m.newCell(in.Type().Underlying().(*types.Pointer).Elem())
		if !in.Heap || fr.fi.model {
			cellNoRace(c)
		}
		fr.env[ins.dst] = c
	case *ssa.BinOp:
		fr.env[ins.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(ins.ops[0], m), fr.get(ins.ops[1], m))
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			m.recv(g, fr.get(ins.ops[0], m).(*Chan), in.CommaOk, in.X.Type().Underlying().(*types.Chan).Elem(), ins.dst)
			return
		}
		fr.env[ins.dst] = m.unop(in, fr.get(ins.ops[0], m))
	case *ssa.Call:
		m.call(g, fr, &in.Call, ins.ops, ins.dst)
	case *ssa.ChangeInterface:
		fr.env[ins.dst] = fr.get(ins.ops[0], m)
	case *ssa.ChangeType:
		fr.env[ins.dst] = fr.get(ins.ops[0], m)
	case *ssa.Convert:
		fr.env[ins.dst] = m.convert(in.X.Type(), in.Type(), fr.get(ins.ops[0], m))
	case *ssa.MultiConvert:
		fr.env[ins.dst] = m.convert(in.X.Type(), in.Type(), fr.get(ins.ops[0], m))
	case *ssa.Defer:
		if in.DeferStack != nil {
			unsup("defer in a range-over-func body")
		}
		// the last operand is the (absent) defer stack
		f, args, inv := m.resolveCall(fr, &in.Call, ins.ops[:len(ins.ops)-1])
		fr.defers = append(fr.defers, &deferred{f, args, inv})
	case *ssa.Extract:
		fr.env[ins.dst] = fr.get(ins.ops[0], m).(Tuple)[in.Index]
	case *ssa.Field:
		fr.env[ins.dst] = fr.get(ins.ops[0], m).(*Struct).f[in.Field]
	case *ssa.FieldAddr:
		fr.env[ins.dst] = m.fieldAddr(fr.get(ins.ops[0], m), in)
	case *ssa.Go:
		m.goStmt(g, fr, in, ins.ops)
	case *ssa.If:
		c := fr.get(ins.ops[0], m).(*Term)
		m.branchIf(fr, c)
	case *ssa.Index:
		fr.env[ins.dst] = m.indexVal(fr.get(ins.ops[0], m), fr.get(ins.ops[1], m).(*Term), in.Index.Type())
	case *ssa.IndexAddr:
		fr.env[ins.dst] = m.indexAddr(fr.get(ins.ops[0], m), fr.get(ins.ops[1], m).(*Term), in)
	case *ssa.Jump:
		m.jump(fr, fr.fi.fn.Blocks[fr.blk].Succs[0])
	case *ssa.Lookup:
		fr.env[ins.dst] = m.lookup(in, fr.get(ins.ops[0], m), fr.get(ins.ops[1], m))
	case *ssa.MakeChan:
		n := m.concretize(fr.get(ins.ops[0], m).(*Term), "channel size")
		m.nextArr++
		fr.env[ins.dst] = &Chan{id: m.nextArr, cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, o := range ins.ops[1:] {
			cl.free = append(cl.free, fr.get(o, m))
		}
		fr.env[ins.dst] = cl
	case *ssa.MakeInterface:
		fr.env[ins.dst] = Iface{in.X.Type(), fr.get(ins.ops[0], m)}
	case *ssa.MakeMap:
		if m.allocLimit && in.Reserve != nil {
			n := m.idx64(fr.get(ins.ops[0], m).(*Term), in.Reserve.Type())
			if m.branch(m.c.Cmp(OSlt, m.int64c(m.w.maxAlloc), n)) {
				m.bigAlloc(n)
			}
		}
		mo := m.newMap(in.Type().Underlying().(*types.Map))
		if fr.fi.model {
			mo.acc = &Acc{off: true}
		}
		fr.env[ins.dst] = mo
	case *ssa.MakeSlice:
		fr.env[ins.dst] = m.makeSlice(fr, in, ins)
	case *ssa.MapUpdate:
		mo := fr.get(ins.ops[0], m).(*MapObj)
		if mo == nil {
			m.goPanicStr("assignment to entry in nil map")
		}
		m.mapSet(mo, fr.get(ins.ops[1], m), fr.get(ins.ops[2], m))
	case *ssa.Next:
		fr.env[ins.dst] = m.next(in, fr.get(ins.ops[0], m))
	case *ssa.Panic:
		v := fr.get(ins.ops[0], m).(Iface)
		if v.t == nil {
			m.rtPanic("panic called with nil argument")
		}
		panic(sigPanic{v})
	case *ssa.Phi:
		// evaluated by jump
		unsup("phi reached")
	case *ssa.Range:
		switch x := fr.get(ins.ops[0], m).(type) {
		case *MapObj:
			m.mapAccess(x, false)
			fr.env[ins.dst] = &mapIter{m: x, ents: m.mapOrder(x)}
		case *Str:
			fr.env[ins.dst] = &strIter{s: x}
		default:
			unsup("range over %T", x)
		}
	case *ssa.Return:
		switch len(ins.ops) {
		case 0:
			m.ret(g, nil)
		case 1:
			m.ret(g, fr.get(ins.ops[0], m))
		default:
			t := make(Tuple, len(ins.ops))
			for i, o := range ins.ops {
				t[i] = fr.get(o, m)
			}
			m.ret(g, t)
		}
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.pc--
			m.runDeferred(g, d)
		}
	case *ssa.Select:
		m.selectStmt(g, fr, in, ins)
	case *ssa.Send:
		m.send(g, fr.get(ins.ops[0], m).(*Chan), fr.get(ins.ops[1], m))
	case *ssa.Slice:
		fr.env[ins.dst] = m.sliceOp(fr, in, ins)
	case *ssa.SliceToArrayPointer:
		s := fr.get(ins.ops[0], m).(*Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if m.branch(m.c.Cmp(OUlt, s.len, m.int64c(int(n)))) {
			m.rtPanic("cannot convert slice to array: length too short")
		}
		if s.arr == nil {
			fr.env[ins.dst] = nilPtr
		} else {
			fr.env[ins.dst] = VPtr{s.arr, s.off, in.Type().Underlying().(*types.Pointer).Elem()}
		}
	case *ssa.Store:
		m.store(fr.get(ins.ops[0], m), fr.get(ins.ops[1], m))
	case *ssa.TypeAssert:
		fr.env[ins.dst] = m.typeAssert(in, fr.get(ins.ops[0], m).(Iface))
	default:
		unsup("instruction %T", in)
	}
}

func (m *M) resolveCall(fr *Frame, c *ssa.CallCommon, ops []int32) (Value, []Value, *ssa.Function) {
	args := make([]Value, 0, len(ops))
	if c.IsInvoke() {
		recv := fr.get(ops[0], m).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.w.method(recv.t, c.Method)
		if fn == nil {
			unsup("no method %v on %v", c.Method, recv.t)
		}
		args = append(args, recv.v)
		for _, o := range ops[1:] {
			args = append(args, fr.get(o, m))
		}
		return nil, args, fn
	}
	f := fr.get(ops[0], m)
	for _, o := range ops[1:] {
		args = append(args, fr.get(o, m))
	}
	return f, args, nil
}

func (m *M) call(g *G, fr *Frame, c *ssa.CallCommon, ops []int32, dst int32) {
	f, args, inv := m.resolveCall(fr, c, ops)
	if inv != nil {
		m.callFn(g, inv, nil, args, dst)
		return
	}
	if b, ok := f.(*ssa.Builtin); ok {
		v := m.builtin(g, b, args, c)
		if g.pend != nil {
			g.pend.fr, g.pend.dst = fr, dst
			return
		}
		m.setDst(g, dst, v)
		return
	}
	m.callValue(g, f, args, dst)
}

func (m *M) goStmt(g *G, fr *Frame, in *ssa.Go, ops []int32) {
	f, args, inv := m.resolveCall(fr, &in.Call, ops)
	pos := m.w.ld.fset.Position(in.Pos())
	if m.allocLimit && len(m.gs) > 512 {
		m.violate("alloc", "more than 512 goroutines for one small input")
	}
	ng := m.newG(fmt.Sprintf("go@%s:%d", shortFile(pos.Filename), pos.Line))
	// fork: the child inherits the parent's clock
	for i := range g.vc {
		if i < len(ng.vc) {
			ng.vc[i] = max(ng.vc[i], g.vc[i])
		}
	}
	g.vc[g.id]++
	m.multi = true
	m.race = m.raceOn
	m.sched.onGo(m, g, ng)
	old := m.cur
	m.cur = ng
	if inv != nil {
		m.callFn(ng, inv, nil, args, -1)
	} else if b, ok := f.(*ssa.Builtin); ok {
		m.builtin(ng, b, args, &in.Call)
	} else {
		m.callValue(ng, f, args, -1)
	}
	m.cur = old
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---- panics raised by the runtime

func (m *M) rtPanic(msg string) {
	t := m.w.ld.rtErr
	panic(sigPanic{Iface{t, m.mkStr(msg)}})
}

func (m *M) goPanicStr(msg string) { m.rtPanic(msg) }

func (m *M) showIface(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	return types.TypeString(v.t, shortPkg) + ":" + m.show(v.v, 4)
}

func shortPkg(p *types.Package) string { return p.Name() }

func (m *M) show(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.c)
		}
		return "<sym>"
	case *Str:
		return fmt.Sprintf("%q", approxStr(x))
	case *Cell:
		if x == nil {
			return "nil"
		}
		if x.sub != nil {
			var parts []string
			for _, s := range x.sub {
				if s.v != nil {
					parts = append(parts, m.show(s.v, d-1))
				}
			}
			return "&{" + strings.Join(parts, " ") + "}"
		}
		return "&" + m.show(x.v, d-1)
	case *Struct:
		var parts []string
		for _, s := range x.f {
			parts = append(parts, m.show(s, d-1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case Iface:
		return m.showIface(x)
	}
	return fmt.Sprintf("%T", v)
}

// ---- decisions

// branch decides a condition, forking when both sides are feasible.
func (m *M) branch(c *Term) bool {
	if c.isConst() {
		return c.c != 0
	}
	if b, ok := m.known[c]; ok {
		return b
	}
	if c.op == ONot {
		return !m.branch(c.a[0])
	}
	if c.op == OAnd || c.op == OOr {
		abs := c.op == OOr // the value that decides the connective
		for i := 0; i < 2; i++ {
			if b, ok := m.knownVal(c.a[i]); ok {
				if b == abs {
					return abs
				}
				return m.branch(c.a[1-i])
			}
		}
	}
	if m.initing {
		unsup("symbolic branch during initialisation")
	}
	if n := m.replayNode('b'); n != nil {
		m.addPC(c, n.choice == 1)
		return n.choice == 1
	}
	m.needModel()
	side := m.ev.Eval(c) != 0
	other := c
	if side {
		other = m.c.Not(c)
	}
	r, mod := m.check(other)
	n := &Node{kind: 'b', choice: int(b2u(side))}
	switch r {
	case Sat:
		n.alts = append(n.alts, Alt{choice: int(b2u(!side)), model: mod})
	case Unknown:
		m.w.stats.unknownBranches++
		n.alts = append(n.alts, Alt{choice: int(b2u(!side))})
	}
	if r != Unsat {
		m.pushNode(n)
	} else {
		m.pushNode(n) // keep positions stable under replay
	}
	m.addPC(c, side)
	return side
}

func (m *M) knownVal(c *Term) (bool, bool) {
	if c.isConst() {
		return c.c != 0, true
	}
	if b, ok := m.known[c]; ok {
		return b, true
	}
	if c.op == ONot {
		b, ok := m.knownVal(c.a[0])
		return !b, ok
	}
	return false, false
}

func (m *M) addPC(c *Term, val bool) {
	if c.isConst() {
		return
	}
	m.known[c] = val
	t := c
	if !val {
		t = m.c.Not(c)
	}
	m.pc = append(m.pc, t)
	m.assertPC(t)
	m.learn(t)
}

// learn records simple unsigned upper bounds used by the simplifier. They
// are only valid on this path, so they are dropped when the path ends.
func (m *M) learn(t *Term) {
	set := func(x *Term, u uint64) {
		if x.isConst() {
			return
		}
		if o, ok := m.c.upper[x]; !ok || u < o {
			m.c.upper[x] = u
		}
	}
	switch t.op {
	case OUlt:
		if t.a[1].isConst() && t.a[1].c > 0 {
			set(t.a[0], t.a[1].c-1)
		}
	case OUle:
		if t.a[1].isConst() {
			set(t.a[0], t.a[1].c)
		}
	case OEq:
		if t.a[1].isConst() && t.a[1].w > 0 {
			set(t.a[0], t.a[1].c)
		}
	}
}

func (m *M) needModel() {
	if m.model != nil {
		return
	}
	r, mod := m.check(nil)
	switch r {
	case Unsat:
		panic(sigEnd{"infeasible"})
	case Unknown:
		m.w.stats.unknownBranches++
		panic(sigUnsup{"solver gave no verdict on the path condition"})
	}
	m.setModel(mod)
}

func (m *M) setModel(mod *Model) {
	m.model = mod
	m.ev = mod.Evaler()
}

// choose makes a nondeterministic choice among n options.
func (m *M) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if nd := m.replayNode('c'); nd != nil {
		return nd.choice
	}
	if m.initing {
		unsup("choice during initialisation")
	}
	nd := &Node{kind: 'c', label: label}
	for i := n - 1; i >= 1; i-- {
		nd.alts = append(nd.alts, Alt{choice: i, model: m.model})
	}
	m.pushNode(nd)
	return 0
}

// concretize enumerates every feasible value of t, one per path.
func (m *M) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.c
	}
	if m.initing {
		unsup("symbolic value during initialisation")
	}
	if nd := m.replayNode('v'); nd != nil {
		m.addEq(t, nd.aux)
		return nd.aux
	}
	m.needModel()
	type vm struct {
		v uint64
		m *Model
	}
	vals := []vm{{m.ev.Eval(t), m.model}}
	excl := m.c.Not(m.c.Eq(t, m.c.BV(int(t.w), vals[0].v)))
	for {
		r, mod := m.check(excl)
		if r == Unsat {
			break
		}
		if r == Unknown {
			m.w.stats.unknownBranches++
			m.cut("solver gave no verdict while enumerating a %s", why)
			break
		}
		v := mod.Evaler().Eval(t)
		vals = append(vals, vm{v, mod})
		excl = m.c.And(excl, m.c.Not(m.c.Eq(t, m.c.BV(int(t.w), v))))
		if len(vals) > m.maxConc {
			m.cut("more than %d values of a symbolic %s at %s", m.maxConc, why, m.where())
			break
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].v < vals[j].v })
	nd := &Node{kind: 'v', aux: vals[0].v, label: why}
	for i := len(vals) - 1; i >= 1; i-- {
		nd.alts = append(nd.alts, Alt{aux: vals[i].v, model: vals[i].m})
	}
	m.pushNode(nd)
	m.setModel(vals[0].m)
	m.addEq(t, vals[0].v)
	return vals[0].v
}

func (m *M) addEq(t *Term, v uint64) {
	e := m.c.Eq(t, m.c.BV(int(t.w), v))
	m.addPC(e, true)
}

// cut records that part of the behaviour lies outside what was explored.
func (m *M) cut(f string, a ...interface{}) {
	m.w.stats.addCut(fmt.Sprintf(f, a...))
}

func (m *M) timeout() {
	m.violate("nontermination", "more than %d instructions executed without the operation finishing", m.maxSteps)
}
