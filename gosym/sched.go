package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	opLock opKind = iota
	opUnlock
	opTryLock
	opRLock
	opRUnlock
	opWAnn
	opWAcq
	opWUnlock
	opSend
	opRecv
	opClose
	opSelect
	opAdd
	opDone
	opWait
	opARead
	opAWrite
	opYield
)

var opNamesV = [...]string{"Lock", "Unlock", "TryLock", "RLock", "RUnlock", "Lock(announce)", "Lock(acquire)", "Unlock", "send", "recv", "close", "select", "Add", "Done", "Wait", "atomic load", "atomic update", "yield"}

type opSig struct {
	kind opKind
	objs []interface{}
	cap  int
}

type VOp struct {
	sig     opSig
	enabled func() bool
	run     func() Value
	fr      *Frame
	dst     int32
	sel     *selOp
	sendV   Value
	commaOk bool
	et      types.Type
}

type selOp struct {
	cases []selCase
	block bool
}

type selCase struct {
	ch   *Chan
	send bool
	v    Value
	et   types.Type
}

func depKinds(a, b opSig) bool {
	x, y := a.kind, b.kind
	if x > y {
		x, y = y, x
	}
	switch {
	case x == opRLock && (y == opRLock || y == opRUnlock), x == opRUnlock && (y == opRUnlock || y == opWAnn):
		return false
	case x == opAdd && y == opAdd, x == opDone && y == opDone, x == opWait && y == opWait:
		return false
	case x == opARead && y == opARead:
		return false
	}
	return true
}

func coEnabled(a, b opSig) bool {
	x, y := a.kind, b.kind
	if x > y {
		x, y = y, x
	}
	switch {
	case x == opLock && y == opUnlock, x == opUnlock && y == opUnlock:
		return false
	case x == opRLock && (y == opWUnlock || y == opWAcq), x == opRUnlock && (y == opWAcq || y == opWUnlock):
		return false
	case x == opWAnn && (y == opWUnlock || y == opWAcq), x == opWAcq && (y == opWAcq || y == opWUnlock), x == opWUnlock && y == opWUnlock:
		return false
	case x == opSend && y == opRecv && max(a.cap, b.cap) <= 1:
		return false
	case x == opDone && y == opWait:
		return false
	}
	return true
}

func shareObj(a, b opSig) bool {
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == y {
				return true
			}
		}
	}
	return false
}

func dependent(a, b opSig) bool { return shareObj(a, b) && depKinds(a, b) }

type Event struct {
	g, g2 int
	sig   opSig
	node  *Node
	clock []int
}

type Sched struct {
	all      bool
	was      bool
	bound    int // preemption bound, -1 none
	preempts int
	events   []Event
	objEv    map[interface{}][]int
	cv       map[int][]int
	sleep    map[int]opSig
	last     int
	switches int
	ids      map[interface{}]int // stable names of objects across executions
}

// oid names a synchronisation object by the order in which operations on it
// became pending, which executions with the same prefix share.
func (s *Sched) oid(o interface{}) interface{} {
	if id, ok := o.(objID); ok {
		return id
	}
	id, ok := s.ids[o]
	if !ok {
		id = len(s.ids) + 1
		s.ids[o] = id
	}
	return objID(id)
}

type objID int

func newSched() *Sched {
	return &Sched{bound: -1, objEv: map[interface{}][]int{}, cv: map[int][]int{}, last: 0, ids: map[interface{}]int{}}
}

func joinInt(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func atInt(a []int, i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (s *Sched) onGo(m *M, parent, child *G) {
	s.cv[child.id] = append([]int{}, s.cv[parent.id]...)
}

// raceCheck adds the backtracking points required by g's pending operation.
func (s *Sched) raceCheck(m *M, g int, sig opSig) {
	best := -1
	for _, o := range sig.objs {
		l := s.objEv[o]
		for k := len(l) - 1; k >= 0; k-- {
			idx := l[k]
			if idx <= best {
				break
			}
			ev := &s.events[idx]
			if ev.g == g || ev.g2 == g {
				continue
			}
			if !depKinds(ev.sig, sig) || !coEnabled(ev.sig, sig) {
				continue
			}
			if atInt(s.cv[g], ev.g) >= idx+1 {
				continue
			}
			best = idx
			break
		}
	}
	if best < 0 {
		return
	}
	nd := s.events[best].node
	if nd == nil {
		return
	}
	in := func(x int) bool {
		for _, e := range nd.enabled {
			if e == x {
				return true
			}
		}
		return false
	}
	if in(g) {
		nd.addBacktrack(g)
		return
	}
	var e []int
	for _, q := range nd.enabled {
		for j := best + 1; j < len(s.events); j++ {
			if s.events[j].g == q && atInt(s.cv[g], q) >= j+1 {
				e = append(e, q)
				break
			}
		}
	}
	if len(e) > 0 {
		for _, q := range e {
			if nd.backtrack[q] {
				return
			}
		}
		nd.addBacktrack(e[0])
		return
	}
	for _, q := range nd.enabled {
		nd.addBacktrack(q)
	}
}

func (n *Node) addBacktrack(g int) { n.backtrack[g] = true }

func (s *Sched) record(m *M, g, g2 int, sig opSig, nd *Node) {
	idx := len(s.events)
	cl := append([]int{}, s.cv[g]...)
	if g2 >= 0 {
		cl = joinInt(cl, s.cv[g2])
	}
	for _, o := range sig.objs {
		for _, k := range s.objEv[o] {
			if depKinds(s.events[k].sig, sig) {
				cl = joinInt(cl, s.events[k].clock)
			}
		}
	}
	for len(cl) <= max(g, g2) {
		cl = append(cl, 0)
	}
	cl[g] = idx + 1
	if g2 >= 0 {
		cl[g2] = idx + 1
	}
	s.events = append(s.events, Event{g, g2, sig, nd, cl})
	s.cv[g] = append([]int{}, cl...)
	if g2 >= 0 {
		s.cv[g2] = append([]int{}, cl...)
	}
	for _, o := range sig.objs {
		s.objEv[o] = append(s.objEv[o], idx)
	}
}

// runAll drives the goroutines until the main goroutine and everything that
// can still run has finished.
func (m *M) runAll() {
	s := m.sched
	for {
		// bring every goroutine to its next visible operation
		for i := 0; i < len(m.gs); i++ {
			if g := m.gs[i]; !g.done && g.pend == nil {
				m.runG(g)
			}
		}
		if m.gs[0].done && !m.mainDone {
			m.mainDone = true
		}
		var en []int
		for _, g := range m.gs {
			if !g.done && g.pend != nil && g.pend.enabled() {
				en = append(en, g.id)
			}
		}
		if len(en) == 0 {
			var blocked []string
			for _, g := range m.gs {
				if !g.done {
					if s.all {
						s.raceCheck(m, g.id, g.pend.sig)
					}
					m.cur = g
					blocked = append(blocked, fmt.Sprintf("goroutine %d (%s) blocked in %s at %s", g.id, g.name, opNamesV[g.pend.sig.kind], m.where()))
				}
			}
			if !m.gs[0].done {
				m.violate("deadlock", "all goroutines are blocked: %s", strings.Join(blocked, "; "))
			}
			m.leaked = blocked
			return
		}
		pick := -1
		var nd *Node
		if s.all && len(m.gs) > 1 {
			pick, nd = m.schedPick(en)
		} else {
			for _, e := range en {
				if e == s.last {
					pick = e
				}
			}
			if pick < 0 {
				pick = en[0]
			}
		}
		m.execOp(m.gs[pick], nd)
	}
}

func (m *M) schedPick(en []int) (int, *Node) {
	s := m.sched
	nd := m.replayNode('s')
	if nd == nil {
		nd = &Node{kind: 's', enabled: append([]int{}, en...), backtrack: map[int]bool{}, doneSet: map[int]bool{}, sleep: s.sleep, sigs: map[int]opSig{}}
		for _, e := range en {
			nd.sigs[e] = m.gs[e].pend.sig
		}
		pick := -1
		for _, e := range en {
			if _, sl := s.sleep[e]; !sl && (pick < 0 || e == s.last) {
				pick = e
			}
		}
		if pick < 0 {
			panic(sigPrune{})
		}
		nd.choice = pick
		nd.backtrack[pick] = true
		nd.prevG = s.last
		nd.preempts = s.preempts
		m.pushNode(nd)
	}
	pick := nd.choice
	for _, e := range en {
		if e == s.last && pick != s.last {
			s.preempts++
		}
	}
	ns := map[int]opSig{}
	ps := m.gs[pick].pend.sig
	for q, sg := range nd.sleep {
		if q != pick && !dependent(sg, ps) {
			ns[q] = sg
		}
	}
	for q := range nd.doneSet {
		if q != pick {
			if sg, ok := nd.sigs[q]; ok && !dependent(sg, ps) {
				ns[q] = sg
			}
		}
	}
	s.sleep = ns
	return pick, nd
}

func (m *M) execOp(g *G, nd *Node) {
	s := m.sched
	op := g.pend
	if s.last != g.id {
		s.switches++
	}
	s.last = g.id
	m.cur = g
	m.transitions++
	if s.all {
		s.raceCheck(m, g.id, op.sig)
	}
	m.partner = -1
	g.pend = nil
	var v Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if sp, ok := r.(sigPanic); ok {
					m.startPanic(g, sp.v)
					return
				}
				panic(r)
			}
		}()
		v = op.run()
	}()
	if s.all {
		if m.partner >= 0 {
			s.raceCheck(m, m.partner, op.sig)
		}
		s.record(m, g.id, m.partner, op.sig, nd)
	}
	if len(m.schedTrace) < 4000 {
		m.schedTrace = append(m.schedTrace, fmt.Sprintf("g%d:%s", g.id, opNamesV[op.sig.kind]))
	}
	if g.unwind == nil && g.pend == nil && op.fr != nil && op.dst >= 0 {
		op.fr.env[op.dst] = v
	} else if g.pend != nil {
		// a two step operation (RWMutex.Lock): keep the result slot
		g.pend.fr, g.pend.dst = op.fr, op.dst
	}
	if len(g.frames) == 0 && g.pend == nil && g.unwind == nil {
		g.done = true
	}
}

// visible makes op the next visible operation of g.
func (m *M) visible(g *G, op *VOp) {
	if op.enabled == nil {
		op.enabled = func() bool { return true }
	}
	op.dst = -1
	for i, o := range op.sig.objs {
		op.sig.objs[i] = m.sched.oid(o)
	}
	if !m.multi && op.enabled() {
		// single threaded: no scheduling needed
		g.pend = op
		return
	}
	g.pend = op
}

// ---- vector clocks and data races

func joinVC(a []uint32, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func atVC(a []uint32, i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (g *G) acquire(vc []uint32) { g.vc = joinVC(g.vc, vc) }
func (g *G) release() []uint32 {
	r := append([]uint32{}, g.vc...)
	g.vc[g.id]++
	return r
}

type Acc struct {
	off  bool
	wg   int32
	wc   uint32
	wpos *Ins
	wfn  *FnInfo
	r    []uint32
	rpos *Ins
	rfn  *FnInfo
}

func (m *M) curIns() (*Ins, *FnInfo) {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return nil, nil
	}
	fr := m.cur.top()
	if fr.pc-1 >= 0 && fr.pc-1 < len(fr.fi.blocks[fr.blk]) {
		return &fr.fi.blocks[fr.blk][fr.pc-1], fr.fi
	}
	return nil, fr.fi
}

func (m *M) insPos(i *Ins, fi *FnInfo) string {
	if fi == nil {
		return "?"
	}
	if i == nil {
		return fi.name
	}
	p := m.w.ld.fset.Position(i.in.Pos())
	return fmt.Sprintf("%s (%s:%d)", fi.name, shortFile(p.Filename), p.Line)
}

func (m *M) accessCell(c *Cell, write bool) {
	if c.shared {
		return
	}
	if c.acc == nil {
		c.acc = &Acc{}
	}
	m.access(c.acc, write, "variable")
}

func (m *M) accessByte(a *Arr, i int, write bool) {
	if a.shared {
		return
	}
	if a.bacc == nil {
		a.bacc = make([]*Acc, a.n)
	}
	if a.bacc[i] == nil {
		a.bacc[i] = &Acc{}
	}
	m.access(a.bacc[i], write, "buffer byte")
}

func (m *M) access(a *Acc, write bool, what string) {
	g := m.cur
	if a.off || g == nil || m.inModel() {
		return
	}
	if a.wc > 0 && int(a.wg) != g.id && atVC(g.vc, int(a.wg)) < a.wc {
		m.reportRace(a, write, what, true)
	}
	if !write {
		for len(a.r) <= g.id {
			a.r = append(a.r, 0)
		}
		a.r[g.id] = g.vc[g.id]
		a.rpos, a.rfn = m.curIns()
		return
	}
	for q, rc := range a.r {
		if q != g.id && rc > atVC(g.vc, q) {
			m.reportRace(a, write, what, false)
		}
	}
	a.wg, a.wc = int32(g.id), g.vc[g.id]
	a.wpos, a.wfn = m.curIns()
}

func (m *M) reportRace(a *Acc, write bool, what string, withWrite bool) {
	k := "read"
	if write {
		k = "write"
	}
	i, fi := m.curIns()
	cur := m.insPos(i, fi)
	if withWrite {
		m.violate("race", "data race on a %s: %s at %s is concurrent with a write at %s", what, k, cur, m.insPos(a.wpos, a.wfn))
	}
	m.violate("race", "data race on a %s: %s at %s is concurrent with a read at %s", what, k, cur, m.insPos(a.rpos, a.rfn))
}

// ---- locks

type lockState struct {
	w       bool
	owner   int
	pending int // goroutine that announced a write lock, -1 none
	readers int
	vc, rvc []uint32
}

func (m *M) lockOf(p Value) (*lockState, interface{}) {
	c, ok := p.(*Cell)
	if !ok || c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := m.locks[c]
	if l == nil {
		l = &lockState{pending: -1}
		m.locks[c] = l
	}
	return l, c
}

func intrMutexLock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opLock, objs: []interface{}{o}}, enabled: func() bool { return !l.w },
		run: func() Value { l.w = true; l.owner = g.id; g.acquire(l.vc); return nil }})
	return nil, false
}

func intrMutexTryLock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opTryLock, objs: []interface{}{o}},
		run: func() Value {
			if l.w {
				return m.c.False
			}
			l.w = true
			g.acquire(l.vc)
			return m.c.True
		}})
	return nil, false
}

func intrMutexUnlock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opUnlock, objs: []interface{}{o}},
		run: func() Value {
			if !l.w {
				m.violate("fatal", "fatal error: sync: unlock of unlocked mutex")
			}
			l.w = false
			l.vc = g.release()
			return nil
		}})
	return nil, false
}

func intrRWLock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opWAnn, objs: []interface{}{o}}, enabled: func() bool { return !l.w && l.pending < 0 },
		run: func() Value {
			l.pending = g.id
			m.visible(g, &VOp{sig: opSig{kind: opWAcq, objs: []interface{}{o}}, enabled: func() bool { return l.readers == 0 },
				run: func() Value {
					l.pending = -1
					l.w = true
					g.acquire(l.vc)
					g.acquire(l.rvc)
					return nil
				}})
			return nil
		}})
	return nil, false
}

func intrRWUnlock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opWUnlock, objs: []interface{}{o}},
		run: func() Value {
			if !l.w {
				m.violate("fatal", "fatal error: sync: Unlock of unlocked RWMutex")
			}
			l.w = false
			l.vc = g.release()
			return nil
		}})
	return nil, false
}

func intrRLock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opRLock, objs: []interface{}{o}}, enabled: func() bool { return !l.w && l.pending < 0 },
		run: func() Value { l.readers++; g.acquire(l.vc); return nil }})
	return nil, false
}

func intrRUnlock(m *M, g *G, a []Value) (Value, bool) {
	l, o := m.lockOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opRUnlock, objs: []interface{}{o}},
		run: func() Value {
			if l.readers <= 0 {
				m.violate("fatal", "fatal error: sync: RUnlock of unlocked RWMutex")
			}
			l.readers--
			l.rvc = joinVC(l.rvc, g.release())
			return nil
		}})
	return nil, false
}

// ---- wait groups

type wgState struct {
	n  int64
	vc []uint32
}

func (m *M) wgOf(p Value) (*wgState, interface{}) {
	c, ok := p.(*Cell)
	if !ok || c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	w := m.wgs[c]
	if w == nil {
		w = &wgState{}
		m.wgs[c] = w
	}
	return w, c
}

func (m *M) wgAdd(g *G, p Value, n int64) {
	w, o := m.wgOf(p)
	k := opAdd
	if n < 0 {
		k = opDone
	}
	m.visible(g, &VOp{sig: opSig{kind: k, objs: []interface{}{o}},
		run: func() Value {
			w.n += n
			if n < 0 {
				w.vc = joinVC(w.vc, g.release())
			}
			if w.n < 0 {
				m.rtPanicVal("sync: negative WaitGroup counter")
			}
			return nil
		}})
}

// rtPanicVal raises panic(string).
func (m *M) rtPanicVal(s string) {
	panic(sigPanic{Iface{types.Typ[types.String], m.mkStr(s)}})
}

func intrWGAdd(m *M, g *G, a []Value) (Value, bool) {
	n := int64(m.concretize(a[1].(*Term), "WaitGroup delta"))
	m.wgAdd(g, a[0], n)
	return nil, false
}

func intrWGDone(m *M, g *G, a []Value) (Value, bool) {
	m.wgAdd(g, a[0], -1)
	return nil, false
}

func intrWGWait(m *M, g *G, a []Value) (Value, bool) {
	w, o := m.wgOf(a[0])
	m.visible(g, &VOp{sig: opSig{kind: opWait, objs: []interface{}{o}}, enabled: func() bool { return w.n == 0 },
		run: func() Value { g.acquire(w.vc); return nil }})
	return nil, false
}

// ---- atomics

type atomState struct{ vc []uint32 }

// atomicOp runs f as one visible operation on the memory at p.
func (m *M) atomicOp(g *G, p Value, write bool, f func() Value) {
	var key interface{} = p
	if c, ok := p.(*Cell); ok && c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	st := m.atoms[key]
	if st == nil {
		st = &atomState{}
		m.atoms[key] = st
	}
	k := opARead
	if write {
		k = opAWrite
	}
	m.visible(g, &VOp{sig: opSig{kind: k, objs: []interface{}{key}},
		run: func() Value {
			g.acquire(st.vc)
			r := m.race
			m.race = false
			v := f()
			m.race = r
			if write {
				st.vc = joinVC(st.vc, g.release())
			}
			return v
		}})
}

// ---- channels

func (m *M) recvWaiters(ch *Chan) []*G {
	var out []*G
	for _, g := range m.gs {
		if g.done || g.pend == nil {
			continue
		}
		if g.pend.sig.kind == opRecv && g.pend.sig.objs[0] == m.sched.oid(ch) {
			out = append(out, g)
		} else if g.pend.sel != nil {
			for _, c := range g.pend.sel.cases {
				if c.ch == ch && !c.send {
					out = append(out, g)
					break
				}
			}
		}
	}
	return out
}

func (m *M) sendWaiters(ch *Chan) []*G {
	var out []*G
	for _, g := range m.gs {
		if g.done || g.pend == nil {
			continue
		}
		if g.pend.sig.kind == opSend && g.pend.sig.objs[0] == m.sched.oid(ch) {
			out = append(out, g)
		} else if g.pend.sel != nil {
			for _, c := range g.pend.sel.cases {
				if c.ch == ch && c.send {
					out = append(out, g)
					break
				}
			}
		}
	}
	return out
}

// complete delivers the result of the pending operation of another goroutine.
func (m *M) complete(g *G, v Value) {
	op := g.pend
	g.pend = nil
	if op.fr != nil && op.dst >= 0 {
		op.fr.env[op.dst] = v
	}
	if len(g.frames) == 0 {
		g.done = true
	}
}

func (m *M) recvResult(op *VOp, v Value, ok bool) Value {
	if op.commaOk {
		return Tuple{v, m.c.Bool(ok)}
	}
	return v
}

func (m *M) send(g *G, ch *Chan, v Value) {
	if ch == nil {
		m.visible(g, &VOp{sig: opSig{kind: opSend, objs: []interface{}{new(int)}}, enabled: func() bool { return false }})
		return
	}
	m.visible(g, &VOp{sig: opSig{kind: opSend, objs: []interface{}{ch}, cap: ch.cap}, sendV: v,
		enabled: func() bool {
			return ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && len(others(m.recvWaiters(ch), g)) > 0)
		},
		run: func() Value { m.doSend(g, ch, v); return nil }})
}

func others(l []*G, g *G) []*G {
	var out []*G
	for _, x := range l {
		if x != g {
			out = append(out, x)
		}
	}
	return out
}

func (m *M) doSend(g *G, ch *Chan, v Value) {
	if ch.closed {
		m.rtPanicVal("send on closed channel")
	}
	if ch.cap > 0 {
		// the k-th receive happens before the (k+cap)-th send completes
		if len(ch.rvc) > 0 {
			g.acquire(ch.rvc[0])
			ch.rvc = ch.rvc[1:]
		}
		ch.buf = append(ch.buf, chanMsg{v, g.release()})
		return
	}
	ws := others(m.recvWaiters(ch), g)
	r := ws[m.choose(len(ws), "receiver")]
	m.rendezvous(g, r, ch)
	m.deliver(r, ch, v, true)
}

func (m *M) rendezvous(a, b *G, ch *Chan) {
	va, vb := a.release(), b.release()
	a.acquire(vb)
	b.acquire(va)
	m.partner = b.id
}

func (m *M) deliver(r *G, ch *Chan, v Value, ok bool) {
	op := r.pend
	if op.sel == nil {
		m.complete(r, m.recvResult(op, v, ok))
		return
	}
	for i, c := range op.sel.cases {
		if c.ch == ch && !c.send {
			m.complete(r, m.selResult(op, i, v, ok))
			return
		}
	}
}

func (m *M) recv(g *G, ch *Chan, commaOk bool, et types.Type, dst int32) {
	if ch == nil {
		m.visible(g, &VOp{sig: opSig{kind: opRecv, objs: []interface{}{new(int)}}, enabled: func() bool { return false }})
		return
	}
	m.visible(g, &VOp{sig: opSig{kind: opRecv, objs: []interface{}{ch}, cap: ch.cap}, commaOk: commaOk, et: et,
		enabled: func() bool { return len(ch.buf) > 0 || ch.closed || (ch.cap == 0 && m.selSender(ch, g)) },
		run: func() Value {
			v, ok := m.doRecv(g, ch, et)
			if commaOk {
				return Tuple{v, m.c.Bool(ok)}
			}
			return v
		}})
	g.pend.fr, g.pend.dst = g.top(), dst
}

// selSender: some goroutine is ready to send on ch from a select (a plain
// sender performs the rendezvous itself).
func (m *M) selSender(ch *Chan, g *G) bool {
	for _, x := range others(m.sendWaiters(ch), g) {
		if x.pend.sel != nil {
			return true
		}
	}
	return false
}

func (m *M) doRecv(g *G, ch *Chan, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		msg := ch.buf[0]
		ch.buf = ch.buf[1:]
		g.acquire(msg.vc)
		ch.rvc = append(ch.rvc, g.release())
		if len(ch.rvc) > ch.cap {
			ch.rvc = ch.rvc[1:]
		}
		return msg.v, true
	}
	if ch.closed {
		g.acquire(ch.cvc)
		return m.zero(et), false
	}
	// unbuffered
	ss := others(m.sendWaiters(ch), g)
	s := ss[m.choose(len(ss), "sender")]
	var v Value
	if s.pend.sel != nil {
		for i, c := range s.pend.sel.cases {
			if c.ch == ch && c.send {
				v = c.v
				m.rendezvous(g, s, ch)
				m.complete(s, m.selResult(s.pend, i, nil, false))
				break
			}
		}
	} else {
		v = s.pend.sendV
		m.rendezvous(g, s, ch)
		m.complete(s, nil)
	}
	return v, true
}

func (m *M) closeChan(g *G, ch *Chan) {
	if ch == nil {
		m.rtPanicVal("close of nil channel")
	}
	m.visible(g, &VOp{sig: opSig{kind: opClose, objs: []interface{}{ch}, cap: ch.cap},
		run: func() Value {
			if ch.closed {
				m.rtPanicVal("close of closed channel")
			}
			ch.closed = true
			ch.cvc = g.release()
			return nil
		}})
}

func (m *M) caseReady(c selCase, g *G) bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		return c.ch.closed || len(c.ch.buf) < c.ch.cap || (c.ch.cap == 0 && len(others(m.recvWaiters(c.ch), g)) > 0)
	}
	return len(c.ch.buf) > 0 || c.ch.closed || (c.ch.cap == 0 && len(others(m.sendWaiters(c.ch), g)) > 0)
}

func (m *M) selResult(op *VOp, idx int, v Value, ok bool) Value {
	r := Tuple{m.int64c(idx), m.c.Bool(ok)}
	for i, c := range op.sel.cases {
		if c.send {
			continue
		}
		if i == idx {
			r = append(r, v)
		} else {
			r = append(r, m.zero(c.et))
		}
	}
	return r
}

func (m *M) selectStmt(g *G, fr *Frame, in *ssa.Select, ins *Ins) {
	sel := &selOp{block: in.Blocking}
	var objs []interface{}
	for i, st := range in.States {
		c := selCase{ch: fr.get(ins.ops[2*i], m).(*Chan), send: st.Dir == types.SendOnly, et: st.Chan.Type().Underlying().(*types.Chan).Elem()}
		if c.send {
			c.v = fr.get(ins.ops[2*i+1], m)
		}
		if c.ch != nil {
			objs = append(objs, c.ch)
		}
		sel.cases = append(sel.cases, c)
	}
	op := &VOp{sig: opSig{kind: opSelect, objs: objs}, sel: sel}
	ready := func() []int {
		var r []int
		for i, c := range sel.cases {
			if m.caseReady(c, g) {
				r = append(r, i)
			}
		}
		return r
	}
	op.enabled = func() bool { return !sel.block || len(ready()) > 0 }
	op.run = func() Value {
		r := ready()
		if len(r) == 0 {
			return m.selResult(op, -1, nil, false)
		}
		i := r[m.choose(len(r), "select case")]
		c := sel.cases[i]
		if c.send {
			m.doSend(g, c.ch, c.v)
			return m.selResult(op, i, nil, false)
		}
		v, ok := m.doRecv(g, c.ch, c.et)
		return m.selResult(op, i, v, ok)
	}
	m.visible(g, op)
	g.pend.fr, g.pend.dst = fr, ins.dst
}

func sortedInts(s map[int]bool) []int {
	var r []int
	for k := range s {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
