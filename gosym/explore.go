package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	Kind   string `json:"k"`
	Choice int    `json:"c"`
	Aux    uint64 `json:"v,omitempty"`
}

type Alt struct {
	choice int
	aux    uint64
	model  *Model
}

type Node struct {
	kind   byte
	choice int
	aux    uint64
	label  string
	alts   []Alt
	// scheduling
	enabled   []int
	backtrack map[int]bool
	doneSet   map[int]bool
	sleep     map[int]opSig
	sigs      map[int]opSig
	prevG     int
	preempts  int
}

type Input struct {
	name  string
	kind  string // int, bytes, buf, choose
	terms []*Term
	arr   *Term
	n     *Term
	max   int
	val   int
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"` // decimal for int/choose, hex for bytes
}

type Violation struct {
	Harness   string     `json:"harness"`
	Kind      string     `json:"kind"`
	Msg       string     `json:"msg"`
	Where     string     `json:"where"`
	Inputs    []InputVal `json:"inputs"`
	Decisions []Dec      `json:"decisions"`
	Trace     []string   `json:"schedule,omitempty"`
	NativeOK  bool       `json:"native_replayable"`
	Multi     bool       `json:"several_goroutines,omitempty"`
	Confirmed string     `json:"confirmed,omitempty"`
	Property  string     `json:"property"`
	Tier      string     `json:"tier"`
}

func (v *Violation) key() string { return v.Harness + "|" + v.Kind + "|" + v.Msg }

type Stats struct {
	mu              sync.Mutex
	paths           int
	infeasible      int
	pruned          int
	cutPaths        int
	unsupPaths      int
	steps           int64
	transitions     int64
	asserts         int64
	assertsTrivial  int64
	assertUnknown   int64
	unknownBranches int64
	guessed         int64 // queries answered by a guessed model
	queries         int
	sat, unsat, unk int
	solverTime      time.Duration
	cuts            map[string]int
	unsups          map[string]int
	reach           map[string]int
	covered         map[string]bool
	incomplete      bool
	samples         []*Sample
	maxPathSteps    int
	schedules       int64
	races           int64
	crashPoints     int64
	done            map[string]int
}

type Sample struct {
	Harness  string     `json:"harness"`
	Inputs   []InputVal `json:"inputs"`
	Decs     []Dec      `json:"-"`
	Observes []string   `json:"observes"`
	nativeOK bool
	terms    []obs
}

type obs struct {
	label string
	vals  []Value
}

func newStats() *Stats {
	return &Stats{cuts: map[string]int{}, unsups: map[string]int{}, reach: map[string]int{}, covered: map[string]bool{}, done: map[string]int{}}
}

func (s *Stats) addCut(msg string) { s.mu.Lock(); s.cuts[msg]++; s.mu.Unlock() }

type Task struct {
	h      string
	prefix []Dec
	model  *Model
}

type Config struct {
	tier       string
	workers    int
	solverMS   int
	maxSteps   int
	maxConc    int
	deadline   time.Time
	perHarness time.Duration
	verbose    bool
	maxSamples int
}

type Explorer struct {
	ld    *Loaded
	cfg   Config
	mu    sync.Mutex
	cond  *sync.Cond
	queue []*Task
	taken uint64
	idle  int32
	busy  int
	stats *Stats
	viol  map[string]*Violation
	stop  atomic.Bool
	nviol map[string]int
	hdone map[string]time.Duration
	hpath map[string]int
	// isKnown tells listed findings from new violations
	isKnown func(*Violation) bool
	newAt   time.Time // when the first unlisted violation was found
}

type Worker struct {
	ex         *Explorer
	ld         *Loaded
	c          *Ctx
	s          *Solver
	abs        *Solver // floating point arithmetic abstracted
	light      *Solver // only the path conditions without floating point arithmetic
	fns        map[*ssa.Function]*FnInfo
	stdGlobals map[*ssa.Global]*Cell
	stdInit    map[*ssa.Package]bool
	badInit    map[*ssa.Package]bool
	methods    map[methKey]*ssa.Function
	impls      map[implKey]bool
	zeroM      *M
	nilSlice   *Slice
	maxAlloc   int
	stats      *Stats
	covered    map[string]bool
	stack      []*Node
	hostCache  map[string]interface{}
}

func (ex *Explorer) newWorker() *Worker {
	w := &Worker{ex: ex, ld: ex.ld, stats: ex.stats, covered: map[string]bool{}}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.s != nil {
		w.harvestSolver()
		w.s.Close()
		if w.abs != nil {
			w.abs.Close()
			w.light.Close()
		}
	}
	w.c = NewCtx()
	w.s = NewSolver(w.c, w.ex.cfg.solverMS)
	w.abs, w.light = nil, nil
	w.fns = map[*ssa.Function]*FnInfo{}
	w.stdGlobals = map[*ssa.Global]*Cell{}
	w.stdInit = map[*ssa.Package]bool{}
	w.badInit = map[*ssa.Package]bool{}
	w.methods = map[methKey]*ssa.Function{}
	w.impls = map[implKey]bool{}
	w.hostCache = map[string]interface{}{}
	z := w.c.BV(64, 0)
	w.nilSlice = &Slice{nil, z, z, z}
	w.maxAlloc = 1 << 18
	w.zeroM = &M{w: w, c: w.c, maxSteps: 1 << 40, initing: true, globals: map[*ssa.Global]*Cell{}, known: map[*Term]bool{}, locks: map[*Cell]*lockState{}, wgs: map[*Cell]*wgState{}, atoms: map[interface{}]*atomState{}}
	w.zeroM.sched = newSched()
}

func (w *Worker) harvestSolver() {
	st := w.stats
	st.mu.Lock()
	defer st.mu.Unlock()
	for _, s := range []*Solver{w.s, w.abs, w.light} {
		if s == nil {
			continue
		}
		st.queries += s.Queries
		st.sat += s.SatN
		st.unsat += s.UnsatN
		if s == w.s {
			st.unk += s.UnkN
		}
		st.solverTime += s.Time
		s.Queries, s.SatN, s.UnsatN, s.UnkN, s.Time = 0, 0, 0, 0, 0
	}
	for k := range w.covered {
		st.covered[k] = true
	}
}

// M is one path.
type M struct {
	w           *Worker
	c           *Ctx
	s           *Solver
	h           string
	pos         int
	nprefix     int
	startModel  *Model
	model       *Model
	fpPC        bool
	absN        int // path conditions given to the abstract solver, -1: none yet in this path
	ev          *Evaler
	known       map[*Term]bool
	pc          []*Term
	gs          []*G
	cur         *G
	globals     map[*ssa.Global]*Cell
	steps       int
	maxSteps    int
	maxConc     int
	transitions int
	race        bool
	raceOn      bool
	multi       bool
	mapMode     int
	initing     bool
	concrete    bool
	concIn      map[string][]string
	sched       *Sched
	schedTrace  []string
	partner     int
	mainDone    bool
	leaked      []string
	locks       map[*Cell]*lockState
	wgs         map[*Cell]*wgState
	atoms       map[interface{}]*atomState
	inputs      []*Input
	observes    []obs
	nameCount   map[string]int
	nextArr     int
	allocLimit  bool
	hasConc     bool // result depends on schedule/crash/fault/clock: not natively replayable
	faults      int
	nfaults     int
	clockN      int
	lastMono    *Term
	clock       *Term // what the monotonic clock shows, when the harness sets it
	pid         *Term
	mapped      []*Arr
	asserts     int
	reached     map[string]bool
	expectEnd   bool
	crashed     bool
	logStores   bool
}

func (w *Worker) newM(h string) *M {
	w.maxAlloc = 1 << 18
	m := &M{w: w, c: w.c, s: w.s, h: h, absN: -1, globals: map[*ssa.Global]*Cell{}, known: map[*Term]bool{},
		locks: map[*Cell]*lockState{}, wgs: map[*Cell]*wgState{}, atoms: map[interface{}]*atomState{},
		nameCount: map[string]int{}, maxSteps: w.ex.cfg.maxSteps, maxConc: w.ex.cfg.maxConc, sched: newSched(), raceOn: true, reached: map[string]bool{}}
	w.c.upper = map[*Term]uint64{}
	return m
}

func (m *M) replayNode(kind byte) *Node {
	if m.pos >= len(m.w.stack) {
		return nil
	}
	if m.pos >= m.nprefix {
		return nil
	}
	n := m.w.stack[m.pos]
	if n.kind != kind {
		panic(fmt.Sprintf("replay divergence in %s: want %c have %c at %d", m.h, kind, n.kind, m.pos))
	}
	m.pos++
	if m.pos == m.nprefix && m.startModel != nil {
		m.setModel(m.startModel)
	}
	return n
}

func (m *M) pushNode(n *Node) {
	m.w.stack = append(m.w.stack, n)
	m.pos++
	m.nprefix++
}

func (m *M) decisions() []Dec {
	var d []Dec
	for _, n := range m.w.stack[:m.pos] {
		if n.kind == 'c' || n.kind == 's' {
			d = append(d, Dec{string(n.kind), n.choice, 0})
		}
	}
	return d
}

func (m *M) violate(kind, f string, a ...interface{}) {
	if m.initing {
		unsup("violation during init: "+f, a...)
	}
	m.needModelQuiet()
	m.report(kind, fmt.Sprintf(f, a...), m.model)
	panic(sigEnd{"violation"})
}

func (m *M) needModelQuiet() {
	if m.model == nil {
		r, mod := m.check(nil)
		if r == Unsat {
			panic(sigEnd{"infeasible"})
		}
		if r == Unknown {
			m.w.stats.unknownBranches++
			panic(sigUnsup{"solver gave no verdict on a violation candidate"})
		}
		m.setModel(mod)
	}
}

func (m *M) inputVals(mod *Model) []InputVal {
	var out []InputVal
	ev := mod.Evaler()
	for _, in := range m.inputs {
		switch in.kind {
		case "choose":
			out = append(out, InputVal{in.name, "choose", fmt.Sprint(in.val)})
		case "int":
			out = append(out, InputVal{in.name, "int", fmt.Sprint(ev.Eval(in.terms[0]))})
		case "bytes":
			b := make([]byte, len(in.terms))
			for i, t := range in.terms {
				b[i] = byte(ev.Eval(t))
			}
			out = append(out, InputVal{in.name, "bytes", hex.EncodeToString(b)})
		case "buf":
			n := int(ev.Eval(in.n))
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(ev.selectAt(in.arr, uint64(i)))
			}
			out = append(out, InputVal{in.name, "bytes", hex.EncodeToString(b)})
		}
	}
	return out
}

func (m *M) report(kind, msg string, mod *Model) {
	v := &Violation{Harness: m.h, Kind: kind, Msg: msg, Where: m.where(), Decisions: m.decisions(), Trace: m.schedTrace, NativeOK: !m.hasConc, Multi: len(m.gs) > 1, Tier: m.w.ex.cfg.tier}
	if mod != nil {
		v.Inputs = m.inputVals(mod)
	}
	ex := m.w.ex
	ex.mu.Lock()
	if _, ok := ex.viol[v.key()]; !ok {
		ex.viol[v.key()] = v
		ex.nviol[m.h]++
		if ex.newAt.IsZero() && ex.isKnown != nil && !ex.isKnown(v) {
			ex.newAt = time.Now()
		}
	}
	ex.mu.Unlock()
}

// runPath executes one path following the current stack.
func (w *Worker) runPath(h string, start *Model) (m *M, why string) {
	w.s.Reset()
	m = w.newM(h)
	m.nprefix = len(w.stack)
	if len(w.stack) == 0 {
		m.setModel(NewModel())
	}
	m.startModel = start
	why = m.run()
	return
}

func (m *M) run() (why string) {
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case sigEnd:
				why = s.why
			case sigUnsup:
				m.w.stats.mu.Lock()
				m.w.stats.unsups[s.msg+" @ "+m.where()]++
				m.w.stats.mu.Unlock()
				why = "unsupported"
			case sigPrune:
				why = "pruned"
			default:
				msg := fmt.Sprint(r)
				if m.w.ex.cfg.verbose {
					fmt.Fprintf(os.Stderr, "executor error in %s: %v\nat %s\n%s\n", m.h, r, m.where(), debug.Stack())
				}
				if len(msg) > 300 {
					msg = msg[:300]
				}
				m.w.stats.mu.Lock()
				m.w.stats.unsups["executor error: "+msg+" @ "+m.where()]++
				m.w.stats.mu.Unlock()
				why = "unsupported"
			}
		}
	}()
	m.initing2(func() {
		m.runInit(m.w.ld.prog.ImportedPackage(symPkg).Func("init"))
		m.runInit(m.w.ld.prog.ImportedPackage(modelPkg).Func("init"))
		m.runInit(m.w.ld.modelInit)
		fn := m.w.ld.harnesses[m.h]
		m.runInit(fn.Pkg.Func("init"))
	})
	m.gs = nil
	g := m.newG("main")
	m.sched.last = 0
	m.pushFrame(g, m.w.fnInfo(m.w.ld.harnesses[m.h]), nil, nil, -1)
	m.runAll()
	if m.model == nil && !m.hasConc && !m.concrete {
		m.w.ex.mu.Lock()
		np := m.w.ex.hpath[m.h]
		m.w.ex.mu.Unlock()
		if sampleWanted(np + 1) {
			m.needModelQuiet()
		}
	}
	return "done"
}

// initing2 runs package initialisers: they may not fork on symbolic values
// but the cells they create belong to this path.
func (m *M) initing2(f func()) { f() }

func (m *M) runInit(fn *ssa.Function) {
	if fn == nil {
		return
	}
	m.gs = nil
	g := m.newG("init")
	m.sched.last = 0
	m.pushFrame(g, m.w.fnInfo(fn), nil, nil, -1)
	m.runAll()
	m.mainDone = false
}

func (ex *Explorer) Run(hs []string) {
	ex.cond = sync.NewCond(&ex.mu)
	for _, h := range hs {
		ex.queue = append(ex.queue, &Task{h: h})
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := ex.newWorker()
			for {
				t := ex.take()
				if t == nil {
					break
				}
				w.doTask(t)
				ex.release()
			}
			w.harvestSolver()
			w.s.Close()
			if w.abs != nil {
				w.abs.Close()
				w.light.Close()
			}
		}()
	}
	wg.Wait()
}

func (ex *Explorer) take() *Task {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt32(&ex.idle, 1)
	for len(ex.queue) == 0 && ex.busy > 0 {
		ex.cond.Wait()
	}
	atomic.AddInt32(&ex.idle, -1)
	if len(ex.queue) == 0 {
		ex.cond.Broadcast()
		return nil
	}
	// Every second task is taken from anywhere, so that no part of a harness
	// waits for the end of another one.
	last := len(ex.queue) - 1
	if ex.taken++; ex.taken%2 == 0 {
		i := int(ex.taken*2654435761>>8) % len(ex.queue)
		ex.queue[i], ex.queue[last] = ex.queue[last], ex.queue[i]
	}
	t := ex.queue[last]
	ex.queue = ex.queue[:last]
	ex.busy++
	return t
}

func (ex *Explorer) release() {
	ex.mu.Lock()
	ex.busy--
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (w *Worker) doTask(t *Task) {
	ex := w.ex
	w.stack = nil
	for _, d := range t.prefix {
		w.stack = append(w.stack, &Node{kind: d.Kind[0], choice: d.Choice, aux: d.Aux})
	}
	base := len(w.stack)
	model := t.model
	began := time.Now()
	for {
		ex.mu.Lock()
		nv := ex.nviol[t.h]
		late := !ex.newAt.IsZero() && time.Since(ex.newAt) > 20*time.Second
		ex.mu.Unlock()
		if nv >= 6 {
			return
		}
		if late {
			// a violation was found: no need to finish the exploration
			w.stats.mu.Lock()
			w.stats.incomplete = true
			w.stats.mu.Unlock()
			return
		}
		if time.Now().After(ex.cfg.deadline) {
			w.stats.mu.Lock()
			w.stats.incomplete = true
			w.stats.mu.Unlock()
			return
		}
		t0 := time.Now()
		m, why := w.runPath(t.h, model)
		w.finish(m, why, time.Since(t0))
		if w.c.next > 6_000_000 {
			// bound the memory used by hash-consing
			w.reset()
		}
		model = nil
		if atomic.LoadInt32(&ex.idle) > 0 {
			w.donate(t.h, base)
		}
		if time.Since(began) > 5*time.Second {
			began = time.Now()
			w.scatter(t.h, base)
		}
		// backtrack
		found := false
		for len(w.stack) > base {
			n := w.stack[len(w.stack)-1]
			if n.kind == 's' {
				n.doneSet[n.choice] = true
				next := -1
				for _, q := range sortedInts(n.backtrack) {
					if n.doneSet[q] {
						continue
					}
					if _, sl := n.sleep[q]; sl {
						continue
					}
					if m.sched.bound >= 0 && q != n.prevG {
						pre := n.preempts
						for _, e := range n.enabled {
							if e == n.prevG {
								pre++
							}
						}
						if pre > m.sched.bound {
							continue
						}
					}
					next = q
					break
				}
				if next >= 0 {
					n.choice = next
					found = true
					break
				}
			} else if k := len(n.alts); k > 0 {
				a := n.alts[k-1]
				n.alts = n.alts[:k-1]
				n.choice, n.aux = a.choice, a.aux
				model = a.model
				found = true
				break
			}
			w.stack = w.stack[:len(w.stack)-1]
		}
		if !found {
			return
		}
	}
}

func (w *Worker) donate(h string, base int) {
	ex := w.ex
	for i := base; i < len(w.stack); i++ {
		n := w.stack[i]
		if n.kind == 's' {
			return
		}
		if len(n.alts) == 0 {
			continue
		}
		for len(n.alts) > 0 {
			a := n.alts[0]
			n.alts = n.alts[1:]
			t := &Task{h: h, model: a.model}
			for _, p := range w.stack[:i] {
				t.prefix = append(t.prefix, Dec{string(p.kind), p.choice, p.aux})
			}
			t.prefix = append(t.prefix, Dec{string(n.kind), a.choice, a.aux})
			ex.mu.Lock()
			ex.queue = append(ex.queue, t)
			ex.cond.Signal()
			q := len(ex.queue)
			ex.mu.Unlock()
			if q >= int(atomic.LoadInt32(&ex.idle)) {
				return
			}
		}
		return
	}
}

// scatter turns the open alternatives of a long-running task into tasks.
func (w *Worker) scatter(h string, base int) {
	ex := w.ex
	for i := base; i < len(w.stack); i++ {
		n := w.stack[i]
		if n.kind == 's' {
			return
		}
		for _, a := range n.alts {
			t := &Task{h: h, model: a.model}
			for _, p := range w.stack[:i] {
				t.prefix = append(t.prefix, Dec{string(p.kind), p.choice, p.aux})
			}
			t.prefix = append(t.prefix, Dec{string(n.kind), a.choice, a.aux})
			ex.mu.Lock()
			ex.queue = append(ex.queue, t)
			ex.cond.Signal()
			ex.mu.Unlock()
		}
		n.alts = nil
	}
}

func (w *Worker) finish(m *M, why string, d time.Duration) {
	st := w.stats
	st.mu.Lock()
	defer st.mu.Unlock()
	st.steps += int64(m.steps)
	st.transitions += int64(m.transitions)
	if m.steps > st.maxPathSteps {
		st.maxPathSteps = m.steps
	}
	for k := range m.reached {
		st.reach[m.h+":"+k]++
	}
	switch why {
	case "done", "violation":
		st.paths++
		st.done[m.h]++
		if m.sched.was {
			st.schedules++
		}
	case "infeasible":
		st.infeasible++
	case "pruned":
		st.pruned++
	case "cut", "assume":
		if why == "cut" {
			st.cutPaths++
		} else {
			st.infeasible++
		}
	case "unsupported":
		st.unsupPaths++
	}
	w.ex.mu.Lock()
	w.ex.hdone[m.h] += d
	w.ex.hpath[m.h]++
	np := w.ex.hpath[m.h]
	w.ex.mu.Unlock()
	if why == "done" && !m.hasConc && m.model != nil && sampleWanted(np) && len(st.samples) < w.ex.cfg.maxSamples {
		s := &Sample{Harness: m.h, Inputs: m.inputVals(m.model), Decs: m.decisions(), nativeOK: !m.hasConc}
		ev := m.model.Evaler()
		for _, o := range m.observes {
			s.Observes = append(s.Observes, o.label+"="+m.obsString(o.vals, ev))
		}
		st.samples = append(st.samples, s)
	}
	if w.ex.cfg.verbose {
		fmt.Fprintf(os.Stderr, "path %s %s steps=%d nodes=%d pc=%d %.2fs\n", m.h, why, m.steps, len(w.stack), len(m.pc), d.Seconds())
	}
}

// sampleWanted spreads the sampled paths over the exploration.
func sampleWanted(n int) bool {
	switch n {
	case 1, 2, 4, 7, 12, 20, 33, 60, 110, 200, 400, 1000, 3000, 8000, 20000:
		return true
	}
	return false
}

func (m *M) obsString(vals []Value, ev *Evaler) string {
	var parts []string
	for _, v := range vals {
		parts = append(parts, m.obsVal(v, ev))
	}
	return strings.Join(parts, ",")
}

func (m *M) obsVal(v Value, ev *Evaler) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if t, ok := x.v.(*Term); ok {
			w, signed, fl, _ := numInfo(x.t)
			u := ev.Eval(t)
			switch {
			case w == 0:
				return fmt.Sprint(u != 0)
			case fl:
				return fmt.Sprintf("%x", u)
			case signed:
				return fmt.Sprint(sx(u, t.w))
			}
			return fmt.Sprint(u)
		}
		return m.obsVal(x.v, ev)
	case *Str:
		b := make([]byte, x.Len())
		for i := range b {
			b[i] = byte(ev.Eval(m.strAt(x, i)))
		}
		return fmt.Sprintf("%q", string(b))
	case *Slice:
		if x.arr == nil {
			return "x"
		}
		if x.arr.isB {
			n := int(ev.Eval(x.len))
			off := int(ev.Eval(x.off))
			b := make([]byte, n)
			for i := range b {
				if x.arr.smt != nil {
					b[i] = byte(ev.selectAt(x.arr.smt, uint64(off+i)))
				} else {
					b[i] = byte(ev.Eval(x.arr.b[off+i]))
				}
			}
			return "x" + hex.EncodeToString(b)
		}
	}
	return fmt.Sprintf("%T", v)
}

func (ex *Explorer) violations() []*Violation {
	var out []*Violation
	for _, v := range ex.viol {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// Concrete re-executes one path with fixed inputs and decisions and returns
// the violation it ends in, if any.
func (ex *Explorer) Concrete(v *Violation) *Violation {
	ex2 := &Explorer{ld: ex.ld, cfg: ex.cfg, stats: newStats(), viol: map[string]*Violation{}, nviol: map[string]int{}, hdone: map[string]time.Duration{}, hpath: map[string]int{}}
	w := ex2.newWorker()
	defer func() {
		w.s.Close()
		if w.abs != nil {
			w.abs.Close()
			w.light.Close()
		}
	}()
	w.s.Reset()
	for _, d := range v.Decisions {
		n := &Node{kind: d.Kind[0], choice: d.Choice}
		if n.kind == 's' {
			n.doneSet, n.backtrack = map[int]bool{}, map[int]bool{}
		}
		w.stack = append(w.stack, n)
	}
	m := w.newM(v.Harness)
	m.nprefix = len(w.stack)
	m.concIn = map[string][]string{}
	for _, in := range v.Inputs {
		m.concIn[in.Name] = append(m.concIn[in.Name], in.Val)
	}
	m.concrete = true
	m.setModel(NewModel())
	why := m.run()
	if ex.cfg.verbose {
		fmt.Fprintln(os.Stderr, "concrete replay ended:", why)
		for k := range ex2.stats.unsups {
			fmt.Fprintln(os.Stderr, "  unsupported:", k)
		}
	}
	for _, r := range ex2.viol {
		return r
	}
	return nil
}
