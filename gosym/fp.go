package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

// Queries with floating point arithmetic are decided in stages: a model is
// guessed by trying special values (checked by evaluating the query), then
// the query is given to a solver in which the arithmetic is replaced by
// axioms (unsat is then sound, and a model counts if it satisfies the real
// query), and only then to the solver that bit-blasts the arithmetic.

var specials = []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 60, 0.5, 3, 1000}

var specialInts = []int64{0, 1, 1001, 1e6, 1e9, 1e12, 1 << 59}

func (m *M) assertPC(t *Term) {
	m.s.Assert(t)
	if t.fp {
		m.fpPC = true
	}
}

func (m *M) check(extra *Term) (SatRes, *Model) {
	if !m.fpPC && (extra == nil || !extra.fp) {
		t0 := time.Now()
		r, mod := m.s.Check(extra)
		m.slow(t0, extra, r)
		return r, mod
	}
	if m.model != nil {
		if g := m.guess(extra); g != nil {
			m.w.stats.mu.Lock()
			m.w.stats.guessed++
			m.w.stats.mu.Unlock()
			return Sat, g
		}
	}
	a, l := m.w.abs, m.w.light
	if a == nil {
		a, l = NewSolver(m.c, m.w.ex.cfg.solverMS), NewSolver(m.c, m.w.ex.cfg.solverMS)
		a.abs = true
		m.w.abs, m.w.light = a, l
		m.absN = -1
	}
	if m.absN < 0 {
		a.Reset()
		l.Reset()
		m.absN = 0
	}
	for ; m.absN < len(m.pc); m.absN++ {
		t := m.pc[m.absN]
		a.Assert(t)
		if !t.fp {
			l.Assert(t)
		}
	}
	if extra != nil && !extra.fp {
		if r, _ := l.Check(extra); r == Unsat {
			return r, nil
		}
	}
	r, mod := a.Check(extra)
	if r == Unsat {
		return r, nil
	}
	if r == Sat && m.satisfies(mod, extra) {
		return r, mod
	}
	t0 := time.Now()
	fr, fm := m.s.Check(extra)
	m.slow(t0, extra, fr)
	return fr, fm
}

func (m *M) slow(t0 time.Time, extra *Term, r SatRes) {
	if d := time.Since(t0); d > 300*time.Millisecond && m.w.ex.cfg.verbose {
		fmt.Fprintf(os.Stderr, "slow query %v: %v %s\n%s\n", d, r, m.where(), show(extra, 12))
	}
}

func (m *M) satisfies(mod *Model, extra *Term) bool {
	ev := mod.Evaler()
	if extra != nil && ev.Eval(extra) == 0 {
		return false
	}
	for _, t := range m.pc {
		if ev.Eval(t) == 0 {
			return false
		}
	}
	return true
}

func (m *M) guess(extra *Term) *Model {
	seen := map[*Term]bool{}
	var vars []*Term
	var walk func(t *Term, fp bool)
	walk = func(t *Term, fp bool) {
		if t == nil || !t.sym || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && t.w == 64 {
			vars = append(vars, t)
		}
		for i := 0; i < int(t.n); i++ {
			walk(t.a[i], fp)
		}
	}
	if extra != nil {
		walk(extra, true)
	}
	for _, t := range m.pc {
		if t.fp {
			walk(t, true)
		}
	}
	if len(vars) == 0 || len(vars) > 6 {
		return nil
	}
	base := m.model
	try := func(over map[string]uint64) *Model {
		c := &Model{v: make(map[string]uint64, len(base.v)+2), arr: base.arr}
		for k, v := range base.v {
			c.v[k] = v
		}
		for k, v := range over {
			c.v[k] = v
		}
		if m.satisfies(c, extra) {
			return c
		}
		return nil
	}
	if c := try(nil); c != nil {
		return c
	}
	for _, v := range vars {
		for _, f := range specials {
			if c := try(map[string]uint64{v.name: math.Float64bits(f)}); c != nil {
				return c
			}
		}
		for _, d := range specialInts {
			if c := try(map[string]uint64{v.name: uint64(d)}); c != nil {
				return c
			}
			if c := try(map[string]uint64{v.name: base.v[v.name] + uint64(d)}); c != nil {
				return c
			}
		}
	}
	if len(vars) <= 3 {
		for i, v := range vars {
			for _, u := range vars[i+1:] {
				for _, f := range specialInts {
					for _, g := range specialInts {
						if c := try(map[string]uint64{v.name: uint64(f), u.name: uint64(g)}); c != nil {
							return c
						}
					}
				}
			}
		}
	}
	// increasing sequences, as of clock readings
	sort.Slice(vars, func(i, j int) bool { return vars[i].name < vars[j].name })
	rng := rand.New(rand.NewSource(int64(len(m.pc))))
	for k := 0; k < 1000 && len(vars) > 1; k++ {
		over := map[string]uint64{}
		cur := uint64(0)
		for _, v := range vars {
			cur += uint64(specialInts[rng.Intn(len(specialInts))])
			over[v.name] = cur
		}
		if c := try(over); c != nil {
			return c
		}
	}
	for i, v := range vars {
		for _, u := range vars[i+1:] {
			for _, f := range specials {
				for _, g := range specials {
					if c := try(map[string]uint64{v.name: math.Float64bits(f), u.name: math.Float64bits(g)}); c != nil {
						return c
					}
				}
			}
		}
	}
	return nil
}

func show(t *Term, d int) string {
	if t == nil {
		return "-"
	}
	if t.op == OConst {
		return constName(t)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var as []string
	for i := 0; i < int(t.n); i++ {
		as = append(as, show(t.a[i], d-1))
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d[%d:%d]", t.op, t.hi, t.lo)
	}
	return n + "(" + strings.Join(as, " ") + ")"
}
