package hspeed

import (
	"math"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// counterOp says whether a counter with the given value accepts an operation
// (0: set, 1: increment) and what it then holds.
func counterOp(op int, cur, arg int64) (bool, int64) {
	if op == 0 {
		return arg >= cur, arg
	}
	return sym.And(arg >= 0, sym.Or(arg <= 0, cur <= math.MaxInt64-arg)), cur + arg
}

// published gives the raw values of metric 0 in the file.
func (s *scene) published() []uint64 {
	b := readFile(s.w.client)
	f := parse(b, s.w)
	f.checkValues(s.w, f.checkMetrics(s.w), f.checkIndoms(s.w))
	var out []uint64
	for _, o := range f.valAt[s.w.metrics[0]] {
		out = append(out, u64(b, o))
	}
	return out
}

// C15_counter: a counter with an arbitrary value, mapped or not, and two
// (thorough: three) operations out of Set, Inc, MustInc and Up with arbitrary
// arguments: each is accepted exactly when it does not make the value smaller
// or overflow, and has exactly its arithmetic effect on the reported and the
// published value.
func C15_counter() {
	s := newScene("cl")
	cur := sym.Int64("start")
	s.add(spec{kind: kCounter, name: "m", bits: uint64(cur)})
	m := s.objs[0].(*speed.PCPCounter)
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := string(rune('0' + i))
		arg := sym.Int64("arg" + id)
		var err error
		kind := 1
		switch sym.Choose("op"+id, 4) {
		case 0:
			kind = 0
			err = m.Set(arg)
		case 1:
			err = m.Inc(arg)
		case 2:
			err = must(func() { m.MustInc(arg) })
		case 3:
			arg = 1
			err = must(func() { m.Up() })
		}
		ok, next := counterOp(kind, cur, arg)
		halt((err == nil) == ok, "a counter accepts exactly the operations that do not make it smaller and do not overflow")
		got := m.Val()
		req(got >= cur, "a counter never goes backwards")
		if ok {
			cur = next
		}
		req(got == cur, "an operation on a counter has exactly its arithmetic effect")
		if mapped {
			s.w.metrics[0].vals[0].val = cur
			req(s.published()[0] == uint64(cur), "the published value of a counter is the reported one")
		}
	}
	if !mapped {
		s.w.metrics[0].vals[0].val = cur
		s.start()
		req(s.published()[0] == uint64(cur), "the published value of a counter is the reported one")
	}
}

// C15_vector: the same for a counter vector of two instances with arbitrary
// values, with the operations on one instance and on all; if one on all
// panics, each instance has its old or its new value, and at least one
// instance refused.
func C15_vector() {
	s := newScene("cl")
	v := []int64{sym.Int64("start0"), sym.Int64("start1")}
	names := names3[:2]
	m, err := speed.NewPCPCounterVector(map[string]int64{names[0]: v[0], names[1]: v[1]}, "m")
	halt(err == nil, "a metric can be created")
	halt(s.c.Register(m) == nil, "a metric can be registered")
	d := s.indom(&xIndom{name: "m.indom", insts: names})
	x := &xMetric{name: "m", t: speed.Int64Type, sem: speed.CounterSemantics, unit: speed.OneUnit.PMAPI(), indom: d, vals: []xVal{{names[0], v[0]}, {names[1], v[1]}}}
	s.w.metrics = append(s.w.metrics, x)
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	n := sym.Bound(2, 2)
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		arg := sym.Int64("arg" + id)
		op := sym.Choose("op"+id, 8)
		if i > 0 && !sym.Thorough() {
			// the second operation is not one on all instances
			sym.Assume(op < 5)
		}
		k := 0
		if op < 5 {
			k = sym.Choose("inst"+id, 2)
		}
		kind := 1
		switch op {
		case 0:
			kind = 0
			err = m.Set(arg, names[k])
		case 1:
			err = m.Inc(arg, names[k])
		case 2:
			kind = 0
			err = must(func() { m.MustSet(arg, names[k]) })
		case 3:
			err = must(func() { m.MustInc(arg, names[k]) })
		case 4:
			arg = 1
			err = must(func() { m.Up(names[k]) })
		case 5:
			kind = 0
			err = must(func() { m.SetAll(arg) })
		case 6:
			err = must(func() { m.IncAll(arg) })
		case 7:
			arg = 1
			err = must(func() { m.UpAll() })
		}
		var got []int64
		for j := range names {
			g, gerr := m.Val(names[j])
			halt(gerr == nil, "the value of an instance can be read")
			req(g >= v[j], "an instance of a counter vector never goes backwards")
			got = append(got, g)
		}
		if op < 5 {
			ok, next := counterOp(kind, v[k], arg)
			halt((err == nil) == ok, "a counter accepts exactly the operations that do not make it smaller and do not overflow")
			if ok {
				v[k] = next
			}
		} else {
			ok0, n0 := counterOp(kind, v[0], arg)
			ok1, n1 := counterOp(kind, v[1], arg)
			halt((err == nil) == sym.And(ok0, ok1), "an operation on all instances fails exactly when some instance refuses it")
			if err == nil {
				v[0], v[1] = n0, n1
			} else {
				req(sym.Or(got[0] == v[0], sym.And(ok0, got[0] == n0)), "an operation on an instance has exactly its arithmetic effect")
				req(sym.Or(got[1] == v[1], sym.And(ok1, got[1] == n1)), "an operation on an instance has exactly its arithmetic effect")
				v[0], v[1] = got[0], got[1]
			}
		}
		req(sym.And(got[0] == v[0], got[1] == v[1]), "an operation on an instance has exactly its arithmetic effect")
		if mapped {
			x.vals[0].val, x.vals[1].val = v[0], v[1]
			p := s.published()
			req(sym.And(p[0] == uint64(v[0]), p[1] == uint64(v[1])), "the published values are the reported ones")
		}
	}
}

// C15_concurrent: a counter or an instance of a counter vector with an
// arbitrary value, mapped or not, and two goroutines under every schedule: one
// operation each with arbitrary arguments, or one operation and two readings
// by the other goroutine. What is accepted and the value at the end are those
// of one of the two orders; readings never go backwards.
func C15_concurrent() {
	s := newScene("cl")
	start := sym.Int64("start")
	vector := sym.Choose("vector", 2) == 1
	k := kCounter
	if vector {
		k = kCounterVec
	}
	s.add(spec{kind: k, name: "m", insts: names3[:1], bits: uint64(start)})
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	inst := names3[0]
	get := func() int64 {
		if c, ok := s.objs[0].(*speed.PCPCounter); ok {
			return c.Val()
		}
		v, err := s.objs[0].(*speed.PCPCounterVector).Val(inst)
		halt(err == nil, "the value of an instance can be read")
		return v
	}
	var kinds [2]int
	var args [2]int64
	var errs [2]error
	operation := func(i int) func() {
		id := string(rune('0' + i))
		arg := sym.Int64("arg" + id)
		args[i] = arg
		n := 4
		if vector {
			n = 8
		}
		op := sym.Choose("op"+id, n)
		if op == 0 || op == 4 || op == 6 {
			kinds[i] = 0
		} else {
			kinds[i] = 1
		}
		if op == 3 || op == 7 {
			args[i] = 1
		}
		return func() {
			if c, ok := s.objs[0].(*speed.PCPCounter); ok {
				switch op {
				case 0:
					errs[i] = c.Set(arg)
				case 1:
					errs[i] = c.Inc(arg)
				case 2:
					errs[i] = must(func() { c.MustInc(arg) })
				case 3:
					errs[i] = must(func() { c.Up() })
				}
				return
			}
			m := s.objs[0].(*speed.PCPCounterVector)
			switch op {
			case 0:
				errs[i] = m.Set(arg, inst)
			case 1:
				errs[i] = m.Inc(arg, inst)
			case 2:
				errs[i] = must(func() { m.MustInc(arg, inst) })
			case 3:
				errs[i] = must(func() { m.Up(inst) })
			case 4:
				errs[i] = must(func() { m.MustSet(arg, inst) })
			case 5:
				errs[i] = must(func() { m.IncAll(arg) })
			case 6:
				errs[i] = must(func() { m.SetAll(arg) })
			case 7:
				errs[i] = must(func() { m.UpAll() })
			}
		}
	}
	read := sym.Choose("read", 2) == 1
	var r1, r2 int64
	a := operation(0)
	b := func() { r1 = get(); r2 = get() }
	if !read {
		b = operation(1)
	}
	sym.Schedule(-1)
	sym.Par(a, b)
	sym.Sequential()
	final := get()
	// step is the outcome of an operation on a counter with the value cur.
	step := func(i int, cur int64) (bool, int64) {
		ok, next := counterOp(kinds[i], cur, args[i])
		return (errs[i] == nil) == ok, int64(sym.Ite(ok, uint64(next), uint64(cur)))
	}
	if read {
		ok, v := step(0, start)
		req(ok, "a counter accepts exactly the operations that do not make it smaller and do not overflow")
		req(final == v, "an operation on a counter has exactly its arithmetic effect")
		req(sym.And(sym.Or(r1 == start, r1 == v), sym.Or(r2 == r1, r2 == v)), "a reading gives the value before or after an operation")
		req(sym.And(r1 >= start, sym.And(r2 >= r1, final >= r2)), "readings of a counter never go backwards")
	} else {
		ok1, v := step(0, start)
		ok2, ab := step(1, v)
		ok3, w := step(1, start)
		ok4, ba := step(0, w)
		req(final >= start, "a counter never goes backwards")
		req(sym.Or(sym.And(ok1, sym.And(ok2, final == ab)), sym.And(ok3, sym.And(ok4, final == ba))), "concurrent operations on a counter have the outcome of one of their orders")
	}
	s.w.metrics[0].vals[0].val = final
	if !mapped {
		s.start()
	}
	req(s.published()[0] == uint64(final), "the published value of a counter is the reported one")
}
