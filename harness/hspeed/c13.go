package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// linear runs the registrations concurrently under every schedule, requires
// that what each of them returned is what it would have returned in some
// sequential order, and records that order.  It then checks counts, lookups
// and the published file.
func (s *scene) linear(as ...attempt) {
	ms, errs := make([]speed.Metric, len(as)), make([]error, len(as))
	var fs []func()
	for i := range as {
		i := i
		fs = append(fs, func() { ms[i], errs[i] = as[i].run() })
	}
	sym.Schedule(-1)
	sym.Par(fs...)
	sym.Sequential()
	s.explain(as, ms, errs)
	s.counts()
	check(s.start(), s.w)
}

// explain finds the order.
func (s *scene) explain(as []attempt, ms []speed.Metric, errs []error) {
	w := *s.w
	objs := s.objs
	var order []int
	used := make([]bool, len(as))
	var rec func() bool
	rec = func() bool {
		if len(order) == len(as) {
			// which of several equal domains was first shows in the descriptions
			return s.w.strings() == s.c.Registry().StringCount()
		}
		for i := range as {
			if used[i] || (errs[i] == nil) != s.w.allowed(as[i]) {
				continue
			}
			sw, so := *s.w, s.objs
			used[i] = true
			order = append(order, i)
			if errs[i] == nil {
				a := as[i]
				if a.m != nil {
					m := *a.m
					a.m = &m
				}
				s.enter(a, ms[i])
			}
			if rec() {
				return true
			}
			used[i] = false
			order = order[:len(order)-1]
			*s.w, s.objs = sw, so
		}
		return false
	}
	found := rec()
	if !found {
		*s.w, s.objs = w, objs
	}
	halt(found, "the outcome of concurrent registrations is that of some sequential order")
}

// clash is one of the registrations that may be in each other's way.
func (s *scene) clash(k int, desc string) attempt {
	ab, c := []string{"a", "bb"}, []string{"c"}
	d := []string{desc}
	switch k {
	case 0:
		return s.prepare(wText, "m", "", nil, d)
	case 1:
		return s.prepare(wScalarString, "m", "", nil, nil)
	case 2:
		return s.prepare(wInstance, "m", "d", ab, d)
	case 3:
		return s.prepare(wInstance, "n", "d", c, d)
	case 4:
		return s.prepare(wInstanceString, "m", "d", ab, nil)
	case 5:
		return s.prepare(wInstanceString, "n", "d", ab, nil)
	case 6:
		return s.prepare(wDomain, "", "d", ab, d)
	case 7:
		return s.prepare(wDomainByName, "", "d", c, nil)
	case 8:
		return s.prepare(wVector, "m", "", c, d)
	}
	return s.prepare(wText, "d.m", "", nil, d)
}

// C13_pairs: every pair out of ten registrations that compete for the same
// metric and domain names, on an empty registry or on one that has the domain,
// done by two goroutines under every schedule.
func C13_pairs() {
	s := newScene("cl")
	if sym.Choose("pre", 2) == 1 {
		s.try(s.prepare(wDomain, "", "d", []string{"a", "bb"}, nil))
	}
	i := sym.Choose("first", 10)
	j := sym.Choose("second", 10)
	sym.Assume(i <= j)
	s.linear(s.clash(i, "one"), s.clash(j, "two"))
}

// C13_three: three goroutines doing one registration each, out of five.
func C13_three() {
	s := newScene("cl")
	ks := []int{0, 2, 4, 6, 9}
	n := sym.Bound(3, 5)
	i, j, k := sym.Choose("first", n), sym.Choose("second", n), sym.Choose("third", n)
	sym.Assume(i <= j && j <= k)
	s.linear(s.clash(ks[i], "one"), s.clash(ks[j], "two"), s.clash(ks[k], "three"))
}

// C13_readers: a registration against the getters, under every schedule: each
// getter answers as before or as after it, without a data race.
func C13_readers() {
	s := newScene("cl")
	s.try(s.prepare(wText, "x", "", nil, nil))
	a := s.clash(sym.Choose("what", 10), "one")
	r := s.c.Registry()
	g := sym.Choose("getter", 8)
	get := func() int {
		switch g {
		case 0:
			return r.MetricCount()
		case 1:
			return r.ValuesCount()
		case 2:
			return r.InstanceDomainCount()
		case 3:
			return r.InstanceCount()
		case 4:
			return r.StringCount()
		case 5:
			return b2i(r.HasMetric("m"))
		case 6:
			return b2i(r.HasInstanceDomain("d"))
		}
		return s.c.Length()
	}
	before := get()
	during := 0
	var m speed.Metric
	var err error
	sym.Schedule(-1)
	sym.Par(func() { m, err = a.run() }, func() { during = get() })
	sym.Sequential()
	s.explain([]attempt{a}, []speed.Metric{m}, []error{err})
	s.counts()
	if g != 7 {
		req(during == before || during == get(), "a getter answers as before or as after a concurrent registration")
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C13_start: a registration against Start, with one metric registered before,
// under every schedule: either it is refused, or it is in the file.
func C13_start() {
	s := newScene("cl")
	if sym.Choose("pre", 2) == 1 {
		s.try(s.prepare(wScalar, "x", "", nil, nil))
	}
	a := s.clash(sym.Choose("what", 10), "one")
	var m speed.Metric
	var err error
	sym.Schedule(-1)
	sym.Par(func() { m, err = a.run() }, func() { halt(s.c.Start() == nil, "the client starts") })
	sym.Sequential()
	if err == nil {
		s.enter(a, m)
	}
	s.counts()
	check(readFile("cl"), s.w)
	_, err = s.clash(0, "x").run()
	halt(err != nil, "a registration is refused while the client is started")
	s.stop()
}

// C13_stop: a registration against Stop: either it is refused, or the next
// Start publishes it.
func C13_stop() {
	s := newScene("cl")
	s.try(s.prepare(wScalar, "x", "", nil, nil))
	s.start()
	a := s.clash(sym.Choose("what", 10), "one")
	var m speed.Metric
	var err error
	sym.Schedule(-1)
	sym.Par(func() { m, err = a.run() }, func() { halt(s.c.Stop() == nil, "the client stops") })
	sym.Sequential()
	if err == nil {
		s.enter(a, m)
	}
	s.counts()
	check(s.start(), s.w)
}

// C13_clients: Start, Stop and SetFlag of one client by two goroutines.
func C13_clients() {
	s := newScene("cl")
	up := sym.Choose("up", 2) == 1
	if up {
		s.start()
	}
	var errs [2]error
	var ops [2]int
	op := func(i int) func() {
		ops[i] = sym.Choose("op"+string(rune('0'+i)), 3)
		return func() {
			switch ops[i] {
			case 0:
				errs[i] = s.c.Start()
			case 1:
				errs[i] = s.c.Stop()
			case 2:
				errs[i] = s.c.SetFlag(speed.NoPrefixFlag)
			}
		}
	}
	a, b := op(0), op(1)
	sym.Schedule(-1)
	sym.Par(a, b)
	sym.Sequential()
	ok := false
	end, flag := false, uint32(0)
	for _, order := range [][2]int{{0, 1}, {1, 0}} {
		st, fl, match := up, uint32(speed.ProcessFlag), true
		for _, i := range order {
			good := false
			switch ops[i] {
			case 0:
				good = !st
				st = true
			case 1:
				good = st
				st = false
			case 2:
				good = !st
				if good {
					fl = uint32(speed.NoPrefixFlag)
				}
			}
			if (errs[i] == nil) != good {
				match = false
			}
		}
		// SetFlag between Stop and Start, or after Start, shows in the file
		if match && (!ok || st) {
			ok, end, flag = true, st, fl
		}
	}
	halt(ok, "the outcome of concurrent life cycle operations is that of some sequential order")
	if !end {
		halt(s.c.Start() == nil, "a stopped client starts")
	}
	s.w.flag = flag
	check(readFile("cl"), s.w)
	s.stop()
}
