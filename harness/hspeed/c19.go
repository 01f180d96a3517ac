package hspeed

import (
	"math"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// mop is an operation on a metric; it gives back what a caller sees.
type mop func() []uint64

// subject is a metric with its operations and a way to read all its values,
// one group per instance.
type subject struct {
	m     speed.Metric
	ops   []mop
	final func() [][]uint64
	vals  func() []interface{} // in the order of names3, or of the histogram
}

func fail(err error) []uint64 { return []uint64{uint64(b2i(err != nil))} }

func packed(s string) uint64 {
	var r uint64
	for i := 0; i < len(s); i++ {
		r = r<<8 | uint64(s[i])
	}
	return r
}

const nSubjects = 9

// newSubject builds a metric of the given kind. It is called several times
// for the same kind, to try the sequential orders on fresh metrics.
func newSubject(kind int) *subject {
	s := &subject{}
	names := names3[:2]
	switch kind {
	case 0:
		m, err := speed.NewPCPSingletonMetric("start", "m", speed.StringType, speed.InstantSemantics, speed.OneUnit)
		halt(err == nil, "a metric can be created")
		s.m = m
		s.ops = []mop{
			func() []uint64 { return fail(m.Set("x")) },
			func() []uint64 { return fail(m.Set("yyyyyy")) },
			func() []uint64 { return []uint64{packed(m.Val().(string))} },
			func() []uint64 { return fail(m.Set(3)) },
		}
		s.vals = func() []interface{} { return []interface{}{m.Val()} }
		s.final = func() [][]uint64 { return [][]uint64{{packed(m.Val().(string))}} }
	case 1:
		m, err := speed.NewPCPCounter(10, "m")
		halt(err == nil, "a metric can be created")
		s.m = m
		s.ops = []mop{
			func() []uint64 { return fail(m.Inc(3)) },
			func() []uint64 { return fail(must(m.Up)) },
			func() []uint64 { return fail(m.Set(12)) },
			func() []uint64 { return []uint64{uint64(m.Val())} },
			func() []uint64 { return fail(m.Inc(math.MaxInt64 - 11)) },
			func() []uint64 { return fail(m.Set(11)) },
		}
		s.vals = func() []interface{} { return []interface{}{m.Val()} }
		s.final = func() [][]uint64 { return [][]uint64{{uint64(m.Val())}} }
	case 2:
		m, err := speed.NewPCPGauge(1.5, "m")
		halt(err == nil, "a metric can be created")
		s.m = m
		s.ops = []mop{
			func() []uint64 { return fail(m.Inc(3)) },
			func() []uint64 { return fail(m.Dec(0.25)) },
			func() []uint64 { return fail(m.Set(12)) },
			func() []uint64 { return []uint64{math.Float64bits(m.Val())} },
		}
		s.vals = func() []interface{} { return []interface{}{m.Val()} }
		s.final = func() [][]uint64 { return [][]uint64{{math.Float64bits(m.Val())}} }
	case 3, 4:
		m, err := speed.NewPCPTimer("m", speed.NanosecondUnit)
		halt(err == nil, "a metric can be created")
		s.m = m
		sym.SetClock(1000)
		if kind == 4 {
			halt(m.Start() == nil, "a timer can be started")
		}
		sym.SetClock(5000)
		s.ops = []mop{
			func() []uint64 { return fail(m.Start()) },
			func() []uint64 {
				v, err := m.Stop()
				return []uint64{uint64(b2i(err != nil)), math.Float64bits(v)}
			},
			func() []uint64 { return fail(m.Reset()) },
		}
		var last float64
		s.final = func() [][]uint64 {
			v, err := m.Stop()
			if err != nil {
				halt(m.Start() == nil, "a timer that cannot be stopped can be started")
				v, _ = m.Stop()
			}
			last = v
			return [][]uint64{{uint64(b2i(err != nil)), math.Float64bits(v)}}
		}
		s.vals = func() []interface{} { return []interface{}{last} }
	case 5:
		m, err := speed.NewPCPCounterVector(map[string]int64{names[0]: 10, names[1]: 20}, "m")
		halt(err == nil, "a metric can be created")
		s.m = m
		get := func(i int) int64 {
			v, err := m.Val(names[i])
			halt(err == nil, "the value of an instance can be read")
			return v
		}
		s.ops = []mop{
			func() []uint64 { return fail(m.Inc(3, names[0])) },
			func() []uint64 { return fail(must(func() { m.Up(names[1]) })) },
			func() []uint64 { return fail(m.Set(12, names[0])) },
			func() []uint64 { return []uint64{uint64(get(0))} },
			func() []uint64 { return fail(must(func() { m.IncAll(4) })) },
			func() []uint64 { return fail(m.Inc(1, "nope")) },
			func() []uint64 { return fail(must(func() { m.UpAll() })) },
		}
		s.vals = func() []interface{} { return []interface{}{get(0), get(1)} }
		s.final = func() [][]uint64 { return [][]uint64{{uint64(get(0))}, {uint64(get(1))}} }
	case 6:
		m, err := speed.NewPCPGaugeVector(map[string]float64{names[0]: 10, names[1]: 20}, "m")
		halt(err == nil, "a metric can be created")
		s.m = m
		get := func(i int) float64 {
			v, err := m.Val(names[i])
			halt(err == nil, "the value of an instance can be read")
			return v
		}
		s.ops = []mop{
			func() []uint64 { return fail(m.Inc(3, names[0])) },
			func() []uint64 { return fail(m.Dec(1.5, names[0])) },
			func() []uint64 { return fail(m.Set(12, names[1])) },
			func() []uint64 { return []uint64{math.Float64bits(get(0))} },
			func() []uint64 { return fail(must(func() { m.IncAll(4) })) },
			func() []uint64 { return fail(must(func() { m.SetAll(7) })) },
			func() []uint64 { return fail(must(func() { m.DecAll(8) })) },
		}
		s.vals = func() []interface{} { return []interface{}{get(0), get(1)} }
		s.final = func() [][]uint64 { return [][]uint64{{math.Float64bits(get(0))}, {math.Float64bits(get(1))}} }
	case 8:
		d, err := speed.NewPCPInstanceDomain("m.indom", names)
		halt(err == nil, "a domain can be created")
		m, err := speed.NewPCPInstanceMetric(speed.Instances{names[0]: "s", names[1]: "tt"}, "m", d, speed.StringType, speed.InstantSemantics, speed.OneUnit)
		halt(err == nil, "a metric can be created")
		s.m = m
		get := func(i int) string {
			v, err := m.ValInstance(names[i])
			halt(err == nil, "the value of an instance can be read")
			return v.(string)
		}
		s.ops = []mop{
			func() []uint64 { return fail(m.SetInstance("x", names[0])) },
			func() []uint64 { return fail(m.SetInstance("yyyyyy", names[0])) },
			func() []uint64 { return fail(must(func() { m.MustSetInstance("zzz", names[1]) })) },
			func() []uint64 { return []uint64{packed(get(0))} },
			func() []uint64 { return fail(m.SetInstance(3, names[0])) },
		}
		s.vals = func() []interface{} { return []interface{}{get(0), get(1)} }
		s.final = func() [][]uint64 { return [][]uint64{{packed(get(0))}, {packed(get(1))}} }
	case 7:
		m, err := speed.NewPCPHistogram("m", 0, 100, 1, speed.OneUnit)
		halt(err == nil, "a metric can be created")
		s.m = m
		s.ops = []mop{
			func() []uint64 { return fail(m.Record(3)) },
			func() []uint64 { return fail(m.RecordN(90, 2)) },
			func() []uint64 { return fail(m.Record(-1)) },
			func() []uint64 { return []uint64{uint64(m.Max())} },
			func() []uint64 { return []uint64{uint64(m.Percentile(50))} },
			func() []uint64 {
				var n int64
				for _, b := range m.Buckets() {
					n += b.Count
				}
				return []uint64{uint64(n)}
			},
			func() []uint64 { return []uint64{math.Float64bits(m.Mean())} },
			func() []uint64 { return []uint64{math.Float64bits(m.Variance())} },
			func() []uint64 { return []uint64{math.Float64bits(m.StandardDeviation()), 0} },
			func() []uint64 { return []uint64{uint64(m.Min())} },
		}
		s.vals = func() []interface{} {
			return []interface{}{float64(m.Min()), float64(m.Max()), m.Mean(), m.Variance(), m.StandardDeviation()}
		}
		s.final = func() [][]uint64 {
			return [][]uint64{{uint64(m.Min()), uint64(m.Max()), math.Float64bits(m.Mean()), math.Float64bits(m.Variance()), math.Float64bits(m.StandardDeviation()), uint64(m.Percentile(60))}}
		}
	}
	return s
}

// enroll registers the metric and says what the file has to show of it.
func (s *scene) enroll(kind int, sub *subject) {
	halt(s.c.Register(sub.m) == nil, "a metric can be registered")
	x := &xMetric{name: "m", t: speed.DoubleType, sem: speed.InstantSemantics, unit: speed.OneUnit.PMAPI(), vals: []xVal{{"", nil}}}
	switch kind {
	case 0:
		x.t = speed.StringType
	case 1:
		x.t, x.sem = speed.Int64Type, speed.CounterSemantics
	case 3, 4:
		x.sem, x.unit = speed.DiscreteSemantics, speed.NanosecondUnit.PMAPI()
	case 5, 6, 8:
		if kind == 8 {
			x.t = speed.StringType
		}
		if kind == 5 {
			x.t, x.sem = speed.Int64Type, speed.CounterSemantics
		}
		x.vals = []xVal{{names3[0], nil}, {names3[1], nil}}
		x.indom = s.indom(&xIndom{name: "m.indom", insts: names3[:2]})
	case 7:
		names := []string{"min", "max", "mean", "variance", "standard_deviation"}
		x.vals = nil
		for _, n := range names {
			x.vals = append(x.vals, xVal{n, nil})
		}
		x.indom = s.indom(&xIndom{name: "histogram", insts: names})
	}
	s.w.metrics = append(s.w.metrics, x)
}

func (s *scene) settle(sub *subject) {
	for i, v := range sub.vals() {
		s.w.metrics[0].vals[i].val = v
	}
}

func equal(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// orders calls f with the outcome of every sequential order of the threads'
// operations on a fresh metric.
func orders(kind int, progs [][]int, f func(res [][][]uint64, final [][]uint64)) {
	var order []int
	left := make([]int, len(progs))
	total := 0
	for i, p := range progs {
		left[i] = len(p)
		total += len(p)
	}
	var rec func()
	rec = func() {
		if len(order) == total {
			sub := newSubject(kind)
			res := make([][][]uint64, len(progs))
			for _, t := range order {
				op := progs[t][len(res[t])]
				res[t] = append(res[t], sub.ops[op]())
			}
			f(res, sub.final())
			return
		}
		for t := range progs {
			if left[t] > 0 {
				left[t]--
				order = append(order, t)
				rec()
				order = order[:len(order)-1]
				left[t]++
			}
		}
	}
	rec()
}

// atomic runs the programs, one goroutine each, under every schedule, and
// requires the outcome of some sequential order. The forms for all instances
// are taken as one operation per instance, so that the order may differ from
// instance to instance.
func (s *scene) atomic(kind int, progs [][]int) {
	sub := newSubject(kind)
	s.enroll(kind, sub)
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	res := make([][][]uint64, len(progs))
	var fs []func()
	for t := range progs {
		t := t
		fs = append(fs, func() {
			for _, op := range progs[t] {
				res[t] = append(res[t], sub.ops[op]())
			}
		})
	}
	sym.Schedule(-1)
	sym.Par(fs...)
	sym.Sequential()
	s.judge(kind, progs, sub, res, mapped)
}

func (s *scene) judge(kind int, progs [][]int, sub *subject, res [][][]uint64, running bool) {
	final := sub.final()
	ok := make([]bool, len(final))
	orders(kind, progs, func(r [][][]uint64, f [][]uint64) {
		for t := range r {
			for i := range r[t] {
				if !equal(r[t][i], res[t][i]) {
					return
				}
			}
		}
		for i := range f {
			if equal(f[i], final[i]) {
				ok[i] = true
			}
		}
	})
	for i := range ok {
		req(ok[i], "concurrent operations have the outcome of some sequential order")
	}
	s.settle(sub)
	if !running {
		s.start()
	}
	s.published()
}

// C19_pairs: for each kind of metric, published or not, every pair of its
// operations done by two goroutines under every schedule.
func C19_pairs() {
	s := newScene("cl")
	kind := sym.Choose("kind", nSubjects)
	n := len(newSubject(kind).ops)
	i, j := sym.Choose("first", n), sym.Choose("second", n)
	sym.Assume(i <= j)
	s.atomic(kind, [][]int{{i}, {j}})
}

// C19_more: two operations against one, and (thorough) three goroutines.
func C19_more() {
	s := newScene("cl")
	kind := sym.Choose("kind", nSubjects)
	n := len(newSubject(kind).ops)
	if !sym.Thorough() && n > 3 {
		n = 3
	}
	i, j, k := sym.Choose("first", n), sym.Choose("second", n), sym.Choose("third", n)
	if sym.Choose("three", sym.Bound(1, 2)) == 1 {
		sym.Assume(i <= j && j <= k)
		s.atomic(kind, [][]int{{i}, {j}, {k}})
		return
	}
	s.atomic(kind, [][]int{{i, j}, {k}})
}

// C19_start: every operation of every kind against Start of the client: what
// is published is what is reported.
func C19_start() {
	s := newScene("cl")
	kind := sym.Choose("kind", nSubjects)
	sub := newSubject(kind)
	i := sym.Choose("op", len(sub.ops))
	s.enroll(kind, sub)
	res := make([][][]uint64, 1)
	sym.Schedule(-1)
	sym.Par(func() { res[0] = append(res[0], sub.ops[i]()) }, func() { halt(s.c.Start() == nil, "the client starts") })
	sym.Sequential()
	s.judge(kind, [][]int{{i}}, sub, res, true)
}

// C19_stop: every operation of every kind against Stop of the client; the
// metric keeps its value, and the next Start publishes it.
func C19_stop() {
	s := newScene("cl")
	kind := sym.Choose("kind", nSubjects)
	sub := newSubject(kind)
	i := sym.Choose("op", len(sub.ops))
	s.enroll(kind, sub)
	s.start()
	res := make([][][]uint64, 1)
	sym.Schedule(-1)
	sym.Par(func() { res[0] = append(res[0], sub.ops[i]()) }, func() { halt(s.c.Stop() == nil, "the client stops") })
	sym.Sequential()
	s.judge(kind, [][]int{{i}}, sub, res, false)
}

// C19_two: an update of each of two metrics of a published client, of any two
// kinds, by two goroutines under every schedule: each shows its own value.
func C19_two() {
	s := newScene("cl")
	k0, k1 := sym.Choose("k0", nKinds), sym.Choose("k1", nKinds)
	sym.Assume(k0 <= k1)
	for i, k := range []int{k0, k1} {
		s.add(spec{kind: k, name: "m" + string(rune('0'+i)), insts: names3[:2], bits: 3, str: "v"})
	}
	s.start()
	sym.Schedule(-1)
	sym.Par(func() { s.bump(0, 5) }, func() { s.bump(1, 9) })
	sym.Sequential()
	s.published()
}
