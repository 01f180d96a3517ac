package hspeed

import (
	"math"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// num64 compares floats as numbers, all NaNs being equal.
func num64(a, b float64) bool {
	return sameBits(math.Float64bits(a), math.Float64bits(b), 1<<63, 0x7ff<<52)
}

// C16_gauge: a gauge with an arbitrary value, mapped or not, and two
// (thorough: three) operations out of Set, Inc, Dec and their Must forms with
// arbitrary arguments (NaN and infinities included): what it reports, and what
// the file holds, is the float64 result of the same operations.
func C16_gauge() {
	s := newScene("cl")
	cur := sym.Float64("start")
	m, err := speed.NewPCPGauge(cur, "m")
	halt(err == nil, "a metric can be created")
	halt(s.c.Register(m) == nil, "a metric can be registered")
	req(sym.SameBits64(m.Val(), cur), "a gauge starts with the value it was given")
	x := &xMetric{name: "m", t: speed.DoubleType, sem: speed.InstantSemantics, unit: speed.OneUnit.PMAPI(), vals: []xVal{{"", cur}}}
	s.w.metrics = append(s.w.metrics, x)
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := string(rune('0' + i))
		arg := sym.Float64("arg" + id)
		var err error
		var want float64
		switch sym.Choose("op"+id, 6) {
		case 0:
			err = m.Set(arg)
			want = arg
		case 1:
			err = m.Inc(arg)
			want = cur + arg
		case 2:
			err = m.Dec(arg)
			want = cur + -arg
		case 3:
			err = must(func() { m.MustSet(arg) })
			want = arg
		case 4:
			err = must(func() { m.MustInc(arg) })
			want = cur + arg
		case 5:
			err = must(func() { m.MustDec(arg) })
			want = cur + -arg
		}
		halt(err == nil, "operations on a gauge succeed")
		cur = m.Val()
		req(num64(cur, want), "a gauge holds the float64 result of its operations")
	}
	x.vals[0].val = cur
	if !mapped {
		s.start()
	}
	req(num64(f64(s.published()[0]), cur), "the published value of a gauge is the reported one")
}

// C16_vector: the same for a gauge vector of two instances, with the
// operations on one instance and on all.
func C16_vector() {
	s := newScene("cl")
	names := names3[:2]
	v := []float64{sym.Float64("start0"), sym.Float64("start1")}
	m, err := speed.NewPCPGaugeVector(map[string]float64{names[0]: v[0], names[1]: v[1]}, "m")
	halt(err == nil, "a metric can be created")
	halt(s.c.Register(m) == nil, "a metric can be registered")
	d := s.indom(&xIndom{name: "m.indom", insts: names})
	x := &xMetric{name: "m", t: speed.DoubleType, sem: speed.InstantSemantics, unit: speed.OneUnit.PMAPI(), indom: d, vals: []xVal{{names[0], v[0]}, {names[1], v[1]}}}
	s.w.metrics = append(s.w.metrics, x)
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		id := string(rune('0' + i))
		arg := sym.Float64("arg" + id)
		op := sym.Choose("op"+id, 9)
		k := 0
		if op < 6 {
			k = sym.Choose("inst"+id, 2)
		}
		on := names[k]
		var err error
		var what int
		switch op {
		case 0:
			err, what = m.Set(arg, on), 0
		case 1:
			err, what = m.Inc(arg, on), 1
		case 2:
			err, what = m.Dec(arg, on), 2
		case 3:
			err, what = must(func() { m.MustSet(arg, on) }), 0
		case 4:
			err, what = must(func() { m.MustInc(arg, on) }), 1
		case 5:
			err, what = must(func() { m.MustDec(arg, on) }), 2
		case 6:
			err, what = must(func() { m.SetAll(arg) }), 0
		case 7:
			err, what = must(func() { m.IncAll(arg) }), 1
		case 8:
			err, what = must(func() { m.DecAll(arg) }), 2
		}
		halt(err == nil, "operations on a gauge succeed")
		for j := range names {
			want := v[j]
			if op >= 6 || j == k {
				switch what {
				case 0:
					want = arg
				case 1:
					want = v[j] + arg
				case 2:
					want = v[j] + -arg
				}
			}
			got, err := m.Val(names[j])
			halt(err == nil, "the value of an instance can be read")
			req(num64(got, want), "an instance holds the float64 result of the operations on it")
			v[j] = got
			x.vals[j].val = got
		}
	}
	if !mapped {
		s.start()
	}
	p := s.published()
	req(sym.And(num64(f64(p[0]), v[0]), num64(f64(p[1]), v[1])), "the published values are the reported ones")
}
