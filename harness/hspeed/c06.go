package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// limited is a string whose length is around the end of a string slot, of
// arbitrary bytes or filled with one character of two or four bytes or with
// bytes that are no characters.
func limited(name string) (string, bool) {
	n := pick(name+".len", 63, 64, 255, 256, 257, 300, 512)
	if fill := sym.Choose(name+".fill", 4); fill > 0 {
		return filled(n, []string{"", "\u00e9", "\xff", "\U0001f600"}[fill]), n <= 256
	}
	return sym.String(name, n), n <= 256
}

// filled is a text of n bytes made of the given character.
func filled(n int, c string) string {
	s := ""
	for len(s)+len(c) <= n {
		s += c
	}
	for len(s) < n {
		s += "x"
	}
	return s
}

// C06_metric: metric names and descriptions of 63, 64, 255, 256, 257, 300 and
// 512 arbitrary bytes (or as
// many of characters of several bytes) given to every constructor, and to the string form for
// names: accepted exactly up to 256 bytes, and then stored without touching
// anything else.
func C06_metric() {
	s := newScene("cl")
	s.add(spec{kind: kString, name: "before", str: "x", desc: []string{"p", "q"}})
	name, d := "m", []string{}
	str, ok := limited("s")
	switch sym.Choose("where", 3) {
	case 0:
		name = str
	case 1:
		d = []string{str}
	case 2:
		d = []string{"", str}
	}
	x := &xMetric{name: name, t: speed.Int64Type, unit: speed.OneUnit.PMAPI(), vals: []xVal{{"", int64(3)}}}
	x.short, x.long = two(d)
	var m speed.Metric
	var err error
	vec := func() {
		x.indom = &xIndom{name: name + ".indom", insts: names3[:1]}
		x.vals[0].inst = names3[0]
	}
	switch sym.Choose("kind", 8) {
	case 0:
		m, err = nilIf(speed.NewPCPSingletonMetric(int64(3), name, speed.Int64Type, speed.NoSemantics, speed.OneUnit, d...))
	case 1:
		m, err = nilIf(speed.NewPCPCounter(3, name, d...))
		x.sem = speed.CounterSemantics
	case 2:
		m, err = nilIf(speed.NewPCPGauge(3, name, d...))
		x.sem, x.t, x.vals = speed.InstantSemantics, speed.DoubleType, []xVal{{"", float64(3)}}
	case 3:
		m, err = nilIf(speed.NewPCPTimer(name, speed.SecondUnit, d...))
		x.sem, x.t, x.vals, x.unit = speed.DiscreteSemantics, speed.DoubleType, []xVal{{"", float64(0)}}, speed.SecondUnit.PMAPI()
	case 4:
		dom, derr := speed.NewPCPInstanceDomain("dom", names3[:1])
		halt(derr == nil, "a domain can be created")
		m, err = nilIf(speed.NewPCPInstanceMetric(speed.Instances{names3[0]: int64(3)}, name, dom, speed.Int64Type, speed.NoSemantics, speed.OneUnit, d...))
		x.indom, x.vals[0].inst = &xIndom{name: "dom", insts: names3[:1]}, names3[0]
	case 5:
		m, err = nilIf(speed.NewPCPCounterVector(map[string]int64{names3[0]: 3}, name, d...))
		x.sem = speed.CounterSemantics
		vec()
	case 6:
		m, err = nilIf(speed.NewPCPGaugeVector(map[string]float64{names3[0]: 3}, name, d...))
		x.sem, x.t, x.vals = speed.InstantSemantics, speed.DoubleType, []xVal{{"", float64(3)}}
		vec()
	case 7:
		m, err = nilIf(speed.NewPCPHistogram(name, 0, 100, 1, speed.OneUnit, d...))
		x.sem, x.t, x.vals = speed.InstantSemantics, speed.DoubleType, nil
		x.indom = &xIndom{name: "histogram", insts: []string{"min", "max", "mean", "variance", "standard_deviation"}}
		for _, i := range x.indom.insts {
			x.vals = append(x.vals, xVal{i, float64(0)})
		}
	}
	req((err == nil) == ok, "a metric is created exactly when its name and descriptions fit their slots")
	if err != nil {
		return
	}
	halt(s.c.Register(m) == nil, "a metric can be registered")
	s.w.metrics = append(s.w.metrics, x)
	if x.indom != nil {
		s.indom(x.indom)
	}
	s.add(spec{kind: kString, name: "zlast", str: "y", desc: []string{"p", "q"}})
	check(s.start(), s.w)
}

func nilIf[T speed.Metric](m T, err error) (speed.Metric, error) { return m, err }

// C06_indom: instance names and domain descriptions of the same lengths.
func C06_indom() {
	s := newScene("cl")
	str, ok := limited("s")
	insts, d := []string{"one", "two"}, []string{}
	switch sym.Choose("where", 4) {
	case 0:
		insts[0] = str
	case 1:
		insts[1] = str
	case 2:
		d = []string{str}
	case 3:
		d = []string{"", str}
	}
	sym.Assume(str != "one" && str != "two")
	var dom *speed.PCPInstanceDomain
	var err error
	byName := len(d) == 0 && sym.Choose("byname", 2) == 1
	if byName {
		_, err = s.c.Registry().AddInstanceDomainByName("dom", insts)
	} else {
		dom, err = speed.NewPCPInstanceDomain("dom", insts, d...)
	}
	req((err == nil) == ok, "a domain is created exactly when its instances and descriptions fit their slots")
	if err != nil {
		return
	}
	x := &xIndom{name: "dom", insts: insts}
	x.short, x.long = two(d)
	s.indom(x)
	if !byName {
		halt(s.c.RegisterIndom(dom) == nil, "a domain can be registered")
	}
	s.add(spec{kind: kString, name: "zlast", str: "y", desc: []string{"p", "q"}})
	check(s.start(), s.w)
}

// C06_vectors: instance names of the same lengths given to vectors.
func C06_vectors() {
	s := newScene("cl")
	str, ok := limited("s")
	sym.Assume(str[0] != 'a')
	x := &xMetric{name: "v", unit: speed.OneUnit.PMAPI()}
	var m speed.Metric
	var err error
	if sym.Choose("kind", 2) == 0 {
		m, err = nilIf(speed.NewPCPCounterVector(map[string]int64{str: 3, "a": 4}, "v"))
		x.t, x.sem, x.vals = speed.Int64Type, speed.CounterSemantics, []xVal{{str, int64(3)}, {"a", int64(4)}}
	} else {
		m, err = nilIf(speed.NewPCPGaugeVector(map[string]float64{str: 3, "a": 4}, "v"))
		x.t, x.sem, x.vals = speed.DoubleType, speed.InstantSemantics, []xVal{{str, float64(3)}, {"a", float64(4)}}
	}
	req((err == nil) == ok, "a vector is created exactly when its instances fit their slots")
	if err != nil {
		return
	}
	x.indom = s.indom(&xIndom{name: "v.indom", insts: []string{str, "a"}})
	halt(s.c.Register(m) == nil, "a vector can be registered")
	s.w.metrics = append(s.w.metrics, x)
	check(s.start(), s.w)
}

// C06_values: string values of the same lengths (and 0 and 1), for singleton
// and instance metrics, given at construction, by an update before Start and
// by updates after it (a long one followed by a short one).
func C06_values() {
	s := newScene("cl")
	str, ok := limited("s")
	s.add(spec{kind: kString, name: "before", str: "x", desc: []string{"p"}})
	kind := kString + sym.Choose("inst", 2)*(kInstString-kString)
	when := sym.Choose("when", 4)
	if when == 0 && kind == kString {
		m, err := speed.NewPCPSingletonMetric(str, "m", speed.StringType, speed.NoSemantics, speed.OneUnit)
		req((err == nil) == ok, "a string value is accepted exactly when it fits its slot")
		if err != nil {
			return
		}
		halt(s.c.Register(m) == nil, "a metric can be registered")
		s.w.metrics = append(s.w.metrics, &xMetric{name: "m", t: speed.StringType, unit: speed.OneUnit.PMAPI(), vals: []xVal{{"", str}}})
		s.objs = append(s.objs, m)
	} else {
		s.add(spec{kind: kind, name: "m", str: "init", insts: names3[:2]})
	}
	s.add(spec{kind: kString, name: "zlast", str: "y", desc: []string{"p", "q"}})
	set := func(v string, ok bool) {
		var err error
		x := s.w.metrics[1]
		if kind == kString {
			err = s.objs[1].(*speed.PCPSingletonMetric).Set(v)
		} else {
			err = s.objs[1].(*speed.PCPInstanceMetric).SetInstance(v, names3[1])
		}
		req((err == nil) == ok, "a string value is accepted exactly when it fits its slot")
		if err == nil {
			x.vals[len(x.vals)-1].val = v
		}
	}
	if when == 1 {
		set(str, ok)
	}
	check(s.start(), s.w)
	if when >= 2 {
		set(str, ok)
		check(readFile("cl"), s.w)
	}
	if when == 3 {
		set(sym.String("t", pick("t.len", 0, 1, 256)), true)
		check(readFile("cl"), s.w)
	}
	s.refresh(1, true)
}
