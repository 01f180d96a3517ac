package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// anyUnit is a unit with an arbitrary PMAPI word.
type anyUnit struct {
	speed.MetricUnit
	word uint32
}

func (u anyUnit) PMAPI() uint32 { return u.word }

// C02_fields: one metric with a name of 1, 2, 63, 64, 255 or 256 arbitrary
// bytes, every type, arbitrary semantics and unit words, and descriptions of
// 0, 1, 255 or 256 arbitrary bytes, next to a fixed metric.
func C02_fields() {
	s := newScene("cl")
	name := sym.String("name", pick("len", 1, 2, 63, 64, 255, 256))
	sym.Assume(name != "other")
	d := []string{}
	switch sym.Choose("desc", 4) {
	case 1:
		d = append(d, sym.String("short", pick("slen", 1, 255, 256)))
	case 2:
		d = append(d, "", sym.String("long", pick("llen", 1, 255, 256)))
	case 3:
		d = append(d, sym.String("short", pick("slen", 0, 3, 256)), sym.String("long", pick("llen", 0, 3, 256)))
	}
	s.add(spec{kind: kInt32 + sym.Choose("type", 7), name: name, desc: d, bits: 5, str: "v",
		sem: speed.MetricSemantics(sym.Int32("sem")), unit: anyUnit{speed.OneUnit, sym.Uint32("unit")}})
	if sym.Choose("other", 2) == 1 {
		s.add(spec{kind: kGauge, name: "other", desc: []string{"x", "y"}})
	}
	f := parse(s.start(), s.w)
	f.checkMetrics(s.w)
}

// C02_kinds: every metric kind in both versions with every time unit for
// timers, composed units for histograms, arbitrary semantics for the kinds
// that take them; three metrics of the same and of different kinds.
func C02_kinds() {
	s := newScene("cl")
	k := sym.Choose("kind", nKinds)
	name := long("m", pick("len", 1, 64))
	sem := speed.MetricSemantics(sym.Int32("sem"))
	d := descs("k", sym.Choose("desc", 4))
	switch k {
	case kTimer:
		u := speed.NanosecondUnit + speed.TimeUnit(sym.Choose("tunit", 6))<<12
		m, err := speed.NewPCPTimer(name, u, d...)
		halt(err == nil, "a timer can be created")
		halt(s.c.Register(m) == nil, "a timer can be registered")
		x := &xMetric{name: name, t: speed.DoubleType, sem: speed.DiscreteSemantics, unit: uint32(u), vals: []xVal{{"", float64(0)}}}
		x.short, x.long = two(d)
		s.w.metrics = append(s.w.metrics, x)
		s.objs = append(s.objs, m)
	default:
		s.add(spec{kind: k, name: name, desc: d, sem: sem, unit: anyUnit{speed.OneUnit, sym.Uint32("unit")}, insts: names3, str: "v"})
	}
	s.add(spec{kind: k, name: "again", insts: names3[:2], sem: sem, desc: descs("g", 3)})
	s.add(spec{kind: sym.Choose("third", nKinds), name: "z.third", insts: names3[:1]})
	check(s.start(), s.w)
}

func two(d []string) (a, b string) {
	if len(d) > 0 {
		a = d[0]
	}
	if len(d) > 1 {
		b = d[1]
	}
	return
}

// C02_string: metrics registered through the string form, every scalar type
// and instance metrics, arbitrary semantics and units, both versions.
func C02_string() {
	s := newScene("cl")
	kinds := []int{kInt32, kUint32, kInt64, kUint64, kFloat, kDouble, kString, kInstance, kInstString}
	name := long("a.b", pick("len", 3, 64))
	s.add(spec{kind: kinds[sym.Choose("kind", len(kinds))], name: name, byStr: true, insts: names3, bits: sym.Uint64("bits"), str: "v",
		sem: speed.MetricSemantics(sym.Int32("sem")), unit: anyUnit{speed.OneUnit, sym.Uint32("unit")}})
	s.add(spec{kind: kinds[sym.Choose("kind2", len(kinds))], name: "second", byStr: true, insts: names3[:1]})
	check(s.start(), s.w)
}

// C02_empty: every metric kind with instances over a domain with no instance
// or with one, next to another such metric and to a plain one: the domain of
// the metric is on its record whether or not it has instances.
func C02_empty() {
	s := newScene("cl")
	kinds := []int{kInstance, kInstString, kCounterVec, kGaugeVec}
	n := sym.Choose("insts", 2)
	s.add(spec{kind: kinds[sym.Choose("kind", len(kinds))], name: long("a.b", pick("len", 3, 64)), insts: names3[:n], str: "v", desc: descs("k", sym.Choose("desc", 4))})
	s.add(spec{kind: kinds[sym.Choose("kind2", len(kinds))], name: "second", insts: names3[:sym.Choose("insts2", 2)], bits: 7, str: "w"})
	if sym.Choose("plain", 2) == 1 {
		s.add(spec{kind: kCounter, name: "third"})
	}
	check(s.start(), s.w)
}
