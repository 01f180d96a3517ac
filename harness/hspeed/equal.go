package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// equalScene is a client in which the names of two metrics, of a domain and of
// its two instances, the descriptions and the string values are arbitrary strings
// of one length, so that any of them can be equal to any other one, as far as that
// is allowed.  In version 2 they have 66 bytes, two of which are arbitrary.
func equalScene() *scene {
	s := newScene("cl")
	v2 := sym.Choose("v2", 2) == 1
	str := func(id string) string {
		t := sym.String(id, 2)
		if v2 {
			t = t[:1] + long("", 64) + t[1:]
		}
		return t
	}
	insts := []string{str("i0"), str("i1")}
	sym.Assume(insts[0] != insts[1])
	x := &xIndom{name: str("dom"), insts: insts}
	var desc []string
	if sym.Choose("ddesc", 2) == 1 {
		x.short, x.long = str("dshort"), str("dlong")
		desc = []string{x.short, x.long}
	}
	d, err := speed.NewPCPInstanceDomain(x.name, insts, desc...)
	halt(err == nil, "a domain can be created")
	if sym.Choose("before", 2) == 1 {
		halt(s.c.RegisterIndom(d) == nil, "a domain can be registered")
	}
	m0, m1 := str("m0"), str("m1")
	sym.Assume(m0 != m1)
	var mdesc []string
	if sym.Choose("mdesc", 2) == 1 {
		mdesc = []string{str("mshort"), str("mlong")}
	}
	x = s.indom(x)
	m := &xMetric{name: m0, t: speed.StringType, unit: speed.OneUnit.PMAPI(), indom: x}
	m.short, m.long = two(mdesc)
	vals := speed.Instances{}
	for i, n := range insts {
		v := str("v" + string(rune('0'+i)))
		vals[n] = v
		m.vals = append(m.vals, xVal{n, v})
	}
	im, err := speed.NewPCPInstanceMetric(vals, m0, d, speed.StringType, 0, speed.OneUnit, mdesc...)
	halt(err == nil, "a metric can be created")
	halt(s.c.Register(im) == nil, "a metric can be registered")
	s.w.metrics = append(s.w.metrics, m)
	s.objs = append(s.objs, im)
	switch sym.Choose("other", 3) {
	case 0:
		s.add(spec{kind: kString, name: m1, str: str("v2")})
	case 1:
		s.add(spec{kind: kInstance, name: m1, indom: d, xin: x, bits: 5, desc: []string{str("nshort")}})
	case 2:
		s.add(spec{kind: kString, name: m1, str: str("v2"), desc: []string{str("nshort"), str("nlong")}})
	}
	return s
}

// C01_equal: the layout of a file in which names, descriptions and string
// values may coincide in any way.
func C01_equal() {
	s := equalScene()
	f := parse(s.start(), s.w)
	mets := f.checkMetrics(s.w)
	f.checkRefs(s.w, mets, f.checkIndoms(s.w))
}

// C02_equal: the metric records of such a file.
func C02_equal() {
	s := equalScene()
	parse(s.start(), s.w).checkMetrics(s.w)
}

// C03_equal: the domains and instances of such a file, in which a value refers
// to its own instance.
func C03_equal() {
	s := equalScene()
	check(s.start(), s.w)
}

// C04_equal: the values of such a file.
func C04_equal() {
	s := equalScene()
	check(s.start(), s.w)
	for i := range s.objs {
		s.refresh(i, true)
	}
}

// C12_equal: the counts and lookups of such a registry.
func C12_equal() {
	s := equalScene()
	s.counts()
}
