package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// domain registers a domain on its own.
func (s *scene) domain(name string, insts []string, desc ...string) (*speed.PCPInstanceDomain, *xIndom) {
	l, t := lend(insts), lend(desc)
	d, err := speed.NewPCPInstanceDomain(name, l, t...)
	halt(err == nil, "a domain can be created")
	reuse(l)
	reuse(t)
	reuse(d.Instances())
	x := &xIndom{name: name, insts: insts}
	x.short, x.long = two(desc)
	halt(s.c.RegisterIndom(d) == nil, "a domain can be registered")
	return d, s.indom(x)
}

// C03_names: one domain with two instances of 0, 1, 63, 64 or 256 arbitrary
// bytes with different first bytes, used by an instance metric; the domain is
// registered with the metric.
func C03_names() {
	s := newScene("cl")
	n1 := sym.String("n1", pick("len1", 1, 63, 64, 256))
	n2 := sym.String("n2", pick("len2", 0, 1, 63, 256))
	differ(n1, n2)
	insts := []string{n1, n2}
	dom, err := speed.NewPCPInstanceDomain("dom", insts)
	halt(err == nil, "a domain can be created")
	x := &xIndom{name: "dom", insts: insts}
	s.add(spec{kind: kInstance, name: "m", indom: dom, xin: s.indom(x), bits: sym.Uint64("bits")})
	check(s.start(), s.w)
}

// C03_desc: one domain with two instances, one with a name of up to 2
// arbitrary bytes or 64 bytes, and descriptions of 0, 1, 2 or 256 arbitrary
// bytes, registered before or with an instance metric.
func C03_desc() {
	s := newScene("cl")
	n1 := sym.String("n1", pick("len1", 1, 2))
	if sym.Choose("v2", 2) == 1 {
		n1 = long("x", 64)
	}
	differ(n1, "q2")
	insts := []string{n1, "q2"}
	var d []string
	switch sym.Choose("desc", 3) {
	case 1:
		d = []string{sym.String("short", pick("slen", 1, 256))}
	case 2:
		d = []string{sym.String("short", pick("slen", 0, 2)), sym.String("long", pick("llen", 1, 256))}
	}
	dom, err := speed.NewPCPInstanceDomain("dom", insts, d...)
	halt(err == nil, "a domain can be created")
	x := &xIndom{name: "dom", insts: insts}
	x.short, x.long = two(d)
	if sym.Choose("first", 2) == 1 {
		halt(s.c.RegisterIndom(dom) == nil, "a domain can be registered")
		s.w.indoms = append(s.w.indoms, x)
	}
	s.add(spec{kind: kInstance, name: "m", indom: dom, xin: s.indom(x), bits: sym.Uint64("bits")})
	check(s.start(), s.w)
}

// differ assumes that the names differ in the first byte, so that the oracle
// can tell them apart at once.
func differ(a, b string) {
	if len(b) == 0 {
		sym.Assume(a[0] != 0)
		return
	}
	sym.Assume(a[0] != b[0])
}

// C03_shapes: up to three domains of 0 to 3 instances, with or without
// descriptions, each used by 0 to 2 metrics, in both versions.
func C03_shapes() {
	s := newScene("cl")
	n := 1 + sym.Choose("ndom", sym.Bound(2, 3))
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		var insts []string
		for k := sym.Choose("n"+id, 4); k > 0; k-- {
			insts = append(insts, "inst"+string(rune('0'+k)))
		}
		if i == 0 && len(insts) > 0 && sym.Choose("v2", 2) == 1 {
			insts[0] = long(insts[0], 64)
		}
		var d []string
		if sym.Choose("d"+id, 2) == 1 {
			d = []string{"short" + id, "long" + id}
		}
		dom, x := s.domain("dom"+id, insts, d...)
		for k := sym.Choose("uses"+id, 3); k > 0; k-- {
			s.add(spec{kind: kInstance + k%2, name: "m" + id + string(rune('0'+k)), indom: dom, xin: x, bits: 7, str: "v"})
		}
	}
	check(s.start(), s.w)
}

// C03_shared: two or three metrics over the same domain given as one object,
// as two equal objects (in either order, one registered before or not), or by
// string, together with a vector and a histogram pair.
func C03_shared() {
	s := newScene("cl")
	insts := append([]string{}, names3...)
	if sym.Choose("v2", 2) == 1 {
		insts[1] = long("bb", 70)
	}
	x := &xIndom{name: "dom", insts: insts}
	d1, err := speed.NewPCPInstanceDomain("dom", insts)
	halt(err == nil, "a domain can be created")
	d2, err := speed.NewPCPInstanceDomain("dom", []string{insts[2], insts[0], insts[1]})
	halt(err == nil, "a domain can be created")
	switch sym.Choose("pre", 3) {
	case 1:
		halt(s.c.RegisterIndom(d1) == nil, "a domain can be registered")
		s.indom(x)
	case 2:
		_, err = s.c.Registry().AddInstanceDomainByName("dom", insts)
		halt(err == nil, "a domain can be registered by name")
		s.indom(x)
	}
	ds := []*speed.PCPInstanceDomain{d1, d2}
	s.add(spec{kind: kInstance, name: "m1", indom: ds[sym.Choose("first", 2)], xin: s.indom(x), bits: sym.Uint64("b1")})
	switch sym.Choose("second", 3) {
	case 0:
		s.add(spec{kind: kInstString, name: "m2", indom: d1, xin: s.indom(x), str: "a"})
	case 1:
		s.add(spec{kind: kInstString, name: "m2", indom: d2, xin: s.indom(x), str: "b"})
	case 2:
		vals := speed.Instances{}
		xm := &xMetric{name: "dom.m2", t: speed.Int64Type, unit: speed.OneUnit.PMAPI(), indom: s.indom(x)}
		for i, n := range insts {
			vals[n] = int64(i)
			xm.vals = append(xm.vals, xVal{n, int64(i)})
		}
		m, err := s.c.RegisterString("dom["+insts[1]+", "+insts[0]+","+insts[2]+"].m2", vals, speed.Int64Type, speed.MetricSemantics(0), speed.OneUnit)
		halt(err == nil, "a metric string over a registered domain is accepted")
		s.w.metrics = append(s.w.metrics, xm)
		s.objs = append(s.objs, m)
	}
	switch sym.Choose("more", 3) {
	case 1:
		s.add(spec{kind: kHistogram, name: "h1"})
		s.add(spec{kind: kHistogram, name: "h2"})
	case 2:
		s.add(spec{kind: kCounterVec, name: "v1", insts: insts})
		s.add(spec{kind: kGaugeVec, name: "v2", insts: insts[1:]})
	}
	check(s.start(), s.w)
	for i := range s.objs {
		s.refresh(i, true)
	}
}
