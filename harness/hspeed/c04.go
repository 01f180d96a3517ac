package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// C04_scalars: every scalar type with an arbitrary value (strings of 0, 1, 2,
// 255 and 256 arbitrary bytes) given at construction, in both versions, next
// to a second metric of any scalar type.
func C04_scalars() {
	s := newScene("cl")
	s.w.signs = true
	str := ""
	k := sym.Choose("kind", 7)
	if k == kString {
		str = sym.String("str", pick("len", 0, 1, 2, 255, 256))
	}
	s.add(spec{kind: k, name: long("m", pick("v", 1, 64)), bits: sym.Uint64("bits"), str: str})
	s.add(spec{kind: sym.Choose("kind2", 7), name: "n", bits: sym.Uint64("bits2"), str: "two"})
	b := s.start()
	check(b, s.w)
	for i := range s.objs {
		s.refresh(i, true)
	}
}

// C04_updated: every metric kind with an arbitrary initial value and up to
// two updates before Start (every operation of the kind, arbitrary
// arguments), next to another metric of the same kind.
func C04_updated() {
	s := newScene("cl")
	s.w.signs = true
	k := sym.Choose("kind", nKinds)
	s.add(spec{kind: k, name: "m", insts: names3[:2], bits: initial(k, "bits"), str: "init"})
	if sym.Choose("pair", 2) == 1 {
		s.add(spec{kind: k, name: "n", insts: names3[:2], bits: 1, str: "other"})
	}
	n := sym.Bound(1, 2)
	for i := 0; i < n; i++ {
		s.update(0, "u"+string(rune('0'+i)))
	}
	check(s.start(), s.w)
	s.refresh(0, true)
}

// C04_instances: instance metrics of every value type with 1 to 3 instances
// holding different arbitrary values, over a domain used by two metrics.
func C04_instances() {
	s := newScene("cl")
	s.w.signs = true
	n := 1 + sym.Choose("n", 3)
	insts := names3[:n]
	dom, x := s.domain("dom", insts)
	for k := 0; k < 2; k++ {
		id := string(rune('0' + k))
		kind := sym.Choose("kind"+id, 7)
		vals := speed.Instances{}
		xm := &xMetric{name: "m" + id, unit: speed.OneUnit.PMAPI(), indom: x}
		var t speed.MetricType
		for i, in := range insts {
			var v interface{}
			t, v = scalar(kind, sym.Uint64("v"+id+in), sym.String("s"+id+in, i))
			vals[in] = v
			xm.vals = append(xm.vals, xVal{in, v})
		}
		xm.t = t
		m, err := speed.NewPCPInstanceMetric(vals, xm.name, dom, t, 0, speed.OneUnit)
		halt(err == nil, "an instance metric can be created")
		halt(s.c.Register(m) == nil, "an instance metric can be registered")
		s.w.metrics = append(s.w.metrics, xm)
		s.objs = append(s.objs, m)
	}
	check(s.start(), s.w)
}
