package hspeed

import (
	"verif.local/harness/sym"
)

// every starts the client under every schedule and checks the file.
func (s *scene) every() {
	sym.Schedule(-1)
	check(s.start(), s.w)
}

// C09_one: every schedule of Start with one metric of any kind, in both
// versions for the kinds without instances, with either or both descriptions.
func C09_one() {
	s := newScene("cl")
	k := sym.Choose("kind", nKinds)
	name := "m"
	if k < kInstance && sym.Choose("v2", 2) == 1 {
		name = long(name, 64)
	}
	n := 2
	if k == kInstString {
		n = 1
	}
	s.add(spec{kind: k, name: name, insts: names3[:n], bits: 1, str: "v", desc: descs("d", sym.Choose("desc", 4))})
	s.every()
}

// C09_two: every schedule of Start with two scalar metrics of any two of four
// kinds, with no, either or both descriptions.
func C09_two() {
	s := newScene("cl")
	kinds := []int{kInt64, kString, kGauge, kTimer}
	s.add(spec{kind: kinds[sym.Choose("k1", len(kinds))], name: "m", bits: 1, str: "v"})
	s.add(spec{kind: kinds[sym.Choose("k2", len(kinds))], name: "n", bits: 2, str: "w", desc: descs("d", sym.Choose("desc", 4))})
	s.every()
}

// C09_v2: every schedule of Start with two scalar metrics in version 2.
func C09_v2() {
	s := newScene("cl")
	s.add(spec{kind: kInt64, name: long("m", 64), bits: 1})
	s.add(spec{kind: kInt64 + sym.Choose("k2", 4), name: "n", bits: 2, str: "w"})
	s.every()
}

// C09_domains: every schedule of Start with one or two domains of one or two
// instances, used by a metric, in both versions.
func C09_domains() {
	s := newScene("cl")
	one := append([]string{}, names3[:1+sym.Choose("n1", 2)]...)
	if sym.Choose("v2", 2) == 1 {
		one[0] = long("i", 64)
	}
	d1, x1 := s.domain("dom1", one)
	if sym.Choose("two", 2) == 1 && (len(one) == 1 || sym.Thorough()) {
		s.domain("dom2", names3[1:2], descs("d", sym.Choose("desc", 2))...)
	}
	s.add(spec{kind: kInstance, name: "m", indom: d1, xin: x1, bits: 2})
	s.every()
}

// C09_empty: the empty registry and empty domains.
func C09_empty() {
	s := newScene("cl")
	for i, n := 0, sym.Choose("domains", 3); i < n; i++ {
		s.domain("dom"+string(rune('0'+i)), nil)
	}
	s.every()
}

// C09_restart: every schedule of a second Start.
func C09_restart() {
	s := newScene("cl")
	s.add(spec{kind: kString, name: "m", str: "v"})
	s.add(spec{kind: kInstance, name: "n", insts: names3[:1], bits: 2})
	s.start()
	s.stop()
	s.every()
}

// C09_three: every schedule of Start with three scalar metrics.
func C09_three() {
	s := newScene("cl")
	s.add(spec{kind: kInt64, name: "m", bits: 1})
	s.add(spec{kind: kInt64 + 3*sym.Choose("k2", 2), name: "n", bits: 2, str: "w"})
	s.add(spec{kind: kCounter, name: "o", bits: 3, desc: descs("d", sym.Choose("desc", 2))})
	s.every()
}

// C09_shared: every schedule of Start with two instance metrics over one
// domain of one or two instances (of which one may be a string metric).
func C09_shared() {
	s := newScene("cl")
	d, x := s.domain("dom", names3[:1+sym.Choose("n", 2)])
	s.add(spec{kind: kInstance, name: "m", indom: d, xin: x, bits: 2})
	s.add(spec{kind: kInstance + sym.Choose("str", 2), name: "n", indom: d, xin: x, bits: 3, str: "v"})
	s.every()
}

// C09_texts: every schedule of Start with a domain and a metric over it, both
// with both descriptions, and another metric with a string value.
func C09_texts() {
	s := newScene("cl")
	d, x := s.domain("dom", names3[:1], descs("i", sym.Choose("idesc", 4))...)
	s.add(spec{kind: kInstance + sym.Choose("str", 2), name: "m", indom: d, xin: x, bits: 2, str: "v", desc: descs("d", 3)})
	s.add(spec{kind: kString, name: "n", str: "w", desc: descs("e", sym.Choose("desc", 4))})
	s.every()
}
