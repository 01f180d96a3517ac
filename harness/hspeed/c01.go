package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// descs is one of: no description, short, long only, both.
func descs(name string, opt int) []string {
	switch opt {
	case 1:
		return []string{name + " short"}
	case 2:
		return []string{"", name + " long"}
	case 3:
		return []string{name + " short", name + " long"}
	}
	return nil
}

// C01_pairs: every ordered pair of metric kinds (15 x 15), each with no or
// both descriptions, in both format versions; symbolic initial values.
func C01_pairs() {
	s := newScene("cl")
	k1 := sym.Choose("k1", nKinds)
	k2 := sym.Choose("k2", nKinds)
	d := sym.Choose("desc", 4)
	n2 := "second"
	if sym.Choose("v2", 2) == 1 {
		n2 = long(n2, 64)
	}
	s.add(spec{kind: k1, name: "first", insts: names3[:2], desc: descs("f", d%2*3), bits: sym.Uint64("b1"), str: "s1"})
	s.add(spec{kind: k2, name: n2, insts: names3[1:], desc: descs("s", d/2*3), bits: sym.Uint64("b2"), str: "s2"})
	b := s.start()
	sym.Observe("len", len(b), int(u32(b, 24)))
	f := parse(b, s.w)
	mets := f.checkMetrics(s.w)
	insts := f.checkIndoms(s.w)
	f.checkRefs(s.w, mets, insts)
	s.stop()
}

// C01_flags: an empty registry or one metric, with every flag value.
func C01_flags() {
	s := newScene("cl")
	if sym.Choose("n", 2) == 1 {
		s.add(spec{kind: kInt32, name: "m"})
	}
	if sym.Choose("set", 2) == 1 {
		fl := sym.Int32("flag")
		halt(s.c.SetFlag(speed.MMVFlag(fl)) == nil, "flags can be set on a stopped client")
		s.w.flag = uint32(fl)
	}
	f := parse(s.start(), s.w)
	f.checkMetrics(s.w)
}

// C01_counts: up to two metrics out of an int32, a string, and instance
// metrics and vectors with 0 to 2 instances, and up to one domain of 0 or 1
// instances without a metric, described or not, in both versions: sections
// that are empty and sections that are not, in every combination.
func C01_counts() {
	s := newScene("cl")
	kinds := []int{kInt32, kString, kInstance, kInstString, kCounterVec}
	n := sym.Choose("n", 3)
	v2 := n > 0 && sym.Choose("v2", 2) == 1
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		k := kinds[sym.Choose("k"+id, len(kinds))]
		var insts []string
		if k >= kInstance {
			insts = names3[:sym.Choose("insts"+id, 3)]
		}
		name := "m" + id
		if v2 {
			name = long(name, 64)
		}
		s.add(spec{kind: k, name: name, insts: insts, desc: descs(id, 2*i*sym.Choose("desc"+id, 2)), bits: 7, str: "v"})
	}
	if d := sym.Choose("dom", 5); d > 0 {
		var desc []string
		if d > 2 {
			desc = []string{"short", "long"}
		}
		s.domain("lone", names3[:d%2], desc...)
	}
	check(s.start(), s.w)
	s.stop()
}
