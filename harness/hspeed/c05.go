package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// watch performs an operation on metric i while the client is mapped and
// checks the file afterwards.
func (s *scene) watch(i int, before []byte, op func()) []byte {
	x := s.w.metrics[i]
	old := append([]xVal{}, x.vals...)
	op()
	after := readFile(s.w.client)
	f := check(after, s.w)
	// what changed is the place of values that changed
	free := make([]bool, len(after))
	for k := range x.vals {
		if sameRaw(x.t, old[k].val, x.vals[k].val) {
			continue
		}
		o, n := f.place(x, k)
		for j := o; j < o+n; j++ {
			free[j] = true
		}
	}
	halt(len(before) == len(after), "an update does not change the size of the file")
	eq := true
	for j := range after {
		if !free[j] {
			eq = sym.And(eq, before[j] == after[j])
		}
	}
	req(eq, "an update changes no other byte of the file")
	return after
}

// C05_one: every metric kind with an arbitrary initial value among two
// neighbours, in both versions, one or two updates by any operation with
// arbitrary arguments.
func C05_one() {
	s := newScene("cl")
	s.w.signs = true
	k := sym.Choose("kind", nKinds)
	s.add(spec{kind: kString, name: long("a", pick("v", 1, 64)), str: "neighbour"})
	s.add(spec{kind: k, name: "m", insts: names3[:2], bits: initial(k, "bits"), str: "init", desc: []string{"d"}})
	s.add(spec{kind: kInstString, name: "z", insts: names3[:2], str: "neighbour"})
	b := s.start()
	check(b, s.w)
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		b = s.watch(1, b, func() { s.update(1, "u"+string(rune('0'+i))) })
	}
}

// C05_strings: a string metric or instance between two neighbours, set to two
// (thorough: three) arbitrary strings of lengths up to the size of the slot.
func C05_strings() {
	s := newScene("cl")
	s.w.signs = true
	s.add(spec{kind: kString, name: long("a", pick("v", 1, 64)), str: "neighbour"})
	s.add(spec{kind: kString + (kInstString-kString)*sym.Choose("inst", 2), name: "m", insts: names3[:2], str: "init"})
	s.add(spec{kind: kString, name: "z", str: "neighbour"})
	b := s.start()
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := string(rune('0' + i))
		b = s.watch(1, b, func() {
			v := sym.String("s"+id, pick("len"+id, 0, 1, 2, 255, 256, 257))
			var err error
			if m, ok := s.objs[1].(*speed.PCPSingletonMetric); ok {
				err = m.Set(v)
			} else {
				err = s.objs[1].(*speed.PCPInstanceMetric).SetInstance(v, names3[sym.Choose("target"+id, 2)])
			}
			s.refresh(1, err != nil)
		})
	}
}

// C05_seq: two metrics of any two of six kinds, a sequence of two (thorough:
// three) set operations with arbitrary values, the target of each being
// either metric and any instance.
func C05_seq() {
	s := newScene("cl")
	s.w.signs = true
	kinds := []int{kInt64, kFloat, kString, kCounter, kInstString, kGaugeVec}
	s.add(spec{kind: kinds[sym.Choose("k1", len(kinds))], name: "m", insts: names3[:2], bits: 3, str: "init"})
	s.add(spec{kind: kinds[sym.Choose("k2", len(kinds))], name: "n", insts: names3[:2], bits: 4, str: "init"})
	b := s.start()
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := string(rune('0' + i))
		t := sym.Choose("target"+id, 2)
		b = s.watch(t, b, func() { s.simple(t, "v"+id) })
	}
}
