package hspeed

import (
	"strconv"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// words gives n instance names.
func words(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "w"+strconv.Itoa(i))
	}
	return l
}

// crowd adds n metrics of every kind in turn, with and without descriptions,
// those with instances over domains of 1, 2 or wide instances; the last one
// has a name for version 2, if v2.
func (s *scene) crowd(n, wide int, v2 bool) {
	for i := 0; i < n; i++ {
		k := i % nKinds
		name := "m" + strconv.Itoa(i)
		if v2 && i == n-1 {
			name = long(name, 64)
		}
		insts := names3[:1+i%2]
		if i < nKinds {
			insts = words(wide)
		}
		s.add(spec{kind: k, name: name, insts: insts, bits: uint64(i), str: "v" + strconv.Itoa(i), desc: descs("d"+strconv.Itoa(i), i%4)})
	}
}

// large is a started client with 75 metrics, one domain of each of 40
// instances per kind that has them, in either version.
func large() (*scene, []byte) {
	s := newScene("cl")
	s.crowd(75, 40, sym.Choose("v2", 2) == 1)
	return s, s.start()
}

// C01_large: a file of 75 metrics and 4 domains of 40 instances among 21.
func C01_large() {
	s, b := large()
	check(b, s.w)
}

// C02_large: the metrics of a file of 75 metrics.
func C02_large() {
	s, b := large()
	check(b, s.w)
}

// C03_large: the domains of a file with 4 domains of 40 instances among 21.
func C03_large() {
	s, b := large()
	check(b, s.w)
}

// C04_large: the values of a file with more than 200 of them.
func C04_large() {
	s, b := large()
	check(b, s.w)
}

// C05_large: an update with an arbitrary value of one metric of each kind in
// a file of 75 metrics.
func C05_large() {
	s := newScene("cl")
	s.w.signs = true
	s.crowd(75, 40, false)
	b := s.start()
	i := 60 + sym.Choose("kind", nKinds)
	s.watch(i, b, func() { s.bump(i, 100) })
}

// C09_large: Start of 75 metrics under the default schedule, checked for
// races and deadlocks.
func C09_large() {
	s, b := large()
	check(b, s.w)
}

// C10_large: a client with 75 metrics is stopped and started again.
func C10_large() {
	s, b := large()
	check(b, s.w)
	s.stop()
	s.bump(60+sym.Choose("kind", nKinds), 100)
	check(s.start(), s.w)
	s.stop()
}

// C12_large: the counts after each of 60 registrations.
func C12_large() {
	s := newScene("cl")
	for i := 0; i < 60; i++ {
		name := "m" + strconv.Itoa(i)
		s.add(spec{kind: i % nKinds, name: name, insts: names3[:1+i%3], desc: descs("d", i%4)})
		if i%7 == 0 {
			s.domain("dom"+strconv.Itoa(i), words(i))
		}
		s.counts()
	}
	s.lookup("zz")
}

// C16_large: the operations on all instances of a vector of 40.
func C16_large() {
	s := newScene("cl")
	s.add(spec{kind: kGaugeVec, name: "m", insts: words(40), bits: 0, same: true})
	if sym.Choose("started", 2) == 1 {
		s.start()
	}
	g := s.objs[0].(*speed.PCPGaugeVector)
	d := float64(sym.Choose("d", 3)*3 - 3)
	g.SetAll(7)
	g.IncAll(d)
	g.DecAll(2)
	for _, n := range words(40) {
		v, err := g.Val(n)
		req(err == nil && v == 5+d, "the all-instances forms act on every instance once")
	}
}

// C22_large: a metric string of 30 words before the list, up to 40 instances
// and 10 words after the list.
func C22_large() {
	str := "a"
	for i := 1; i < 30; i++ {
		str += ".b" + strconv.Itoa(i)
	}
	if n := pick("n", 0, 1, 17, 40); n > 0 {
		str += "["
		for i, w := range words(n) {
			if i > 0 {
				str += []string{",", ", "}[i%2]
			}
			str += w
		}
		str += "]"
		for i := 0; i < 10; i++ {
			str += ".c" + strconv.Itoa(i)
		}
	}
	scan(str).register()
}

// C23_large: one instance of 40 is set to an arbitrary value.
func C23_large() {
	s := newScene("cl")
	kinds := []int{kInstance, kCounterVec, kGaugeVec}
	s.add(spec{kind: kinds[sym.Choose("kind", len(kinds))], name: "m", insts: words(40), bits: 0})
	b := s.start()
	s.watch(0, b, func() {
		i := pick("target", 0, 1, 19, 39)
		x := s.w.metrics[0]
		inst := x.vals[i].inst
		var err error
		switch m := s.objs[0].(type) {
		case *speed.PCPInstanceMetric:
			err = m.SetInstance(sym.Int64("v"), inst)
		case *speed.PCPCounterVector:
			err = m.Set(sym.Int64("v"), inst)
		case *speed.PCPGaugeVector:
			err = m.Set(sym.Float64("v"), inst)
		}
		old := append([]xVal{}, x.vals...)
		s.refresh(0, err != nil)
		for k := range old {
			req(k == i || same(x.t, old[k].val, x.vals[k].val), "an operation on one instance changes no other")
		}
	})
}

// C31_large: ten clients with a metric each, started one after the other and
// stopped in the order or its reverse; each file shows its own client.
func C31_large() {
	var all []*scene
	for i := 0; i < 10; i++ {
		s := newScene("c" + strconv.Itoa(i))
		s.add(spec{kind: i % nKinds, name: "m", insts: words(1 + i), bits: uint64(i), str: strconv.Itoa(i)})
		all = append(all, s)
		s.start()
	}
	back := sym.Choose("back", 2) == 1
	for i := range all {
		for _, s := range all[i:] {
			check(readFile(s.w.client), s.w)
		}
		if back {
			j := len(all) - 1
			all[i], all[j] = all[j], all[i]
		}
		all[i].stop()
	}
}
