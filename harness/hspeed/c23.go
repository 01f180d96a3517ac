package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

var instKinds = []int{kInstance, kInstString, kCounterVec, kGaugeVec}

// someInsts gives 1 to max distinct instance names of one arbitrary byte.
func someInsts(id string, max int) []string {
	var l []string
	for i, n := 0, sym.Choose(id+".n", max)+1; i < n; i++ {
		l = append(l, sym.String(id+string(rune('0'+i)), 1))
		for _, o := range l[:i] {
			sym.Assume(l[i] != o)
		}
	}
	return l
}

// poke performs an operation of metric i on an instance, which need not exist;
// it gives the value that has to be there if the operation is accepted.
func (s *scene) poke(i int, inst string, old interface{}) (want interface{}, err error) {
	x := s.w.metrics[i]
	switch m := s.objs[i].(type) {
	case *speed.PCPInstanceMetric:
		v := s.short(x.t, "arg")
		if sym.Choose("op", 2) == 0 {
			return v, m.SetInstance(v, inst)
		}
		return v, must(func() { m.MustSetInstance(v, inst) })
	case *speed.PCPCounterVector:
		v := sym.Int64("arg")
		var o int64
		if old != nil {
			o = old.(int64)
		}
		switch sym.Choose("op", 5) {
		case 0:
			return v, m.Set(v, inst)
		case 1:
			return o + v, m.Inc(v, inst)
		case 2:
			return o + 1, must(func() { m.Up(inst) })
		case 3:
			return v, must(func() { m.MustSet(v, inst) })
		}
		return o + v, must(func() { m.MustInc(v, inst) })
	case *speed.PCPGaugeVector:
		v := someDelta("arg")
		var o float64
		if old != nil {
			o = old.(float64)
		}
		switch sym.Choose("op", 6) {
		case 0:
			v = sym.Float64("arg")
			return v, m.Set(v, inst)
		case 1:
			return o + v, m.Inc(v, inst)
		case 2:
			return o - v, m.Dec(v, inst)
		case 3:
			return v, must(func() { m.MustSet(v, inst) })
		case 4:
			return o + v, must(func() { m.MustInc(v, inst) })
		}
		return o - v, must(func() { m.MustDec(v, inst) })
	}
	panic("not an instance metric")
}

// get reads an instance, which need not exist.
func (s *scene) get(i int, inst string) (interface{}, error) {
	switch m := s.objs[i].(type) {
	case *speed.PCPInstanceMetric:
		return m.ValInstance(inst)
	case *speed.PCPCounterVector:
		return m.Val(inst)
	case *speed.PCPGaugeVector:
		return m.Val(inst)
	}
	panic("not an instance metric")
}

// C23_ops: an instance metric or vector with 1 to 3 instances of arbitrary
// one-byte names and different or the same initial values (strings: also
// empty), never mapped, mapped or stopped again, and one operation
// (thorough: two) with arbitrary arguments on an arbitrary name of up to one
// byte (thorough: two).
func C23_ops() {
	s := newScene("cl")
	k := instKinds[sym.Choose("kind", len(instKinds))]
	p := spec{kind: k, name: "m", insts: someInsts("inst", 3), bits: initial(k, "bits"), str: "init"}
	if len(p.insts) > 1 && sym.Choose("same", 2) == 1 {
		p.same = true
		if k == kInstString && sym.Choose("empty", 2) == 1 {
			p.str = ""
		}
	}
	s.add(p)
	state := sym.Choose("state", 3)
	var before []byte
	if state > 0 {
		before = s.start()
	}
	if state == 2 {
		s.stop()
	}
	s.refresh(0, false)
	x := s.w.metrics[0]
	target := sym.String("target", sym.Choose("target.len", sym.Bound(2, 3)))
	at := -1
	for j, v := range x.vals {
		if v.inst == target {
			at = j
		}
	}
	var old interface{}
	if at >= 0 {
		old = x.vals[at].val
	}
	got, err := s.get(0, target)
	halt((err == nil) == (at >= 0), "reading fails exactly for a name that is not an instance")
	if err == nil {
		req(same(x.t, got, old), "reading gives the value of that instance")
	}
	want, err := s.poke(0, target, old)
	if at < 0 {
		halt(err != nil, "an operation on a name that is not an instance is refused")
	}
	if err == nil {
		x.vals[at].val = want
		got, gerr := s.get(0, target)
		req(gerr == nil && same(x.t, got, want), "the operation has its effect on that instance")
	}
	s.refresh(0, true)
	if state == 1 {
		after := readFile("cl")
		if err != nil {
			req(sym.EqBytes(before, after), "a refused operation does not change the file")
		} else {
			check(after, s.w)
		}
	}
}

// C23_shared: two instance metrics over one domain, or two vectors with the
// same instances: an operation on an instance of one leaves the other alone,
// in the metrics and in the file.
func C23_shared() {
	s := newScene("cl")
	k := instKinds[sym.Choose("kind", len(instKinds))]
	p := spec{kind: k, name: "m", insts: names3[:2], bits: 5, str: "init"}
	if k == kInstance || k == kInstString {
		p.xin = &xIndom{name: "dom", insts: p.insts}
		d, err := speed.NewPCPInstanceDomain("dom", p.insts)
		halt(err == nil, "a domain can be created")
		p.indom = d
	}
	s.add(p)
	p.name, p.bits = "n", 77
	s.add(p)
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	i, j := sym.Choose("metric", 2), sym.Choose("inst", 2)
	x := s.w.metrics[i]
	want, err := s.poke(i, x.vals[j].inst, x.vals[j].val)
	if err == nil {
		x.vals[j].val = want
	}
	s.refresh(0, true)
	s.refresh(1, true)
	if mapped {
		check(readFile("cl"), s.w)
	}
}

// C23_new: an instance metric over a domain of 0 to 2 (thorough: 3) arbitrary
// one-byte names is made from up to 2 (3) values for arbitrary such names,
// each of one of six Go types.
func C23_new() {
	max := sym.Bound(2, 3)
	var l []string
	for i, n := 0, sym.Choose("n", max+1); i < n; i++ {
		l = append(l, sym.String("inst"+string(rune('0'+i)), 1))
		for _, o := range l[:i] {
			sym.Assume(l[i] != o)
		}
	}
	d, err := speed.NewPCPInstanceDomain("d", l)
	halt(err == nil, "a domain can be created")
	vals := speed.Instances{}
	ok := true
	hits := 0
	for i, n := 0, sym.Choose("k", max+2); i < n; i++ {
		id := string(rune('0' + i))
		name := sym.String("key"+id, 1)
		_, dup := vals[name]
		sym.Assume(!dup)
		switch sym.Choose("type"+id, 6) {
		case 0:
			vals[name] = sym.Int64("val" + id)
		case 1:
			vals[name] = sym.Int("val" + id)
		case 2:
			vals[name] = sym.Uint("val" + id)
			ok = false
		case 3:
			vals[name] = "text"
			ok = false
		case 4:
			vals[name] = int32(5)
			ok = false
		case 5:
			vals[name] = nil
			ok = false
		}
		if d.HasInstance(name) {
			hits++
		}
	}
	ok = sym.And(ok, hits == len(l) && len(vals) == len(l))
	m, err := speed.NewPCPInstanceMetric(vals, "m", d, speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
	halt((err == nil) == ok, "an instance metric can be made exactly from one compatible value for every instance")
	if err != nil {
		return
	}
	for _, n := range l {
		got, err := m.ValInstance(n)
		halt(err == nil, "every instance has a value")
		v, is := got.(int64)
		halt(is, "the value of an instance has the type of the metric")
		switch w := vals[n].(type) {
		case int64:
			req(v == w, "every instance has its own value")
		case int:
			req(v == int64(w), "every instance has its own value")
		}
	}
	names := m.Instances()
	req(len(names) == len(l) && subset(names, l) && subset(l, names), "the instances of the metric are those of the domain")
}
