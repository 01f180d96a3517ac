package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// C32_refused: registries of up to two entries (a metric, an instance metric
// over domain d, a string instance metric over domain d.t), and one
// registration that is refused for each possible reason, of a short name or one of 64 bytes, with arbitrary
// values where they matter; then the counts, the lookups and the published
// file are those of the registry without it, and the names it mentioned can
// still be used.
func C32_refused() {
	s := newScene("cl")
	if sym.Choose("first", 2) == 1 {
		s.try(s.prepare(wText, "m", "", nil, descs("d", 3)))
	}
	pre := sym.Choose("second", 3)
	switch pre {
	case 1:
		s.try(s.prepare(wInstance, "x", "d", []string{"a", "bb"}, descs("d", 1)))
	case 2:
		s.try(s.prepare(wInstanceString, "t", "d", []string{"a"}, nil))
	}
	r := s.c.Registry()
	reg := func(str string, v interface{}, t speed.MetricType) error {
		_, err := s.c.RegisterString(str, v, t, 0, speed.OneUnit)
		return err
	}
	one := func(v interface{}) speed.Instances { return speed.Instances{"c": v} }
	i64 := speed.Int64Type
	// the names of what is refused: short, or too long for version 1
	nm := "n"
	if sym.Choose("long", 2) == 1 {
		nm = long("n", 64)
	}
	var err error
	switch sym.Choose("why", 22) {
	case 0: // not a metric string
		err = reg([]string{"", ".", "n.", ".n", "n[", "n[]", "n[a", "n[a,]", "n[a][b]", "n m", "n-", "n[a]b", "[a]", "[a].n", "n..m", "n[a,,b]"}[sym.Choose("str", 16)], one(int64(1)), i64)
	case 1: // values that the type cannot hold
		v := sym.Int("v")
		sym.Assume(v < 0)
		err = reg(nm, v, speed.Uint32Type)
	case 2:
		err = reg(nm, sym.Uint64("v"), i64)
	case 3:
		err = reg(nm, nil, i64)
	case 4:
		err = reg(nm, int64(1), speed.MetricType(sym.Int32("t")|8))
	case 5:
		err = reg(nm, long("v", 257), speed.StringType)
	case 6:
		err = reg(nm+"[c].t", one(sym.Uint64("v")), i64)
	case 7: // not instances
		err = reg(nm+"[c].t", sym.Int64("v"), i64)
	case 8:
		err = reg(nm+"[c].t", map[string]int64{"c": 1}, i64)
	case 9: // missing, extra and other instances
		err = reg(nm+"[c,d].t", one(int64(1)), i64)
	case 10:
		err = reg(nm+"[c].t", speed.Instances{"c": int64(1), "d": int64(2)}, i64)
	case 11:
		err = reg(nm+"[d].t", one(int64(1)), i64)
	case 12: // names that are too long
		err = reg(long("n", 257), int64(1), i64)
	case 13:
		err = reg(nm+"["+long("c", 257)+"].t", speed.Instances{long("c", 257): int64(1)}, i64)
	case 14:
		err = reg(nm+"[c]."+long("t", 255), one(int64(1)), i64)
	case 15:
		_, err = r.AddInstanceDomainByName(nm, []string{"c", long("c", 257)})
	case 16:
		_, err = r.AddInstanceDomainByName("", []string{"c"})
	case 17: // a free domain but a name that is taken
		sym.Assume(len(s.w.metrics) > 0)
		name := s.w.metrics[0].name
		d, derr := speed.NewPCPInstanceDomain(nm, []string{"c"}, descs("e", sym.Choose("edesc", 4))...)
		halt(derr == nil, "a domain can be created")
		m, merr := speed.NewPCPInstanceMetric(one(int64(1)), name, d, i64, 0, speed.OneUnit, descs("f", sym.Choose("fdesc", 4))...)
		halt(merr == nil, "a metric can be created")
		err = s.c.Register(m)
	case 18: // the same by string: d.t is taken, or m.t
		m, merr := speed.NewPCPCounter(1, nm+".t")
		halt(merr == nil, "a metric can be created")
		halt(s.c.Register(m) == nil, "a metric can be registered")
		s.w.metrics = append(s.w.metrics, &xMetric{name: nm + ".t", t: i64, sem: speed.CounterSemantics, unit: speed.OneUnit.PMAPI(), vals: []xVal{{"", int64(1)}}})
		err = reg(nm+"[c].t", one(int64(1)), i64)
	case 19: // a domain that is another one
		sym.Assume(pre > 0)
		err = reg("d[c].u", one(int64(1)), i64)
	case 20:
		sym.Assume(pre > 0)
		d, derr := speed.NewPCPInstanceDomain("d", []string{"c"}, descs("e", sym.Choose("edesc", 4))...)
		halt(derr == nil, "a domain can be created")
		m, merr := speed.NewPCPInstanceMetric(one(int64(1)), "u", d, i64, 0, speed.OneUnit)
		halt(merr == nil, "a metric can be created")
		if sym.Choose("dom", 2) == 1 {
			err = s.c.RegisterIndom(d)
		} else {
			err = s.c.Register(m)
		}
	case 21: // the panicking form
		err = catch(func() { s.c.MustRegisterString(nm, "text", i64, 0, speed.OneUnit) })
	}
	halt(err != nil, "a registration that cannot be carried out is refused")
	s.counts()
	for _, n := range []string{"n", nm, "u", nm + ".t", "d", "d.u", "d.t", "c", ""} {
		s.lookup(n)
	}
	switch sym.Choose("then", 3) {
	case 1: // the names can still be used
		s.try(s.prepare(wInstanceString, "v", nm, []string{"a", "c"}, nil))
		s.try(s.prepare(wScalarString, "u", "", nil, nil))
	case 2:
		if s.w.domain("d") == nil {
			s.try(s.prepare(wDomain, "", "d", []string{"q"}, nil))
		}
		s.try(s.prepare(wScalar, "n", "", nil, nil))
	}
	s.counts()
	check(s.start(), s.w)
}

// C32_pairs: a registration in every way and then a second one in every way
// over names of a pool that makes many of them clash: if it is refused the
// published file is that of the first alone.
func C32_pairs() {
	s := newScene("cl")
	pool := []string{"m", "d", "d.m"}
	for i := 0; i < 2; i++ {
		id := string(rune('0' + i))
		way := sym.Choose("way"+id, nWays-1)
		name, dom := "m", "d"
		if way < wInstance {
			name = pool[sym.Choose("name"+id, 3)]
		} else {
			dom = pool[sym.Choose("dom"+id, 2)]
		}
		var insts []string
		if way >= wInstance {
			insts = instSets[sym.Choose("insts"+id, 2)]
		}
		if i == 1 && sym.Choose("long", 2) == 1 {
			if way >= wInstance {
				insts = append(insts[:1:1], long("bb", 64))
			} else {
				name = long(name, 64)
			}
		}
		s.try(s.prepare(way, name, dom, insts, descs("d", 1)))
	}
	s.counts()
	check(s.start(), s.w)
}

// C32_long: a first registration in every way but a histogram, with a name of
// 64 bytes or not, or an instance of 64 bytes or not, and then a second one in
// every way with the same name or the same domain or both, with a name of 64
// bytes and an instance of 64 bytes or not: if the second one is refused,
// the version of the file does not change.
func C32_long() {
	s := newScene("cl")
	for i := 0; i < 2; i++ {
		id := string(rune('0' + i))
		way := sym.Choose("way"+id, nWays-1)
		name, dom := "m", "d"
		switch sym.Choose("name"+id, 3) {
		case 1:
			name = long("m", 64)
		case 2:
			dom = long("d", 64)
		}
		var insts []string
		if way >= wInstance {
			insts = instSets[sym.Choose("insts"+id, 2)]
			if sym.Choose("long"+id, 2) == 1 {
				insts = append(insts[:len(insts)-1:len(insts)-1], long("z", 64))
			}
		}
		s.try(s.prepare(way, name, dom, insts, nil))
	}
	s.counts()
	check(s.start(), s.w)
}

// C32_mapped: every way of registering, with short names or one of 64 bytes, while a client is started is refused;
// after Stop the registry is as before.
func C32_mapped() {
	s := newScene("cl")
	s.try(s.prepare(wInstance, "x", "d", []string{"a", "bb"}, nil))
	name, dom, inst := "n", "e", "a"
	switch sym.Choose("long", 4) {
	case 1:
		name = long("n", 64)
	case 2:
		dom = long("e", 64)
	case 3:
		inst = long("a", 64)
	}
	a := s.prepare(sym.Choose("way", nWays), name, dom, []string{inst}, descs("d", sym.Choose("desc", 2)))
	s.start()
	_, err := a.run()
	halt(err != nil, "a registration is refused while the client is started")
	s.counts()
	check(readFile("cl"), s.w)
	s.stop()
	s.counts()
	b := s.start()
	check(b, s.w)
	s.stop()
	s.try(a)
	s.counts()
	check(s.start(), s.w)
}
