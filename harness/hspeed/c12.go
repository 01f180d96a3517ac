package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// counts compares the counts and the lookups of the registry with what was
// registered.
func (s *scene) counts() {
	r := s.c.Registry()
	w := s.w
	insts, vals := 0, 0
	for _, d := range w.indoms {
		insts += len(d.insts)
		req(r.HasInstanceDomain(d.name), "a registered domain is found")
	}
	for _, m := range w.metrics {
		vals += len(m.vals)
		req(r.HasMetric(m.name), "a registered metric is found")
	}
	req(r.MetricCount() == len(w.metrics), "the number of metrics is that of the registered ones")
	req(r.ValuesCount() == vals, "the number of values is that of the registered metrics")
	req(r.InstanceDomainCount() == len(w.indoms), "the number of domains is that of the registered ones")
	req(r.InstanceCount() == insts, "the number of instances is that of the registered domains")
	req(r.StringCount() == w.strings(), "the number of strings is that of what was registered")
}

// strings is the number of string slots.
func (w *world) strings() int {
	strs := 0
	v2 := w.v2()
	for _, d := range w.indoms {
		strs += text(d.short) + text(d.long)
		if v2 {
			strs += len(d.insts)
		}
	}
	for _, m := range w.metrics {
		strs += text(m.short) + text(m.long)
		if m.t == speed.StringType {
			strs += len(m.vals)
		}
		if v2 {
			strs++
		}
	}
	return strs
}

// lookup checks the lookups of a name.
func (s *scene) lookup(name string) {
	m, d := false, false
	for _, x := range s.w.metrics {
		m = sym.Or(m, x.name == name)
	}
	for _, x := range s.w.indoms {
		d = sym.Or(d, x.name == name)
	}
	r := s.c.Registry()
	req(r.HasMetric(name) == m, "HasMetric tells exactly whether a metric of that name is registered")
	req(r.HasInstanceDomain(name) == d, "HasInstanceDomain tells exactly whether a domain of that name is registered")
}

func (w *world) hasMetric(name string) bool {
	for _, m := range w.metrics {
		if m.name == name {
			return true
		}
	}
	return false
}

func (w *world) domain(name string) *xIndom {
	for _, d := range w.indoms {
		if d.name == name {
			return d
		}
	}
	return nil
}

func subset(a, b []string) bool {
	for _, x := range a {
		in := false
		for _, y := range b {
			if x == y {
				in = true
			}
		}
		if !in {
			return false
		}
	}
	return true
}

// fits tells whether a metric over the domain can be registered.
func (w *world) fits(d *xIndom) bool {
	o := w.domain(d.name)
	return o == nil || len(o.insts) == len(d.insts) && subset(o.insts, d.insts)
}

// ways of registering something.
const (
	wScalar = iota
	wScalarString
	wText
	wInstance
	wInstanceString
	wVector
	wDomain
	wDomainByName
	wHistogram
	nWays
)

var instSets = [][]string{{"a"}, {"a", "bb"}, {"bb", "a"}, {}, {"c", "bb"}}

// attempt is a registration: what is tried and what it adds if accepted.
type attempt struct {
	run func() (speed.Metric, error)
	m   *xMetric
	d   *xIndom
}

// prepare builds a registration of name over the instances; dom is the name of
// the domain of an instance metric.
func (s *scene) prepare(way int, name, dom string, insts []string, desc []string) attempt {
	r := s.c.Registry()
	short, lng := two(desc)
	obj := func(m speed.Metric, err error) func() (speed.Metric, error) {
		halt(err == nil, "a metric can be created")
		return func() (speed.Metric, error) { return m, s.c.Register(m) }
	}
	x := &xMetric{name: name, t: speed.Int64Type, unit: speed.OneUnit.PMAPI(), short: short, long: lng, vals: []xVal{{"", int64(1)}}}
	over := func(d *xIndom) {
		x.indom, x.vals = d, nil
		for _, i := range d.insts {
			x.vals = append(x.vals, xVal{i, int64(1)})
		}
	}
	values := func() speed.Instances {
		v := speed.Instances{}
		for _, i := range insts {
			v[i] = int64(1)
		}
		return v
	}
	switch way {
	case wScalar:
		return attempt{obj(speed.NewPCPSingletonMetric(int64(1), name, speed.Int64Type, 0, speed.OneUnit, desc...)), x, nil}
	case wText:
		x.t, x.vals[0].val = speed.StringType, "txt"
		return attempt{obj(speed.NewPCPSingletonMetric("txt", name, speed.StringType, 0, speed.OneUnit, desc...)), x, nil}
	case wScalarString:
		x.short, x.long = "", ""
		return attempt{func() (speed.Metric, error) {
			return s.c.RegisterString(name, int64(1), speed.Int64Type, 0, speed.OneUnit)
		}, x, nil}
	case wInstance:
		l := lend(insts)
		d, err := speed.NewPCPInstanceDomain(dom, l, desc...)
		halt(err == nil, "a domain can be created")
		reuse(l)
		reuse(d.Instances())
		xd := &xIndom{name: dom, insts: insts, short: short, long: lng}
		over(xd)
		return attempt{obj(speed.NewPCPInstanceMetric(values(), name, d, speed.Int64Type, 0, speed.OneUnit, desc...)), x, xd}
	case wInstanceString:
		str := dom + "["
		for i, n := range insts {
			if i > 0 {
				str += ","
			}
			str += n
		}
		x.name, x.short, x.long = dom+"."+name, "", ""
		xd := &xIndom{name: dom, insts: insts}
		over(xd)
		return attempt{func() (speed.Metric, error) {
			return s.c.RegisterString(str+"]."+name, values(), speed.Int64Type, 0, speed.OneUnit)
		}, x, xd}
	case wVector:
		xd := &xIndom{name: name + ".indom", insts: insts}
		over(xd)
		x.sem = speed.CounterSemantics
		v := map[string]int64{}
		for _, i := range insts {
			v[i] = 1
		}
		return attempt{obj(nilIf(speed.NewPCPCounterVector(v, name, desc...))), x, xd}
	case wDomain:
		l := lend(insts)
		d, err := speed.NewPCPInstanceDomain(dom, l, desc...)
		halt(err == nil, "a domain can be created")
		reuse(l)
		reuse(d.Instances())
		return attempt{func() (speed.Metric, error) { return nil, s.c.RegisterIndom(d) }, nil, &xIndom{name: dom, insts: insts, short: short, long: lng}}
	case wDomainByName:
		return attempt{func() (speed.Metric, error) {
			l := lend(insts)
			_, err := r.AddInstanceDomainByName(dom, l)
			reuse(l)
			return nil, err
		}, nil, &xIndom{name: dom, insts: insts}}
	}
	x.t, x.sem = speed.DoubleType, speed.InstantSemantics
	over(&xIndom{name: "histogram", insts: []string{"min", "max", "mean", "variance", "standard_deviation"}})
	for i := range x.vals {
		x.vals[i].val = float64(0)
	}
	return attempt{obj(nilIf(speed.NewPCPHistogram(name, 0, 100, 1, speed.OneUnit, desc...))), x, x.indom}
}

// allowed tells whether the registration has to be accepted.
func (w *world) allowed(a attempt) bool {
	if a.m == nil {
		return w.domain(a.d.name) == nil
	}
	return !w.hasMetric(a.m.name) && (a.d == nil || w.fits(a.d))
}

// enter records an accepted registration.
func (s *scene) enter(a attempt, m speed.Metric) {
	if a.d != nil {
		d := s.indom(a.d)
		if a.m != nil {
			a.m.indom = d
		}
	}
	if a.m != nil {
		s.w.metrics = append(s.w.metrics, a.m)
		s.objs = append(s.objs, m)
	}
}

// try performs the registration.
func (s *scene) try(a attempt) {
	m, err := a.run()
	halt((err == nil) == s.w.allowed(a), "a registration is accepted exactly when its names are free and its domain is not another one")
	if err == nil {
		s.enter(a, m)
	}
}

// word is an arbitrary lower case letter.
func word(name string) string {
	n := sym.String(name, 1)
	sym.Assume(n[0] >= 'a' && n[0] <= 'z')
	return n
}

// C12_seq: every sequence of two registrations (thorough: three) in every
// way, with arbitrary one-letter names (so that metrics and domains may or may
// not have equal names), one of five lists of instances and 0 to 2
// descriptions: the counts and lookups match what was accepted.
func C12_seq() {
	s := newScene("cl")
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := string(rune('0' + i))
		way := sym.Choose("way"+id, nWays)
		var insts []string
		if way >= wInstance && way != wHistogram {
			insts = instSets[sym.Choose("insts"+id, len(instSets))]
			if way == wInstanceString {
				sym.Assume(len(insts) > 0)
			}
		}
		desc := 0
		if way != wScalarString && way != wInstanceString && way != wDomainByName {
			desc = sym.Choose("desc"+id, sym.Bound(2, 3))
		}
		name, dom := word("name"+id), word("dom"+id)
		s.try(s.prepare(way, name, dom, insts, descs("d", desc)))
		s.counts()
	}
	s.lookup(word("probe"))
}

// C12_descs: a registration in every way, twice, with descriptions of 0 or 2
// arbitrary bytes, equal to each other or to the names or not.
func C12_descs() {
	s := newScene("cl")
	way := sym.Choose("way", nWays)
	for i := 0; i < 2; i++ {
		id := string(rune('0' + i))
		var d []string
		for k, n := 0, sym.Choose("desc"+id, 3); k < n; k++ {
			d = append(d, sym.String("d"+id+string(rune('0'+k)), pick("len"+id+string(rune('0'+k)), 0, 2)))
		}
		insts := []string{"a", "bb"}
		s.try(s.prepare(way, "m"+id, "d"+id, insts, d))
		s.counts()
	}
}

// C12_many: sequences of four registrations in four ways with names out of a
// pool of two.
func C12_many() {
	s := newScene("cl")
	pool := []string{"m", "n"}
	ways := []int{wText, wInstance, wInstanceString, wDomain}
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		id := string(rune('0' + i))
		way := ways[sym.Choose("way"+id, len(ways))]
		name, dom := pool[sym.Choose("name"+id, 2)], "d"
		var insts []string
		if way != wText {
			insts = instSets[sym.Choose("insts"+id, 2)]
		}
		s.try(s.prepare(way, name, dom, insts, descs("d", 1)))
		s.counts()
	}
	s.lookup("m")
	s.lookup("d")
	s.lookup("zz")
}

// C12_long: names on both sides of the version 1 limit: the number of strings
// changes with the version.
func C12_long() {
	s := newScene("cl")
	for i := 0; i < 2; i++ {
		id := string(rune('0' + i))
		way := sym.Choose("way"+id, nWays)
		name, dom := "m"+id, "d"+id
		if sym.Choose("longname"+id, 2) == 1 {
			name = long(name, 64)
		}
		insts := []string{"a", "bb"}
		if sym.Choose("longinst"+id, 2) == 1 {
			insts[1] = long("bb", 70)
		}
		s.try(s.prepare(way, name, dom, insts, nil))
		s.counts()
	}
	f := parse(s.start(), s.w)
	f.checkMetrics(s.w)
	s.counts()
}

// C12_indom: the getters of an instance domain agree with each other and with
// the list it was made from, for lists of up to three arbitrary names of one
// byte, equal or not.
func C12_indom() {
	var l []string
	for i, n := 0, sym.Choose("n", 4); i < n; i++ {
		l = append(l, sym.String("i"+string(rune('0'+i)), 1))
	}
	d, err := speed.NewPCPInstanceDomain("d", l, "s", "l")
	halt(err == nil, "a domain can be created")
	var distinct []string
	for _, a := range l {
		if !subset([]string{a}, distinct) {
			distinct = append(distinct, a)
		}
	}
	req(d.InstanceCount() == len(distinct), "the instances of a domain are counted once")
	got := d.Instances()
	req(len(got) == len(distinct) && subset(got, distinct) && subset(distinct, got), "the instances of a domain are the names it was made from")
	p := sym.String("probe", 1)
	req(d.HasInstance(p) == subset([]string{p}, distinct), "HasInstance tells exactly whether the name is an instance")
	req(d.Name() == "d" && d.Description() == "s\nl" && d.ID() == fnv1a("d", 22), "name, description and id of a domain")
	var m []string
	for i, n := 0, sym.Choose("k", 4); i < n; i++ {
		m = append(m, sym.String("j"+string(rune('0'+i)), 1))
	}
	req(d.MatchInstances(m) == (len(m) == len(distinct) && subset(m, distinct) && subset(distinct, m)), "MatchInstances tells exactly whether the list holds every instance once")
}
