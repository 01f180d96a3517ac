package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// C07_order: three registrations in a fixed set of ways (every scalar or
// vector constructor, domain object, domain by name, metric string), each
// with a name of 1, 62, 63, 64 or 256 bytes, or 65 bytes
// that are fewer characters: version 2 exactly when a name of
// a metric or an instance is longer than 63 bytes.
func C07_order() {
	s := newScene("cl")
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := string(rune('0' + i))
		l := pick("len"+id, 1, 62, 63, 64, 256, 65)
		name := long("abcdef"[i:i+1], l)
		if l == 65 {
			name = name[:1] + filled(l-1, "\u00e9")
		}
		insts := []string{"x", name}
		switch sym.Choose("way"+id, 8) {
		case 0: // long metric name
			s.add(spec{kind: kInt32, name: name})
		case 1: // a domain with a long instance
			s.domain("dom"+id, insts)
		case 2:
			_, err := s.c.Registry().AddInstanceDomainByName("dom"+id, insts)
			halt(err == nil, "a domain can be registered by name")
			s.indom(&xIndom{name: "dom" + id, insts: insts})
		case 3: // a domain that comes with a metric
			s.add(spec{kind: kInstance, name: "m" + id, insts: insts})
		case 4: // strings
			s.add(spec{kind: kInt64, name: name, byStr: true})
		case 5:
			s.add(spec{kind: kInstance, name: "m" + id, insts: insts, byStr: true})
		case 6:
			s.add(spec{kind: kCounterVec, name: "m" + id, insts: insts})
		case 7: // long metric and domain names with short instances
			if l > 250 {
				name = name[:250]
			}
			s.add(spec{kind: kGaugeVec, name: name, insts: names3[:2]})
		}
	}
	f := parse(s.start(), s.w)
	f.checkMetrics(s.w)
	f.checkIndoms(s.w)
}

// C07_names: a metric name and an instance name of every length from 60 to
// 66 bytes with arbitrary bytes; a refused registration of a long name does
// not count.
func C07_names() {
	s := newScene("cl")
	ml, il := 60+sym.Choose("mlen", 7), 60+sym.Choose("ilen", 7)
	mn, in := sym.String("mname", ml), sym.String("iname", il)
	sym.Assume(in[0] != 'x')
	s.add(spec{kind: kInt32, name: "m"})
	switch sym.Choose("refused", 3) {
	case 1:
		m, err := speed.NewPCPCounter(1, "m")
		halt(err == nil, "a metric can be created")
		req(s.c.Register(m) != nil, "a metric name is registered once")
	case 2:
		dom, err := speed.NewPCPInstanceDomain("dom", []string{long("i", 64)})
		halt(err == nil, "a domain can be created")
		m, err := speed.NewPCPInstanceMetric(speed.Instances{long("i", 64): 1}, "m", dom, speed.Int64Type, speed.NoSemantics, speed.OneUnit)
		halt(err == nil, "a metric can be created")
		req(s.c.Register(m) != nil, "a metric name is registered once")
	}
	s.add(spec{kind: kInstance, name: mn, xin: nil, insts: []string{in, "x"}})
	f := parse(s.start(), s.w)
	f.checkMetrics(s.w)
	f.checkIndoms(s.w)
}
