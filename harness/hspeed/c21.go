package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// someName is an arbitrary name: 1 to max arbitrary bytes, or a name of 62, 63,
// 64, 82, 255 or 256 bytes with two arbitrary ones at its start and end each.
func someName(id string, max int) string {
	n := sym.Choose(id+".len", max+2)
	if n < max {
		return sym.String(id, n+1)
	}
	l := 60
	if n > max {
		l = pick(id+".long", 61, 62, 80, 253, 254)
	}
	return long(sym.String(id+".a", 2), l) + sym.String(id+".b", 2)
}

// C21_ids: an instance domain with an arbitrary name of 1 to 4 bytes (or of
// 62, 63, 64, 82, 255 or 256 bytes with four arbitrary ones) and one instance with such a name,
// used by a metric with such a name: the ids are in the objects and in the
// file.
func C21_ids() {
	s := newScene("cl")
	name, dom, inst := "metric", "domain", "instance"
	switch max := sym.Bound(4, 7); sym.Choose("which", 3) {
	case 0:
		name = someName("metric", max)
	case 1:
		dom = someName("domain", max)
	case 2:
		inst = someName("instance", max)
	}
	sym.Assume(inst != "other")
	d := &xIndom{name: dom, insts: []string{inst, "other"}}
	in, err := speed.NewPCPInstanceDomain(dom, d.insts)
	halt(err == nil, "a domain can be created with any name")
	req(in.ID() == fnv1a(dom, 22), "the id of an instance domain is the 22 bit hash of its name")
	s.add(spec{kind: kInstance, name: name, indom: in, xin: d, insts: d.insts})
	m := s.objs[0].(speed.Metric)
	req(m.ID() == fnv1a(name, 10), "the id of a metric is the 10 bit hash of its name")
	req(s.objs[0].(*speed.PCPInstanceMetric).Indom() == in && in.ID() == fnv1a(dom, 22), "a metric gives its domain")
	check(s.start(), s.w)
}

// C21_kinds: the ids of every kind of metric, with arbitrary names of up to 2
// bytes, in the object and in the file, together with the ids of the domains
// that vectors and histograms make for themselves.
func C21_kinds() {
	s := newScene("cl")
	k := sym.Choose("kind", nKinds)
	name := sym.String("name", sym.Choose("len", 2)+1)
	s.add(spec{kind: k, name: name, insts: names3[:2], byStr: false})
	m := s.objs[0].(speed.Metric)
	req(m.ID() == fnv1a(name, 10), "the id of a metric is the 10 bit hash of its name")
	req(m.Name() == name, "a metric gives its name")
	check(s.start(), s.w)
}

// C21_client: the cluster id of a client with an arbitrary name of up to 3
// bytes that can be the name of a file.
func C21_client() {
	name := sym.String("name", sym.Choose("len", sym.Bound(3, 4))+1)
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '/' && name[i] != 0)
	}
	sym.Assume(name != "." && name != "..")
	s := newScene(name)
	s.add(spec{kind: kInt32, name: "m"})
	check(s.start(), s.w)
}
