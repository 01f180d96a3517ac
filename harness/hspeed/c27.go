package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

// dumped is what the dump reader makes of a published file.
type dumped struct {
	h         *mmvdump.Header
	tocs      []*mmvdump.Toc
	metrics   map[uint64]mmvdump.Metric
	values    map[uint64]*mmvdump.Value
	instances map[uint64]mmvdump.Instance
	indoms    map[uint64]*mmvdump.InstanceDomain
	strings   map[uint64]*mmvdump.String
}

func dumpFile(b []byte) *dumped {
	d := &dumped{}
	var err error
	d.h, d.tocs, d.metrics, d.values, d.instances, d.indoms, d.strings, err = mmvdump.Dump(b)
	halt(err == nil, "the dump reader accepts a published file")
	return d
}

func padded(b []byte, want string) bool { return hasName(b, want) }

func (d *dumped) text(off uint64, want string) bool {
	if want == "" {
		return off == 0
	}
	s := d.strings[off]
	return s != nil && padded(s.Payload[:], want)
}

func (d *dumped) metricNamed(m mmvdump.Metric, want string) bool {
	switch x := m.(type) {
	case *mmvdump.Metric1:
		return padded(x.Name[:], want)
	case *mmvdump.Metric2:
		s := d.strings[x.Name]
		return s != nil && padded(s.Payload[:], want)
	}
	return false
}

func (d *dumped) instNamed(i mmvdump.Instance, want string) bool {
	switch x := i.(type) {
	case *mmvdump.Instance1:
		return padded(x.External[:], want)
	case *mmvdump.Instance2:
		s := d.strings[x.External]
		return s != nil && padded(s.Payload[:], want)
	}
	return false
}

// agrees compares a dump with what was registered.
func (d *dumped) agrees(w *world) {
	ver := int32(1)
	if w.v2() {
		ver = 2
	}
	req(d.h.Version == ver && d.h.G1 != 0 && uint32(d.h.Cluster) == fnv1a(w.client, 12) && uint32(d.h.Flag) == w.flag, "the dump gives the header")
	vals, insts := 0, 0
	for _, x := range w.indoms {
		insts += len(x.insts)
	}
	halt(len(d.metrics) == len(w.metrics), "the dump gives every metric")
	halt(len(d.indoms) == len(w.indoms) && len(d.instances) == insts, "the dump gives every domain and instance")
	halt(len(d.strings) == w.strings(), "the dump gives every string")
	for _, x := range w.indoms {
		var at uint64
		for off, r := range d.indoms {
			if r.Serial == fnv1a(x.name, 22) {
				at = off
			}
		}
		r := d.indoms[at]
		halt(r != nil, "the dump gives every domain")
		req(int(r.Count) == len(x.insts), "the dump gives the number of instances of a domain")
		req(d.text(r.Shorttext, x.short) && d.text(r.Longtext, x.long), "the dump gives the descriptions of a domain")
		for _, n := range x.insts {
			found := 0
			for _, i := range d.instances {
				if i.Indom() == at && d.instNamed(i, n) {
					found++
					req(uint32(i.Internal()) == fnv1a(n, 32), "the dump gives the id of an instance")
				}
			}
			req(found == 1, "the dump gives every instance of a domain")
		}
	}
	for _, x := range w.metrics {
		var at uint64
		var m mmvdump.Metric
		for off, r := range d.metrics {
			if d.metricNamed(r, x.name) {
				at, m = off, r
			}
		}
		halt(m != nil, "the dump gives every metric by its name")
		req(m.Item() == fnv1a(x.name, 10) && int32(m.Typ()) == int32(x.t) && int32(m.Sem()) == int32(x.sem) && uint32(m.Unit()) == x.unit,
			"the dump gives item, type, semantics and unit of a metric")
		if x.indom == nil {
			req(m.Indom() == mmvdump.NoIndom, "the dump tells that a metric has no domain")
		} else {
			req(uint32(m.Indom()) == fnv1a(x.indom.name, 22), "the dump gives the domain of a metric")
		}
		req(d.text(m.ShortText(), x.short) && d.text(m.LongText(), x.long), "the dump gives the descriptions of a metric")
		for _, v := range x.vals {
			vals++
			found := 0
			for _, r := range d.values {
				if r.Metric != at {
					continue
				}
				if x.indom != nil {
					i := d.instances[r.Instance]
					halt(i != nil, "the dump gives the instance of a value")
					if !d.instNamed(i, v.inst) {
						continue
					}
				}
				found++
				if x.t == speed.StringType {
					s := d.strings[uint64(r.Extra)]
					halt(s != nil, "the dump gives the string of a value")
					req(padded(s.Payload[:], v.val.(string)), "the dump gives the value of a string metric")
					continue
				}
				got, err := mmvdump.FixedVal(r.Val, m.Typ())
				halt(err == nil, "a published value can be decoded")
				halt(goType(x.t, got), "a published value is decoded to the type of its metric")
				req(same(x.t, got, v.val), "the dump gives the value of a metric")
			}
			req(found == 1, "the dump gives one value for every metric and instance")
		}
	}
	req(len(d.values) == vals, "the dump gives no other values")
}

// C27_client: what clients with one metric of any kind and another one of any
// of three kinds, with descriptions or not, in both versions, with arbitrary
// values, publish at Start and after an update.
func C27_client() {
	s := newScene("cl")
	k := sym.Choose("kind", nKinds)
	name := "m"
	if sym.Choose("v2", 2) == 1 {
		name = long(name, 64)
	}
	s.add(spec{kind: k, name: name, insts: names3[:2], bits: initial(k, "bits"), str: sym.String("str", 2), desc: descs("m", sym.Choose("desc", 4))})
	switch sym.Choose("other", 3) {
	case 1:
		s.add(spec{kind: kInstString, name: "n", insts: names3[1:], str: "w"})
	case 2:
		s.add(spec{kind: kHistogram, name: "n", insts: names3[1:], desc: descs("n", 3)})
	}
	dumpFile(s.start()).agrees(s.w)
	s.simple(0, "u")
	dumpFile(readFile("cl")).agrees(s.w)
}
