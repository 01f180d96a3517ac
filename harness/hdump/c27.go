package hdump

import (
	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

func u32at(b []byte, o uint64) uint32 { return u32(b, int(o)) }
func u64at(b []byte, o uint64) uint64 { return u64(b, int(o)) }

func eqName(got [64]byte, b []byte, o uint64) bool { return sym.EqBytes(got[:], b[o:o+64]) }

// faithful compares a result with the bytes it was made from.
func (r *result) faithful(b []byte) {
	h := r.h
	req(sym.EqBytes(h.Magic[:], b[:4]), "header: magic")
	req(uint32(h.Version) == u32(b, 4), "header: version")
	req(h.G1 == u64(b, 8) && h.G2 == u64(b, 16), "header: generations")
	req(uint32(h.Toc) == u32(b, 24), "header: number of sections")
	req(uint32(h.Flag) == u32(b, 28), "header: flags")
	req(uint32(h.Process) == u32(b, 32), "header: process")
	req(uint32(h.Cluster) == u32(b, 36), "header: cluster")
	halt(len(r.tocs) == int(int32(u32(b, 24))), "every entry of the table of contents is returned")
	seen := map[mmvdump.TocType]bool{}
	for i, t := range r.tocs {
		o := 40 + 16*i
		req(uint32(t.Type) == u32(b, o) && uint32(t.Count) == u32(b, o+4) && t.Offset == u64(b, o+8), "table of contents entry")
		seen[t.Type] = true
		n := int(t.Count)
		at := func(k, size int) uint64 { return t.Offset + uint64(k*size) }
		v := int(h.Version)
		switch t.Type {
		case mmvdump.TocIndoms:
			halt(len(r.indoms) == n, "a section has as many records as announced")
			for k := 0; k < n; k++ {
				o := at(k, 32)
				d := r.indoms[o]
				halt(d != nil, "every record is keyed by its offset")
				req(d.Serial == u32at(b, o) && d.Count == u32at(b, o+4), "instance domain: serial and count")
				req(d.Offset == u64at(b, o+8) && d.Shorttext == u64at(b, o+16) && d.Longtext == u64at(b, o+24), "instance domain: offsets")
			}
		case mmvdump.TocInstances:
			halt(len(r.instances) == n, "a section has as many records as announced")
			for k := 0; k < n; k++ {
				o := at(k, itemSize(t.Type, v))
				x := r.instances[o]
				halt(x != nil, "every record is keyed by its offset")
				req(x.Indom() == u64at(b, o), "instance: domain")
				req(x.Padding() == u32at(b, o+8) && uint32(x.Internal()) == u32at(b, o+12), "instance: padding and id")
				if v == 1 {
					i1, ok := x.(*mmvdump.Instance1)
					halt(ok, "the records have the form of the version")
					req(eqName(i1.External, b, o+16), "instance: name")
				} else {
					i2, ok := x.(*mmvdump.Instance2)
					halt(ok, "the records have the form of the version")
					req(i2.External == u64at(b, o+16), "instance: name")
				}
			}
		case mmvdump.TocMetrics:
			halt(len(r.metrics) == n, "a section has as many records as announced")
			for k := 0; k < n; k++ {
				o := at(k, itemSize(t.Type, v))
				x := r.metrics[o]
				halt(x != nil, "every record is keyed by its offset")
				if v == 1 {
					m1, ok := x.(*mmvdump.Metric1)
					halt(ok, "the records have the form of the version")
					req(eqName(m1.Name, b, o), "metric: name")
					o += 64
				} else {
					m2, ok := x.(*mmvdump.Metric2)
					halt(ok, "the records have the form of the version")
					req(m2.Name == u64at(b, o), "metric: name")
					o += 8
				}
				req(x.Item() == u32at(b, o), "metric: item")
				req(uint32(x.Typ()) == u32at(b, o+4), "metric: type")
				req(uint32(x.Sem()) == u32at(b, o+8), "metric: semantics")
				req(uint32(x.Unit()) == u32at(b, o+12), "metric: unit")
				req(uint32(x.Indom()) == u32at(b, o+16), "metric: domain")
				req(x.Padding() == u32at(b, o+20), "metric: padding")
				req(x.ShortText() == u64at(b, o+24) && x.LongText() == u64at(b, o+32), "metric: descriptions")
			}
		case mmvdump.TocValues:
			halt(len(r.values) == n, "a section has as many records as announced")
			for k := 0; k < n; k++ {
				o := at(k, 32)
				x := r.values[o]
				halt(x != nil, "every record is keyed by its offset")
				req(x.Val == u64at(b, o) && uint64(x.Extra) == u64at(b, o+8), "value: value and extra")
				req(x.Metric == u64at(b, o+16) && x.Instance == u64at(b, o+24), "value: metric and instance")
			}
		case mmvdump.TocStrings:
			halt(len(r.strings) == n, "a section has as many records as announced")
			for k := 0; k < n; k++ {
				o := at(k, 256)
				x := r.strings[o]
				halt(x != nil, "every record is keyed by its offset")
				req(sym.EqBytes(x.Payload[:], b[o:o+256]), "string")
			}
		default:
			req(false, "only known sections are accepted")
		}
	}
	for t, n := range map[mmvdump.TocType]int{
		mmvdump.TocIndoms: len(r.indoms), mmvdump.TocInstances: len(r.instances), mmvdump.TocMetrics: len(r.metrics),
		mmvdump.TocValues: len(r.values), mmvdump.TocStrings: len(r.strings)} {
		req(n == 0 || seen[t], "there are no records of sections that the table of contents does not list")
	}
}

// C27_one: every byte slice of up to 296 bytes (thorough: 600) that Dump
// accepts with one section.
func C27_one() {
	b := sym.Buf("b", sym.Bound(296, 600))
	sym.Assume(len(b) >= 56 && u32(b, 24) <= 1)
	if r := dump(b); r.err == nil {
		r.faithful(b)
	}
}

// C27_two: every byte slice of up to 108 bytes (thorough: 150) that Dump
// accepts with two sections anywhere in the file.
func C27_two() {
	b := sym.Buf("b", sym.Bound(108, 150))
	sym.Assume(len(b) >= 72 && u32(b, 24) == 2)
	if r := dump(b); r.err == nil {
		r.faithful(b)
	}
}

// C27_all: well-formed files of all five sections in the order of one of five
// rotations, with 0 or 1 records each (0 or 2 values; thorough: up to 2 each),
// arbitrary apart from the table of contents: they are accepted and every
// record is returned.
func C27_all() {
	v := sym.Choose("version", 2) + 1
	all := []mmvdump.TocType{mmvdump.TocIndoms, mmvdump.TocInstances, mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	k := sym.Choose("rotation", 5)
	types := append(append([]mmvdump.TocType{}, all[k:]...), all[:k]...)
	var counts []int
	size := 40 + 16*5
	for i, t := range types {
		n := sym.Choose("n"+string(rune('0'+i)), sym.Bound(2, 3))
		if !sym.Thorough() && t == mmvdump.TocValues {
			n *= 2
		}
		counts = append(counts, n)
		size += n * itemSize(t, v)
	}
	b := laid("b", v, size, types, counts)
	r := dump(b)
	halt(r.err == nil, "a well-formed file is accepted")
	r.faithful(b)
}

// C27_large: a file of all five sections with 300 records of one of them and
// 1 of the others, in both versions, the first, the last and one more record
// of the large section arbitrary.
func C27_large() {
	b, _ := crowd(300)
	r := dump(b)
	halt(r.err == nil, "a well-formed file is accepted")
	r.faithful(b)
}

// crowd is a file with n records of one section and 1 of the others.
func crowd(n int) ([]byte, []int) {
	v := sym.Choose("version", 2) + 1
	all := []mmvdump.TocType{mmvdump.TocIndoms, mmvdump.TocInstances, mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	counts := []int{1, 1, 1, 1, 1}
	big := sym.Choose("big", 5)
	counts[big] = n
	size, at := 40+16*5, 0
	for i, t := range all {
		if i == big {
			at = size
		}
		size += counts[i] * itemSize(t, v)
	}
	b := laid("b", v, size, all, counts)
	w := itemSize(all[big], v)
	for k := 0; k < n; k++ {
		if k == 0 || k == n/2 || k == n-1 {
			continue
		}
		for i := at + k*w; i < at+(k+1)*w; i++ {
			b[i] = byte(i + k)
		}
	}
	return b, counts
}
