package hdump

import (
	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

func req(c bool, msg string) { sym.Assert(c, msg) }

func halt(c bool, msg string) {
	req(c, msg)
	if !c {
		sym.Assume(false)
	}
}

func u32(b []byte, o int) uint32 {
	return uint32(b[o]) | uint32(b[o+1])<<8 | uint32(b[o+2])<<16 | uint32(b[o+3])<<24
}

func u64(b []byte, o int) uint64 { return uint64(u32(b, o)) | uint64(u32(b, o+4))<<32 }

// result of Dump.
type result struct {
	h         *mmvdump.Header
	tocs      []*mmvdump.Toc
	metrics   map[uint64]mmvdump.Metric
	values    map[uint64]*mmvdump.Value
	instances map[uint64]mmvdump.Instance
	indoms    map[uint64]*mmvdump.InstanceDomain
	strings   map[uint64]*mmvdump.String
	err       error
}

func dump(b []byte) *result {
	r := &result{}
	r.h, r.tocs, r.metrics, r.values, r.instances, r.indoms, r.strings, r.err = mmvdump.Dump(b)
	return r
}

// touch reads the ends of every record, so that an access outside the data is
// noticed.
func (r *result) touch() int {
	var sum uint64
	sum += uint64(r.h.Magic[0]) + uint64(r.h.Cluster)
	for _, t := range r.tocs {
		sum += uint64(t.Type) + t.Offset
	}
	for _, m := range r.metrics {
		sum += uint64(m.Item()) + m.LongText()
		if x, ok := m.(*mmvdump.Metric1); ok {
			sum += uint64(x.Name[0]) + uint64(x.Name[63])
		} else {
			sum += m.(*mmvdump.Metric2).Name
		}
	}
	for _, v := range r.values {
		sum += v.Val + v.Instance
	}
	for _, i := range r.instances {
		sum += i.Indom()
		if x, ok := i.(*mmvdump.Instance1); ok {
			sum += uint64(x.External[0]) + uint64(x.External[63])
		} else {
			sum += i.(*mmvdump.Instance2).External
		}
	}
	for _, d := range r.indoms {
		sum += uint64(d.Serial) + d.Longtext
	}
	for _, s := range r.strings {
		sum += uint64(s.Payload[0]) + uint64(s.Payload[255])
	}
	return int(sum)
}

// total checks one call of Dump.
func total(b []byte) *result {
	before := sym.Allocated()
	r := dump(b)
	req(sym.Allocated()-before <= 1<<20+4096*len(b), "the work of Dump is limited by the size of the data")
	req(sym.Leaked() == 0, "Dump leaves no goroutine behind")
	if r.err != nil {
		req(r.h == nil && r.tocs == nil && r.metrics == nil && r.values == nil && r.instances == nil && r.indoms == nil && r.strings == nil,
			"Dump returns either an error or a result")
		return nil
	}
	halt(r.h != nil && len(b) >= 40, "Dump returns either an error or a result")
	req(b[0] == 'M' && b[1] == 'M' && b[2] == 'V', "a file with a bad tag is refused")
	req(u64(b, 8) == u64(b, 16), "a file with unequal generations is refused")
	r.touch()
	return r
}

// C26_one: every byte slice of up to 100 bytes (thorough: 300) with at most
// one table of contents entry if it gets that far.
func C26_one() {
	sym.AllocLimit(4096)
	b := sym.Buf("b", sym.Bound(100, 320))
	if len(b) >= 40 {
		sym.Assume(int32(u32(b, 24)) <= 1 || int32(u32(b, 24)) > 64)
	}
	total(b)
}

// C26_sections: every byte slice of up to 150 bytes (thorough: 200) with at
// most two entries in the table of contents (thorough: three), that refer to
// anything.
func C26_sections() {
	sym.AllocLimit(4096)
	b := sym.Buf("b", sym.Bound(150, 200))
	if len(b) >= 40 {
		sym.Assume(int32(u32(b, 24)) <= int32(sym.Bound(2, 3)) || int32(u32(b, 24)) > 64)
	}
	total(b)
}

// C26_strings: every byte slice of up to 600 bytes with one entry in the
// table of contents, so that there is room for strings.
func C26_strings() {
	sym.AllocLimit(4096)
	b := sym.Buf("b", sym.Bound(600, 900))
	if len(b) >= 40 {
		sym.Assume(u32(b, 24) == 1)
	}
	if len(b) >= 56 {
		sym.Assume(u32(b, 40) == uint32(mmvdump.TocStrings))
	}
	total(b)
}

// header writes a header with n table of contents entries of the given types
// and counts, whose sections all begin after the table, and returns the file
// with arbitrary contents.
func laid(name string, version int, size int, types []mmvdump.TocType, counts []int) []byte {
	b := sym.Bytes(name, size)
	put32(b, 0, 'M'|'M'<<8|'V'<<16)
	put32(b, 4, uint32(version))
	copy(b[16:24], b[8:16])
	put32(b, 24, uint32(len(types)))
	off := 40 + 16*len(types)
	for i, t := range types {
		put32(b, 40+16*i, uint32(t))
		put32(b, 44+16*i, uint32(counts[i]))
		put32(b, 48+16*i, uint32(off))
		put32(b, 52+16*i, 0)
		off += counts[i] * itemSize(t, version)
	}
	return b
}

func put32(b []byte, o int, v uint32) {
	for i := 0; i < 4; i++ {
		b[o+i] = byte(v >> (8 * i))
	}
}

func itemSize(t mmvdump.TocType, version int) int {
	switch t {
	case mmvdump.TocInstances:
		if version == 1 {
			return 80
		}
		return 24
	case mmvdump.TocMetrics:
		if version == 1 {
			return 104
		}
		return 48
	case mmvdump.TocStrings:
		return 256
	}
	return 32
}

// C26_schedule: Dump of a file with two sections of one or two items each
// under every schedule of its goroutines, the second section inside the file
// or cut off by the end of it: no deadlock, no data race, and the same outcome
// under every schedule.
func C26_schedule() {
	v := sym.Choose("version", 2) + 1
	all := []mmvdump.TocType{mmvdump.TocIndoms, mmvdump.TocInstances, mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	i := sym.Choose("first", 5)
	j := sym.Choose("second", 5)
	types := []mmvdump.TocType{all[i], all[j]}
	counts := []int{sym.Choose("n", 2) + 1, 1}
	cut := sym.Choose("cut", 2)
	size := 40 + 32 + counts[0]*itemSize(types[0], v) + counts[1]*itemSize(types[1], v) - cut
	b := laid("b", v, size, types, counts)
	sym.Schedule(-1)
	r := total(b)
	req((r == nil) == (cut == 1 || i == j), "the outcome of Dump does not depend on the schedule")
	if r != nil {
		req(len(r.metrics)+len(r.values)+len(r.instances)+len(r.indoms)+len(r.strings) == counts[0]+counts[1], "every record is returned under every schedule")
	}
}

// C26_repeat: Dump of a file with three sections of one item each, of every
// three types: no data race, and the file is refused exactly if two of the
// sections have the same type, next to each other or apart.
func C26_repeat() {
	v := sym.Choose("version", 2) + 1
	all := []mmvdump.TocType{mmvdump.TocIndoms, mmvdump.TocInstances, mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	size := 40 + 3*16
	var types []mmvdump.TocType
	var k [3]int
	for i, id := range []string{"first", "second", "third"} {
		k[i] = sym.Choose(id, 5)
		types = append(types, all[k[i]])
		size += itemSize(all[k[i]], v)
	}
	r := total(laid("b", v, size, types, []int{1, 1, 1}))
	req((r == nil) == (k[0] == k[1] || k[0] == k[2] || k[1] == k[2]), "a file is refused exactly if it has two sections of the same type")
	if r != nil {
		req(len(r.metrics)+len(r.values)+len(r.instances)+len(r.indoms)+len(r.strings) == 3, "every record is returned")
	}
}

// C26_large: a file with 300 records of one section and 1 of the others, or
// one that ends before the last byte of it.
func C26_large() {
	b, _ := crowd(300)
	cut := sym.Choose("cut", 2)
	r := total(b[:len(b)-cut])
	req((r == nil) == (cut == 1), "a file is refused exactly if it ends before its last record")
}
