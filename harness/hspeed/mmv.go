// Package hspeed holds the harnesses over the client package.  mmv.go is the
// oracle: an independent reader of the MMV format written from pmdammv(1) and
// mmv(5), which compares a file with what was registered.
package hspeed

import (
	"math"
	"os"
	"path/filepath"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

func req(c bool, msg string) { sym.Assert(c, msg) }

func u32(b []byte, o int) uint32 {
	return uint32(b[o]) | uint32(b[o+1])<<8 | uint32(b[o+2])<<16 | uint32(b[o+3])<<24
}

func u64(b []byte, o int) uint64 { return uint64(u32(b, o)) | uint64(u32(b, o+4))<<32 }

// fnv1a is the 32-bit FNV-1a hash truncated to the given number of bits.
func fnv1a(s string, bits uint) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	if bits >= 32 {
		return h
	}
	return h & (1<<bits - 1)
}

// path of the file of a client.
func path(name string) string { return filepath.Join(os.TempDir(), "mmv", name) }

func readFile(name string) []byte {
	b, err := os.ReadFile(path(name))
	req(err == nil, "the client's file exists and can be read")
	if err != nil {
		sym.Assume(false)
	}
	return b
}

// xIndom and xMetric say what has to be in the file.
type xIndom struct {
	name        string
	insts       []string
	short, long string
}

type xVal struct {
	inst string
	val  interface{}
}

type xMetric struct {
	name        string
	t           speed.MetricType
	sem         speed.MetricSemantics
	unit        uint32
	indom       *xIndom
	short, long string
	vals        []xVal
}

type world struct {
	client  string
	flag    uint32
	indoms  []*xIndom
	metrics []*xMetric
	signs   bool // the values are reported ones: zeros have to agree in sign
}

func (w *world) v2() bool {
	for _, m := range w.metrics {
		if len(m.name) > 63 {
			return true
		}
	}
	for _, d := range w.indoms {
		for _, i := range d.insts {
			if len(i) > 63 {
				return true
			}
		}
	}
	return false
}

type section struct{ count, off, size int }

// mmvFile is a parsed file.
type mmvFile struct {
	b       []byte
	v2      bool
	sec     [6]section // by TOC type
	listed  [6]bool
	used    map[int]bool // string slots already referenced
	nStrRef int
	valAt   map[*xMetric][]int // value records, parallel to vals
}

// num reads a count or offset: in a file written by the client these do not
// depend on symbolic data.
func num(v uint64, max int, msg string) int {
	req(v <= uint64(max), msg)
	if v > uint64(max) {
		sym.Assume(false)
	}
	return sym.Concretize(int(v))
}

func halt(c bool, msg string) {
	req(c, msg)
	if !c {
		sym.Assume(false)
	}
}

// parse checks header, table of contents and layout (C01) and returns the
// sections.
func parse(b []byte, w *world) *mmvFile {
	f := &mmvFile{b: b, used: map[int]bool{}, valAt: map[*xMetric][]int{}}
	halt(len(b) >= 40, "the file holds a header")
	req(b[0] == 'M' && b[1] == 'M' && b[2] == 'V' && b[3] == 0, "header: tag")
	f.v2 = w.v2()
	ver := uint32(1)
	if f.v2 {
		ver = 2
	}
	halt(u32(b, 4) == ver, "header: version 2 exactly if some name is longer than 63 bytes")
	req(u64(b, 8) == u64(b, 16), "header: generations are equal")
	req(u64(b, 8) != 0, "header: generations are not zero")
	ntoc := num(uint64(u32(b, 24)), 5, "header: at most five sections")
	req(u32(b, 28) == w.flag, "header: flags")
	req(u32(b, 32) == uint32(os.Getpid()), "header: process id")
	req(u32(b, 36) == fnv1a(w.client, 12), "header: cluster id")
	halt(len(b) >= 40+16*ntoc, "the table of contents lies in the file")

	sizes := [6]int{0, 32, 80, 104, 32, 256}
	if f.v2 {
		sizes[2], sizes[3] = 24, 48
	}
	total := 40 + 16*ntoc
	for i := 0; i < ntoc; i++ {
		o := 40 + 16*i
		t := num(uint64(u32(b, o)), 5, "toc: section type is known")
		halt(t >= 1, "toc: section type is known")
		halt(!f.listed[t], "toc: a section is listed once")
		f.listed[t] = true
		n := num(uint64(u32(b, o+4)), len(b), "toc: the section lies in the file")
		off := num(u64(b, o+8), len(b), "toc: the section lies in the file")
		f.sec[t] = section{n, off, sizes[t]}
		total += n * sizes[t]
	}
	ni, nv, ns := 0, 0, 0
	for _, d := range w.indoms {
		ni += len(d.insts)
		ns += text(d.short) + text(d.long)
		if f.v2 {
			ns += len(d.insts)
		}
	}
	for _, m := range w.metrics {
		nv += len(m.vals)
		if m.t == speed.StringType {
			ns += len(m.vals)
		}
		if f.v2 {
			ns++
		}
		ns += text(m.short) + text(m.long)
	}
	want := [6]int{0, len(w.indoms), ni, len(w.metrics), nv, ns}
	for t := 1; t <= 5; t++ {
		if t == 3 || t == 4 {
			halt(f.listed[t], "toc: metrics and values are always listed")
		} else {
			halt(f.listed[t] == (want[t] > 0), "toc: a section is listed exactly when it is not empty")
		}
		halt(f.sec[t].count == want[t], "toc: section counts are those of what was registered")
	}
	req(len(b) == total, "the file is exactly as long as its sections need")
	for t := 1; t <= 5; t++ {
		s := f.sec[t]
		if s.count == 0 {
			continue
		}
		end := s.off + s.count*s.size
		halt(s.off >= 40+16*ntoc && end <= len(b), "sections lie behind the table of contents and inside the file")
		for u := 1; u < t; u++ {
			r := f.sec[u]
			if r.count > 0 {
				halt(end <= r.off || r.off+r.count*r.size <= s.off, "sections do not overlap")
			}
		}
	}
	return f
}

func text(s string) int {
	if len(s) > 0 {
		return 1
	}
	return 0
}

// ref checks that off is the start of a record of section t and returns it.
func (f *mmvFile) ref(t int, off uint64, msg string) int {
	o := num(off, len(f.b), msg)
	s := f.sec[t]
	halt(o >= s.off && o < s.off+s.count*s.size && (o-s.off)%s.size == 0, msg)
	return o
}

// str checks that the string slot at off holds exactly want, zero padded, and
// that no other reference uses it.
func (f *mmvFile) str(off uint64, want string, what string) {
	o := f.ref(5, off, what+": the offset is the start of a string slot")
	req(!f.used[o], what+": the string slot is its own")
	f.used[o] = true
	f.nStrRef++
	f.slot(o, 256, want, what)
}

func (f *mmvFile) slot(o, n int, want string, what string) {
	halt(len(want) <= n, what+": the string fits its slot")
	exp := make([]byte, n)
	copy(exp, want)
	req(sym.EqBytes(f.b[o:o+n], exp), what+": the slot holds the string and zero padding")
}

// optional checks a description offset.
func (f *mmvFile) optional(off uint64, want string, what string) {
	if want == "" {
		req(off == 0, what+": offset zero when there is none")
		return
	}
	f.str(off, want, what)
}

// nameEq tells whether a stored name is want.
func (f *mmvFile) nameEq(o int, want string) bool {
	if f.v2 {
		s := f.ref(5, u64(f.b, o), "name: the offset is the start of a string slot")
		return hasName(f.b[s:s+256], want)
	}
	return hasName(f.b[o:o+64], want)
}

func hasName(slot []byte, want string) bool {
	exp := make([]byte, len(slot))
	if len(want) > len(slot) {
		return false
	}
	copy(exp, want)
	return sym.EqBytes(slot, exp)
}

// checkMetrics is C02; it returns the offset of every metric's record.
func (f *mmvFile) checkMetrics(w *world) []int {
	s := f.sec[3]
	b := f.b
	nameLen := 64
	if f.v2 {
		nameLen = 8
	}
	taken := map[int]bool{}
	var at []int
	for _, m := range w.metrics {
		found := -1
		for i := 0; i < s.count; i++ {
			o := s.off + i*s.size
			if !taken[o] && f.nameEq(o, m.name) && u32(b, o+nameLen) == fnv1a(m.name, 10) {
				found = o
				break
			}
		}
		halt(found >= 0, "metric: every registered metric has a record with its name and item id")
		taken[found] = true
		at = append(at, found)
		f.checkMetric(found, m)
	}
	return at
}

func (f *mmvFile) checkMetric(o int, m *xMetric) {
	b := f.b
	if f.v2 {
		f.str(u64(b, o), m.name, "metric name")
		o += 8
	} else {
		f.slot(o, 64, m.name, "metric name")
		o += 64
	}
	req(u32(b, o+4) == uint32(m.t), "metric: type")
	req(u32(b, o+8) == uint32(m.sem), "metric: semantics")
	req(u32(b, o+12) == m.unit, "metric: unit")
	if m.indom == nil {
		req(u32(b, o+16) == 0xffffffff, "metric: no instance domain marker")
	} else {
		req(u32(b, o+16) == fnv1a(m.indom.name, 22), "metric: instance domain id")
	}
	req(u32(b, o+20) == 0, "metric: pad is zero")
	f.optional(u64(b, o+24), m.short, "metric short description")
	f.optional(u64(b, o+32), m.long, "metric long description")
}

// checkIndoms is the first half of C03; it returns the offset of every
// instance record by domain and instance.
func (f *mmvFile) checkIndoms(w *world) map[*xIndom][]int {
	b := f.b
	s := f.sec[1]
	taken := map[int]bool{}
	instTaken := map[int]bool{}
	at := map[*xIndom][]int{}
	for _, d := range w.indoms {
		found := -1
		for i := 0; i < s.count; i++ {
			o := s.off + i*s.size
			if !taken[o] && u32(b, o) == fnv1a(d.name, 22) && int(u32(b, o+4)) == len(d.insts) {
				found = o
				break
			}
		}
		halt(found >= 0, "indom: every registered domain has a record with its id and its number of instances")
		taken[found] = true
		f.optional(u64(b, found+16), d.short, "indom short description")
		f.optional(u64(b, found+24), d.long, "indom long description")
		at[d] = nil
		if len(d.insts) == 0 {
			continue
		}
		start := f.ref(2, u64(b, found+8), "indom: the offset is the start of an instance record")
		sz := f.sec[2].size
		halt(start+len(d.insts)*sz <= f.sec[2].off+f.sec[2].count*sz, "indom: the instances lie in the instances section")
		for _, name := range d.insts {
			io := -1
			for i := range d.insts {
				o := start + i*sz
				if !instTaken[o] && f.nameEq(o+16, name) && u32(b, o+12) == fnv1a(name, 32) {
					io = o
					break
				}
			}
			halt(io >= 0, "instance: every instance of a domain has a record with its name and id in the domain's run")
			instTaken[io] = true
			at[d] = append(at[d], io)
			req(u64(b, io) == uint64(found), "instance: points back at its domain")
			req(u32(b, io+8) == 0, "instance: pad is zero")
			if f.v2 {
				f.str(u64(b, io+16), name, "instance name")
			} else {
				f.slot(io+16, 64, name, "instance name")
			}
		}
	}
	return at
}

// checkValues is C04 and the second half of C03.
func (f *mmvFile) checkValues(w *world, mets []int, insts map[*xIndom][]int) {
	b := f.b
	s := f.sec[4]
	taken := map[int]bool{}
	for k, m := range w.metrics {
		for _, v := range m.vals {
			inst := uint64(0)
			if m.indom != nil {
				inst = uint64(instOffset(m.indom, insts, v.inst))
			}
			found := -1
			for i := 0; i < s.count; i++ {
				o := s.off + i*s.size
				if !taken[o] && u64(b, o+16) == uint64(mets[k]) && u64(b, o+24) == inst {
					found = o
					break
				}
			}
			halt(found >= 0, "value: every metric has a value record for each of its instances")
			taken[found] = true
			f.valAt[m] = append(f.valAt[m], found)
			f.checkValue(found, m.t, v.val)
			if w.signs && m.t != speed.StringType {
				r := raw(m.t, v.val)
				neg := uint64(1) << 63
				if m.t == speed.FloatType {
					neg = 1 << 31
				}
				float := m.t == speed.FloatType || m.t == speed.DoubleType
				req(!float || sym.Or(r&^neg != 0, (u64(b, found)^r)&neg == 0), "value: the record has the sign of the value of the metric")
			}
		}
	}
}

func instOffset(d *xIndom, insts map[*xIndom][]int, name string) int {
	for i, n := range d.insts {
		if n == name {
			return insts[d][i]
		}
	}
	halt(false, "harness: unknown instance")
	return 0
}

func (f *mmvFile) checkValue(o int, t speed.MetricType, val interface{}) {
	b := f.b
	if t == speed.StringType {
		f.str(u64(b, o+8), val.(string), "string value")
		return
	}
	req(sameVal(t, u64(b, o), val), "value: the record decodes to the value of the metric")
}

// sameVal compares the raw value of a record with a value.  Floats are
// compared as numbers, with all NaNs equal.
func sameVal(t speed.MetricType, raw uint64, val interface{}) bool {
	switch t {
	case speed.Int32Type:
		return int32(uint32(raw)) == val.(int32)
	case speed.Uint32Type:
		return uint32(raw) == val.(uint32)
	case speed.Int64Type:
		return int64(raw) == val.(int64)
	case speed.Uint64Type:
		return raw == val.(uint64)
	case speed.FloatType:
		v := val.(float32)
		return sameBits(uint64(uint32(raw)), uint64(math.Float32bits(v)), 0x80000000, 0x7f800000)
	case speed.DoubleType:
		v := val.(float64)
		return sameBits(raw, math.Float64bits(v), 1<<63, 0x7ff<<52)
	}
	return false
}

// sameBits: equal, or both zero, or both NaN.
func sameBits(a, b, sign, inf uint64) bool {
	return sym.Or(a == b, sym.Or(sym.And(a&^sign == 0, b&^sign == 0), sym.And(a&^sign > inf, b&^sign > inf)))
}

// check is the whole oracle.
func check(b []byte, w *world) *mmvFile {
	f := parse(b, w)
	mets := f.checkMetrics(w)
	insts := f.checkIndoms(w)
	f.checkValues(w, mets, insts)
	req(f.nStrRef == f.sec[5].count, "strings: every string slot belongs to something")
	return f
}

// place gives the bytes that hold the k-th value of m.
func (f *mmvFile) place(m *xMetric, k int) (off, size int) {
	o := f.valAt[m][k]
	if m.t == speed.StringType {
		return sym.Concretize(int(u64(f.b, o+8))), 256
	}
	return o, 8
}

// checkRefs checks that all offsets in value records point at records.
func (f *mmvFile) checkRefs(w *world, mets []int, insts map[*xIndom][]int) {
	f.checkValues(w, mets, insts)
	req(f.nStrRef == f.sec[5].count, "strings: every string slot belongs to something")
}
