package hdump

import (
	"bytes"
	"errors"
	"strconv"

	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

// sink collects what is printed; it fails after some writes.
type sink struct {
	b     []byte
	fails int // the write that fails, 0: none
	n     int
}

var errSink = errors.New("no space")

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	if s.n == s.fails {
		return 0, errSink
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

func (r *result) print(w *sink) error {
	return mmvdump.Write(w, r.h, r.tocs, r.metrics, r.values, r.instances, r.indoms, r.strings)
}

// C28_any: printing what Dump makes of any byte slice of up to 200 bytes with
// at most one section (thorough: of up to 400 bytes, and of up to 104 bytes
// with two sections): never a panic.  Units have no dimension (C29 prints
// units).
func C28_any() {
	n, max := sym.Choose("sections", sym.Bound(2, 3)), sym.Bound(200, 400)
	if n == 2 {
		max = 104
	}
	b := sym.Buf("b", max)
	sym.Assume(len(b) >= 40 && u32(b, 24) == uint32(n))
	if r := dump(b); r.err == nil {
		r.plain(n == 2)
		r.print(&sink{})
	}
}

// plain leaves units to C29: those printed here have no dimension; plainer
// metrics are counters without a long description.
func (r *result) plain(plainer bool) {
	for _, m := range r.metrics {
		sym.Assume(m.Unit()>>20 == 0)
		if plainer {
			sym.Assume(sym.And(m.Sem() == mmvdump.CounterSemantics, m.LongText() == 0))
		}
	}
}

func has(out []byte, s string) bool { return bytes.Contains(out, []byte(s)) }

// listed requires that every entry and every record is in the output.
func (r *result) listed(out []byte) {
	for i, t := range r.tocs {
		req(has(out, "TOC["+strconv.Itoa(i)+"]"), "every table of contents entry is printed")
		o := int(t.Offset)
		for k := 0; k < int(t.Count); k++ {
			n := strconv.Itoa(o + k*itemSize(t.Type, int(r.h.Version)))
			req(has(out, "/"+n+"]") || has(out, "["+n+"]"), "every record is printed")
		}
	}
}

// texts counts the names and texts that the output has to show.
func (r *result) texts() int {
	n := len(r.strings)
	text := func(off uint64) {
		if off != 0 {
			n++
		}
	}
	for _, d := range r.indoms {
		text(d.Shorttext)
		text(d.Longtext)
	}
	for _, m := range r.metrics {
		n++
		text(m.ShortText())
		text(m.LongText())
	}
	for _, v := range r.values {
		n++
		if m, ok := r.metrics[v.Metric]; ok {
			if m.Indom() != mmvdump.NoIndom && m.Indom() != 0 {
				n++
			}
			if m.Typ() == mmvdump.StringType {
				n++
			}
		}
	}
	return n + len(r.instances)
}

// name fills a name or string with n and ends it.
func name(b []byte) {
	for i := range b {
		b[i] = 0
	}
	b[0], b[1] = 'n', 'm'
}

// C28_laid: files with the five sections, in one order per version, of 0 or 1
// records each (2 values), with arbitrary numbers and references, units
// without a dimension and, in the quick tier, counter semantics and no long
// description of the metric: printing returns an error or lists everything.
func C28_laid() {
	v := sym.Choose("version", 2) + 1
	all := []mmvdump.TocType{mmvdump.TocIndoms, mmvdump.TocInstances, mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	if v == 2 {
		all = []mmvdump.TocType{mmvdump.TocStrings, mmvdump.TocValues, mmvdump.TocInstances, mmvdump.TocMetrics, mmvdump.TocIndoms}
	}
	counts := make([]int, 5)
	size := 40 + 16*5
	for i, t := range all {
		counts[i] = sym.Choose("n"+string(rune('0'+i)), 2)
		if t == mmvdump.TocValues && sym.Thorough() {
			counts[i] *= 2
		}
		size += counts[i] * itemSize(t, v)
	}
	b := laid("b", v, size, all, counts)
	o := 40 + 16*5
	for i, t := range all {
		for k := 0; k < counts[i]; k++ {
			switch {
			case t == mmvdump.TocStrings:
				name(b[o : o+256])
			case t == mmvdump.TocMetrics && v == 1:
				name(b[o : o+64])
			case t == mmvdump.TocInstances && v == 1:
				name(b[o+16 : o+80])
			}
			o += itemSize(t, v)
		}
	}
	r := dump(b)
	halt(r.err == nil, "a well-formed file is accepted")
	r.plain(!sym.Thorough())
	w := &sink{}
	if err := r.print(w); err == nil {
		r.listed(w.b)
		req(bytes.Count(w.b, []byte("nm")) >= r.texts(), "every record is printed with the names and texts it refers to")
	}
}

// C28_sink: the writer fails at any of its first 12 writes: printing returns
// an error and no further output is attempted.
func C28_sink() {
	all := []mmvdump.TocType{mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	counts := []int{1, 1, 1}
	b := laid("b", 1, 40+48+104+32+256, all, counts)
	name(b[88 : 88+64])
	name(b[224 : 224+256])
	put32(b, 88+64, 7)
	put32(b, 88+68, 2)
	put32(b, 88+72, 1)
	put32(b, 88+76, 0)
	put32(b, 88+80, 0xffffffff)
	put32(b, 88+84, 0)
	for i := 88 + 88; i < 88+104; i++ {
		b[i] = 0
	}
	put32(b, 192, 5)
	put32(b, 196, 0)
	put32(b, 208, 88)
	put32(b, 212, 0)
	r := dump(b)
	halt(r.err == nil, "a well-formed file is accepted")
	w := &sink{}
	halt(r.print(w) == nil, "a consistent file can be printed")
	r.listed(w.b)
	req(has(w.b, "nm") && has(w.b, "= 5"), "a metric is printed with its value")
	f := &sink{fails: sym.Choose("fails", 12) + 1}
	err := r.print(f)
	req((err != nil) == (f.fails <= w.n), "printing fails exactly when a write fails")
	req(f.n <= f.fails, "nothing is written after a failed write")
	req(bytes.HasPrefix(w.b, f.b), "what was written before a failure is a part of the output")
}

// C28_large: a file with 40 metrics, values and strings: everything is
// printed, in both versions.
func C28_large() {
	const n = 40
	v := sym.Choose("version", 2) + 1
	types := []mmvdump.TocType{mmvdump.TocMetrics, mmvdump.TocValues, mmvdump.TocStrings}
	m := itemSize(mmvdump.TocMetrics, v)
	met := 40 + 16*3
	val := met + n*m
	str := val + n*32
	b := laid("b", v, str+n*256, types, []int{n, n, n})
	for i := met; i < len(b); i++ {
		b[i] = 0
	}
	for k := 0; k < n; k++ {
		o, s := met+k*m, str+k*256
		id := "n" + strconv.Itoa(k) + "m"
		copy(b[s:], id)
		if v == 1 {
			copy(b[o:], id)
		} else {
			put32(b, o, uint32(s))
		}
		o += m - 40
		put32(b, o, uint32(k))
		put32(b, o+8, 1)
		put32(b, o+16, 0xffffffff)
		put32(b, val+k*32, uint32(1000+k))
		put32(b, val+k*32+16, uint32(met+k*m))
	}
	r := dump(b)
	halt(r.err == nil, "a well-formed file is accepted")
	w := &sink{}
	halt(r.print(w) == nil, "a consistent file can be printed")
	r.listed(w.b)
	for k := 0; k < n; k++ {
		id := "n" + strconv.Itoa(k) + "m"
		req(bytes.Count(w.b, []byte(id)) == 3, "every record is printed with the names and texts it refers to")
		req(has(w.b, "= "+strconv.Itoa(1000+k)+"\n"), "every metric is printed with its value")
	}
}
