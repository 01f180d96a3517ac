package hspeed

import (
	"math"
	"math/bits"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// hdr describes a histogram of a given resolution: values below sub*unit are
// counted in classes of size unit, and each further doubling of the value
// doubles the size of the class.
type hdr struct {
	low, high int64
	sig       int
	unit, sub int64
}

func newHdr(low, high int64, sig int) *hdr {
	h := &hdr{low: low, high: high, sig: sig, unit: 1, sub: 1}
	for h.unit*2 <= low {
		h.unit *= 2
	}
	p := int64(2)
	for i := 0; i < sig; i++ {
		p *= 10
	}
	for h.sub < p {
		h.sub *= 2
	}
	return h
}

// class gives the bounds of the class of v and the value that stands for it.
func (h *hdr) class(v int64) (lo, hi, mid int64) {
	size := h.unit
	if v >= h.unit*h.sub {
		size = int64(1) << uint(bits.Len64(uint64(v))-bits.Len64(uint64(h.sub))+1)
	}
	lo = v - v%size
	return lo, lo + size - 1, lo + size/2
}

// limit is the largest value of the last class array that covers high.
func (h *hdr) limit() int64 {
	l := h.unit * h.sub
	for l < h.high {
		l *= 2
	}
	return l - 1
}

type rec struct{ v, n int64 }

// histogram publishes a histogram and returns it with its expectations.
func (s *scene) histogram(d *hdr) *speed.PCPHistogram {
	m, err := speed.NewPCPHistogram("m", d.low, d.high, d.sig, speed.OneUnit)
	halt(err == nil, "a histogram can be created")
	halt(s.c.Register(m) == nil, "a metric can be registered")
	names := []string{"min", "max", "mean", "variance", "standard_deviation"}
	x := &xMetric{name: "m", t: speed.DoubleType, sem: speed.InstantSemantics, unit: speed.OneUnit.PMAPI()}
	for _, n := range names {
		x.vals = append(x.vals, xVal{n, float64(0)})
	}
	x.indom = s.indom(&xIndom{name: "histogram", insts: names})
	s.w.metrics = append(s.w.metrics, x)
	s.objs = append(s.objs, m)
	return m
}

// stats checks what m reports against the recordings.
func stats(m *speed.PCPHistogram, d *hdr, recs []rec) []xVal {
	var n, min, max int64
	var sum float64
	for _, r := range recs {
		if r.n == 0 {
			continue
		}
		lo, hi, mid := d.class(r.v)
		if n == 0 || lo < min {
			min = lo
		}
		if hi > max {
			max = hi
		}
		sum += float64(mid) * float64(r.n)
		n += r.n
	}
	var mean, dev float64
	if n > 0 {
		mean = sum / float64(n)
		for _, r := range recs {
			if r.n != 0 {
				_, _, mid := d.class(r.v)
				dev += (float64(mid) - mean) * (float64(mid) - mean) * float64(r.n)
			}
		}
		dev = math.Sqrt(dev / float64(n))
	} else {
		max = m.Max() // of an empty histogram only the rest is defined
		req(max >= 0 && max < d.unit, "the maximum of an empty histogram is in the class of 0")
	}
	req(m.Min() == min, "the minimum is the smallest recorded value at the resolution of the histogram")
	req(m.Max() == max, "the maximum is the largest recorded value at the resolution of the histogram")
	req(near(m.Mean(), mean), "the mean is the mean of the recorded values")
	req(near(m.StandardDeviation(), dev), "the standard deviation is that of the recorded values")
	req(near(m.Variance(), dev*dev), "the variance is the square of the standard deviation")
	return []xVal{{"min", float64(min)}, {"max", float64(max)}, {"mean", m.Mean()}, {"variance", m.Variance()}, {"standard_deviation", m.StandardDeviation()}}
}

// record performs one recording of v (n times, if the form has a count).
func record(m *speed.PCPHistogram, form int, v, n int64) (int64, error) {
	switch form {
	case 0:
		return 1, m.Record(v)
	case 1:
		return n, m.RecordN(v, n)
	case 2:
		return 1, must(func() { m.MustRecord(v) })
	}
	return n, must(func() { m.MustRecordN(v, n) })
}

// detail checks percentiles and buckets.
func detail(m *speed.PCPHistogram, d *hdr, recs []rec) {
	var n int64
	for _, r := range recs {
		n += r.n
	}
	if n == 0 {
		return
	}
	for _, p := range []float64{25, 50, 75, 99, 100} {
		rank := int64(p/100*float64(n) + 0.5)
		if rank == 0 {
			continue
		}
		// the smallest class with that many values up to it
		best := int64(-1)
		for _, r := range recs {
			_, hi, _ := d.class(r.v)
			var upto int64
			for _, q := range recs {
				if q.v <= hi {
					upto += q.n
				}
			}
			if r.n > 0 && upto >= rank && (best < 0 || hi < best) {
				best = hi
			}
		}
		req(m.Percentile(p) == best, "a percentile is the value below which that part of the recorded values lies")
	}
	var total int64
	prev := int64(-1)
	for _, b := range m.Buckets() {
		req(b.From == prev+1 && b.To >= b.From, "buckets are adjacent ranges from 0")
		prev = b.To
		var want int64
		for _, r := range recs {
			if b.From <= r.v && r.v <= b.To {
				want += r.n
			}
		}
		req(b.Count == want, "a bucket counts the recorded values in its range")
		total += b.Count
	}
	req(total == n, "the buckets hold all recorded values")
}

// fix makes the value concrete up to its class: the statistics depend on
// nothing else, and the classes are checked to be those of this harness.
func fix(d *hdr, v int64) int64 {
	if v < 0 || v > d.limit() {
		return v
	}
	lo, hi, mid := d.class(int64(sym.Concretize(int(classOf(d, v)))))
	sym.Assert(sym.And(lo <= v, v <= hi), "harness: classes are consistent")
	return mid
}

func classOf(d *hdr, v int64) int64 {
	size := d.unit
	for v >= size*d.sub {
		size *= 2
	}
	return v - v&(size-1)
}

// C18_once: one recording of an arbitrary int64, in every form, into
// histograms of several ranges and precisions (thorough: also the largest
// ones), before or after publication.
func C18_once() {
	s := newScene("cl")
	var d *hdr
	rng := sym.Choose("range", sym.Bound(4, 7))
	switch rng {
	case 0:
		d = newHdr(0, 100, 1)
	case 1:
		d = newHdr(20, 500, 1)
	case 2:
		d = newHdr(0, 0, 1)
	case 3:
		d = newHdr(1, 3000, 1)
	case 4:
		d = newHdr(0, 300, 2)
	case 5:
		d = newHdr(0, speed.HistogramMax, 1)
	case 6:
		d = newHdr(speed.HistogramMax, speed.HistogramMax, 1)
	}
	m := s.histogram(d)
	mapped := true
	form := rng % 4
	if rng == 1 || sym.Thorough() {
		mapped = sym.Choose("mapped", 2) == 1
		form = sym.Choose("form", 4)
	}
	if mapped {
		s.start()
	}
	v := sym.Int64("v")
	n := int64(1)
	if form%2 == 1 {
		n = []int64{0, 1, 7}[sym.Choose("n", 3)]
	}
	c := fix(d, v)
	n, err := record(m, form, v, n)
	var recs []rec
	if err == nil {
		req(v >= 0, "a negative value is refused")
		req(v <= d.limit(), "a value the histogram cannot hold is refused")
		recs = append(recs, rec{c, n})
	} else {
		req(sym.Or(v < 0, v > d.high), "a value within the limits is accepted")
	}
	s.w.metrics[0].vals = stats(m, d, recs)
	detail(m, d, recs)
	if !mapped {
		s.start()
	}
	s.published()
}

// C18_many: two recordings of arbitrary values into a histogram with 32
// classes (thorough: three, the latter two being 128 to 511), the published statistics
// being checked after each when it is mapped.
func C18_many() {
	s := newScene("cl")
	d := newHdr(20, 500, 1)
	m := s.histogram(d)
	mapped := !sym.Thorough() || sym.Choose("mapped", 2) == 1
	if mapped {
		s.start()
	}
	var recs []rec
	k := sym.Bound(2, 3)
	for i := 0; i < k; i++ {
		id := string(rune('0' + i))
		v := sym.Int64("v" + id)
		if k == 3 && i > 0 {
			sym.Assume(v >= 128 && v < 512)
		}
		c := fix(d, v)
		form := i
		n, err := record(m, form, v, 3)
		if err == nil {
			recs = append(recs, rec{c, n})
		} else {
			req(sym.Or(v < 0, v > d.high), "a value within the limits is accepted")
		}
		s.w.metrics[0].vals = stats(m, d, recs)
		if mapped {
			s.published()
		}
	}
	detail(m, d, recs)
	if !mapped {
		s.start()
		s.published()
	}
}

// C18_small: four (thorough: five) recordings of values of 0 to 3 (thorough: 4)
// into a published histogram, what it reports and shows being checked after
// each.
func C18_small() {
	s := newScene("cl")
	d := newHdr(0, 100, 1)
	m := s.histogram(d)
	s.start()
	var recs []rec
	for i, k := 0, sym.Bound(4, 5); i < k; i++ {
		v := sym.Int64("v" + string(rune('0'+i)))
		sym.Assume(v >= 0 && v <= int64(sym.Bound(3, 4)))
		c := fix(d, v)
		halt(m.Record(v) == nil, "a value within the limits is accepted")
		recs = append(recs, rec{c, 1})
		s.w.metrics[0].vals = stats(m, d, recs)
		s.published()
	}
	detail(m, d, recs)
}

// C18_limits: construction with any upper limit, a choice of lower limits and
// precisions: the arguments are clamped and reported.
func C18_limits() {
	lows := []int64{math.MinInt64, -1, 0, 1, 1000, speed.HistogramMax, speed.HistogramMax + 1, math.MaxInt64}
	low := lows[sym.Choose("low", len(lows))]
	high := sym.Int64("high")
	sig := pick("sig", -3, 0, 1, 2, 3)
	m, err := speed.NewPCPHistogram("m", low, high, sig, speed.OneUnit)
	req((err == nil) == (low <= high), "a histogram is created exactly when its lower limit is not above the upper one")
	if err != nil {
		return
	}
	clamp := func(v int64) int64 {
		if v < speed.HistogramMin {
			return speed.HistogramMin
		}
		if v > speed.HistogramMax {
			return speed.HistogramMax
		}
		return v
	}
	req(m.High() == clamp(high), "High is the upper limit, clamped")
	l := clamp(low)
	req(m.Low() == l || (l == 0 && m.Low() == 1), "Low is the lower limit, clamped")
	req(m.Min() == 0 && m.Max() == 0, "a new histogram has no values")
	req(m.Record(-1) != nil, "a negative value is refused")
	req(m.Min() == 0 && m.Max() == 0, "a refused recording changes nothing")
}
