package hspeed

import (
	"math"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

var timeUnits = []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit}

var nanos = []float64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}

// elapsed expresses a period in unit u.
func elapsed(d int64, u int) float64 {
	switch u {
	case 1:
		return float64(d) * 1e-3
	case 2:
		return float64(d) * 1e-6
	case 3:
		return float64(d/1e9) + float64(d%1e9)/1e9
	case 4:
		return float64(d/60e9) + float64(d%60e9)/60e9
	case 5:
		return float64(d/3600e9) + float64(d%3600e9)/3600e9
	}
	return float64(d)
}

// forms are other ways to add a period in unit u to a sum, total being all of
// the periods.
func forms(cur float64, d, total int64, u int) []float64 {
	n := nanos[u]
	whole := float64(d/int64(n)) + float64(d%int64(n))/n
	seconds := float64(d/1e9) + float64(d%1e9)/1e9
	l := []float64{cur + elapsed(d, u), elapsed(total, u), cur + float64(d)/n, float64(total) / n, cur + float64(d)*(1/n), float64(total) * (1 / n), cur + whole}
	if u > 3 {
		l = append(l, cur+seconds/(n/1e9), cur+seconds*(1e9/n), cur+float64(d)/1e9/(n/1e9), cur+float64(d)*1e-9/(n/1e9))
	}
	return l
}

// added checks the sum v after another period. Most ways to convert a period are
// recognised as such; the solver compares what others give.
func added(v, cur float64, d, total int64, u int) {
	for _, f := range forms(cur, d, total, u) {
		if sym.Known(sym.SameBits64(v, f)) && sym.SameBits64(v, f) {
			return
		}
	}
	req(near(v, cur+elapsed(d, u)), "stopping a timer adds the elapsed time in its unit")
}

// near allows for the rounding of other ways to convert and add.
func near(a, b float64) bool {
	e := math.Abs(b)*1e-12 + 1e-15
	return sym.And(a <= b+e, a >= b-e)
}

// C17_timer: a timer of any unit, published before or after its use (or in
// the middle of it), and any sequence of 4 (thorough: 5) operations out of Start,
// Stop and Reset. The monotonic clock shows arbitrary, not decreasing times of up to
// 36 years, the wall clock anything; sums that
// do not follow the formulas of this harness are compared with a relative
// error of 1e-12.
func C17_timer() {
	sym.NoNative()
	s := newScene("cl")
	u := sym.Choose("unit", len(timeUnits))
	m, err := speed.NewPCPTimer("m", timeUnits[u])
	halt(err == nil, "a timer can be created")
	halt(s.c.Register(m) == nil, "a metric can be registered")
	x := &xMetric{name: "m", t: speed.DoubleType, sem: speed.DiscreteSemantics, unit: timeUnits[u].PMAPI(), vals: []xVal{{"", float64(0)}}}
	s.w.metrics = append(s.w.metrics, x)
	n := sym.Bound(4, 5)
	at := sym.Choose("mapped", n+1)
	now, since, total, cur, running := int64(1000), int64(0), int64(0), float64(0), false
	for i := 0; i < n; i++ {
		if i == at {
			s.start()
		}
		id := string(rune('0' + i))
		t := sym.Int64("clock" + id)
		sym.Assume(now <= t)
		sym.Assume(t < 1<<60)
		if running {
			sym.Assume(since <= t)
		}
		now = t
		sym.SetClock(now)
		switch sym.Choose("op"+id, 3) {
		case 0:
			err := m.Start()
			req((err == nil) == !running, "a timer can be started exactly when it is not running")
			if err == nil {
				running, since = true, now
			}
		case 1:
			v, err := m.Stop()
			req((err == nil) == running, "a timer can be stopped exactly when it is running")
			if err == nil {
				running = false
				total += now - since
				added(v, cur, now-since, total, u)
				if same := v == cur; !sym.Known(same) || !same {
					cur = v // otherwise the timer keeps the sum it has
				}
			}
		case 2:
			err := m.Reset()
			req((err == nil) == !running, "a timer can be reset exactly when it is not running")
			if err == nil {
				cur, total = 0, 0
			}
		}
		x.vals[0].val = cur
		if i >= at {
			p := s.published()
			req(num64(f64(p[0]), cur), "the published value of a timer is the sum of its completed runs")
		}
	}
	if at == n {
		s.start()
		p := s.published()
		req(num64(f64(p[0]), cur), "the published value of a timer is the sum of its completed runs")
	}
}

// C17_long: a timer in nanoseconds and any sequence of 7 (thorough: 8)
// operations out of Start, Stop and Reset, at fixed times; it is published at
// the end.
func C17_long() {
	sym.NoNative()
	s := newScene("cl")
	m, err := speed.NewPCPTimer("m", speed.NanosecondUnit)
	halt(err == nil, "a timer can be created")
	halt(s.c.Register(m) == nil, "a metric can be registered")
	x := &xMetric{name: "m", t: speed.DoubleType, sem: speed.DiscreteSemantics, unit: speed.NanosecondUnit.PMAPI(), vals: []xVal{{"", float64(0)}}}
	s.w.metrics = append(s.w.metrics, x)
	now, since, total, cur, running := int64(1000), int64(0), int64(0), float64(0), false
	for i, n := 0, sym.Bound(7, 8); i < n; i++ {
		id := string(rune('0' + i))
		now += 1000003 << uint(i)
		sym.SetClock(now)
		switch sym.Choose("op"+id, 3) {
		case 0:
			err := m.Start()
			halt((err == nil) == !running, "a timer can be started exactly when it is not running")
			if err == nil {
				running, since = true, now
			}
		case 1:
			v, err := m.Stop()
			halt((err == nil) == running, "a timer can be stopped exactly when it is running")
			if err == nil {
				running = false
				total += now - since
				added(v, cur, now-since, total, 0)
				if same := v == cur; !sym.Known(same) || !same {
					cur = v // otherwise the timer keeps the sum it has
				}
			}
		case 2:
			err := m.Reset()
			halt((err == nil) == !running, "a timer can be reset exactly when it is not running")
			if err == nil {
				cur, total = 0, 0
			}
		}
	}
	x.vals[0].val = cur
	s.start()
	req(num64(f64(s.published()[0]), cur), "the published value of a timer is the sum of its completed runs")
}
