package hspeed

import (
	"math"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// scene is a client with what has been registered on it.
type scene struct {
	c    *speed.PCPClient
	w    *world
	objs []interface{} // metric objects, parallel to w.metrics
}

func newScene(name string) *scene {
	c, err := speed.NewPCPClient(name)
	halt(err == nil, "a client can be created")
	return &scene{c: c, w: &world{client: name, flag: uint32(speed.ProcessFlag)}}
}

// kinds of metrics
const (
	kInt32 = iota
	kUint32
	kInt64
	kUint64
	kFloat
	kDouble
	kString
	kCounter
	kGauge
	kTimer
	kInstance // instance metric with int64 values
	kInstString
	kCounterVec
	kGaugeVec
	kHistogram
	nKinds
)

// spec of a metric to build.
type spec struct {
	kind  int
	name  string
	desc  []string
	insts []string // for instance metrics and vectors
	indom *speed.PCPInstanceDomain
	xin   *xIndom
	bits  uint64 // the initial value
	str   string
	sem   speed.MetricSemantics
	unit  speed.MetricUnit
	same  bool // all instances have the same initial value
	byStr bool // register through the string form (kInt32 ... kString, kInstance)
}

// index is what distinguishes the initial value of instance i.
func (p spec) index(i int) int {
	if p.same {
		return 0
	}
	return i
}

func scalar(kind int, bits uint64, str string) (speed.MetricType, interface{}) {
	switch kind {
	case kInt32:
		return speed.Int32Type, int32(uint32(bits))
	case kUint32:
		return speed.Uint32Type, uint32(bits)
	case kInt64:
		return speed.Int64Type, int64(bits)
	case kUint64:
		return speed.Uint64Type, bits
	case kFloat:
		return speed.FloatType, f32(uint32(bits))
	case kDouble:
		return speed.DoubleType, f64(bits)
	}
	return speed.StringType, str
}

// add builds a metric, registers it and records what the file has to show.
func (s *scene) add(p spec) {
	x := &xMetric{name: p.name}
	if len(p.desc) > 0 {
		x.short = p.desc[0]
	}
	if len(p.desc) > 1 {
		x.long = p.desc[1]
	}
	if p.unit == nil {
		p.unit = speed.OneUnit
	}
	desc := lend(p.desc)
	var m speed.Metric
	var err error
	switch p.kind {
	case kInt32, kUint32, kInt64, kUint64, kFloat, kDouble, kString:
		t, v := scalar(p.kind, p.bits, p.str)
		x.t, x.sem, x.unit, x.vals = t, p.sem, p.unit.PMAPI(), []xVal{{"", v}}
		if p.byStr {
			m, err = s.c.RegisterString(p.name, v, t, p.sem, p.unit)
		} else {
			m, err = speed.NewPCPSingletonMetric(v, p.name, t, p.sem, p.unit, desc...)
		}
	case kCounter:
		x.t, x.sem, x.unit, x.vals = speed.Int64Type, speed.CounterSemantics, speed.OneUnit.PMAPI(), []xVal{{"", int64(p.bits)}}
		m, err = speed.NewPCPCounter(int64(p.bits), p.name, desc...)
	case kGauge:
		x.t, x.sem, x.unit, x.vals = speed.DoubleType, speed.InstantSemantics, speed.OneUnit.PMAPI(), []xVal{{"", f64(p.bits)}}
		m, err = speed.NewPCPGauge(f64(p.bits), p.name, desc...)
	case kTimer:
		x.t, x.sem, x.unit, x.vals = speed.DoubleType, speed.DiscreteSemantics, speed.SecondUnit.PMAPI(), []xVal{{"", float64(0)}}
		m, err = speed.NewPCPTimer(p.name, speed.SecondUnit, desc...)
	case kInstance, kInstString:
		if p.indom == nil && !p.byStr {
			p.xin = &xIndom{name: p.name + "_dom", insts: p.insts}
			l := lend(p.insts)
			p.indom, err = speed.NewPCPInstanceDomain(p.xin.name, l)
			halt(err == nil, "a domain can be created")
			reuse(l)
			reuse(p.indom.Instances())
		}
		if p.byStr {
			p.xin = &xIndom{name: p.name, insts: p.insts}
		}
		vals := speed.Instances{}
		for i, n := range p.xin.insts {
			var v interface{} = int64(p.bits) ^ int64(i)
			if p.same {
				v = int64(p.bits)
			}
			if p.kind == kInstString {
				v = p.str
				if !p.same {
					v = p.str + string(rune('0'+i))
				}
			}
			vals[n] = v
			x.vals = append(x.vals, xVal{n, v})
		}
		x.t, x.sem, x.unit = speed.Int64Type, p.sem, p.unit.PMAPI()
		if p.kind == kInstString {
			x.t = speed.StringType
		}
		x.indom = s.indom(p.xin)
		if p.byStr {
			str := p.name + "["
			for i, n := range p.insts {
				if i > 0 {
					str += ","
				}
				str += n
			}
			m, err = s.c.RegisterString(str+"].tail", vals, x.t, p.sem, p.unit)
			x.name = p.name + ".tail"
		} else {
			m, err = speed.NewPCPInstanceMetric(vals, p.name, p.indom, x.t, p.sem, p.unit, desc...)
		}
		clear(vals)
	case kCounterVec:
		vals := map[string]int64{}
		for i, n := range p.insts {
			vals[n] = int64(p.bits) ^ int64(p.index(i))
			x.vals = append(x.vals, xVal{n, vals[n]})
		}
		x.t, x.sem, x.unit = speed.Int64Type, speed.CounterSemantics, speed.OneUnit.PMAPI()
		x.indom = s.indom(&xIndom{name: p.name + ".indom", insts: p.insts})
		m, err = speed.NewPCPCounterVector(vals, p.name, desc...)
		clear(vals)
	case kGaugeVec:
		vals := map[string]float64{}
		for i, n := range p.insts {
			vals[n] = f64(p.bits ^ uint64(p.index(i)))
			x.vals = append(x.vals, xVal{n, vals[n]})
		}
		x.t, x.sem, x.unit = speed.DoubleType, speed.InstantSemantics, speed.OneUnit.PMAPI()
		x.indom = s.indom(&xIndom{name: p.name + ".indom", insts: p.insts})
		m, err = speed.NewPCPGaugeVector(vals, p.name, desc...)
		clear(vals)
	case kHistogram:
		names := []string{"min", "max", "mean", "variance", "standard_deviation"}
		for _, n := range names {
			x.vals = append(x.vals, xVal{n, float64(0)})
		}
		x.t, x.sem, x.unit = speed.DoubleType, speed.InstantSemantics, p.unit.PMAPI()
		x.indom = s.indom(&xIndom{name: "histogram", insts: names})
		m, err = speed.NewPCPHistogram(p.name, 0, 100, 1, p.unit, desc...)
	}
	halt(err == nil, "a metric can be created")
	reuse(desc)
	if l, ok := m.(interface{ Instances() []string }); ok {
		reuse(l.Instances())
	}
	if !p.byStr {
		halt(s.c.Register(m) == nil, "a metric can be registered")
	}
	s.w.metrics = append(s.w.metrics, x)
	s.objs = append(s.objs, m)
}

// lend gives a copy of l to be passed on.
func lend(l []string) []string { return append([]string{}, l...) }

// reuse overwrites what was passed on or returned: it is the user's.
func reuse(l []string) {
	for i := range l {
		l[i] = "reused"
	}
}

// indom returns the domain of that name, adding it when it is new.
func (s *scene) indom(d *xIndom) *xIndom {
	for _, o := range s.w.indoms {
		if o.name == d.name {
			return o
		}
	}
	s.w.indoms = append(s.w.indoms, d)
	return d
}

// start starts the client and returns the published bytes.
func (s *scene) start() []byte {
	halt(s.c.Start() == nil, "the client starts")
	return readFile(s.w.client)
}

func (s *scene) stop() {
	halt(s.c.Stop() == nil, "the client stops")
}

var names3 = []string{"a", "bb", "i_3"}

// long makes a string of n bytes that starts with s.
func long(s string, n int) string {
	for len(s) < n {
		s += "x"
	}
	return s
}

// pick chooses one of the values.
func pick(name string, vals ...int) int { return vals[sym.Choose(name, len(vals))] }

// reported gives the values metric i reports, in the order of its vals.
func (s *scene) reported(i int) []xVal {
	var out []xVal
	x := s.w.metrics[i]
	for _, v := range x.vals {
		var val interface{}
		var err error
		switch m := s.objs[i].(type) {
		case *speed.PCPSingletonMetric:
			val = m.Val()
		case *speed.PCPCounter:
			val = m.Val()
		case *speed.PCPGauge:
			val = m.Val()
		case *speed.PCPTimer:
			val = v.val // a timer reports its value when it is stopped
		case *speed.PCPInstanceMetric:
			val, err = m.ValInstance(v.inst)
		case *speed.PCPCounterVector:
			val, err = m.Val(v.inst)
		case *speed.PCPGaugeVector:
			val, err = m.Val(v.inst)
		case *speed.PCPHistogram:
			switch v.inst {
			case "min":
				val = float64(m.Min())
			case "max":
				val = float64(m.Max())
			case "mean":
				val = m.Mean()
			case "variance":
				val = m.Variance()
			case "standard_deviation":
				val = m.StandardDeviation()
			}
		}
		halt(err == nil, "the value of an instance can be read")
		out = append(out, xVal{v.inst, val})
	}
	return out
}

// refresh records the values that metric i reports now, or after a refused
// operation requires that they are the same as before.
func (s *scene) refresh(i int, refused bool) {
	r := s.reported(i)
	x := s.w.metrics[i]
	for k := range r {
		halt(goType(x.t, r[k].val), "a metric reports values of its own type")
		if refused {
			req(same(x.t, r[k].val, x.vals[k].val), "a refused update leaves the reported value alone")
		}
	}
	if !refused {
		x.vals = r
	}
}

// goType tells whether v has the Go type of metric type t.
func goType(t speed.MetricType, v interface{}) bool {
	ok := false
	switch t {
	case speed.Int32Type:
		_, ok = v.(int32)
	case speed.Uint32Type:
		_, ok = v.(uint32)
	case speed.Int64Type:
		_, ok = v.(int64)
	case speed.Uint64Type:
		_, ok = v.(uint64)
	case speed.FloatType:
		_, ok = v.(float32)
	case speed.DoubleType:
		_, ok = v.(float64)
	case speed.StringType:
		_, ok = v.(string)
	}
	return ok
}

// same compares two values of metric type t as numbers, all NaNs being equal.
func same(t speed.MetricType, a, b interface{}) bool {
	if t == speed.StringType {
		return a.(string) == b.(string)
	}
	return sameVal(t, raw(t, a), b)
}

// sameRaw compares two values of metric type t bit by bit.
func sameRaw(t speed.MetricType, a, b interface{}) bool {
	if t == speed.StringType {
		return a.(string) == b.(string)
	}
	return raw(t, a) == raw(t, b)
}

// raw is the 64-bit representation of a value in a value record.
func raw(t speed.MetricType, v interface{}) uint64 {
	switch t {
	case speed.Int32Type:
		return uint64(uint32(v.(int32)))
	case speed.Uint32Type:
		return uint64(v.(uint32))
	case speed.Int64Type:
		return uint64(v.(int64))
	case speed.Uint64Type:
		return v.(uint64)
	case speed.FloatType:
		return uint64(math.Float32bits(v.(float32)))
	}
	return math.Float64bits(v.(float64))
}

// update performs some operation of metric i with arbitrary arguments and
// tells whether it was refused.  A panic of a Must or All form counts as a
// refusal; since an All form may have changed some instances by then, the
// reported values are taken as they are in that case.
func (s *scene) update(i int, name string) {
	x := s.w.metrics[i]
	inst := ""
	if x.indom != nil && len(x.vals) > 0 {
		inst = x.vals[sym.Choose(name+".inst", len(x.vals))].inst
	}
	var err error
	switch m := s.objs[i].(type) {
	case *speed.PCPSingletonMetric:
		v := s.fresh(x.t, name)
		if sym.Choose(name+".op", 2) == 0 {
			err = m.Set(v)
		} else {
			m.MustSet(v)
		}
	case *speed.PCPCounter:
		v := sym.Int64(name)
		switch sym.Choose(name+".op", 4) {
		case 0:
			err = m.Set(v)
		case 1:
			err = m.Inc(v)
		case 2:
			err = must(func() { m.Up() })
		case 3:
			err = must(func() { m.MustInc(v) })
		}
	case *speed.PCPGauge:
		v := someDelta(name)
		switch sym.Choose(name+".op", 6) {
		case 0:
			err = m.Set(sym.Float64(name))
		case 1:
			err = m.Inc(v)
		case 2:
			err = m.Dec(v)
		case 3:
			m.MustSet(v)
		case 4:
			m.MustInc(v)
		case 5:
			m.MustDec(v)
		}
	case *speed.PCPTimer:
		var v float64
		switch sym.Choose(name+".op", 3) {
		case 0:
			err = m.Start()
			v = x.vals[0].val.(float64)
		case 1:
			v, err = m.Stop()
		case 2:
			err = m.Reset()
		}
		if err == nil {
			x.vals[0].val = v
		}
		return
	case *speed.PCPInstanceMetric:
		v := s.fresh(x.t, name)
		if sym.Choose(name+".op", 2) == 0 {
			err = m.SetInstance(v, inst)
		} else {
			m.MustSetInstance(v, inst)
		}
	case *speed.PCPCounterVector:
		v := sym.Int64(name)
		switch sym.Choose(name+".op", 8) {
		case 0:
			err = m.Set(v, inst)
		case 1:
			err = m.Inc(v, inst)
		case 2:
			err = must(func() { m.Up(inst) })
		case 3:
			err = must(func() { m.MustSet(v, inst) })
		case 4:
			err = must(func() { m.MustInc(v, inst) })
		case 5:
			must(func() { m.SetAll(v) })
		case 6:
			must(func() { m.IncAll(v) })
		case 7:
			must(func() { m.UpAll() })
		}
	case *speed.PCPGaugeVector:
		v := someDelta(name)
		switch sym.Choose(name+".op", 9) {
		case 0:
			err = m.Set(sym.Float64(name), inst)
		case 1:
			err = m.Inc(v, inst)
		case 2:
			err = m.Dec(v, inst)
		case 3:
			m.MustSet(v, inst)
		case 4:
			m.MustInc(v, inst)
		case 5:
			m.MustDec(v, inst)
		case 6:
			m.SetAll(v)
		case 7:
			m.IncAll(v)
		case 8:
			m.DecAll(v)
		}
	case *speed.PCPHistogram:
		v := int64(sym.Choose(name+".rec", 5))*40 - 20 // -20 and 140 are refused
		switch sym.Choose(name+".op", 3) {
		case 0:
			err = m.Record(v)
		case 1:
			err = m.RecordN(v, 2)
		case 2:
			err = must(func() { m.MustRecord(v) })
		}
	}
	s.refresh(i, err != nil)
}

// someDelta is one of a few float64 values: float arithmetic with arbitrary
// operands is decided by C16.
func someDelta(name string) float64 {
	return []float64{1.5, -3.25e300}[sym.Choose(name+".delta", 2)]
}

// start value of a metric: arbitrary, except for the kinds with float
// arithmetic.
func initial(kind int, name string) uint64 {
	if kind == kGauge || kind == kGaugeVec {
		return []uint64{0x3fe0000000000000, 0x7e37e43c8800759c, 0x7ff8000000000001}[sym.Choose(name, 3)]
	}
	return sym.Uint64(name)
}

func must(f func()) error {
	p, v := sym.Catch(f)
	if !p {
		return nil
	}
	if e, ok := v.(error); ok {
		return e
	}
	panic(v)
}

// fresh is an arbitrary value for metric type t.
func (s *scene) fresh(t speed.MetricType, name string) interface{} {
	switch t {
	case speed.Int32Type:
		return sym.Int32(name)
	case speed.Uint32Type:
		return sym.Uint32(name)
	case speed.Int64Type:
		return sym.Int64(name)
	case speed.Uint64Type:
		return sym.Uint64(name)
	case speed.FloatType:
		return sym.Float32(name)
	case speed.DoubleType:
		return sym.Float64(name)
	}
	return sym.String(name, pick(name+".len", 0, 2, 256))
}

// simple is update restricted to the set operation.
func (s *scene) simple(i int, name string) {
	x := s.w.metrics[i]
	inst := ""
	if x.indom != nil {
		inst = x.vals[sym.Choose(name+".inst", len(x.vals))].inst
	}
	var err error
	switch m := s.objs[i].(type) {
	case *speed.PCPSingletonMetric:
		err = m.Set(s.short(x.t, name))
	case *speed.PCPCounter:
		err = m.Set(sym.Int64(name))
	case *speed.PCPGauge:
		err = m.Set(sym.Float64(name))
	case *speed.PCPInstanceMetric:
		err = m.SetInstance(s.short(x.t, name), inst)
	case *speed.PCPCounterVector:
		err = m.Set(sym.Int64(name), inst)
	case *speed.PCPGaugeVector:
		err = m.Set(sym.Float64(name), inst)
	case *speed.PCPHistogram:
		err = m.Record(int64(sym.Choose(name, 3)) * 30)
	case *speed.PCPTimer:
		err = m.Reset()
		x.vals[0].val = float64(0)
	}
	s.refresh(i, err != nil)
}

// short is like fresh with strings of up to 2 bytes.
func (s *scene) short(t speed.MetricType, name string) interface{} {
	if t == speed.StringType {
		return sym.String(name, sym.Choose(name+".len", 3))
	}
	return s.fresh(t, name)
}

// bump sets the first value of metric i to a concrete value made from n.
func (s *scene) bump(i, n int) {
	x := s.w.metrics[i]
	inst := x.vals[0].inst
	var v interface{}
	switch x.t {
	case speed.Int32Type:
		v = int32(n)
	case speed.Uint32Type:
		v = uint32(n)
	case speed.Int64Type:
		v = int64(n)
	case speed.Uint64Type:
		v = uint64(n)
	case speed.FloatType:
		v = float32(n)
	case speed.DoubleType:
		v = float64(n)
	default:
		v = "value" + string(rune('a'+n))
	}
	var err error
	switch m := s.objs[i].(type) {
	case *speed.PCPSingletonMetric:
		err = m.Set(v)
	case *speed.PCPCounter:
		err = m.Set(v.(int64))
	case *speed.PCPGauge:
		err = m.Set(v.(float64))
	case *speed.PCPInstanceMetric:
		err = m.SetInstance(v, inst)
	case *speed.PCPCounterVector:
		err = m.Set(v.(int64), inst)
	case *speed.PCPGaugeVector:
		err = m.Set(v.(float64), inst)
	case *speed.PCPHistogram:
		err = m.Record(int64(n))
		v = nil
	case *speed.PCPTimer:
		err = m.Reset()
		v = float64(0)
	}
	halt(err == nil, "a metric can be set")
	if v != nil {
		x.vals[0].val = v
		s.refresh(i, true)
	} else {
		s.refresh(i, false)
	}
}
