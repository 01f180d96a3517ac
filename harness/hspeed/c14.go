package hspeed

import (
	"math"
	"time"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

const nGoTypes = 29

// types that are not those of a metric, though made like them
type (
	ownInt     int
	ownInt64   int64
	ownUint    uint
	ownUint32  uint32
	ownUint64  uint64
	ownFloat32 float32
	ownFloat64 float64
	ownString  string
)

// anyValue is an arbitrary value of Go type k.
func anyValue(k int) interface{} {
	switch k {
	case 0:
		return sym.Int("v")
	case 1:
		return sym.Int32("v")
	case 2:
		return sym.Int64("v")
	case 3:
		return sym.Uint("v")
	case 4:
		return sym.Uint32("v")
	case 5:
		return sym.Uint64("v")
	case 6:
		return sym.Float32("v")
	case 7:
		return sym.Float64("v")
	case 8:
		return sym.String("v", pick("v.len", 0, 1, 3, 255, 256, 257, 400))
	case 9:
		return nil
	case 10:
		return sym.Bool("v")
	case 11:
		return sym.Int8("v")
	case 12:
		return sym.Int16("v")
	case 13:
		return sym.Uint8("v")
	case 14:
		return sym.Uint16("v")
	case 15:
		return []byte("bytes")
	case 16:
		v := sym.Int64("v")
		return &v
	case 17:
		return speed.MetricType(sym.Int32("v"))
	case 18:
		return ownInt(sym.Int("v"))
	case 19:
		return ownInt64(sym.Int64("v"))
	case 20:
		return ownUint(sym.Uint("v"))
	case 21:
		return ownUint32(sym.Uint32("v"))
	case 22:
		return ownUint64(sym.Uint64("v"))
	case 23:
		return ownFloat32(sym.Float32("v"))
	case 24:
		return ownFloat64(sym.Float64("v"))
	case 25:
		return ownString(sym.String("v", pick("v.len", 0, 3)))
	case 26:
		return uintptr(sym.Uint64("v"))
	case 27:
		return time.Duration(pick("v", 0, 1, 1000000000))
	}
	return speed.Instances{"a": int64(1)}
}

// holds says, from the documentation of the types, whether a metric of type t
// can hold v and what it then reports.
func holds(t speed.MetricType, v interface{}) (bool, interface{}) {
	switch x := v.(type) {
	case int:
		switch t {
		case speed.Int32Type:
			return x >= -1<<31 && x < 1<<31, int32(x)
		case speed.Uint32Type:
			return x >= 0 && x < 1<<32, uint32(x)
		case speed.Int64Type:
			return true, int64(x)
		case speed.Uint64Type:
			return x >= 0, uint64(x)
		}
	case uint:
		switch t {
		case speed.Uint32Type:
			return x < 1<<32, uint32(x)
		case speed.Uint64Type:
			return true, uint64(x)
		}
	case int32:
		return t == speed.Int32Type, x
	case int64:
		return t == speed.Int64Type, x
	case uint32:
		return t == speed.Uint32Type, x
	case uint64:
		return t == speed.Uint64Type, x
	case float32:
		return t == speed.FloatType, x
	case float64:
		switch t {
		case speed.FloatType:
			return sym.And(x >= -math.MaxFloat32, x <= math.MaxFloat32), float32(x)
		case speed.DoubleType:
			return true, x
		}
	case string:
		return t == speed.StringType && len(x) <= 256, x
	}
	return false, nil
}

// anyType is any metric type or any number that is none.
func anyType() speed.MetricType {
	k := sym.Choose("type", 8)
	if k < 7 {
		return speed.MetricType(k)
	}
	n := sym.Int32("badtype")
	sym.Assume(sym.Or(n < 0, n > 6))
	return speed.MetricType(n)
}

// C14_new: an arbitrary value of any of 29 Go types given to each constructor
// that takes a type, with any type number: it is accepted exactly when the
// type can hold it, and then reported with the Go type of the metric and the
// same value.
func C14_new() {
	t := anyType()
	k := sym.Choose("gotype", nGoTypes)
	v := anyValue(k)
	ok, want := holds(t, v)
	req(t.IsCompatible(v) == ok, "IsCompatible tells exactly whether a metric of the type can hold the value")
	var got interface{}
	var err error
	switch sym.Choose("how", 4) {
	case 0:
		var m *speed.PCPSingletonMetric
		m, err = speed.NewPCPSingletonMetric(v, "m", t, 0, speed.OneUnit)
		if err == nil {
			got = m.Val()
		}
	case 1:
		d, derr := speed.NewPCPInstanceDomain("d", []string{"a", "bb"})
		halt(derr == nil, "a domain can be created")
		ins := speed.Instances{"a": fill(t), "bb": fill(t)}
		which := []string{"a", "bb"}[sym.Choose("which", 2)]
		ins[which] = v
		var m *speed.PCPInstanceMetric
		m, err = speed.NewPCPInstanceMetric(ins, "m", d, t, 0, speed.OneUnit)
		if err == nil {
			got, err = m.ValInstance(which)
			halt(err == nil, "the value of an instance can be read")
		}
	case 2:
		var m speed.Metric
		m, err = speed.NewPCPRegistry().AddMetricByString("m", v, t, 0, speed.OneUnit)
		if err == nil {
			got = m.(speed.SingletonMetric).Val()
		}
	case 3:
		var m speed.Metric
		m, err = speed.NewPCPRegistry().AddMetricByString("m[a]", speed.Instances{"a": v}, t, 0, speed.OneUnit)
		if err == nil {
			got, err = m.(speed.InstanceMetric).ValInstance("a")
			halt(err == nil, "the value of an instance can be read")
		}
	}
	halt((err == nil) == ok, "a value is accepted exactly when the metric's type can hold it")
	if ok {
		halt(goType(t, got), "a metric reports values of its own Go type")
		req(same(t, got, want), "a metric reports the value it was given")
	}
}

// fill is some value of a type.
func fill(t speed.MetricType) interface{} {
	switch t {
	case speed.Int32Type:
		return int32(1)
	case speed.Uint32Type:
		return uint32(1)
	case speed.Int64Type:
		return int64(1)
	case speed.Uint64Type:
		return uint64(1)
	case speed.FloatType:
		return float32(1)
	case speed.DoubleType:
		return float64(1)
	}
	return "one"
}

// C14_set: a metric of any type with an arbitrary value, or an instance
// metric, mapped or not; an arbitrary value of any of 29 Go types is set: it
// is accepted exactly when the type can hold it, the metric then reports it,
// and otherwise the old value.
func C14_set() {
	s := newScene("cl")
	t := speed.MetricType(sym.Choose("type", 7))
	old := s.short(t, "old")
	inst := sym.Choose("inst", 2) == 1
	var sm *speed.PCPSingletonMetric
	var im *speed.PCPInstanceMetric
	var err error
	if inst {
		d, derr := speed.NewPCPInstanceDomain("d", []string{"a", "bb"})
		halt(derr == nil, "a domain can be created")
		im, err = speed.NewPCPInstanceMetric(speed.Instances{"a": old, "bb": fill(t)}, "m", d, t, 0, speed.OneUnit)
	} else {
		sm, err = speed.NewPCPSingletonMetric(old, "m", t, 0, speed.OneUnit)
	}
	halt(err == nil, "a metric can be created")
	if sym.Choose("mapped", 2) == 1 {
		if inst {
			err = s.c.Register(im)
		} else {
			err = s.c.Register(sm)
		}
		halt(err == nil, "a metric can be registered")
		s.start()
	}
	v := anyValue(sym.Choose("gotype", nGoTypes))
	must := sym.Choose("must", 2) == 1
	ok, want := holds(t, v)
	switch {
	case inst && must:
		err = catch(func() { im.MustSetInstance(v, "a") })
	case inst:
		err = im.SetInstance(v, "a")
	case must:
		err = catch(func() { sm.MustSet(v) })
	default:
		err = sm.Set(v)
	}
	halt((err == nil) == ok, "a value is accepted exactly when the metric's type can hold it")
	var got interface{}
	if inst {
		got, err = im.ValInstance("a")
		halt(err == nil, "the value of an instance can be read")
		other, _ := im.ValInstance("bb")
		req(same(t, other, fill(t)), "the other instance keeps its value")
	} else {
		got = sm.Val()
	}
	halt(goType(t, got), "a metric reports values of its own Go type")
	if ok {
		req(same(t, got, want), "a metric reports the value it was given")
	} else {
		req(sameRaw(t, got, old), "a refused value leaves the metric unchanged")
	}
}
