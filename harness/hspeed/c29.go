package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

// C29_units: the reader's decoders give back the dimensions and scales of every
// unit constant and every unit of up to 2 parts (thorough: 4) added to any
// unit, with any dimension and scale; and every named unit, type and semantics
// of the reader has the value of the client's.
func C29_units() {
	p, r := compose(sym.Bound(2, 4), false)
	u := mmvdump.Unit(p.PMAPI())
	req(sym.And(u.SpaceDim() == r.dim[0], sym.And(u.TimeDim() == r.dim[1], u.CountDim() == r.dim[2])), "the reader decodes the dimensions the client encodes")
	req(sym.And(uint32(u.SpaceScale()) == r.scale[0], sym.And(uint32(u.TimeScale()) == r.scale[1], uint32(u.CountScale()) == r.scale[2])), "the reader decodes the scales the client encodes")
}

// C29_names: the named units, types, semantics and sizes of the reader.
func C29_names() {
	for k, u := range []mmvdump.Unit{mmvdump.ByteUnit, mmvdump.KilobyteUnit, mmvdump.MegabyteUnit, mmvdump.GigabyteUnit, mmvdump.TerabyteUnit, mmvdump.PetabyteUnit, mmvdump.ExabyteUnit} {
		req(uint32(u) == spaceUnit(uint32(k)).PMAPI(), "the space units of the reader are those of the client")
	}
	for k, u := range []mmvdump.Unit{mmvdump.NanosecondUnit, mmvdump.MicrosecondUnit, mmvdump.MillisecondUnit, mmvdump.SecondUnit, mmvdump.MinuteUnit, mmvdump.HourUnit} {
		req(uint32(u) == timeUnit(uint32(k)).PMAPI(), "the time units of the reader are those of the client")
	}
	req(uint32(mmvdump.OneUnit) == speed.OneUnit.PMAPI(), "the count unit of the reader is that of the client")
	req(mmvdump.ByteUnit == mmvdump.Unit(speed.ByteUnit) && mmvdump.KilobyteUnit == mmvdump.Unit(speed.KilobyteUnit) &&
		mmvdump.MegabyteUnit == mmvdump.Unit(speed.MegabyteUnit) && mmvdump.GigabyteUnit == mmvdump.Unit(speed.GigabyteUnit) &&
		mmvdump.TerabyteUnit == mmvdump.Unit(speed.TerabyteUnit) && mmvdump.PetabyteUnit == mmvdump.Unit(speed.PetabyteUnit) &&
		mmvdump.ExabyteUnit == mmvdump.Unit(speed.ExabyteUnit), "the space units of the reader are those of the client")
	req(mmvdump.NanosecondUnit == mmvdump.Unit(speed.NanosecondUnit) && mmvdump.MicrosecondUnit == mmvdump.Unit(speed.MicrosecondUnit) &&
		mmvdump.MillisecondUnit == mmvdump.Unit(speed.MillisecondUnit) && mmvdump.SecondUnit == mmvdump.Unit(speed.SecondUnit) &&
		mmvdump.MinuteUnit == mmvdump.Unit(speed.MinuteUnit) && mmvdump.HourUnit == mmvdump.Unit(speed.HourUnit), "the time units of the reader are those of the client")
	types := []mmvdump.Type{mmvdump.Int32Type, mmvdump.Uint32Type, mmvdump.Int64Type, mmvdump.Uint64Type, mmvdump.FloatType, mmvdump.DoubleType, mmvdump.StringType}
	for k, t := range []speed.MetricType{speed.Int32Type, speed.Uint32Type, speed.Int64Type, speed.Uint64Type, speed.FloatType, speed.DoubleType, speed.StringType} {
		req(int32(t) == int32(k) && int32(types[k]) == int32(t), "the types of the reader are those of the client")
	}
	req(mmvdump.NoSemantics == 0 && mmvdump.CounterSemantics == 1 && mmvdump.InstantSemantics == 3 && mmvdump.DiscreteSemantics == 4, "the semantics of the reader are those of the format")
	req(mmvdump.CounterSemantics == mmvdump.Semantics(speed.CounterSemantics) && mmvdump.InstantSemantics == mmvdump.Semantics(speed.InstantSemantics) &&
		mmvdump.DiscreteSemantics == mmvdump.Semantics(speed.DiscreteSemantics) && mmvdump.NoSemantics == mmvdump.Semantics(speed.NoSemantics), "the semantics of the reader are those of the client")
	req(mmvdump.StringMax == speed.StringLength && mmvdump.NameMax == speed.MaxV1NameLength+1, "the reader's lengths are those of the client")
}
