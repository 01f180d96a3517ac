package hspeed

import (
	"strconv"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

var unitNames = [3][]string{
	{"ByteUnit", "KilobyteUnit", "MegabyteUnit", "GigabyteUnit", "TerabyteUnit", "PetabyteUnit", "ExabyteUnit"},
	{"NanosecondUnit", "MicrosecondUnit", "MillisecondUnit", "SecondUnit", "MinuteUnit", "HourUnit"},
	{"OneUnit"},
}

// a composed unit: dimension and scale of space, time and count
type parts struct {
	dim   [3]int8
	scale [3]uint32
}

// word is the PMAPI representation.
func (p *parts) word() uint32 {
	var w uint32
	for k := uint(0); k < 3; k++ {
		w |= uint32(uint8(p.dim[k])&0xf)<<(28-4*k) | p.scale[k]<<(16-4*k)
	}
	return w
}

func scaleOf(name string, kind int, concrete bool) uint32 {
	if concrete {
		return uint32(sym.Choose(name, len(unitNames[kind])))
	}
	v := sym.Uint32(name)
	sym.Assume(v < uint32(len(unitNames[kind])))
	return v
}

func spaceUnit(k uint32) speed.SpaceUnit { return speed.SpaceUnit(1<<28 | k<<16) }
func timeUnit(k uint32) speed.TimeUnit   { return speed.TimeUnit(1<<24 | k<<12) }
func countUnit(k uint32) speed.CountUnit { return speed.CountUnit(1<<20 | k<<8) }

type dims interface {
	SpaceDim() int8
	TimeDim() int8
	CountDim() int8
	SpaceScale() speed.SpaceUnit
	TimeScale() speed.TimeUnit
	CountScale() speed.CountUnit
}

// agree compares everything a unit tells about itself with its parts.
func agree(u speed.MetricUnit, p *parts) {
	req(u.PMAPI() == p.word(), "the PMAPI word of a unit has exactly the given dimensions and scales")
	d, ok := u.(dims)
	if !ok {
		return
	}
	req(d.SpaceDim() == p.dim[0], "a unit gives its space dimension back")
	req(d.TimeDim() == p.dim[1], "a unit gives its time dimension back")
	req(d.CountDim() == p.dim[2], "a unit gives its count dimension back")
	if p.dim[0] != 0 {
		req(d.SpaceScale() == spaceUnit(p.scale[0]), "a unit gives its space scale back")
	}
	if p.dim[1] != 0 {
		req(d.TimeScale() == timeUnit(p.scale[1]), "a unit gives its time scale back")
	}
	if p.dim[2] != 0 {
		req(d.CountScale() == countUnit(p.scale[2]), "a unit gives its count scale back")
	}
}

// compose starts from any unit and adds n parts, one path per unit if concrete.
func compose(n int, concrete bool) (speed.MetricUnit, *parts) {
	p := &parts{}
	var u speed.MetricUnit
	base := sym.Choose("base", 4)
	switch base {
	case 0:
		u = speed.NewMetricUnit()
	case 1:
		p.dim[0], p.scale[0] = 1, scaleOf("base.scale", 0, concrete)
		u = spaceUnit(p.scale[0])
	case 2:
		p.dim[1], p.scale[1] = 1, scaleOf("base.scale", 1, concrete)
		u = timeUnit(p.scale[1])
	case 3:
		p.dim[2], p.scale[2] = 1, 0
		u = speed.OneUnit
	}
	agree(u, p)
	plain := base != 0
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		kind := sym.Choose("kind"+id, 3)
		var dim int8
		if concrete {
			dim = int8(sym.Choose("dim"+id, 16) - 8)
		} else {
			dim = sym.Int8("dim" + id)
		}
		sc := scaleOf("scale"+id, kind, concrete)
		prev := u
		panicked, _ := sym.Catch(func() {
			switch kind {
			case 0:
				u = u.Space(spaceUnit(sc), dim)
			case 1:
				u = u.Time(timeUnit(sc), dim)
			case 2:
				u = u.Count(countUnit(sc), dim)
			}
		})
		bad := sym.Or(dim < -8, dim > 7)
		if plain && kind == base-1 {
			req(panicked, "a unit constant refuses another part of its own kind")
			u = prev
			continue
		}
		req(panicked == bad, "a part is refused exactly when its dimension is not in -8..7")
		if panicked {
			u = prev
		} else {
			plain = false
			p.dim[kind], p.scale[kind] = dim, sc
		}
		agree(u, p)
	}
	return u, p
}

// C20_compose: any unit constant or a new unit, and up to 3 parts added to it,
// with any dimension and any scale.
func C20_compose() {
	compose(sym.Bound(3, 4), false)
}

// C20_string: the printed form of every unit constant and every unit of one
// part added to any unit (two parts in the thorough tier), enumerated: the
// parts with their names and dimensions, in the order space, time, count.
func C20_string() {
	u, p := compose(sym.Bound(1, 2), true)
	got := u.String()
	if _, ok := u.(dims); !ok {
		for k, d := range p.dim {
			if d != 0 {
				req(got == unitNames[k][p.scale[k]], "a unit constant prints as its name")
			}
		}
		return
	}
	want := ""
	for k, d := range p.dim {
		if d != 0 {
			want += unitNames[k][p.scale[k]] + "^" + strconv.Itoa(int(d))
		}
	}
	req(got == want, "a unit prints as its parts")
}

// C20_file: the word of a composed unit is in the file.
func C20_file() {
	s := newScene("cl")
	u, p := compose(1, false)
	s.add(spec{kind: kInt32, name: "m", unit: u})
	s.w.metrics[0].unit = p.word()
	check(s.start(), s.w)
}

// C20_constants: the named units are those of the format.
func C20_constants() {
	for k, u := range []speed.SpaceUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit} {
		req(u == spaceUnit(uint32(k)) && u.String() == unitNames[0][k], "space units have increasing scales")
	}
	for k, u := range timeUnits {
		req(u == timeUnit(uint32(k)) && u.String() == unitNames[1][k], "time units have increasing scales")
	}
	req(speed.OneUnit == countUnit(0) && speed.OneUnit.String() == "OneUnit", "there is one count unit")
}
