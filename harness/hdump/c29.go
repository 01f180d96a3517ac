package hdump

import (
	"math"
	"strconv"

	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

// C29_value: every 64-bit raw value under every 32-bit type code.
func C29_value() {
	raw := sym.Uint64("raw")
	t := mmvdump.Type(sym.Int32("type"))
	v, err := mmvdump.FixedVal(raw, t)
	if t < 0 || t > 5 {
		req(err != nil && v == nil, "a type without a fixed size value is refused")
		return
	}
	halt(err == nil, "a fixed size value can be decoded")
	bad := false
	switch t {
	case 0:
		x, ok := v.(int32)
		bad = !ok || x != int32(uint32(raw))
	case 1:
		x, ok := v.(uint32)
		bad = !ok || x != uint32(raw)
	case 2:
		x, ok := v.(int64)
		bad = !ok || x != int64(raw)
	case 3:
		x, ok := v.(uint64)
		bad = !ok || x != raw
	case 4:
		x, ok := v.(float32)
		bad = !ok
		if ok {
			w := uint32(raw)
			if w&0x7f800000 == 0x7f800000 && w&0x7fffff != 0 {
				bad = x == x
			} else {
				bad = math.Float32bits(x) != w
			}
		}
	case 5:
		x, ok := v.(float64)
		bad = !ok
		if ok {
			if raw&0x7ff0000000000000 == 0x7ff0000000000000 && raw&0xfffffffffffff != 0 {
				bad = x == x
			} else {
				bad = math.Float64bits(x) != raw
			}
		}
	}
	req(!bad, "a raw value is decoded to exactly what its bits encode in its type")
}

// signed gives the dimension of a nibble.
func signed(n uint32) int8 {
	if n >= 8 {
		return int8(int32(n) - 16)
	}
	return int8(n)
}

// C29_unit: the decoders of every 32-bit unit word.
func C29_unit() {
	w := sym.Uint32("unit")
	u := mmvdump.Unit(w)
	req(u.SpaceDim() == signed(w>>28), "the space dimension is the signed top nibble")
	req(u.TimeDim() == signed(w>>24&15), "the time dimension is the signed second nibble")
	req(u.CountDim() == signed(w>>20&15), "the count dimension is the signed third nibble")
	req(uint32(u.SpaceScale()) == w>>16&15, "the space scale is the fourth nibble")
	req(uint32(u.TimeScale()) == w>>12&15, "the time scale is the fifth nibble")
	req(uint32(u.CountScale()) == w>>8&15, "the count scale is the sixth nibble")
}

var scaleNames = [3][]string{
	{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"},
	{"nsec", "usec", "msec", "sec", "min", "hr"},
	{"count"},
}

// text is the printed form of the dimensions and scales of a unit.
func text(dim [3]int, scale [3]uint32) string {
	var up, down string
	for k, d := range dim {
		if d == 0 {
			continue
		}
		s := "<invalid>"
		if int(scale[k]) < len(scaleNames[k]) {
			s = scaleNames[k][scale[k]]
			if d > 1 || d < -1 {
				s += "^" + strconv.Itoa(d)
			}
		}
		if d > 0 {
			up += s
		} else {
			down += s
		}
	}
	if down != "" {
		return up + " / " + down
	}
	return up
}

// C29_print: the printed form of units with any dimension and scale of one
// kind, and dimensions -2, 0 or 1 with two scales of the others (thorough:
// any dimension of all three with three scales), and arbitrary
// remaining bits.
func C29_print() {
	var dim [3]int
	var scale [3]uint32
	k := sym.Choose("kind", sym.Bound(3, 4))
	for i := range dim {
		id := string(rune('0' + i))
		switch {
		case i == k:
			dim[i] = sym.Choose("dim"+id, 16) - 8
			scale[i] = uint32(sym.Choose("scale"+id, 16))
		case k == 3:
			dim[i] = sym.Choose("dim"+id, 16) - 8
			scale[i] = []uint32{0, 5, 9}[sym.Choose("scale"+id, 3)]
		default:
			dim[i] = []int{0, 1, -2}[sym.Choose("dim"+id, 3)]
			scale[i] = []uint32{0, 4}[sym.Choose("scale"+id, 2)]
		}
	}
	w := uint32(sym.Uint8("rest"))
	for i := range dim {
		w |= uint32(dim[i]) & 15 << (28 - 4*uint(i))
		w |= scale[i] << (16 - 4*uint(i))
	}
	req(mmvdump.Unit(w).String() == text(dim, scale), "a unit prints as its dimensions and scales")
}
