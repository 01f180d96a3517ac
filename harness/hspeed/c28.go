package hspeed

import (
	"fmt"
	"math"
	"strings"

	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/sym"
)

// shows tells whether a line of the printed dump has the metric, the instance
// and the value.
func shows(lines []string, name, inst, val string) bool {
	for _, l := range lines {
		at := strings.LastIndex(l, " = ")
		if at >= 0 && strings.Contains(l[:at], name) && strings.Contains(l[:at], inst) && strings.TrimRight(l[at+3:], "\x00") == val {
			return true
		}
	}
	return false
}

// C28_client: files published by clients with one metric of any kind with one
// of five values and another one of any of three kinds, with descriptions or
// not, in both versions, print without an error, and a line of the output has
// the name of the metric, the name of the instance and the value.
func C28_client() {
	s := newScene("cl")
	k := sym.Choose("kind", nKinds)
	name := "alpha"
	if sym.Choose("v2", 2) == 1 {
		name = long(name, 64)
	}
	bits := []uint64{0, 1, 42, 1<<40 | 7, ^uint64(6)}[sym.Choose("bits", 5)]
	switch k {
	case kDouble, kGauge, kGaugeVec:
		bits = math.Float64bits([]float64{0, 1.5, -7, 1e21, 0.1}[bits%5])
	case kFloat:
		bits = uint64(math.Float32bits([]float32{0, 1.5, -7, 1e21, 0.25}[bits%5]))
	case kCounter, kCounterVec:
		bits &= 1<<48 - 1
	}
	s.add(spec{kind: k, name: name, insts: names3[:2], bits: bits, str: "text", desc: descs("m", 3*sym.Choose("desc", 2))})
	switch sym.Choose("other", 3) {
	case 1:
		s.add(spec{kind: kInstString, name: "beta", insts: names3[1:], str: "w"})
	case 2:
		s.add(spec{kind: kHistogram, name: "beta", insts: names3[1:], desc: descs("n", 3)})
	}
	d := dumpFile(s.start())
	var out strings.Builder
	err := mmvdump.Write(&out, d.h, d.tocs, d.metrics, d.values, d.instances, d.indoms, d.strings)
	halt(err == nil, "what a client publishes can be printed")
	lines := strings.Split(out.String(), "\n")
	for _, x := range s.w.metrics {
		for _, v := range x.vals {
			req(shows(lines, x.name, v.inst, fmt.Sprint(v.val)), "the output names every metric with its value")
		}
	}
}
