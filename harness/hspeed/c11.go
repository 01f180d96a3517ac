package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/model"
	"verif.local/harness/sym"
)

// previous puts a file of the given kind where the client's file will be:
// none, a complete one of another run, or something else.
func previous(prev int) []byte {
	switch prev {
	case 1:
		o := newScene("cl")
		o.add(spec{kind: kInt32, name: "other", bits: 1})
		b := append([]byte{}, o.start()...)
		o.stop()
		return b
	case 2:
		b := []byte("MMV\x00some other content")
		model.Put(path("cl"), b)
		return b
	}
	return nil
}

// failed checks what a failed Start left behind.
func failed(old []byte) {
	req(model.OpenFiles() == 0, "a failed Start leaves no open descriptor")
	req(model.Mapped() == 0, "a failed Start leaves no mapping")
	if model.Exists(path("cl")) {
		if b := readFile("cl"); dumps(b) {
			req(string(b) == string(old), "a failed Start leaves no file that a reader accepts")
		}
	}
}

// C11_start: one system call of Start fails, with no file before, a complete
// one or a foreign one; then the client can still be changed, and started.
func C11_start() {
	k := []int{kString, kInstance, kHistogram}[sym.Choose("kind", 3)]
	failStart(k, 1, sym.Choose("must", 2) == 1, sym.Choose("then", 3))
}

// C11_start2: the same with up to two (thorough: three) failing system calls
// and a string metric.
func C11_start2() { failStart(kString, sym.Bound(2, 3), false, 1) }

func failStart(k, faults int, must bool, then int) {
	sym.NoNative()
	old := previous(sym.Choose("prev", 3))
	s := newScene("cl")
	s.add(spec{kind: k, name: "m", insts: names3[:2], bits: sym.Uint64("bits"), str: sym.String("str", 3)})
	if !must {
		sym.Faults(faults)
		err := s.c.Start()
		n := sym.NFaults()
		sym.Faults(0)
		if n == 0 {
			halt(err == nil, "Start succeeds when nothing fails")
		}
		if err == nil {
			check(readFile("cl"), s.w)
			s.stop()
			return
		}
	} else {
		sym.Faults(faults)
		err := catch(s.c.MustStart)
		sym.Faults(0)
		if err == nil {
			check(readFile("cl"), s.w)
			return
		}
	}
	failed(old)
	req(s.c.Stop() != nil, "a client whose Start failed is stopped")
	s.bump(0, 10)
	switch then {
	case 1:
		s.add(spec{kind: kString, name: "n", str: "w"})
	case 2:
		halt(s.c.SetFlag(speed.NoPrefixFlag) == nil, "the flags can be changed after a failed Start")
		s.w.flag = uint32(speed.NoPrefixFlag)
	}
	b := s.start()
	check(b, s.w)
	s.watch(0, b, func() { s.update2(0, 20) })
	s.stop()
	req(model.OpenFiles() == 0 && model.Mapped() == 0, "a stopped client holds no descriptor and no mapping")
}

// C11_stop: one system call of Stop fails (any number of them for a string
// metric, and in the thorough tier), erasing the file or not: the
// metrics never touch released memory afterwards, the client is stopped and
// can be started again.
func C11_stop() {
	sym.NoNative()
	s := newScene("cl")
	k := sym.Choose("kind", nKinds)
	bits := uint64(7)
	if k != kCounter && k != kCounterVec {
		bits = initial(k, "bits")
	}
	s.add(spec{kind: k, name: "m", insts: names3[:2], bits: bits, str: sym.String("str", 3)})
	s.start()
	erase := sym.Choose("erase", 2) == 1
	speed.EraseFileOnStop = erase
	must := sym.Choose("must", 2) == 1
	faults := sym.Bound(1, 3)
	if k == kString && !must {
		faults = 3
	}
	sym.Faults(faults)
	var err error
	if !must {
		err = s.c.Stop()
	} else {
		err = catch(s.c.MustStop)
	}
	n := sym.NFaults()
	sym.Faults(0)
	speed.EraseFileOnStop = false
	req((err != nil) == (n > 0), "Stop fails exactly when a system call fails")
	req(model.OpenFiles() == 0, "a failed Stop leaves no open descriptor")
	req(model.Mapped() <= n, "a mapping is left only if it could not be removed")
	if n == 0 {
		req(model.Exists(path("cl")) == !erase, "Stop removes the file exactly when erasing is requested")
	}
	s.bump(0, 10)
	req(s.c.Stop() != nil, "a client whose Stop failed is stopped")
	left := model.Mapped()
	b := s.start()
	check(b, s.w)
	s.watch(0, b, func() { s.update2(0, 20) })
	s.stop()
	req(model.OpenFiles() == 0 && model.Mapped() == left, "a stopped client holds no descriptor and no mapping")
}

// update2 sets the first value: to an arbitrary one unless it is a float or a
// string.
func (s *scene) update2(i, n int) {
	if m, ok := s.objs[i].(*speed.PCPInstanceMetric); ok && m.Type() == speed.Int64Type {
		s.simple(i, "w")
		return
	}
	s.bump(i, n)
}

// C11_history: one failure anywhere in a history of Start, Stop, Start, Stop
// with an update after each and a registration in between; every operation
// that succeeded has its full effect.
func C11_history() {
	sym.NoNative()
	s := newScene("cl")
	s.add(spec{kind: kString, name: "m", str: sym.String("str", 3)})
	up := false
	sym.Faults(sym.Bound(1, 2))
	for i, op := range []int{0, 1, 2, 0, 1, 0} {
		switch op {
		case 0:
			if up {
				continue
			}
			if err := s.c.Start(); err == nil {
				up = true
			} else {
				req(sym.NFaults() > 0, "Start succeeds when nothing fails")
			}
		case 1:
			if !up {
				continue
			}
			up = false
			if err := s.c.Stop(); err != nil {
				req(sym.NFaults() > 0, "Stop succeeds when nothing fails")
			}
		case 2:
			s.add(spec{kind: kString, name: "n", str: "w", desc: []string{"d"}})
		}
		s.objs[0].(*speed.PCPSingletonMetric).MustSet("v" + string(rune('0'+i)))
		s.refresh(0, false)
		if up {
			check(model.Data(path("cl")), s.w)
		}
	}
	sym.Faults(0)
	if !up {
		s.start()
	}
	check(readFile("cl"), s.w)
	s.stop()
}
