package hspeed

import (
	"os"
	"strings"

	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/model"
	"verif.local/harness/sym"
)

// openFiles is the number of open descriptors of MMV files.
func openFiles() int {
	if !sym.Native() {
		return model.OpenFiles()
	}
	n := 0
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.Contains(t, "/mmv/") {
			n++
		}
	}
	return n
}

// mappings is the number of mapped MMV files.
func mappings() int {
	if !sym.Native() {
		return model.Mapped()
	}
	n := 0
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/mmv/") {
			n++
		}
	}
	return n
}

func exists(name string) bool {
	_, err := os.Stat(path(name))
	return err == nil
}

// life is a scene together with what the life cycle has to look like.
type life struct {
	*scene
	up     bool
	extra  int  // names used so far
	file   bool // a file is there
	pad    int  // the least length of new names
}

func (l *life) idle() {
	if l.up {
		return
	}
	req(openFiles() == 0, "a stopped client holds no descriptor")
	req(mappings() == 0, "a stopped client holds no mapping")
	req(exists(l.w.client) == l.file, "Stop removes the file exactly when erasing is requested")
}

// start starts the client and checks the file, or that it is refused.
func (l *life) start(must bool) {
	var err error
	if must {
		err = catch(func() { l.c.MustStart() })
	} else {
		err = l.c.Start()
	}
	halt((err == nil) == !l.up, "Start succeeds exactly on a stopped client")
	l.up, l.file = true, true
	check(readFile(l.w.client), l.w)
}

// stop stops the client, erasing its file or not, or checks that it is
// refused.
func (l *life) stop(must, erase bool) {
	var before []byte
	if l.file {
		before = append([]byte{}, readFile(l.w.client)...)
	}
	speed.EraseFileOnStop = erase
	var err error
	if must {
		err = catch(func() { l.c.MustStop() })
	} else {
		err = l.c.Stop()
	}
	speed.EraseFileOnStop = false
	halt((err == nil) == l.up, "Stop succeeds exactly on a started client")
	if l.up {
		l.file = !erase
	}
	l.up = false
	l.idle()
	if l.file {
		req(sym.EqBytes(readFile(l.w.client), before), "Stop leaves the contents of the file alone")
	}
}

// change tries to register something new.
func (l *life) change(how int) {
	n := long("n"+string(rune('0'+l.extra)), l.pad)
	l.extra++
	r := l.c.Registry()
	var err error
	add := func(t speed.MetricType, v interface{}) {
		if !l.up {
			l.w.metrics = append(l.w.metrics, &xMetric{name: n, t: t, unit: speed.OneUnit.PMAPI(), vals: []xVal{{"", v}}})
			l.objs = append(l.objs, nil)
		}
	}
	m := func(d ...string) speed.Metric {
		m, err := speed.NewPCPSingletonMetric("txt", n, speed.StringType, speed.NoSemantics, speed.OneUnit, d...)
		halt(err == nil, "a metric can be created")
		return m
	}
	switch how {
	case 0:
		err = l.c.Register(m())
		add(speed.StringType, "txt")
	case 1:
		_, err = l.c.RegisterString(n, int32(7), speed.Int32Type, speed.NoSemantics, speed.OneUnit)
		add(speed.Int32Type, int32(7))
	case 2:
		d, derr := speed.NewPCPInstanceDomain(n, names3[:1], "about")
		halt(derr == nil, "a domain can be created")
		err = l.c.RegisterIndom(d)
		if !l.up {
			l.indom(&xIndom{name: n, insts: names3[:1], short: "about"})
		}
	case 3:
		err = catch(func() { l.c.MustRegister(m()) })
		add(speed.StringType, "txt")
	case 4:
		err = catch(func() {
			l.c.MustRegisterString(n, int32(7), speed.Int32Type, speed.NoSemantics, speed.OneUnit)
		})
		add(speed.Int32Type, int32(7))
	case 5:
		_, err = r.AddInstanceDomainByName(n, names3[:2])
		if !l.up {
			l.indom(&xIndom{name: n, insts: names3[:2]})
		}
	case 6:
		_, err = l.c.RegisterString(n+"[a].t", speed.Instances{"a": int32(7)}, speed.Int32Type, speed.NoSemantics, speed.OneUnit)
		if !l.up {
			d := &xIndom{name: n, insts: names3[:1]}
			l.indom(d)
			l.w.metrics = append(l.w.metrics, &xMetric{name: n + ".t", t: speed.Int32Type, unit: speed.OneUnit.PMAPI(), indom: d, vals: []xVal{{"a", int32(7)}}})
			l.objs = append(l.objs, nil)
		}
	case 7:
		d, derr := speed.NewPCPInstanceDomain(n, nil)
		halt(derr == nil, "a domain can be created")
		err = catch(func() { l.c.MustRegisterIndom(d) })
		if !l.up {
			l.indom(&xIndom{name: n})
		}
	}
	halt((err == nil) == !l.up, "the registry can be changed exactly while the client is stopped")
	if l.up {
		check(readFile(l.w.client), l.w)
	}
}

// flags tries to change the flags.
func (l *life) flags(f speed.MMVFlag) {
	err := l.c.SetFlag(f)
	req((err == nil) == !l.up, "the flags can be changed exactly while the client is stopped")
	if err == nil {
		l.w.flag = uint32(f)
	}
}

func catch(f func()) error {
	p, v := sym.Catch(f)
	if !p {
		return nil
	}
	err, ok := v.(error)
	if !ok {
		panic(v)
	}
	return err
}

func (l *life) step(id string, changes int) {
	switch sym.Choose("op"+id, 5) {
	case 0:
		l.start(false)
	case 1:
		l.stop(false, sym.Choose("erase"+id, 2) == 1)
	case 2:
		l.change(sym.Choose("change"+id, changes))
	case 3:
		l.flags(speed.MMVFlag(sym.Int32("flag" + id)))
	case 4:
		l.simple(0, "v"+id)
		if l.up {
			check(readFile(l.w.client), l.w)
		}
	}
	l.idle()
}

// C10_seq: a client with one metric of three kinds; every sequence of three
// (thorough: four) operations out of Start, Stop with and without erasing,
// registrations of a metric, a metric string and a domain, SetFlag with any
// value, and an update of the metric with any value; a last Start publishes
// everything.
func C10_seq() {
	l := &life{scene: newScene("cl")}
	k := []int{kInt64, kString, kGaugeVec}[sym.Choose("kind", 3)]
	l.add(spec{kind: k, name: "m", insts: names3[:2], bits: 3, str: "init"})
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		l.step(string(rune('0'+i)), sym.Bound(2, 3))
	}
	if !l.up {
		l.start(false)
	}
	l.stop(false, true)
}

// C10_refused: a client with one metric of any kind; every way of changing
// the registry, with and without panicking, before the first Start, while the
// client is started, after Stop and after a second Start.
func C10_refused() {
	l := &life{scene: newScene("cl")}
	k := sym.Choose("kind", nKinds)
	l.add(spec{kind: k, name: "m", insts: names3[:2], bits: 3, str: "init"})
	must := sym.Choose("must", 2) == 1
	when := sym.Choose("when", 4)
	how := sym.Choose("how", 9)
	at := func(n int) {
		if n == when {
			if how == 8 {
				l.flags(speed.NoPrefixFlag | speed.SentinelFlag)
			} else {
				l.change(how)
			}
		}
		l.idle()
	}
	at(0)
	l.start(must)
	at(1)
	l.start(must)
	l.stop(must, sym.Choose("erase", 2) == 1)
	at(2)
	l.stop(must, true)
	l.start(must)
	at(3)
	l.stop(must, false)
}

// C10_after: a client with a metric of any kind and an arbitrary initial value
// that has been stopped once (thorough: or twice): an update by any operation is kept, is
// not written to the old file, touches no released memory, and is published by
// the next Start, after which updates reach the file again.  In a version 1
// or a version 2 file.
func C10_after() {
	l := &life{scene: newScene("cl")}
	k := sym.Choose("kind", nKinds)
	l.add(spec{kind: k, name: long("m", pick("name", 1, 64)), insts: names3[:2], bits: initial(k, "bits"), str: "init"})
	for i, n := 0, 1+sym.Choose("again", sym.Bound(1, 2)); i < n; i++ {
		l.start(false)
		l.stop(false, false)
	}
	old := append([]byte{}, readFile("cl")...)
	l.update(0, "u")
	req(sym.EqBytes(readFile("cl"), old), "an update of a stopped client's metric does not reach its file")
	l.start(false)
	b := readFile("cl")
	l.watch(0, b, func() { l.simple(0, "w") })
	l.stop(false, true)
}

// C10_cycle: longer histories over a smaller alphabet: every sequence of five
// (thorough: six) operations out of Start, Stop, registration of a metric and
// an update to a fresh value of the metric registered first.  All names are
// short, or the first one is, or the others are too long for version 1.
func C10_cycle() {
	l := &life{scene: newScene("cl")}
	ln := sym.Choose("long", 3)
	if ln == 2 {
		l.pad = 64
	}
	l.add(spec{kind: kInt64, name: long("m", []int{1, 64, 1}[ln]), bits: 3})
	for i, n := 0, sym.Bound(5, 6); i < n; i++ {
		switch sym.Choose("op"+string(rune('0'+i)), 4) {
		case 0:
			l.start(false)
		case 1:
			l.stop(false, i == 2)
		case 2:
			l.change(0)
		case 3:
			halt(l.objs[0].(*speed.PCPSingletonMetric).Set(int64(100+i)) == nil, "a metric can be set")
			l.w.metrics[0].vals[0].val = int64(100 + i)
			l.refresh(0, true)
			if l.up {
				check(readFile("cl"), l.w)
			}
		}
		l.idle()
	}
}

// C10_during: a started client with two metrics out of an int, a string, a
// vector and a string instance metric; Stop, with and without erasing, while
// another goroutine updates the first metric, under every schedule: nothing
// touches released memory, the update is kept, and the next Start publishes
// it.
func C10_during() {
	l := &life{scene: newScene("cl")}
	kinds := []int{kInt64, kString, kCounterVec, kInstString}
	k := sym.Choose("kind", len(kinds))
	l.add(spec{kind: kinds[k], name: "m", insts: names3[:2], bits: 3, str: "init"})
	l.add(spec{kind: kinds[(k+1)%4], name: "n", insts: names3[:2], bits: 3, str: "init"})
	l.start(false)
	erase := sym.Choose("erase", 2) == 1
	sym.Schedule(sym.Bound(2, 3))
	sym.Par(
		func() {
			speed.EraseFileOnStop = erase
			halt(l.c.Stop() == nil, "Stop succeeds on a started client")
			speed.EraseFileOnStop = false
		},
		func() { l.bump(0, 77) },
	)
	sym.Sequential()
	l.up, l.file = false, !erase
	l.idle()
	l.refresh(0, true)
	l.start(false)
	l.stop(false, true)
}
