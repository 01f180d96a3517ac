package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// pair of clients, each with its own registry, whose metrics and domains have
// the same names but not the same contents.
type pair struct {
	l [2]*life
	b [2][]byte // the files as last seen
}

// newPair gives both clients a metric "m" of their kind and, if both, a
// histogram and an instance metric of the same names.  Metrics of the kind
// instance share one domain, if share.
func newPair(k0, k1 int, both, share bool) *pair {
	p := &pair{}
	var dom *speed.PCPInstanceDomain
	if share {
		var err error
		dom, err = speed.NewPCPInstanceDomain("dom", names3[:2])
		halt(err == nil, "a domain can be created")
	}
	for i, k := range []int{k0, k1} {
		l := &life{scene: newScene([]string{"one", "two"}[i])}
		if i == 1 {
			halt(l.c.SetFlag(speed.NoPrefixFlag) == nil, "the flags of a stopped client can be set")
			l.w.flag = uint32(speed.NoPrefixFlag)
		}
		sp := spec{kind: k, name: "m", insts: names3[i : 2+i], bits: 3 + uint64(i), str: "v" + string(rune('0'+i)), desc: descs("m", i)}
		if share && k == kInstance {
			sp.indom, sp.xin = dom, &xIndom{name: "dom", insts: names3[:2]}
		}
		l.add(sp)
		if both {
			l.add(spec{kind: kHistogram, name: "h"})
			if i == 1 {
				l.add(spec{kind: kInstance, name: long("x", 64), insts: names3, bits: 9})
			}
		}
		p.l[i] = l
	}
	return p
}

// seen checks the file of every started client; those of the clients that
// were not operated on are the same as before.
func (p *pair) seen(touched int) {
	for i, l := range p.l {
		if i != touched && p.b[i] != nil {
			req(l.file && sym.EqBytes(readFile(l.w.client), p.b[i]), "operating a client leaves the file of another client alone")
			continue
		}
		p.b[i] = nil
		if l.file {
			p.b[i] = append([]byte{}, readFile(l.w.client)...)
			if l.up {
				check(p.b[i], l.w)
			}
		}
	}
	up := 0
	for _, l := range p.l {
		up += b2i(l.up)
		req(exists(l.w.client) == l.file, "a client creates and removes its own file only")
	}
	req(openFiles() <= up && mappings() == up, "stopping a client does not disturb another one")
}

// C31_orders: two clients, each with one metric (an int64, a string or a
// counter vector for the first one, a string for the second one) and a
// histogram, the second one with another metric in version 2; every sequence
// of three (thorough: four) operations out of Start, Stop with erasing or not,
// an update of the metric with any value (thorough: or a registration), on one
// client each.
func C31_orders() {
	k := []int{kInt64, kString, kCounterVec}
	p := newPair(k[sym.Choose("k0", 3)], kString, true, false)
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		id := string(rune('0' + i))
		who := sym.Choose("who"+id, 2)
		l := p.l[who]
		switch sym.Choose("op"+id, sym.Bound(3, 4)) {
		case 0:
			if l.up {
				req(l.c.Start() != nil, "a started client is not started again")
			} else {
				l.start(false)
			}
		case 1:
			if !l.up {
				req(l.c.Stop() != nil, "a stopped client is not stopped again")
				break
			}
			speed.EraseFileOnStop = i == 2
			halt(l.c.Stop() == nil, "a client can be stopped")
			l.file, l.up = !speed.EraseFileOnStop, false
			speed.EraseFileOnStop = false
		case 2:
			l.simple(0, "v"+id)
		case 3:
			l.change(0)
		}
		p.seen(who)
	}
}

// C31_kinds: two clients with a metric each, of any two kinds, that have the
// same name: both started, updated in turns, one stopped, the other updated
// once more (thorough: with any value), and the first one started again.
func C31_kinds() {
	p := newPair(sym.Choose("k0", nKinds), sym.Choose("k1", nKinds), false, false)
	a, b := p.l[0], p.l[1]
	a.start(false)
	p.seen(0)
	b.start(false)
	p.seen(1)
	a.bump(0, 11)
	p.seen(0)
	b.bump(0, 12)
	p.seen(1)
	halt(a.c.Stop() == nil, "a client can be stopped")
	a.up = false
	p.seen(0)
	if sym.Thorough() {
		b.simple(0, "w")
	} else {
		b.bump(0, 13)
	}
	p.seen(1)
	a.start(false)
	p.seen(0)
}

func (l *life) doStart() func() {
	return func() { halt(l.c.Start() == nil, "a client can be started while another one is used") }
}

func (l *life) doStop() func() {
	return func() { halt(l.c.Stop() == nil, "a client can be stopped while another one is used") }
}

// C31_concurrent: every schedule of an operation on each of two clients that
// have a metric of the same name: an int64, a string, an instance metric with a
// domain the clients share, or a histogram.  Operations: Start and Start (not with
// histograms), Start and Stop, Stop and Stop, Start and an update, Stop and an
// update, an update and an update, Start and creating a third client with a
// histogram.
func C31_concurrent() {
	k := []int{kInt64, kInstance, kHistogram, kString}[sym.Choose("kind", 4)]
	p := newPair(k, k, false, true)
	a, b := p.l[0], p.l[1]
	up := func(l *life, i int) {
		l.start(false)
		p.seen(i)
	}
	updateOf := func(l *life) func() {
		return func() {
			var err error
			switch m := l.objs[0].(type) {
			case *speed.PCPSingletonMetric:
				if k == kString {
					err = m.Set("by " + l.w.client)
				} else {
					err = m.Set(int64(77))
				}
			case *speed.PCPInstanceMetric:
				err = m.SetInstance(int64(77), names3[1])
			case *speed.PCPHistogram:
				err = m.Record(7)
			}
			halt(err == nil, "a metric can be set")
		}
	}
	update := updateOf(a)
	var fs [2]func()
	op := sym.Choose("op", 7)
	if k == kHistogram && op == 0 {
		return
	}
	switch op {
	case 0:
		fs = [2]func(){a.doStart(), b.doStart()}
	case 1:
		up(b, 1)
		fs = [2]func(){a.doStart(), b.doStop()}
	case 2:
		up(a, 0)
		up(b, 1)
		fs = [2]func(){a.doStop(), b.doStop()}
	case 3:
		up(a, 0)
		fs = [2]func(){update, b.doStart()}
	case 4:
		up(a, 0)
		up(b, 1)
		fs = [2]func(){update, b.doStop()}
	case 6:
		up(a, 0)
		up(b, 1)
		fs = [2]func(){update, updateOf(b)}
	case 5:
		fs = [2]func(){a.doStart(), func() {
			c, err := speed.NewPCPClient("three")
			halt(err == nil, "a client can be created while another one is used")
			h, err := speed.NewPCPHistogram("h", 0, 9, 1, speed.OneUnit)
			halt(err == nil && c.Register(h) == nil, "a histogram can be registered while another client is used")
		}}
	}
	sym.Schedule(-1)
	sym.Par(fs[0], fs[1])
	sym.Sequential()
	switch op {
	case 0:
		a.up, a.file, b.up, b.file = true, true, true, true
	case 1:
		a.up, a.file, b.up = true, true, false
	case 2:
		a.up, b.up = false, false
	case 3:
		b.up, b.file = true, true
	case 4:
		b.up = false
	case 5:
		a.up, a.file = true, true
	}
	p.b = [2][]byte{}
	if op == 3 || op == 4 || op == 6 {
		a.refresh(0, false)
	}
	if op == 6 {
		b.refresh(0, false)
		if k == kString {
			req(a.w.metrics[0].vals[0].val == "by one" && b.w.metrics[0].vals[0].val == "by two", "each metric has the value it was set to")
		}
	}
	for i, l := range p.l {
		if l.file && (l.up || op == 2) {
			check(readFile(l.w.client), l.w)
		}
		p.seen(i)
	}
}

// C31_names: two clients whose names are any two different file names of one
// or two bytes, or two longer ones that differ in one byte, at the start, in the
// middle or at the end: both started, updated in turns, one stopped with or
// without erasing, the other updated once more.
func C31_names() {
	var n [2]string
	switch sym.Choose("form", 6) {
	case 0:
		n = [2]string{sym.String("n0", 1), sym.String("n1", 1)}
	case 1:
		n = [2]string{sym.String("n0", 1), sym.String("n1", 2)}
	case 2:
		n = [2]string{sym.String("n0", 2), sym.String("n1", 2)}
	case 3:
		n = [2]string{sym.String("n0", 1) + ".client-name_1", sym.String("n1", 1) + ".client-name_1"}
	case 4:
		n = [2]string{"client" + sym.String("n0", 1) + "name", "client" + sym.String("n1", 1) + "name"}
	case 5:
		p := long("client", 80)
		n = [2]string{p + sym.String("n0", 1), p + sym.String("n1", 1)}
	}
	for _, s := range n {
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.And(s[i] != '/', s[i] != 0))
		}
		sym.Assume(s != "." && s != "..")
	}
	sym.Assume(n[0] != n[1])
	p := &pair{}
	for i, s := range n {
		l := &life{scene: newScene(s)}
		l.add(spec{kind: kInt64, name: "m", bits: uint64(i)})
		p.l[i] = l
	}
	p.l[0].start(false)
	p.seen(0)
	p.l[1].start(false)
	p.seen(1)
	for i, l := range p.l {
		l.bump(0, 20+i)
		p.seen(i)
	}
	i := sym.Choose("stopped", 2)
	a, b := p.l[i], p.l[1-i]
	speed.EraseFileOnStop = sym.Choose("erase", 2) == 1
	halt(a.c.Stop() == nil, "a client can be stopped")
	a.up, a.file = false, !speed.EraseFileOnStop
	speed.EraseFileOnStop = false
	p.seen(i)
	b.bump(0, 33)
	p.seen(1 - i)
}
