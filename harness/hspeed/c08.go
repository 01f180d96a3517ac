package hspeed

import (
	"github.com/performancecopilot/speed/v4/mmvdump"
	"verif.local/harness/model"
	"verif.local/harness/sym"
)

// C08_stores: a client with up to three metrics of every kind, in both
// versions, with and without descriptions; the process dies after any set of
// stores to the mapped file that the happens-before order of the goroutines
// allows: the reader accepts the file only if every byte is the final one.
func C08_stores() {
	s := newScene("cl")
	k := sym.Choose("kind", nKinds+1)
	if k < nKinds {
		s.add(spec{kind: k, name: long("m", pick("v", 1, 64)), insts: names3[:2], bits: sym.Uint64("bits"), str: "val", desc: descs("d", sym.Choose("desc", 2)*3)})
	}
	if sym.Choose("more", 2) == 1 {
		s.add(spec{kind: kInstString, name: "n", insts: names3[:1], str: "w"})
		s.add(spec{kind: kString, name: "o", str: "w", desc: []string{"s"}})
	}
	sym.LogStores(true)
	final := append([]byte{}, s.start()...)
	img, _ := sym.CrashImage()
	accepted := dumps(img)
	if accepted {
		req(sym.EqBytes(img, final), "a file the reader accepts is complete")
	}
	req(dumps(final), "the reader accepts the complete file")
}

func dumps(b []byte) bool {
	_, _, _, _, _, _, _, err := mmvdump.Dump(b)
	return err == nil
}

// C08_files: the process dies before any file system operation of Start, with
// no file before, an old complete file of the same client (of the same or
// another size) or other old content.
func C08_files() {
	sym.NoNative()
	prev := sym.Choose("prev", 4)
	var old []byte
	if prev > 0 {
		o := newScene("cl")
		o.add(spec{kind: kInt32, name: "m", bits: 1})
		if prev == 2 {
			o.add(spec{kind: kString, name: "n", str: "old"})
		}
		old = append([]byte{}, o.start()...)
		o.stop()
		if prev == 3 {
			old = []byte("MMV\x00old content of some length that is no file of this kind")
		}
		model.Put(path("cl"), old)
	}
	s := newScene("cl")
	s.add(spec{kind: kInt32, name: "m", bits: 2})
	model.CrashAt(1 + sym.Choose("op", 12))
	dead, v := sym.Catch(func() { halt(s.c.Start() == nil, "the client starts") })
	model.CrashAt(0)
	if !dead {
		check(readFile("cl"), s.w)
		return
	}
	if _, ok := v.(model.CrashPoint); !ok {
		panic(v)
	}
	if !model.Exists(path("cl")) {
		return
	}
	left := readFile("cl")
	if dumps(left) {
		req(string(left) == string(old), "a file the reader accepts is complete")
	}
}

// C08_restart: the same as C08_stores when the client was started and stopped
// before, so that its complete old file is in place.
func C08_restart() {
	s := newScene("cl")
	k := []int{kInt64, kString, kInstance, kHistogram}[sym.Choose("kind", 4)]
	s.add(spec{kind: k, name: "m", insts: names3[:2], bits: 5, str: "val"})
	s.start()
	s.stop()
	if sym.Choose("grow", 2) == 1 {
		s.add(spec{kind: kString, name: "n", str: "w"})
	}
	old := readFile("cl")
	sym.LogStores(true)
	final := append([]byte{}, s.start()...)
	img, _ := sym.CrashImage()
	if dumps(img) {
		req(sym.Or(sym.EqBytes(img, final), sym.EqBytes(img, old)), "a file the reader accepts is complete")
	}
}
