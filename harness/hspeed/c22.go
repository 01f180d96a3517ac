package hspeed

import (
	"github.com/performancecopilot/speed/v4"
	"verif.local/harness/sym"
)

// scanner reads a metric string; at tells whether the character at a position
// is of a kind: 'w' for a letter, digit or underscore, 's' for white space,
// and the character itself for . [ ] and comma.  size is the number of bytes
// it has.
type scanner struct {
	s    string
	at   func(i int, k byte) bool
	size func(i int) int
	pos  int
}

func (p *scanner) is(k byte) bool {
	if p.pos == len(p.s) || !p.at(p.pos, k) {
		return false
	}
	p.pos += p.size(p.pos)
	return true
}

func (p *scanner) word() (string, bool) {
	from := p.pos
	for p.is('w') {
	}
	return p.s[from:p.pos], p.pos > from
}

// tail reads words that each follow a dot.
func (p *scanner) tail() bool {
	for p.is('.') {
		if _, ok := p.word(); !ok {
			return false
		}
	}
	return true
}

// grammar splits a metric string.
func (p *scanner) grammar() (name, base string, insts []string, ok bool) {
	if _, ok := p.word(); !ok || !p.tail() {
		return "", "", nil, false
	}
	base = p.s[:p.pos]
	name = base
	if p.is('[') {
		for {
			w, ok := p.word()
			if !ok {
				return "", "", nil, false
			}
			insts = append(insts, w)
			if !p.is(',') {
				break
			}
			p.is('s')
		}
		if !p.is(']') {
			return "", "", nil, false
		}
		from := p.pos
		if !p.tail() {
			return "", "", nil, false
		}
		name += p.s[from:p.pos]
	}
	return name, base, insts, p.pos == len(p.s)
}

// listed gives the words between the first bracket and the next closing one,
// whatever stands between them, and nil when there are none.
func (p *scanner) listed() []string {
	var out []string
	p.pos = 0
	for !p.is('[') {
		if p.pos == len(p.s) {
			return nil
		}
		p.pos += p.size(p.pos)
	}
	for p.pos < len(p.s) && !p.is(']') {
		if w, ok := p.word(); ok {
			out = append(out, w)
		} else {
			p.pos += p.size(p.pos)
		}
	}
	return out
}

// register checks what becomes of a metric string.
func (p *scanner) register() {
	name, base, insts, ok := p.grammar()
	s := newScene("cl")
	r := s.c.Registry()
	var m speed.Metric
	var err error
	words := insts
	if !ok {
		// refused whether the value is a scalar or made for whatever words
		// follow the bracket
		words = p.listed()
		if words != nil && sym.Choose("scalar", 2) == 1 {
			words = nil
		}
	}
	if words == nil {
		m, err = r.AddMetricByString(p.s, int64(7), speed.Int64Type, speed.CounterSemantics, speed.OneUnit)
	} else {
		v := speed.Instances{}
		for i, n := range words {
			v[n] = int64(i)
		}
		m, err = r.AddMetricByString(p.s, v, speed.Int64Type, speed.CounterSemantics, speed.OneUnit)
	}
	sym.Observe("accepted", err == nil)
	halt((err == nil) == ok, "a metric string is accepted exactly when it follows the grammar")
	if !ok {
		s.counts()
		return
	}
	req(m.Name() == name, "the metric is named by the string without the bracket")
	x := &xMetric{name: name, t: speed.Int64Type, sem: speed.CounterSemantics, vals: []xVal{{"", int64(7)}}}
	if insts != nil {
		im, isInst := m.(*speed.PCPInstanceMetric)
		halt(isInst, "a string with a bracket makes an instance metric")
		d := im.Indom()
		req(d.Name() == base, "the domain is named by the part before the bracket")
		x.indom, x.vals = &xIndom{name: base}, nil
		for i, n := range insts {
			req(d.HasInstance(n), "the listed words are the instances")
			last := true
			for _, o := range insts[i+1:] {
				if o == n {
					last = false
				}
			}
			if last {
				x.indom.insts = append(x.indom.insts, n)
				x.vals = append(x.vals, xVal{n, int64(i)})
			}
		}
		req(d.InstanceCount() == len(x.vals), "there are no instances besides the listed words")
		s.w.indoms = append(s.w.indoms, x.indom)
	}
	s.w.metrics, s.objs = append(s.w.metrics, x), append(s.objs, m)
	s.counts()
	s.refresh(0, true)
}

func asciiIs(b, k byte) bool {
	switch k {
	case 'w':
		return sym.Or(sym.Or(sym.And(b >= 'a', b <= 'z'), sym.And(b >= 'A', b <= 'Z')), sym.Or(sym.And(b >= '0', b <= '9'), b == '_'))
	case 's':
		return sym.Or(sym.Or(b == ' ', sym.Or(b == '\t', b == '\n')), sym.Or(b == '\f', b == '\r'))
	}
	return b == k
}

func scan(s string) *scanner {
	return &scanner{s: s, at: func(i int, k byte) bool { return asciiIs(s[i], k) }, size: func(int) int { return 1 }}
}

// C22_ascii: every ASCII string of up to 8 bytes (thorough: 10).
func C22_ascii() {
	s := sym.String("s", sym.Choose("len", sym.Bound(9, 11)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	scan(s).register()
}

// C22_lists: every string that ends with up to five arbitrary ASCII bytes
// (thorough: eight) after the start of a list of instances.
func C22_lists() {
	pre := []string{"a.b[x,", "a[x, yy", "a[x, y]"}[sym.Choose("prefix", 3)]
	t := sym.String("s", sym.Choose("len", sym.Bound(6, 9)))
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] < 0x80)
	}
	s := pre + t
	scan(s).register()
}

var tokens = []struct {
	text string
	kind byte
}{
	{"a", 'w'}, {"é", 'w'}, {"٣", 'w'}, {"世", 'w'}, {"½", 'w'}, {"𝒳", 'w'},
	{".", '.'}, {"[", '['}, {"]", ']'}, {",", ','}, {" ", 's'},
	{"\u00a0", 'x'}, {"€", 'x'}, {"\xff", 'x'}, {"\u0301", 'x'}, {"-", 'x'},
}

// C22_unicode: sequences of up to 2 characters (thorough: 3), ASCII or not and
// valid UTF-8 or not, from a list of 16, at every position of the grammar.
func C22_unicode() {
	pre := []string{"", "b", "b[", "b[c", "b[c,", "b[c]"}[sym.Choose("prefix", 6)]
	suf := []string{"", "]", ".d", "].d"}[sym.Choose("suffix", 4)]
	s := pre
	kind := map[int]int{}
	for i, n := 0, sym.Choose("n", sym.Bound(2, 3))+1; i < n; i++ {
		k := sym.Choose("tok"+string(rune('0'+i)), len(tokens))
		kind[len(s)] = k + 1
		s += tokens[k].text
	}
	s += suf
	p := &scanner{s: s, at: func(i int, want byte) bool {
		if k := kind[i]; k > 0 {
			return tokens[k-1].kind == want
		}
		return asciiIs(s[i], want)
	}, size: func(i int) int {
		if k := kind[i]; k > 0 {
			return len(tokens[k-1].text)
		}
		return 1
	}}
	p.register()
}
