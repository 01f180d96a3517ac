package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"slices"
	"sort"
	"strings"
)

// Regular expressions are compiled by the real regexp package. A match on a
// string with symbolic bytes forks every byte over the classes of bytes that
// no instruction of the compiled program can tell apart, and then runs the
// real matcher on representatives of the classes.

type hostRe struct {
	re      *regexp.Regexp
	prog    *syntax.Prog
	classes [][]byte // members, ASCII only
}

func compileRe(p string) (*hostRe, error) {
	re, err := regexp.Compile(p)
	if err != nil {
		return nil, err
	}
	sx, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(sx.Simplify())
	if err != nil {
		return nil, err
	}
	h := &hostRe{re: re, prog: prog}
	idx := map[string]int{}
	for b := 0; b < 128; b++ {
		var sb strings.Builder
		for i := range prog.Inst {
			in := &prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if in.MatchRune(rune(b)) {
					sb.WriteByte('1')
				} else {
					sb.WriteByte('0')
				}
			case syntax.InstEmptyWidth:
				if b == '\n' {
					sb.WriteByte('n')
				}
				if syntax.IsWordChar(rune(b)) {
					sb.WriteByte('w')
				}
			}
		}
		k := sb.String()
		i, ok := idx[k]
		if !ok {
			i = len(h.classes)
			idx[k] = i
			h.classes = append(h.classes, nil)
		}
		h.classes[i] = append(h.classes[i], byte(b))
	}
	// bigger classes last: the last one needs no query
	for i := 1; i < len(h.classes); i++ {
		for j := i; j > 0 && len(h.classes[j]) < len(h.classes[j-1]); j-- {
			h.classes[j], h.classes[j-1] = h.classes[j-1], h.classes[j]
		}
	}
	return h, nil
}

// merge joins the classes that no live instruction can tell apart.
func (h *hostRe) merge(live map[uint32]bool) [][]byte {
	for i := range h.prog.Inst {
		in := &h.prog.Inst[i]
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return h.classes
		}
	}
	var pcs []int
	for pc := range live {
		switch h.prog.Inst[pc].Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			pcs = append(pcs, int(pc))
		}
	}
	sort.Ints(pcs)
	idx := map[string]int{}
	var out [][]byte
	for _, cl := range h.classes {
		sig := make([]byte, len(pcs))
		for j, pc := range pcs {
			if h.prog.Inst[pc].MatchRune(rune(cl[0])) {
				sig[j] = 1
			}
		}
		i, ok := idx[string(sig)]
		if !ok {
			i = len(out)
			idx[string(sig)] = i
			out = append(out, nil)
		}
		out[i] = append(out[i], cl...)
	}
	for i := range out {
		slices.Sort(out[i])
	}
	return out
}

func (m *M) inClass(b *Term, cl []byte) *Term {
	r := m.c.False
	for i := 0; i < len(cl); {
		j := i
		for j+1 < len(cl) && cl[j+1] == cl[j]+1 {
			j++
		}
		var t *Term
		if i == j {
			t = m.c.Eq(b, m.c.BV(8, uint64(cl[i])))
		} else {
			t = m.c.And(m.c.Cmp(OUle, m.c.BV(8, uint64(cl[i])), b), m.c.Cmp(OUle, b, m.c.BV(8, uint64(cl[j]))))
		}
		r = m.c.Or(r, t)
		i = j + 1
	}
	return r
}

// closure adds the states reachable from pc without consuming input; empty
// width assertions other than \A and \z are taken to hold.
func (h *hostRe) closure(set map[uint32]bool, pc uint32, i, n int) {
	if set[pc] {
		return
	}
	set[pc] = true
	in := &h.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		h.closure(set, in.Out, i, n)
		h.closure(set, in.Arg, i, n)
	case syntax.InstCapture, syntax.InstNop:
		h.closure(set, in.Out, i, n)
	case syntax.InstEmptyWidth:
		op := syntax.EmptyOp(in.Arg)
		if op&syntax.EmptyBeginText != 0 && i != 0 {
			return
		}
		if op&syntax.EmptyEndText != 0 && i != n {
			return
		}
		h.closure(set, in.Out, i, n)
	}
}

// represent fixes the class of every byte that can influence the match.
func (m *M) represent(h *hostRe, s *Str) string {
	if s.opq {
		unsup("regexp match on text formatted from a symbolic number")
	}
	if s.conc {
		return s.s
	}
	n := len(s.b)
	out := make([]byte, n)
	live := map[uint32]bool{}
	h.closure(live, uint32(h.prog.Start), 0, n)
	matched := false
	for i, t := range s.b {
		alive := false
		for pc := range live {
			switch h.prog.Inst[pc].Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				alive = true
			case syntax.InstMatch:
				matched = true
			}
		}
		startable := false
		if !matched {
			ns := map[uint32]bool{}
			h.closure(ns, uint32(h.prog.Start), i, n)
			for pc := range ns {
				switch h.prog.Inst[pc].Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					startable = true
				}
				live[pc] = true
			}
			// could a match start at a later position?
			if !startable && h.reanchors() {
				startable = true
			}
		}
		if t.isConst() {
			out[i] = byte(t.c)
		} else if !alive && !startable {
			out[i] = 'x'
			continue
		} else {
			if !m.branch(m.c.Cmp(OUlt, t, m.c.BV(8, 0x80))) {
				m.cut("regular expression match on symbolic non-ASCII text")
				panic(sigEnd{"cut"})
			}
			classes := h.classes
			if !startable || !h.reanchors() {
				classes = h.merge(live)
			}
			k := len(classes) - 1
			for j := 0; j < len(classes)-1; j++ {
				if m.branch(m.inClass(t, classes[j])) {
					k = j
					break
				}
			}
			out[i] = classes[k][0]
			// prefer a printable representative
			for _, b := range classes[k] {
				if b > 32 && b < 127 {
					out[i] = b
					break
				}
			}
		}
		next := map[uint32]bool{}
		for pc := range live {
			in := &h.prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if out[i] >= 0x80 || in.MatchRune(rune(out[i])) {
					h.closure(next, in.Out, i+1, n)
					if out[i] >= 0x80 {
						next[pc] = true // inside a multi byte rune: stay conservative
					}
				}
			}
		}
		live = next
	}
	return string(out)
}

// reanchors reports whether the program may begin a match at a position
// other than the start of the text.
func (h *hostRe) reanchors() bool {
	set := map[uint32]bool{}
	h.closure(set, uint32(h.prog.Start), 1, 1<<30)
	for pc := range set {
		switch h.prog.Inst[pc].Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL, syntax.InstMatch:
			return true
		}
	}
	return false
}

func (m *M) reOf(v Value) *hostRe {
	o, ok := v.(*Obj)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return o.v.(*hostRe)
}

func (m *M) strSlice2(ss []Value, et types.Type) Value {
	a := m.newArr(et, len(ss))
	for i, s := range ss {
		m.storeCell(m.elem(a, i), s)
	}
	return m.mkSlice(a)
}

func (m *M) subs(s *Str, ix []int) []Value {
	var out []Value
	for i := 0; i+1 < len(ix); i += 2 {
		if ix[i] < 0 {
			out = append(out, emptyStr)
		} else {
			out = append(out, m.strSlice(s, ix[i], ix[i+1]))
		}
	}
	return out
}

func (m *M) intsVal(ix []int) Value {
	a := m.newArr(types.Typ[types.Int], len(ix))
	for i, v := range ix {
		m.storeCell(m.elem(a, i), m.int64c(v))
	}
	return m.mkSlice(a)
}

func (m *M) strOf(v Value) *Str {
	if s, ok := v.(*Str); ok {
		return s
	}
	return m.strFromTerms(m.sliceBytes(v.(*Slice)))
}

func regexIntrinsics(I map[string]Intrinsic) {
	compile := func(m *M, v Value) (Value, error) {
		p := v.(*Str)
		if !p.conc {
			unsup("symbolic regular expression")
		}
		key := "re:" + p.s
		h, ok := m.w.hostCache[key]
		if !ok {
			hr, err := compileRe(p.s)
			if err != nil {
				return nilPtr, err
			}
			h = hr
			m.w.hostCache[key] = h
		}
		return &Obj{h}, nil
	}
	I["regexp.Compile"] = ret1(func(m *M, a []Value) Value {
		r, err := compile(m, a[0])
		if err != nil {
			// the text of the error is never inspected
			return Tuple{nilPtr, Iface{m.w.ld.rtErr, m.mkStr(err.Error())}}
		}
		return Tuple{r, Iface{}}
	})
	I["regexp.MustCompile"] = ret1(func(m *M, a []Value) Value {
		r, err := compile(m, a[0])
		if err != nil {
			m.rtPanicVal("regexp: Compile: " + err.Error())
		}
		return r
	})
	strT := types.Typ[types.String]
	I["regexp.MatchString"] = ret1(func(m *M, a []Value) Value {
		r, err := compile(m, a[0])
		if err != nil {
			return Tuple{m.c.False, Iface{m.w.ld.rtErr, m.mkStr(err.Error())}}
		}
		h := m.reOf(r)
		return Tuple{m.c.Bool(h.re.MatchString(m.represent(h, a[1].(*Str)))), Iface{}}
	})
	match := ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		return m.c.Bool(h.re.MatchString(m.represent(h, m.strOf(a[1]))))
	})
	I["(*regexp.Regexp).MatchString"] = match
	I["(*regexp.Regexp).Match"] = match
	I["(*regexp.Regexp).FindStringSubmatch"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		s := a[1].(*Str)
		ix := h.re.FindStringSubmatchIndex(m.represent(h, s))
		if ix == nil {
			return m.w.nilSlice
		}
		return m.strSlice2(m.subs(s, ix), strT)
	})
	I["(*regexp.Regexp).FindStringSubmatchIndex"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		ix := h.re.FindStringSubmatchIndex(m.represent(h, a[1].(*Str)))
		if ix == nil {
			return m.w.nilSlice
		}
		return m.intsVal(ix)
	})
	I["(*regexp.Regexp).FindStringIndex"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		ix := h.re.FindStringIndex(m.represent(h, a[1].(*Str)))
		if ix == nil {
			return m.w.nilSlice
		}
		return m.intsVal(ix)
	})
	I["(*regexp.Regexp).FindString"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		s := a[1].(*Str)
		ix := h.re.FindStringIndex(m.represent(h, s))
		if ix == nil {
			return emptyStr
		}
		return m.strSlice(s, ix[0], ix[1])
	})
	// the search for all matches restarts after each match, so every byte
	// may matter
	all := func(m *M, h *hostRe, s *Str) string {
		if s.conc {
			return m.represent(h, s)
		}
		out := make([]byte, len(s.b))
		for i, t := range s.b {
			out[i] = m.represent(&hostRe{re: h.re, prog: anyProg, classes: h.classes}, m.strSym(t))[0]
		}
		return string(out)
	}
	I["(*regexp.Regexp).FindAllString"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		s := a[1].(*Str)
		n := int(int64(m.concretize(a[2].(*Term), "count")))
		ixs := h.re.FindAllStringIndex(all(m, h, s), n)
		if ixs == nil {
			return m.w.nilSlice
		}
		var out []Value
		for _, ix := range ixs {
			out = append(out, m.strSlice(s, ix[0], ix[1]))
		}
		return m.strSlice2(out, strT)
	})
	I["(*regexp.Regexp).FindAllStringSubmatch"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		s := a[1].(*Str)
		n := int(int64(m.concretize(a[2].(*Term), "count")))
		ixs := h.re.FindAllStringSubmatchIndex(all(m, h, s), n)
		if ixs == nil {
			return m.w.nilSlice
		}
		var out []Value
		for _, ix := range ixs {
			out = append(out, m.strSlice2(m.subs(s, ix), strT))
		}
		return m.strSlice2(out, types.NewSlice(strT))
	})
	I["(*regexp.Regexp).Split"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		s := a[1].(*Str)
		if !s.conc {
			unsup("Regexp.Split of a symbolic string")
		}
		n := int(int64(m.concretize(a[2].(*Term), "count")))
		var out []Value
		for _, p := range h.re.Split(s.s, n) {
			out = append(out, m.mkStr(p))
		}
		return m.strSlice2(out, strT)
	})
	I["(*regexp.Regexp).ReplaceAllString"] = ret1(func(m *M, a []Value) Value {
		h := m.reOf(a[0])
		s, r := a[1].(*Str), a[2].(*Str)
		if !s.conc || !r.conc {
			unsup("Regexp.ReplaceAllString of a symbolic string")
		}
		return m.mkStr(h.re.ReplaceAllString(s.s, r.s))
	})
	I["(*regexp.Regexp).String"] = ret1(func(m *M, a []Value) Value { return m.mkStr(m.reOf(a[0]).re.String()) })
	I["(*regexp.Regexp).NumSubexp"] = ret1(func(m *M, a []Value) Value { return m.int64c(m.reOf(a[0]).re.NumSubexp()) })
	I["(*regexp.Regexp).SubexpIndex"] = ret1(func(m *M, a []Value) Value {
		return m.int64c(m.reOf(a[0]).re.SubexpIndex(concName(a[1])))
	})
	I["(*regexp.Regexp).SubexpNames"] = ret1(func(m *M, a []Value) Value {
		var out []Value
		for _, n := range m.reOf(a[0]).re.SubexpNames() {
			out = append(out, m.mkStr(n))
		}
		return m.strSlice2(out, strT)
	})
	I["(*regexp.Regexp).Longest"] = ret1(func(m *M, a []Value) Value { unsup("Regexp.Longest"); return nil })
	I["regexp.QuoteMeta"] = ret1(func(m *M, a []Value) Value { return m.mkStr(regexp.QuoteMeta(concName(a[0]))) })
}

var anyProg = func() *syntax.Prog {
	r, _ := syntax.Parse("(?s).", syntax.Perl)
	p, _ := syntax.Compile(r.Simplify())
	return p
}()

func (m *M) strSym(t *Term) *Str { return m.strFromTerms([]*Term{t}) }
