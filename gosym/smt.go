package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver wraps one z3 process. All terms of a path are emitted inside one
// push/pop scope.
type Solver struct {
	ctx      *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	emitted  map[*Term]string
	vars     []*Term // declared in the current path
	selects  []*Term // select terms emitted in the current path
	pending  []*Term
	timeout  int
	inPath   bool
	abs      bool // floating point arithmetic is replaced by axioms
	Queries  int
	SatN     int
	UnsatN   int
	UnkN     int
	Time     time.Duration
	restarts int
}

func NewSolver(ctx *Ctx, timeoutMS int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset begins a new path.
func (s *Solver) Reset() {
	if s.inPath {
		s.in.WriteString("(pop 1)\n")
	}
	s.in.WriteString("(push 1)\n")
	s.inPath = true
	s.emitted = make(map[*Term]string)
	s.vars = s.vars[:0]
	s.selects = s.selects[:0]
	s.pending = s.pending[:0]
}

func sortName(w int16) string {
	switch {
	case w == 0:
		return "Bool"
	case w == -1:
		return "(Array (_ BitVec 64) (_ BitVec 8))"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constName(t *Term) string {
	if t.w == 0 {
		if t.c != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w)/4, t.c)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.c)
}

func fpSort(w int16) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func toFP(n string, w int16) string { return "((_ to_fp " + fpSort(w) + ") " + n + ")" }

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub",
	OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor",
	OBxor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store"}

func (s *Solver) emit(t *Term) string {
	if t.op == OConst {
		return constName(t)
	}
	if n, ok := s.emitted[t]; ok {
		return n
	}
	if t.op == OVar {
		n := "|" + t.name + "|"
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(t.w))
		s.emitted[t] = n
		s.vars = append(s.vars, t)
		return n
	}
	var as [3]string
	for i := 0; i < int(t.n); i++ {
		as[i] = s.emit(t.a[i])
	}
	if s.abs {
		switch t.op {
		case OFadd, OFsub, OFmul, OFdiv, OFsqrt:
			return s.emitAbs(t, as)
		case OSItoF:
			if t.w == 64 {
				return s.emitAbsConv(t, as)
			}
		case OSdiv, OSrem:
			if t.a[1].isConst() && sx(t.a[1].c, t.w) > 0 {
				return s.emitAbsDiv(t, as)
			}
		}
	}
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, as[0])
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, as[0])
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, as[0])
	case OFadd, OFsub, OFmul, OFdiv:
		n := map[Op]string{OFadd: "fp.add", OFsub: "fp.sub", OFmul: "fp.mul", OFdiv: "fp.div"}[t.op]
		e = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, toFP(as[0], t.w), toFP(as[1], t.w))
	case OFsqrt:
		e = fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", toFP(as[0], t.w))
	case OFlt, OFle, OFeq:
		n := map[Op]string{OFlt: "fp.lt", OFle: "fp.leq", OFeq: "fp.eq"}[t.op]
		e = fmt.Sprintf("(%s %s %s)", n, toFP(as[0], t.a[0].w), toFP(as[1], t.a[0].w))
	case OFtoF:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), toFP(as[0], t.a[0].w))
	case OFtoSI:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(as[0], t.a[0].w))
	case OFtoUI:
		e = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(as[0], t.a[0].w))
	case OSItoF:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), as[0])
	case OUItoF:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), as[0])
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprintf("emit op %d", t.op))
		}
		e = "(" + n + " " + strings.Join(as[:t.n], " ") + ")"
	}
	n := "t" + strconv.FormatUint(uint64(t.id), 10)
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sortName(t.w), e)
	s.emitted[t] = n
	if t.op == OSelect {
		s.selects = append(s.selects, t)
	}
	return n
}

// emitAbs stands a fresh value for the result of a floating point operation
// and states facts about it that hold for the real operation, so that unsat
// remains a sound answer.
func (s *Solver) emitAbs(t *Term, as [3]string) string {
	n := "t" + strconv.FormatUint(uint64(t.id), 10)
	fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(t.w))
	s.emitted[t] = n
	r, x := toFP(n, t.w), toFP(as[0], t.w)
	if t.op == OFsqrt {
		fmt.Fprintf(s.in, "(assert (=> (fp.isNaN %s) (fp.isNaN %s)))\n", x, r)
		return n
	}
	y := toFP(as[1], t.w)
	fmt.Fprintf(s.in, "(assert (=> (or (fp.isNaN %s) (fp.isNaN %s)) (fp.isNaN %s)))\n", x, y, r)
	one := "((_ to_fp " + fpSort(t.w) + ") RNE 1.0)"
	big := "((_ to_fp " + fpSort(t.w) + ") RNE 1000000000000000000000000000000.0)"
	zero := "((_ to_fp " + fpSort(t.w) + ") RNE 0.0)"
	ax := func(f string) {
		f = strings.NewReplacer("$r", r, "$x", x, "$y", y, "#r", n, "#x", as[0], "#y", as[1], "$1", one, "$0", zero, "$B", big).Replace(f)
		s.in.WriteString("(assert " + f + ")\n")
	}
	switch t.op {
	case OFmul:
		for _, v := range []string{"$x", "$y"} {
			o := "$y"
			if v == "$y" {
				o = "$x"
			}
			ax("(=> (and (fp.geq (fp.abs " + v + ") $1) (fp.leq (fp.abs " + o + ") $B)) (fp.geq (fp.abs $r) (fp.abs " + o + ")))")
			ax("(=> (and (fp.leq (fp.abs " + v + ") $1) (fp.leq (fp.abs " + o + ") $B)) (fp.leq (fp.abs $r) (fp.abs " + o + ")))")
		}
		ax("(=> (and (fp.geq $x $0) (fp.geq $y $0) (fp.leq $x $B) (fp.leq $y $B)) (fp.geq $r $0))")
	case OFdiv:
		ax("(=> (and (fp.geq $x $0) (fp.leq $x $B) (fp.geq $y $1) (fp.leq $y $B)) (and (fp.geq $r $0) (fp.leq $r $x)))")
		ax("(=> (and (fp.geq $x $1) (fp.leq $x $B) (fp.geq $y $1) (fp.leq $y $B)) (fp.gt $r $0))")
	}
	if t.op != OFadd {
		return n
	}
	ax("(=> (and (not (fp.isNaN $x)) (not (fp.isNaN $y))) (= (fp.eq $r $0) (fp.eq $x (fp.neg $y))))")
	ax("(=> (fp.geq $y $0) (or (fp.isNaN $x) (fp.isNaN $r) (fp.geq $r $x)))")
	ax("(=> (fp.geq $x $0) (or (fp.isNaN $y) (fp.isNaN $r) (fp.geq $r $y)))")
	ax("(=> (fp.leq $y $0) (or (fp.isNaN $x) (fp.isNaN $r) (fp.leq $r $x)))")
	ax("(=> (fp.leq $x $0) (or (fp.isNaN $y) (fp.isNaN $r) (fp.leq $r $y)))")
	ax("(=> (and (fp.isZero $y) (not (fp.isZero $x)) (not (fp.isNaN $x))) (= #r #x))")
	ax("(=> (and (fp.isZero $x) (not (fp.isZero $y)) (not (fp.isNaN $y))) (= #r #y))")
	ax("(=> (and (fp.isZero $x) (fp.isZero $y)) (= #r (bvand #x #y)))")
	ax("(=> (and (fp.isInfinite $x) (not (fp.isInfinite $y)) (not (fp.isNaN $y))) (= #r #x))")
	ax("(=> (and (fp.isInfinite $y) (not (fp.isInfinite $x)) (not (fp.isNaN $x))) (= #r #y))")
	ax("(=> (and (fp.isInfinite $x) (fp.isInfinite $y)) (ite (= #x #y) (= #r #x) (fp.isNaN $r)))")
	ax("(=> (not (or (fp.isNaN $x) (fp.isNaN $y) (fp.isInfinite $x) (fp.isInfinite $y))) (not (fp.isNaN $r)))")
	return n
}

// emitAbsConv does the same for the conversion of a signed integer.
func (s *Solver) emitAbsConv(t *Term, as [3]string) string {
	n := "t" + strconv.FormatUint(uint64(t.id), 10)
	fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(t.w))
	s.emitted[t] = n
	z := constName(&Term{op: OConst, w: t.a[0].w})
	one := "((_ to_fp 11 53) RNE 1.0)"
	ax := func(f string) {
		s.in.WriteString("(assert " + strings.NewReplacer("$r", toFP(n, t.w), "#r", n, "#x", as[0], "#0", z, "$1", one).Replace(f) + ")\n")
	}
	ax("(= (= #x #0) (= #r (_ bv0 64)))")
	ax("(=> (bvsgt #x #0) (and (fp.geq $r $1) (fp.leq $r ((_ to_fp 11 53) RNE 9223372036854775808.0))))")
	ax("(=> (bvslt #x #0) (and (fp.leq $r (fp.neg $1)) (fp.geq $r ((_ to_fp 11 53) RNE (- 9223372036854775808.0)))))")
	return n
}

// emitAbsDiv does the same for integer division by a positive constant.
func (s *Solver) emitAbsDiv(t *Term, as [3]string) string {
	n := "t" + strconv.FormatUint(uint64(t.id), 10)
	fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(t.w))
	s.emitted[t] = n
	z := constName(&Term{op: OConst, w: t.w})
	ax := func(f string) {
		s.in.WriteString("(assert " + strings.NewReplacer("#r", n, "#x", as[0], "#y", as[1], "#0", z).Replace(f) + ")\n")
	}
	ax("(=> (bvsge #x #0) (and (bvsge #r #0) (bvsle #r #x)))")
	ax("(=> (bvsle #x #0) (and (bvsle #r #0) (bvsge #r #x)))")
	ax("(=> (and (bvsge #x #0) (bvslt #x #y)) (= #r " + map[Op]string{OSdiv: "#0", OSrem: "#x"}[t.op] + "))")
	if t.op == OSdiv {
		ax("(=> (bvsge #x #y) (bvsgt #r #0))")
	} else {
		ax("(bvslt #r #y)")
	}
	return n
}

// Assert adds a permanent (for this path) constraint; it is sent lazily.
func (s *Solver) Assert(t *Term) { s.pending = append(s.pending, t) }

func (s *Solver) flush() {
	for _, t := range s.pending {
		n := s.emit(t)
		s.in.WriteString("(assert " + n + ")\n")
	}
	s.pending = s.pending[:0]
}

// Check decides PC && extra (extra may be nil); on Sat a model is returned.
func (s *Solver) Check(extra *Term) (SatRes, *Model) {
	s.flush()
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if extra != nil {
		n := s.emit(extra)
		s.in.WriteString("(push 1)\n(assert " + n + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var r SatRes
	var m *Model
	switch line {
	case "sat":
		r = Sat
		s.SatN++
		m = s.getModel()
	case "unsat":
		r = Unsat
		s.UnsatN++
	default:
		r = Unknown
		s.UnkN++
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return r, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			panic("solver: " + l)
		}
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth, started := 0, false
	bar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		sb.WriteByte(b)
		if bar {
			if b == '|' {
				bar = false
			}
			continue
		}
		switch b {
		case '|':
			bar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			r := sb.String()
			if strings.HasPrefix(strings.TrimSpace(r), "(error") {
				panic("solver: " + r)
			}
			return r
		}
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, err := strconv.ParseUint(v[2:], 16, 64)
		if err != nil {
			panic(err)
		}
		return n
	case strings.HasPrefix(v, "#b"):
		n, err := strconv.ParseUint(v[2:], 2, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	panic("cannot parse solver value " + v)
}

// values parses "((name val) ...)" returning the vals in order.
func (s *Solver) values(n int) []uint64 {
	str := s.readSexp()
	out := make([]uint64, 0, n)
	// the values are the tokens directly before each depth-2 closing paren
	depth := 0
	bar := false
	tok := ""
	for i := 0; i < len(str); i++ {
		b := str[i]
		if bar {
			if b == '|' {
				bar = false
			}
			continue
		}
		switch b {
		case '|':
			bar = true
			tok = ""
		case '(':
			depth++
			tok = ""
		case ')':
			if depth == 2 {
				out = append(out, parseVal(tok))
			}
			depth--
			tok = ""
		case ' ', '\n', '\t', '\r':
			tok = ""
		default:
			tok += string(b)
		}
	}
	if len(out) != n {
		panic(fmt.Sprintf("get-value: %d of %d in %s", len(out), n, str))
	}
	return out
}

func (s *Solver) getModel() *Model {
	m := NewModel()
	var q []*Term
	for _, v := range s.vars {
		if v.w >= 0 {
			q = append(q, v)
		}
	}
	nv := len(q)
	for _, t := range s.selects {
		q = append(q, t, t.a[1])
	}
	if len(q) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, t := range q {
		s.in.WriteString(s.emitName(t))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	vals := s.values(len(q))
	for i := 0; i < nv; i++ {
		m.v[q[i].name] = vals[i]
	}
	for i := nv; i < len(q); i += 2 {
		t := q[i]
		base := t.a[0]
		if base.op == OVar {
			am := m.arr[base.name]
			if am == nil {
				am = &ArrModel{m: map[uint64]byte{}}
				m.arr[base.name] = am
			}
			am.m[vals[i+1]] = byte(vals[i])
		}
	}
	return m
}

func (s *Solver) emitName(t *Term) string {
	if t.op == OConst {
		return constName(t)
	}
	return s.emitted[t]
}
