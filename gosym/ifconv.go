package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A condition that is evaluated in several blocks without effects, such as
// a && b, is decided as one: the blocks are evaluated whatever the first
// condition is, and only the outcome branches.

// simple tells whether an instruction can be executed when the program would
// not: it has no effect, reads no memory and cannot panic.
func simple(in ssa.Instruction) bool {
	exact := func(v ssa.Value) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.ADD, token.SUB, token.AND, token.OR, token.XOR, token.AND_NOT, token.MUL,
			token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return exact(in.X) && exact(in.Y)
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.NOT, token.SUB, token.XOR:
			return exact(in.X)
		}
	case *ssa.Convert:
		return exact(in.X) && exact(in)
	case *ssa.ChangeType:
		return exact(in.X)
	case *ssa.DebugRef:
		return true
	}
	return false
}

// simpleBlocks finds the blocks that can be executed ahead.
func simpleBlocks(fn *ssa.Function) []bool {
	out := make([]bool, len(fn.Blocks))
	for i, b := range fn.Blocks {
		if len(b.Preds) != 1 || len(b.Instrs) > 12 {
			continue
		}
		n := len(b.Instrs) - 1
		ok := true
		for _, in := range b.Instrs[:n] {
			ok = ok && simple(in)
		}
		switch b.Instrs[n].(type) {
		case *ssa.If, *ssa.Jump:
			out[i] = ok
		}
	}
	return out
}

// ahead executes the simple block b but for its last instruction.
func (m *M) ahead(fr *Frame, b *ssa.BasicBlock) {
	ins := fr.fi.blocks[b.Index]
	for k := range ins[:len(ins)-1] {
		in := &ins[k]
		m.steps++
		switch x := in.in.(type) {
		case *ssa.BinOp:
			fr.env[in.dst] = m.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(in.ops[0], m), fr.get(in.ops[1], m))
		case *ssa.UnOp:
			fr.env[in.dst] = m.unop(x, fr.get(in.ops[0], m))
		case *ssa.Convert:
			fr.env[in.dst] = m.convert(x.X.Type(), x.Type(), fr.get(in.ops[0], m))
		case *ssa.ChangeType:
			fr.env[in.dst] = fr.get(in.ops[0], m)
		}
	}
}

// phis gives the values of the phis of to when it is entered from a block.
func (m *M) phis(fr *Frame, from int, to *ssa.BasicBlock) []Value {
	pi := -1
	for i, p := range to.Preds {
		if p.Index == from {
			pi = i
			break
		}
	}
	var vals []Value
	for _, in := range fr.fi.blocks[to.Index] {
		if _, ok := in.in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, fr.get(in.ops[pi], m))
	}
	return vals
}

// merged gives the values that are v if c holds and w otherwise, as far as
// that needs no branch: equal ones and conditions.
func (m *M) merged(c *Term, v, w []Value) ([]Value, bool) {
	out := make([]Value, len(v))
	for i := range v {
		a, ok1 := v[i].(*Term)
		b, ok2 := w[i].(*Term)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch {
		case a == b:
			out[i] = a
		case a.w == 0 && b.w == 0:
			out[i] = m.c.Ite(c, a, b)
		default:
			return nil, false
		}
	}
	return out, true
}

// branchIf executes the last instruction of a block, a conditional jump.
func (m *M) branchIf(fr *Frame, c *Term) {
	fn := fr.fi.fn
	from := fn.Blocks[fr.blk]
	if fr.fi.simple == nil {
		fr.fi.simple = simpleBlocks(fn)
	}
	for {
		if _, ok := m.knownVal(c); ok || c.fp || m.initing {
			break
		}
		yes, no := from.Succs[0], from.Succs[1]
		if yes == no {
			break
		}
		// one side decides whether to join the other
		next, cond := (*ssa.BasicBlock)(nil), c
		for k, x := range []*ssa.BasicBlock{yes, no} {
			y := no
			if k == 1 {
				y = yes
			}
			if !fr.fi.simple[x.Index] {
				continue
			}
			in := m.c.Not(c) // the condition of getting into x
			if k == 0 {
				in = c
			}
			switch len(x.Succs) {
			case 1:
				z := x.Succs[0]
				back := from
				if z != y {
					// two sides that join each other
					if !fr.fi.simple[y.Index] || len(y.Succs) != 1 || y.Succs[0] != z {
						continue
					}
					back = y
				}
				if z == from || z == x {
					continue
				}
				m.ahead(fr, x)
				if back == y {
					m.ahead(fr, y)
				}
				if vals, ok := m.merged(in, m.phis(fr, x.Index, z), m.phis(fr, back.Index, z)); ok {
					m.enter(fr, x.Index, z, vals)
					return
				}
			case 2:
				p, q := x.Succs[0], x.Succs[1]
				if p == q || (p != y && q != y) {
					continue
				}
				m.ahead(fr, x)
				a, b := m.phis(fr, x.Index, y), m.phis(fr, from.Index, y)
				same := true
				for i := range a {
					s, ok1 := a[i].(*Term)
					t, ok2 := b[i].(*Term)
					same = same && ok1 && ok2 && s == t
				}
				if !same {
					continue
				}
				d := fr.get(fr.fi.blocks[x.Index][len(fr.fi.blocks[x.Index])-1].ops[0], m).(*Term)
				if d.fp {
					continue
				}
				if q == y {
					cond = m.c.And(in, d) // to p
				} else {
					cond = m.c.Or(m.c.Not(in), d) // to y, which is p
				}
				next = x
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			break
		}
		from, c = next, cond
	}
	fr.blk = from.Index
	if m.branch(c) {
		m.jump(fr, from.Succs[0])
	} else {
		m.jump(fr, from.Succs[1])
	}
}
