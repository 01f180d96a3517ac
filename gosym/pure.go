package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A predicate is a loop-free function from numbers to a bool that does
// nothing but arithmetic without faults. It is evaluated in one go, the
// results of its branches being joined in one term, instead of forking.

func isNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat) != 0 && b.Kind() != types.UntypedNil
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// predicateOrder gives the blocks of a predicate in topological order, nil
// if fn is not one.
func predicateOrder(fn *ssa.Function, depth int) []*ssa.BasicBlock {
	rs := fn.Signature.Results()
	if len(fn.Blocks) == 0 || rs.Len() != 1 || len(fn.FreeVars) > 0 || fn.Recover != nil || len(fn.Blocks) > 40 || len(fn.Params) == 0 {
		return nil
	}
	if b, ok := rs.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil
	}
	for _, p := range fn.Params {
		if !isNum(p.Type()) {
			return nil
		}
	}
	state := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 1:
				return false
			case 0:
				if !visit(s) {
					return false
				}
			}
		}
		state[b] = 2
		order = append(order, b)
		return true
	}
	if !visit(fn.Blocks[0]) {
		return nil
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	for _, b := range order {
		if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
			return nil
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if !isNum(x.X.Type()) || !isNum(x.Y.Type()) {
					return nil
				}
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT,
					token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					return nil
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.NOT, token.SUB, token.XOR:
				default:
					return nil
				}
			case *ssa.Convert:
				if !isNum(x.X.Type()) || !isNum(x.Type()) || (isFloatT(x.X.Type()) && !isFloatT(x.Type())) {
					return nil
				}
			case *ssa.ChangeType:
				if !isNum(x.X.Type()) {
					return nil
				}
			case *ssa.Phi:
				if !isNum(x.Type()) {
					return nil
				}
			case *ssa.Call:
				if !predicateCall(x, depth) {
					return nil
				}
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			default:
				return nil
			}
		}
	}
	return order
}

func (m *M) predicate(fi *FnInfo, args []Value) Value {
	c := m.c
	fr := &Frame{fi: fi, env: make([]Value, fi.nslots)}
	copy(fr.env, args)
	conds := map[int]*Term{fi.pred[0].Index: c.True}
	edges := map[[2]int]*Term{}
	edge := func(from, to *ssa.BasicBlock, t *Term) {
		if t == c.False {
			return
		}
		k := [2]int{from.Index, to.Index}
		if o, ok := edges[k]; ok {
			t = c.Or(o, t)
		}
		edges[k] = t
		if o, ok := conds[to.Index]; ok {
			conds[to.Index] = c.Or(o, t)
		} else {
			conds[to.Index] = t
		}
	}
	var res *Term
	for _, b := range fi.pred {
		here, ok := conds[b.Index]
		if !ok {
			continue
		}
		phis := map[int32]Value{}
		for _, ins := range fi.blocks[b.Index] {
			if _, ok := ins.in.(*ssa.Phi); ok {
				var v *Term
				for i, p := range b.Preds {
					e, ok := edges[[2]int{p.Index, b.Index}]
					if !ok {
						continue
					}
					x := fr.get(ins.ops[i], m).(*Term)
					if v == nil {
						v = x
					} else {
						v = c.Ite(e, x, v)
					}
				}
				phis[ins.dst] = v
				continue
			}
			for k, v := range phis {
				fr.env[k] = v
				delete(phis, k)
			}
			switch in := ins.in.(type) {
			case *ssa.BinOp:
				fr.env[ins.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(ins.ops[0], m), fr.get(ins.ops[1], m))
			case *ssa.UnOp:
				fr.env[ins.dst] = m.unop(in, fr.get(ins.ops[0], m))
			case *ssa.Convert:
				fr.env[ins.dst] = m.convert(in.X.Type(), in.Type(), fr.get(ins.ops[0], m))
			case *ssa.ChangeType:
				fr.env[ins.dst] = fr.get(ins.ops[0], m)
			case *ssa.Call:
				callee := in.Call.StaticCallee()
				var args []Value
				for _, o := range ins.ops[1:] {
					args = append(args, fr.get(o, m))
				}
				if _, ok := classes[fnName(callee)]; ok {
					fr.env[ins.dst] = m.class(fnName(callee), args[0].(*Term))
				} else {
					fr.env[ins.dst] = m.predicate(m.w.fnInfo(callee), args)
				}
			case *ssa.Jump:
				edge(b, b.Succs[0], here)
			case *ssa.If:
				t := fr.get(ins.ops[0], m).(*Term)
				if v, ok := m.knownVal(t); ok {
					t = c.Bool(v)
				}
				edge(b, b.Succs[0], c.And(here, t))
				edge(b, b.Succs[1], c.And(here, c.Not(t)))
			case *ssa.Return:
				v := fr.get(ins.ops[0], m).(*Term)
				if res == nil {
					res = v
				} else {
					res = c.Ite(here, v, res)
				}
			}
		}
	}
	return res
}
