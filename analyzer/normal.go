package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// normalize writes a comparison with a constant with the constant on the
// right, and a branch on a negation as the branch on what is negated, so that
// how a test is spelled does not matter.
func normalize(f *ssa.Function) {
	swap := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			op, isCmp := swap[x.Op]
			if !isCmp && (x.Op == token.ADD || x.Op == token.MUL) {
				if t, isB := x.Type().Underlying().(*types.Basic); isB && t.Info()&types.IsNumeric != 0 {
					op, isCmp = x.Op, true
				}
			}
			if !isCmp {
				continue
			}
			_, cx := x.X.(*ssa.Const)
			_, cy := x.Y.(*ssa.Const)
			if cx && !cy {
				x.X, x.Y, x.Op = x.Y, x.X, op
			}
		}
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for ok {
			u, isU := br.Cond.(*ssa.UnOp)
			var inner ssa.Value
			if isU && u.Op == token.NOT {
				inner = u.X
			} else if c, isC := br.Cond.(*ssa.BinOp); isC && (c.Op == token.EQL || c.Op == token.NEQ) {
				// b == false, b != true
				k, isK := c.Y.(*ssa.Const)
				if !isK || k.Value == nil || k.Value.Kind() != constant.Bool {
					break
				}
				if constant.BoolVal(k.Value) != (c.Op == token.EQL) {
					inner = c.X
				}
			}
			if inner == nil {
				break
			}
			dropRef(br.Cond, br)
			br.Cond = inner
			if r := inner.Referrers(); r != nil {
				*r = append(*r, br)
			}
			b.Succs[0], b.Succs[1] = b.Succs[1], b.Succs[0]
		}
	}
}

func dropRef(v ssa.Value, in ssa.Instruction) {
	r := v.Referrers()
	if r == nil {
		return
	}
	for i, x := range *r {
		if x == in {
			*r = append((*r)[:i], (*r)[i+1:]...)
			return
		}
	}
}
