package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation along paths, loops unrolled: a branch on something that is not constant
// splits the path. Streams of rows have no end, and nobody cancels.

type cpVal struct {
	c    constant.Value // a constant
	cell *cpCell        // an address
	fn   *ssa.Function  // a function
	free []cpVal
	id   string // an object made here
	nn   bool   // not nil, otherwise unknown
	tup  []cpVal
}

type cpCell struct{ v cpVal }

type constProp struct {
	w *World
	// a constant for a load or call
	value func(v ssa.Value) (cpVal, bool)
	// is the function followed
	follow func(f *ssa.Function) bool
	max    int

	steps int
	ids   int
	fails string
}

// cpState holds what is mutable; it is copied when a path splits.
type cpState struct {
	cells map[*cpCell]cpVal
	sent  map[string]int
	steps int
}

func (s *cpState) clone() *cpState {
	n := &cpState{cells: make(map[*cpCell]cpVal, len(s.cells)), sent: map[string]int{}, steps: s.steps}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.sent {
		n.sent[k] = v
	}
	return n
}

type cpCont func(st *cpState, rets []cpVal, ended bool)

func (cp *constProp) run(f *ssa.Function, args, free []cpVal, st *cpState, depth int, k cpCont) {
	env := map[ssa.Value]cpVal{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			env[v] = free[i]
		}
	}
	cp.block(f, f.Blocks[0], nil, env, st, depth, k)
}

func (cp *constProp) get(env map[ssa.Value]cpVal, v ssa.Value) cpVal {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return cpVal{c: x.Value}
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
			return cpVal{}
		}
		return cpVal{id: "nil"}
	case *ssa.Function:
		return cpVal{fn: x}
	}
	return env[v]
}

func cpEnv(m map[ssa.Value]cpVal) map[ssa.Value]cpVal {
	n := make(map[ssa.Value]cpVal, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (cp *constProp) block(f *ssa.Function, b, pred *ssa.BasicBlock, env map[ssa.Value]cpVal, st *cpState, depth int, k cpCont) {
	if cp.fails != "" {
		return
	}
	// phis at once
	var phis []ssa.Value
	var vals []cpVal
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for n, q := range b.Preds {
			if q == pred {
				phis = append(phis, p)
				vals = append(vals, cp.get(env, p.Edges[n]))
				break
			}
		}
	}
	for n, p := range phis {
		env[p] = vals[n]
	}
	cp.instrs(f, b, len(phis), env, st, depth, k)
}

func (cp *constProp) instrs(f *ssa.Function, b *ssa.BasicBlock, from int, env map[ssa.Value]cpVal, st *cpState, depth int, k cpCont) {
	for n := from; n < len(b.Instrs); n++ {
		cp.steps++
		st.steps++
		if cp.steps > 400000 {
			cp.fails = "too many paths"
		}
		if st.steps > cp.max {
			k(st, nil, false)
			return
		}
		if cp.fails != "" {
			return
		}
		switch x := b.Instrs[n].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			cp.block(f, b.Succs[0], b, env, st, depth, k)
			return
		case *ssa.If:
			c := cp.get(env, x.Cond)
			if c.c != nil && c.c.Kind() == constant.Bool {
				i := 1
				if constant.BoolVal(c.c) {
					i = 0
				}
				cp.block(f, b.Succs[i], b, env, st, depth, k)
				return
			}
			cp.block(f, b.Succs[0], b, cpEnv(env), st.clone(), depth, k)
			cp.block(f, b.Succs[1], b, env, st, depth, k)
			return
		case *ssa.Return:
			var rs []cpVal
			for _, r := range x.Results {
				rs = append(rs, cp.get(env, r))
			}
			k(st, rs, true)
			return
		case *ssa.Panic:
			return
		case *ssa.Store:
			if a := cp.get(env, x.Addr); a.cell != nil {
				st.cells[a.cell] = cp.get(env, x.Val)
			}
		case *ssa.Alloc:
			c := &cpCell{}
			st.cells[c] = cpVal{}
			if t, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
				switch {
				case t.Info()&types.IsInteger != 0:
					st.cells[c] = cpVal{c: constant.MakeInt64(0)}
				case t.Info()&types.IsBoolean != 0:
					st.cells[c] = cpVal{c: constant.MakeBool(false)}
				}
			}
			env[x] = cpVal{cell: c, nn: true}
		case *ssa.MakeChan:
			cp.ids++
			env[x] = cpVal{id: fmt.Sprintf("chan%d", cp.ids), nn: true}
		case *ssa.MakeClosure:
			v := cpVal{fn: x.Fn.(*ssa.Function), nn: true}
			for _, y := range x.Bindings {
				v.free = append(v.free, cp.get(env, y))
			}
			env[x] = v
		case *ssa.Send:
			cp.send(st, cp.get(env, x.Chan))
		case *ssa.Select:
			var alive []int
			for i, s := range x.States {
				if cp.w.isDone(stripCell(s.Chan)) || isDoneChan(cp.w, s.Chan) {
					continue
				}
				alive = append(alive, i)
			}
			if len(alive) == 0 {
				return // blocks for ever
			}
			for j, i := range alive {
				e, s := env, st
				if j < len(alive)-1 {
					e, s = cpEnv(env), st.clone()
				}
				tup := []cpVal{{c: constant.MakeInt64(int64(i))}, {c: constant.MakeBool(true)}}
				for range x.States {
					tup = append(tup, cpVal{})
				}
				if x.States[i].Send != nil {
					cp.send(s, cp.get(e, x.States[i].Chan))
				}
				e[x] = cpVal{tup: tup}
				cp.instrs(f, b, n+1, e, s, depth, k)
			}
			return
		case *ssa.Go:
			cp.callThen(x, &x.Call, nil, f, b, n, env, st, depth, k)
			return
		case *ssa.Call:
			cp.callThen(x, &x.Call, x, f, b, n, env, st, depth, k)
			return
		case ssa.Value:
			env[x] = cp.eval(x, env, st)
		}
	}
}

func stripCell(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.ChangeType); ok {
		return stripCell(c.X)
	}
	return v
}

// isDoneChan: every origin of the channel is a Done call.
func isDoneChan(w *World, v ssa.Value) bool {
	os := w.origins(v, false)
	for _, o := range os {
		if !w.isDone(o) {
			return false
		}
	}
	return len(os) > 0
}

func (cp *constProp) send(st *cpState, ch cpVal) {
	id := ch.id
	if id == "" {
		id = "?"
	}
	st.sent[id]++
}

func (cp *constProp) callThen(i ssa.Instruction, c *ssa.CallCommon, res ssa.Value, f *ssa.Function, b *ssa.BasicBlock, n int, env map[ssa.Value]cpVal, st *cpState, depth int, k cpCont) {
	goOn := func(st *cpState, v cpVal, env map[ssa.Value]cpVal) {
		if res != nil {
			env[res] = v
		}
		cp.instrs(f, b, n+1, env, st, depth, k)
	}
	if res != nil {
		if v, ok := cp.value(res); ok {
			goOn(st, v, env)
			return
		}
	}
	var target *ssa.Function
	var free []cpVal
	var args []cpVal
	if !c.IsInvoke() {
		if v := cp.get(env, c.Value); v.fn != nil {
			target, free = v.fn, v.free
		}
		for _, a := range c.Args {
			args = append(args, cp.get(env, a))
		}
	}
	if target == nil || len(target.Blocks) == 0 || depth > 6 || !cp.w.inMod[target] || !cp.follow(target) {
		goOn(st, cpVal{}, env)
		return
	}
	cp.run(target, args, free, st, depth+1, func(s *cpState, rets []cpVal, ended bool) {
		if !ended {
			k(s, nil, false)
			return
		}
		v := cpVal{}
		if len(rets) == 1 {
			v = rets[0]
		} else if len(rets) > 1 {
			v.tup = rets
		}
		goOn(s, v, cpEnv(env))
	})
}

func (cp *constProp) eval(x ssa.Value, env map[ssa.Value]cpVal, st *cpState) cpVal {
	if v, ok := cp.value(x); ok {
		return v
	}
	switch x := x.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if a := cp.get(env, x.X); a.cell != nil {
				return st.cells[a.cell]
			}
		case token.ARROW:
			if cp.w.isDone(x.X) || isDoneChan(cp.w, x.X) {
				return cpVal{}
			}
			if x.CommaOk {
				return cpVal{tup: []cpVal{{nn: true}, {c: constant.MakeBool(true)}}}
			}
			return cpVal{}
		case token.NOT:
			if v := cp.get(env, x.X); v.c != nil {
				return cpVal{c: constant.MakeBool(!constant.BoolVal(v.c))}
			}
		case token.SUB:
			if v := cp.get(env, x.X); v.c != nil {
				return cpVal{c: constant.UnaryOp(token.SUB, v.c, 0)}
			}
		}
	case *ssa.BinOp:
		a, b := cp.get(env, x.X), cp.get(env, x.Y)
		if a.c != nil && b.c != nil {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return cpVal{c: constant.MakeBool(constant.Compare(a.c, x.Op, b.c))}
			case token.ADD, token.SUB, token.MUL:
				return cpVal{c: constant.BinaryOp(a.c, x.Op, b.c)}
			}
			return cpVal{}
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			if a.id == "nil" {
				a, b = b, a
			}
			if b.id == "nil" {
				switch {
				case a.id == "nil":
					return cpVal{c: constant.MakeBool(x.Op == token.EQL)}
				case a.nn:
					return cpVal{c: constant.MakeBool(x.Op == token.NEQ)}
				}
			}
		}
	case *ssa.Extract:
		if t := cp.get(env, x.Tuple); x.Index < len(t.tup) {
			return t.tup[x.Index]
		}
	case *ssa.Convert:
		return cp.get(env, x.X)
	case *ssa.ChangeType:
		return cp.get(env, x.X)
	}
	return cpVal{}
}
