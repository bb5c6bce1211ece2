package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = check{run: runC03,
		explanation: "Consumer typestate by path-sensitive interprocedural dataflow over the SSA. Every call that hands back a row stream, and every row stream taken as a parameter by a function that can be called from outside, is followed with helpers, goroutines and deferred calls until the function that holds it ends: on every way out its end was seen, or it was handed on (returned, stored, passed to another component, taken over by a goroutine that itself satisfies this rule), or the context under which it was started has been cancelled, or the way out is the Done arm of a context from which the producer's context derives.",
		assumptions: []string{"a producer stops when the context it was started with is cancelled (C01 for the producers of this module)", "panics are not followed"},
	}
}

const (
	stUnborn = iota
	stLive
	stEnded
	stHanded
)
const (
	stCtxDone = 1 << iota
	stCancelled
)

type streamAuto struct {
	nullAuto
	w     *World
	root  ssa.Value // the call (or extract) or parameter
	birth ssa.Instruction
	alias valset
	chain map[interface{}]bool // contexts the producer runs under
	bad   map[string]ssa.Instruction
	order []string
}

func (a *streamAuto) report(in ssa.Instruction, format string, x ...interface{}) {
	m := fmt.Sprintf(format, x...)
	if _, ok := a.bad[m]; !ok {
		a.bad[m] = in
		a.order = append(a.order, m)
	}
}

// ctxKey identifies a context; loads of one field are the same context.
func ctxKey(v ssa.Value) interface{} {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldOf(fa)
			}
		}
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field)
	}
	return v
}

func (w *World) ctxKeys(vs []ssa.Value) map[interface{}]bool {
	out := map[interface{}]bool{}
	for _, v := range vs {
		for o := range w.ctxChain(v, true) {
			out[ctxKey(o)] = true
		}
	}
	return out
}

// excused: the context c being done means the producer was cancelled.
func (a *streamAuto) excused(c ssa.Value) bool {
	for _, o := range a.w.origins(c, true) {
		if a.chain[ctxKey(o)] {
			return true
		}
	}
	return false
}

func (a *streamAuto) leave(s *sim, st simState, in ssa.Instruction, what string) {
	if st.res == stLive && st.aux&(stCtxDone|stCancelled) == 0 {
		a.report(in, "%s at %s while the stream may still be running", what, a.w.instrPos(in))
	}
}

func (a *streamAuto) step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState {
	if in == a.birth && fr.root {
		return one(a.born(s, st, in))
	}
	if st.res != stLive {
		return one(st)
	}
	switch x := in.(type) {
	case *ssa.Store:
		if a.alias[x.Val] && a.w.cellOf(x.Addr) == nil {
			st.res = stHanded
		}
	case *ssa.MapUpdate:
		if a.alias[x.Value] {
			st.res = stHanded
		}
	case *ssa.Send:
		if a.alias[x.X] {
			st.res = stHanded
		}
	case *ssa.Return:
		for _, r := range x.Results {
			if a.alias[r] && fr.root {
				st.res = stHanded
			}
		}
	case *ssa.MakeClosure:
		// captured: judged where the closure is called or started; a closure
		// that escapes takes the stream with it
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if (a.alias[b] || (i < len(fn.FreeVars) && a.alias[fn.FreeVars[i]])) && a.escapes(x) {
				st.res = stHanded
			}
		}
	}
	return one(st)
}

// escapes: the closure is stored, returned or passed on, not just called,
// deferred or started.
func (a *streamAuto) escapes(mc *ssa.MakeClosure) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case ssa.CallInstruction:
				if x.Common().Value == v {
					continue
				}
				if _, ok := isGoCall(x.Common()); ok {
					continue
				}
				for _, t := range a.w.callees(x.Common(), true) {
					if !a.w.inMod[t] {
						return true
					}
				}
				if len(a.w.callees(x.Common(), true)) == 0 {
					return true
				}
			case *ssa.Store:
				if x.Val == v {
					if c := a.w.cellOf(x.Addr); c != nil {
						continue
					}
					return true
				}
			case *ssa.Return, *ssa.MakeInterface, *ssa.Send, *ssa.MapUpdate:
				return true
			case *ssa.Phi, *ssa.ChangeType:
				if walk(x.(ssa.Value)) {
					return true
				}
			}
		}
		return false
	}
	return walk(mc)
}

func (a *streamAuto) born(s *sim, st simState, in ssa.Instruction) simState {
	a.leave(s, st, in, "another stream is started")
	st.res, st.aux = stLive, 0
	return st
}

func (a *streamAuto) call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if in == a.birth && fr.root {
		return one(a.born(s, st, in))
	}
	if st.res != stLive {
		return one(st)
	}
	// cancel functions
	if !c.IsInvoke() && c.StaticCallee() == nil {
		for _, o := range a.w.origins(c.Value, true) {
			e, ok := o.(*ssa.Extract)
			if !ok || e.Index != 1 {
				continue
			}
			if k, ok := e.Tuple.(*ssa.Call); ok {
				if _, isD := isCtxDerive(k); isD {
					for ctx := range a.chain {
						if ce, ok := ctx.(*ssa.Extract); ok && ce.Tuple == e.Tuple && ce.Index == 0 {
							st.aux |= stCancelled
						}
					}
				}
			}
		}
	}
	if f, ok := isGoCall(c); ok {
		var ts []*ssa.Function
		for _, o := range a.w.origins(f, true) {
			if mc, ok := o.(*ssa.MakeClosure); ok {
				ts = append(ts, mc.Fn.(*ssa.Function))
			}
		}
		return a.spawn(s, fr, st, ts, nil, in)
	}
	for _, arg := range c.Args {
		if a.alias[arg] {
			st.res = stHanded
		}
	}
	return one(st)
}

func (a *streamAuto) afterCall(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if in == a.birth && fr.root {
		return one(a.born(s, st, in))
	}
	return one(st)
}

func (a *streamAuto) spawn(s *sim, fr *frame, st simState, targets []*ssa.Function, args []ssa.Value, in ssa.Instruction) []simState {
	for _, t := range targets {
		takes := false
		for _, fv := range t.FreeVars {
			if a.alias[fv] {
				takes = true
			}
			// a captured variable that holds the stream
			if cell := a.w.cellOf(fv); cell != nil {
				vals, _ := a.w.cellStores(cell)
				for _, v := range vals {
					if a.alias[v] {
						takes = true
					}
				}
			}
		}
		for _, p := range t.Params {
			if a.alias[p] {
				takes = true
			}
		}
		if !takes {
			continue
		}
		if !a.w.inMod[t] || !s.relevant(t) {
			continue
		}
		for _, o := range s.run(&frame{fn: t, depth: fr.depth + 1}, simState{res: stLive, aux: st.aux}) {
			a.leave(s, o.st, o.site, a.w.Name(t)+" can end")
		}
		st.res = stHanded
	}
	return one(st)
}

func (a *streamAuto) goStmt(s *sim, fr *frame, st simState, g *ssa.Go) []simState {
	if st.res != stLive {
		return one(st)
	}
	ts := a.w.callees(g.Common(), true)
	out := a.spawn(s, fr, st, ts, g.Call.Args, g)
	for i := range out {
		for _, x := range g.Call.Args {
			if a.alias[x] {
				out[i].res = stHanded
			}
		}
	}
	return out
}

func (a *streamAuto) selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState {
	x := sel.States[arm]
	if st.res != stLive {
		return one(st)
	}
	if x.Dir == types.SendOnly && a.alias[x.Send] {
		st.res = stHanded
	}
	if x.Dir == types.RecvOnly {
		if a.alias[x.Chan] && ok == fFalse {
			st.res = stEnded
		}
		for _, c := range a.w.doneOf(x.Chan) {
			if a.excused(c) {
				st.aux |= stCtxDone
			}
		}
	}
	return one(st)
}

func (a *streamAuto) recv(s *sim, fr *frame, st simState, u *ssa.UnOp, ok fact) []simState {
	if st.res != stLive {
		return one(st)
	}
	if a.alias[u.X] && ok == fFalse {
		st.res = stEnded
	}
	for _, c := range a.w.doneOf(u.X) {
		if a.excused(c) {
			st.aux |= stCtxDone
		}
	}
	return one(st)
}

func (a *streamAuto) edge(s *sim, fr *frame, st simState, cond ssa.Value, taken bool) []simState {
	if st.res != stLive {
		return one(st)
	}
	// ctx.Err() != nil
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.NEQ || b.Op == token.EQL) {
		x, y := b.X, b.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if c, ok := x.(*ssa.Call); ok && isNilConst(y) && c.Call.IsInvoke() && c.Call.Method.Name() == "Err" && isContext(c.Call.Value.Type()) {
			if (b.Op == token.NEQ) == taken && a.excused(c.Call.Value) {
				st.aux |= stCtxDone
			}
		}
		// the stream is nil on this branch: nothing runs
		if isNilConst(y) && a.alias[x] && (b.Op == token.EQL) == taken {
			st.res = stEnded
		}
	}
	return one(st)
}

func hasDoneArm(w *World) map[*ssa.Function]bool {
	return w.eventfulSync(func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && len(w.doneOf(s.Chan)) > 0 {
					return true
				}
			}
		case *ssa.UnOp:
			return x.Op == token.ARROW && len(w.doneOf(x.X)) > 0
		case *ssa.Call:
			return x.Call.IsInvoke() && x.Call.Method.Name() == "Err" && isContext(x.Call.Value.Type())
		}
		return false
	})
}

// cancels: the functions that call a cancel function
func (w *World) cancels() map[*ssa.Function]bool {
	if w.cancelling == nil {
		w.cancelling = w.eventfulSync(func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
				return false
			}
			if sig := c.Common().Signature(); sig.Params().Len() != 0 || sig.Results().Len() != 0 {
				return false
			}
			for _, o := range w.origins(c.Common().Value, true) {
				if e, isE := o.(*ssa.Extract); isE && e.Index == 1 {
					if k, isC := e.Tuple.(*ssa.Call); isC {
						if _, isD := isCtxDerive(k); isD {
							return true
						}
					}
				}
			}
			return false
		})
	}
	return w.cancelling
}

func ctxArgs(c *ssa.CallCommon) []ssa.Value {
	var out []ssa.Value
	for _, x := range c.Args {
		if isContext(x.Type()) {
			out = append(out, x)
		}
	}
	return out
}

func runC03(w *World, r *Report) {
	r.Rule("R1-not-abandoned", "a stream is read to its end, handed on, or its producer has been cancelled on every way out", 15)
	w.buildSites()
	done := hasDoneArm(w)
	check := func(f *ssa.Function, root ssa.Value, birth ssa.Instruction, ctxs []ssa.Value, label string) {
		alias := w.flow([]ssa.Value{root}, flowOpts{params: true, prune: otherInstance2(f, root)})
		a := &streamAuto{w: w, root: root, birth: birth, alias: alias, chain: w.ctxKeys(ctxs), bad: map[string]ssa.Instruction{}}
		touches := w.eventfulSync(func(in ssa.Instruction) bool {
			for _, op := range in.Operands(nil) {
				if *op != nil && alias[*op] {
					return true
				}
			}
			return false
		})
		s := newSim(w, a, func(fn *ssa.Function) bool { return fn != f && (touches[fn] || done[fn] || w.cancels()[fn]) })
		st := simState{}
		if birth == nil {
			st.res = stLive
		}
		for _, o := range s.run(&frame{fn: f, root: true}, st) {
			a.leave(s, o.st, o.site, w.Name(f)+" can end")
		}
		msg := ""
		for _, m := range a.order {
			if msg != "" {
				msg += "; "
			}
			msg += m
		}
		if len(s.gaveUp) > 0 {
			r.Notes = append(r.Notes, "state budget exhausted in "+s.gaveUp[0])
		}
		at := w.Pos(root.Pos())
		if birth != nil {
			at = w.instrPos(birth)
		}
		r.Ob("R1-not-abandoned", w.Name(f)+" <- "+label, at, msg == "", "%s", msg)
	}
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			var ctxs []ssa.Value
			if isStreamResult(c.Type()) {
				ctxs = ctxArgs(&c.Call)
				check(f, c, in, ctxs, calleeLabel(&c.Call))
				return
			}
			if tup, ok := c.Type().(*types.Tuple); ok {
				for k := 0; k < tup.Len(); k++ {
					if !isStreamResult(tup.At(k).Type()) {
						continue
					}
					for _, rf := range *c.Referrers() {
						if e, ok := rf.(*ssa.Extract); ok && e.Index == k {
							check(f, e, in, ctxArgs(&c.Call), calleeLabel(&c.Call))
						}
					}
				}
			}
		})
		// stream parameters of functions that others can call
		if f.Parent() != nil {
			continue
		}
		for _, p := range f.Params {
			if !isStreamResult(p.Type()) {
				continue
			}
			if !token.IsExported(f.Name()) && !w.addrTaken[f] && len(w.callers[f]) > 0 {
				continue // followed from its callers
			}
			var ctxs []ssa.Value
			for _, q := range f.Params {
				if isContext(q.Type()) {
					ctxs = append(ctxs, q)
				}
			}
			check(f, p, nil, ctxs, "parameter "+p.Name())
		}
	}
}

func isStreamResult(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok || c.Dir() == types.SendOnly {
		return false
	}
	return rowStream(t)
}

// otherInstance2: what comes out of another invocation of the function that
// holds the stream is another stream.
func otherInstance2(f *ssa.Function, root ssa.Value) func(v ssa.Value) bool {
	top := outermost(f)
	return func(v ssa.Value) bool {
		if v == root {
			return false
		}
		switch x := v.(type) {
		case *ssa.Call:
			return outermost(x.Parent()) == top
		case *ssa.Parameter:
			return x.Parent() == top
		}
		return false
	}
}
