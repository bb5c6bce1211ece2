package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = check{run: runC13,
		explanation: "Interprocedural constant propagation over the evaluators. AND and OR are specialised to the truth of their operands: where an operand decides, no later operand is evaluated. if() and the if plugin are specialised to the truth of their condition: the branch that was not selected is neither evaluated, run nor given back. The converters of lazily declared arguments, and what prepares the arguments of a function call, evaluate nothing. Everything that remembers a lazily computed value is executed twice in the abstract, the second time from the state the first one leaves: the second time it evaluates nothing, whatever the first value was.",
		assumptions: []string{"one caller at a time: two goroutines that ask for the same lazy value for the first time may both compute it", "ReduceWithScope is a request to compute again, in another scope; the arguments of a plugin or of a stored query are evaluated before the call (not lazily passed)"}}
}

func runC13(w *World, r *Report) {
	r.Rule("R1-short-circuit", "after the operand that decides, AND and OR evaluate no other, and none twice", 5)
	r.Rule("R2-branches", "the branch that the condition does not select is not evaluated, run or given back", 2)
	r.Rule("R3-lazily", "an argument declared lazily, and a branch, reach the built-in without being evaluated", 2)
	r.Rule("R4-once", "a lazy value is computed once, whatever the value is", 1)
	r.Rule("R5-arguments", "calling a function evaluates none of the expressions passed to it", 1)

	for _, n := range w.exprNodes() {
		if n.fn == nil {
			continue
		}
		sp, _ := w.opSpellings(n)
		for _, s := range sortedKeys(sp) {
			switch sp[s] {
			case "AND", "AlternativeAND", "OR", "AlternativeOR":
				ok, why := w.shortCircuit(n, s, strings.HasSuffix(sp[s], "AND"))
				r.Ob("R1-short-circuit", n.node.Obj().Name()+" "+s, w.Pos(n.fn.Pos()), ok, "%s", why)
			}
		}
	}
	w.branches(r)
	w.lazyMemo(r)
	w.lazyArguments(r)
}

func (w *World) evaluation(e *aevent, in *interp) bool {
	c, ok := e.in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if e.kind == "enter" {
		return false
	}
	if f := c.Common().StaticCallee(); f != nil {
		return w.isEvaluator(f)
	}
	if !c.Common().IsInvoke() {
		_, b := c.Common().Value.(*ssa.Builtin)
		return !b
	}
	switch c.Common().Method.Name() {
	case "Reduce", "ReduceWithScope", "Eval":
		return true
	}
	return false
}

func (w *World) shortCircuit(n exprNode, spelling string, and bool) (bool, string) {
	L, R := n.roles()
	deciding := !and
	role := func(e *aevent) string {
		if len(e.args) == 0 {
			return ""
		}
		if t := e.args[0].only(); t != nil {
			return fieldPath(t)
		}
		return "?"
	}
	// the left operand decides
	o := &opWorld{w: w, n: n, op: spelling, prims: map[string]bool{"Bool(" + L + ")": deciding}, L: L, R: R}
	in, _ := o.run()
	if in.failed != "" {
		return false, in.failed
	}
	left := 0
	for _, e := range in.evs("call") {
		if !w.evaluation(e, in) {
			continue
		}
		switch role(e) {
		case L:
			left++
		default:
			return false, fmt.Sprintf("when the first operand is %v, %s is still evaluated at %s", deciding, role(e), w.instrPos(e.in))
		}
	}
	if left != 1 {
		return false, fmt.Sprintf("the first operand is evaluated in %d places", left)
	}
	// a further operand decides
	o = &opWorld{w: w, n: n, op: spelling, prims: map[string]bool{"Bool(" + L + ")": !deciding, "Bool(" + R + ")": deciding}, L: L, R: R, endless: true}
	in, _ = o.run()
	if in.failed != "" {
		return false, in.failed
	}
	var at []*aevent
	for _, e := range in.evs("call") {
		if w.evaluation(e, in) && role(e) != L {
			at = append(at, e)
		}
	}
	if len(at) == 0 {
		return false, "no further operand is ever evaluated"
	}
	for _, b := range in.evs("back") {
		for _, e := range at {
			if b.fn == e.fn && b.frame == e.frame && mayPrecede(e.in, b.in) {
				return false, fmt.Sprintf("after an operand that is %v, evaluated at %s, the next one is evaluated too", deciding, w.instrPos(e.in))
			}
		}
	}
	for i, e := range at {
		for _, f := range at[i+1:] {
			if e.in != f.in && e.fn == f.fn && e.frame == f.frame && (e.in.Block().Dominates(f.in.Block()) || f.in.Block().Dominates(e.in.Block())) {
				return false, fmt.Sprintf("an operand is evaluated at %s and again at %s", w.instrPos(e.in), w.instrPos(f.in))
			}
		}
	}
	return true, "worlds in which the first, and a further, operand decides"
}

// ---------------------------------------------------------------- branches

func (w *World) branches(r *Report) {
	tab := w.argTable()
	lazyType := map[string]bool{}
	for _, a := range w.argStructs() {
		var cond, then, els *types.Var
		for _, f := range a.fields {
			switch f.name {
			case "condition":
				cond = f.v
			case "then":
				then = f.v
			case "else":
				els = f.v
			}
			if n := namedOf(f.v.Type()); n != nil && strings.HasPrefix(n.Obj().Name(), "Lazy") && w.isModPkg(pkgPath(n)) {
				lazyType[typeKey(f.v.Type())] = true
				w.lazyParser(r, tab, f.v.Type(), a.named.Obj().Name()+"."+f.name, w.Pos(f.v.Pos()))
			}
		}
		if cond == nil || then == nil || els == nil {
			continue
		}
		users := 0
		for _, fn := range w.Fns {
			if fn.Name() != "Call" || fn.Signature.Recv() == nil || !allocates(fn, a.named) {
				continue
			}
			users++
			for _, v := range []bool{true, false} {
				ok, why := w.branch(fn, a.named, cond, then, els, v)
				r.Ob("R2-branches", fmt.Sprintf("%s %v", w.Name(fn), v), w.Pos(fn.Pos()), ok, "%s", why)
			}
			for _, f := range []*types.Var{then, els} {
				ps, unknown := w.parsersFor(tab, f.Type())
				ok, why := unknown == "" && len(ps) > 0, unknown
				if !lazyType[typeKey(f.Type())] {
					// a query is passed as it is
					for _, p := range ps {
						if n := namedOf(f.Type()); n == nil || n.Obj().Name() != "StoredQuery" {
							ok, why = false, fmt.Sprintf("%s is of type %s: %s evaluates it before the condition is known", f.Name(), typeKey(f.Type()), w.Name(p))
						}
					}
				}
				r.Ob("R3-lazily", a.named.Obj().Name()+"."+f.Name()+" branch", w.Pos(f.Pos()), ok, "%s", why)
			}
		}
		r.Ob("R2-branches", a.named.Obj().Name(), w.Pos(a.named.Obj().Pos()), users > 0, "no built-in uses these arguments")
	}
}

func allocates(f *ssa.Function, n *types.Named) bool {
	found := false
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if a, ok := i.(*ssa.Alloc); ok && namedOf(a.Type()) == n {
			found = true
		}
	})
	return found
}

// mentionsField: the value of field f of something is part of t.
func mentionsField(t *term, f *types.Var) bool {
	if t.fld == f && (t.op == "field" || t.op == "fa") {
		return true
	}
	for _, a := range t.args {
		if mentionsField(a, f) {
			return true
		}
	}
	return false
}

func (s tset) mentionsField(f *types.Var) bool {
	for _, t := range s {
		if mentionsField(t, f) {
			return true
		}
	}
	return false
}

func (w *World) branch(fn *ssa.Function, n *types.Named, cond, then, els *types.Var, truth bool) (bool, string) {
	sel, other := then, els
	if !truth {
		sel, other = els, then
	}
	in := newInterp(w)
	in.fill = true
	in.opaque = func(c *ssa.CallCommon, f *ssa.Function) bool {
		return f != nil && f.Pkg != nil && f.Pkg != fn.Pkg
	}
	in.assume = func(t *term) *term {
		switch t.op {
		case "call":
			if name, _, ok := scopePrim(t); ok && name == "Bool" && len(t.args) == 2 && mentionsField(t.args[1], cond) {
				return in.boolean(truth)
			}
			if strings.HasPrefix(t.str, "arg_parser.ExtractArgs") {
				return in.mk(term{op: "nil", typ: t.typ})
			}
		}
		return nil
	}
	var args []tset
	for _, p := range fn.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(fn, args, nil)
	if in.failed != "" {
		return false, in.failed
	}
	used := false
	for _, e := range in.evs("call") {
		if e.name.name == "Log" || strings.HasPrefix(e.name.name, "ExtractArgs") || strings.HasPrefix(e.name.name, "IsNil") || e.name.pkg == "reflect" {
			continue
		}
		for _, a := range e.args {
			if a.isTop() {
				return false, "what is passed at " + w.instrPos(e.in) + " cannot be told"
			}
			if a.mentionsField(other) {
				return false, fmt.Sprintf("with a condition that is %v, the branch %s is used at %s", truth, other.Name(), w.instrPos(e.in))
			}
			used = used || a.mentionsField(sel)
		}
	}
	if len(rets) == 0 {
		return false, "gives nothing back"
	}
	for _, t := range rets[0] {
		if t.op == "⊤" {
			return false, "what it gives back cannot be told"
		}
		if mentionsField(t, other) {
			return false, fmt.Sprintf("with a condition that is %v, the branch %s is given back", truth, other.Name())
		}
		used = used || mentionsField(t, sel)
	}
	if !used {
		return false, fmt.Sprintf("with a condition that is %v, the branch %s is not used", truth, sel.Name())
	}
	return true, fmt.Sprintf("condition %v: only %s is used", truth, sel.Name())
}

// lazyParser: converting an argument for a lazily declared field evaluates nothing.
func (w *World) lazyParser(r *Report, tab *argTable, T types.Type, key, pos string) {
	ps, unknown := w.parsersFor(tab, T)
	ok, why := unknown == "" && len(ps) > 0, unknown
	for _, p := range ps {
		in := newInterp(w)
		var args []tset
		for _, q := range p.Params {
			args = append(args, tset{in.param(q.Name(), q.Type())})
		}
		in.run(p, args, nil)
		if in.failed != "" {
			ok, why = false, in.failed
		}
		for _, e := range in.evs("call") {
			if w.evaluation(e, in) {
				ok, why = false, fmt.Sprintf("%s evaluates the argument at %s", w.Name(p), w.instrPos(e.in))
			}
		}
	}
	r.Ob("R3-lazily", key, pos, ok, "%s", why)
}

// ---------------------------------------------------------------- memo

func (w *World) lazyMemo(r *Report) {
	lazyExpr := w.typeNamed("types", "LazyExpr")
	lazyRow := w.typeNamed("types", "LazyRow")
	if lazyExpr == nil || lazyRow == nil {
		r.Ob("R4-once", "types", "-", false, "LazyExpr or LazyRow not found")
		return
	}
	for _, fn := range w.implsOf(lazyExpr.Underlying().(*types.Interface), "Reduce") {
		ok, why, applies := w.computedOnce(fn)
		if applies {
			r.Ob("R4-once", w.Name(fn), w.Pos(fn.Pos()), ok, "%s", why)
		}
	}
	// columns computed on demand: a map of functions and a container of what they gave
	for _, get := range w.implsOf(lazyRow.Underlying().(*types.Interface), "Get") {
		n := namedOf(get.Signature.Recv().Type())
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			m, ok := st.Field(i).Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			if _, ok := m.Elem().Underlying().(*types.Signature); !ok {
				continue
			}
			w.columnsOnce(r, n, st.Field(i), get)
		}
	}
}

func (w *World) computedOnce(fn *ssa.Function) (ok bool, why string, applies bool) {
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil {
		return
	}
	st, isStruct := n.Underlying().(*types.Struct)
	_, ptr := types.Unalias(fn.Signature.Recv().Type()).(*types.Pointer)
	if !isStruct || !ptr {
		return
	}
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, f *ssa.Function) bool {
		return f == nil || f.Signature.Recv() == nil && f.Parent() == nil || f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) != n
	}
	self := in.mk(term{op: "alloc", str: "self", typ: n})
	s0 := newState()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fa := in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{self}})
		if w.storedByMethods(n, f) {
			continue // as it was made: the zero value
		}
		if _, nested := f.Type().Underlying().(*types.Struct); nested {
			continue
		}
		s0.heap[fa.key] = tset{in.param("self."+f.Name(), f.Type())}
	}
	var args []tset
	for _, p := range fn.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	args[0] = tset{self}
	evals := func() *aevent {
		for _, e := range in.evs("call") {
			if w.evaluation(e, in) {
				return e
			}
		}
		return nil
	}
	rets1, s1 := in.run(fn, args, s0)
	if in.failed != "" {
		return false, in.failed, true
	}
	first := evals()
	if first == nil {
		return true, "", false
	}
	if s1 == nil {
		return false, "never returns", true
	}
	s1 = s1.clone()
	s1.facts, s1.cases = map[string]afact{}, map[string][]map[string]afact{}
	in.events, in.order, in.memo = map[string]*aevent{}, nil, map[string]*callResult{}
	rets2, _ := in.run(fn, args, s1)
	if in.failed != "" {
		return false, in.failed, true
	}
	if e := evals(); e != nil {
		return false, fmt.Sprintf("asked again, it computes the value again at %s (for some value at least)", w.instrPos(e.in)), true
	}
	if len(rets1) > 0 && len(rets2) > 0 && !sameSet(rets1[0], rets2[0]) {
		return false, fmt.Sprintf("asked again it gives %s, the first time %s", rets2[0], rets1[0]), true
	}
	return true, "computed at " + w.instrPos(first.in) + ", once", true
}

func (w *World) storedByMethods(n *types.Named, f *types.Var) bool {
	for _, s := range w.fieldStores[f] {
		p := outermost(s.Parent())
		if p.Signature.Recv() != nil && namedOf(p.Signature.Recv().Type()) == n {
			return true
		}
	}
	return false
}

func (w *World) columnsOnce(r *Report, n *types.Named, fns *types.Var, get *ssa.Function) {
	users := map[*ssa.Function]bool{}
	for _, v := range w.fieldLoads[fns] {
		in, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		f := in.Parent()
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if l, ok := i.(*ssa.Lookup); ok && l.X == v {
				if calledLater(l) {
					users[f] = true
				}
			}
			if l, ok := i.(*ssa.Range); ok && l.X == v {
				users[f] = true
			}
		})
	}
	var list []*ssa.Function
	for f := range users {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	if len(list) == 0 {
		r.Ob("R4-once", n.Obj().Name(), w.Pos(n.Obj().Pos()), false, "nothing computes a column")
	}
	for _, f := range list {
		root := f
		// helpers are judged where they are used
		for root.Signature.Recv() != nil && namedOf(root.Signature.Recv().Type()) == n && root != get && w.directOnly(root) && len(w.callers[root]) == 1 {
			root = w.callers[root][0].Parent()
		}
		// known: the container already has the value
		for _, present := range []bool{true, false} {
			in := newInterp(w)
			in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
				return g == nil || g.Pkg != root.Pkg || g.Signature.Recv() != nil && namedOf(g.Signature.Recv().Type()) != n
			}
			in.assume = func(t *term) *term {
				switch {
				case t.op == "res" && t.str == "1" && t.args[0].op == "call" && strings.HasSuffix(t.args[0].str, ".Get") && len(t.args[0].args) > 0:
					if c := t.args[0].args[0]; c.fld != nil && isFieldOf(c.fld, n) {
						return in.boolean(present)
					}
				case t.op == "haskey":
					if c := t.args[0]; c.fld != nil && isFieldOf(c.fld, n) {
						return in.boolean(present || c.fld == fns)
					}
				}
				return nil
			}
			var args []tset
			for _, p := range root.Params {
				args = append(args, tset{in.param(p.Name(), p.Type())})
			}
			in.run(root, args, nil)
			if in.failed != "" {
				r.Ob("R4-once", w.Name(root), w.Pos(root.Pos()), false, "%s", in.failed)
				continue
			}
			var comp []*aevent
			for _, e := range in.evs("call") {
				if c, ok := e.in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil {
					if _, b := c.Common().Value.(*ssa.Builtin); !b {
						comp = append(comp, e)
					}
				}
			}
			if present {
				ok, why := len(comp) == 0, "a column that was computed is not computed again"
				if !ok {
					why = "a column whose value is known is computed again at " + w.instrPos(comp[0].in)
				}
				r.Ob("R4-once", w.Name(root)+" known", w.Pos(root.Pos()), ok, "%s", why)
				continue
			}
			if root != get {
				continue
			}
			ok, why := len(comp) > 0, "no column is computed"
			for _, e := range comp {
				kept := false
				for _, s := range append(in.evs("call"), in.evs("mapupdate")...) {
					if s.kind == "call" && s.name.name != "Set" && s.name.name != "Store" || len(s.args) < 3 {
						continue
					}
					if sameSet(s.args[2], e.res) && s.fn == e.fn && passesThrough(e.in, s.in) {
						kept, why = true, "kept at "+w.instrPos(s.in)
					}
				}
				if !kept {
					ok, why = false, "the value computed at "+w.instrPos(e.in)+" is not kept on every way"
				}
			}
			r.Ob("R4-once", w.Name(root)+" kept", w.Pos(root.Pos()), ok, "%s", why)
		}
	}
}

// calledLater: the function found is called, not just looked at.
func calledLater(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case ssa.CallInstruction:
				return true
			case *ssa.Extract:
				if x.Index == 0 && rec(x) {
					return true
				}
			case *ssa.Phi:
				if rec(x) {
					return true
				}
			case *ssa.Return, *ssa.Store, *ssa.MakeClosure:
				return true
			}
		}
		return false
	}
	return rec(v)
}

// passesThrough: every way from a to the end of the function executes b.
func passesThrough(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b.Block() || seen[x] {
			return true
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			_, isRet := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
			return !isRet
		}
		for _, s := range x.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	for _, s := range a.Block().Succs {
		if !rec(s) {
			return false
		}
	}
	return len(a.Block().Succs) > 0
}

// ---------------------------------------------------------------- arguments

func (w *World) lazyArguments(r *Report) {
	// the expression a lazy value is made of
	lazyExpr := w.typeNamed("types", "LazyExpr")
	if lazyExpr == nil {
		return
	}
	var exprs []*types.Named
	for _, fn := range w.implsOf(lazyExpr.Underlying().(*types.Interface), "Reduce") {
		n := namedOf(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if e := namedOf(st.Field(i).Type()); e != nil && w.astTypes()[e] {
					exprs = append(exprs, e)
				}
			}
		}
	}
	isExpr := func(n *types.Named) bool {
		for _, e := range exprs {
			if e == n {
				return true
			}
		}
		return false
	}
	found := 0
	for _, f := range w.Fns {
		n := 0
		if f.Signature.Recv() == nil || f.Parent() != nil || !w.astTypes()[namedOf(f.Signature.Recv().Type())] {
			continue
		}
		for g := range reachableLocal(w, f) {
			eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Call" && isNamedType(c.Common().Value.Type(), w.Module+"/types", "FunctionInterface") {
					n++
				}
			})
		}
		if n == 0 || f.Name() == "Reduce" {
			continue
		}
		found++
		in := newInterp(w)
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return w.isEvaluator(g) || g != nil && g.Pkg != f.Pkg }
		var args []tset
		for _, p := range f.Params {
			args = append(args, tset{in.param(p.Name(), p.Type())})
		}
		in.run(f, args, nil)
		ok, why := in.failed == "", in.failed
		for _, e := range in.evs("call") {
			c, isCall := e.in.(ssa.CallInstruction)
			if !isCall || c.Common().IsInvoke() {
				continue
			}
			if g := c.Common().StaticCallee(); g != nil && w.isEvaluator(g) && isExpr(namedOf(g.Signature.Recv().Type())) {
				ok, why = false, "an expression passed to the function is evaluated before the call, at "+w.instrPos(e.in)
			}
		}
		r.Ob("R5-arguments", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
	if found == 0 {
		r.Ob("R5-arguments", "function calls", "-", false, "no place that calls functions was found")
	}
}

// reachableLocal: f and the functions of its package it calls directly which are no evaluators.
func reachableLocal(w *World, f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(g *ssa.Function) {
		if out[g] {
			return
		}
		out[g] = true
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if c, ok := i.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil && w.inModule(t) && t.Pkg == f.Pkg && !w.isEvaluator(t) {
					rec(t)
				}
			}
		})
	}
	rec(f)
	return out
}
