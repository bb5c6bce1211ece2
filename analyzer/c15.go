package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = check{run: runC15,
		explanation: "A graph of all calls of the module, interface calls resolved to every type that occurs as a value. An edge is nested if every scope it passes on is a Copy made from the caller's; it re-enters if what it evaluates is not a part of the syntax tree node at hand. No cycle may re-enter without nesting. Copy is executed in the abstract: it must add one to the depth. CheckForOverflow and Resolve are executed in the abstract below and above the limit: no name resolves above it, and an error is logged.",
		assumptions: []string{"lazy values evaluate parts of the expression that made them, in the scope it was evaluated in", "the time until the limit is reached is not bounded: a definition that calls itself twice takes exponentially long", "plugins and functions of the embedder that evaluate their arguments in a scope of their own"}}
}

func runC15(w *World, r *Report) {
	r.Rule("R1-depth", "a nested scope is one deeper than the scope it was made from", 1)
	r.Rule("R2-limit", "beyond a fixed depth the overflow check reports an error and fails, before it does not", 1)
	r.Rule("R3-names", "no name is resolved in a scope that is too deep", 1)
	r.Rule("R4-reentry", "every way to evaluate a definition again passes through a nested scope", 3)

	var fns []*ssa.Function
	for _, f := range w.Fns {
		if recvNamed(f) != nil && w.isScope(recvNamed(f)) && f.Synthetic == "" && f.Parent() == nil && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	depth := w.depthField()
	for _, f := range fns {
		switch f.Name() {
		case "Copy":
			ok, why := w.copyDeepens(f, depth)
			r.Ob("R1-depth", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
		case "CheckForOverflow":
			w.overflowCheck(r, f, depth)
		case "Resolve":
			ok, why := w.resolveStops(f)
			r.Ob("R3-names", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
		}
	}
	w.reentry(r)
}

// depthField: the integer of the scope that the overflow check compares.
func (w *World) depthField() *types.Var {
	f := w.lookupMethod("scope", "Scope", "CheckForOverflow")
	if f == nil {
		return nil
	}
	var out *types.Var
	var look func(f *ssa.Function, d int)
	look = func(f *ssa.Function, d int) {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if fa, ok := i.(*ssa.FieldAddr); ok && out == nil {
				fl := fieldOf(fa)
				if b, ok := fl.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && w.isScope(fa.X.Type()) {
					out = fl
				}
			}
			if c, ok := i.(*ssa.Call); ok && d < 2 {
				if g := c.Common().StaticCallee(); g != nil && w.inMod[g] && recvNamed(g) == recvNamed(f) && types.Identical(g.Signature.Results(), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]))) {
					look(g, d+1)
				}
			}
		})
	}
	look(f, 0)
	return out
}

func (w *World) copyDeepens(f *ssa.Function, depth *types.Var) (bool, string) {
	if depth == nil {
		return false, "the depth of a scope was not found"
	}
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		if g == nil || g.Pkg != f.Pkg {
			return true
		}
		return g.Parent() == nil && recvNamed(g) != recvNamed(f) && (g.Object() == nil || g.Object().Exported())
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, st := in.run(f, args, nil)
	if in.failed != "" || len(rets) != 1 || st == nil {
		return false, "not analysed " + in.failed
	}
	self := in.param(f.Params[0].Name(), f.Params[0].Type())
	want := in.load(newState(), in.mk(term{op: "fa", str: depth.Name(), fld: depth, args: []*term{self}})).only()
	for _, t := range rets[0] {
		got := in.load(st, in.mk(term{op: "fa", str: depth.Name(), fld: depth, args: []*term{unbox(t)}}))
		g := got.only()
		if g == nil || g.op != "bin" || g.str != "+" {
			return false, fmt.Sprintf("the depth of the nested scope is %s", got)
		}
		ok := false
		for i := range g.args {
			a, b := g.args[i], g.args[1-i]
			if a == want && b.op == "const" && constant.Compare(b.cv, token.EQL, constant.MakeInt64(1)) {
				ok = true
			}
		}
		if !ok {
			return false, fmt.Sprintf("the depth of the nested scope is %s", got)
		}
	}
	after := in.load(st, in.mk(term{op: "fa", str: depth.Name(), fld: depth, args: []*term{self}})).only()
	if after != want {
		return false, "Copy changes the depth of the scope it copies"
	}
	return true, "depth of the scope + 1"
}

func (w *World) overflowWorld(f *ssa.Function, depth *types.Var, d int64) (*interp, []tset) {
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		if g == nil || g.Pkg != f.Pkg {
			return true
		}
		return g.Parent() == nil && (recvNamed(g) != recvNamed(f) || len(g.Params) > 1)
	}
	in.assume = func(t *term) *term {
		if t.op == "field" && t.fld == depth {
			return in.konst(constant.MakeInt64(d), depth.Type())
		}
		return nil
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(f, args, nil)
	return in, rets
}

func (w *World) overflowCheck(r *Report, f *ssa.Function, depth *types.Var) {
	if depth == nil {
		r.Ob("R2-limit", w.Name(f), w.Pos(f.Pos()), false, "the depth of a scope was not found")
		return
	}
	val := func(d int64) (string, bool) {
		in, rets := w.overflowWorld(f, depth, d)
		logged := false
		for _, e := range append(in.evs("call"), in.evs("enter")...) {
			if n := e.name.name; n == "Log" || n == "Error" || n == "Trace" {
				logged = true
			}
		}
		if len(rets) == 1 && rets[0].only() != nil {
			if b, ok := rets[0].only().isBool(); ok {
				return fmt.Sprint(b), logged
			}
		}
		return "?", logged
	}
	const max = 10000
	limit := int64(-1)
	for d := int64(0); d <= max; d++ {
		v, _ := val(d)
		if v != "false" {
			limit = d
			break
		}
		if d > 4 && d < max/2 {
			d += d / 3
		}
	}
	ok, why := true, ""
	switch {
	case limit < 0:
		ok, why = false, fmt.Sprintf("a scope %d deep passes the check", max)
	case limit < 20:
		ok, why = false, fmt.Sprintf("a scope %d deep does not pass the check", limit)
	default:
		why = fmt.Sprintf("fails from a depth of at most %d on", limit)
		for _, d := range []int64{limit, limit + 1, limit + 2, limit + 7, limit * 2, limit * 5, 1 << 20, 1 << 31} {
			v, logged := val(d)
			if v != "true" {
				ok, why = false, fmt.Sprintf("fails at a depth of %d but gives %s at %d", limit, v, d)
				break
			}
			if !logged {
				ok, why = false, fmt.Sprintf("nothing is logged at a depth of %d", d)
				break
			}
		}
	}
	r.Ob("R2-limit", w.Name(f)+" stops", w.Pos(f.Pos()), ok, "%s", why)
	_, logged := val(1)
	r.Ob("R2-limit", w.Name(f)+" quiet", w.Pos(f.Pos()), !logged, "nothing is logged below the limit: %v", !logged)
}

func (w *World) resolveStops(f *ssa.Function) (bool, string) {
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || g.Pkg != f.Pkg || g.Name() == "CheckForOverflow" || g.Parent() == nil && recvNamed(g) != recvNamed(f)
	}
	in.assume = func(t *term) *term {
		if t.op == "call" && strings.HasSuffix(t.str, "CheckForOverflow") {
			return in.boolean(true)
		}
		return nil
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(f, args, nil)
	if in.failed != "" || len(rets) != 2 {
		return false, "not analysed " + in.failed
	}
	if t := rets[1].only(); t != nil {
		if b, ok := t.isBool(); ok && !b {
			return true, "not found when the check fails"
		}
	}
	return false, fmt.Sprintf("gives %s, %s when the overflow check fails", rets[0], rets[1])
}

// ---------------------------------------------------------------- the graph

type evalEdge struct {
	from, to *ssa.Function
	at       ssa.Instruction
	nested   bool
	re       bool
}

// nestedScope: the value is a scope made by Copy here.
func (w *World) nestedScope(v ssa.Value, depth int) bool {
	os := w.origins(v, false)
	for _, o := range os {
		if e, ok := o.(*ssa.Extract); ok {
			o = e.Tuple
		}
		c, ok := o.(*ssa.Call)
		if !ok {
			return false
		}
		id := callID(c.Common())
		recv := c.Common().Value
		if !c.Common().IsInvoke() {
			if len(c.Common().Args) == 0 {
				return false
			}
			recv = c.Common().Args[0]
		}
		switch {
		case id.name == "Copy" && w.isScope(recv.Type()):
		case w.isScope(recv.Type()) && w.isScope(c.Type()):
			// gives the scope itself back
			if !w.nestedScope(recv, depth) && !w.returnsNested(c, depth) {
				return false
			}
		default:
			if !w.returnsNested(c, depth) {
				return false
			}
		}
	}
	return len(os) > 0
}

func (w *World) returnsNested(c *ssa.Call, depth int) bool {
	g := c.Common().StaticCallee()
	if g == nil || !w.inMod[g] || depth > 3 {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if w.isScope(v.Type()) {
					n++
					if !w.nestedScope(v, depth+1) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// holdsAST: the type is a node of the syntax tree, or a slice or map of such.
func (w *World) holdsAST(t types.Type) bool {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return w.holdsAST(x.Elem())
	case *types.Slice:
		return w.holdsAST(x.Elem())
	case *types.Map:
		return w.holdsAST(x.Elem())
	case *types.Named:
		return w.astTypes()[x]
	}
	return false
}

// ownPart: the syntax tree value is, or is part of, one the function was given.
func (w *World) ownPart(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return w.holdsAST(x.Type())
	case *ssa.Alloc:
		return w.holdsAST(x.Type())
	case *ssa.FieldAddr:
		if w.holdsAST(x.X.Type()) {
			return w.ownPart(x.X, seen)
		}
		return false
	case *ssa.Field:
		if w.holdsAST(x.X.Type()) {
			return w.ownPart(x.X, seen)
		}
		return false
	case *ssa.IndexAddr:
		return w.ownPart(x.X, seen)
	case *ssa.Lookup:
		return w.ownPart(x.X, seen)
	case *ssa.Slice:
		return w.ownPart(x.X, seen)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return w.ownPart(rg.X, seen)
			}
		case *ssa.Lookup:
			return w.ownPart(t.X, seen)
		case *ssa.TypeAssert:
			return w.ownPart(t.X, seen)
		}
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return w.ownPart(fa, seen)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return w.ownPart(ia, seen)
			}
			if cell := w.cellOf(x.X); cell != nil {
				vals, _ := w.cellStores(cell)
				for _, s := range vals {
					if !w.ownPart(s, seen) {
						return false
					}
				}
				return len(vals) > 0
			}
			// the node that a pointer leads to
			if w.holdsAST(x.X.Type()) {
				return w.ownPart(x.X, seen)
			}
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.ownPart(e, seen) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		bs := w.bindings(x)
		for _, b := range bs {
			if !w.ownPart(b, seen) {
				return false
			}
		}
		return len(bs) > 0
	case *ssa.Const:
		return true
	case *ssa.ChangeType:
		return w.ownPart(x.X, seen)
	case *ssa.Call:
		// a getter of the node
		if c := x.Common(); !c.IsInvoke() && len(c.Args) > 0 && c.StaticCallee() != nil && w.inMod[c.StaticCallee()] && w.holdsAST(c.Args[0].Type()) {
			return w.ownPart(c.Args[0], seen)
		}
		return false
	}
	return false
}

// valueTypes: the types of the module that occur as values of a query: they are converted to
// an interface and then kept, returned or put in a row. Nodes of the syntax tree that are only
// shown to the formatter or the explainer do not.
func (w *World) valueTypes() map[*types.Named][]ssa.Instruction {
	out := map[*types.Named][]ssa.Instruction{}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			mi, ok := i.(*ssa.MakeInterface)
			if !ok {
				return
			}
			n := namedOf(mi.X.Type())
			if n == nil || n.Obj().Pkg() == nil || !w.isModPkg(n.Obj().Pkg().Path()) {
				return
			}
			if _, ptr := mi.X.Type().(*types.Pointer); !ptr {
				if _, st := n.Underlying().(*types.Struct); st && w.astTypes()[n] {
					return
				}
			}
			if !w.astTypes()[n] {
				out[n] = append(out[n], i)
				return
			}
			for v := range w.flow([]ssa.Value{mi}, flowOpts{}) {
				if w.keptAsValue(v, map[ssa.Value]bool{}) {
					out[n] = append(out[n], i)
					return
				}
			}
		})
	}
	return out
}

// keptAsValue: the interface is returned, stored, or given to a container.
func (w *World) keptAsValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if !types.IsInterface(v.Type()) || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return, *ssa.MapUpdate, *ssa.Send:
			return true
		case *ssa.Select:
			return true
		case *ssa.Store:
			if x.Val == v && w.cellOf(x.Addr) == nil {
				return true
			}
		case ssa.CallInstruction:
			c := x.Common()
			if c.IsInvoke() {
				if !w.isScope(c.Value.Type()) {
					continue
				}
				for _, g := range w.callees(c, true) {
					if w.inMod[g] && w.keepsArg(c, g, v, seen) {
						return true
					}
				}
				continue
			}
			g := c.StaticCallee()
			if g == nil {
				continue
			}
			if !w.inMod[g] {
				id := callID(c)
				if id.pkg == "fmt" || id.pkg == "reflect" || id.pkg == "log" {
					continue
				}
				return true
			}
			// helpers that want a value
			for k, a := range c.Args {
				if a != v || k >= len(g.Params) {
					continue
				}
				if it, ok := g.Params[k].Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
					return true
				}
			}
		}
	}
	return false
}

// keepsArg: the callee keeps the argument as a value.
func (w *World) keepsArg(c *ssa.CallCommon, g *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	for k, a := range c.Args {
		if c.IsInvoke() {
			k++
		}
		if a != v || k >= len(g.Params) || seen[g.Params[k]] {
			continue
		}
		seen[g.Params[k]] = true
		for u := range w.flow([]ssa.Value{g.Params[k]}, flowOpts{}) {
			if w.keptAsValue(u, seen) {
				return true
			}
		}
	}
	return false
}

// lazyType: values that stand for a part of the expression that made them.
func (w *World) lazyType(n *types.Named) bool {
	for _, name := range []string{"LazyExpr", "LazyRow"} {
		if it := w.typeNamed("types", name); it != nil {
			if i, ok := it.Underlying().(*types.Interface); ok && (types.Implements(n, i) || types.Implements(types.NewPointer(n), i)) {
				return true
			}
		}
	}
	return false
}

func (w *World) evalGraph() []*evalEdge {
	vals := w.valueTypes()
	boxed := map[*types.Named]bool{}      // as a pointer
	boxedPlain := map[*types.Named]bool{} // as a struct
	for n, is := range vals {
		for _, i := range is {
			if _, ptr := i.(*ssa.MakeInterface).X.Type().(*types.Pointer); ptr {
				boxed[n] = true
			} else {
				boxedPlain[n] = true
			}
		}
	}
	var out []*evalEdge
	for _, f := range w.Fns {
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if mc, ok := i.(*ssa.MakeClosure); ok {
				out = append(out, &evalEdge{from: f, to: mc.Fn.(*ssa.Function), at: i})
				return
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			// a conversion that cannot succeed: no value has the type
			if !c.IsInvoke() && len(c.Args) > 0 {
				for _, o := range deepAssert(c.Args[0]) {
					n := namedOf(o.AssertedType)
					if n == nil || types.IsInterface(o.AssertedType) || n.Obj().Pkg() == nil || !w.isModPkg(n.Obj().Pkg().Path()) {
						continue
					}
					if _, ptr := o.AssertedType.(*types.Pointer); ptr && !boxed[n] || !ptr && !boxedPlain[n] {
						return
					}
				}
			}
			for _, g := range w.callees(c, true) {
				if !w.inMod[g] {
					continue
				}
				if c.IsInvoke() {
					if n := recvNamed(g); n == nil || !boxed[n] && !boxedPlain[n] {
						continue
					}
				}
				e := &evalEdge{from: f, to: g, at: i}
				scopes, nest := 0, true
				ops := c.Args
				if c.IsInvoke() {
					ops = append([]ssa.Value{c.Value}, c.Args...)
				}
				for _, a := range ops {
					if w.isScope(a.Type()) {
						scopes++
						if !w.nestedScope(a, 0) {
							nest = false
						}
					}
				}
				e.nested = scopes > 0 && nest
				if scopes == 0 {
					// reads or prints the node
					out = append(out, e)
					continue
				}
				for _, a := range ops {
					if w.holdsAST(a.Type()) && !w.ownPart(a, map[ssa.Value]bool{}) {
						if n := recvNamed(outermost(f)); n != nil && w.lazyType(n) {
							continue
						}
						e.re = true
					}
				}
				// a node met as a value
				if c.IsInvoke() && w.astTypes()[recvNamed(g)] {
					e.re = true
				}
				out = append(out, e)
			}
		})
	}
	return out
}

// deepAssert: the type assertions a value comes out of.
func deepAssert(v ssa.Value) []*ssa.TypeAssert {
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return []*ssa.TypeAssert{x}
	case *ssa.Extract:
		return deepAssert(x.Tuple)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return deepAssert(x.X)
		}
	case *ssa.Alloc:
		// a variable of a type switch
		var out []*ssa.TypeAssert
		n := 0
		if x.Referrers() != nil {
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					n++
					out = append(out, deepAssert(s.Val)...)
				}
			}
		}
		if n == 1 {
			return out
		}
	}
	return nil
}

func (w *World) reentry(r *Report) {
	edges := w.evalGraph()
	// strongly connected components over the edges that do not nest
	adj := map[*ssa.Function][]*evalEdge{}
	for _, e := range edges {
		if !e.nested {
			adj[e.from] = append(adj[e.from], e)
		}
	}
	comp := sccOf(w.Fns, adj)
	r.Notes = append(r.Notes, fmt.Sprintf("%d call edges, %d of them nested", len(edges), countNested(edges)))
	var keys []string
	seen := map[string]*evalEdge{}
	bad := map[string]string{}
	for _, e := range edges {
		if !e.re {
			continue
		}
		k := w.Name(e.from) + " evaluates " + w.Name(e.to)
		if seen[k] == nil {
			keys = append(keys, k)
			seen[k] = e
		}
		if !e.nested && comp[e.from] == comp[e.to] && (e.from != e.to || true) {
			if p := pathBack(adj, e.to, e.from); p != nil || e.from == e.to {
				var names []string
				for _, q := range append([]*evalEdge{e}, p...) {
					names = append(names, fmt.Sprintf("%s (%s)", w.Name(q.from), w.instrPos(q.at)))
				}
				bad[k] = "evaluates it again without nesting the scope: " + strings.Join(names, " -> ")
				seen[k] = e
			}
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		why := "every way back passes through a nested scope"
		if bad[k] != "" {
			why = bad[k]
		}
		r.Ob("R4-reentry", k, w.instrPos(seen[k].at), bad[k] == "", "%s", why)
	}
}

func countNested(es []*evalEdge) int {
	n := 0
	for _, e := range es {
		if e.nested {
			n++
		}
	}
	return n
}

func pathBack(adj map[*ssa.Function][]*evalEdge, from, to *ssa.Function) []*evalEdge {
	type item struct {
		f    *ssa.Function
		prev *item
		e    *evalEdge
	}
	seen := map[*ssa.Function]bool{from: true}
	q := []*item{{f: from}}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x.f == to && x.e != nil {
			var out []*evalEdge
			for y := x; y.e != nil; y = y.prev {
				out = append([]*evalEdge{y.e}, out...)
			}
			return out
		}
		for _, e := range adj[x.f] {
			if !seen[e.to] || e.to == to {
				seen[e.to] = true
				q = append(q, &item{e.to, x, e})
			}
		}
		if len(q) > 100000 {
			return nil
		}
	}
	return nil
}

func sccOf(fns []*ssa.Function, adj map[*ssa.Function][]*evalEdge) map[*ssa.Function]int {
	idx, low, comp := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, c := 0, 0
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, e := range adj[f] {
			if idx[e.to] == 0 {
				rec(e.to)
				if low[e.to] < low[f] {
					low[f] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[f] {
				low[f] = idx[e.to]
			}
		}
		if low[f] == idx[f] {
			c++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp[g] = c
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range fns {
		if idx[f] == 0 {
			rec(f)
		}
	}
	return comp
}
