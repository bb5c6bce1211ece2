package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = check{run: runC16,
		explanation: "Every function that embeds an aggregator is executed in the abstract: a copy gets an identity of its own, one call does one read-modify-write under that identity, reads nothing else that lasts, and its result depends on the previous state. The identity comes from an atomic counter. The function an occurrence calls is one copy, chosen under one lock. A scope gives its own state or its parent's; a call of a stored definition runs in a nested scope with fresh state; the grouper evaluates every row with the state of its group.",
		assumptions: []string{"aggregates registered by other modules", "what the new state is, beyond depending on the previous one", "state of an occurrence outlives one evaluation of the query in the same scope, by design"}}
}

type aggWorld struct {
	w    *World
	agg  *types.Named // what aggregate functions embed
	id   *types.Var   // its identity
	make *ssa.Function
}

func runC16(w *World, r *Report) {
	r.Rule("R1-identity", "every new aggregator has an identity that no other has", 1)
	r.Rule("R2-copy", "the copy of an aggregate function is a new aggregator", 1)
	r.Rule("R3-occurrence", "an occurrence of a function in a query always calls the one copy it owns", 1)
	r.Rule("R4-step", "a call updates the state in one step, under its own identity", 1)
	r.Rule("R5-modify", "the state is read, changed and stored in one critical section", 1)
	r.Rule("R6-scope", "a scope uses its own state if it has one and that of its parent otherwise", 2)
	r.Rule("R7-call", "a call of a stored definition starts with fresh state", 1)
	r.Rule("R8-group", "rows are evaluated with the state of their group", 1)
	a := &aggWorld{w: w}
	a.find()
	if a.agg == nil || a.id == nil {
		r.Ob("R1-identity", "aggregator", "-", false, "no type that keeps state through Modify was found")
		return
	}
	a.identity(r)
	a.copies(r)
	a.occurrence(r)
	a.steps(r)
	a.modify(r)
	a.scopes(r)
	a.calls(r)
	a.groups(r)
}

// find: the struct whose field is the name under which Modify is called.
func (a *aggWorld) find() {
	w := a.w
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok || callID(c.Common()).name != "Modify" || len(c.Common().Args) < 2 {
				return
			}
			args := c.Common().Args
			if !c.Common().IsInvoke() {
				args = args[1:]
			}
			for _, o := range w.origins(args[0], false) {
				var st types.Type
				var fl *types.Var
				switch x := o.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						st, fl = fa.X.Type(), fieldOf(fa)
					}
				case *ssa.Field:
					st = x.X.Type()
					fl = x.X.Type().Underlying().(*types.Struct).Field(x.Field)
				}
				if fl == nil || st == nil {
					continue
				}
				if n := namedOf(st); n != nil && a.agg == nil {
					a.agg, a.id = n, fl
				}
			}
		})
	}
	if a.agg == nil {
		return
	}
	for _, f := range w.Fns {
		if f.Parent() == nil && f.Synthetic == "" && recvNamed(f) == nil && f.Signature.Results().Len() == 1 && f.Signature.Params().Len() == 0 && namedOf(f.Signature.Results().At(0).Type()) == a.agg && len(f.Blocks) > 0 {
			a.make = f
		}
	}
}

func (a *aggWorld) embeds(n *types.Named) *types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for k := 0; k < st.NumFields(); k++ {
		if namedOf(st.Field(k).Type()) == a.agg {
			return st.Field(k)
		}
	}
	return nil
}

var verb = regexp.MustCompile(`%[vdxXobs]`)

func (a *aggWorld) identity(r *Report) {
	w := a.w
	if a.make == nil {
		r.Ob("R1-identity", "new "+a.agg.Obj().Name(), "-", false, "no function makes one")
		return
	}
	in := newInterp(w)
	rets, st := in.run(a.make, nil, nil)
	ok, why := false, "not analysed "+in.failed
	var counter *term
	if in.failed == "" && len(rets) == 1 && st != nil {
		ok, why = true, ""
		for _, t := range rets[0] {
			var id tset
			if _, ptr := a.make.Signature.Results().At(0).Type().(*types.Pointer); ptr {
				id = in.load(st, in.mk(term{op: "fa", str: a.id.Name(), fld: a.id, args: []*term{t}}))
			} else if v := in.fieldOfValue(t, a.id); v != nil {
				id = tset{v}
			}
			for _, x := range id {
				g, bad := a.countsUp(x)
				if g == nil {
					ok, why = false, bad
				} else {
					counter = g
					why = "made of the next number of " + g.String()
				}
			}
			if len(id) == 0 {
				ok, why = false, "its identity is not known"
			}
		}
	}
	r.Ob("R1-identity", "new "+a.agg.Obj().Name(), w.Pos(a.make.Pos()), ok, "%s", why)
	if counter == nil {
		return
	}
	// nobody else moves the counter
	ok, why = true, "only ever counted up"
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if s, isStore := i.(*ssa.Store); isStore {
				if g, isG := s.Addr.(*ssa.Global); isG && strings.HasSuffix(counter.String(), g.Name()) && g.Pkg == a.make.Pkg && f.Name() != "init" {
					ok, why = false, fmt.Sprintf("%s sets the counter", w.instrPos(i))
				}
			}
			if c, isCall := i.(ssa.CallInstruction); isCall && strings.HasPrefix(callID(c.Common()).pkg, "sync/atomic") && len(c.Common().Args) > 0 {
				if g, isG := c.Common().Args[0].(*ssa.Global); isG && strings.HasSuffix(counter.String(), g.Name()) && g.Pkg == a.make.Pkg && f != a.make && !strings.HasPrefix(callID(c.Common()).name, "Add") && !strings.HasPrefix(callID(c.Common()).name, "Load") {
					ok, why = false, fmt.Sprintf("%s sets the counter", w.instrPos(i))
				}
			}
		})
	}
	r.Ob("R1-identity", "counter", w.Pos(a.make.Pos()), ok, "%s", why)
}

// countsUp: the term names the result of an atomic addition.
func (a *aggWorld) countsUp(t *term) (*term, string) {
	switch {
	case t.op == "call" && strings.Contains(t.str, "Add") && (strings.Contains(t.str, "atomic") || strings.HasPrefix(t.str, "Uint") || strings.HasPrefix(t.str, "Int") || strings.HasPrefix(t.str, "AddUint") || strings.HasPrefix(t.str, "AddInt")) && len(t.args) == 2:
		if d := t.args[1]; d.op == "const" && d.cv != nil && constant.Sign(d.cv) > 0 {
			if t.args[0].op == "global" || rooted(t.args[0]).op == "global" {
				return rooted(t.args[0]), ""
			}
			return nil, "its identity counts " + t.args[0].String() + ", which is not shared by all"
		}
		return nil, "its identity does not count up"
	case t.op == "call" && (strings.HasSuffix(t.str, "Sprintf") || strings.HasSuffix(t.str, "Sprint") || strings.HasSuffix(t.str, "FormatUint") || strings.HasSuffix(t.str, "FormatInt") || strings.HasSuffix(t.str, "Itoa")):
		if strings.HasSuffix(t.str, "Sprintf") {
			if f := t.args[0]; f.op != "const" || f.cv == nil || f.cv.Kind() != constant.String || !verb.MatchString(constant.StringVal(f.cv)) {
				return nil, "its identity does not contain the number"
			}
		}
		for _, x := range t.args {
			if g, _ := a.countsUp(x); g != nil {
				return g, ""
			}
		}
		return nil, "its identity is " + t.String()
	case t.op == "iface" || t.op == "conv":
		return a.countsUp(t.args[0])
	case t.op == "list" || t.op == "append" || t.op == "bin":
		for _, x := range t.args {
			if g, _ := a.countsUp(x); g != nil {
				return g, ""
			}
		}
	}
	return nil, "its identity is " + t.String() + ", which is not a new number"
}

// functions: the functions of a query that embed an aggregator.
func (a *aggWorld) functions() []*types.Named {
	w := a.w
	var out []*types.Named
	it := w.typeNamed("types", "FunctionInterface")
	if it == nil {
		return nil
	}
	iface := it.Underlying().(*types.Interface)
	for _, p := range w.Pkgs {
		for _, name := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			if a.embeds(n) != nil && types.Implements(types.NewPointer(n), iface) {
				out = append(out, n)
			}
		}
	}
	return out
}

func (a *aggWorld) copies(r *Report) {
	w := a.w
	for _, n := range a.functions() {
		f := w.methodNamed(n, "Copy")
		key := "copy of " + n.Obj().Name()
		if f == nil {
			r.Ob("R2-copy", key, w.Pos(n.Obj().Pos()), false, "has no Copy: every occurrence would have the identity \"\"")
			continue
		}
		if ft := w.typeNamed("types", "FunctionCopier"); ft != nil {
			if i, isI := ft.Underlying().(*types.Interface); isI && !types.Implements(n, i) && !types.Implements(types.NewPointer(n), i) {
				r.Ob("R2-copy", key, w.Pos(f.Pos()), false, "its Copy is not the one the engine calls")
				continue
			}
		}
		in := newInterp(w)
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return g == nil || g == a.make }
		var args []tset
		for _, p := range f.Params {
			args = append(args, tset{in.param(p.Name(), p.Type())})
		}
		rets, st := in.run(f, args, nil)
		ok, why := in.failed == "" && len(rets) == 1 && len(rets[0]) > 0 && st != nil, "a new aggregator"
		if !ok {
			why = "not analysed " + in.failed
		} else {
			fld := a.embeds(n)
			for _, t := range rets[0] {
				v := unbox(t)
				if t.op != "iface" || namedOf(t.typ) != n {
					ok, why = false, "the copy is "+t.String()
					break
				}
				var g tset
				if _, ptr := t.typ.(*types.Pointer); ptr {
					g = in.load(st, in.mk(term{op: "fa", str: fld.Name(), fld: fld, args: []*term{v}}))
				} else if x := in.fieldOfValue(v, fld); x != nil {
					g = tset{x}
				}
				x := g.only()
				if x != nil && x.op == "load" && len(x.args) == 1 {
					x = x.args[0]
				}
				if x == nil || x.op != "call" || a.make == nil || !strings.HasSuffix(x.str, a.make.Name()) {
					ok, why = false, fmt.Sprintf("its aggregator is %s", g)
				}
			}
		}
		r.Ob("R2-copy", key, w.Pos(f.Pos()), ok, "%s", why)
	}
}

// ---------------------------------------------------------------- the copy of an occurrence

func (a *aggWorld) occurrence(r *Report) {
	w := a.w
	it := w.typeNamed("types", "FunctionInterface")
	if it == nil {
		return
	}
	// where nodes of the syntax tree keep functions
	var fields []*types.Var
	for n := range w.astTypes() {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for k := 0; k < st.NumFields(); k++ {
				if namedOf(st.Field(k).Type()) == it {
					fields = append(fields, st.Field(k))
				}
			}
		}
	}
	isField := func(v ssa.Value) *types.Var {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		for _, f := range fields {
			if fieldOf(fa) == f {
				return f
			}
		}
		return nil
	}
	// calls
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok || !c.Common().IsInvoke() || c.Common().Method.Name() != "Call" || namedOf(c.Common().Value.Type()) != it {
				return
			}
			o := outermost(f)
			if n := recvNamed(o); n == nil || !w.astTypes()[n] {
				return
			}
			okk, why := true, "the copy kept with the occurrence"
			if v := a.notKept(c.Common().Value, i.Block(), isField, map[ssa.Value]bool{}); v != nil {
				okk, why = false, fmt.Sprintf("calls %s (%s), which is not the copy kept with the occurrence", v.Name(), w.Pos(v.Pos()))
			}
			r.Ob("R3-occurrence", w.Name(f)+" calls", w.instrPos(i), okk, "%s", why)
		})
	}
	// stores
	for _, fl := range fields {
		for _, s := range w.fieldStores[fl] {
			f := s.Parent()
			ok, why := true, "a copy, set once"
			for _, v := range w.origins(s.Val, true) {
				cl, isC := v.(*ssa.Call)
				if !isC {
					ok, why = false, fmt.Sprintf("keeps %s, which is not a copy", v.Name())
					break
				}
				g := cl.Common().StaticCallee()
				if cl.Common().IsInvoke() && cl.Common().Method.Name() == "Copy" {
					continue
				}
				if g == nil || !a.copier(g) {
					ok, why = false, fmt.Sprintf("keeps what %s gives, which is not a copy", callID(cl.Common()).name)
				}
			}
			if ok {
				if !a.testedUnderLock(s, fl) {
					ok, why = false, "does not test, with the lock held, that no other worker stored a copy"
				}
			}
			r.Ob("R3-occurrence", w.Name(f)+" keeps", w.instrPos(s), ok, "%s", why)
		}
	}
	// the copy itself
	for _, f := range w.Fns {
		if f.Parent() == nil && recvNamed(f) == nil && a.callsCopy(f) {
			ok, why := a.copyUsed(f)
			r.Ob("R3-occurrence", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
		}
	}
}

// notKept: a value the function may be, at this block, that is not the kept copy.
func (a *aggWorld) notKept(v ssa.Value, at *ssa.BasicBlock, isField func(ssa.Value) *types.Var, seen map[ssa.Value]bool) ssa.Value {
	if isNilConst(v) || isField(v) != nil {
		return nil
	}
	// just kept
	for _, ss := range a.w.fieldStores {
		for _, s := range ss {
			if s.Val == v && s.Parent() == at.Parent() && s.Block().Dominates(at) {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && a.w.astTypes()[namedOf(fa.X.Type())] {
					return nil
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if seen[x] {
			return nil
		}
		seen[x] = true
		for k, e := range x.Edges {
			if bad := a.notKept(e, x.Block().Preds[k], isField, seen); bad != nil {
				return bad
			}
		}
		return nil
	case *ssa.Call:
		// a helper that gives the copy
		if g := x.Common().StaticCallee(); g != nil && a.w.inMod[g] && a.givesField(g, isField) {
			return nil
		}
	case *ssa.UnOp:
		if os := a.w.origins(v, false); len(os) > 0 && !(len(os) == 1 && os[0] == v) {
			for _, o := range os {
				if bad := a.notKept(o, at, isField, seen); bad != nil {
					return bad
				}
			}
			return nil
		}
	}
	return v
}

func (a *aggWorld) givesField(g *ssa.Function, isField func(ssa.Value) *types.Var) bool {
	n := 0
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		if a.notKept(ret.Results[0], b, isField, map[ssa.Value]bool{}) != nil {
			return false
		}
		n++
	}
	return n > 0
}

func (a *aggWorld) callsCopy(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Copy" && namedOf(c.Common().Value.Type()) == a.w.typeNamed("types", "FunctionCopier") {
			found = true
		}
	})
	return found
}

func (a *aggWorld) copier(g *ssa.Function) bool {
	if !a.w.inMod[g] {
		return false
	}
	if a.callsCopy(g) {
		return true
	}
	found := false
	eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if c, ok := i.(*ssa.Call); ok {
			if h := c.Common().StaticCallee(); h != nil && h != g && a.w.inMod[h] && a.callsCopy(h) {
				found = true
			}
		}
	})
	return found
}

// copyUsed: a function that can be copied is.
func (a *aggWorld) copyUsed(f *ssa.Function) (bool, string) {
	in := newInterp(a.w)
	ct := a.w.typeNamed("types", "FunctionCopier")
	in.assume = func(t *term) *term {
		if t.op == "istype" && t.typ != nil && namedOf(t.typ) == ct {
			return in.boolean(true)
		}
		return nil
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(f, args, nil)
	if in.failed != "" || len(rets) != 1 || len(rets[0]) == 0 {
		return false, "not analysed " + in.failed
	}
	for _, t := range rets[0] {
		if t.op != "call" || !strings.HasSuffix(t.str, ".Copy") {
			return false, "gives " + t.String() + " for a function that has its own Copy"
		}
	}
	return true, "a function with its own Copy is copied by it"
}

// testedUnderLock: the store happens only if the field was nil, and the lock is not given up
// between the test and the store.
func (a *aggWorld) testedUnderLock(s *ssa.Store, fl *types.Var) bool {
	f := s.Parent()
	for _, b := range f.Blocks {
		if !b.Dominates(s.Block()) || len(b.Succs) != 2 {
			continue
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		x, y := cmp.X, cmp.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) {
			continue
		}
		u, ok := x.(*ssa.UnOp)
		if !ok {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldOf(fa) != fl {
			continue
		}
		succ := b.Succs[0]
		if cmp.Op == token.NEQ {
			succ = b.Succs[1]
		}
		if !(succ == s.Block() || succ.Dominates(s.Block())) || len(succ.Preds) != 1 {
			continue
		}
		if !a.unlockBetween(u, s) {
			return true
		}
	}
	return false
}

// unlockBetween: some path from one instruction to the other gives up a lock.
func (a *aggWorld) unlockBetween(from, to ssa.Instruction) bool {
	w := a.w
	un := func(i ssa.Instruction) bool {
		c, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		if _, kind, ok := w.lockOp(c.Common()); ok && strings.Contains(strings.ToLower(kind), "unlock") {
			return true
		}
		return strings.Contains(callID(c.Common()).name, "Unlock")
	}
	return existsBetween(from, to, un)
}

// existsBetween: on some path from one instruction to the other, pred holds.
func existsBetween(from, to ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	fb, tb := from.Block(), to.Block()
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	if fb == tb && idx(from) < idx(to) {
		for _, i := range fb.Instrs[idx(from)+1 : idx(to)] {
			if pred(i) {
				return true
			}
		}
		return false
	}
	for _, i := range fb.Instrs[idx(from)+1:] {
		if pred(i) {
			return true
		}
	}
	for _, i := range tb.Instrs[:idx(to)] {
		if pred(i) {
			return true
		}
	}
	fwd := reachableFrom(fb, false)
	for b := range fwd {
		if b == tb || b == fb {
			continue
		}
		if !reachableFrom(b, false)[tb] || fb.Dominates(b) == false {
			continue
		}
		for _, i := range b.Instrs {
			if pred(i) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- one step

func (a *aggWorld) steps(r *Report) {
	w := a.w
	for _, n := range a.functions() {
		f := w.methodNamed(n, "Call")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		ok, why := a.step(f, n)
		r.Ob("R4-step", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
}

func (a *aggWorld) step(f *ssa.Function, n *types.Named) (bool, string) {
	w := a.w
	in := newInterp(w)
	in.fill = true
	extracts := w.extractNames()
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		if g == nil || g.Pkg != f.Pkg {
			return true
		}
		return false
	}
	const count = "updates done"
	num := func(k int64) *term { return in.konst(constant.MakeInt64(k), types.Typ[types.Int]) }
	bad := ""
	sites := 0
	key := ""
	in.assume = func(t *term) *term {
		// the arguments were accepted
		if t.op == "bin" && t.str == "==" {
			for i := range t.args {
				x, y := t.args[i], t.args[1-i]
				if y.op == "nil" && x.op == "call" && extracts[lastPart(x.str)] {
					return in.boolean(true)
				}
			}
		}
		return nil
	}
	any := types.NewInterfaceType(nil, nil)
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		if callID(c).name != "Modify" {
			return nil, false
		}
		sites++
		var next []*term
		for _, t := range in.cur.heap[count] {
			v, _ := constant.Int64Val(t.cv)
			if v < 2 {
				v++
			}
			next = append(next, num(v))
		}
		in.cur.heap[count] = in.norm(next)
		k := len(args) - 2
		if k < 1 {
			return nil, false
		}
		// under its own identity
		id := args[k].only()
		if id == nil || !a.ownIdentity(id, f) {
			bad = fmt.Sprintf("updates the state called %s", args[k])
		} else {
			key = id.String()
		}
		if t := args[0].only(); t == nil || !(t.op == "call" && strings.HasSuffix(t.str, ".GetAggregatorCtx")) {
			bad = fmt.Sprintf("updates the state of %s, not of its scope", args[0])
		}
		cl := args[k+1].only()
		if cl == nil || cl.op != "closure" && cl.op != "func" {
			bad = "its update is not known"
			return nil, false
		}
		var free []tset
		for _, b := range cl.args {
			free = append(free, tset{b})
		}
		prev := in.param("previous state", any)
		for _, pres := range []bool{true, false} {
			st := in.cur.clone()
			p := tset{prev}
			if !pres {
				p = tset{in.mk(term{op: "nil", typ: any})}
			}
			rets, _ := in.call(cl.fn, []tset{p, {in.boolean(pres)}}, free, st, fmt.Sprintf("update%v", pres))
			if len(rets) != 1 || len(rets[0]) == 0 {
				bad = "its update is not known"
				continue
			}
			dep := false
			for _, t := range rets[0] {
				if mentionsTerm(t, prev) || t.op == "⊤" {
					dep = true
				}
			}
			if pres && !dep {
				bad = fmt.Sprintf("its new state is %s whatever it was before", rets[0])
			}
			if !pres {
				for _, t := range rets[0] {
					if t.op == "nil" {
						bad = "its first state is nil"
					}
				}
			}
		}
		return []tset{{in.mk(term{op: "call", str: "Modify", typ: any})}}, true
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	st := newState()
	st.heap[count] = tset{num(0)}
	rets, out := in.run(f, args, st)
	switch {
	case in.failed != "" || out == nil || len(rets) != 1:
		return false, "not analysed " + in.failed
	case bad != "":
		return false, bad
	case sites == 0:
		return false, "never updates its state"
	}
	for _, t := range out.heap[count] {
		if v, _ := constant.Int64Val(t.cv); v != 1 {
			what := "not at all"
			if v > 1 {
				what = "in more than one step"
			}
			return false, "a call whose arguments are accepted may update the state " + what
		}
	}
	for _, t := range rets[0] {
		if t.op != "call" || t.str != "Modify" {
			return false, fmt.Sprintf("gives %s, not the new state", t)
		}
	}
	// nothing else lasts from one call to the next
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		msg := ""
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			s, isS := i.(*ssa.Store)
			if !isS {
				return
			}
			root := s.Addr
			for {
				switch x := root.(type) {
				case *ssa.FieldAddr:
					root = x.X
					continue
				case *ssa.IndexAddr:
					root = x.X
					continue
				}
				break
			}
			if _, isG := root.(*ssa.Global); isG {
				msg = fmt.Sprintf("%s keeps state outside the scope", w.instrPos(i))
			}
			if p, isP := root.(*ssa.Parameter); isP && namedOf(p.Type()) == n {
				msg = fmt.Sprintf("%s keeps state in the function itself", w.instrPos(i))
			}
		})
		if msg != "" {
			return false, msg
		}
	}
	return true, "one update of " + key
}

func lastPart(s string) string {
	if k := strings.LastIndexAny(s, "./"); k >= 0 {
		return s[k+1:]
	}
	return s
}

func mentionsTerm(t, x *term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentionsTerm(a, x) {
			return true
		}
	}
	return false
}

// extractNames: the functions that extract the arguments of a call.
func (w *World) extractNames() map[string]bool {
	out := map[string]bool{}
	for _, e := range w.extractions() {
		out[callID(e.call.Common()).name] = true
	}
	return out
}

// ownIdentity: the term is the identity of the aggregator in the receiver.
func (a *aggWorld) ownIdentity(t *term, f *ssa.Function) bool {
	if t.op != "field" || t.fld != a.id {
		return false
	}
	for t.op == "field" || t.op == "load" || t.op == "fa" {
		t = t.args[0]
	}
	return t.op == "param" && len(f.Params) > 0 && t.str == f.Params[0].Name()
}

// ---------------------------------------------------------------- read, change, store

func (a *aggWorld) modify(r *Report) {
	w := a.w
	it := w.typeNamed("types", "AggregatorCtx")
	if it == nil {
		return
	}
	for _, f := range w.implsOf(it.Underlying().(*types.Interface), "Modify") {
		if len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		ok, why := a.modifyStep(f)
		r.Ob("R5-modify", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
}

func (a *aggWorld) modifyStep(f *ssa.Function) (bool, string) {
	w := a.w
	in := newInterp(w)
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(f, args, nil)
	if in.failed != "" || len(rets) != 1 {
		return false, "not analysed " + in.failed
	}
	var mod *aevent
	for _, e := range in.evs("call") {
		if e.name.name == "dynamic" || e.name.name == "" || e.res != nil && len(e.args) == 2 && strings.HasPrefix(fmt.Sprint(e.res), "{call:dynamic") {
			if mod != nil {
				return false, "the update runs twice"
			}
			mod = e
		}
	}
	if mod == nil {
		return false, "the update is not run"
	}
	oldv := mod.args[0].only()
	if oldv == nil || oldv.op != "elem" && oldv.op != "lookup" && oldv.op != "res" && oldv.op != "index" {
		return false, fmt.Sprintf("the update is given %s, not the previous state", mod.args[0])
	}
	name := args[1].only()
	if !mentionsTerm(oldv, name) {
		return false, fmt.Sprintf("the update is given %s, which is not the state of that name", oldv)
	}
	var mu *aevent
	for _, e := range in.evs("mapupdate") {
		mu = e
		if len(e.args) < 3 || e.args[1].only() != name {
			return false, "stores the state under another name"
		}
		if fmt.Sprint(e.args[2]) != fmt.Sprint(mod.res) {
			return false, fmt.Sprintf("stores %s, not the new state", e.args[2])
		}
	}
	if mu == nil {
		return false, "does not store the new state"
	}
	if fmt.Sprint(rets[0]) != fmt.Sprint(mod.res) && !w.readBack(f, mu.in) {
		return false, fmt.Sprintf("gives %s, not the new state", rets[0])
	}
	// one critical section
	var look ssa.Instruction
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if l, ok := i.(*ssa.Lookup); ok && look == nil {
			look = l
		}
	})
	if look != nil && mu.in.Parent() == f && a.unlockBetween(look, mu.in) {
		return false, "gives up the lock between reading and storing the state"
	}
	// the store happens on every way to the end
	for _, b := range f.Blocks {
		if _, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && mu.in.Parent() == f && !mu.in.Block().Dominates(b) && b != f.Recover {
			return false, "may return without having stored the new state"
		}
	}
	_ = w
	return true, "read, changed and stored without giving up the lock"
}

// readBack: what is returned was read under the same name after it was stored.
func (w *World) readBack(f *ssa.Function, mu ssa.Instruction) bool {
	m, ok := mu.(*ssa.MapUpdate)
	if !ok || m.Parent() != f {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover || len(ret.Results) != 1 {
			continue
		}
		for _, o := range w.origins(ret.Results[0], false) {
			l, ok := o.(*ssa.Lookup)
			if !ok || l.Index != m.Key || !existsBefore(m, l) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// existsBefore: a comes before b on every way to b.
func existsBefore(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// ---------------------------------------------------------------- scopes

func (a *aggWorld) scopes(r *Report) {
	w := a.w
	it := w.typeNamed("types", "AggregatorCtx")
	get := w.lookupMethod("scope", "Scope", "GetAggregatorCtx")
	set := w.lookupMethod("scope", "Scope", "SetAggregatorCtx")
	cp := w.lookupMethod("scope", "Scope", "Copy")
	if get == nil || set == nil || cp == nil || it == nil {
		return
	}
	sc := namedOf(get.Params[0].Type())
	var own *types.Var
	if st, ok := sc.Underlying().(*types.Struct); ok {
		for k := 0; k < st.NumFields(); k++ {
			if namedOf(st.Field(k).Type()) == it {
				own = st.Field(k)
			}
		}
	}
	if own == nil {
		r.Ob("R6-scope", "state of a scope", w.Pos(get.Pos()), false, "a scope has no state")
		return
	}
	fresh := func(t *term) bool {
		t = unbox(t)
		return t.op == "call" && strings.Contains(t.str, "NewAggregatorCtx") || t.op == "alloc"
	}
	opaque := func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || recvNamed(outermost(g)) != sc || g.Object() != nil && g.Object().Exported() && g != get && g != set && g != cp
	}
	// SetAggregatorCtx
	for _, null := range []bool{true, false} {
		in := newInterp(w)
		in.opaque = opaque
		self := in.param("self", set.Params[0].Type())
		arg := in.param("ctx", it)
		av := tset{arg}
		if null {
			av = tset{in.mk(term{op: "nil", typ: it})}
		}
		in.assume = func(t *term) *term {
			if t.op == "bin" && t.str == "==" && (t.args[0] == arg || t.args[1] == arg) {
				return in.boolean(false)
			}
			return nil
		}
		_, st := in.run(set, []tset{{self}, av}, nil)
		ok, why := in.failed == "" && st != nil, "not analysed "+in.failed
		if ok {
			v := in.load(st, in.mk(term{op: "fa", str: own.Name(), fld: own, args: []*term{self}}))
			why = fmt.Sprintf("the state becomes %s", v)
			if t := v.only(); t == nil || null && !fresh(t) || !null && t != arg {
				ok = false
			}
		}
		name := "set to a given state"
		if null {
			name = "reset"
		}
		r.Ob("R6-scope", w.Name(set)+" "+name, w.Pos(set.Pos()), ok, "%s", why)
	}
	// GetAggregatorCtx
	for _, world := range []string{"own", "parent", "none"} {
		in := newInterp(w)
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return opaque(c, g) || g == get }
		self := in.param("self", get.Params[0].Type())
		in.assume = func(t *term) *term {
			if t.op != "bin" || t.str != "==" {
				return nil
			}
			for i := range t.args {
				x, y := t.args[i], t.args[1-i]
				if y.op != "nil" || x.op != "field" || len(x.args) == 0 || x.args[0] != self {
					continue
				}
				if x.fld == own {
					return in.boolean(world != "own")
				}
				if namedOf(x.typ) == sc {
					return in.boolean(world == "none")
				}
			}
			return nil
		}
		rets, st := in.run(get, []tset{{self}}, nil)
		ok, why := in.failed == "" && st != nil && len(rets) == 1, "not analysed "+in.failed
		if ok {
			why = fmt.Sprintf("gives %s", rets[0])
			t := rets[0].only()
			now := in.load(st, in.mk(term{op: "fa", str: own.Name(), fld: own, args: []*term{self}}))
			switch {
			case t == nil:
				ok = false
			case world == "own":
				ok = unbox(t).op == "field" && unbox(t).fld == own && unbox(t).args[0] == self
			case world == "parent":
				x := unbox(t)
				ok = x.op == "call" && strings.HasSuffix(x.str, "GetAggregatorCtx") && len(x.args) > 0 && x.args[0].op == "field" && namedOf(x.args[0].typ) == sc && x.args[0].args[0] == self
			case world == "none":
				ok = fresh(t) && now.only() == t
				if !ok {
					why += fmt.Sprintf(", keeps %s", now)
				}
			}
		}
		r.Ob("R6-scope", w.Name(get)+" "+world, w.Pos(get.Pos()), ok, "%s", why)
	}
	// Copy: inherits
	in := newInterp(w)
	in.opaque = opaque
	self := in.param("self", cp.Params[0].Type())
	rets, st := in.run(cp, []tset{{self}}, nil)
	ok, why := in.failed == "" && st != nil && len(rets) == 1, "not analysed "+in.failed
	if ok {
		for _, t := range rets[0] {
			v := in.load(st, in.mk(term{op: "fa", str: own.Name(), fld: own, args: []*term{unbox(t)}}))
			why = fmt.Sprintf("a nested scope starts with %s", v)
			x := v.only()
			if x == nil || !(x.op == "nil" || x.op == "zero") {
				// the same state as the parent would do as well
				if x == nil || !(x.op == "field" && x.fld == own && x.args[0] == self) {
					ok = false
				}
			}
		}
	}
	r.Ob("R6-scope", w.Name(cp)+" inherits", w.Pos(cp.Pos()), ok, "%s", why)
}

// ---------------------------------------------------------------- calls of stored definitions

// storedDef: what LET stores: evaluated with a scope, and called with arguments.
func (a *aggWorld) storedDef(t types.Type) bool {
	w := a.w
	n := namedOf(t)
	if n == nil {
		return false
	}
	for _, name := range []string{"StoredExpression", "StoredQuery"} {
		if it := w.typeNamed("types", name); it != nil && it == n {
			return true
		}
	}
	it := w.typeNamed("types", "DefaultArgInterface")
	if it == nil || types.IsInterface(n) {
		return false
	}
	return types.Implements(types.NewPointer(n), it.Underlying().(*types.Interface))
}

// calledField: the field that tells a call from a plain reference.
func (a *aggWorld) calledField(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || !a.w.astTypes()[namedOf(fa.X.Type())] {
		return false
	}
	b, ok := fieldOf(fa).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0 && strings.Contains(st.Tag(fa.Field), `@"("`)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// bindsArguments: the dict is filled with names that are not known here.
func (a *aggWorld) bindsArguments(v ssa.Value) bool {
	w := a.w
	for _, o := range w.origins(v, false) {
		if m, ok := o.(*ssa.MakeInterface); ok {
			for _, x := range w.origins(m.X, false) {
				if a.argDict(x) {
					return true
				}
			}
			continue
		}
		if a.argDict(o) {
			return true
		}
	}
	return false
}

func isDict(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Dict" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "ordereddict")
}

func (a *aggWorld) argDict(o ssa.Value) bool {
	w := a.w
	switch x := o.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return isDict(o.Type())
	case *ssa.UnOp:
		return isDict(o.Type())
	case *ssa.Call:
		if !isDict(x.Type()) {
			return false
		}
		g := x.Common().StaticCallee()
		if g != nil && w.inMod[g] {
			return true
		}
		// a new dict
		for v := range w.flow([]ssa.Value{x}, flowOpts{selfCall: func(c *ssa.CallCommon) bool {
			return callID(c).name == "Set" && isDict(c.Signature().Results().At(0).Type())
		}}) {
			if v.Referrers() == nil {
				continue
			}
			for _, ref := range *v.Referrers() {
				c, ok := ref.(ssa.CallInstruction)
				if !ok || callID(c.Common()).name != "Set" || len(c.Common().Args) < 2 || c.Common().Args[0] != v {
					continue
				}
				if _, isConst := c.Common().Args[1].(*ssa.Const); !isConst {
					return true
				}
			}
		}
	}
	return false
}

// scopeUses: the instructions that call a method on one of the values of the scope.
func (a *aggWorld) onScope(sc valset, i ssa.Instruction, name string) *ssa.CallCommon {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	if callID(c).name != name {
		return nil
	}
	recv := c.Value
	if !c.IsInvoke() {
		if len(c.Args) == 0 {
			return nil
		}
		recv = c.Args[0]
	}
	if sc[recv] {
		return c
	}
	return nil
}

func (a *aggWorld) calls(r *Report) {
	w := a.w
	for _, f := range w.Fns {
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			id := callID(c)
			if id.name != "Reduce" && id.name != "Eval" {
				return
			}
			recv, args := c.Value, c.Args
			if !c.IsInvoke() {
				if len(c.Args) == 0 {
					return
				}
				recv, args = c.Args[0], c.Args[1:]
			}
			if !a.storedDef(recv.Type()) {
				return
			}
			for _, s := range args {
				if !w.isScope(s.Type()) {
					continue
				}
				for _, o := range w.origins(s, false) {
					if cp, isC := o.(*ssa.Call); isC {
						if ok, why, applies := a.freshCall(cp, i, 0); applies {
							r.Ob("R7-call", w.Name(f)+" evaluates "+id.name, w.instrPos(i), ok, "%s", why)
						}
					}
				}
			}
		})
	}
}

// freshCall: cp makes the nested scope of the evaluation at use. If arguments are bound in it,
// its state was reset before the evaluation.
func (a *aggWorld) freshCall(cp *ssa.Call, use ssa.Instruction, depth int) (ok bool, why string, applies bool) {
	w := a.w
	sc := w.flow([]ssa.Value{cp}, flowOpts{params: true, selfCall: func(c *ssa.CallCommon) bool { return callID(c).name == "AppendVars" }})
	binds, resets := []ssa.Instruction{}, []ssa.Instruction{}
	why = "its state is not reset"
	collect := func(f *ssa.Function) {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if c := a.onScope(sc, i, "AppendVars"); c != nil {
				v := c.Args[len(c.Args)-1]
				if a.bindsArguments(v) {
					binds = append(binds, i)
				}
			}
			if c := a.onScope(sc, i, "SetAggregatorCtx"); c != nil {
				if bad := a.freshState(c.Args[len(c.Args)-1]); bad != "" {
					why = bad
				} else {
					resets = append(resets, i)
				}
			}
		})
	}
	seen := map[*ssa.Function]bool{}
	for v := range sc {
		if g := v.Parent(); g != nil && !seen[g] {
			seen[g] = true
			collect(g)
		}
	}
	if callID(cp.Common()).name != "Copy" || !w.isScope(recvOf(cp.Common()).Type()) {
		// a helper that makes the scope
		g := cp.Common().StaticCallee()
		if g == nil || !w.inMod[g] || depth > 2 {
			return true, "", false
		}
		for _, b := range g.Blocks {
			ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR {
				continue
			}
			for _, v := range ret.Results {
				if !w.isScope(v.Type()) {
					continue
				}
				for _, o := range w.origins(v, false) {
					if c2, isC := o.(*ssa.Call); isC {
						ok2, why2, app2 := a.freshCall(c2, ret, depth+1)
						if app2 || len(binds) > 0 {
							if !ok2 && !a.resetBefore(resets, cp, use) {
								return false, why2, true
							}
							applies = true
							if !app2 && !a.resetBefore(resets, cp, use) && !a.resetInside(c2, ret) {
								return false, why, true
							}
						}
					}
				}
			}
		}
		return true, "state reset", applies
	}
	if len(binds) == 0 {
		return true, "", false
	}
	// every way from the copy to the evaluation resets
	if a.resetBefore(resets, cp, use) {
		return true, "state reset before the evaluation", true
	}
	return false, why, true
}

func (a *aggWorld) resetInside(cp *ssa.Call, use ssa.Instruction) bool {
	sc := a.w.flow([]ssa.Value{cp}, flowOpts{params: true, selfCall: func(c *ssa.CallCommon) bool { return callID(c).name == "AppendVars" }})
	var resets []ssa.Instruction
	eachInstr(cp.Parent(), func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if c := a.onScope(sc, i, "SetAggregatorCtx"); c != nil && a.freshState(c.Args[len(c.Args)-1]) == "" {
			resets = append(resets, i)
		}
	})
	return a.resetBefore(resets, cp, use)
}

func recvOf(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() || len(c.Args) == 0 {
		return c.Value
	}
	return c.Args[0]
}

// freshState: "" if the state is new.
func (a *aggWorld) freshState(v ssa.Value) string {
	w := a.w
	for _, o := range w.origins(v, false) {
		if isNilConst(o) {
			continue
		}
		if m, ok := o.(*ssa.MakeInterface); ok {
			o = m.X
		}
		if c, ok := o.(*ssa.Call); ok && strings.HasPrefix(callID(c.Common()).name, "New") {
			continue
		}
		// kept since the call
		if u, ok := o.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				bad := ""
				for _, s := range w.fieldStores[fieldOf(fa)] {
					if b := a.freshState(s.Val); b != "" {
						bad = b
					}
				}
				if bad == "" {
					continue
				}
				return bad
			}
		}
		return fmt.Sprintf("its state is %s (%s), which others may have", o.Name(), w.Pos(o.Pos()))
	}
	return ""
}

// resetBefore: every way from the copy to the use, in the world of a call, passes a reset.
func (a *aggWorld) resetBefore(resets []ssa.Instruction, cp *ssa.Call, use ssa.Instruction) bool {
	at := map[ssa.Instruction]bool{}
	for _, i := range resets {
		at[i] = true
		// in a function given the scope: its call
		for _, c := range a.w.callers[i.Parent()] {
			if i.Parent() != cp.Parent() {
				at[c] = true
			}
		}
	}
	from := cp.Parent()
	target := use
	// the use is in a goroutine or closure: where that is made
	for target.Parent() != from {
		mc := closureSite(target.Parent())
		if mc == nil {
			return false
		}
		// a reset inside the closure, before the use
		for _, i := range resets {
			if i.Parent() == target.Parent() && (i.Block() != target.Block() && i.Block().Dominates(target.Block()) || i.Block() == target.Block() && mayPrecede(i, target)) {
				return true
			}
		}
		target = mc
	}
	type pos struct {
		b *ssa.BasicBlock
		k int
	}
	start := pos{cp.Block(), 0}
	for k, i := range cp.Block().Instrs {
		if i == cp {
			start.k = k + 1
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pos{start}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		hit := false
		for _, i := range p.b.Instrs[p.k:] {
			if at[i] {
				hit = true
				break
			}
			if i == target {
				return false
			}
		}
		if hit {
			continue
		}
		succs := p.b.Succs
		if ifi, ok := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.If); ok {
			c, neg := ifi.Cond, false
			for {
				u, isU := c.(*ssa.UnOp)
				if !isU || u.Op != token.NOT {
					break
				}
				c, neg = u.X, !neg
			}
			if a.calledField(c) {
				if neg {
					succs = succs[1:2]
				} else {
					succs = succs[:1]
				}
			}
		}
		for _, s := range succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, pos{s, 0})
			}
		}
	}
	return true
}

func closureSite(f *ssa.Function) ssa.Instruction {
	if f.Parent() == nil {
		return nil
	}
	var out ssa.Instruction
	eachInstr(f.Parent(), func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f {
			out = mc
		}
	})
	return out
}

// ---------------------------------------------------------------- groups

func (a *aggWorld) groups(r *Report) {
	w := a.w
	it := w.typeNamed("types", "Grouper")
	if it == nil {
		return
	}
	iface, _ := it.Underlying().(*types.Interface)
	for _, f := range w.implsOf(iface, "Group") {
		if len(f.Blocks) == 0 || f.Synthetic != "" || w.delegates(f) || recvNamed(f) != nil && recvNamed(f).Obj().Name() == "Scope" {
			continue
		}
		ok, why := a.group(f)
		r.Ob("R8-group", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
	// the rows the grouper is given evaluate in the scope it is given
	if act := w.typeNamed("types", "GroupbyActor"); act != nil {
		for _, f := range w.implsOf(act.Underlying().(*types.Interface), "GetNextRow") {
			if len(f.Blocks) == 0 || f.Synthetic != "" {
				continue
			}
			ok, why := a.rowScope(f)
			r.Ob("R8-group", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
		}
	}
}

func (a *aggWorld) group(f *ssa.Function) (bool, string) {
	w := a.w
	for _, pres := range []bool{true, false} {
		in := newInterp(w)
		in.enterGo = true
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return g == nil || outermost(g).Pkg != f.Pkg }
		state := map[string]*term{} // scope -> state
		bad, lost := "", false
		var firstState []*term
		nothing := in.mk(term{op: "nil", typ: types.NewInterfaceType(nil, nil)})
		n := 0
		isKey := func(t *term) bool {
			t = unbox(t)
			return t.op == "res" && t.str == "2" && strings.HasSuffix(t.args[0].str, ".GetNextRow")
		}
		// bin: the term was found under the key of the row
		var bin func(t *term) bool
		bin = func(t *term) bool {
			switch t.op {
			case "res", "elem", "lookup", "index", "field", "assert", "iface", "load", "tuple", "conv", "fa":
				if t.op == "elem" || t.op == "lookup" || t.op == "index" {
					if len(t.args) > 1 && isKey(t.args[1]) {
						return true
					}
				}
				return len(t.args) > 0 && bin(t.args[0])
			case "call":
				if strings.HasSuffix(t.str, ".Get") {
					for _, x := range t.args {
						if isKey(x) {
							return true
						}
					}
				}
			}
			return false
		}
		var found func(t *term) bool
		found = func(t *term) bool {
			// was there a bin
			if t.op == "haskey" {
				return len(t.args) > 1 && isKey(t.args[1])
			}
			return (t.op == "res" || t.op == "recvok" || t.op == "has") && t.str == "1" && t.typ != nil && types.Identical(t.typ.Underlying(), types.Typ[types.Bool]) && bin(t)
		}
		in.assume = func(t *term) *term {
			if v := running(in, t); v != nil {
				return v
			}
			if found(t) {
				return in.boolean(pres)
			}
			if t.op == "bin" && t.str == "==" {
				for i := range t.args {
					x, y := t.args[i], t.args[1-i]
					if y.op == "nil" && x.op == "res" && x.str == "4" && strings.HasSuffix(x.args[0].str, ".GetNextRow") {
						return in.boolean(true)
					}
					if y.op == "nil" && bin(x) && x.typ != nil {
						return in.boolean(!pres)
					}
				}
			}
			if t.op == "istype" && bin(t.args[0]) {
				return in.boolean(pres)
			}
			return nil
		}
		fresh := func(t *term) bool {
			t = unbox(t)
			return t.op == "call" && strings.Contains(t.str, "NewAggregatorCtx")
		}
		in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
			switch callID(c).name {
			case "Set":
				// a new bin is kept under the key of the row
				if len(args) == 3 && args[1].only() != nil && isKey(args[1].only()) {
					in.cur.heap["kept"] = args[2]
					// after the row was evaluated will do as well
					for _, due := range in.cur.heap["due"] {
						for _, v := range args[2] {
							if due != nothing && holdsTerm(in, in.cur, v, due) {
								in.cur.heap["due"] = tset{nothing}
							}
						}
					}
				}
				if isDict(c.Signature().Results().At(0).Type()) {
					return []tset{args[0]}, true
				}
			case "GetNextRow":
				for _, due := range in.cur.heap["due"] {
					lost = lost || due != nothing
				}
				in.cur.heap["kept"], in.cur.heap["due"] = tset{nothing}, tset{nothing}
			case "NewAggregatorCtx":
				// one for every place that makes one
				site := in.konst(constant.MakeString(w.instrPos(in.at)), types.Typ[types.String])
				return []tset{{in.mk(term{op: "call", str: "aggregators.NewAggregatorCtx", typ: c.Signature().Results().At(0).Type(), args: []*term{site}})}}, true
			case "SetAggregatorCtx":
				if s := args[0].only(); s != nil && len(args) == 2 {
					in.cur.heap["state of "+s.key] = args[1]
					state[s.key] = s
				}
			case "MaterializeRow":
				n++
				var s *term
				for _, x := range args {
					if t := x.only(); t != nil && t.typ != nil && w.isScope(t.typ) {
						s = t
					}
				}
				if s == nil {
					bad = "evaluates a row in a scope that is not known"
					return nil, false
				}
				v := in.cur.heap["state of "+s.key]
				t := v.only()
				switch {
				case t == nil:
					bad = fmt.Sprintf("evaluates a row with the state %s", v)
				case pres && !bin(t):
					bad = fmt.Sprintf("evaluates a row of a known group with the state %s", t)
				case !pres && !fresh(t):
					bad = fmt.Sprintf("evaluates the first row of a group with the state %s", t)
				case !pres:
					firstState = append(firstState, t)
					ok := len(in.cur.heap["kept"]) > 0
					for _, k := range in.cur.heap["kept"] {
						ok = ok && holdsTerm(in, in.cur, k, t)
					}
					if !ok {
						in.cur.heap["due"] = tset{t}
					}
				}
			}
			return nil, false
		}
		var args []tset
		for _, p := range f.Params {
			args = append(args, tset{in.param(p.Name(), p.Type())})
		}
		st := newState()
		st.heap["kept"], st.heap["due"] = tset{nothing}, tset{nothing}
		in.run(f, args, st)
		for _, e := range in.evs("mapupdate") {
			// a plain map of bins
			if len(e.args) > 2 && e.args[1].only() != nil && isKey(e.args[1].only()) {
				for _, t := range firstState {
					for _, v := range e.args[2] {
						if holdsTerm(in, st, v, t) {
							lost = false
						}
					}
				}
			}
		}
		switch {
		case lost:
			return false, "does not keep the state of a new group under its key"
		case in.failed != "":
			return false, in.failed
		case bad != "":
			return false, bad
		case n == 0:
			return false, "no row is evaluated"
		}
	}
	return true, "rows of a known group get the state kept under their key, the first row of a group fresh state that is kept"
}

// holdsTerm: v is t, or points to a struct one of whose fields is t.
func holdsTerm(in *interp, st *astate, v, t *term) bool {
	v = unbox(v)
	if v == unbox(t) {
		return true
	}
	if v.typ == nil {
		return false
	}
	fields, ok := deref(v.typ).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for k := 0; k < fields.NumFields(); k++ {
		var x tset
		if _, ptr := v.typ.Underlying().(*types.Pointer); ptr || v.op == "alloc" {
			x = in.load(st, in.mk(term{op: "fa", str: fields.Field(k).Name(), fld: fields.Field(k), args: []*term{v}}))
		} else if y := in.fieldOfValue(v, fields.Field(k)); y != nil {
			x = tset{y}
		}
		if y := x.only(); y != nil && unbox(y) == unbox(t) {
			return true
		}
	}
	return false
}

// rowScope: the lazy columns of the row evaluate below the scope that is returned with it.
func (a *aggWorld) rowScope(f *ssa.Function) (bool, string) {
	w := a.w
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || outermost(g).Pkg != f.Pkg || callID(c).name == "Transform" || w.isEvaluator(outermost(g))
	}
	in.assume = func(t *term) *term { return running(in, t) }
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		if callID(c).name == "Copy" && w.isScope(recvOf(c).Type()) {
			return []tset{{in.param("nested scope of "+w.instrPos(in.at), c.Signature().Results().At(0).Type())}}, true
		}
		return nil, false
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	in.run(f, args, nil)
	if in.failed != "" {
		return false, in.failed
	}
	n := 0
	for _, e := range in.evs("return") {
		if e.fn != f || len(e.args) != 5 {
			continue
		}
		s := sameScope(e.args[3].only())
		row := e.args[0].only()
		if row == nil || s == nil {
			return false, fmt.Sprintf("gives the row %s with the scope %s", e.args[0], e.args[3])
		}
		if row.op == "nil" || unbox(row).op == "nil" {
			continue
		}
		n++
		row = unbox(row)
		if row.op != "res" || row.str != "0" || !strings.HasSuffix(row.args[0].str, "Transform") {
			return false, fmt.Sprintf("gives the row %s", row)
		}
		ok := false
		for _, x := range row.args[0].args {
			if x.typ != nil && w.isScope(x.typ) && sameScope(x) == s {
				ok = true
			}
		}
		if !ok {
			return false, fmt.Sprintf("the columns of the row evaluate in another scope than %s, which is returned with it", s)
		}
	}
	if n == 0 {
		return false, "gives no row"
	}
	return true, "the row evaluates below the scope that is returned with it"
}
