package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// not nil
// ---------------------------------------------------------------------------

// nn is the answer about one value: where it can be nil comes from a source
// the module itself says may be nil; other values are trusted.
type nn struct {
	sources []string // what may be nil on the way here, guarded or not
	bad     string   // the source that is not guarded, or ""
	tells   []int    // another result that says whether it is there
}

func (r nn) ok() bool { return r.bad == "" }

func (r *nn) add(o nn) {
	r.sources = append(r.sources, o.sources...)
	if r.bad == "" {
		r.bad = o.bad
	}
}

// saysNonNil: the condition is only satisfied when v is not nil.
func (p *prover) saysNonNil(v ssa.Value, c condAt, depth int) bool {
	if ways := waysOf(c); ways != nil && depth <= proveDepth && outlives(v, c.v.(*ssa.Phi).Block()) {
		for _, w := range ways {
			says := false
			for _, o := range w {
				if p.saysNonNil(v, o, depth+1) {
					says = true
					break
				}
			}
			if !says {
				return false
			}
		}
		return true
	}
	switch x := c.v.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if isNilConst(s[1]) && p.same(v, s[0]) {
				return c.val == (x.Op == token.NEQ)
			}
		}
	case *ssa.Extract:
		if c.val && x.Index == 1 {
			if e, ok := p.plain(v).(*ssa.Extract); ok && e.Index == 0 && e.Tuple == x.Tuple {
				switch t := x.Tuple.(type) {
				case *ssa.TypeAssert:
					return !foreignPointer(p.w, t.AssertedType)
				case *ssa.Lookup:
					return true
				}
			}
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && types.IsInterface(ta.X.Type()) && p.same(v, ta.X) {
				return true
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && p.w.inModule(f) && depth <= proveDepth {
			return p.callSaysNonNil(v, f, x.Call.Args, 0, c.val, depth)
		}
	}
	if e, ok := c.v.(*ssa.Extract); ok {
		if call, ok := e.Tuple.(*ssa.Call); ok && depth <= proveDepth {
			if f := call.Call.StaticCallee(); f != nil && p.w.inModule(f) {
				return p.callSaysNonNil(v, f, call.Call.Args, e.Index, c.val, depth)
			}
		}
	}
	return false
}

// callSaysNonNil: f(args) only gives val as result idx when v is not nil.
func (p *prover) callSaysNonNil(v ssa.Value, f *ssa.Function, args []ssa.Value, idx int, val bool, depth int) bool {
	key := "cn" + f.String()
	if !p.enter(key) {
		return false
	}
	defer p.leave(key)
	for i, a := range args {
		if i >= len(f.Params) || !p.same(a, v) {
			continue
		}
		pa := f.Params[i]
		good, any := true, false
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(r.Results) {
				continue
			}
			res := r.Results[idx]
			if k, ok := res.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != val {
				continue
			}
			any = true
			if p.heldNonNil(pa, b, depth+1) {
				continue
			}
			told := false
			for _, c := range flatConds(condAt{res, val}) {
				if p.saysNonNil(pa, c, depth+1) {
					told = true
				}
			}
			if !told {
				good = false
			}
		}
		if good && any {
			return true
		}
	}
	return false
}

// heldNonNil: the conditions on the way to b say v is not nil.
func (p *prover) heldNonNil(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	return p.heldSeen(v, b, depth, map[*ssa.BasicBlock]bool{})
}

func (p *prover) heldSeen(v ssa.Value, b *ssa.BasicBlock, depth int, seen map[*ssa.BasicBlock]bool) bool {
	for _, c := range p.at(b) {
		if p.saysNonNil(v, c, depth) {
			return true
		}
	}
	for x := b; x != nil; x = x.Idom() {
		e := entries(x)
		if len(e) < 2 {
			continue
		}
		if seen[x] || !outlives(v, x.Idom()) {
			return false
		}
		seen[x] = true
		all := true
		for _, pr := range e {
			ok := false
			if c, has := edgeCond(pr, x); has {
				for _, c := range flatConds(c) {
					if p.saysNonNil(v, c, depth) {
						ok = true
					}
				}
			}
			if !ok && !p.heldSeen(v, pr, depth, seen) {
				all = false
				break
			}
		}
		if all {
			return true
		}
		// look above the join as well
	}
	return false
}

// foreignPointer: a pointer to a type the module does not make itself, so that
// a nil one may come with a value.
func foreignPointer(w *World, t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(pt.Elem())
	if n == nil {
		return true // *string, *int
	}
	return n.Obj().Pkg() == nil || !w.isModPkg(n.Obj().Pkg().Path())
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}

// nonNil asks where v comes from.
func (p *prover) nonNil(v ssa.Value, b *ssa.BasicBlock, depth int) (res nn) {
	v = p.plain(v)
	src := func(format string, args ...any) nn {
		s := fmt.Sprintf(format, args...)
		r := nn{sources: []string{s}}
		if !p.heldNonNil(v, b, 0) {
			r.bad = s
		}
		return r
	}
	if depth > 8 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil && nilable(x.Type()) {
			return nn{sources: []string{"nil"}, bad: "nil"}
		}
	case *ssa.Phi:
		key := "np" + x.Name() + x.Parent().String()
		if !p.enter(key) {
			return
		}
		defer p.leave(key)
		if p.heldNonNil(v, b, 0) {
			for i, e := range x.Edges {
				r := p.nonNil(e, x.Block().Preds[i], depth+1)
				res.sources = append(res.sources, r.sources...)
			}
			return
		}
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			if c, ok := edgeCond(pr, x.Block()); ok {
				told := false
				for _, c := range flatConds(c) {
					if p.saysNonNil(e, c, 0) {
						told = true
					}
				}
				if told {
					res.sources = append(res.sources, "a value tested on the way")
					continue
				}
			}
			if isNilConst(e) && p.contradicts(x, i, b) {
				res.sources = append(res.sources, "nil")
				continue
			}
			res.add(p.nonNil(e, pr, depth+1))
		}
		return
	case *ssa.TypeAssert:
		if foreignPointer(p.w, x.AssertedType) {
			return p.foreign(v, x, b)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index != 0 || !nilable(t.AssertedType) {
				return
			}
			if foreignPointer(p.w, t.AssertedType) {
				return p.foreign(v, t, b)
			}
			return src("the result of the test for %s", types.TypeString(t.AssertedType, types.RelativeTo(p.pkg())))
		case *ssa.Lookup:
			if x.Index == 0 && nilable(x.Type()) {
				if p.inStep(t) {
					return nn{sources: []string{"an entry of " + shortVal(t.X)}}
				}
				return src("the entry looked up in %s", shortVal(t.X))
			}
		case *ssa.UnOp:
			if t.Op == token.ARROW && x.Index == 0 {
				return src("what is received from %s", shortVal(t.X))
			}
		case *ssa.Call:
			return p.nonNilCall(v, t, x.Index, b, depth)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && nilable(x.Type()) {
			if p.inStep(x) {
				return nn{sources: []string{"an entry of " + shortVal(x.X)}}
			}
			return src("the entry looked up in %s", shortVal(x.X))
		}
	case *ssa.Call:
		return p.nonNilCall(v, x, 0, b, depth)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return p.optionalField(v, fa, b)
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == x || f.Parent() == nil {
			p.w.buildSites()
			if p.heldNonNil(v, b, 0) {
				return
			}
			key := "nq" + f.String() + x.Name()
			if !p.enter(key) {
				return
			}
			defer p.leave(key)
			i := paramIndex(x)
			for _, s := range p.w.callers[f] {
				if !p.live[outermost(s.Parent())] {
					continue
				}
				if a := argFor(s.Common(), f, i); a != nil {
					r := p.nonNil(a, s.Block(), depth+1)
					if r.bad != "" {
						r.bad += fmt.Sprintf(" passed by %s at %s", p.w.Name(s.Parent()), p.w.instrPos(s))
					}
					res.add(r)
				}
			}
			return
		}
	}
	return
}

// inStep: the key comes from a list of the same object, and whatever is added
// to the list is given an entry.
func (p *prover) inStep(l *ssa.Lookup) bool {
	field := func(v ssa.Value) *ssa.FieldAddr {
		if u, ok := p.plain(v).(*ssa.UnOp); ok && u.Op == token.MUL {
			fa, _ := u.X.(*ssa.FieldAddr)
			return fa
		}
		return nil
	}
	m := field(l.X)
	if m == nil {
		return false
	}
	// the key is an element of a list of the same object, here or where a
	// helper is given it
	var lists []*types.Var
	var elem func(key, obj ssa.Value, depth int) bool
	elem = func(key, obj ssa.Value, depth int) bool {
		key, obj = p.plain(key), p.plain(obj)
		if u, ok := key.(*ssa.UnOp); ok {
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			list := field(ia.X)
			if list == nil || !p.same(list.X, obj) {
				return false
			}
			lists = append(lists, fieldOf(list))
			return true
		}
		kp, ok1 := key.(*ssa.Parameter)
		op, ok2 := obj.(*ssa.Parameter)
		if !ok1 || !ok2 || depth > 3 || p.w.addrTaken[kp.Parent()] || token.IsExported(kp.Parent().Name()) || len(p.w.callers[kp.Parent()]) == 0 {
			return false
		}
		for _, c := range p.w.callers[kp.Parent()] {
			k, o := argOfParam(c, kp), argOfParam(c, op)
			if k == nil || o == nil || !elem(k, o, depth+1) {
				return false
			}
		}
		return true
	}
	if !elem(l.Index, m.X, 0) {
		return false
	}
	mf, lf := fieldOf(m), lists[0]
	for _, l := range lists {
		if l != lf {
			return false
		}
	}
	n := 0
	for _, s := range p.w.fieldStores[lf] {
		if isNilConst(s.Val) {
			continue
		}
		c, ok := s.Val.(*ssa.Call)
		if !ok {
			if isFreshStruct(s) && p.length(s.Val) == (num{}) {
				continue
			}
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "append" || len(c.Call.Args) != 2 {
			return false
		}
		n++
		keys := appended(c)
		for _, k := range keys {
			stored := false
			eachInstr(s.Parent(), func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
				if mu, ok := i.(*ssa.MapUpdate); ok && p.same(mu.Key, k) {
					if f := field(mu.Map); f != nil && fieldOf(f) == mf && (mu.Block().Dominates(s.Block()) || alwaysRuns(mu)) {
						stored = true
					}
				}
			})
			if !stored {
				return false
			}
		}
		if len(keys) == 0 {
			return false
		}
	}
	// nothing is taken out again
	for _, f := range p.w.Fns {
		bad := false
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					if fa := field(c.Call.Args[0]); fa != nil && fieldOf(fa) == mf {
						bad = true
					}
				}
			}
			if s, ok := i.(*ssa.Store); ok && !isFreshStruct(s) {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa) == mf {
					bad = true
				}
			}
		})
		if bad {
			return false
		}
	}
	return n > 0
}

// appended lists what a call of append adds, when that is written out.
func appended(c *ssa.Call) (out []ssa.Value) {
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					out = append(out, s.Val)
				}
			}
		}
	}
	return
}

// contradicts: in b something is known about another variable of the same join
// that excludes edge i.
func (p *prover) contradicts(ph *ssa.Phi, i int, b *ssa.BasicBlock) bool {
	for _, in := range ph.Block().Instrs {
		o, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if o == ph {
			continue
		}
		for _, c := range p.at(b) {
			if c.v == ssa.Value(o) {
				if k, ok := o.Edges[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != c.val {
					return true
				}
			}
			if bo, ok := c.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				for _, s := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if s[0] == ssa.Value(o) && isNilConst(s[1]) {
						isNil := c.val == (bo.Op == token.EQL)
						if isNil && staticFact(o.Edges[i]) == fNonNil || !isNil && isNilConst(o.Edges[i]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (p *prover) pkg() *types.Package { return nil }

func shortVal(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldName(fieldOf(fa))
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name()
		}
	case *ssa.Parameter:
		return x.Name()
	}
	return types.TypeString(v.Type(), func(q *types.Package) string { return q.Name() })
}

// foreign: a pointer to a type of another package taken out of an interface.
func (p *prover) foreign(v ssa.Value, ta *ssa.TypeAssert, b *ssa.BasicBlock) nn {
	if it, ok := ta.X.Type().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
		return nn{} // errors and the like, not values of a query
	}
	s := fmt.Sprintf("a %s taken out of an interface", types.TypeString(ta.AssertedType, func(q *types.Package) string { return q.Name() }))
	r := nn{sources: []string{s}}
	if p.heldNonNil(v, b, 0) {
		return r
	}
	if ta.CommaOk {
		// the value is only meaningful where the test succeeded
		okKnown := false
		for _, c := range p.at(b) {
			if e, is := c.v.(*ssa.Extract); is && e.Tuple == ssa.Value(ta) && e.Index == 1 && c.val {
				okKnown = true
			}
		}
		if !okKnown && !p.phiTuple(ta, b) {
			r.bad = s + ", also where the test failed"
			return r
		}
	}
	if m := p.kinds(rdesc{p.plain(ta.X), "", true}, b, 0); m&kPtrNil != 0 {
		r.bad = s + " that may be a nil pointer"
	}
	return r
}

func (p *prover) phiTuple(ta *ssa.TypeAssert, b *ssa.BasicBlock) bool { return false }

// optionalField: a part of the parsed query that need not be there.
func (p *prover) optionalField(v ssa.Value, fa *ssa.FieldAddr, b *ssa.BasicBlock) (r nn) {
	fl := fieldOf(fa)
	af := p.ast.fields[fl]
	if af == nil || !af.parsed || !nilable(fl.Type()) {
		return
	}
	combos := p.presence(af.owner)
	if combos == nil {
		return
	}
	always := true
	for _, c := range combos {
		if !c[fl] {
			always = false
		}
	}
	if always {
		return
	}
	s := af.String()
	r.sources = []string{s}
	if p.heldNonNil(v, b, 0) {
		return
	}
	// what else of the same node is known to be there or not
	if p.impliedUp(fa.X, fl, b, combos, 0) {
		return
	}
	r.bad = s + ", which may be absent"
	return
}

// implied: every parsed form of the node that agrees with the tests made on it
// has the field.
func (p *prover) implied(node ssa.Value, fl *types.Var, b *ssa.BasicBlock, combos []map[*types.Var]bool) bool {
	return p.impliedSeen(node, fl, b, combos, map[*ssa.BasicBlock]bool{})
}

// impliedUp also asks those who call the function, and those who put the node
// where it was found.
func (p *prover) impliedUp(node ssa.Value, fl *types.Var, b *ssa.BasicBlock, combos []map[*types.Var]bool, depth int) bool {
	if p.implied(node, fl, b, combos) {
		return true
	}
	if depth > 4 {
		return false
	}
	switch x := p.plain(node).(type) {
	case *ssa.Parameter:
		f := x.Parent()
		sites, known := p.callersOf(f)
		if !known || !p.enter("iu"+f.String()+x.Name()) {
			return false
		}
		defer p.leave("iu" + f.String() + x.Name())
		for _, s := range sites {
			a := argFor(s.Common(), f, paramIndex(x))
			if a == nil || !p.impliedUp(a, fl, s.Block(), combos, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL || p.ast.fields[fieldOf(fa)] != nil {
			return false
		}
		stores := p.w.fieldStores[fieldOf(fa)]
		for _, s := range stores {
			if !p.impliedUp(s.Val, fl, s.Block(), combos, depth+1) {
				return false
			}
		}
		return len(stores) > 0
	}
	return false
}

func (p *prover) narrow(node ssa.Value, c condAt, combos []map[*types.Var]bool) []map[*types.Var]bool {
	keep := func(f *types.Var, want bool) []map[*types.Var]bool {
		var out []map[*types.Var]bool
		for _, m := range combos {
			if m[f] == want {
				out = append(out, m)
			}
		}
		return out
	}
	field := func(v ssa.Value) *types.Var {
		if u, ok := p.plain(v).(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && p.same(fa.X, node) {
				return fieldOf(fa)
			}
		}
		return nil
	}
	if f := field(c.v); f != nil {
		return keep(f, c.val)
	}
	if bo, ok := c.v.(*ssa.BinOp); ok {
		for _, s := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			f := field(s[0])
			if f == nil {
				if cl, ok := s[0].(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && s[0] == bo.X {
						f = field(cl.Call.Args[0])
						if k, ok := s[1].(*ssa.Const); ok && f != nil && k.Value != nil && constant.Sign(k.Value) == 0 {
							switch bo.Op {
							case token.EQL:
								return keep(f, !c.val)
							case token.NEQ, token.GTR:
								return keep(f, c.val)
							}
						}
						f = nil
					}
				}
				continue
			}
			k, ok := s[1].(*ssa.Const)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			eq := c.val == (bo.Op == token.EQL)
			if k.Value == nil {
				return keep(f, !eq)
			}
			if k.Value.Kind() == constant.String {
				if constant.StringVal(k.Value) == "" {
					return keep(f, !eq)
				}
				if eq {
					return keep(f, true)
				}
			}
		}
	}
	return combos
}

func (p *prover) impliedSeen(node ssa.Value, fl *types.Var, b *ssa.BasicBlock, combos []map[*types.Var]bool, seen map[*ssa.BasicBlock]bool) bool {
	for _, c := range p.at(b) {
		combos = p.narrow(node, c, combos)
	}
	all := func(cs []map[*types.Var]bool) bool {
		for _, c := range cs {
			if !c[fl] {
				return false
			}
		}
		return true
	}
	if all(combos) {
		return true
	}
	for x := b; x != nil; x = x.Idom() {
		e := entries(x)
		if len(e) < 2 {
			continue
		}
		if seen[x] || !outlives(node, x.Idom()) {
			return false
		}
		seen[x] = true
		good := true
		for _, pr := range e {
			cs := combos
			if c, ok := edgeCond(pr, x); ok {
				for _, c := range flatConds(c) {
					cs = p.narrow(node, c, cs)
				}
			}
			if !all(cs) && !p.impliedSeen(node, fl, pr, cs, seen) {
				good = false
				break
			}
		}
		return good
	}
	return false
}

// presence lists which fields of a node can be there together.
func (p *prover) presence(n *types.Named) []map[*types.Var]bool {
	if c, ok := p.sets[n]; ok {
		return c
	}
	p.sets[n] = nil
	c := grammarForms(n)
	p.sets[n] = c
	return c
}

// nonNilCall: result idx of a call.
func (p *prover) nonNilCall(v ssa.Value, c *ssa.Call, idx int, b *ssa.BasicBlock, depth int) (res nn) {
	if !nilable(v.Type()) {
		return
	}
	sibling := func(want func(j int, c condAt, isNil, truth int) bool) bool {
		for _, cd := range p.at(b) {
			// truth of a boolean result
			if e, ok := p.plain(cd.v).(*ssa.Extract); ok && e.Tuple == ssa.Value(c) && e.Index != idx {
				t := 0
				if cd.val {
					t = 1
				}
				if want(e.Index, cd, -1, t) {
					return true
				}
			}
			if bo, ok := cd.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				for _, s := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if e, ok := p.plain(s[0]).(*ssa.Extract); ok && e.Tuple == ssa.Value(c) && e.Index != idx && isNilConst(s[1]) {
						n := 0
						if cd.val == (bo.Op == token.EQL) {
							n = 1
						}
						if want(e.Index, cd, n, -1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || !p.w.inModule(f) {
		// the convention of (value, error) and (value, bool)
		sig := c.Call.Signature().Results()
		if sig.Len() != 2 || idx != 0 || f == nil && c.Call.IsInvoke() && !p.w.isModPkg(pkgOfMethod(c)) && false {
			return
		}
		last := sig.At(1).Type()
		isErr := isErrorType(last)
		bt, isB := last.Underlying().(*types.Basic)
		isBool := isB && bt.Kind() == types.Bool
		if !isErr && !isBool {
			return
		}
		s := "the result of " + callID(&c.Call).name
		res.sources = []string{s}
		if p.heldNonNil(v, b, 0) {
			return
		}
		if sibling(func(_ int, _ condAt, isNil, truth int) bool { return isErr && isNil == 1 || isBool && truth == 1 }) {
			return
		}
		res.bad = s + ", where it may have failed"
		return
	}
	if depth > 6 {
		return
	}
	key := fmt.Sprintf("nc%s%d", f, idx)
	if !p.enter(key) {
		return
	}
	defer p.leave(key)
	held := p.heldNonNil(v, b, 0)
	for _, rb := range f.Blocks {
		r, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		rv := p.plain(r.Results[idx])
		if pa, ok := rv.(*ssa.Parameter); ok {
			if i := paramIndex(pa); i >= 0 && i < len(c.Call.Args) && !p.heldNonNil(pa, rb, 0) {
				rr := p.nonNil(c.Call.Args[i], c.Block(), depth+1)
				if held {
					rr.bad = ""
				}
				res.add(rr)
			}
			continue
		}
		rr := p.nonNilReturn(rv, r, rb, idx, depth+1)
		if len(rr.sources) == 0 {
			continue
		}
		if rr.bad != "" && !held && len(rr.tells) > 0 && sibling(func(j int, _ condAt, isNil, truth int) bool {
			for _, t := range rr.tells {
				if t == j && (isNil == 1 && isErrorType(r.Results[j].Type()) || truth == 1) {
					return true
				}
			}
			return false
		}) {
			rr.bad = ""
		}
		rr.tells = nil
		if rr.bad != "" && !held {
			// does the caller know this return was not taken?
			if sibling(func(j int, _ condAt, isNil, truth int) bool {
				if j >= len(r.Results) {
					return false
				}
				o := r.Results[j]
				sf := staticFact(p.plain(o))
				switch {
				case isNil == 1:
					return sf == fNonNil || p.heldNonNil(o, rb, 0) || p.wraps(o, rb)
				case isNil == 0:
					return sf == fNil
				case truth == 1:
					return sf == fFalse
				case truth == 0:
					return sf == fTrue
				}
				return false
			}) {
				rr.bad = ""
			}
		}
		if held {
			rr.bad = ""
		}
		if rr.bad != "" {
			rr.bad = fmt.Sprintf("%s returned by %s", rr.bad, p.w.Name(f))
		}
		res.add(rr)
	}
	return
}

func pkgOfMethod(c *ssa.Call) string {
	if c.Call.Method != nil && c.Call.Method.Pkg() != nil {
		return c.Call.Method.Pkg().Path()
	}
	return ""
}

// wraps: an error made out of errors that are there.
func (p *prover) wraps(v ssa.Value, b *ssa.BasicBlock) bool {
	c, ok := p.plain(v).(*ssa.Call)
	if !ok || !isErrorType(v.Type()) {
		return false
	}
	any := false
	for _, a := range c.Call.Args {
		if isErrorType(a.Type()) {
			if !p.heldNonNil(a, b, 0) && staticFact(p.plain(a)) != fNonNil {
				return false
			}
			any = true
		}
	}
	return any
}

// nonNilReturn is nonNil, except that what a function passes on from a call of
// its own together with that call's error is judged by the caller's test.
func (p *prover) nonNilReturn(v ssa.Value, r *ssa.Return, b *ssa.BasicBlock, idx, depth int) nn {
	res := p.nonNil(v, b, depth)
	if e, ok := v.(*ssa.Extract); ok && res.bad != "" && len(r.Results) > 1 {
		for j, o := range r.Results {
			if j == idx {
				continue
			}
			if oe, ok := p.plain(o).(*ssa.Extract); ok && oe.Tuple == e.Tuple {
				// the caller is told whether it worked
				res.tells = append(res.tells, j)
			}
		}
	}
	return res
}

// ---------------------------------------------------------------------------
// numbers
// ---------------------------------------------------------------------------

// num is value v (or the length of v) plus c; v nil is just c.
type num struct {
	v   ssa.Value
	len bool
	c   int64
}

func (p *prover) num(v ssa.Value) num {
	var c int64
	for i := 0; i < 20; i++ {
		v = p.plain(v)
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				if n, ok := constant.Int64Val(x.Value); ok {
					return num{c: c + n}
				}
			}
		case *ssa.Convert:
			if widens(x.X.Type(), x.Type()) {
				v = x.X
				continue
			}
		case *ssa.BinOp:
			for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				k, ok := s[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					continue
				}
				n, _ := constant.Int64Val(k.Value)
				if x.Op == token.ADD {
					c += n
					v = s[0]
					goto next
				}
				if x.Op == token.SUB && s[0] == x.X {
					c -= n
					v = s[0]
					goto next
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				l := p.length(x.Call.Args[0])
				l.c += c
				return l
			}
		}
		return num{v: v, c: c}
	next:
	}
	return num{v: v, c: c}
}

// widens: the conversion keeps every value.
func widens(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 || x.Info()&types.IsInteger == 0 || y.Info()&types.IsInteger == 0 {
		return false
	}
	size := func(k types.BasicKind) (bits int, uns bool) {
		switch k {
		case types.Int8:
			return 8, false
		case types.Int16:
			return 16, false
		case types.Int32:
			return 32, false
		case types.Int, types.Int64:
			return 64, false
		case types.Uint8:
			return 8, true
		case types.Uint16:
			return 16, true
		case types.Uint32:
			return 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			return 64, true
		}
		return 0, false
	}
	sx, ux := size(x.Kind())
	sy, uy := size(y.Kind())
	if ux == uy {
		return sx <= sy
	}
	return ux && !uy && sx < sy
}

// length: the length of a slice, array or string.
func (p *prover) length(v ssa.Value) num {
	v = p.plain(v)
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return num{}
			}
			if x.Value.Kind() == constant.String {
				return num{c: int64(len(constant.StringVal(x.Value)))}
			}
		case *ssa.Convert:
			// []byte(string) and back
			_, s1 := x.X.Type().Underlying().(*types.Basic)
			_, s2 := x.Type().Underlying().(*types.Basic)
			if e, ok := x.Type().Underlying().(*types.Slice); ok && s1 && isByte(e.Elem()) {
				v = p.plain(x.X)
				continue
			}
			if e, ok := x.X.Type().Underlying().(*types.Slice); ok && s2 && isByte(e.Elem()) {
				v = p.plain(x.X)
				continue
			}
		case *ssa.MakeSlice:
			return p.num(x.Len)
		case *ssa.Slice:
			// of an array
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && x.Low == nil && x.High == nil {
				if a, ok := pt.Elem().Underlying().(*types.Array); ok {
					return num{c: a.Len()}
				}
			}
			lo := num{}
			if x.Low != nil {
				lo = p.num(x.Low)
			}
			if lo.v != nil {
				break
			}
			if x.High != nil {
				h := p.num(x.High)
				h.c -= lo.c
				return h
			}
			l := p.length(x.X)
			l.c -= lo.c
			return l
		}
		break
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
		if a, ok := pt.Elem().Underlying().(*types.Array); ok {
			return num{c: a.Len()}
		}
	}
	if a, ok := v.Type().Underlying().(*types.Array); ok {
		return num{c: a.Len()}
	}
	return num{v: v, len: true}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (p *prover) sameNum(a, b num) bool {
	if a.len != b.len || (a.v == nil) != (b.v == nil) {
		return false
	}
	return a.v == nil || p.same(a.v, b.v)
}

// diff: a - b <= c
type diff struct {
	a, b num
	c    int64
}

// cmpFacts: what a condition says about numbers.
func (p *prover) cmpFacts(c condAt) (out []diff) {
	switch x := c.v.(type) {
	case *ssa.Lookup:
		if c.val && !x.CommaOk {
			if n, ok := p.keyLength(x); ok {
				out = append(out, diff{num{}, p.length(x.Index), -n})
			}
		}
	case *ssa.BinOp:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			// a string compared with a constant
			for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				k, ok := s[1].(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				n := int64(len(constant.StringVal(k.Value)))
				l := p.length(s[0])
				eq := x.Op == token.EQL && c.val || x.Op == token.NEQ && !c.val
				ne := x.Op == token.NEQ && c.val || x.Op == token.EQL && !c.val
				if eq {
					out = append(out, diff{l, num{}, n}, diff{num{}, l, -n})
				}
				if ne && n == 0 {
					out = append(out, diff{num{}, l, -1})
				}
			}
			return
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		a, b := p.num(x.X), p.num(x.Y)
		op := x.Op
		if !c.val {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch op {
		case token.LSS:
			out = append(out, diff{a, b, -1})
		case token.LEQ:
			out = append(out, diff{a, b, 0})
		case token.GTR:
			out = append(out, diff{b, a, -1})
		case token.GEQ:
			out = append(out, diff{b, a, 0})
		case token.EQL:
			out = append(out, diff{a, b, 0}, diff{b, a, 0})
		case token.NEQ:
			// a length that is not 0
			for _, s := range [][2]num{{a, b}, {b, a}} {
				if s[0].len && s[1].v == nil && s[1].c-s[0].c == 0 {
					out = append(out, diff{num{}, num{v: s[0].v, len: true}, -1})
				}
			}
		}
	case *ssa.Call:
		id := callID(&x.Call)
		if id.pkg == "strings" && c.val && len(x.Call.Args) == 2 {
			switch id.name {
			case "HasPrefix", "HasSuffix", "Contains", "EqualFold":
				if id.name != "EqualFold" {
					s, t := p.length(x.Call.Args[0]), p.length(x.Call.Args[1])
					out = append(out, diff{t, s, 0})
				}
			}
		}
	case *ssa.Extract:
		// a successful test of a map, a range
		if l, ok := x.Tuple.(*ssa.Lookup); ok && c.val && x.Index == 1 {
			if n, ok := p.keyLength(l); ok {
				out = append(out, diff{num{}, p.length(l.Index), -n})
			}
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 && c.val && n.IsString {
			if r, ok := n.Iter.(*ssa.Range); ok {
				for _, ref := range *n.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
						l := p.length(r.X)
						out = append(out, diff{num{v: e}, l, -1}, diff{num{}, num{v: e}, 0})
					}
				}
			}
		}
	}
	return
}

// keyLength: the shortest key of a table that is filled when the program
// starts and never changed.
func (p *prover) keyLength(l *ssa.Lookup) (n int64, ok bool) {
	u, isU := l.X.(*ssa.UnOp)
	if !isU {
		return
	}
	g, isG := u.X.(*ssa.Global)
	if !isG || g.Pkg == nil {
		return
	}
	good := true
	scan := func(f *ssa.Function, init bool) {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store:
				if x.Addr != ssa.Value(g) {
					return
				}
				if !init {
					good = false
					return
				}
				m, isM := x.Val.(*ssa.MakeMap)
				if !isM {
					good = false
					return
				}
				for _, r := range *m.Referrers() {
					if mu, isMU := r.(*ssa.MapUpdate); isMU {
						k, isK := mu.Key.(*ssa.Const)
						if !isK || k.Value == nil || k.Value.Kind() != constant.String {
							good = false
							return
						}
						if kl := int64(len(constant.StringVal(k.Value))); !ok || kl < n {
							n, ok = kl, true
						}
					}
				}
			case *ssa.MapUpdate:
				if ld, isL := x.Map.(*ssa.UnOp); isL && ld.X == ssa.Value(g) {
					good = false
				}
			}
		})
	}
	for _, f := range p.w.Fns {
		if f.Name() != "init" {
			scan(f, false)
		}
	}
	if f := g.Pkg.Func("init"); f != nil {
		scan(f, true)
	}
	return n, ok && good
}

// numFacts: what the making of a value says.
func (p *prover) bornFacts(n num, b *ssa.BasicBlock) (out []diff) {
	if n.v == nil {
		return
	}
	self := num{v: n.v, len: n.len}
	if n.len {
		out = append(out, diff{num{}, self, 0})
		switch x := n.v.(type) {
		case *ssa.Call:
			id := callID(&x.Call)
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				base := p.length(x.Call.Args[0])
				if len(x.Call.Args) == 2 {
					add := p.length(x.Call.Args[1])
					if add.v == nil {
						out = append(out, diff{base, self, -add.c})
					} else {
						out = append(out, diff{base, self, 0}, diff{add, self, 0})
					}
				}
			}
			if id.pkg == "strings" && (id.name == "Split" || id.name == "SplitN") && len(x.Call.Args) >= 2 {
				sep := p.length(x.Call.Args[1])
				if sep.v == nil && sep.c > 0 {
					out = append(out, diff{num{}, self, -1})
				}
			}
			if id.pkg == "strings" && (id.name == "TrimPrefix" || id.name == "TrimSuffix" || id.name == "TrimSpace" || id.name == "Trim") {
				out = append(out, diff{self, p.length(x.Call.Args[0]), 0})
			}
		case *ssa.Convert:
			// as many runes as needed, but not none
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				l := p.length(x.X)
				key := "cv" + x.Name() + x.Parent().String()
				if p.enter(key) {
					if p.holds(diff{num{}, l, -1}, x.Block(), proveDepth) {
						out = append(out, diff{num{}, self, -1})
					}
					p.leave(key)
				}
				out = append(out, diff{self, l, 0})
			}
		case *ssa.Slice:
			if x.Low != nil {
				lo := p.num(x.Low)
				if x.High == nil {
					l := p.length(x.X)
					out = append(out, diff{self, l, 0})
					_ = lo
				}
			}
		case *ssa.BinOp: // string concatenation
			if x.Op == token.ADD {
				out = append(out, diff{p.length(x.X), self, 0}, diff{p.length(x.Y), self, 0})
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isReflectType(deptr(fa.X.Type()), "StructField") && fieldOf(fa).Name() == "Index" {
				out = append(out, diff{num{}, self, -1})
			}
			// a parsed list that was matched at least once
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				if af := p.ast.fields[fieldOf(fa)]; af != nil && af.parsed {
					if combos := p.presence(af.owner); combos != nil && p.implied(fa.X, fieldOf(fa), b, combos) {
						out = append(out, diff{num{}, self, -1})
					}
				}
			}
		case *ssa.Phi:
			lo, hi, ok := p.phiBounds(x, func(e ssa.Value) num { return p.length(e) })
			if ok {
				_ = hi
				out = append(out, diff{num{}, self, -lo})
			}
		}
		return
	}
	switch x := n.v.(type) {
	case *ssa.Call:
		id := callID(&x.Call)
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "min":
				for _, a := range x.Call.Args {
					m := p.num(a)
					out = append(out, diff{self, m, 0})
				}
			case "max":
				for _, a := range x.Call.Args {
					out = append(out, diff{p.num(a), self, 0})
				}
			case "copy":
				out = append(out, diff{num{}, self, 0}, diff{self, p.length(x.Call.Args[0]), 0}, diff{self, p.length(x.Call.Args[1]), 0})
			case "cap":
				out = append(out, diff{num{}, self, 0})
			}
			return
		}
		switch {
		case id.pkg == "strings" && len(x.Call.Args) == 2 && (id.name == "Index" || id.name == "IndexByte" || id.name == "LastIndex" || id.name == "IndexRune" || id.name == "IndexAny" || id.name == "LastIndexByte" || id.name == "LastIndexAny"):
			s := p.length(x.Call.Args[0])
			out = append(out, diff{num{}, self, 1}, diff{self, s, 0})
			if id.name == "IndexByte" || id.name == "IndexRune" {
				out = append(out, diff{self, s, -1})
			} else if sep := p.length(x.Call.Args[1]); sep.v == nil && sep.c > 0 {
				out = append(out, diff{self, s, -1})
			}
		case id.pkg == "runtime" && id.name == "Stack":
			out = append(out, diff{num{}, self, 0}, diff{self, p.length(x.Call.Args[0]), 0})
		case id.pkg == "reflect" && (id.name == "Len" || id.name == "NumField" || id.name == "NumMethod" || id.name == "NumIn" || id.name == "NumOut"):
			out = append(out, diff{num{}, self, 0})
		}
	case *ssa.Phi:
		b := x.Block()
		var inits []ssa.Value
		up, down := true, true
		for i, e := range x.Edges {
			if !b.Dominates(b.Preds[i]) {
				inits = append(inits, e)
				continue
			}
			lo, hi, ok := p.stepOf(e, x, 0)
			if !ok {
				up, down = false, false
				break
			}
			if lo < 0 {
				up = false
			}
			if hi > 0 {
				down = false
			}
		}
		isLoop := len(inits) < len(x.Edges)
		if isLoop && len(inits) == 1 {
			m := p.num(inits[0])
			if up {
				out = append(out, diff{m, self, 0})
			}
			if down {
				out = append(out, diff{self, m, 0})
			}
		}
		if isLoop {
			out = append(out, p.together(x)...)
		}
		if !isLoop {
			if lo, hi, ok := p.phiBounds(x, p.num); ok {
				out = append(out, diff{num{}, self, -lo}, diff{self, num{}, hi})
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.REM:
			m := p.num(x.Y)
			if m.v == nil && m.c > 0 {
				out = append(out, diff{self, num{}, m.c - 1}, diff{num{}, self, m.c - 1})
			}
		case token.AND:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if m := p.num(o); m.v == nil && m.c >= 0 {
					out = append(out, diff{self, num{}, m.c}, diff{num{}, self, 0})
				}
			}
		case token.QUO, token.SHR:
			m := p.num(x.X)
			if m.len {
				out = append(out, diff{num{}, self, 0}, diff{self, m, 0})
			}
		case token.SUB:
			// a - b with b not negative
			m := p.num(x.X)
			k := p.num(x.Y)
			if k.len {
				out = append(out, diff{self, num{v: m.v, len: m.len, c: m.c - k.c}, 0})
			} else if key := "sb" + x.Name() + x.Parent().String(); k.v != nil && p.enter(key) {
				if p.holds(diff{num{}, k, 0}, x.Block(), proveDepth-1) {
					out = append(out, diff{self, m, 0})
					if p.holds(diff{k, m, 0}, x.Block(), proveDepth-1) {
						out = append(out, diff{num{}, self, 0})
					}
				}
				p.leave(key)
			}
		}
	case *ssa.UnOp:
		// an entry of a list of numbers none of which is negative
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if u, ok := p.plain(ia.X).(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && p.neverNegative(fieldOf(fa)) {
					out = append(out, diff{num{}, self, 0})
				}
			}
		}
	case *ssa.Parameter:
		out = append(out, p.sortFacts(x)...)
	case *ssa.Convert:
		// unsigned to signed of the same size may be negative: nothing to say
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			if bt.Kind() != types.Uint && bt.Kind() != types.Uint64 && bt.Kind() != types.Uintptr {
				out = append(out, diff{num{}, self, 0})
			}
		}
	}
	if bt, ok := n.v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		out = append(out, diff{num{}, self, 0})
		switch bt.Kind() {
		case types.Uint8:
			out = append(out, diff{self, num{}, 255})
		case types.Uint16:
			out = append(out, diff{self, num{}, 65535})
		}
	}
	return
}

// neverNegative: everything ever put in the list is a length or such.
func (p *prover) neverNegative(fl *types.Var) bool {
	stores := p.w.fieldStores[fl]
	var list func(v ssa.Value, d int) bool
	list = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		v = p.plain(v)
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && fieldOf(fa) == fl
		case *ssa.Slice:
			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return list(x.X, d+1)
			}
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, rr := range *ia.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							if n := p.num(s.Val); !n.len && (n.v != nil || n.c < 0) {
								return false
							}
						}
					}
				}
			}
			return true
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "append" && len(x.Call.Args) == 2 && list(x.Call.Args[0], d+1) && list(x.Call.Args[1], d+1)
		}
		return false
	}
	for _, s := range stores {
		if !list(s.Val, 0) {
			return false
		}
	}
	return len(stores) > 0
}

// sortFacts: the positions package sort hands to Less and Swap.
func (p *prover) sortFacts(x *ssa.Parameter) (out []diff) {
	f := x.Parent()
	if f.Signature.Recv() == nil || len(f.Params) != 3 || x == f.Params[0] || f.Name() != "Less" && f.Name() != "Swap" {
		return
	}
	n := namedOf(f.Signature.Recv().Type())
	if n == nil {
		return
	}
	l := p.w.methodNamed(n, "Len")
	if l == nil || p.w.methodNamed(n, "Less") == nil || p.w.methodNamed(n, "Swap") == nil {
		return
	}
	self := num{v: x}
	out = append(out, diff{num{}, self, 0})
	for _, b := range l.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		m := p.num(r.Results[0])
		if !m.len || m.c != 0 {
			return
		}
		u, ok := m.v.(*ssa.UnOp)
		if !ok {
			if m.v == ssa.Value(l.Params[0]) {
				out = append(out, diff{self, num{v: f.Params[0], len: true}, -1})
			}
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || p.plain(fa.X) != ssa.Value(l.Params[0]) {
			continue
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if u2, ok := i.(*ssa.UnOp); ok && u2.Op == token.MUL {
				if fb, ok := u2.X.(*ssa.FieldAddr); ok && fieldOf(fb) == fieldOf(fa) && p.plain(fb.X) == ssa.Value(f.Params[0]) {
					out = append(out, diff{self, num{v: u2, len: true}, -1})
				}
			}
		})
	}
	return
}

// together: two variables of one loop of which one never gains on the other.
func (p *prover) together(x *ssa.Phi) (out []diff) {
	for _, in := range x.Block().Instrs {
		y, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if y == x || !types.Identical(y.Type(), x.Type()) {
			continue
		}
		for _, pair := range [][2]*ssa.Phi{{x, y}, {y, x}} {
			a, b := pair[0], pair[1] // b never gains on a
			var d0 int64
			good, first := true, true
			for i := range a.Edges {
				if !a.Block().Dominates(a.Block().Preds[i]) {
					ma, mb := p.num(a.Edges[i]), p.num(b.Edges[i])
					if !p.sameNum(ma, mb) {
						good = false
						break
					}
					if d := ma.c - mb.c; first || d < d0 {
						d0, first = d, false
					}
					continue
				}
				la, ha, k1 := p.stepOf(a.Edges[i], a, 0)
				lb, hb, k2 := p.stepOf(b.Edges[i], b, 0)
				if !k1 || !k2 {
					good = false
					break
				}
				if la < hb {
					// chosen together?
					if !p.stepsTogether(a.Edges[i], b.Edges[i], a, b) {
						good = false
						break
					}
				}
				_, _ = ha, lb
			}
			if good && !first {
				out = append(out, diff{num{v: b}, num{v: a}, -d0})
			}
		}
	}
	return
}

// stepsTogether: along every way through the joins of one turn a gains at least
// as much as b.
func (p *prover) stepsTogether(ea, eb ssa.Value, a, b *ssa.Phi) bool {
	ma, mb := p.num(ea), p.num(eb)
	pa, ok1 := ma.v.(*ssa.Phi)
	pb, ok2 := mb.v.(*ssa.Phi)
	if !ok1 || !ok2 || pa.Block() != pb.Block() || pa == a || pb == b {
		return false
	}
	for i := range pa.Edges {
		if pa.Block().Dominates(pa.Block().Preds[i]) {
			return false
		}
		la, _, k1 := p.stepOf(pa.Edges[i], a, 1)
		_, hb, k2 := p.stepOf(pb.Edges[i], b, 1)
		if !k1 || !k2 || la+ma.c < hb+mb.c {
			return false
		}
	}
	return true
}

// phiBounds: all edges are constants plus the same value or constants.
func (p *prover) phiBounds(x *ssa.Phi, of func(ssa.Value) num) (lo, hi int64, ok bool) {
	for i, e := range x.Edges {
		if x.Block().Dominates(x.Block().Preds[i]) {
			return 0, 0, false
		}
		m := of(e)
		if m.v != nil {
			return 0, 0, false
		}
		if i == 0 || m.c < lo {
			lo = m.c
		}
		if i == 0 || m.c > hi {
			hi = m.c
		}
	}
	return lo, hi, len(x.Edges) > 0
}

// stepOf: v is the loop variable plus something between lo and hi.
func (p *prover) stepOf(v ssa.Value, ph *ssa.Phi, depth int) (lo, hi int64, ok bool) {
	m := p.num(v)
	if m.len || m.v == nil {
		return 0, 0, false
	}
	if m.v == ssa.Value(ph) {
		return m.c, m.c, true
	}
	if o, isPhi := m.v.(*ssa.Phi); isPhi && depth < 4 && ph.Block().Dominates(o.Block()) {
		if o.Block() == ph.Block() {
			return 0, 0, false
		}
		for i, e := range o.Edges {
			if e == ssa.Value(o) {
				continue
			}
			l, h, k := p.stepOf(e, ph, depth+1)
			if !k {
				return 0, 0, false
			}
			if o.Block().Dominates(o.Block().Preds[i]) && (l != 0 || h != 0) {
				return 0, 0, false
			}
			if i == 0 || l < lo {
				lo = l
			}
			if i == 0 || h > hi {
				hi = h
			}
		}
		return lo + m.c, hi + m.c, true
	}
	return 0, 0, false
}

// holds proves a - b <= c in block b.
func (p *prover) holds(g diff, b *ssa.BasicBlock, depth int) bool {
	return p.holdsWith(g, b, nil, depth, map[*ssa.BasicBlock]bool{})
}

func (p *prover) holdsWith(g diff, b *ssa.BasicBlock, extra []diff, depth int, seen map[*ssa.BasicBlock]bool) bool {
	facts := append([]diff{}, extra...)
	for _, c := range p.at(b) {
		facts = append(facts, p.cmpFacts(c)...)
		facts = append(facts, p.resultFacts(c, depth)...)
	}
	if p.solve(g, facts, b) {
		return true
	}
	if depth > proveDepth {
		return false
	}
	// a test kept in a variable: each way it can have come out
	for _, c := range p.at(b) {
		ways := waysOf(c)
		for i, w := range ways {
			ex := append([]diff{}, facts...)
			for _, o := range w {
				ex = append(ex, p.cmpFacts(o)...)
			}
			if !p.solve(g, ex, b) {
				break
			}
			if i == len(ways)-1 {
				return true
			}
		}
	}
	// a value chosen on the way: each choice by itself
	for _, t := range []num{g.a, g.b} {
		ph, ok := t.v.(*ssa.Phi)
		if !ok {
			continue
		}
		pb := ph.Block()
		loop := false
		for _, pr := range pb.Preds {
			if pb.Dominates(pr) {
				loop = true
			}
		}
		if loop || !pb.Dominates(b) || seen[pb] {
			continue
		}
		good := true
		seen[pb] = true
		for i, e := range ph.Edges {
			pr := pb.Preds[i]
			sub := func(n num) num {
				if n.v == ssa.Value(ph) {
					var m num
					if n.len {
						m = p.length(e)
					} else {
						m = p.num(e)
					}
					m.c += n.c
					return m
				}
				// other values joined at the same place
				if o, ok := n.v.(*ssa.Phi); ok && o.Block() == pb {
					var m num
					if n.len {
						m = p.length(o.Edges[i])
					} else {
						m = p.num(o.Edges[i])
					}
					m.c += n.c
					return m
				}
				return n
			}
			var ex []diff
			for _, f := range facts {
				ex = append(ex, diff{sub(f.a), sub(f.b), f.c})
			}
			if c, ok := edgeCond(pr, pb); ok {
				for _, c := range flatConds(c) {
					ex = append(ex, p.cmpFacts(c)...)
				}
			}
			if !p.holdsWith(diff{sub(g.a), sub(g.b), g.c}, pr, ex, depth+1, seen) {
				good = false
				break
			}
		}
		seen[pb] = false
		if good {
			return true
		}
	}
	// a variable of a loop: true at first, and if true in one turn then in the next
	for _, t := range []num{g.a, g.b} {
		ph, ok := t.v.(*ssa.Phi)
		if !ok || t.len || !ph.Block().Dominates(b) || seen[ph.Block()] {
			continue
		}
		pb := ph.Block()
		o := g.b
		if t == g.b {
			o = g.a
		}
		if o.v != nil && defBlock(o.v) != nil && !(defBlock(o.v).Dominates(pb) && defBlock(o.v) != pb) {
			continue
		}
		loop, good := false, true
		seen[pb] = true
		for i, e := range ph.Edges {
			pr := pb.Preds[i]
			m := p.num(e)
			m.c += t.c
			goal := diff{m, o, g.c}
			if t == g.b {
				goal = diff{o, m, g.c}
			}
			var ex []diff
			if pb.Dominates(pr) {
				loop = true
				ex = append(ex, g)
			}
			if c, ok := edgeCond(pr, pb); ok {
				for _, c := range flatConds(c) {
					ex = append(ex, p.cmpFacts(c)...)
				}
			}
			if !p.holdsWith(goal, pr, ex, depth+1, seen) {
				good = false
				break
			}
		}
		seen[pb] = false
		if good && loop {
			return true
		}
	}
	// several ways here, each with its own conditions
	for x := b; x != nil; x = x.Idom() {
		e := entries(x)
		if len(e) < 2 {
			continue
		}
		if seen[x] || g.a.v != nil && !outlives(g.a.v, x.Idom()) || g.b.v != nil && !outlives(g.b.v, x.Idom()) {
			break
		}
		seen[x] = true
		good := true
		for _, pr := range e {
			ex := append([]diff{}, facts...)
			if c, ok := edgeCond(pr, x); ok {
				for _, c := range flatConds(c) {
					ex = append(ex, p.cmpFacts(c)...)
				}
			}
			if !p.holdsWith(g, pr, ex, depth+1, seen) {
				good = false
				break
			}
		}
		if good {
			return true
		}
		break
	}
	// what the callers guarantee
	f := b.Parent()
	sub := func(n num, s ssa.CallInstruction) (num, bool) {
		if n.v == nil {
			return n, true
		}
		pa, ok := n.v.(*ssa.Parameter)
		if !ok {
			return n, false
		}
		a := argFor(s.Common(), f, paramIndex(pa))
		if a == nil {
			return n, false
		}
		var m num
		if n.len {
			m = p.length(a)
		} else {
			m = p.num(a)
		}
		m.c += n.c
		return m, true
	}
	if sites, known := p.callersOf(f); known && depth <= proveDepth && (g.a.v != nil || g.b.v != nil) {
		key := fmt.Sprint("hn", f, g.a.v, g.b.v)
		if p.enter(key) {
			defer p.leave(key)
			good := true
			for _, s := range sites {
				a, ok1 := sub(g.a, s)
				bb, ok2 := sub(g.b, s)
				if !ok1 || !ok2 || !p.holds(diff{a, bb, g.c}, s.Block(), depth+1) {
					good = false
					break
				}
			}
			if good {
				return true
			}
		}
	}
	// what is captured was already so when the closure was made
	if mcs := p.w.closures[f]; len(mcs) > 0 && depth <= proveDepth {
		lives := func(n num) bool {
			if n.v == nil {
				return true
			}
			d := defBlock(n.v)
			if d != nil {
				return d.Parent() == f.Parent()
			}
			if pa, ok := n.v.(*ssa.Parameter); ok {
				return pa.Parent() == f.Parent()
			}
			return false
		}
		if lives(g.a) && lives(g.b) {
			good := true
			for _, mc := range mcs {
				if !p.holds(g, mc.Block(), depth+1) {
					good = false
				}
			}
			return good
		}
	}
	return false
}

// resultFacts: what a call of a function of the module in a condition says
// about its numeric or slice arguments.
func (p *prover) resultFacts(c condAt, depth int) (out []diff) {
	call, ok := c.v.(*ssa.Call)
	idx := 0
	if !ok {
		if e, isE := c.v.(*ssa.Extract); isE {
			call, ok = e.Tuple.(*ssa.Call)
			idx = e.Index
		}
	}
	if !ok || depth > proveDepth {
		return
	}
	f := call.Call.StaticCallee()
	if f == nil || !p.w.inModule(f) {
		return
	}
	key := "rf" + f.String()
	if !p.enter(key) {
		return
	}
	defer p.leave(key)
	// the facts common to all returns that give this answer
	var common []diff
	first := true
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		v := r.Results[idx]
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != c.val {
			continue
		}
		var fs []diff
		for _, cc := range p.at(b) {
			fs = append(fs, p.cmpFacts(cc)...)
		}
		if _, ok := v.(*ssa.Const); !ok {
			for _, cc := range flatConds(condAt{v, c.val}) {
				fs = append(fs, p.cmpFacts(cc)...)
			}
		}
		if first {
			common = fs
			first = false
			continue
		}
		var keep []diff
		for _, d := range common {
			if p.solve(d, fs, b) {
				keep = append(keep, d)
			}
		}
		common = keep
	}
	sub := func(n num) (num, bool) {
		if n.v == nil {
			return n, true
		}
		pa, ok := n.v.(*ssa.Parameter)
		if !ok || pa.Parent() != f {
			return n, false
		}
		i := paramIndex(pa)
		if i < 0 || i >= len(call.Call.Args) {
			return n, false
		}
		var m num
		if n.len {
			m = p.length(call.Call.Args[i])
		} else {
			m = p.num(call.Call.Args[i])
		}
		m.c += n.c
		return m, true
	}
	for _, d := range common {
		a, ok1 := sub(d.a)
		b, ok2 := sub(d.b)
		if ok1 && ok2 {
			out = append(out, diff{a, b, d.c})
		}
	}
	return
}

// solve: the facts, and what is known of the values themselves, give a - b <= c.
func (p *prover) solve(g diff, facts []diff, b *ssa.BasicBlock) bool {
	var nodes []num
	id := func(n num) int {
		for i, m := range nodes {
			if p.sameNum(m, n) {
				return i
			}
		}
		nodes = append(nodes, num{v: n.v, len: n.len})
		return len(nodes) - 1
	}
	type edge struct {
		from, to int
		w        int64
	} // to - from <= w
	var es []edge
	add := func(d diff) {
		// (a + ca) - (b + cb) <= c
		es = append(es, edge{id(d.b), id(d.a), d.c - d.a.c + d.b.c})
	}
	id(num{})
	from, to := id(g.b), id(g.a)
	for _, f := range facts {
		add(f)
	}
	for i := 0; i < len(nodes) && i < 60; i++ {
		for _, d := range p.bornFacts(nodes[i], b) {
			add(d)
		}
	}
	want := g.c - g.a.c + g.b.c
	const inf = int64(1) << 60
	dist := make([]int64, len(nodes))
	for i := range dist {
		dist[i] = inf
	}
	dist[from] = 0
	for k := 0; k < len(nodes); k++ {
		ch := false
		for _, e := range es {
			if dist[e.from] < inf && dist[e.from]+e.w < dist[e.to] {
				dist[e.to] = dist[e.from] + e.w
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return dist[to] < inf && dist[to] <= want
}
