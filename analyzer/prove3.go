package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// demand is something an instruction requires, or the program crashes.
type demand struct {
	rule string
	what string
	ok   bool
	why  string
	at   ssa.Instruction
}

func (d demand) String() string { return fmt.Sprint(d.rule, " | ", d.what, " | ", d.ok, " | ", d.why) }

// needs: the kinds a reflection method works on.
func reflectNeeds(recv, name string) (kset, bool) {
	ptr := kset(1) << uint(reflect.Ptr)
	if recv == "Value" {
		switch name {
		case "Type", "Interface", "CanInterface", "NumMethod", "Method", "MethodByName", "Set", "Convert", "IsZero":
			return kAll &^ 1, true
		case "Len":
			return kbit(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String), true
		case "Index":
			return kbit(reflect.Array, reflect.Slice, reflect.String), true
		case "IsNil":
			return kbit(reflect.Chan, reflect.Func, reflect.Map, reflect.Interface, reflect.Slice, reflect.UnsafePointer) | ptr | kPtrNil, true
		case "Elem":
			return kbit(reflect.Interface) | ptr | kPtrNil, true
		case "NumField", "Field", "FieldByName", "FieldByNameFunc", "FieldByIndex":
			return kbit(reflect.Struct), true
		case "MapKeys", "MapIndex", "MapRange", "SetMapIndex":
			return kbit(reflect.Map), true
		case "Call":
			return kbit(reflect.Func), true
		case "Int":
			return kbit(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64), true
		case "Uint":
			return kbit(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr), true
		case "Float":
			return kbit(reflect.Float32, reflect.Float64), true
		case "Bool":
			return kbit(reflect.Bool), true
		case "Bytes":
			return kbit(reflect.Slice, reflect.Array), true
		case "Slice":
			return kbit(reflect.Array, reflect.Slice, reflect.String), true
		}
		return 0, false
	}
	if recv == "Type" {
		switch name {
		case "Elem":
			return kbit(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice) | ptr | kPtrNil, true
		case "NumField", "Field", "FieldByName", "FieldByNameFunc":
			return kbit(reflect.Struct), true
		case "Key":
			return kbit(reflect.Map), true
		case "NumIn", "NumOut", "In", "Out", "IsVariadic":
			return kbit(reflect.Func), true
		}
		return kAll &^ 1, true // any type, but not a nil one
	}
	return 0, false
}

// reflectSize: the method that tells the number of places.
var reflectSize = map[string]string{"Index": "Len", "Field": "NumField", "Method": "NumMethod", "In": "NumIn", "Out": "NumOut"}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// keptPlace: a position found earlier and kept in a structure.
func keptPlace(n num) bool {
	u, ok := n.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || n.len {
		return false
	}
	switch u.X.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	}
	return false
}

// sizesOf: the calls in f, or where f was made, that tell the size of the
// value described.
func (p *prover) sizesOf(d rdesc, how string, f *ssa.Function) (out []ssa.Value) {
	for ; f != nil; f = f.Parent() {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(*ssa.Call)
			if !ok {
				return
			}
			var a ssa.Value
			if c.Call.IsInvoke() && c.Call.Method.Name() == how && isReflectType(c.Call.Value.Type(), "Type") {
				a = c.Call.Value
			} else if id := callID(&c.Call); id.pkg == "reflect" && id.name == how && len(c.Call.Args) == 1 {
				a = c.Call.Args[0]
			}
			if a != nil && p.sameDesc(p.desc(a), d) {
				out = append(out, c)
			}
		})
	}
	return
}

// recovers: a crash in f is caught and turned into an answer, by f or by
// everything that calls it.
func (p *prover) recovers(f *ssa.Function) bool { return p.recoversSeen(f, map[*ssa.Function]bool{}) }

func (p *prover) recoversSeen(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	own := false
	for _, b := range f.Blocks[:1] {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			for _, g := range p.w.callees(d.Common(), true) {
				eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
					if c, ok := i.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							own = true
						}
					}
				})
			}
		}
	}
	if own {
		return true
	}
	p.w.buildSites()
	if f.Parent() != nil {
		for _, s := range p.w.sites[f] {
			if _, ok := s.(*ssa.Go); ok {
				return false
			}
		}
		return p.recoversSeen(f.Parent(), seen)
	}
	n := 0
	for _, s := range p.w.sites[f] {
		if _, ok := s.(*ssa.Call); !ok || !p.recoversSeen(s.Parent(), seen) {
			return false
		}
		n++
	}
	return n > 0
}

// developer: the value comes from the program that embeds the engine: an
// argument of an exported function the module itself does not call, or a type
// registered with such a call.
func (p *prover) developer(v ssa.Value, d int) bool {
	if d > 6 || v == nil {
		return false
	}
	v = p.plain(v)
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		sites, known := p.callersOf(f)
		if !known {
			return token.IsExported(f.Name()) && f.Parent() == nil
		}
		for _, s := range sites {
			if a := argFor(s.Common(), f, paramIndex(x)); a == nil || !p.developer(a, d+1) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		return p.developer(x.X, d+1)
	case *ssa.Call:
		if id := callID(&x.Call); id.pkg == "reflect" {
			if x.Call.IsInvoke() {
				return p.developer(x.Call.Value, d+1)
			}
			if len(x.Call.Args) > 0 {
				return p.developer(x.Call.Args[0], d+1)
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			stores := p.w.fieldStores[fieldOf(fa)]
			for _, s := range stores {
				if !p.developer(s.Val, d+1) {
					return false
				}
			}
			return len(stores) > 0 || token.IsExported(fieldOf(fa).Name()) && !filledFromArgs(fa)
		}
	case *ssa.Phi:
		if !p.enter("dv" + x.Name() + x.Parent().String()) {
			return true
		}
		defer p.leave("dv" + x.Name() + x.Parent().String())
		for _, e := range x.Edges {
			if !p.developer(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// filledFromArgs: the field receives an argument of a query.
func filledFromArgs(fa *ssa.FieldAddr) bool {
	st, ok := deptr(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	_, tagged := reflect.StructTag(st.Tag(fa.Field)).Lookup("vfilter")
	return tagged
}

// registered: the function works on values of a type the developer named when
// the object was set up.
func (p *prover) registered(d rdesc, f *ssa.Function) bool {
	f = outermost(f)
	if f.Signature.Recv() == nil || !d.any {
		return false
	}
	if pa, ok := d.root.(*ssa.Parameter); !ok || pa.Parent() != f {
		return false
	}
	st, ok := deptr(f.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isReflectType(st.Field(i).Type(), "Type") {
			return true
		}
	}
	return false
}

// shared: a variable several functions change; what it holds is not followed.
func (p *prover) shared(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		v = p.plain(v)
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			break
		}
		switch u.X.(type) {
		case *ssa.FreeVar, *ssa.Alloc:
			return true
		}
		break
	}
	return false
}

// reported: a number the parser library put in one of its own structs.
func (p *prover) reported(v ssa.Value, d int) bool {
	if d > 5 || v == nil {
		return false
	}
	n := p.num(v)
	if n.v == nil || n.len {
		return false
	}
	foreignField := func(st types.Type) bool {
		nn := namedOf(deptr(st))
		return nn != nil && nn.Obj().Pkg() != nil && !p.w.isModPkg(nn.Obj().Pkg().Path())
	}
	switch x := n.v.(type) {
	case *ssa.Field:
		return foreignField(x.X.Type())
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return foreignField(fa.X.Type())
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) && p.reported(e, d+1) {
				return true
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
			for _, a := range x.Call.Args {
				if p.reported(a, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// handedIn: the position is an argument and the list is made here.
func (p *prover) handedIn(ix, list ssa.Value) bool {
	n := p.num(ix)
	pa, ok := n.v.(*ssa.Parameter)
	if !ok || n.len || len(p.sortFacts(pa)) > 0 {
		return false
	}
	l := p.length(list)
	_, isParam := l.v.(*ssa.Parameter)
	return l.v != nil && !isParam
}

// assertion decides x.(T) without a second result.
func (p *prover) assertion(ta *ssa.TypeAssert) (ok, judged bool) {
	it, isI := ta.X.Type().Underlying().(*types.Interface)
	if !isI {
		return true, false
	}
	// every value of the static type has it
	if ti, k := ta.AssertedType.Underlying().(*types.Interface); k {
		if types.Implements(ta.X.Type(), ti) {
			return true, true
		}
	} else if it.NumMethods() > 0 {
		// the only type that can be there
		n := 0
		for _, t := range p.w.implementers(it) {
			if !types.Identical(t, ta.AssertedType) {
				n++
			}
		}
		if n == 0 {
			return true, true
		}
	}
	v := p.plain(ta.X)
	if p.tested(v, ta.Block(), 0, func(v ssa.Value, c condAt) bool {
		e, ok := c.v.(*ssa.Extract)
		if !ok || !c.val || e.Index != 1 {
			return false
		}
		o, ok := e.Tuple.(*ssa.TypeAssert)
		return ok && types.Identical(o.AssertedType, ta.AssertedType) && p.same(o.X, v)
	}) {
		return true, true
	}
	// made by reflection as a copy of what the caller has
	if c, k := v.(*ssa.Call); k {
		if id := callID(&c.Call); id.pkg == "reflect" && id.name == "Interface" {
			d := p.desc(c.Call.Args[0])
			if m, k := d.root.(*ssa.Call); k && callID(&m.Call).name == "New" {
				return true, false
			}
		}
	}
	// what was put there
	if m := p.stored(v); m != nil {
		for _, t := range m {
			if !types.Identical(t, ta.AssertedType) {
				return false, true
			}
		}
		return len(m) > 0, true
	}
	return false, true
}

// tested: something was found to hold of the value before, here or by every caller.
func (p *prover) tested(v ssa.Value, b *ssa.BasicBlock, depth int, says func(ssa.Value, condAt) bool) bool {
	if depth > 3 {
		return false
	}
	for _, c := range p.at(b) {
		if says(v, c) {
			return true
		}
	}
	pa, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := pa.Parent()
	sites, known := p.callersOf(f)
	if !known {
		return false
	}
	for _, s := range sites {
		a := argFor(s.Common(), f, paramIndex(pa))
		if a == nil {
			return false
		}
		if p.tested(p.plain(a), s.Block(), depth+1, says) {
			continue
		}
		// the interface's own test
		good := false
		if s.Common().IsInvoke() && f.Signature.Recv() != nil {
			for _, c := range p.at(s.Block()) {
				call, ok := c.v.(*ssa.Call)
				if !ok || !c.val || !call.Call.IsInvoke() || !p.same(call.Call.Value, s.Common().Value) {
					continue
				}
				n := namedOf(f.Signature.Recv().Type())
				if n == nil {
					continue
				}
				g := p.w.methodNamed(n, call.Call.Method.Name())
				if g == nil {
					continue
				}
				for i, x := range call.Call.Args {
					if i+1 >= len(g.Params) || !p.same(x, a) {
						continue
					}
					all, any := true, false
					for _, rb := range g.Blocks {
						r, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
						if !ok || len(r.Results) != 1 || staticFact(r.Results[0]) == fFalse {
							continue
						}
						any = true
						told := false
						for _, c := range append(append([]condAt{}, p.at(rb)...), flatConds(condAt{r.Results[0], true})...) {
							if says(g.Params[i+1], c) {
								told = true
							}
						}
						all = all && told
					}
					good = good || all && any
				}
			}
		}
		if !good {
			return false
		}
	}
	return true
}

// stored: the types of everything put in the table a value was taken from.
func (p *prover) stored(v ssa.Value) (out []types.Type) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return nil
	}
	c, ok := e.Tuple.(*ssa.Call)
	if !ok || e.Index != 0 {
		return nil
	}
	id := callID(&c.Call)
	if id.name != "Get" || len(c.Call.Args) == 0 || !isDict(deptr(c.Call.Args[0].Type())) && !isDict(c.Call.Args[0].Type()) {
		return nil
	}
	box := p.plain(c.Call.Args[0])
	var fl *types.Var
	if u, ok := box.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			fl = fieldOf(fa)
		}
	}
	for _, f := range p.w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			s, ok := i.(*ssa.Call)
			if !ok {
				return
			}
			sid := callID(&s.Call)
			if sid.pkg != id.pkg || sid.name != "Set" && sid.name != "Update" || len(s.Call.Args) != 3 {
				return
			}
			o := p.plain(s.Call.Args[0])
			same := o == box
			if u, ok := o.(*ssa.UnOp); ok && fl != nil {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldOf(fa) == fl {
					same = true
				}
			}
			if !same {
				return
			}
			if mi, ok := s.Call.Args[2].(*ssa.MakeInterface); ok {
				out = append(out, mi.X.Type())
			} else {
				out = append(out, s.Call.Args[2].Type())
			}
		})
	}
	return
}

// demands lists what an instruction requires.
func (p *prover) demands(i ssa.Instruction) (out []demand) {
	w := p.w
	b := i.Block()
	nilUse := func(v ssa.Value, how string) {
		r := p.nonNil(v, b, 0)
		if len(r.sources) == 0 {
			return
		}
		ok := r.ok()
		if !ok {
			ok = p.worked(p.plain(v), b)
		}
		out = append(out, demand{"nil", fmt.Sprintf("%s of %s", how, r.sources[0]), ok, r.bad, i})
	}
	bounds := func(x ssa.Value, ix ssa.Value, n num) {
		m := p.num(ix)
		if p.shared(x) || m.v != nil && p.shared(m.v) || p.handedIn(ix, x) {
			return
		}
		if m.v == nil && n.v == nil && m.c >= 0 && m.c < n.c {
			return // fixed place in a fixed list
		}
		ok1 := p.holds(diff{num{}, m, 0}, b, 0)
		ok2 := p.holds(diff{m, n, -1}, b, 0)
		why := "the position may lie past the end"
		if !ok1 {
			why = "the position may be negative"
		}
		out = append(out, demand{"index", "position in " + shortVal(p.plain(x)), ok1 && ok2, why, i})
	}
	switch x := i.(type) {
	case *ssa.TypeAssert:
		if !x.CommaOk {
			if ok, judged := p.assertion(x); judged {
				out = append(out, demand{"assert", "assertion to " + types.TypeString(x.AssertedType, func(q *types.Package) string { return q.Name() }), ok, "the value may be of another type", i})
			}
		}
	case *ssa.IndexAddr:
		bounds(x.X, x.Index, p.length(x.X))
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			nilUse(x.X, "index")
		}
	case *ssa.Index:
		bounds(x.X, x.Index, p.length(x.X))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			bounds(x.X, x.Index, p.length(x.X))
		} else if hashesAny(x.X.Type()) && !constKey(x.Index) {
			out = append(out, demand{"compare", "looking a value up in a map keyed by any value", false, "values that cannot be compared crash", i})
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil || p.shared(x.X) {
			break
		}
		lo, hi := num{}, p.length(x.X)
		if x.Low != nil {
			lo = p.num(x.Low)
		}
		if x.High != nil {
			hi = p.num(x.High)
		}
		if p.reported(x.Low, 0) || p.reported(x.High, 0) {
			break
		}
		ok1 := p.holds(diff{num{}, lo, 0}, b, 0)
		ok2 := p.holds(diff{lo, hi, 0}, b, 0)
		ok3 := x.High == nil || p.holds(diff{hi, p.length(x.X), 0}, b, 0)
		why := "the end may lie past the end of it"
		if !ok1 {
			why = "the start may be negative"
		} else if !ok2 {
			why = "the start may lie past the end"
		}
		out = append(out, demand{"slice", "part of " + shortVal(p.plain(x.X)), ok1 && ok2 && ok3, why, i})
	case *ssa.FieldAddr:
		nilUse(x.X, "field "+fieldName(fieldOf(x)))
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ:
			if anyValue(x.X.Type()) && anyValue(x.Y.Type()) && !constKey(x.X) && !constKey(x.Y) {
				out = append(out, demand{"compare", "comparing two values", false, "values that cannot be compared crash", i})
			}
		case token.QUO, token.REM:
			if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				n := p.num(x.Y)
				if n.v == nil && n.c != 0 {
					break
				}
				ok := p.holds(diff{num{c: 1}, n, 0}, b, 0) || p.holds(diff{n, num{c: -1}, 0}, b, 0) || p.notZero(x.Y, b)
				out = append(out, demand{"divide", "integer division", ok, "the divisor may be zero", i})
			}
		}
	case *ssa.MakeSlice:
		n := p.num(x.Len)
		if n.v != nil && !n.len {
			out = append(out, demand{"size", "making a list", p.holds(diff{num{}, n, 0}, b, 0), "the size may be negative", i})
		}
	case *ssa.Panic:
		if c, ok := x.X.(*ssa.MakeInterface); ok {
			if k, ok := c.X.(*ssa.Const); ok && k.Value != nil && i.Pos().IsValid() {
				out = append(out, demand{"panic", "panic", p.setup(i.Parent()), "evaluation gives up by crashing", i})
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
			default:
				nilUse(x.X, "value")
			}
		}
	case *ssa.Store:
		switch x.Addr.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		default:
			nilUse(x.Addr, "store")
		}
	case *ssa.MapUpdate:
		nilUse(x.Map, "entry stored in")
		if hashesAny(x.Map.Type()) && !constKey(x.Key) {
			out = append(out, demand{"compare", "a map keyed by any value", false, "values that cannot be compared crash", i})
		}
	}
	if c, ok := i.(ssa.CallInstruction); ok {
		cc := c.Common()
		id := callID(cc)
		switch {
		case id.pkg == "regexp" && (id.name == "MustCompile" || id.name == "MustCompilePOSIX"):
			_, k := cc.Args[0].(*ssa.Const)
			out = append(out, demand{"library", "regexp." + id.name, k, "a pattern that does not compile crashes", i})
		}
		if id.pkg == "reflect" && (id.recv == "Value" || id.recv == "Type" || cc.IsInvoke() && isReflectType(cc.Value.Type(), "Type")) {
			recv := id.recv
			var a ssa.Value
			if cc.IsInvoke() {
				recv = "Type"
				a = cc.Value
			} else {
				a = cc.Args[0]
			}
			if need, ok := reflectNeeds(recv, id.name); ok {
				d := p.desc(a)
				have := p.kinds(d, b, 0)
				bad := have &^ need
				if bad != 0 && (p.developer(d.root, 0) || p.shared(d.root) || p.registered(d, i.Parent()) && bad&1 == 0) {
					return
				}
				out = append(out, demand{"reflect", recv + "." + id.name, bad == 0, "applied to " + bad.String(), i})
			}
			if how := reflectSize[id.name]; how != "" && len(cc.Args) > 0 && (recv == "Value" || cc.IsInvoke()) {
				ix := cc.Args[len(cc.Args)-1]
				if d := p.desc(a); isInt(ix.Type()) && !p.developer(d.root, 0) && !p.shared(d.root) && !p.shared(ix) && !keptPlace(p.num(ix)) {
					m := p.num(ix)
					ok := p.holds(diff{num{}, m, 0}, b, 0)
					why := "the position may be negative"
					if ok {
						ok = false
						why = "the position may lie past the end"
						for _, n := range p.sizesOf(d, how, i.Parent()) {
							if ok = p.holds(diff{m, p.num(n), -1}, b, 0); ok {
								break
							}
						}
					}
					out = append(out, demand{"index", recv + "." + id.name, ok, why, i})
				}
			}
			return
		}
		if cc.IsInvoke() {
			nilUse(cc.Value, "method "+cc.Method.Name())
		} else if cc.StaticCallee() == nil {
			if _, isB := cc.Value.(*ssa.Builtin); !isB {
				nilUse(cc.Value, "call")
			}
		} else if f := cc.StaticCallee(); !w.inModule(f) && f.Signature.Recv() != nil {
			if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); isPtr {
				nilUse(cc.Args[0], "method "+f.Name())
			}
		}
	}
	return
}

// worked: the value is the first result of a call that the callers made before
// on the same argument and found to succeed.
func (p *prover) worked(v ssa.Value, b *ssa.BasicBlock) bool {
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	c, ok := e.Tuple.(*ssa.Call)
	if !ok || c.Call.IsInvoke() || len(c.Call.Args) != 1 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || !p.w.inModule(f) {
		return false
	}
	return p.tested(p.plain(c.Call.Args[0]), b, 0, func(v ssa.Value, cd condAt) bool {
		x, ok := cd.v.(*ssa.Extract)
		if !ok || !cd.val || x.Index == 0 {
			return false
		}
		o, ok := x.Tuple.(*ssa.Call)
		return ok && o.Call.StaticCallee() == f && p.same(o.Call.Args[0], v)
	})
}

// notZero: a test on the way excludes zero.
func (p *prover) notZero(v ssa.Value, b *ssa.BasicBlock) bool {
	n := p.num(v)
	for _, c := range p.at(b) {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || c.val != (bo.Op == token.NEQ) {
			continue
		}
		for _, s := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if k := p.num(s[1]); k.v == nil && k.c == 0 {
				if m := p.num(s[0]); p.sameNum(m, n) && m.c == n.c {
					return true
				}
			}
		}
	}
	return false
}

// anyValue: an interface type that says nothing about the value.
func anyValue(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

func hashesAny(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && anyValue(m.Key())
}

// constKey: a constant, or a value of a type that can always be compared.
func constKey(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		_, isI := x.X.Type().Underlying().(*types.Interface)
		return !isI && types.Comparable(x.X.Type()) && !holdsInterface(x.X.Type(), 0)
	}
	return false
}

func holdsInterface(t types.Type, d int) bool {
	switch x := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields() && d < 4; i++ {
			if holdsInterface(x.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return holdsInterface(x.Elem(), d+1)
	}
	return false
}

// setup: the function is used by the program that embeds the engine, when it
// registers its own types and functions, or checks what the developer passed.
func (p *prover) setup(f *ssa.Function) bool {
	f = outermost(f)
	return token.IsExported(f.Name()) || f.Name() == "init"
}

// implementers lists the types of the module that implement the interface.
func (w *World) implementers(it *types.Interface) (out []types.Type) {
	for _, pp := range w.Pkgs {
		if pp.Types == nil || !w.isModPkg(pp.Types.Path()) {
			continue
		}
		pk := pp.Types
		sc := pk.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			}
			if types.Implements(types.NewPointer(tn.Type()), it) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	return
}

// used: functions that something can call: what programs embedding the engine
// can reach, what is called or stored, and what interfaces lead to.
func (w *World) used() map[*ssa.Function]bool {
	w.buildSites()
	live := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !live[f] && w.inModule(f) {
			live[f] = true
			work = append(work, f)
		}
	}
	for _, f := range w.Fns {
		switch {
		case f.Name() == "init":
			add(f)
		case f.Parent() != nil:
		case w.addrTaken[f]:
			add(f)
		case token.IsExported(f.Name()):
			if f.Signature.Recv() == nil {
				add(f)
			} else if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Exported() || w.promised(n, f.Name()) {
				add(f)
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if c, ok := i.(ssa.CallInstruction); ok {
				for _, g := range w.callees(c.Common(), true) {
					add(g)
				}
			}
		})
	}
	return live
}

// promised: some interface has the method, and the type implements it.
func (w *World) promised(n *types.Named, name string) bool {
	if n == nil {
		return false
	}
	ptr := types.NewPointer(n)
	fits := func(it *types.Interface) bool {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == name {
				return types.Implements(ptr, it) || types.Implements(n, it)
			}
		}
		return false
	}
	seen := map[*types.Package]bool{}
	var scan func(p *types.Package) bool
	scan = func(p *types.Package) bool {
		if seen[p] {
			return false
		}
		seen[p] = true
		for _, nm := range p.Scope().Names() {
			if tn, ok := p.Scope().Lookup(nm).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok && fits(it) {
					return true
				}
			}
		}
		for _, q := range p.Imports() {
			if scan(q) {
				return true
			}
		}
		return false
	}
	for _, pp := range w.Pkgs {
		if pp.Types != nil && scan(pp.Types) {
			return true
		}
	}
	return false
}
