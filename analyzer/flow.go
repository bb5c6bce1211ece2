package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// value flow: flow-insensitive, object-insensitive for fields
// ---------------------------------------------------------------------------

// cellOf resolves an address to the variable it denotes: an Alloc, a Global,
// or (for captured variables) the Alloc bound to the free variable when every
// creation of the closure binds the same one.
func (w *World) cellOf(addr ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch a := addr.(type) {
		case *ssa.Alloc, *ssa.Global:
			return a
		case *ssa.FreeVar:
			b := w.binding(a)
			if b == nil {
				return nil
			}
			addr = b
		default:
			return nil
		}
	}
	return nil
}

// binding returns the value bound to a free variable if it is unique.
func (w *World) binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if idx < 0 {
		return nil
	}
	var out ssa.Value
	for _, mc := range w.closures[fn] {
		if idx >= len(mc.Bindings) {
			return nil
		}
		if out != nil && out != mc.Bindings[idx] {
			return nil
		}
		out = mc.Bindings[idx]
	}
	return out
}

func (w *World) bindings(fv *ssa.FreeVar) []ssa.Value {
	fn := fv.Parent()
	var out []ssa.Value
	for i, f := range fn.FreeVars {
		if f == fv {
			for _, mc := range w.closures[fn] {
				if i < len(mc.Bindings) {
					out = append(out, mc.Bindings[i])
				}
			}
		}
	}
	return out
}

// capturing lists the free variables (transitively) bound to a cell.
func (w *World) cellAliases(cell ssa.Value) []ssa.Value {
	out := []ssa.Value{cell}
	for i := 0; i < len(out); i++ {
		refs := out[i].Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				fn := mc.Fn.(*ssa.Function)
				for j, b := range mc.Bindings {
					if b == out[i] && j < len(fn.FreeVars) {
						dup := false
						for _, o := range out {
							if o == ssa.Value(fn.FreeVars[j]) {
								dup = true
							}
						}
						if !dup {
							out = append(out, fn.FreeVars[j])
						}
					}
				}
			}
		}
	}
	return out
}

// cellStores: every value stored in a variable, wherever it is captured.
func (w *World) cellStores(cell ssa.Value) (vals []ssa.Value, escapes bool) {
	for _, a := range w.cellAliases(cell) {
		refs := a.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == a {
					vals = append(vals, x.Val)
				} else {
					escapes = true
				}
			case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
			default:
				escapes = true
			}
		}
	}
	return
}

// origins follows a value backwards to where it came from: parameters, calls,
// constants, allocations, field loads, globals. withCallers also steps from a
// parameter of a function that is only ever called statically to the arguments.
func (w *World) origins(v ssa.Value, withCallers bool) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if v == nil || seen[v] || depth > 60 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, depth+1)
			}
		case *ssa.ChangeType:
			walk(x.X, depth+1)
		case *ssa.ChangeInterface:
			walk(x.X, depth+1)
		case *ssa.MakeInterface:
			walk(x.X, depth+1)
		case *ssa.TypeAssert:
			walk(x.X, depth+1)
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				walk(ta.X, depth+1)
				return
			}
			out = append(out, v)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if cell := w.cellOf(x.X); cell != nil {
					if _, isAlloc := cell.(*ssa.Alloc); isAlloc {
						vals, _ := w.cellStores(cell)
						if len(vals) > 0 {
							for _, s := range vals {
								walk(s, depth+1)
							}
							return
						}
					}
				}
			}
			out = append(out, v)
		case *ssa.FreeVar:
			bs := w.bindings(x)
			if len(bs) == 0 {
				out = append(out, v)
			}
			for _, b := range bs {
				walk(b, depth+1)
			}
		case *ssa.Parameter:
			if withCallers {
				fn := x.Parent()
				sites := w.callers[fn]
				if len(sites) > 0 && !w.addrTaken[fn] && (fn.Parent() != nil || !token.IsExported(fn.Name())) {
					idx := -1
					for i, p := range fn.Params {
						if p == x {
							idx = i
						}
					}
					if idx >= 0 {
						for _, s := range sites {
							if idx < len(s.Common().Args) {
								walk(s.Common().Args[idx], depth+1)
							}
						}
						return
					}
				}
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	walk(v, 0)
	return out
}

// callees of a call instruction: the static one, or the functions and closures
// the called variable can hold; invoke resolves interface calls to the module's
// implementations as well.
func (w *World) callees(c *ssa.CallCommon, invoke bool) []*ssa.Function {
	if c.IsInvoke() {
		if invoke {
			return w.impls(c)
		}
		return nil
	}
	if s := c.StaticCallee(); s != nil {
		return []*ssa.Function{s}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for _, o := range w.origins(c.Value, true) {
		switch x := o.(type) {
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, x)
		}
	}
	return out
}

// sitesOf lists every call instruction of the module that may call fn:
// static, through a function value, or through an interface.
func (w *World) buildSites() {
	if w.sites != nil {
		return
	}
	w.sites = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range w.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range w.callees(c.Common(), true) {
					w.sites[t] = append(w.sites[t], c)
				}
			}
		}
	}
}

// argFor maps parameter i of callee to the actual at the site.
func argFor(c *ssa.CallCommon, callee *ssa.Function, i int) ssa.Value {
	if c.IsInvoke() {
		if i == 0 {
			return c.Value
		}
		if i-1 < len(c.Args) {
			return c.Args[i-1]
		}
		return nil
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// paramFor maps operand v of a call to the callee's parameters.
func paramsFor(c *ssa.CallCommon, callee *ssa.Function, v ssa.Value) []*ssa.Parameter {
	var out []*ssa.Parameter
	for i, p := range callee.Params {
		if argFor(c, callee, i) == v {
			out = append(out, p)
		}
	}
	return out
}

type flowOpts struct {
	fields  bool // through struct fields, object-insensitively
	returns bool // from return statements to call results
	params  bool // into static callees
	invoke  bool // also through interface calls
	// selfCall: the result of this call is its receiver
	selfCall func(c *ssa.CallCommon) bool
	// prune a flow step to this value
	prune func(v ssa.Value) bool
	// extra flow out of a value
	extra func(v ssa.Value, ref ssa.Instruction, add func(ssa.Value))
}

type valset map[ssa.Value]bool

// flow computes the values the seeds may flow to.
func (w *World) flow(seeds []ssa.Value, o flowOpts) valset {
	w.buildSites()
	set := valset{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v == nil || set[v] {
			return
		}
		if o.prune != nil && o.prune(v) {
			return
		}
		set[v] = true
		work = append(work, v)
	}
	for _, s := range seeds {
		add(s)
	}
	addLoads := func(addr ssa.Value) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == addr {
				add(u)
			}
		}
	}
	addReturn := func(fn *ssa.Function, idx int) {
		n := fn.Signature.Results().Len()
		for _, site := range w.sites[fn] {
			v := site.Value()
			if v == nil {
				continue
			}
			if !o.invoke && site.Common().IsInvoke() {
				continue
			}
			if n == 1 {
				add(v)
			} else if v.Referrers() != nil {
				for _, r := range *v.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
						add(e)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			if o.extra != nil {
				o.extra(v, r, add)
			}
			switch x := r.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
				add(x.(ssa.Value))
			case *ssa.TypeAssert:
				if x.CommaOk {
					for _, rr := range *x.Referrers() {
						if e, ok := rr.(*ssa.Extract); ok && e.Index == 0 {
							add(e)
						}
					}
				} else {
					add(x)
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if cell := w.cellOf(x.Addr); cell != nil {
					for _, a := range w.cellAliases(cell) {
						addLoads(a)
					}
				} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok && o.fields {
					for _, l := range w.fieldLoads[fieldOf(fa)] {
						add(l)
					}
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						add(fn.FreeVars[i])
					}
				}
			case *ssa.Return:
				if o.returns {
					for i, res := range x.Results {
						if res == v {
							addReturn(x.Parent(), i)
						}
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if o.selfCall != nil && o.selfCall(c) {
					recv := c.Value
					if !c.IsInvoke() && len(c.Args) > 0 {
						recv = c.Args[0]
					}
					if recv == v && x.Value() != nil {
						add(x.Value())
					}
				}
				if o.params {
					for _, t := range w.callees(c, o.invoke) {
						if !w.inMod[t] {
							continue
						}
						for _, p := range paramsFor(c, t, v) {
							add(p)
						}
					}
				}
			}
		}
	}
	return set
}

// ---------------------------------------------------------------------------
// constants and simple facts
// ---------------------------------------------------------------------------

type fact uint8

const (
	fUnknown fact = iota
	fTrue
	fFalse
	fNil
	fNonNil
)

func (f fact) negate() fact {
	switch f {
	case fTrue:
		return fFalse
	case fFalse:
		return fTrue
	}
	return fUnknown
}

// staticFact is what is known about a value without context.
func staticFact(v ssa.Value) fact {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Basic); ok {
				if b := x.Type().Underlying().(*types.Basic); b.Kind() == types.UntypedNil {
					return fNil
				}
				return fUnknown
			}
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return fUnknown
			}
			return fNil
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return fTrue
			}
			return fFalse
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeMap, *ssa.Function:
		return fNonNil
	case *ssa.UnOp:
		// sentinel errors of other packages (io.EOF)
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
				return fNonNil
			}
		}
	case *ssa.Call:
		id := callID(x.Common())
		switch {
		case id.is("errors", "", "New"), id.is("fmt", "", "Errorf"), id.pkg == "github.com/pkg/errors" && (id.name == "New" || id.name == "Errorf"):
			return fNonNil
		}
	}
	return fUnknown
}

func isNilConst(v ssa.Value) bool { return staticFact(v) == fNil }

// rowStream: a channel of interface or pointer values that can be received from.
func rowStream(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	switch e := c.Elem().Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Pointer:
		return true
	case *types.Struct:
		return e.NumFields() > 0 && !isNamedType(c.Elem(), "time", "Time")
	}
	return false
}

func recvOnly(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && c.Dir() == types.RecvOnly
}
