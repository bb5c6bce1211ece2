package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = check{run: runC11,
		explanation: "Every protocol operator is specialised by interprocedural constant propagation to operands of a type unknown to the engine, paired with themselves, numbers and strings, and to lazy operands. The facts established on every path to a call of an implementation must include its own Applicable answer for the operands it is given; no path may return without asking before the list of implementations is exhausted.",
		assumptions: []string{"A value that a lazy expression reduces to is not lazy itself", "Applicable answers the same question the same way during one operation"}}
}

// customType: a type that the engine knows nothing about.
func customType(ptr bool) types.Type {
	p := types.NewPackage("custom.test/custom", "custom")
	n := types.NewNamed(types.NewTypeName(token.NoPos, p, "Custom", nil), types.NewStruct(nil, nil), nil)
	if ptr {
		return types.NewPointer(n)
	}
	return n
}

func operandParams(f *ssa.Function) int {
	n := 0
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isEmptyIface(f.Signature.Params().At(i).Type()) {
			n++
		}
	}
	return n
}

func runC11(w *World, r *Report) {
	r.Rule("R1-lazy", "an operator looks at a lazy operand only through its reduced value", 8)
	r.Rule("R2-applicable", "an implementation is used only for operands it declared itself applicable to, and its answer is the result", 30)
	r.Rule("R3-consulted", "the operator gives up only after the whole list of implementations was asked", 30)
	r.Rule("R4-newest-first", "registering puts the implementation before the older ones, in a list of its own", 4)
	r.Rule("R5-registered", "an implementation of a protocol is registered with the dispatcher of that protocol", 4)
	r.Rule("R6-routed", "the operator of the scope asks the dispatcher of its protocol with its operands in order", 4)

	ds := w.dispatchers()
	for _, d := range ds {
		var ms []string
		for m := range d.ops {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			f := d.ops[m]
			for k := 0; k < operandParams(f); k++ {
				ok, why := w.lazyHolds(f, k)
				r.Ob("R1-lazy", fmt.Sprintf("%s operand %d", m, k+1), w.Pos(f.Pos()), ok, "%s", why)
			}
			w.customWorlds(r, d, m, f)
		}
		w.addImplHolds(r, d)
	}
	w.registered(r, ds)
}

// raw: the parameter is used, other than to reduce it.
func raw(t *term, name string) bool {
	if t.op == "param" && t.str == name {
		return true
	}
	if t.op == "call" && strings.HasPrefix(t.str, "LazyExpr.Reduce") {
		return false
	}
	for _, a := range t.args {
		if raw(a, name) {
			return true
		}
	}
	return false
}

func isLazyType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "LazyExpr"
}

func (w *World) lazyHolds(f *ssa.Function, k int) (bool, string) {
	names := []string{"a", "b"}
	tmp := newInterp(w)
	ep := types.NewInterfaceType(nil, nil)
	in, got := w.runOp(f, tmp.param("a", ep), tmp.param("b", ep), func(in *interp) func(*term) *term {
		return func(t *term) *term {
			if t.op == "istype" && t.args[0].op == "param" && t.args[0].str == names[k] {
				if isLazyType(t.typ) {
					return in.boolean(true)
				}
			}
			if t.op == "bin" && t.str == "==" {
				for i, x := range t.args {
					if x.op == "param" && x.str == names[k] && t.args[1-i].op == "nil" {
						return in.boolean(false)
					}
				}
			}
			return nil
		}
	})
	if in.failed != "" {
		return false, in.failed
	}
	name := names[k]
	reduced := false
	for _, e := range in.evs("call") {
		if e.name.name == "Reduce" || e.name.name == "ReduceWithScope" {
			if len(e.args) > 0 && e.args[0].mentionsParam(name) {
				reduced = true
				continue
			}
		}
		for _, a := range e.args {
			for _, t := range a {
				if raw(t, name) {
					return false, fmt.Sprintf("%s is given the lazy operand itself at %s", e.name.name, w.instrPos(e.in))
				}
			}
		}
	}
	for _, kind := range []string{"typetest", "assert", "append", "store", "mapupdate", "index", "panic", "go"} {
		for _, e := range in.evs(kind) {
			for _, a := range e.args {
				for _, t := range a {
					if !raw(t, name) {
						continue
					}
					if ta, ok := e.in.(*ssa.TypeAssert); ok && t.op == "param" && isLazyType(ta.AssertedType) {
						continue
					}
					if al, ok := storedLocal(e.in); ok && al {
						continue
					}
					return false, fmt.Sprintf("%s of the lazy operand itself at %s", kind, w.instrPos(e.in))
				}
			}
		}
	}
	for _, t := range got {
		if raw(t, name) {
			return false, fmt.Sprintf("gives the lazy operand itself: %s", t)
		}
	}
	if !reduced {
		return false, "the lazy operand is never reduced"
	}
	return true, "only reduced"
}

// storedLocal: a store in a variable of the function.
func storedLocal(i ssa.Instruction) (bool, bool) {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false, false
	}
	_, al := st.Addr.(*ssa.Alloc)
	return al, true
}

func (s tset) mentionsParam(name string) bool {
	for _, t := range s {
		if termHas(t, func(x *term) bool { return x.op == "param" && x.str == name }) {
			return true
		}
	}
	return false
}

func termHas(t *term, ok func(*term) bool) bool {
	if ok(t) {
		return true
	}
	for _, a := range t.args {
		if termHas(a, ok) {
			return true
		}
	}
	return false
}

// implElem: the term is an element of the list of implementations, at the given index.
func implElem(d *dispatcher, t *term) *term {
	if t.op == "elem" && len(t.args) == 2 && implList(d, t.args[0]) {
		return t.args[1]
	}
	return nil
}

func implList(d *dispatcher, t *term) bool {
	if t.op == "field" && t.fld == d.field {
		return true
	}
	if t.op == "load" && len(t.args) == 1 && t.args[0].op == "fa" && t.args[0].fld == d.field {
		return true
	}
	return t.op == "field" && t.str == d.field.Name()
}

// fullRange: the index runs over 0, 1, 2, ...
func fullRange(t *term) bool {
	is := func(x *term, start int64) bool {
		if x.op != "ind" || len(x.args) != 2 {
			return false
		}
		s, ok1 := constInt(x.args[0])
		st, ok2 := constInt(x.args[1])
		return ok1 && ok2 && s == start && st == 1
	}
	if is(t, 0) {
		return true
	}
	if t.op == "bin" && t.str == "+" {
		for i, x := range t.args {
			if c, ok := constInt(t.args[1-i]); ok && c == 1 && is(x, -1) {
				return true
			}
		}
	}
	return false
}

func isApplicable(t *term) bool { return t.op == "call" && strings.HasSuffix(t.str, ".Applicable") }

type operand struct {
	name string
	t    types.Type
}

func (w *World) customWorlds(r *Report, d *dispatcher, m string, f *ssa.Function) {
	kinds := []operand{{"custom", customType(false)}, {"*custom", customType(true)}, {"int64", types.Typ[types.Int64]}, {"float64", types.Typ[types.Float64]}, {"string", types.Typ[types.String]}}
	for _, x := range kinds {
		for _, y := range kinds {
			if operandParams(f) < 2 {
				if y.name != "custom" || !strings.HasSuffix(x.name, "custom") {
					continue
				}
			} else if !strings.HasSuffix(x.name, "custom") && !strings.HasSuffix(y.name, "custom") {
				continue
			}
			if m == "Associative" && !strings.HasSuffix(x.name, "custom") {
				continue
			}
			key := m + "(" + x.name + ")"
			if operandParams(f) > 1 {
				key = m + "(" + x.name + "," + y.name + ")"
			}
			ok, why := w.implHolds(d, m, f, x.t, y.t, true)
			r.Ob("R2-applicable", key, w.Pos(f.Pos()), ok, "%s", why)
			ok, why = w.implHolds(d, m, f, x.t, y.t, false)
			r.Ob("R3-consulted", key, w.Pos(f.Pos()), ok, "%s", why)
		}
	}
}

func (w *World) implHolds(d *dispatcher, m string, f *ssa.Function, ta, tb types.Type, consulted bool) (bool, string) {
	tmp := newInterp(w)
	pa, pb := tmp.iface(ta, tmp.param("a", ta)), tmp.iface(tb, tmp.param("b", tb))
	world := func(always bool) *interp {
		in, _ := w.runOp(f, pa, pb, func(in *interp) func(*term) *term {
			return func(t *term) *term {
				switch {
				case isApplicable(t) && always:
					return in.boolean(true)
				case t.op == "call" && t.str == "Value.IsNil":
					return in.boolean(false)
				case t.op == "bin" && t.str == "==":
					// a string operand is not one of the constants with a meaning of their own
					for i, x := range t.args {
						if implElem(d, x) != nil && t.args[1-i].op == "nil" {
							return in.boolean(false)
						}
						if unbox(x).op == "param" && t.args[1-i].op == "const" {
							return in.boolean(false)
						}
					}
				}
				return nil
			}
		})
		return in
	}
	in := world(false)
	if in.failed != "" {
		return false, in.failed
	}
	asked := 0
	for _, e := range in.evs("call") {
		if e.name.name == "Applicable" && len(e.args) > 0 {
			for _, t := range e.args[0] {
				if ix := implElem(d, t); ix != nil {
					if !fullRange(ix) {
						return false, fmt.Sprintf("the implementations asked are those at %s", ix)
					}
					asked++
				}
			}
		}
		if consulted || e.name.name != m || len(e.args) == 0 {
			continue
		}
		for _, t := range e.args[0] {
			if ix := implElem(d, t); ix == nil || noIndex(ix) {
				continue
			}
			if ok, why := agreed(e, t, pa, pb, operandParams(f)); !ok {
				return false, why
			}
		}
	}
	if asked == 0 {
		return false, "no implementation is asked"
	}
	used := 0
	for _, e := range in.evs("return") {
		if e.fn != f || e.frame != "" || exhausted(d, e) {
			continue
		}
		t := e.args[0].only()
		for t != nil && (t.op == "res" || t.op == "tuple") {
			t = t.args[0]
		}
		if t == nil || t.op != "call" || !strings.HasSuffix(t.str, "."+m) || !implCall(d, t.args[0]) {
			return false, fmt.Sprintf("gives %s at %s although implementations were not asked", e.args, w.instrPos(e.in))
		}
		used++
	}
	if used == 0 {
		return false, "the answer of an implementation is never given"
	}
	if consulted {
		return true, fmt.Sprintf("%d questions", asked)
	}

	// the first one that is applicable is used
	in = world(true)
	if in.failed != "" {
		return false, in.failed
	}
	for _, e := range in.evs("call") {
		if e.name.name != "Applicable" || len(e.args) == 0 {
			continue
		}
		for _, t := range e.args[0] {
			ix := implElem(d, t)
			if ix == nil {
				continue
			}
			for _, b := range in.evs("back") {
				if b.frame != e.frame || b.fn != e.fn {
					continue
				}
				for _, p := range b.in.Block().Instrs {
					if ph, ok := p.(*ssa.Phi); ok && termHas(ix, func(x *term) bool {
						return x.op == "ind" && strings.HasSuffix(x.str, "/"+ph.Name())
					}) {
						return false, fmt.Sprintf("an applicable implementation is passed over, asked at %s", w.instrPos(e.in))
					}
				}
			}
		}
	}
	return true, "used only where applicable"
}

// noIndex: nothing is at this index.
func noIndex(t *term) bool {
	c, ok := constInt(t)
	return ok && c < 0
}

func implCall(d *dispatcher, t *term) bool {
	if t.op == "or" {
		found := false
		for _, a := range t.args {
			if a.op == "nil" {
				continue
			}
			if ix := implElem(d, a); ix != nil && noIndex(ix) {
				continue
			}
			if implElem(d, a) == nil {
				return false
			}
			found = true
		}
		return found
	}
	return implElem(d, t) != nil
}

// exhausted: the return happens after the index passed the end of the list.
func exhausted(d *dispatcher, e *aevent) bool {
	for _, f := range e.facts {
		if f.t.op == "bin" && f.t.str == "<" && !f.val && f.t.args[1].op == "len" && implList(d, f.t.args[1].args[0]) && fullRange(f.t.args[0]) {
			return true
		}
		if f.t.op == "bin" && f.t.str == "<=" && f.val && f.t.args[0].op == "len" && implList(d, f.t.args[0].args[0]) && fullRange(f.t.args[1]) {
			return true
		}
	}
	return false
}

// agreed: the implementation declared itself applicable to the operands of the call.
func agreed(e *aevent, impl, pa, pb *term, n int) (bool, string) {
	var given []*term
	for _, a := range e.args[1:] {
		t := a.only()
		if t == nil {
			return false, fmt.Sprintf("%s is given one of %s", e.name.name, a)
		}
		if mentions(t, "param") && (termHas(t, func(x *term) bool { return x == unbox(pa) || x == unbox(pb) })) {
			given = append(given, t)
		}
	}
	want := []*term{pa, pb}[:n]
	if len(given) != n {
		return false, fmt.Sprintf("%s is given %d operands of %d", e.name.name, len(given), n)
	}
	for i := range want {
		if given[i].key != want[i].key {
			return false, fmt.Sprintf("%s is given %s for operand %d", e.name.name, given[i], i+1)
		}
	}
	for _, f := range e.facts {
		if !f.val || !isApplicable(f.t) || f.t.args[0] != impl {
			continue
		}
		q := f.t.args[1:]
		same := len(q) >= n
		for i := 0; same && i < n; i++ {
			same = q[i].key == want[i].key
		}
		for i := n; same && i < len(q); i++ {
			same = !mentions(q[i], "param")
		}
		if same {
			return true, ""
		}
	}
	return false, fmt.Sprintf("%s is used without having said that it is applicable to its operands", e.name.name)
}

// listParts: what a list was put together from, and whether it has memory of its own.
func listParts(d *dispatcher, t *term) (parts []string, own bool) {
	switch {
	case t.op == "append" && len(t.args) == 2:
		a, own := listParts(d, t.args[0])
		b, _ := listParts(d, t.args[1])
		return append(append([]string{}, a...), b...), own
	case t.op == "list":
		for _, x := range t.args {
			if termHas(x, func(y *term) bool { return y.op == "param" && y.str != "self" }) && x.op != "param" {
				parts = append(parts, "new")
			} else {
				parts = append(parts, x.String())
			}
		}
		return parts, true
	case t.op == "nil":
		return nil, true
	case t.op == "makeslice":
		if n, ok := constInt(t.args[0]); ok && n == 0 {
			return nil, true
		}
	case implList(d, t):
		return []string{"older"}, false
	}
	return []string{t.String()}, false
}

// addImplHolds: the newest implementation is followed by the older ones, in a list of its own.
func (w *World) addImplHolds(r *Report, d *dispatcher) {
	add := w.methodNamed(d.typ, "AddImpl")
	if add == nil {
		return
	}
	in := newInterp(w)
	in.once = true
	var args []tset
	for i, p := range add.Params {
		n := p.Name()
		if i == 0 {
			n = "self"
		}
		args = append(args, tset{in.param(n, p.Type())})
	}
	in.run(add, args, nil)
	key := d.typ.Obj().Name()
	if in.failed != "" {
		r.Ob("R4-newest-first", key, w.Pos(add.Pos()), false, "%s", in.failed)
		return
	}
	n, why := 0, ""
	for _, e := range in.evs("store") {
		to := e.args[0].only()
		if to == nil || to.op != "fa" || to.fld != d.field {
			continue
		}
		n++
		v := e.args[1].only()
		if v == nil {
			why = "the list becomes " + e.args[1].String()
			continue
		}
		parts, own := listParts(d, v)
		if strings.Join(parts, " ") != "new older" {
			why = "the list becomes " + strings.Join(parts, ", ")
		} else if !own {
			why = "the list shares the memory of the older one"
		}
	}
	if n == 0 {
		why = "the list is not changed"
	}
	r.Ob("R4-newest-first", key, w.Pos(add.Pos()), why == "", "%s", why)
}

func dispField(t *term) (*types.Var, bool) {
	for t.op == "load" {
		t = t.args[0]
	}
	if (t.op == "fa" || t.op == "field") && t.fld != nil {
		return t.fld, true
	}
	return nil, false
}

// routed: a.op(b) of the scope is the operator of the dispatcher of the protocol.
func (w *World) routed(r *Report, ds []*dispatcher) map[*dispatcher]*types.Var {
	at := map[*dispatcher]*types.Var{}
	sc := w.typeNamed("scope", "Scope")
	if sc == nil {
		return at
	}
	isOp := map[*ssa.Function]bool{}
	for _, d := range ds {
		for _, f := range d.ops {
			isOp[f] = true
		}
	}
	for _, d := range ds {
		var ms []string
		for m := range d.ops {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			f := w.methodNamed(sc, m)
			if f == nil {
				continue
			}
			in := newInterp(w)
			in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return isOp[g] }
			var args []tset
			var ops []*term
			for i, p := range f.Params {
				t := in.param("p"+fmt.Sprint(i), p.Type())
				if isEmptyIface(p.Type()) {
					ops = append(ops, t)
				}
				args = append(args, tset{t})
			}
			rets, _ := in.run(f, args, nil)
			why := in.failed
			var t *term
			if len(rets) > 0 {
				t = rets[0].only()
			}
			if t != nil && t.op == "res" {
				t = t.args[0]
			}
			switch {
			case why != "":
			case t == nil || t.op != "call" || !strings.HasSuffix(t.str, d.typ.Obj().Name()+"."+m):
				why = fmt.Sprintf("gives %s", rets)
			default:
				k := 0
				for _, a := range t.args {
					if k < len(ops) && a == ops[k] {
						k++
					}
				}
				fv, ok := dispField(t.args[0])
				switch {
				case k != len(ops):
					why = fmt.Sprintf("the operands are handed on as %s", t)
				case !ok:
					why = fmt.Sprintf("the dispatcher is %s", t.args[0])
				case at[d] != nil && at[d] != fv:
					why = fmt.Sprintf("asks %s, others ask %s", fv.Name(), at[d].Name())
				default:
					at[d] = fv
				}
			}
			r.Ob("R6-routed", m, w.Pos(f.Pos()), why == "", "%s", why)
		}
	}
	return at
}

// registered: an implementation of one protocol is added to the dispatcher its operator asks.
func (w *World) registered(r *Report, ds []*dispatcher) {
	at := w.routed(r, ds)
	sc := w.typeNamed("scope", "Scope")
	if sc == nil {
		return
	}
	f := w.methodNamed(sc, "AddProtocolImpl")
	if f == nil {
		return
	}
	byAdd := map[*ssa.Function]*dispatcher{}
	byIface := map[*types.Named]*dispatcher{}
	for _, d := range ds {
		if a := w.methodNamed(d.typ, "AddImpl"); a != nil {
			byAdd[a] = d
		}
		byIface[d.iface] = d
	}
	for _, d := range ds {
		in := newInterp(w)
		in.assume = func(t *term) *term {
			if t.op == "istype" {
				if n := namedOf(t.typ); n != nil && byIface[n] != nil {
					return in.boolean(byIface[n] == d)
				}
			}
			return nil
		}
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return byAdd[g] != nil }
		var args []tset
		for i, p := range f.Params {
			args = append(args, tset{in.param("p"+fmt.Sprint(i), p.Type())})
		}
		in.run(f, args, nil)
		why, n := in.failed, 0
		for _, e := range in.evs("call") {
			c, ok := e.in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, g := range w.callees(c.Common(), false) {
				o := byAdd[g]
				if o == nil {
					continue
				}
				if o != d {
					why = fmt.Sprintf("an implementation of %s only is given to %s", d.iface.Obj().Name(), o.typ.Obj().Name())
					continue
				}
				t := e.args[0].only()
				if t == nil {
					why = "given to " + e.args[0].String()
					continue
				}
				if fv, ok := dispField(t); !ok || at[d] != nil && fv != at[d] {
					why = "given to " + t.String() + ", which the operator does not ask"
					continue
				}
				if len(e.args) < 2 || !e.args[1].mentionsParam("p1") {
					why = fmt.Sprintf("given %s instead of the implementation", e.args[1:])
					continue
				}
				n++
			}
		}
		if why == "" && n == 0 {
			why = "not added anywhere"
		}
		r.Ob("R5-registered", d.iface.Obj().Name(), w.Pos(f.Pos()), why == "", "%s", why)
	}
}
