package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = check{run: runC24,
		explanation: "The fields that the configuration methods of Scope set are collected from those methods. Copy, NewScope and ClearContext are executed in the abstract, and each such field of the scope and of the registries they make is compared with that of the original: the same where it must be shared, complete everywhere, and not sharing memory that is changed in place where later registrations must stay apart. The lookup of variables is executed for a variable that is found and one that is not.",
		assumptions: []string{"registered plugins, functions, sorters and so on are shared objects by design", "package sync, maps and slices of the standard library"}}
}

// what a client configures on a scope, and what a nested or an independent scope keeps of it
var scopeConfig = map[string]struct{ nested, independent bool }{
	"AppendVars": {true, false}, "EnableExplain": {true, false}, "SetThrottler": {true, false},
	"AddProtocolImpl": {true, true}, "AppendFunctions": {true, true}, "AppendPlugins": {true, true},
	"SetSorter": {true, true}, "SetGrouper": {true, true}, "SetMaterializer": {true, true},
	"SetExplainer": {true, true}, "SetLogger": {true, true}, "SetTracer": {true, true},
}

type scopeModel struct {
	w      *World
	scope  *types.Named
	disp   *types.Named
	dispF  *types.Var
	config map[*types.Var]string // field -> the method that sets it
	inPl   map[*types.Var]string // slices and maps changed in place, and where
}

func runC24(w *World, r *Report) {
	r.Rule("R1-nested", "a nested scope has what its parent has", 1)
	r.Rule("R2-independent", "an independent scope, or one with a fresh context, has everything that was registered", 15)
	r.Rule("R3-apart", "what is added to a derived scope is not added to the original", 15)
	r.Rule("R4-own", "a scope changes only its own configuration", 4)
	r.Rule("R5-lookup", "a variable is looked up from the newest to the oldest, and the newest that has it answers", 1)

	sc := w.typeNamed("scope", "Scope")
	if sc == nil {
		r.Ob("R1-nested", "Scope", "scope", false, "no type scope.Scope")
		return
	}
	m := &scopeModel{w: w, scope: sc, config: map[*types.Var]string{}, inPl: map[*types.Var]string{}}
	st := sc.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if p, ok := f.Type().(*types.Pointer); ok {
			if n := namedOf(p.Elem()); n != nil && n != sc && n.Obj().Pkg() == sc.Obj().Pkg() {
				if _, isS := n.Underlying().(*types.Struct); isS && w.methodNamed(n, "GetPlugin") != nil {
					m.disp, m.dispF = n, f
				}
			}
		}
	}
	if m.disp == nil {
		r.Ob("R1-nested", "registries", "scope", false, "the registries of a scope are not found")
		return
	}
	var names []string
	for n := range scopeConfig {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := w.methodNamed(sc, n)
		if f == nil {
			continue // another way to configure: not part of this API
		}
		fs := m.setBy(f)
		for _, v := range fs {
			if m.config[v] == "" {
				m.config[v] = n
			}
		}
		r.Ob("R4-own", "sets "+n, w.Pos(f.Pos()), len(fs) > 0, "nothing is set by %s", n)
	}
	m.changedInPlace()
	m.ownOnly(r)
	m.derive(r)
	m.lookup(r)
}

// setBy: the fields of the scope and of its registries that a method changes.
func (m *scopeModel) setBy(f *ssa.Function) []*types.Var {
	seen := map[*ssa.Function]bool{}
	got := map[*types.Var]bool{}
	var rec func(g *ssa.Function, depth int)
	note := func(v ssa.Value) {
		for depth := 0; depth < 6; depth++ {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				fv := fieldOf(x)
				if isFieldOf(fv, m.scope) || isFieldOf(fv, m.disp) {
					got[fv] = true
					return
				}
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			default:
				return
			}
		}
	}
	rec = func(g *ssa.Function, depth int) {
		if seen[g] || depth > 4 {
			return
		}
		seen[g] = true
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.Store:
				note(x.Addr)
			case *ssa.MapUpdate:
				note(x.Map)
			case ssa.CallInstruction:
				h := x.Common().StaticCallee()
				if h == nil || !m.w.inMod[h] {
					return
				}
				if n := recvNamed(h); n != nil && (n == m.scope || n == m.disp) {
					rec(h, depth+1)
				} else if n != nil && len(x.Common().Args) > 0 && isPointer(h.Signature.Recv().Type()) && m.changesReceiver(h) {
					note(x.Common().Args[0])
				}
				// a helper that is given the scope, or a map or list of it
				for k, p := range h.Params {
					if k >= len(x.Common().Args) || k == 0 && h.Signature.Recv() != nil {
						continue
					}
					if pn := namedOf(p.Type()); pn != nil && (pn == m.scope || pn == m.disp) && h.Signature.Results().Len() == 0 {
						rec(h, depth+1)
					}
					if _, isM := p.Type().Underlying().(*types.Map); isM {
						for _, ref := range *p.Referrers() {
							if mu, isU := ref.(*ssa.MapUpdate); isU && mu.Map == ssa.Value(p) {
								note(x.Common().Args[k])
							}
						}
					}
				}
			}
		})
		for _, a := range g.AnonFuncs {
			rec(a, depth)
		}
	}
	rec(f, 0)
	var out []*types.Var
	for v := range got {
		// locks and counters are not configuration
		if n := namedOf(v.Type()); n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
			continue
		}
		if n := namedOf(v.Type()); n != nil && n.Obj().Name() == "_destructors" || v == m.dispF {
			continue
		}
		if n, ok := v.Type().(*types.Named); ok && n.Obj().Pkg() == m.scope.Obj().Pkg() {
			continue // an inner bookkeeping struct
		}
		out = append(out, v)
	}
	return out
}

func (m *scopeModel) changesReceiver(h *ssa.Function) bool { return m.changesParam(h, 0, 0) }

// changesParam: the function stores to a field of what it is given
func (m *scopeModel) changesParam(h *ssa.Function, k, depth int) bool {
	if k >= len(h.Params) || depth > 4 {
		return false
	}
	ch := false
	eachInstr(h, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		switch s := i.(type) {
		case *ssa.Store:
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(h.Params[k]) {
				ch = true
			}
		case ssa.CallInstruction:
			if g := s.Common().StaticCallee(); g != nil && m.w.inMod[g] {
				for j, a := range s.Common().Args {
					if a == ssa.Value(h.Params[k]) && m.changesParam(g, j, depth+1) {
						ch = true
					}
				}
			}
		}
	})
	return ch
}

// changedInPlace: memory behind a field that is changed without being replaced: maps that are
// updated, slices that are appended to or stored into.
func (m *scopeModel) changedInPlace() {
	behind := func(v ssa.Value) *types.Var {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					return fieldOf(fa)
				}
				return nil
			case *ssa.Field:
				return x.X.Type().Underlying().(*types.Struct).Field(x.Field)
			case *ssa.Slice:
				if x.Max != nil {
					return nil // a full slice expression: appending moves it
				}
				v = x.X
			case *ssa.Phi:
				for _, e := range x.Edges {
					if ld, ok := e.(*ssa.UnOp); ok {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok {
							return fieldOf(fa)
						}
					}
				}
				return nil
			default:
				return nil
			}
		}
	}
	for _, f := range m.w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			var v *types.Var
			switch x := i.(type) {
			case *ssa.MapUpdate:
				v = behind(x.Map)
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					v = behind(ia.X)
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && len(x.Common().Args) > 0 {
					switch b.Name() {
					case "append", "delete", "copy", "clear":
						v = behind(x.Common().Args[0])
					}
				}
			}
			if v != nil && m.inPl[v] == "" {
				m.inPl[v] = m.w.instrPos(i)
			}
		})
	}
}

// ownOnly: the configuration of a scope is stored only by its own methods, on their receiver,
// or in a scope that was just made.
func (m *scopeModel) ownOnly(r *Report) {
	w := m.w
	type key struct{ f *types.Var }
	bad, n := map[*types.Var]string{}, map[*types.Var]int{}
	st := m.scope.Underlying().(*types.Struct)
	own := map[*types.Var]bool{m.dispF: true}
	for i := 0; i < st.NumFields(); i++ {
		if m.config[st.Field(i)] != "" {
			own[st.Field(i)] = true
		}
	}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !own[fieldOf(fa)] {
				return
			}
			v := fieldOf(fa)
			n[v]++
			for _, o := range w.origins(fa.X, true) {
				switch x := o.(type) {
				case *ssa.Alloc:
				case *ssa.Parameter:
					g := x.Parent()
					if g.Signature.Recv() == nil || x != g.Params[0] {
						bad[v] = w.instrPos(i)
					}
				default:
					bad[v] = w.instrPos(i)
				}
			}
		})
	}
	var fs []*types.Var
	for v := range own {
		fs = append(fs, v)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	for _, v := range fs {
		r.Ob("R4-own", "Scope."+v.Name(), w.Pos(v.Pos()), bad[v] == "", "the %s of a scope other than its own is changed at %s", v.Name(), bad[v])
	}
}

func (m *scopeModel) run(name string) (*interp, *ssa.Function, *term, *astate, string) {
	w := m.w
	f := w.methodNamed(m.scope, name)
	if f == nil {
		return nil, nil, nil, nil, "no method " + name
	}
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || g.Name() == "GetStats"
	}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, st := in.run(f, args, nil)
	if in.failed != "" {
		return in, f, nil, nil, in.failed
	}
	if st == nil {
		return in, f, nil, nil, "does not return"
	}
	self := args[0].only()
	if f.Signature.Results().Len() == 0 {
		return in, f, self, st, ""
	}
	t := rets[0].only()
	if t == nil {
		return in, f, nil, nil, "gives back one of several"
	}
	t = unbox(t)
	if t.op != "alloc" || namedOf(elemOf(t.typ)) != m.scope && namedOf(t.typ) != m.scope {
		return in, f, nil, nil, "does not give back a new scope but " + t.key
	}
	return in, f, t, st, ""
}

func (m *scopeModel) fieldIn(in *interp, st *astate, base *term, f *types.Var) *term {
	return in.one(in.load(st, in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{base}})))
}

func (m *scopeModel) derive(r *Report) {
	w := m.w
	var cfg []*types.Var
	for v := range m.config {
		cfg = append(cfg, v)
	}
	sort.Slice(cfg, func(i, j int) bool { return cfg[i].Name() < cfg[j].Name() })

	for _, name := range []string{"Copy", "NewScope", "ClearContext"} {
		in, f, made, st, why := m.run(name)
		rule := "R2-independent"
		if name == "Copy" {
			rule = "R1-nested"
		}
		if why != "" {
			r.Ob(rule, name, "scope", false, "%s", why)
			continue
		}
		self := in.param(f.Params[0].Name(), f.Params[0].Type())
		orig := newState()
		pos := w.Pos(f.Pos())
		newD, oldD := m.fieldIn(in, st, made, m.dispF), m.fieldIn(in, orig, self, m.dispF)
		if name == "Copy" {
			r.Ob(rule, name+" registries", pos, newD == oldD, "the registries of the nested scope are %s, not those of its parent", newD)
		} else {
			r.Ob("R3-apart", name+" registries", pos, newD != oldD && newD.op == "alloc", "the registries are %s: not new ones", newD)
		}
		for _, v := range cfg {
			want := scopeConfig[m.config[v]]
			if isFieldOf(v, m.scope) {
				src, dst := m.fieldIn(in, orig, self, v), m.fieldIn(in, st, made, v)
				how, why := m.carried(in, st, src, dst, v, v.Type())
				if name == "Copy" && want.nested || name == "NewScope" && want.independent {
					r.Ob(rule, name+" "+v.Name(), pos, how != "", "what %s set is not carried over: %s", m.config[v], why)
				}
				if name != "ClearContext" && m.inPl[v] != "" {
					r.Ob("R3-apart", name+" "+v.Name(), pos, how != "same", "the %s of the original are shared, and changed in place at %s", v.Name(), m.inPl[v])
				}
				if name == "ClearContext" {
					r.Ob(rule, name+" "+v.Name(), pos, dst == src, "%s is changed to %s", v.Name(), dst)
				}
				continue
			}
			if name == "Copy" || newD.op != "alloc" {
				continue
			}
			src, dst := m.fieldIn(in, orig, oldD, v), m.fieldIn(in, st, newD, v)
			how, why := m.carried(in, st, src, dst, v, v.Type())
			r.Ob("R2-independent", name+" "+v.Name(), pos, how != "", "what %s registered is not carried over: %s", m.config[v], why)
			apart, where := m.apart(in, src, dst, v, v.Type())
			r.Ob("R3-apart", name+" "+v.Name(), pos, apart, "memory is shared that is changed in place at %s", where)
		}
	}
}

// carried tells how the value dst of a field came from src: the same, a complete copy, or "".
func (m *scopeModel) carried(in *interp, st *astate, src, dst *term, v *types.Var, t types.Type) (how, why string) {
	if src == dst {
		return "same", ""
	}
	is := func(x *term) bool { return x == src }
	switch u := t.Underlying().(type) {
	case *types.Map:
		if dst.op == "call" && strings.HasSuffix(dst.str, "Clone") && len(dst.args) == 1 && is(dst.args[0]) {
			return "copy", ""
		}
		if dst.op != "makemap" {
			return "", "it is " + dst.key
		}
		for _, e := range in.evs("mapupdate") {
			if len(e.args) != 3 || e.args[0].only() != dst {
				continue
			}
			k, x := e.args[1].only(), e.args[2].only()
			overSrc := func(t *term, op string) bool {
				return t != nil && t.op == op && len(t.args) == 1 && t.args[0].op == "range" && len(t.args[0].args) == 1 && is(t.args[0].args[0])
			}
			if overSrc(k, "mapkey") && overSrc(x, "mapval") {
				all := true
				eachInstr(e.fn, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
					if nx, ok := i.(*ssa.Next); ok && nx.Block() != nil && reachableFrom(nx.Block(), true)[e.in.Block()] {
						if !m.w.everyTurn(nx, func(y ssa.Instruction) bool { return y == e.in }) {
							all = false
						}
					}
				})
				if all {
					return "copy", ""
				}
				return "", "not every entry is copied at " + m.w.instrPos(e.in)
			}
		}
		return "", "a new map that is not filled from the old one"
	case *types.Slice:
		if dst.op == "call" && strings.HasSuffix(dst.str, "Clone") && len(dst.args) == 1 && is(dst.args[0]) {
			return "copy", ""
		}
		if dst.op == "slice" && len(dst.args) == 4 && is(dst.args[0]) && dst.args[1].op == "absent" {
			l := func(x *term) bool { return x.op == "len" && is(x.args[0]) }
			if (dst.args[2].op == "absent" || l(dst.args[2])) && l(dst.args[3]) {
				return "copy", "" // appending moves it
			}
		}
		alts, copied := []*term{dst}, false
		if dst.op == "or" {
			alts = dst.args
		}
		for _, d := range alts {
			if freshEmpty(d) {
				continue
			}
			if d.op != "append" && d.op != "grow" || len(d.args) != 2 || !freshEmpty(d.args[0]) {
				copied = false
				break
			}
			if is(d.args[1]) && len(alts) == 1 {
				return "copy", ""
			}
			if l := d.args[1]; l.op == "list" && len(l.args) == 1 {
				if e := l.args[0]; e.op == "elem" && len(e.args) == 2 && is(e.args[0]) && fullRange(e.args[1]) {
					copied = true
					continue
				}
			}
			copied = false
			break
		}
		if copied {
			return "copy", ""
		}
		if dst.op == "makeslice" && len(dst.args) == 1 && dst.args[0].op == "len" && is(dst.args[0].args[0]) {
			for _, e := range in.evs("copy") {
				if len(e.args) == 2 && e.args[0].only() == dst && e.args[1].only() == src && len(e.facts) == 0 {
					return "copy", ""
				}
			}
			for _, e := range in.evs("store") {
				a := e.args[0].only()
				x := e.args[1].only()
				if a != nil && x != nil && a.op == "ia" && a.args[0] == dst && x.op == "elem" && is(x.args[0]) && a.args[1] == x.args[1] && fullRange(a.args[1]) {
					return "copy", ""
				}
			}
		}
		return "", "it is " + dst.key
	case *types.Struct:
		how = "same"
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			h, w := m.carried(in, st, in.fieldOfValue(src, f), in.fieldOfValue(dst, f), f, f.Type())
			if h == "" {
				return "", f.Name() + ": " + w
			}
			if h == "copy" {
				how = "copy"
			}
		}
		return how, ""
	}
	return "", "it is " + dst.key
}

// freshEmpty: a new slice without elements.
func freshEmpty(t *term) bool {
	switch t.op {
	case "nil", "zero":
		return true
	case "list":
		return len(t.args) == 0
	case "makeslice":
		return zeroConst(t.args[0])
	case "slice":
		return len(t.args) == 4 && (zeroConst(t.args[3]) || t.args[3].op == "absent" && zeroConst(t.args[2]) && freshEmpty(t.args[0]))
	case "append", "grow":
		return false
	}
	return false
}

func zeroConst(t *term) bool {
	n, ok := constInt(t)
	return ok && n == 0
}

// apart: the memory of dst that is changed in place is not that of src.
func (m *scopeModel) apart(in *interp, src, dst *term, v *types.Var, t types.Type) (bool, string) {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		if src == dst && m.inPl[v] != "" {
			return false, m.inPl[v]
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if ok, where := m.apart(in, in.fieldOfValue(src, f), in.fieldOfValue(dst, f), f, f.Type()); !ok {
				return false, where
			}
		}
	}
	return true, ""
}

// lookup runs Resolve for a variable that is present and one that is not.
func (m *scopeModel) lookup(r *Report) {
	w := m.w
	f := w.methodNamed(m.scope, "Resolve")
	if f == nil {
		r.Ob("R5-lookup", "Resolve", "scope", false, "no method Resolve")
		return
	}
	pos := w.Pos(f.Pos())
	var varsF *types.Var
	for v, n := range m.config {
		if n == "AppendVars" {
			varsF = v
		}
	}
	if varsF == nil {
		r.Ob("R5-lookup", "vars", pos, false, "the variables of a scope are not found")
		return
	}
	for _, present := range []string{"present", "absent", "nil"} {
		in := newInterp(w)
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
			return g == nil || g.Name() == "Associative" || g.Name() == "CheckForOverflow"
		}
		isLook := func(t *term) bool { return t.op == "call" && strings.HasSuffix(t.str, ".Associative") }
		in.assume = func(t *term) *term {
			switch {
			case t.op == "res" && t.str == "1" && isLook(t.args[0]):
				return in.boolean(present != "absent")
			case t.op == "call" && strings.HasSuffix(t.str, "CheckForOverflow"):
				return in.boolean(false)
			case t.op == "bin" && t.str == "==" && present != "present":
				for i := range t.args {
					if t.args[i].op == "nil" && t.args[1-i].op == "res" && isLook(t.args[1-i].args[0]) {
						return in.boolean(true)
					}
				}
			}
			return nil
		}
		var args []tset
		for _, p := range f.Params {
			args = append(args, tset{in.param(p.Name(), p.Type())})
		}
		rets, _ := in.run(f, args, nil)
		if in.failed != "" || len(rets) != 2 {
			r.Ob("R5-lookup", present, pos, false, "%s", in.failed)
			continue
		}
		isVars := func(t *term) bool {
			if t.op == "slice" && len(t.args) == 4 && t.args[1].op == "absent" && t.args[2].op == "absent" {
				t = t.args[0]
			}
			return t.op == "field" && t.fld == varsF
		}
		looks := 0
		var at *aevent
		ok, why := true, ""
		for _, e := range in.evs("call") {
			if e.name.name != "Associative" {
				continue
			}
			looks++
			at = e
			var row *term
			for _, a := range e.args {
				if t := a.only(); t != nil && t.op == "elem" {
					row = t
				}
			}
			if row == nil || !isVars(row.args[0]) {
				ok, why = false, fmt.Sprintf("what is looked at is not a variable of the scope, at %s", w.instrPos(e.in))
				continue
			}
			if present == "present" {
				if w1 := wholeLoop(row.args[1], e); w1 != "" {
					ok, why = false, w1
				}
				if !fromTheEnd(row.args[1], row.args[0]) {
					ok, why = false, fmt.Sprintf("the variables are not looked at from the newest on, at %s (%s)", w.instrPos(e.in), row.args[1])
				}
			}
		}
		if looks == 0 {
			ok, why = false, "no variable is looked at"
		}
		if ok && present == "present" {
			for _, e := range in.evs("back") {
				if e.fn == at.fn {
					ok, why = false, "an older variable is looked at although a newer one was found"
				}
			}
			for _, t := range rets[0] {
				if !(t.op == "res" && isLook(t.args[0])) && !isNullResult(t) && t.op != "zero" && !(t.op == "nil") {
					ok, why = false, "what is given back is "+t.key
				}
			}
		}
		if ok && present == "nil" {
			for _, t := range rets[0] {
				if termHas(t, isLook) {
					ok, why = false, "nil is let into the query: "+t.key
				}
			}
		}
		if ok && present == "absent" {
			back := false
			for _, e := range in.evs("back") {
				back = back || e.fn == at.fn
			}
			if !back {
				ok, why = false, "older variables are not looked at"
			}
			for _, t := range rets[1] {
				if v, isB := t.isBool(); !isB || v {
					ok, why = false, "a variable that no scope has is found: "+t.key
				}
			}
		}
		r.Ob("R5-lookup", present, pos, ok, "%s", why)
	}
}

// fromTheEnd: the index counts down from the last element.
func fromTheEnd(ix, list *term) bool {
	down := func(t *term) bool {
		if t.op != "ind" || len(t.args) != 2 {
			return false
		}
		st, ok := constInt(t.args[1])
		s := t.args[0]
		if !ok || st != -1 || s.op != "bin" || s.str != "-" || s.args[0].op != "len" {
			return false
		}
		c, ok := constInt(s.args[1])
		return ok && c == 1
	}
	if down(ix) {
		return true
	}
	// len - 1 - i for i from 0 on
	if ix.op == "bin" && ix.str == "-" && fullRange(ix.args[1]) {
		b := ix.args[0]
		if b.op == "bin" && b.str == "-" && b.args[0].op == "len" {
			c, ok := constInt(b.args[1])
			return ok && c == 1
		}
	}
	return false
}

// wholeLoop: the loop over the index goes on as long as there are elements.
func wholeLoop(ix *term, e *aevent) string {
	num := func(t *term, c int64) bool { n, ok := constInt(t); return ok && n == c }
	for _, f := range e.facts {
		t := f.t
		if t.op != "bin" || len(t.args) != 2 || !termHas(t, func(x *term) bool { return x.op == "ind" }) {
			continue
		}
		a, b := t.args[0], t.args[1]
		switch {
		case t.str == "<" && !f.val && a.op == "ind" && num(b, 0), t.str == "<=" && !f.val && a.op == "ind" && num(b, -1),
			t.str == "<=" && f.val && num(a, 0) && b.op == "ind", t.str == "<" && f.val && num(a, -1) && b.op == "ind",
			t.str == "==" && !f.val && a.op == "ind" && num(b, -1):
			return ""
		case t.str == "<" && f.val && fullRange(a) && b.op == "len", t.str == "<=" && !f.val && a.op == "len" && fullRange(b):
			return ""
		}
	}
	return "the loop does not go over all of the variables"
}
