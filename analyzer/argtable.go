package main

// The argument parser: which function converts the value a query passes for a declared
// argument of a given type.

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *World) fieldParserType() *types.Named { return w.typeNamed("arg_parser", "FieldParser") }

// builders store a converter in a FieldParser.
func (w *World) parserBuilders() []*ssa.Function {
	fp := w.fieldParserType()
	if fp == nil {
		return nil
	}
	found := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function, v ssa.Value, depth int)
	mark = func(f *ssa.Function, v ssa.Value, depth int) {
		// What is handed a FieldParser to fill in is part of what hands it over.
		os := w.origins(v, false)
		if p, ok := os[0].(*ssa.Parameter); ok && len(os) == 1 && depth < 4 && w.directOnly(f) && len(w.callers[f]) > 0 {
			for _, ci := range w.callers[f] {
				if k := paramIndex(p); k < len(ci.Common().Args) {
					mark(ci.Parent(), ci.Common().Args[k], depth+1)
				}
			}
			return
		}
		found[f] = true
	}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == fp {
					if _, ok := fieldOf(fa).Type().Underlying().(*types.Signature); ok {
						mark(f, fa.X, 0)
					}
				}
			}
		})
	}
	var out []*ssa.Function
	for _, f := range w.Fns {
		if found[f] {
			out = append(out, f)
		}
	}
	return out
}

// rtypeGlobals: package variables that hold the reflect.Type of a known type.
func (w *World) rtypeGlobals() map[string]types.Type {
	out := map[string]types.Type{}
	for _, p := range w.SSA {
		ini := p.Func("init")
		if ini == nil {
			continue
		}
		eachInstr(ini, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok || !isNamedType(s.Val.Type(), "reflect", "Type") {
				return
			}
			if t := staticRtype(s.Val); t != nil {
				out[p.Pkg.Name()+"."+g.Name()] = t
			}
		})
	}
	return out
}

// staticRtype: the Go type a reflect.Type expression denotes, if it is known.
func staticRtype(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.Extract:
		return staticRtype(x.Tuple)
	case *ssa.Call:
		id := callID(&x.Call)
		switch {
		case id.pkg == "reflect" && id.name == "TypeOf":
			if m, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
				return m.X.Type()
			}
		case id.pkg == "reflect" && id.name == "Type" && len(x.Call.Args) == 1:
			if c, ok := x.Call.Args[0].(*ssa.Call); ok {
				if d := callID(&c.Call); d.pkg == "reflect" && d.name == "ValueOf" {
					if m, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
						return m.X.Type()
					}
				}
			}
		case id.pkg == "reflect" && id.name == "Elem" && x.Call.IsInvoke():
			if t := staticRtype(x.Call.Value); t != nil {
				return elemType(t)
			}
		case id.pkg == "reflect" && id.name == "TypeFor":
			if f := x.Call.StaticCallee(); f != nil && len(f.TypeArgs()) == 1 {
				return f.TypeArgs()[0]
			}
		}
	case *ssa.UnOp:
		// (t.Field(n)).Type
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldOf(fa).Name() == "Type" && isNamedType(fa.X.Type(), "reflect", "StructField") {
			if a, ok := fa.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						return structFieldType(s.Val)
					}
				}
			}
		}
	case *ssa.Field:
		if isNamedType(x.X.Type(), "reflect", "StructField") {
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.Field(x.Field).Name() == "Type" {
				return structFieldType(x.X)
			}
		}
	}
	return nil
}

func structFieldType(v ssa.Value) types.Type {
	c, ok := v.(*ssa.Call)
	if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Field" || len(c.Call.Args) != 1 {
		return nil
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok {
		return nil
	}
	t := staticRtype(c.Call.Value)
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	n, exact := constant.Int64Val(k.Value)
	if !ok || !exact || n < 0 || int(n) >= st.NumFields() {
		return nil
	}
	return st.Field(int(n)).Type()
}

type argTable struct {
	rt       map[string]types.Type
	builders []*ssa.Function
	exact    map[string][]*ssa.Function // typeKey -> converter registered for the type
	maps     map[string]bool            // the globals that hold these
}

func (w *World) argTable() *argTable {
	t := &argTable{rt: w.rtypeGlobals(), builders: w.parserBuilders(), exact: map[string][]*ssa.Function{}, maps: map[string]bool{}}
	fp := w.fieldParserType()
	if fp == nil || len(t.builders) == 0 {
		return t
	}
	// map[reflect.Type]converter built by the package itself
	for _, f := range w.Fns {
		if f.Pkg == nil || f.Pkg.Pkg != fp.Obj().Pkg() {
			continue
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			switch x := i.(type) {
			case *ssa.MapUpdate:
				if !isNamedType(x.Key.Type(), "reflect", "Type") {
					return
				}
				var T types.Type
				if u, ok := x.Key.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						T = t.rt[g.Pkg.Pkg.Name()+"."+g.Name()]
					}
				}
				if T == nil {
					T = staticRtype(x.Key)
				}
				if T == nil {
					return
				}
				for _, o := range w.origins(x.Value, true) {
					for {
						if c, ok := o.(*ssa.ChangeType); ok {
							o = c.X
							continue
						}
						break
					}
					if fn, ok := o.(*ssa.Function); ok {
						t.exact[typeKey(T)] = append(t.exact[typeKey(T)], fn)
					}
				}
			}
		})
	}
	return t
}

// parsersFor lists the converters used for a declared argument of type T; none if it is
// refused. unknown is set if that cannot be told.
func (w *World) parsersFor(t *argTable, T types.Type) (out []*ssa.Function, unknown string) {
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range t.builders {
		in := newInterp(w)
		in.once = true
		reg := t.exact[typeKey(T)]
		in.assume = func(x *term) *term {
			switch x.op {
			case "field":
				if x.str == "Type" && isNamedType(x.typ, "reflect", "Type") {
					return in.rtype(T)
				}
			case "gval":
				if g, ok := t.rt[x.str]; ok {
					return in.rtype(g)
				}
			case "haskey":
				if len(x.args) == 2 && strings.HasPrefix(x.args[1].key, "iface:rtype") {
					return in.boolean(len(reg) > 0)
				}
			case "lookup":
				if len(x.args) == 2 && strings.HasPrefix(x.args[1].key, "iface:rtype") && len(reg) > 0 {
					return in.mk(term{op: "func", str: reg[0].String(), fn: reg[0], typ: reg[0].Signature})
				}
			}
			return nil
		}
		var args []tset
		for _, p := range b.Params {
			args = append(args, tset{in.param(p.Name(), p.Type())})
		}
		in.run(b, args, nil)
		if in.failed != "" {
			return nil, in.failed
		}
		for _, e := range in.evs("store") {
			a := e.args[0].only()
			if a == nil || a.op != "fa" || a.fld == nil {
				continue
			}
			if _, ok := a.fld.Type().Underlying().(*types.Signature); !ok || !isFieldOf(a.fld, w.fieldParserType()) {
				continue
			}
			for _, v := range e.args[1] {
				for v.op == "conv" {
					v = v.args[0]
				}
				switch {
				case v.op == "func" && v.fn != nil:
					add(v.fn)
				case v.op == "closure" && v.fn != nil:
					add(v.fn)
				default:
					return nil, "the converter stored at " + w.instrPos(e.in) + " is " + v.key
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out, ""
}

func isFieldOf(f *types.Var, n *types.Named) bool {
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return true
		}
	}
	return false
}

// argStruct is a struct that declares the arguments of a built-in.
type argStruct struct {
	named  *types.Named
	fields []argField
}

type argField struct {
	v        *types.Var
	name     string
	required bool
	raw      string
}

func (w *World) argStructs() []argStruct {
	var out []argStruct
	for _, p := range w.pkgList() {
		names := p.Scope().Names()
		for _, nm := range names {
			tn, ok := p.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if a := argFields(n); len(a) > 0 {
				out = append(out, argStruct{named: n, fields: a})
			}
		}
	}
	return out
}

func argFields(n *types.Named) []argField {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []argField
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("vfilter")
		if tag == "" || tag == "-" {
			continue
		}
		a := argField{v: st.Field(i), name: st.Field(i).Name(), raw: tag}
		for _, d := range strings.Split(tag, ",") {
			if d == "required" {
				a.required = true
			}
			if strings.HasPrefix(d, "field=") {
				a.name = strings.TrimPrefix(d, "field=")
			}
		}
		out = append(out, a)
	}
	return out
}

func (w *World) pkgList() []*types.Package {
	var out []*types.Package
	for _, p := range w.SSA {
		out = append(out, p.Pkg)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Path() < out[j].Path() })
	return out
}
