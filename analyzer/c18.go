package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = check{run: runC18,
		explanation: "Interprocedural constant propagation over the argument parser, specialised to what a call passes: a required argument that is missing, an argument nobody declared, a value the converter refuses, one that cannot be assigned to the field, and nil. The table of declared arguments is specialised to every declared type in turn. Every converter is executed in the abstract on nil.",
		assumptions: []string{"the argument structs are the ones with vfilter tags; a type registered at run time with RegisterParser brings its own converter", "reflect behaves as documented: the methods of a zero Value other than IsValid, Kind and String panic, and Set panics unless the value is assignable"}}
}

// converter calls: dynamic calls of the type the FieldParser holds.
func (w *World) isConverterCall(c *ssa.CallCommon) bool {
	fp := w.fieldParserType()
	if fp == nil || c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	st, ok := fp.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if sig, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && types.Identical(sig, c.Signature()) {
			return true
		}
	}
	return false
}

// argEntries: the functions that fill a struct with the arguments of a call.
func (w *World) argEntries() []*ssa.Function {
	fp := w.fieldParserType()
	if fp == nil {
		return nil
	}
	calls := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		if f.Pkg == nil || f.Pkg.Pkg != fp.Obj().Pkg() {
			continue
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if c, ok := i.(ssa.CallInstruction); ok && w.isConverterCall(c.Common()) {
				calls[f] = true
			}
		})
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Fns {
			if calls[f] || f.Pkg == nil || f.Pkg.Pkg != fp.Obj().Pkg() {
				continue
			}
			eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && calls[c.Common().StaticCallee()] {
					calls[f], changed = true, true
				}
			})
		}
	}
	var out []*ssa.Function
	for f := range calls {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

type parseWorld struct {
	pres       int // 1 present, -1 absent
	required   int
	refused    int // the converter's error
	nilValue   bool
	assignable int
	noFields   bool
	undeclared int // 1: one argument more than was parsed, -1: none
	buildFails int
	endless    bool // there is always a further declared argument
	anyTurn    bool // others were passed before
}

func tri(in *interp, n int) *term {
	if n == 0 {
		return nil
	}
	return in.boolean(n > 0)
}

func (w *World) parseRun(f *ssa.Function, pw parseWorld) *parseRun {
	in := newInterp(w)
	in.anyTurn = pw.anyTurn
	fp := w.fieldParserType()
	// what looks the table up is not looked into
	table := func(g *ssa.Function) bool {
		if g == nil || g.Signature.Results().Len() == 0 {
			return false
		}
		n := namedOf(g.Signature.Results().At(0).Type())
		if n == nil || n.Obj().Pkg() != fp.Obj().Pkg() {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && namedOf(s.Elem()) == fp {
				return true
			}
		}
		return false
	}
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || table(g) || g.Pkg != f.Pkg || g.Name() == "NormalizeArgs"
	}
	tableErr := func(t *term) bool { return t.op == "param" && t.str == "no table" }
	conv := func(t *term) (string, bool) {
		if t.op == "param" && (t.str == "converted" || t.str == "refusal") {
			return map[string]string{"converted": "0", "refusal": "1"}[t.str], true
		}
		return "", false
	}
	count := func(t *term) bool {
		return t.op == "call" && strings.HasSuffix(t.str, "Dict.Len")
	}
	in.assume = func(t *term) *term {
		if t.fld != nil && t.op == "field" && isFieldOf(t.fld, fp) && types.Identical(t.fld.Type().Underlying(), types.Typ[types.Bool]) {
			return tri(in, pw.required)
		}
		switch t.op {
		case "res":
			if t.str == "1" && t.args[0].op == "call" && strings.HasSuffix(t.args[0].str, "Dict.Get") && pw.pres != 0 {
				return tri(in, pw.pres)
			}
		case "len":
			if fieldsLen(fp, t) && pw.noFields {
				return in.konst(constant.MakeInt64(0), types.Typ[types.Int])
			}
		case "call":
			if t.str == "Type.AssignableTo" {
				return tri(in, pw.assignable)
			}
		case "haskey":
			if pw.undeclared > 0 || pw.undeclared < 0 && t.args[0].op == "makemap" {
				return in.boolean(pw.undeclared < 0)
			}
		case "lookup":
			if pw.undeclared < 0 && t.args[0].op == "makemap" && t.typ != nil && types.Identical(t.typ.Underlying(), types.Typ[types.Bool]) {
				return in.boolean(true)
			}
		case "bin":
			if len(t.args) != 2 {
				return nil
			}
			a, b := t.args[0], t.args[1]
			for _, p := range [][2]*term{{a, b}, {b, a}} {
				if t.str == "==" && p[1].op == "nil" {
					if i, ok := conv(p[0]); ok && i == "1" && pw.refused != 0 {
						return in.boolean(pw.refused < 0)
					}
					if i, ok := conv(p[0]); ok && i == "0" {
						return in.boolean(false)
					}
					if tableErr(p[0]) {
						return in.boolean(pw.buildFails <= 0)
					}
				}
			}
			if t.str == "<" && b.op == "len" && fieldsLen(fp, b) && pw.endless {
				return in.boolean(true)
			}
			if pw.undeclared != 0 {
				switch {
				case pw.undeclared > 0 && f.Signature.Results().Len() == 1 && t.str == "<" && termHas(a, func(x *term) bool { return x.op == "ind" }) && b.op == "const":
					// the loop over the arguments that were passed
					return in.boolean(true)
				case t.str == "==" && (count(a) || count(b)):
					return in.boolean(pw.undeclared < 0)
				case t.str == "<" && count(b):
					return in.boolean(pw.undeclared > 0)
				case t.str == "<" && count(a):
					return in.boolean(false)
				}
			}
		}
		return nil
	}
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		id := callID(c)
		if pw.undeclared > 0 && id.recv == "Dict" {
			res := c.Signature().Results()
			if res.Len() == 1 {
				if s, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
					k := in.mk(term{op: "param", str: "undeclared", typ: s.Elem()})
					return []tset{{in.mk(term{op: "list", typ: res.At(0).Type(), args: []*term{k}})}}, true
				}
			}
		}
		if g != nil && g.Signature.Recv() == nil && g.Pkg != f.Pkg && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
			// a helper like InString reads what it is given
			if pw.undeclared != 0 {
				return []tset{{in.boolean(pw.undeclared < 0)}}, true
			}
			var ts []*term
			for _, a := range args {
				ts = append(ts, in.one(a))
			}
			return []tset{{in.mk(term{op: "call", str: g.Name(), typ: types.Typ[types.Bool], args: ts})}}, true
		}
		if g != nil && g.Name() == "NormalizeArgs" && len(args) == 1 {
			return []tset{args[0]}, true
		}
		res := c.Signature().Results()
		if g != nil && table(g) && res.Len() == 2 {
			return []tset{{in.param("table", res.At(0).Type())}, {in.param("no table", res.At(1).Type())}}, true
		}
		if w.isConverterCall(c) {
			v := in.param("converted", res.At(0).Type())
			if pw.nilValue {
				v = in.mk(term{op: "nil", typ: res.At(0).Type()})
			}
			return []tset{{v}, {in.param("refusal", res.At(1).Type())}}, true
		}
		return nil, false
	}
	pr := &parseRun{in: in, w: w, f: f, conv: conv, tableErr: tableErr, pw: pw}
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	pr.rets, _ = in.run(f, args, nil)
	return pr
}

type parseRun struct {
	in       *interp
	w        *World
	f        *ssa.Function
	pw       parseWorld
	rets     []tset
	conv     func(t *term) (string, bool)
	tableErr func(t *term) bool
}

// refuses: every return in this world is an error.
func (p *parseRun) refuses() (bool, string) {
	if p.in.failed != "" {
		return false, p.in.failed
	}
	if len(p.rets) == 0 {
		return false, "never returns"
	}
	for _, t := range p.rets[len(p.rets)-1] {
		if p.isError(t) {
			continue
		}
		return false, "the call is accepted (" + t.key + " is returned)"
	}
	return true, "refused"
}

func (p *parseRun) isError(t *term) bool {
	if p.in.neverNil(t) {
		return true
	}
	if i, ok := p.conv(t); ok && i == "1" && p.pw.refused > 0 {
		return true
	}
	return p.tableErr(t) && p.pw.buildFails > 0
}

func (p *parseRun) accepts() (bool, string) {
	if p.in.failed != "" {
		return false, p.in.failed
	}
	if len(p.rets) == 0 {
		return false, "never returns"
	}
	for _, t := range p.rets[len(p.rets)-1] {
		if t.op != "nil" && !p.tableErr(t) {
			return false, "the call may be refused (" + t.key + " is returned)"
		}
	}
	return true, "accepted"
}

func (p *parseRun) sets() []*aevent {
	var out []*aevent
	for _, e := range p.in.evs("call") {
		if e.name.pkg == "reflect" && e.name.recv == "Value" && strings.HasPrefix(e.name.name, "Set") {
			out = append(out, e)
		}
	}
	return out
}

func (p *parseRun) converterCalls() []*aevent {
	var out []*aevent
	for _, e := range p.in.evs("call") {
		if c, ok := e.in.(ssa.CallInstruction); ok && p.w.isConverterCall(c.Common()) {
			out = append(out, e)
		}
	}
	return out
}

// zeroValueUse: a method of a reflect.Value that holds nothing.
func zeroValueUse(w *World, in *interp) string {
	for _, e := range in.evs("call") {
		if e.name.pkg != "reflect" || len(e.args) == 0 {
			continue
		}
		for k, a := range e.args {
			for _, t := range a {
				if t.op != "rvalue" || t.str != "nil" {
					continue
				}
				if k == 0 && (e.name.name == "Kind" || e.name.name == "IsValid" || e.name.name == "String") {
					continue
				}
				return fmt.Sprintf("%s is called on the reflection of nil, at %s", e.name.name, w.instrPos(e.in))
			}
		}
	}
	return ""
}

func runC18(w *World, r *Report) {
	r.Rule("R1-required", "a call without a required argument is refused; an optional one may be missing", 1)
	r.Rule("R2-undeclared", "a call with an argument nobody declared is refused, or gets it in the dict of further arguments; one with none is accepted", 2)
	r.Rule("R3-refused", "a value the converter refuses, and a struct that is no table of arguments, refuse the call", 1)
	r.Rule("R4-assign", "a converted value is assigned to its own field, if it can be, and otherwise refused", 1)
	r.Rule("R5-nil", "nil is converted, or refused, without reflecting on it", 5)
	r.Rule("R6-converter", "every type that can be declared has one converter which produces it or refuses", 5)
	r.Rule("R7-table", "the table says which field an argument goes to, its name and whether it is required", 1)

	r.Rule("R8-list", "every item of a list becomes exactly one item of the list that is assigned, except that nil may be left out of a list of dicts", 1)

	fp := w.fieldParserType()
	entries := w.argEntries()
	if fp == nil || len(entries) == 0 {
		r.Ob("R1-required", "arg_parser", "-", false, "the functions that extract arguments were not found")
		return
	}
	for _, f := range entries {
		nm, pos := w.Name(f), w.Pos(f.Pos())
		// R1
		p := w.parseRun(f, parseWorld{pres: -1, required: 1, endless: true, anyTurn: true})
		ok, why := p.stopsAndRefuses()
		if ok && len(p.converterCalls()) > 0 {
			ok, why = false, "a converter runs for an argument that was not passed"
		}
		r.Ob("R1-required", nm+" missing", pos, ok, "%s", why)
		p = w.parseRun(f, parseWorld{pres: -1, required: -1, undeclared: -1})
		ok, why = p.accepts()
		if ok && (len(p.converterCalls()) > 0 || len(p.sets()) > 0) {
			ok, why = false, "a field is set though the argument was not passed"
		}
		r.Ob("R1-required", nm+" optional", pos, ok, "%s", why)

		// R2
		free := f.Signature.Results().Len() > 1
		for _, none := range []bool{true, false} {
			p = w.parseRun(f, parseWorld{pres: 1, refused: -1, assignable: 1, noFields: none, undeclared: 1})
			what := " with fields"
			if none {
				what = " without fields"
			}
			if free {
				ok, why = p.collects()
			} else {
				ok, why = p.refuses()
			}
			r.Ob("R2-undeclared", nm+what, pos, ok, "%s", why)
		}
		p = w.parseRun(f, parseWorld{pres: 1, refused: -1, assignable: 1, undeclared: -1})
		ok, why = p.accepts()
		r.Ob("R2-undeclared", nm+" exact", pos, ok, "%s", why)

		// R3
		p = w.parseRun(f, parseWorld{pres: 1, refused: 1, undeclared: -1, endless: true})
		ok, why = p.stopsAndRefuses()
		if ok && len(p.sets()) > 0 {
			ok, why = false, "a value that was refused is assigned at "+w.instrPos(p.sets()[0].in)
		}
		r.Ob("R3-refused", nm+" value", pos, ok, "%s", why)
		p = w.parseRun(f, parseWorld{buildFails: 1})
		ok, why = p.refuses()
		r.Ob("R3-refused", nm+" struct", pos, ok, "%s", why)

		// R4
		p = w.parseRun(f, parseWorld{pres: 1, refused: -1, assignable: 1, undeclared: -1})
		ok, why = p.assigned()
		r.Ob("R4-assign", nm+" assigned", pos, ok, "%s", why)
		p = w.parseRun(f, parseWorld{pres: 1, refused: -1, assignable: -1, undeclared: -1, endless: true})
		ok, why = p.stopsAndRefuses()
		for _, e := range p.sets() {
			if len(e.args) < 2 || !zeroOfType(e.args[1]) {
				ok, why = false, "a value that is not assignable to the field is assigned at "+w.instrPos(e.in)
			}
		}
		r.Ob("R4-assign", nm+" not assignable", pos, ok, "%s", why)

		// R5
		p = w.parseRun(f, parseWorld{pres: 1, refused: -1, nilValue: true, undeclared: -1})
		use := zeroValueUse(w, p.in)
		ok, why = p.in.failed == "" && use == "", use+p.in.failed
		r.Ob("R5-nil", nm+" converted to nil", pos, ok, "%s", why)
	}
	w.converters(r)
	w.argTableObs(r)
	w.listConverters(r)
}

// stopsAndRefuses: once a declared argument was looked at, there is no way to succeed.
func (p *parseRun) stopsAndRefuses() (bool, string) {
	if p.in.failed != "" {
		return false, p.in.failed
	}
	// the loop over the declared arguments must not go round
	fp := p.w.fieldParserType()
	for _, e := range p.in.evs("back") {
		blk := e.in.Block()
		if c, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If); ok && overFields(fp, c.Cond) {
			return false, "the call goes on with the next argument, at " + p.w.instrPos(e.in)
		}
	}
	return p.refuses()
}

// overFields: the loop is over the declared arguments.
func overFields(fp *types.Named, cond ssa.Value) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if c, ok := v.(*ssa.Call); ok && len(c.Call.Args) == 1 {
			if s, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok && namedOf(s.Elem()) == fp {
				return true
			}
		}
	}
	return false
}

// fieldsLen: the number of declared arguments.
func fieldsLen(fp *types.Named, t *term) bool {
	if t.op != "len" || len(t.args) != 1 || t.args[0].typ == nil {
		return false
	}
	s, ok := t.args[0].typ.Underlying().(*types.Slice)
	return ok && namedOf(s.Elem()) == fp
}

func (p *parseRun) collects() (bool, string) {
	if p.in.failed != "" {
		return false, p.in.failed
	}
	if len(p.rets) == 0 {
		return false, "never returns"
	}
	for _, t := range p.rets[len(p.rets)-1] {
		if t.op != "nil" && !p.tableErr(t) {
			return false, "the call is refused (" + t.key + ")"
		}
	}
	for _, e := range p.in.evs("call") {
		if e.name.recv == "Dict" && (e.name.name == "Set" || e.name.name == "Update") && len(e.args) == 3 {
			for _, t := range e.args[1] {
				if termHas(t, func(x *term) bool { return x.op == "param" && x.str == "undeclared" }) {
					return true, "collected at " + p.w.instrPos(e.in)
				}
			}
		}
	}
	return false, "an argument that is not declared is lost"
}

func zeroOfType(s tset) bool {
	for _, t := range s {
		if t.op != "call" || t.str != "reflect.Zero" {
			return false
		}
	}
	return len(s) > 0
}

func (p *parseRun) assigned() (bool, string) {
	if p.in.failed != "" {
		return false, p.in.failed
	}
	if len(p.converterCalls()) == 0 {
		return false, "no converter is called"
	}
	for _, e := range p.converterCalls() {
		// the value is the one passed for this argument
		okArg := false
		for _, a := range e.args {
			for _, t := range a {
				if termHas(t, func(x *term) bool { return x.op == "call" && strings.HasSuffix(x.str, "Dict.Get") }) {
					okArg = true
				}
			}
		}
		if !okArg {
			return false, "the converter called at " + p.w.instrPos(e.in) + " does not get the value that was passed"
		}
	}
	found := false
	for _, e := range p.sets() {
		if len(e.args) < 2 {
			continue
		}
		value, field := false, false
		for _, t := range e.args[1] {
			value = value || termHas(t, func(x *term) bool { _, ok := p.conv(x); return ok })
		}
		for _, t := range e.args[0] {
			field = field || termHas(t, func(x *term) bool {
				return x.op == "call" && x.str == "Value.Field" && len(x.args) == 2 && x.args[1].fld != nil && isFieldOf(x.args[1].fld, p.w.fieldParserType())
			})
		}
		if value && !field {
			return false, "the value is assigned to something other than its field, at " + p.w.instrPos(e.in)
		}
		found = found || value && field
	}
	if !found {
		return false, "the converted value is not assigned"
	}
	return true, "assigned"
}

// ---------------------------------------------------------------- converters

// declarable types: what the built-ins declare, and the plain kinds.
func (w *World) declarable() (out []types.Type, keys []string) {
	m := map[string]types.Type{}
	for _, a := range w.argStructs() {
		for _, f := range a.fields {
			m[typeKey(f.v.Type())] = f.v.Type()
		}
	}
	for _, k := range []types.BasicKind{types.String, types.Bool, types.Float64, types.Float32, types.Int64, types.Uint64, types.Int} {
		m[typeKey(types.Typ[k])] = types.Typ[k]
	}
	m["[]string"] = types.NewSlice(types.Typ[types.String])
	if a := w.typeNamed("types", "Any"); a != nil {
		m[typeKey(a)] = a
		m["[]"+typeKey(a)] = types.NewSlice(a)
	} else if p := w.pkgNamed("types"); p != nil {
		if tn, ok := p.Scope().Lookup("Any").(*types.TypeName); ok {
			m[typeKey(tn.Type())] = tn.Type()
			m["[]"+typeKey(tn.Type())] = types.NewSlice(tn.Type())
		}
	}
	for k, t := range w.argTable().exactTypes(w) {
		m[k] = t
		if _, ptr := t.(*types.Pointer); ptr {
			m["[]"+k] = types.NewSlice(t)
		}
	}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		out = append(out, m[k])
	}
	return
}

func (w *World) pkgNamed(name string) *types.Package {
	for _, p := range w.pkgList() {
		if p.Name() == name && w.isModPkg(p.Path()) {
			return p
		}
	}
	return nil
}

func (t *argTable) exactTypes(w *World) map[string]types.Type {
	out := map[string]types.Type{}
	for _, rt := range t.rt {
		if _, ok := t.exact[typeKey(rt)]; ok {
			out[typeKey(rt)] = rt
		}
	}
	return out
}

func (w *World) converters(r *Report) {
	tab := w.argTable()
	ts, keys := w.declarable()
	for i, T := range ts {
		key := keys[i]
		ps, unknown := w.parsersFor(tab, T)
		pos := "-"
		if len(ps) > 0 {
			pos = w.Pos(ps[0].Pos())
		}
		if unknown != "" || len(ps) != 1 {
			var ns []string
			for _, p := range ps {
				ns = append(ns, w.Name(p))
			}
			r.Ob("R6-converter", key, pos, false, "converters for %s: %s %s", key, strings.Join(ns, ", "), unknown)
			continue
		}
		ok, why := w.converterHolds(ps[0], T)
		r.Ob("R6-converter", key, pos, ok, "%s", why)
		in, _ := w.convert(ps[0], true, 0)
		use := zeroValueUse(w, in)
		if use == "" {
			use = nilReceiver(w, in)
		}
		r.Ob("R5-nil", key, pos, in.failed == "" && use == "", "%s: %s%s", w.Name(ps[0]), use, in.failed)
	}
}

// nilReceiver: a method called on the nil interface.
func nilReceiver(w *World, in *interp) string {
	for _, e := range in.evs("call") {
		c, ok := e.in.(ssa.CallInstruction)
		if !ok || !c.Common().IsInvoke() || len(e.args) == 0 {
			continue
		}
		for _, t := range e.args[0] {
			if t.op == "nil" {
				return fmt.Sprintf("%s is called on nil, at %s", e.name.name, w.instrPos(e.in))
			}
		}
	}
	return ""
}

func (w *World) convert(p *ssa.Function, isNil bool, numeric int) (*interp, []tset) {
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || w.isEvaluator(g) || numberOf(g) || g.Pkg != nil && g.Pkg != p.Pkg && !strings.HasPrefix(g.Name(), "Is")
	}
	in.assume = func(t *term) *term {
		if t.op == "res" && t.str == "1" && t.args[0].op == "call" && strings.HasPrefix(t.args[0].str, "utils.To") {
			return tri(in, numeric)
		}
		return nil
	}
	var args []tset
	for i, q := range p.Params {
		if isNil && i == len(p.Params)-1 {
			args = append(args, tset{in.mk(term{op: "nil", typ: q.Type()})})
			continue
		}
		args = append(args, tset{in.param(q.Name(), q.Type())})
	}
	rets, _ := in.run(p, args, nil)
	return in, rets
}

// numberOf: the conversions of package utils, which say whether they succeeded.
func numberOf(g *ssa.Function) bool {
	res := g.Signature.Results()
	return strings.HasPrefix(g.Name(), "To") && g.Signature.Recv() == nil && res.Len() == 2 && types.Identical(res.At(1).Type(), types.Typ[types.Bool])
}

func (w *World) converterHolds(p *ssa.Function, T types.Type) (bool, string) {
	in, rets := w.convert(p, false, 0)
	if in.failed != "" {
		return false, in.failed
	}
	if len(rets) != 2 || len(rets[0]) == 0 {
		return false, "no result"
	}
	_, isI := T.Underlying().(*types.Interface)
	for _, t := range rets[0] {
		if isI && w.staticallyFits(p, T) {
			break
		}
		if why := w.fits(in, t, T); why != "" {
			return false, w.Name(p) + " " + why
		}
	}
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 {
		return true, w.Name(p)
	}
	// a value that is no number is refused, one that is gets converted
	in, rets = w.convert(p, false, -1)
	for _, t := range rets[1] {
		if !in.neverNil(t) {
			return false, w.Name(p) + " accepts a value that is no number"
		}
	}
	in, rets = w.convert(p, false, 1)
	for _, t := range rets[1] {
		if t.op != "nil" {
			return false, w.Name(p) + " refuses a number"
		}
	}
	for _, t := range rets[0] {
		if !termHas(t, func(x *term) bool { return x.op == "res" && x.str == "0" && x.args[0].op == "call" }) {
			return false, w.Name(p) + " gives " + t.key + " for a number"
		}
	}
	return true, w.Name(p)
}

// staticallyFits: what is returned has a static type that implements T.
func (w *World) staticallyFits(p *ssa.Function, T types.Type) bool {
	I := T.Underlying().(*types.Interface)
	n, ok := 0, true
	eachInstr(p, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		ret, isRet := i.(*ssa.Return)
		if !isRet || len(ret.Results) == 0 {
			return
		}
		var vals []ssa.Value
		if phi, isPhi := ret.Results[0].(*ssa.Phi); isPhi {
			vals = phi.Edges
		} else {
			vals = []ssa.Value{ret.Results[0]}
		}
		for _, v := range vals {
			n++
			var D types.Type
			switch x := v.(type) {
			case *ssa.ChangeInterface:
				D = x.X.Type()
			case *ssa.MakeInterface:
				D = x.X.Type()
			case *ssa.Const:
				continue
			default:
				D = v.Type()
			}
			if !types.Implements(D, I) {
				ok = false
			}
		}
	})
	return ok && n > 0
}

// fits: a result can be assigned to a field of type T, if need be converted to the same kind.
func (w *World) fits(in *interp, t *term, T types.Type) string {
	if t.op == "nil" {
		return ""
	}
	if t.op == "⊤" {
		return "gives something that cannot be told"
	}
	D := t.typ
	if t.op == "iface" {
		D = t.typ
	} else if I, ok := T.Underlying().(*types.Interface); ok {
		if I.Empty() || D != nil && types.Implements(D, I) {
			return ""
		}
	}
	if D == nil {
		return "gives " + t.key
	}
	if types.AssignableTo(D, T) {
		return ""
	}
	kd, kt := kindOf(D), kindOf(T)
	floats := func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }
	if types.ConvertibleTo(D, T) && (kd == kt && kd != reflect.Invalid || floats(kd) && floats(kt)) {
		return ""
	}
	return fmt.Sprintf("gives %s for an argument of type %s", typeKey(D), typeKey(T))
}

// ---------------------------------------------------------------- table

func (w *World) argTableObs(r *Report) {
	fp := w.fieldParserType()
	for _, b := range w.parserBuilders() {
		pos := w.Pos(b.Pos())
		for _, required := range []bool{true, false} {
			in := newInterp(w)
			in.once = true
			isReq := func(t *term) bool {
				return t.op == "const" && t.cv.Kind() == constant.String && constant.StringVal(t.cv) == "required"
			}
			in.assume = func(t *term) *term {
				switch {
				case t.op == "haskey" && len(t.args) == 2 && isReq(t.args[1]):
					return in.boolean(required)
				case t.op == "bin" && t.str == "==" && (termHas(t.args[0], isReq) || termHas(t.args[1], isReq)):
					return in.boolean(required)
				case t.op == "call" && len(t.args) == 2 && isReq(t.args[1]) && (strings.HasSuffix(t.str, "Contains") || strings.HasSuffix(t.str, "InString")):
					return in.boolean(required)
				}
				return nil
			}
			var args []tset
			for _, p := range b.Params {
				args = append(args, tset{in.param(p.Name(), p.Type())})
			}
			in.run(b, args, nil)
			seen, ok, why := 0, in.failed == "", in.failed
			idx, name := 0, 0
			for _, e := range in.evs("store") {
				a := e.args[0].only()
				if a == nil || a.op != "fa" || !isFieldOf(a.fld, fp) {
					continue
				}
				switch u := a.fld.Type().Underlying().(type) {
				case *types.Basic:
					switch {
					case u.Info()&types.IsBoolean != 0:
						seen++
						for _, t := range e.args[1] {
							if v, isb := t.isBool(); !isb || v != required {
								ok, why = false, fmt.Sprintf("for a tag which says required=%v, %s is stored at %s", required, t.key, w.instrPos(e.in))
							}
						}
					case u.Info()&types.IsInteger != 0:
						idx++
						if why := w.fieldIndex(in, e); why != "" && required {
							r.Ob("R7-table", w.Name(b)+" index", w.instrPos(e.in), false, "%s", why)
						} else if required {
							r.Ob("R7-table", w.Name(b)+" index", w.instrPos(e.in), true, "the index of the field whose tag is read")
						}
					case u.Info()&types.IsString != 0:
						name++
						good := false
						for _, t := range e.args[1] {
							good = good || termHas(t, func(x *term) bool {
								return x.op == "const" && x.cv.Kind() == constant.String && strings.HasPrefix(constant.StringVal(x.cv), "field") || x.fld != nil && x.fld.Name() == "Name"
							})
						}
						if required {
							r.Ob("R7-table", w.Name(b)+" name", w.instrPos(e.in), good, "the name stored is %s", e.args[1])
						}
					}
				}
			}
			if seen == 0 {
				ok, why = false, "it is never recorded whether an argument is required"
			}
			r.Ob("R7-table", fmt.Sprintf("%s required=%v", w.Name(b), required), pos, ok, "%s", why)
			if required && (idx == 0 || name == 0) {
				r.Ob("R7-table", w.Name(b)+" complete", pos, false, "the name or the index of the field is never recorded")
			}
		}
	}
}

// fieldIndex: the index stored is the one of the struct field that is read.
func (w *World) fieldIndex(in *interp, e *aevent) string {
	var got []string
	for _, c := range in.evs("call") {
		if c.name.name == "Field" && c.name.pkg == "reflect" && len(c.args) == 2 {
			if sameSet(c.args[1], e.args[1]) {
				return ""
			}
			got = append(got, c.args[1].String())
		}
	}
	return fmt.Sprintf("the index stored is %s, the field that is read has index %s", e.args[1], strings.Join(got, ", "))
}

// ---------------------------------------------------------------- lists

func (w *World) listConverters(r *Report) {
	tab := w.argTable()
	done := map[string]bool{}
	ts, _ := w.declarable()
	for _, T := range ts {
		sl, ok := T.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		_, iface := sl.Elem().Underlying().(*types.Interface)
		b, isB := sl.Elem().Underlying().(*types.Basic)
		must := iface || isB && b.Info()&types.IsString != 0
		ps, _ := w.parsersFor(tab, T)
		for _, p := range ps {
			for g := range reachableLocal(w, p) {
				for _, l := range appendLoops(g, sl.Elem()) {
					key := w.Name(g) + " " + typeKey(T)
					if done[key] {
						continue
					}
					done[key] = true
					min, max, at := appendsPerTurn(l)
					ok, why := true, "one for each"
					switch {
					case max > 1:
						ok, why = false, "an item may be added twice, at "+w.instrPos(at)
					case must && min < 1:
						ok, why = false, "an item may be left out"
					}
					r.Ob("R8-list", key, w.Pos(g.Pos()), ok, "%s", why)
				}
			}
		}
	}
}

// appendLoops: headers of the innermost loops of f in which values of type elem are appended.
func appendLoops(f *ssa.Function, elem types.Type) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	eachInstr(f, func(b *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if !isAppendOf(i, elem) {
			return
		}
		var best *ssa.BasicBlock
		for _, h := range f.Blocks {
			if !isHeader(h) || !h.Dominates(b) || !partOfLoop(h, b) {
				continue
			}
			if best == nil || best.Dominates(h) {
				best = h
			}
		}
		if best != nil && !seen[best] {
			seen[best] = true
			out = append(out, best)
		}
	})
	return out
}

func isAppendOf(i ssa.Instruction, elem types.Type) bool {
	c, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	s, ok := c.Type().Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), elem)
}

// partOfLoop: b is part of the loop with header h.
func partOfLoop(h, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == h {
			return true
		}
		if seen[x] || !h.Dominates(x) {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	if b == h {
		return true
	}
	return rec(b)
}

// appendsPerTurn: how often something is appended from one arrival at the header to the next.
func appendsPerTurn(h *ssa.BasicBlock) (min, max int, at ssa.Instruction) {
	min, max = 1<<20, -1
	count := func(b *ssa.BasicBlock) (n int, last ssa.Instruction) {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					n++
					last = i
				}
			}
		}
		return
	}
	var walk func(b *ssa.BasicBlock, n int, last ssa.Instruction, on map[*ssa.BasicBlock]bool)
	walk = func(b *ssa.BasicBlock, n int, last ssa.Instruction, on map[*ssa.BasicBlock]bool) {
		k, l := count(b)
		n += k
		if l != nil {
			last = l
		}
		for _, s := range b.Succs {
			if s == h {
				if n < min {
					min = n
				}
				if n > max {
					max, at = n, last
				}
				continue
			}
			if on[s] || !partOfLoop(h, s) {
				continue
			}
			on[s] = true
			walk(s, n, last, on)
			delete(on, s)
		}
	}
	walk(h, 0, nil, map[*ssa.BasicBlock]bool{h: true})
	return
}
