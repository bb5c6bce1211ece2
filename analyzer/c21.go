package main

// C12 and C21: the operators on numbers, decided by specialising each operator to every
// pair of numeric types.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = check{run: runC21,
		explanation: "For every operator and every pair of Go numeric types the operator is specialised to operands of those types by interprocedural constant propagation with value numbering. Arithmetic must give one term: the operation on the two operands, widened without loss and in the right order, in whole numbers if both are whole and in floating point otherwise. Comparisons must give the outcome of the comparison of the widened operands, in each of the possible orderings.",
		assumptions: []string{"An unsigned 64 bit number fits in a signed one", "Whole-number overflow wraps as in Go"}}
	checks["C12"] = check{run: runC12,
		explanation: "Division is specialised to every pair of numeric types and to a zero and a non-zero divisor and dividend. Each place which divides whole numbers, repeats a string or joins strings of unknown length is an obligation: the facts established on every path to it must bound it.",
		assumptions: []string{"The length of one string is below 2^62", "Custom protocol implementations bound what they build"}}
}

type dispatcher struct {
	typ    *types.Named
	field  *types.Var
	iface  *types.Named
	impl   *types.Interface
	ops    map[string]*ssa.Function // by method name
	copy   *ssa.Function
	addImp []*ssa.Function
}

// dispatchers lists the structs that hold implementations of a protocol: a slice of an
// interface that has a method Applicable.
func (w *World) dispatchers() []*dispatcher {
	var out []*dispatcher
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				sl, ok := types.Unalias(st.Field(i).Type()).(*types.Slice)
				if !ok {
					continue
				}
				in := namedOf(sl.Elem())
				if in == nil {
					continue
				}
				it, ok := in.Underlying().(*types.Interface)
				if !ok {
					continue
				}
				d := &dispatcher{typ: n, field: st.Field(i), iface: in, impl: it, ops: map[string]*ssa.Function{}}
				has := false
				for k := 0; k < it.NumMethods(); k++ {
					m := it.Method(k).Name()
					if m == "Applicable" {
						has = true
						continue
					}
					if f := w.methodNamed(n, m); f != nil {
						d.ops[m] = f
					}
				}
				if has && len(d.ops) > 0 {
					d.copy = w.methodNamed(n, "Copy")
					out = append(out, d)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].typ.Obj().Name() < out[j].typ.Obj().Name() })
	return out
}

var numKinds = []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64,
	types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64}

func isFloatKind(k types.BasicKind) bool { return k == types.Float32 || k == types.Float64 }

func bitsOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32:
		return 32
	}
	return 64
}

// exactView: the operand a term is, seen through conversions which keep its value.
func exactView(t *term) string {
	switch t.op {
	case "param":
		return t.str
	case "conv":
		s := exactView(t.args[0])
		if s == "" {
			return ""
		}
		to, ok1 := t.typ.Underlying().(*types.Basic)
		if t.args[0].typ == nil {
			return ""
		}
		from, ok2 := t.args[0].typ.Underlying().(*types.Basic)
		if !ok1 || !ok2 {
			return ""
		}
		ff, tf := from.Info()&types.IsFloat != 0, to.Info()&types.IsFloat != 0
		switch {
		case ff && !tf:
			return ""
		case tf:
			if bitsOf(to) == 64 || ff && bitsOf(from) == 32 {
				return s
			}
			return ""
		}
		fu, tu := from.Info()&types.IsUnsigned != 0, to.Info()&types.IsUnsigned != 0
		if !tu && bitsOf(to) == 64 {
			return s
		}
		if fu == tu && bitsOf(to) >= bitsOf(from) {
			return s
		}
		if fu && !tu && bitsOf(to) > bitsOf(from) {
			return s
		}
	}
	return ""
}

func unbox(t *term) *term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

func isNullTerm(w *World, t *term) bool {
	if t.op != "iface" {
		return false
	}
	n := namedOf(elemOf(t.typ))
	return n != nil && n.Obj().Name() == "Null"
}

func (w *World) runOp(f *ssa.Function, a, b *term, assume func(in *interp) func(*term) *term) (*interp, tset) {
	in := newInterp(w)
	if assume != nil {
		in.assume = assume(in)
	}
	sig := f.Signature
	args := []tset{{in.param("self", sig.Recv().Type())}}
	ops := []*term{a, b}
	k := 0
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if isEmptyIface(p.Type()) && k < len(ops) && ops[k] != nil {
			args = append(args, tset{ops[k]})
			k++
			continue
		}
		args = append(args, tset{in.param("p_"+p.Name(), p.Type())})
	}
	rets, _ := in.run(f, args, nil)
	if len(rets) == 0 {
		return in, nil
	}
	return in, rets[0]
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (w *World) numTerm(name string, k types.BasicKind) *term {
	in := newInterp(w)
	t := types.Typ[k]
	return in.iface(t, in.param(name, t))
}

func runC21(w *World, r *Report) {
	r.Rule("R1-arithmetic", "the operator on two numbers of any widths is the operation on their exact values", 200)
	r.Rule("R2-comparison", "the operator on two numbers of any widths is the comparison of their exact values", 151)
	r.Rule("R3-null", "NULL on either side of arithmetic gives NULL", 20)
	r.Rule("R4-truth", "the truth of a positive number of any width is true and that of zero false", 4)
	r.Rule("R5-operators", "each arithmetic and comparison operator has a function that evaluates it", 2)

	want := map[string]string{"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Lt": "<", "Gt": ">", "Eq": "=="}
	found := map[string]*ssa.Function{}
	for _, d := range w.dispatchers() {
		for m, f := range d.ops {
			if want[m] != "" || m == "Bool" {
				found[m] = f
			}
		}
	}
	for _, m := range []string{"Add", "Sub", "Mul", "Div", "Lt", "Gt", "Eq", "Bool"} {
		f := found[m]
		if f == nil {
			r.Ob("R5-operators", m, "", false, "nothing evaluates %s", m)
			continue
		}
		r.Ob("R5-operators", m, w.Pos(f.Pos()), true, "evaluated by %s", w.Name(f))
		if m == "Bool" {
			for _, k := range numKinds {
				ok, why := w.truthHolds(f, k)
				r.Ob("R4-truth", types.Typ[k].Name(), w.Pos(f.Pos()), ok, "%s", why)
			}
			continue
		}
		arith := m == "Add" || m == "Sub" || m == "Mul" || m == "Div"
		for _, ka := range numKinds {
			for _, kb := range numKinds {
				key := fmt.Sprintf("%s(%s,%s)", m, types.Typ[ka].Name(), types.Typ[kb].Name())
				if arith {
					ok, why := w.arithHolds(f, m, want[m], ka, kb)
					r.Ob("R1-arithmetic", key, w.Pos(f.Pos()), ok, "%s", why)
				} else {
					ok, why := w.compareHolds(f, want[m], ka, kb)
					r.Ob("R2-comparison", key, w.Pos(f.Pos()), ok, "%s", why)
				}
			}
		}
		if arith {
			in := newInterp(w)
			nulls := map[string]*term{"nil": in.mk(term{op: "nil"})}
			if n := w.typeNamed("types", "Null"); n != nil {
				nulls["Null"] = in.iface(n, in.mk(term{op: "zero", typ: n}))
				nulls["*Null"] = in.iface(types.NewPointer(n), in.param("null", types.NewPointer(n)))
			}
			for _, nm := range []string{"nil", "Null", "*Null"} {
				nt := nulls[nm]
				if nt == nil {
					continue
				}
				for _, k := range []types.BasicKind{types.Int64, types.Uint8, types.Float64} {
					for _, left := range []bool{true, false} {
						a, b := nt, w.numTerm("b", k)
						key := fmt.Sprintf("%s(%s,%s)", m, nm, types.Typ[k].Name())
						if !left {
							a, b = w.numTerm("a", k), nt
							key = fmt.Sprintf("%s(%s,%s)", m, types.Typ[k].Name(), nm)
						}
						in, got := w.runOp(f, a, b, noImpls)
						ok := in.failed == "" && len(got) > 0
						for _, t := range got {
							if !isNullTerm(w, t) {
								ok = false
							}
						}
						r.Ob("R3-null", key, w.Pos(f.Pos()), ok, "gives %s %s", got, in.failed)
					}
				}
			}
		}
	}
}

// noImpls: no custom implementation is applicable.
func noImpls(in *interp) func(*term) *term {
	return func(t *term) *term {
		if t.op == "call" && len(t.str) > 11 && t.str[len(t.str)-11:] == ".Applicable" {
			return in.boolean(false)
		}
		return nil
	}
}

func (w *World) arithHolds(f *ssa.Function, m, op string, ka, kb types.BasicKind) (bool, string) {
	in, got := w.runOp(f, w.numTerm("a", ka), w.numTerm("b", kb), func(in *interp) func(*term) *term {
		no := noImpls(in)
		return func(t *term) *term {
			if m == "Div" && t.op == "bin" && t.str == "==" {
				for i, x := range t.args {
					if isZeroConst(t.args[1-i]) && exactView(x) == "b" {
						return in.boolean(false)
					}
				}
			}
			return no(t)
		}
	})
	if in.failed != "" {
		return false, in.failed
	}
	if len(got) != 1 {
		return false, fmt.Sprintf("can give %s", got)
	}
	t := unbox(got[0])
	if t.op != "bin" || t.str != op {
		return false, fmt.Sprintf("gives %s", got[0])
	}
	l, r := exactView(t.args[0]), exactView(t.args[1])
	if !(l == "a" && r == "b" || (op == "+" || op == "*") && l == "b" && r == "a") {
		return false, fmt.Sprintf("gives %s, not a %s b", got[0], op)
	}
	float := isFloatKind(ka) || isFloatKind(kb) || m == "Div"
	bt, ok := t.typ.Underlying().(*types.Basic)
	if !ok || bitsOf(bt) != 64 || (bt.Info()&types.IsFloat != 0) != float {
		return false, fmt.Sprintf("is computed as %s", typeKey(t.typ))
	}
	return true, got[0].key
}

func isZeroConst(t *term) bool {
	return t.op == "const" && (t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float) && constant.Sign(t.cv) == 0
}

func (w *World) compareHolds(f *ssa.Function, op string, ka, kb types.BasicKind) (bool, string) {
	float := isFloatKind(ka) || isFloatKind(kb)
	for _, rel := range []string{"less", "equal", "greater"} {
		in, got := w.runOp(f, w.numTerm("a", ka), w.numTerm("b", kb), func(in *interp) func(*term) *term {
			no := noImpls(in)
			return func(t *term) *term {
				if t.op == "bin" && (t.str == "<" || t.str == "<=" || t.str == "==") {
					l, r := exactView(t.args[0]), exactView(t.args[1])
					if l == "" || r == "" || l == r {
						return nil
					}
					if bt, ok := t.typ.Underlying().(*types.Basic); !ok || (bt.Info()&types.IsFloat != 0) != float {
						return nil
					}
					re := rel
					if l == "b" {
						re = map[string]string{"less": "greater", "greater": "less", "equal": "equal"}[rel]
					}
					return in.boolean(re == "less" && t.str != "==" || re == "equal" && t.str != "<")
				}
				return no(t)
			}
		})
		want := op == "<" && rel == "less" || op == ">" && rel == "greater" || op == "==" && rel == "equal"
		if bad := boolResult(in, got, want); bad != "" {
			return false, fmt.Sprintf("with a %s b, a %s b %s", rel2(rel), op, bad)
		}
	}
	return true, "three orderings"
}

func (w *World) truthHolds(f *ssa.Function, k types.BasicKind) (bool, string) {
	for _, pos := range []bool{true, false} {
		in, got := w.runOp(f, w.numTerm("a", k), nil, func(in *interp) func(*term) *term {
			no := noImpls(in)
			return func(t *term) *term {
				if t.op == "bin" {
					l, r := t.args[0], t.args[1]
					switch {
					case t.str == "<" && isZeroConst(l) && exactView(r) == "a":
						return in.boolean(pos)
					case t.str == "<" && isZeroConst(r) && exactView(l) == "a":
						return in.boolean(false)
					case t.str == "<=" && isZeroConst(r) && exactView(l) == "a":
						return in.boolean(!pos)
					case t.str == "<=" && isZeroConst(l) && exactView(r) == "a":
						return in.boolean(true)
					case t.str == "==" && (isZeroConst(l) && exactView(r) == "a" || isZeroConst(r) && exactView(l) == "a"):
						return in.boolean(!pos)
					}
				}
				return no(t)
			}
		})
		if bad := boolResult(in, got, pos); bad != "" {
			return false, fmt.Sprintf("the truth of a number, positive: %v, %s", pos, bad)
		}
	}
	return true, "zero and positive"
}

// ---------------------------------------------------------------- C12

func runC12(w *World, r *Report) {
	r.Rule("R1-zero", "dividing by zero gives NULL and dividing by anything else gives the quotient", 50)
	r.Rule("R2-divide", "a whole-number division or remainder is reached only with a divisor that is not zero", 0)
	r.Rule("R3-repeat", "a string is repeated only a non-negative number of times, within a fixed bound on the length", 1)
	r.Rule("R4-join", "two strings given by the query are joined only within a fixed bound on the length", 1)

	for _, d := range w.dispatchers() {
		for m, f := range d.ops {
			if m == "Div" {
				for _, ka := range numKinds {
					for _, kb := range numKinds {
						key := fmt.Sprintf("%s/%s", types.Typ[ka].Name(), types.Typ[kb].Name())
						ok, why := w.divHolds(f, ka, kb)
						r.Ob("R1-zero", key, w.Pos(f.Pos()), ok, "%s", why)
					}
				}
			}
		}
	}
	for _, d := range w.dispatchers() {
		var ms []string
		for m := range d.ops {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if m != "Add" && m != "Mul" && m != "Sub" && m != "Div" {
				continue
			}
			f := d.ops[m]
			for _, tv := range []string{"string", "int64", "float64"} {
				var basic types.Type
				for _, b := range types.Typ {
					if b != nil && b.Name() == tv {
						basic = b
					}
				}
				for _, tw := range []string{"string", "int64", "float64"} {
					var basic2 types.Type
					for _, b := range types.Typ {
						if b != nil && b.Name() == tw {
							basic2 = b
						}
					}
					tmp := newInterp(w)
					in, _ := w.runOp(f, tmp.iface(basic, tmp.param("a", basic)), tmp.iface(basic2, tmp.param("b", basic2)), noImpls)
					if in.failed != "" {
						r.Ob("R2-divide", m+" "+tv, w.Pos(f.Pos()), false, "%s", in.failed)
						continue
					}
					w.boundObs(r, in, m+"("+tv+","+tw+")")
				}
			}
		}
	}
	// whole number divisions of the rest of the module
	seen := map[ssa.Instruction]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if isIntDiv(i) && !seen[i] {
				seen[i] = true
				ok, why := w.divisorHolds(f, f, i, nil)
				r.Ob("R2-divide", w.Name(f)+" "+siteKey(&aevent{fn: f, in: i}), w.instrPos(i), ok, "%s", why)
			}
		})
	}
}

// divisorHolds: started in root, with the helpers on the way to f entered, the division is
// safe; a helper that is only called directly is judged at its callers.
func (w *World) divisorHolds(root, f *ssa.Function, div ssa.Instruction, via []*ssa.Function) (bool, string) {
	in := newInterp(w)
	via = append([]*ssa.Function{root}, via...)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		for _, v := range via[1:] {
			if v == g {
				return false
			}
		}
		return true
	}
	var args []tset
	for _, p := range root.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	in.run(root, args, nil)
	if in.failed != "" {
		return false, in.failed
	}
	for _, e := range in.evs("div") {
		if e.in != div {
			continue
		}
		for _, t := range e.args[1] {
			if nonZero(e, t) {
				continue
			}
			if len(via) < 4 && w.directOnly(root) {
				w.buildSites()
				all := len(w.sites[root]) > 0
				for _, s := range w.sites[root] {
					if ok, _ := w.divisorHolds(s.Parent(), f, div, via); !ok {
						all = false
					}
				}
				if all {
					continue
				}
			}
			return false, fmt.Sprintf("divisor %s with %s", t, factList(e.facts))
		}
	}
	return true, "divisor not zero"
}

func siteKey(e *aevent) string {
	n := 0
	for _, b := range e.fn.Blocks {
		for _, i := range b.Instrs {
			if isIntDiv(i) {
				n++
				if i == e.in {
					return fmt.Sprint(n)
				}
			}
		}
	}
	return "?"
}

func isIntDiv(i ssa.Instruction) bool {
	b, ok := i.(*ssa.BinOp)
	if !ok || b.Op.String() != "/" && b.Op.String() != "%" {
		return false
	}
	bt, ok := b.Type().Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}

func (w *World) divHolds(f *ssa.Function, ka, kb types.BasicKind) (bool, string) {
	for _, az := range []bool{false, true} {
		for _, bz := range []bool{false, true} {
			in, got := w.runOp(f, w.numTerm("a", ka), w.numTerm("b", kb), func(in *interp) func(*term) *term {
				no := noImpls(in)
				return func(t *term) *term {
					if t.op == "bin" && t.str == "==" {
						for i, x := range t.args {
							if isZeroConst(t.args[1-i]) {
								switch exactView(x) {
								case "a":
									return in.boolean(az)
								case "b":
									return in.boolean(bz)
								}
							}
						}
					}
					return no(t)
				}
			})
			if in.failed != "" {
				return false, in.failed
			}
			what := fmt.Sprintf("dividing a %s number by a %s number", zeroWord(az), zeroWord(bz))
			if len(got) == 0 {
				return false, what + " gives nothing"
			}
			for _, t := range got {
				if bz && !isNullTerm(w, t) {
					return false, fmt.Sprintf("%s can give %s", what, t)
				}
				if !bz {
					u := unbox(t)
					zero := az && isZeroConst(u)
					if !zero && (u.op != "bin" || u.str != "/" || exactView(u.args[0]) != "a" || exactView(u.args[1]) != "b") {
						return false, fmt.Sprintf("%s can give %s", what, t)
					}
				}
			}
		}
	}
	return true, "NULL exactly for a zero divisor"
}

func zeroWord(z bool) string {
	if z {
		return "zero"
	}
	return "non-zero"
}

const maxString = 1 << 31

// boundObs: what an operator builds is bounded.
func (w *World) boundObs(r *Report, in *interp, what string) {
	for _, e := range in.evs("call") {
		if (e.name.pkg == "strings" || e.name.pkg == "bytes") && e.name.name == "Repeat" && len(e.args) == 2 {
			s, n := e.args[0].only(), e.args[1].only()
			ok := s != nil && n != nil && bounded(e, s, n)
			r.Ob("R3-repeat", what, w.instrPos(e.in), ok, "Repeat(%s, %s) with %s", e.args[0], e.args[1], factList(e.facts))
		}
	}
	for _, e := range in.evs("div") {
		if isIntDiv(e.in) {
			for _, t := range e.args[1] {
				r.Ob("R2-divide", what, w.instrPos(e.in), nonZero(e, t), "divisor %s with %s", t, factList(e.facts))
			}
		}
	}
	for _, e := range in.evs("join") {
		a, b := e.args[0].only(), e.args[1].only()
		if a != nil && b != nil && (a.op == "const" || b.op == "const") {
			continue
		}
		ok := a != nil && b != nil && prove(e, func(f map[string]afact) bool { return joinBounded(f, a, b) })
		r.Ob("R4-join", what, w.instrPos(e.in), ok, "%s + %s with %s", e.args[0], e.args[1], factList(e.facts))
	}
}

func factList(f map[string]afact) string {
	s := ""
	for _, k := range sortedFacts(f) {
		s += fmt.Sprintf("[%s is %v]", k, f[k].val)
	}
	if s == "" {
		return "nothing known"
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// prove: the goal follows from the facts, or in each case of some known alternatives.
func prove(e *aevent, goal func(map[string]afact) bool) bool {
	if goal(e.facts) {
		return true
	}
	for _, cs := range e.cases {
		all := len(cs) > 0
		for _, c := range cs {
			if !goal(mergeFacts(e.facts, c)) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// strip removes conversions between whole-number types that keep values below 2^31.
func strip(t *term) *term {
	for t.op == "conv" {
		to, ok := t.typ.Underlying().(*types.Basic)
		if !ok || to.Info()&types.IsInteger == 0 || bitsOf(to) < 64 {
			return t
		}
		if t.args[0].typ != nil {
			if from, ok := t.args[0].typ.Underlying().(*types.Basic); !ok || from.Info()&types.IsInteger == 0 {
				return t
			}
		}
		t = t.args[0]
	}
	return t
}

// stripped only through signed types: a comparison of the result says something about
// the value itself
func stripSigned(t *term) *term {
	for t.op == "conv" {
		to, ok := t.typ.Underlying().(*types.Basic)
		if !ok || to.Info()&types.IsInteger == 0 || bitsOf(to) < 64 || to.Info()&types.IsUnsigned != 0 {
			return t
		}
		if t.args[0].typ != nil {
			if from, ok := t.args[0].typ.Underlying().(*types.Basic); !ok || from.Info()&types.IsInteger == 0 {
				return t
			}
		}
		t = t.args[0]
	}
	return t
}

func constInt(t *term) (int64, bool) {
	if t.op != "const" || t.cv.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.cv)
}

func nonNegative(f map[string]afact, n *term) bool {
	n = stripSigned(n)
	if k, ok := constInt(n); ok {
		return k >= 0
	}
	if n.op == "len" {
		return true
	}
	for _, x := range f {
		if x.t.op != "bin" || x.t.str != "<" {
			continue
		}
		l, r := stripSigned(x.t.args[0]), stripSigned(x.t.args[1])
		if k, ok := constInt(r); ok && l == n && !x.val && k >= 0 {
			return true
		}
		if k, ok := constInt(l); ok && r == n && x.val && k >= -1 {
			return true
		}
	}
	return false
}

func nonZero(e *aevent, t *term) bool {
	return prove(e, func(f map[string]afact) bool {
		n := stripSigned(t)
		if k, ok := constInt(n); ok {
			return k != 0
		}
		for _, x := range f {
			if x.t.op != "bin" {
				continue
			}
			l, r := stripSigned(x.t.args[0]), stripSigned(x.t.args[1])
			if x.t.str == "==" && !x.val {
				if k, ok := constInt(r); ok && l == n && k == 0 {
					return true
				}
				if k, ok := constInt(l); ok && r == n && k == 0 {
					return true
				}
			}
			if x.t.str == "<" {
				if k, ok := constInt(l); ok && r == n && x.val && k >= 0 {
					return true
				}
				if k, ok := constInt(r); ok && l == n && x.val && k <= 0 {
					return true
				}
				if k, ok := constInt(r); ok && l == n && !x.val && k >= 1 {
					return true
				}
			}
		}
		return lenNonZero(f, n)
	})
}

func lenNonZero(f map[string]afact, n *term) bool {
	if n.op != "len" {
		return false
	}
	for _, x := range f {
		if x.t.op != "bin" || x.t.str != "==" || x.val {
			continue
		}
		for i, a := range x.t.args {
			b := x.t.args[1-i]
			if a == n.args[0] && b.op == "const" && b.cv.Kind() == constant.String && constant.StringVal(b.cv) == "" {
				return true
			}
		}
	}
	return false
}

// upper: the largest value of n that the facts allow, given that n is not negative.
func upper(f map[string]afact, n *term) (int64, bool) {
	n = strip(n)
	if k, ok := constInt(n); ok {
		return k, true
	}
	for _, x := range f {
		if x.t.op != "bin" || x.t.str != "<" {
			continue
		}
		l, r := strip(x.t.args[0]), strip(x.t.args[1])
		if k, ok := constInt(l); ok && r == n && !x.val {
			return k, true
		}
		if k, ok := constInt(r); ok && l == n && x.val {
			return k - 1, true
		}
	}
	return 0, false
}

func isLenOf(t, s *term) bool {
	t = strip(t)
	return t.op == "len" && t.args[0] == s
}

func bounded(e *aevent, s, n *term) bool {
	return prove(e, func(f map[string]afact) bool {
		n0 := stripSigned(n)
		if !nonNegative(f, n0) {
			return false
		}
		if s.op == "const" {
			u, ok := upper(f, n0)
			return ok && u <= maxString
		}
		var ln *term
		for _, x := range f {
			for _, a := range x.t.args {
				if isLenOf(a, s) {
					ln = strip(a)
				}
			}
		}
		if ln != nil {
			if u, ok := upper(f, ln); ok {
				if u == 0 {
					return true
				}
				if v, ok := upper(f, n0); ok && u*v <= maxString && u < 1<<31 && v < 1<<31 {
					return true
				}
			}
		}
		for _, x := range f {
			if x.t.op != "bin" || x.t.str != "<" {
				continue
			}
			l, r := strip(x.t.args[0]), strip(x.t.args[1])
			// n <= K / len(s)
			quot := func(q *term) bool {
				if q.op != "bin" || q.str != "/" {
					return false
				}
				k, ok := constInt(strip(q.args[0]))
				return ok && k <= maxString && isLenOf(q.args[1], s)
			}
			if quot(l) && r == strip(n0) && !x.val || quot(r) && l == strip(n0) && x.val {
				return true
			}
			// n * len(s) <= K, where the product cannot overflow
			prod := func(p *term) bool {
				if p.op != "bin" || p.str != "*" || bitsOf64(p) < 64 {
					return false
				}
				a, b := strip(p.args[0]), strip(p.args[1])
				if !(a == strip(n0) && isLenOf(b, s) || b == strip(n0) && isLenOf(a, s)) {
					return false
				}
				u, ok := upper(f, n0)
				return ok && u <= 1<<31
			}
			if k, ok := constInt(l); ok && k <= maxString && prod(r) && !x.val {
				return true
			}
			if k, ok := constInt(r); ok && k <= maxString && prod(l) && x.val {
				return true
			}
		}
		return false
	})
}

func bitsOf64(t *term) int {
	if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return bitsOf(b)
	}
	return 0
}

func joinBounded(f map[string]afact, a, b *term) bool {
	sum := func(p *term) bool {
		p = strip(p)
		if p.op != "bin" || p.str != "+" {
			return false
		}
		return isLenOf(p.args[0], a) && isLenOf(p.args[1], b) || isLenOf(p.args[0], b) && isLenOf(p.args[1], a)
	}
	bound := map[*term]bool{}
	for _, x := range f {
		if x.t.op != "bin" || x.t.str != "<" {
			continue
		}
		l, r := x.t.args[0], x.t.args[1]
		if k, ok := constInt(strip(l)); ok && k <= maxString && !x.val {
			if sum(r) {
				return true
			}
			for _, s := range []*term{a, b} {
				if isLenOf(r, s) {
					bound[s] = true
				}
			}
			// len(a) <= K - len(b)
		}
		if k, ok := constInt(strip(r)); ok && k <= maxString && x.val {
			if sum(l) {
				return true
			}
			for _, s := range []*term{a, b} {
				if isLenOf(l, s) {
					bound[s] = true
				}
			}
		}
		diff := func(p, other *term) bool {
			p = strip(p)
			if p.op != "bin" || p.str != "-" {
				return false
			}
			k, ok := constInt(strip(p.args[0]))
			return ok && k <= maxString && isLenOf(p.args[1], other)
		}
		for _, q := range [][2]*term{{a, b}, {b, a}} {
			if !x.val && diff(l, q[0]) && isLenOf(r, q[1]) || x.val && diff(r, q[0]) && isLenOf(l, q[1]) {
				return true
			}
		}
	}
	return bound[a] && bound[b]
}
