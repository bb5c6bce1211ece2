package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = check{run: runC10,
		explanation: "The operators are read from the grammar (struct tags and lexer table). For each one the function that evaluates it is specialised, by interprocedural constant propagation with value numbering, to that operator and to every outcome the primitive comparisons can have; the value it gives must be the one the operator denotes, on the operands in the order written.",
		assumptions: []string{"The participle library parses as its tags say", "Scope.Eq is symmetric", "Lt, Gt, Eq, Match, Membership, Add, Sub, Mul and Div of the scope compute what they are named after (see C11, C12, C21)"}}
}

// exprNode is a binary expression of the grammar.
type exprNode struct {
	node    *types.Named // P
	op      *types.Named // O
	left    *types.Var   // P.Left
	right   *types.Var   // P.Right (O or []O)
	opField *types.Var   // O.Operator
	operand *types.Var   // O.Term
	lits    []string
	toks    []string
	list    bool
	not     *types.Var
	fn      *ssa.Function
}

func (w *World) exprNodes() []exprNode {
	var out []exprNode
	for _, n := range w.grammarTypes() {
		caps := captures(n)
		var left, not *types.Var
		for _, c := range caps {
			if !c.sub {
				continue
			}
			o := namedOf(elemOf(c.field.Type()))
			if o == nil {
				continue
			}
			if o == n {
				not = c.field
				continue
			}
			oc := captures(o)
			var opc *capture
			var operand *types.Var
			for i := range oc {
				if !oc[i].sub && (len(oc[i].lits) > 0 || len(oc[i].toks) > 0) && isStringType(oc[i].field.Type()) {
					if opc == nil {
						opc = &capture{owner: oc[i].owner, field: oc[i].field}
					}
					if opc.field == oc[i].field {
						opc.lits = append(opc.lits, oc[i].lits...)
						opc.toks = append(opc.toks, oc[i].toks...)
					}
				} else if oc[i].sub && opc != nil && operand == nil && !strings.Contains(typeKey(oc[i].field.Type()), "Comment") {
					operand = oc[i].field
				}
			}
			if opc != nil && operand != nil && left != nil && len(oc) <= 4 && isOperator(*opc) {
				_, list := types.Unalias(c.field.Type()).(*types.Slice)
				out = append(out, exprNode{node: n, op: o, left: left, right: c.field, opField: opc.field, operand: operand,
					lits: opc.lits, toks: opc.toks, list: list, not: not, fn: w.methodNamed(n, "Reduce")})
				continue
			}
			if !strings.Contains(o.Obj().Name(), "Comment") && left == nil {
				left = c.field
			}
		}
	}
	return out
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func isOperator(c capture) bool {
	for _, l := range c.lits {
		if l == "," {
			return false
		}
	}
	for _, t := range c.toks {
		if t == "Ident" {
			return false
		}
	}
	return true
}

func (w *World) methodNamed(n *types.Named, name string) *ssa.Function {
	sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	fo, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	f := w.Prog.FuncValue(fo)
	if f == nil || !w.inMod[f] {
		return nil
	}
	return f
}

// evaluator: a method of a parsed part that gives its value in a scope.
func (w *World) isEvaluator(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	n := namedOf(f.Signature.Recv().Type())
	if n == nil || !w.astTypes()[n] {
		return false
	}
	sig := f.Signature
	return sig.Params().Len() == 2 && isContext(sig.Params().At(0).Type()) && sig.Results().Len() == 1 && types.IsInterface(sig.Results().At(0).Type())
}

// fieldPath spells the part of the query a term denotes: self.Right[].Term
func fieldPath(t *term) string {
	switch t.op {
	case "param":
		return t.str
	case "or":
		p := ""
		for i, a := range t.args {
			q := fieldPath(a)
			if i > 0 && q != p {
				return ""
			}
			p = q
		}
		return p
	case "field":
		b := fieldPath(t.args[0])
		if b == "" {
			return ""
		}
		return b + "." + t.str
	case "elem":
		b := fieldPath(t.args[0])
		if b == "" {
			return ""
		}
		return b + "[]"
	case "load":
		return fieldPath(t.args[0])
	case "fa":
		b := fieldPath(t.args[0])
		if b == "" {
			return ""
		}
		return b + "." + t.str
	case "ia":
		b := fieldPath(t.args[0])
		if b == "" {
			return ""
		}
		return b + "[]"
	}
	return ""
}

// roleOf: which operand's value a term is.
func roleOf(t *term) string {
	if t.op == "iface" {
		return roleOf(t.args[0])
	}
	if t.op == "call" && strings.HasSuffix(t.str, ".Reduce") && len(t.args) > 0 {
		return fieldPath(t.args[0])
	}
	if t.op == "param" {
		return t.str
	}
	return ""
}

func truthOf(t *term) (val, ok bool) {
	if t.op == "iface" {
		return truthOf(t.args[0])
	}
	return t.isBool()
}

// scopePrim: a call of an operation of the scope, as Name(role,role).
func scopePrim(t *term) (string, []string, bool) {
	if t.op != "call" || !strings.HasPrefix(t.str, "Scope.") {
		return "", nil, false
	}
	var roles []string
	for _, a := range t.args[1:] {
		roles = append(roles, roleOf(a))
	}
	return strings.TrimPrefix(t.str, "Scope."), roles, true
}

type opWorld struct {
	w     *World
	n     exprNode
	op    string
	prims map[string]bool // Lt(L,R) -> outcome
	L, R  string
	// lists: the list of further operands is absent / not empty for ever
	noRight, endless bool
	notSet           bool
	acc              bool // results of arithmetic are accumulators
}

func (o *opWorld) assume(in *interp) func(t *term) *term {
	return func(t *term) *term {
		switch t.op {
		case "field":
			switch t.fld {
			case o.n.opField:
				return in.mk(term{op: "const", cv: mkString(o.op), typ: t.typ})
			case o.n.right:
				if t.args[0].op == "param" {
					if o.noRight {
						return in.mk(term{op: "nil", typ: t.typ})
					}
				}
			case o.n.not:
				if o.n.not != nil && t.args[0].op == "param" && !o.notSet {
					return in.mk(term{op: "nil", typ: t.typ})
				}
			}
		case "bin":
			if t.str == "==" {
				// the parts that are there are not nil
				for i, a := range t.args {
					if t.args[1-i].op == "nil" && a.op == "field" && fieldPath(a) != "" {
						switch a.fld {
						case o.n.right, o.n.left, o.n.operand:
							return in.boolean(false)
						case o.n.not:
							return in.boolean(!o.notSet)
						}
					}
				}
				// len(Right) == 0
				for i, a := range t.args {
					if a.op == "len" && a.args[0].op == "field" && a.args[0].fld == o.n.right && t.args[1-i].op == "const" && o.endless {
						return in.boolean(false)
					}
				}
			}
			if t.str == "<" && o.endless && t.args[1].op == "len" && t.args[1].args[0].op == "field" && t.args[1].args[0].fld == o.n.right {
				return in.boolean(true)
			}
			if t.str == "<" && o.endless && t.args[0].op == "const" && t.args[1].op == "len" {
				return nil
			}
		case "call":
			name, roles, ok := scopePrim(t)
			if !ok {
				return nil
			}
			if o.acc && len(roles) == 2 && (name == "Add" || name == "Sub" || name == "Mul" || name == "Div") {
				return in.param("result", t.typ)
			}
			k := name + "(" + strings.Join(roles, ",") + ")"
			if v, ok := o.prims[k]; ok {
				return in.boolean(v)
			}
			if name == "Eq" && len(roles) == 2 {
				if v, ok := o.prims["Eq("+roles[1]+","+roles[0]+")"]; ok {
					return in.boolean(v)
				}
			}
		}
		return nil
	}
}

func (o *opWorld) run() (*interp, tset) {
	in := newInterp(o.w)
	in.assume = o.assume(in)
	in.opaque = func(c *ssa.CallCommon, f *ssa.Function) bool { return o.w.isEvaluator(f) }
	fn := o.n.fn
	args := []tset{{in.param("self", fn.Params[0].Type())}, {in.param("ctx", fn.Params[1].Type())}, {in.param("scope", fn.Params[2].Type())}}
	rets, _ := in.run(fn, args, nil)
	if len(rets) == 0 {
		return in, nil
	}
	return in, rets[0]
}

func (n exprNode) roles() (L, R string) {
	L = "self." + n.left.Name()
	R = "self." + n.right.Name()
	if n.list {
		R += "[]"
	}
	R += "." + n.operand.Name()
	return
}

// opSpellings lists every spelling of an operator with the name of what it denotes.
func (w *World) opSpellings(n exprNode) (map[string]string, []string) {
	out := map[string]string{}
	var unknown []string
	for _, l := range n.lits {
		out[l] = l
	}
	rules := w.lexRules()
	for _, t := range n.toks {
		pat, ok := rules[t]
		if !ok {
			unknown = append(unknown, t)
			continue
		}
		for _, p := range w.parsers() {
			if !p.reach[n.op] {
				continue
			}
			sp := spellings(pat, p.known && p.upper[t])
			if sp == nil {
				unknown = append(unknown, t)
			}
			for _, s := range sp {
				out[s] = t
			}
		}
	}
	return out, unknown
}

func runC10(w *World, r *Report) {
	r.Rule("R1-operator", "specialised to the operator and to every outcome of the primitive comparisons, evaluating an expression gives the value the operator denotes", 10)
	r.Rule("R2-not", "NOT negates the truth of its operand", 1)
	r.Rule("R3-known", "every operator token of the grammar has a known set of spellings", 1)
	r.Rule("R4-single", "no operator or operand of the grammar can be captured twice in the same place, dropping the first", 4)

	nodes := w.exprNodes()
	for _, n := range nodes {
		name := n.node.Obj().Name()
		pos := w.Pos(n.node.Obj().Pos())
		if n.fn == nil {
			r.Ob("R3-known", name, pos, false, "no method evaluates this expression")
			continue
		}
		sp, unknown := w.opSpellings(n)
		r.Ob("R3-known", name, pos, len(unknown) == 0 && len(sp) > 0, "spellings %v, unknown tokens %v", sortedKeys(sp), unknown)
		for _, c := range append(captures(n.node), captures(n.op)...) {
			if c.field != n.right && c.field != n.opField && c.field != n.operand && c.field != n.left {
				continue
			}
			_, isSlice := types.Unalias(c.field.Type()).(*types.Slice)
			r.Ob("R4-single", c.owner.Obj().Name()+"."+c.field.Name(), w.Pos(c.field.Pos()), !c.rep || isSlice,
				"%s is captured repeatedly in a field that holds one: an expression with two of them silently loses the first", c.field.Name())
		}
		for _, s := range sortedKeys(sp) {
			ok, why := w.opHolds(n, s, sp[s])
			r.Ob("R1-operator", name+" "+s, w.Pos(n.fn.Pos()), ok, "%s", why)
		}
		if n.not != nil {
			ok, why := w.notHolds(n)
			r.Ob("R2-not", name, w.Pos(n.fn.Pos()), ok, "%s", why)
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (w *World) opHolds(n exprNode, spelling, token string) (bool, string) {
	L, R := n.roles()
	pair := func(name, a, b string) string { return name + "(" + a + "," + b + ")" }
	switch token {
	case "=", "!=", "<>", "<", ">", "<=", ">=":
		for _, rel := range []string{"less", "equal", "greater", "incomparable"} {
			p := map[string]bool{
				pair("Lt", L, R): rel == "less", pair("Gt", L, R): rel == "greater", pair("Eq", L, R): rel == "equal",
				pair("Gt", R, L): rel == "less", pair("Lt", R, L): rel == "greater",
			}
			var want bool
			switch token {
			case "=":
				want = rel == "equal"
			case "!=", "<>":
				want = rel != "equal"
			case "<":
				want = rel == "less"
			case ">":
				want = rel == "greater"
			case "<=":
				want = rel == "less" || rel == "equal"
			case ">=":
				want = rel == "greater" || rel == "equal"
			}
			o := &opWorld{w: w, n: n, op: spelling, prims: p, L: L, R: R}
			in, got := o.run()
			if bad := boolResult(in, got, want); bad != "" {
				return false, fmt.Sprintf("with the left operand %s the right one, l %s r %s", rel2(rel), spelling, bad)
			}
		}
		return true, "four orderings"
	case "=~":
		return w.oneOutcome(n, spelling, pair("Match", R, L))
	case "IN":
		return w.oneOutcome(n, spelling, pair("Membership", L, R))
	case "+", "-", "*", "/":
		prim := map[string]string{"+": "Add", "-": "Sub", "*": "Mul", "/": "Div"}[token]
		o := &opWorld{w: w, n: n, op: spelling, L: L, R: R, acc: true}
		in, got := o.run()
		if in.failed != "" {
			return false, in.failed
		}
		seen := false
		for _, e := range in.evs("call") {
			if e.name.recv != "Scope" {
				continue
			}
			switch e.name.name {
			case "Add", "Sub", "Mul", "Div":
			default:
				continue
			}
			if e.name.name != prim {
				return false, fmt.Sprintf("%s is evaluated with Scope.%s at %s", spelling, e.name.name, w.instrPos(e.in))
			}
			a, b := e.args[1], e.args[2]
			for _, t := range b {
				if roleOf(t) != R {
					return false, fmt.Sprintf("the right operand of %s is %s at %s", spelling, b, w.instrPos(e.in))
				}
			}
			hasL, hasAcc := false, false
			for _, t := range a {
				switch roleOf(t) {
				case L:
					hasL = true
				case "result":
					hasAcc = true
				default:
					return false, fmt.Sprintf("the left operand of %s is %s at %s", spelling, a, w.instrPos(e.in))
				}
			}
			if !hasL || n.list && !hasAcc {
				return false, fmt.Sprintf("the left operand of %s is %s at %s, not the value so far", spelling, a, w.instrPos(e.in))
			}
			seen = true
		}
		if !seen {
			return false, "nothing computes " + spelling
		}
		res := false
		for _, t := range got {
			switch roleOf(t) {
			case "result":
				res = true
			case L:
			default:
				return false, fmt.Sprintf("%s gives %s", spelling, got)
			}
		}
		return res, "the result is what Scope." + prim + " gave"
	case "AND", "AlternativeAND", "OR", "AlternativeOR":
		and := strings.HasSuffix(token, "AND")
		for _, x := range []bool{false, true} {
			for _, y := range []bool{false, true} {
				p := map[string]bool{"Bool(" + L + ")": x, "Bool(" + R + ")": y}
				want := x && y
				if !and {
					want = x || y
				}
				// in the world where the right operands never end only a short cut gives a result
				for _, endless := range []bool{true, false} {
					o := &opWorld{w: w, n: n, op: spelling, prims: p, L: L, R: R, endless: endless}
					in, got := o.run()
					if in.failed != "" {
						return false, in.failed
					}
					short := want != and
					if endless && short && len(got) == 0 {
						return false, fmt.Sprintf("with the operands %v and %v %s does not end at the deciding operand", x, y, spelling)
					}
					if spelling == "||" || spelling == "&&" {
						hasR := false
						for _, t := range got {
							role := roleOf(t)
							if role == R {
								hasR = true
							}
							if v, ok := truthOf(t); ok && v && want {
								return false, fmt.Sprintf("with the operands %v and %v %s gives %v instead of the deciding operand", x, y, spelling, v)
							}
						}
						if y && want && (and && !endless || !x && endless) && !hasR {
							return false, fmt.Sprintf("with the operands %v and %v %s does not give the right one", x, y, spelling)
						}
					}
					for _, t := range got {
						v, ok := truthOf(t)
						if !ok {
							switch roleOf(t) {
							case L:
								v, ok = x, true
								if !endless && x != y {
									// no right operand was there
									continue
								}
							case R:
								v, ok = y, true
							}
						}
						if !ok || v != want {
							return false, fmt.Sprintf("with the operands %v and %v %s can give %s", x, y, spelling, t)
						}
					}
				}
			}
		}
		return true, "truth table"
	}
	return true, "not an operator with a meaning listed here"
}

func rel2(s string) string {
	switch s {
	case "less":
		return "less than"
	case "greater":
		return "greater than"
	case "equal":
		return "equal to"
	}
	return "not comparable with"
}

func boolResult(in *interp, got tset, want bool) string {
	if in.failed != "" {
		return in.failed
	}
	if len(got) != 1 {
		return fmt.Sprintf("can give %s", got)
	}
	v, ok := truthOf(got[0])
	if !ok {
		return fmt.Sprintf("gives %s", got[0])
	}
	if v != want {
		return fmt.Sprintf("gives %v", v)
	}
	return ""
}

func (w *World) oneOutcome(n exprNode, op, prim string) (bool, string) {
	for _, v := range []bool{false, true} {
		o := &opWorld{w: w, n: n, op: op, prims: map[string]bool{prim: v}}
		in, got := o.run()
		if bad := boolResult(in, got, v); bad != "" {
			return false, fmt.Sprintf("when %s is %v, %s %s", prim, v, op, bad)
		}
	}
	return true, prim
}

func (w *World) notHolds(n exprNode) (bool, string) {
	role := "self." + n.not.Name()
	for _, v := range []bool{false, true} {
		o := &opWorld{w: w, n: n, op: "=", prims: map[string]bool{"Bool(" + role + ")": v}, notSet: true}
		in, got := o.run()
		if bad := boolResult(in, got, !v); bad != "" {
			return false, fmt.Sprintf("NOT of a %v value %s", v, bad)
		}
	}
	return true, "negation"
}
