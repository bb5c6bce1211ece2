package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = check{run: runC23,
		explanation: "Every sorter is executed in the abstract up to the call of the sort library; the comparison it hands over there is executed for every pair of rows with a value, with NULL (nil, Null, *Null) or without the column, and every outcome of comparing two values, in both directions. The results must form a strict order with fixed places, and DESC its exact reverse. Every caller of a sorter is executed with and without DESC.",
		assumptions: []string{"the less-than operator of the protocol is itself a strict order on the values of one column (values of comparable types)", "package sort of the standard library"}}
}

// sortUse is a call of the sort library reached in the abstract.
type sortUse struct {
	at       ssa.Instruction
	cmp      *ssa.Function
	free     []tset
	recv     *term // of a method
	reversed bool
	st       *astate
	threeWay bool
}

func librarySort(id calleeID) bool {
	switch id.pkg {
	case "sort":
		return id.name == "Sort" || id.name == "Stable" || id.name == "Slice" || id.name == "SliceStable"
	case "slices":
		return strings.HasPrefix(id.name, "Sort")
	}
	return false
}

// sortWorld runs a sorter with the given direction up to its library sorts.
func (w *World) sortWorld(f *ssa.Function, desc bool, goOn bool) (*interp, []*sortUse, []tset) {
	in := newInterp(w)
	in.enterGo = true
	var uses []*sortUse
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		id := callID(c)
		if g != nil && g.Pkg == nil && g.Origin() != nil {
			id = funcID(g.Origin())
		}
		if id.pkg == "sort" && id.name == "Reverse" && args[0].only() != nil {
			return []tset{{in.mk(term{op: "call", str: "sort.Reverse", args: []*term{args[0].only()}})}}, true
		}
		if !librarySort(id) {
			return nil, false
		}
		u := &sortUse{at: in.at, st: in.cur.clone()}
		if id.name == "Sort" || id.name == "Stable" {
			t := args[0].only()
			for t != nil && t.op == "call" && strings.HasSuffix(t.str, "Reverse") && len(t.args) == 1 {
				u.reversed = !u.reversed
				t = t.args[0]
			}
			if t != nil && t.op == "iface" {
				u.recv = t.args[0]
				u.cmp = w.typeMethod(t.typ, "Less")
			}
		} else if len(args) == 2 {
			if t := args[1].only(); t != nil && (t.op == "func" || t.op == "closure") {
				u.cmp = t.fn
				for _, b := range t.args {
					u.free = append(u.free, in.norm([]*term{b}))
				}
			}
			u.threeWay = id.pkg == "slices"
		}
		uses = append(uses, u)
		if !goOn {
			in.cur.heap = nil
		}
		return nil, true
	}
	var args []tset
	for _, p := range f.Params {
		if types.Identical(p.Type(), types.Typ[types.Bool]) {
			args = append(args, tset{in.boolean(desc)})
			continue
		}
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	in.run(f, args, nil)
	return in, uses, args
}

// typeMethod is the declared method of a type, pointer or not.
func (w *World) typeMethod(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
			sel = types.NewMethodSet(t).Lookup(n.Obj().Pkg(), name)
		}
	}
	if sel == nil {
		return nil
	}
	o, _ := sel.Obj().(*types.Func)
	if o == nil {
		return nil
	}
	return w.Prog.FuncValue(o)
}

// a row, as far as sorting is concerned
type rowKind struct {
	class string // missing, NULL, value
	pres  bool
	val   func(in *interp, side string) *term
}

func (w *World) rowKinds() []rowKind {
	null := w.typeNamed("types", "Null")
	nilT := func(in *interp, _ string) *term {
		return in.mk(term{op: "nil", typ: types.NewInterfaceType(nil, nil)})
	}
	nul := func(in *interp, _ string) *term {
		return in.iface(null, in.zero(null))
	}
	pnul := func(in *interp, s string) *term {
		return in.iface(types.NewPointer(null), in.mk(term{op: "alloc", str: "null" + s, typ: null}))
	}
	return []rowKind{
		{"missing", false, nilT}, {"missing", false, nul},
		{"NULL", true, nilT}, {"NULL", true, nul}, {"NULL", true, pnul},
	}
}

func (w *World) valueKinds() map[string]rowKind {
	out := map[string]rowKind{"any": {"value", true, func(in *interp, s string) *term { return in.param("value "+s, types.NewInterfaceType(nil, nil)) }}}
	for n, k := range map[string]types.BasicKind{"int64": types.Int64, "string": types.String, "float64": types.Float64} {
		k := types.Typ[k]
		out[n] = rowKind{"value", true, func(in *interp, s string) *term { return in.iface(k, in.param("value "+s, k)) }}
	}
	return out
}

// less asks the comparison of u about two rows; outcome is how the second value compares with
// the first (-1, 0, 1: the first is less, equal, greater).
func (w *World) less(f *ssa.Function, in *interp, u *sortUse, a, b rowKind, outcome int) (bool, string) {
	va, vb := a.val(in, "1"), b.val(in, "2")
	sides := map[string]int{va.key: 1, unbox(va).key: 1}
	if unbox(va).key != unbox(vb).key {
		sides[vb.key], sides[unbox(vb).key] = 2, 2
	}
	cmpOf := func(x, y *term) (int, bool) {
		if a.class != "value" || b.class != "value" {
			return 0, false
		}
		i, j := sides[unbox(x).key], sides[unbox(y).key]
		switch {
		case i == 1 && j == 2:
			return outcome, true
		case i == 2 && j == 1:
			return -outcome, true
		}
		return 0, false
	}
	isVal := func(t *term) bool { return t.op == "param" && strings.HasPrefix(t.str, "value ") }
	var key *term
	for _, p := range f.Params {
		if types.Identical(p.Type(), types.Typ[types.String]) {
			key = in.param(p.Name(), p.Type())
		}
	}
	trouble := ""
	rowOf := func(args []tset) int {
		one, two := false, false
		for _, s := range args {
			for _, t := range s {
				one = one || termHas(t, func(t *term) bool { return t.op == "param" && t.str == "row 1" })
				two = two || termHas(t, func(t *term) bool { return t.op == "param" && t.str == "row 2" })
			}
		}
		switch {
		case one && !two:
			return 1
		case two && !one:
			return 2
		}
		return 0
	}
	model, assume := in.model, in.assume
	defer func() { in.model, in.assume = model, assume }()
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		id, res := callID(c), c.Signature().Results()
		if res.Len() == 2 && types.IsInterface(res.At(0).Type()) && types.Identical(res.At(1).Type(), types.Typ[types.Bool]) {
			if n := rowOf(args); n > 0 {
				hasKey := false
				for _, s := range args {
					hasKey = hasKey || s.only() != nil && unbox(s.only()) == key
				}
				if !hasKey {
					trouble = "a column other than the one to sort on is looked at, at " + w.instrPos(in.at)
				}
				k, v := a, va
				if n == 2 {
					k, v = b, vb
				}
				return []tset{{v}, {in.boolean(k.pres)}}, true
			}
		}
		if len(args) >= 2 {
			x, y := args[len(args)-2].only(), args[len(args)-1].only()
			if x != nil && y != nil {
				if o, ok := cmpOf(x, y); ok {
					switch id.name {
					case "Lt":
						return []tset{{in.boolean(o < 0)}}, true
					case "Gt":
						return []tset{{in.boolean(o > 0)}}, true
					case "Eq":
						return []tset{{in.boolean(o == 0)}}, true
					case "Compare":
						return []tset{{in.konst(constant.MakeInt64(int64(o)), types.Typ[types.Int])}}, true
					}
				}
			}
		}
		return nil, false
	}
	in.assume = func(t *term) *term {
		switch {
		case t.op == "bin" && len(t.args) == 2:
			if o, ok := cmpOf(t.args[0], t.args[1]); ok {
				switch t.str {
				case "<":
					return in.boolean(o < 0)
				case "<=":
					return in.boolean(o <= 0)
				case "==":
					return in.boolean(o == 0)
				}
			}
			if t.str == "==" {
				for i := range t.args {
					if isVal(t.args[i]) && t.args[1-i].op == "nil" {
						return in.boolean(false)
					}
				}
			}
		case t.op == "istype" && isVal(t.args[0]):
			if n := namedOf(elemOf(t.typ)); n != nil && n.Obj().Name() == "Null" {
				return in.boolean(false)
			}
		case t.op == "call" && strings.HasSuffix(t.str, "IsNil") && termHas(t, isVal):
			return in.boolean(false)
		}
		return nil
	}
	in.events, in.order, in.memo, in.steps = map[string]*aevent{}, nil, map[string]*callResult{}, 0
	var args []tset
	if u.recv != nil {
		args = append(args, tset{u.recv})
	}
	ps := u.cmp.Params
	if u.cmp.Signature.Recv() != nil {
		if pt := u.cmp.Signature.Recv().Type(); !isPointer(pt) && u.recv != nil && u.recv.op == "alloc" {
			args[0] = in.load(u.st, u.recv)
		}
		ps = ps[1:]
	}
	if len(ps) != 2 {
		return false, "a comparison with other than two operands"
	}
	rows := []string{"row 1", "row 2"}
	for i, p := range ps {
		args = append(args, tset{in.param(rows[i], p.Type())})
	}
	// the rows collected so far are any
	st := u.st.clone()
	for k, v := range st.heap {
		if t := in.terms[k]; t != nil && t.op == "fa" && u.recv != nil && inside(t, u.recv) {
			if _, sl := t.fld.Type().Underlying().(*types.Slice); sl || v.isTop() {
				st.heap[k] = tset{in.param("any "+t.fld.Name(), t.fld.Type())}
			}
		}
	}
	rets, _ := in.call(u.cmp, args, u.free, st, "less")
	if in.failed != "" {
		return false, in.failed
	}
	if trouble != "" {
		return false, trouble
	}
	if len(rets) != 1 {
		return false, "the comparison does not return"
	}
	t := rets[0].only()
	if t == nil || t.op != "const" {
		return false, fmt.Sprintf("comparing a row with %s with a row with %s depends on %s", a.class, b.class, rets[0])
	}
	var res bool
	if u.threeWay {
		n, _ := constant.Int64Val(t.cv)
		res = n < 0
	} else {
		v, ok := t.isBool()
		if !ok {
			return false, "the comparison is not a truth value"
		}
		res = v
	}
	return res, ""
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func runC23(w *World, r *Report) {
	r.Rule("R1-order", "the comparison of rows is a strict order: irreflexive, asymmetric, transitive, NULL and missing in fixed places", 1)
	r.Rule("R2-reverse", "DESC is the exact reverse", 1)
	r.Rule("R3-sorted", "no row leaves a sorter before the rows were sorted, and every row taken in is kept", 1)
	r.Rule("R4-asked", "a sorter is asked for the column and the direction of the ORDER BY clause", 2)

	sorter := w.typeNamed("types", "Sorter")
	if sorter == nil {
		r.Ob("R1-order", "Sorter", "types", false, "no interface types.Sorter")
		return
	}
	for _, f := range w.implsOf(sorter.Underlying().(*types.Interface), "Sort") {
		if w.delegates(f) {
			continue
		}
		w.sorter(r, f)
	}
	w.sortCallers(r, sorter)
}

// delegates: the method only hands the call on to another implementation.
func (w *World) delegates(f *ssa.Function) bool {
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return g == nil || g.Name() == f.Name() }
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(f, args, nil)
	if in.failed != "" || len(rets) != 1 {
		return false
	}
	for _, t := range rets[0] {
		if t.op != "call" || !strings.HasSuffix(t.str, "."+f.Name()) {
			return false
		}
	}
	// with its own parameters, in place
	for _, e := range in.evs("call") {
		if e.name.name == f.Name() {
			n := len(f.Params) - 1
			if len(e.args) < n {
				return false
			}
			for k := 0; k < n; k++ {
				if t := e.args[len(e.args)-n+k].only(); t == nil || t != args[k+1].only() {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (w *World) sorter(r *Report, f *ssa.Function) {
	nm, pos := w.Name(f), w.Pos(f.Pos())
	// with the library sort ending the world nothing may be sent
	in0, uses0, _ := w.sortWorld(f, false, false)
	ok, why := in0.failed == "" && len(uses0) > 0, in0.failed
	if len(uses0) == 0 && why == "" {
		why = "nothing is sorted"
	}
	for _, e := range in0.evs("send") {
		ok, why = false, "a row is sent at "+w.instrPos(e.in)+" before the rows are sorted"
	}
	r.Ob("R3-sorted", nm+" sends", pos, ok, "%s", why)
	w.keepsRows(r, f)

	dirs := map[bool]*sortUse{}
	ins := map[bool]*interp{}
	for _, desc := range []bool{false, true} {
		in, uses, _ := w.sortWorld(f, desc, true)
		for _, u := range uses {
			if u.cmp != nil {
				dirs[desc], ins[desc] = u, in
			}
		}
		if dirs[desc] == nil || in.failed != "" {
			r.Ob("R1-order", nm, pos, false, "the comparison of rows is not known %s", in.failed)
			return
		}
	}
	ask := func(desc bool, a, b rowKind, o int) (bool, string) {
		v, why := w.less(f, ins[desc], dirs[desc], a, b, o)
		if dirs[desc].reversed && why == "" {
			v, why = w.less(f, ins[desc], dirs[desc], b, a, -o)
		}
		return v, why
	}
	kinds, values := w.rowKinds(), w.valueKinds()
	var vnames []string
	for n := range values {
		vnames = append(vnames, n)
	}
	sortStrings(vnames)
	for _, vn := range vnames {
		v := values[vn]
		pts := append([]rowKind{}, kinds...)
		pts = append(pts, v, v) // the first less than the second
		n := len(pts)
		lt := map[bool][][]bool{}
		bad := ""
		for _, desc := range []bool{false, true} {
			m := make([][]bool, n)
			for i := range m {
				m[i] = make([]bool, n)
				for j := range m[i] {
					o := 0
					if i == n-2 && j == n-1 {
						o = -1
					} else if i == n-1 && j == n-2 {
						o = 1
					}
					var w1 string
					m[i][j], w1 = ask(desc, pts[i], pts[j], o)
					if w1 != "" && bad == "" {
						bad = w1
					}
				}
			}
			lt[desc] = m
		}
		name := nm + " " + vn
		if bad != "" {
			r.Ob("R1-order", name, pos, false, "%s", bad)
			continue
		}
		m := lt[false]
		say := func(i int) string {
			switch {
			case i == n-2:
				return "a smaller value"
			case i == n-1:
				return "a greater value"
			}
			return pts[i].class
		}
		ok, why := true, "a strict order"
		if !m[n-2][n-1] {
			ok, why = false, "a smaller value does not sort before a greater one"
		}
		tie := func(i, j int) bool { return !m[i][j] && !m[j][i] }
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i == j && m[i][i] {
					ok, why = false, "a row with "+say(i)+" sorts before one that is equal to it"
				}
				if m[i][j] && m[j][i] && i != j {
					ok, why = false, fmt.Sprintf("of two rows, with %s and with %s, each sorts before the other", say(i), say(j))
				}
				if i != j && pts[i].class == pts[j].class && i < n-2 && m[i][j] {
					ok, why = false, "of two rows with "+say(i)+" one sorts before the other"
				}
				if i < n-2 && j >= n-2 && tie(i, j) {
					ok, why = false, fmt.Sprintf("a row with %s has no place among rows with values", say(i))
				}
				for k := 0; k < n; k++ {
					if m[i][j] && m[j][k] && !m[i][k] || tie(i, j) && tie(j, k) && !tie(i, k) {
						ok, why = false, fmt.Sprintf("not transitive: %s, %s, %s", say(i), say(j), say(k))
					}
				}
			}
		}
		r.Ob("R1-order", name, pos, ok, "%s", why)
		ok, why = true, "reversed"
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if lt[true][i][j] != m[j][i] {
					ok, why = false, fmt.Sprintf("DESC is not the reverse for a row with %s and one with %s", say(i), say(j))
				}
			}
		}
		r.Ob("R2-reverse", name, pos, ok, "%s", why)
	}
}

// keepsRows: every row received is appended to what is sorted.
func (w *World) keepsRows(r *Report, f *ssa.Function) {
	nm, pos := w.Name(f), w.Pos(f.Pos())
	in := newInterp(w)
	in.enterGo = true
	var args []tset
	var input *term
	for _, p := range f.Params {
		t := in.param(p.Name(), p.Type())
		if c, ok := p.Type().Underlying().(*types.Chan); ok && c.Dir() == types.RecvOnly {
			input = t
		}
		args = append(args, tset{t})
	}
	in.run(f, args, nil)
	if in.failed != "" || input == nil {
		r.Ob("R3-sorted", nm+" keeps", pos, false, "%s", in.failed)
		return
	}
	has := func(t *term) bool { return termHas(t, func(x *term) bool { return x == input }) }
	isRow := func(t *term) bool {
		return t.op == "recv" && has(t) || t.op == "res" && t.args[0].op == "select" && t.str != "0" && t.str != "1" && has(t)
	}
	aboutReceiving := func(t *term) bool {
		return t.op == "recvok" || termHas(t, func(x *term) bool {
			return x.op == "recvok" || x.op == "res" && x.args[0].op == "select" || x.op == "param" && isContext(x.typ)
		}) && !termHas(t, isRow)
	}
	ok, why := false, "no row is kept"
	keeps := map[ssa.Instruction]bool{}
	for _, e := range in.evs("append") {
		for _, a := range e.args {
			for _, t := range a {
				if termHas(t, isRow) {
					ok, why = true, "kept at "+w.instrPos(e.in)
					keeps[e.in] = true
					// under no condition but that there is a row
					for _, fc := range e.facts {
						if !aboutReceiving(fc.t) {
							ok, why = false, "a row is kept only if "+fc.t.key
						}
					}
				}
			}
		}
	}
	for _, i := range w.receives(f) {
		if ok && !w.everyTurn(i, func(x ssa.Instruction) bool { return keeps[x] }) {
			ok, why = false, "a row received at "+w.instrPos(i)+" is not kept on every way"
		}
	}
	r.Ob("R3-sorted", nm+" keeps", pos, ok, "%s", why)
}

// receives lists the receives in loops of a function and its closures.
func (w *World) receives(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	var rec func(g *ssa.Function, depth int)
	rec = func(g *ssa.Function, depth int) {
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			is := false
			switch x := i.(type) {
			case *ssa.UnOp:
				is = x.Op == token.ARROW
			case *ssa.Select:
				for _, s := range x.States {
					is = is || s.Dir == types.RecvOnly && !w.isDone(s.Chan)
				}
			case ssa.CallInstruction:
				if h := x.Common().StaticCallee(); h != nil && w.inMod[h] && depth < 3 && h.Parent() == nil && w.directOnly(h) && len(w.callers[h]) == 1 {
					rec(h, depth+1)
				}
			}
			if is && inLoop(i.Block()) {
				out = append(out, i)
			}
		})
		for _, a := range g.AnonFuncs {
			rec(a, depth)
		}
	}
	rec(f, 0)
	return out
}

// isDone: the channel is that of a context.
func (w *World) isDone(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Done"
}

// everyTurn: between executing i and executing it again, an instruction is executed for which
// pred holds, or a function that always executes one.
func (w *World) everyTurn(i ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	b := i.Block()
	after := false
	for _, x := range b.Instrs {
		if x == i {
			after = true
		} else if after && w.does(x, pred, 0) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool // reaches b without it
	rec = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, i := range x.Instrs {
			if x == b && i == b.Instrs[0] {
				return true
			}
			if w.does(i, pred, 0) {
				return false
			}
		}
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	for _, s := range b.Succs {
		if rec(s) {
			return false
		}
	}
	return true
}

func (w *World) does(i ssa.Instruction, pred func(ssa.Instruction) bool, depth int) bool {
	if pred(i) {
		return true
	}
	c, ok := i.(*ssa.Call)
	if !ok || depth > 4 {
		return false
	}
	g := c.Common().StaticCallee()
	if g == nil || !w.inMod[g] || len(g.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool // returns without it
	rec = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, i := range x.Instrs {
			if w.does(i, pred, depth+1) {
				return false
			}
			if _, ret := i.(*ssa.Return); ret {
				return true
			}
		}
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return !rec(g.Blocks[0])
}

// sortCallers: every call of a sorter from the query engine.
func (w *World) sortCallers(r *Report, sorter *types.Named) {
	m := sorter.Underlying().(*types.Interface).Method(0)
	sig := m.Type().(*types.Signature)
	done := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok || callID(c.Common()).name != m.Name() || c.Common().Signature().Params().Len() != sig.Params().Len() {
				return
			}
			root := outermost(f)
			if root.Name() == m.Name() { // handed on
				return
			}
			for w.directOnly(root) && len(w.callers[root]) == 1 && root.Signature.Recv() == nil {
				root = outermost(w.callers[root][0].Parent())
			}
			if done[root] {
				return
			}
			done[root] = true
			for _, d := range []string{"none", "false", "true"} {
				ok, why := w.sortAsked(root, m.Name(), d)
				r.Ob("R4-asked", w.Name(root)+" DESC "+d, w.Pos(root.Pos()), ok, "%s", why)
			}
		})
	}
}

func (w *World) sortAsked(root *ssa.Function, method, d string) (bool, string) {
	sel := w.typeNamed("", "_Select")
	if sel == nil {
		return false, "no type _Select"
	}
	in := newInterp(w)
	in.enterGo = true
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || g == root || g.Name() == method || g.Pkg != root.Pkg
	}
	isF := func(t *term, name string) bool {
		return t.op == "field" && t.fld.Name() == name && isFieldOf(t.fld, sel)
	}
	in.assume = func(t *term) *term {
		if t.op == "bin" && t.str == "==" && (t.args[0].op == "nil" || t.args[1].op == "nil") {
			x := t.args[0]
			if x.op == "nil" {
				x = t.args[1]
			}
			switch {
			case isF(x, "OrderByDesc"):
				return in.boolean(d == "none")
			case isF(x, "OrderBy"):
				return in.boolean(false)
			}
		}
		if t.op == "load" && isF(t.args[0], "OrderByDesc") {
			return in.boolean(d == "true")
		}
		return nil
	}
	var args []tset
	for _, p := range root.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	in.run(root, args, nil)
	if in.failed != "" {
		return false, in.failed
	}
	seen := 0
	for _, e := range in.evs("call") {
		if e.name.name != method || len(e.args) < 2 {
			continue
		}
		seen++
		desc, key := e.args[len(e.args)-1].only(), e.args[len(e.args)-2].only()
		v, isB := false, false
		if desc != nil {
			v, isB = desc.isBool()
		}
		if !isB || v != (d == "true") {
			return false, fmt.Sprintf("the direction asked for at %s is %s", w.instrPos(e.in), e.args[len(e.args)-1])
		}
		if key == nil || key.op != "call" || !strings.Contains(key.str, "Unquote") || len(key.args) != 1 || !(key.args[0].op == "load" && isF(key.args[0].args[0], "OrderBy")) {
			return false, fmt.Sprintf("the column asked for at %s is %s, not that of the clause without its quotes", w.instrPos(e.in), e.args[len(e.args)-2])
		}
	}
	if seen == 0 {
		return false, "the sorter is not asked"
	}
	return true, "asked with the column and direction of the clause"
}

func sortStrings(s []string) { sort.Strings(s) }
