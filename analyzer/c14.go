package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = check{run: runC14,
		explanation: "The evaluation of a SELECT is executed in the abstract in the worlds spanned by: condition absent, true, false, nil; rows without end; not cancelled. Where the condition is absent or true, no turn of the loop gets past the hand-over of the row; where it is false or nil no row is handed over and the loop goes on. The condition must see the row and its columns, and what is handed over must be made of the same columns. The LIMIT stage is evaluated with a constant limit (-1 to 6) and rows without end, by constant propagation with the loop unrolled: every path must hand over exactly that many rows and then stop. The stages must hand the rest of the query, unchanged, to the next stage.",
		assumptions: []string{"limits above 6 behave like those evaluated", "the truth of a value is C10's and C11's concern, the order of sorted rows C23's"}}
}

type selWorld struct {
	w    *World
	sel  *types.Named
	eval *ssa.Function
	// nilness of the clauses of a _Select
	isNil map[string]bool
	cond  string // "", true, false, nil
	block bool   // no send of a row is got past
	// calls of interest
	onCall func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset)
	reduce []*condUse
}

type condUse struct {
	at    ssa.Instruction
	scope *term
	vars  []tset // appended to that scope before
}

func runC14(w *World, r *Report) {
	r.Rule("R1-gate", "a row is handed over in every turn in which the condition is absent or true, in none in which it is false or nil, and the loop goes on", 2)
	r.Rule("R2-row", "the condition is evaluated over the row and its columns, and the row handed over is made of the same columns", 1)
	r.Rule("R3-limit", "LIMIT hands over exactly as many rows as it says, and stops", 2)
	r.Rule("R4-stages", "each stage evaluates the rest of the query unchanged and passes on every row", 3)

	sel := w.typeNamed("", "_Select")
	if sel == nil || w.typeMethod(types.NewPointer(sel), "Eval") == nil {
		r.Ob("R1-gate", "SELECT evaluator", "-", false, "the evaluator of SELECT was not found")
		return
	}
	eval := w.typeMethod(types.NewPointer(sel), "Eval")
	w.selectGate(r, sel, eval)
	w.groupGate(r, sel, eval)
	w.limits(r, sel, eval)
	w.stages(r, sel, eval)
}

func (s *selWorld) field(t *term, name string) bool {
	return t != nil && t.op == "field" && t.str == name && isFieldOf(t.fld, s.sel)
}

// condition: the term of the value of the condition
func (s *selWorld) isCond(t *term) bool {
	return termHas(t, func(t *term) bool { return t.op == "param" && t.str == "value of the condition" })
}

func isDoneTerm(t *term) bool {
	return termHas(t, func(t *term) bool { return t.op == "call" && strings.HasSuffix(t.str, ".Done") })
}

// running: rows without end, nobody cancels.
func running(in *interp, t *term) *term {
	switch t.op {
	case "recvok":
		return in.boolean(!isDoneTerm(t.args[0]))
	case "res":
		if t.args[0].op == "select" && t.str == "1" {
			return in.boolean(true)
		}
	case "bin":
		if t.str != "==" {
			return nil
		}
		for i := range t.args {
			a, b := t.args[i], t.args[1-i]
			if a.op == "res" && a.str == "0" && a.args[0].op == "select" && b.op == "const" {
				k, _ := constant.Int64Val(b.cv)
				if k >= 0 && int(k) < len(a.args[0].args) && isDoneTerm(a.args[0].args[k]) {
					return in.boolean(false)
				}
			}
			if b.op == "nil" && a.op == "call" && a.str == "Context.Err" {
				return in.boolean(true)
			}
		}
	}
	return nil
}

func (s *selWorld) interp() *interp {
	w := s.w
	in := newInterp(w)
	in.enterGo = true
	sel := s.sel
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		if g == nil {
			return true
		}
		if len(in.stack) > 1 && g == s.eval {
			return true
		}
		o := outermost(g)
		if w.isEvaluator(o) {
			return recvNamed(o) != sel
		}
		if o.Pkg == nil || o.Pkg != s.eval.Pkg {
			return true
		}
		// helpers of the evaluators
		return o.Object() != nil && o.Object().Exported() && recvNamed(o) != sel
	}
	truth := func(t *term) *term {
		// a test of the value of the condition
		if t.op == "call" && t.typ != nil && types.Identical(t.typ, types.Typ[types.Bool]) {
			if l := strings.ToLower(t.str); strings.Contains(l, "nil") || strings.Contains(l, "null") {
				// a test for NULL
				for _, a := range t.args {
					if s.isCond(a) {
						return in.boolean(false)
					}
				}
				return nil
			}
			for _, a := range t.args {
				if s.isCond(a) {
					return in.boolean(s.cond == "true")
				}
				if s.cond == "nil" && (unbox(a).op == "nil") {
					return in.boolean(false)
				}
			}
		}
		return nil
	}
	in.assume = func(t *term) *term {
		if v := running(in, t); v != nil {
			return v
		}
		if t.op == "bin" && t.str == "==" {
			for i := range t.args {
				a, b := t.args[i], t.args[1-i]
				if b.op == "nil" && a.op == "field" && isFieldOf(a.fld, sel) {
					if v, ok := s.isNil[a.str]; ok {
						return in.boolean(v)
					}
				}
				if b.op == "nil" && a.op == "param" && a.str == "value of the condition" {
					return in.boolean(false)
				}
			}
		}
		return truth(t)
	}
	vars := map[string][]tset{}
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		id := callID(c)
		if s.onCall != nil {
			s.onCall(in, c, g, args)
		}
		if id.name == "AppendVars" && len(args) >= 2 {
			if t := sameScope(args[0].only()); t != nil {
				vars[t.key] = append(vars[t.key], args[1])
			}
			return nil, false
		}
		if len(args) == 0 || id.name != "Reduce" {
			return nil, false
		}
		if t := args[0].only(); s.field(t, "Where") {
			u := &condUse{at: in.at}
			for _, a := range args {
				if t := a.only(); t != nil && t.typ != nil && w.isScope(t.typ) {
					u.scope = t
				}
			}
			if u.scope == nil && len(args) > 2 {
				u.scope = args[2].only()
			}
			u.scope = sameScope(u.scope)
			if u.scope != nil {
				u.vars = append(u.vars, vars[u.scope.key]...)
			}
			s.reduce = append(s.reduce, u)
			any := types.NewInterfaceType(nil, nil)
			if s.cond == "nil" {
				return []tset{{in.mk(term{op: "nil", typ: any})}}, true
			}
			return []tset{{in.param("value of the condition", any)}}, true
		}
		return nil, false
	}
	if s.block {
		in.stop = func(i ssa.Instruction) bool {
			if x, ok := i.(*ssa.Select); ok && !x.Blocking {
				return false
			}
			return sendsRow(i)
		}
	}
	return in
}

// sameScope: AppendVars gives the scope back.
func sameScope(t *term) *term {
	for t != nil && t.op == "call" && strings.HasSuffix(t.str, ".AppendVars") {
		t = t.args[0]
	}
	return t
}

// sendsRow: the instruction offers a row to a channel.
func sendsRow(i ssa.Instruction) bool {
	row := func(c ssa.Value) bool {
		ch, ok := c.Type().Underlying().(*types.Chan)
		return ok && types.IsInterface(ch.Elem())
	}
	switch x := i.(type) {
	case *ssa.Send:
		return row(x.Chan)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send != nil && row(s.Chan) {
				return true
			}
		}
	}
	return false
}

func (s *selWorld) args(in *interp, f *ssa.Function) []tset {
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	return args
}

// goRoots: functions started as goroutines during the run.
func goRoots(in *interp) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, e := range in.evs("enter") {
		if g, ok := e.in.(*ssa.Go); ok {
			if f := g.Call.StaticCallee(); f != nil {
				out[f] = true
			}
		}
	}
	return out
}

func (w *World) rowLoop(e *aevent) bool {
	// the header of a loop that takes rows from a stream
	h := e.in.Block()
	for b := range naturalLoop(h) {
		for _, i := range b.Instrs {
			if w.mayDo(i, takesRow, 0) {
				return true
			}
		}
	}
	return false
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{h: true}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if out[b] {
			return
		}
		out[b] = true
		for _, p := range b.Preds {
			rec(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			rec(p)
		}
	}
	return out
}

func takesRow(i ssa.Instruction) bool {
	row := func(c ssa.Value) bool {
		ch, ok := c.Type().Underlying().(*types.Chan)
		return ok && types.IsInterface(ch.Elem())
	}
	switch x := i.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW && row(x.X)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send == nil && row(s.Chan) {
				return true
			}
		}
	}
	return false
}

// mayDo: the instruction, or a function of the module it calls, has one for which pred holds.
func (w *World) mayDo(i ssa.Instruction, pred func(ssa.Instruction) bool, depth int) bool {
	if pred(i) {
		return true
	}
	c, ok := i.(*ssa.Call)
	if !ok || depth > 2 {
		return false
	}
	g := c.Common().StaticCallee()
	if g == nil || !w.inMod[g] || w.isEvaluator(g) {
		return false
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if w.mayDo(i, pred, depth+1) {
				return true
			}
		}
	}
	return false
}

var plainSelect = map[string]bool{"Limit": true, "GroupBy": true, "OrderBy": true, "From": false}

func clauses(base map[string]bool, set ...interface{}) map[string]bool {
	out := map[string]bool{}
	for k, v := range base {
		out[k] = v
	}
	for i := 0; i+1 < len(set); i += 2 {
		out[set[i].(string)] = set[i+1].(bool)
	}
	return out
}

func (w *World) selectGate(r *Report, sel *types.Named, eval *ssa.Function) {
	pos := w.Pos(eval.Pos())
	run := func(where bool, cond string, block bool) (*selWorld, *interp, string) {
		s := &selWorld{w: w, sel: sel, eval: eval, isNil: clauses(plainSelect, "Where", !where), cond: cond, block: block}
		in := s.interp()
		in.run(eval, s.args(in, eval), nil)
		if in.failed != "" {
			return s, in, in.failed
		}
		if len(goRoots(in)) == 0 {
			return s, in, "no goroutine produces the rows"
		}
		return s, in, ""
	}
	ends := func(in *interp) string {
		roots := goRoots(in)
		for _, e := range in.evs("return") {
			if roots[e.fn] {
				return fmt.Sprintf("the query ends at %s although there are more rows and nobody cancelled it", w.instrPos(e.in))
			}
		}
		return ""
	}
	turns := func(in *interp) string {
		for _, e := range in.evs("back") {
			if w.rowLoop(e) {
				return w.instrPos(e.in)
			}
		}
		return ""
	}
	for _, c := range []struct {
		key, cond string
		where     bool
		emit      bool
	}{
		{"SELECT without condition", "", false, true},
		{"SELECT, condition true", "true", true, true},
		{"SELECT, condition false", "false", true, false},
		{"SELECT, condition nil", "nil", true, false},
	} {
		ok, why := true, "rows without end, not cancelled"
		s, in, fail := run(c.where, c.cond, false)
		sends := in.evs("send")
		switch {
		case fail != "":
			ok, why = false, fail
		case c.emit && len(sends) == 0:
			ok, why = false, "no row is ever handed over"
		case !c.emit && len(sends) > 0:
			ok, why = false, fmt.Sprintf("a row is handed over at %s", w.instrPos(sends[0].in))
		case ends(in) != "":
			ok, why = false, ends(in)
		case turns(in) == "":
			ok, why = false, "no loop takes the rows of the FROM clause"
		case c.where && len(s.reduce) == 0:
			ok, why = false, "the condition is never evaluated"
		}
		if ok && c.emit {
			_, in, fail := run(c.where, c.cond, true)
			if fail != "" {
				ok, why = false, fail
			} else if at := turns(in); at != "" {
				ok, why = false, fmt.Sprintf("the loop over the rows at %s can take the next row without having handed this one over", at)
			}
		}
		r.Ob("R1-gate", c.key, pos, ok, "%s", why)
		if !c.emit || fail != "" {
			continue
		}
		// what is handed over
		key := strings.Replace(c.key, "SELECT", "row of SELECT", 1)
		ok, why = true, "made of the columns of the row that was tested"
		if len(sends) == 0 {
			continue
		}
		columns := map[string]*term{}
		for _, e := range in.evs("call") {
			if e.name.name == "Transform" && len(e.args) > 0 {
				if t := e.res.only(); t != nil && t.op == "tuple" {
					row := e.args[len(e.args)-1].only()
					if row == nil || !isReceived(row) {
						ok, why = false, fmt.Sprintf("the columns are computed at %s from %s, not from the row of the FROM clause", w.instrPos(e.in), e.args[len(e.args)-1])
					}
					columns[t.args[0].key] = row
				}
			}
		}
		for _, e := range sends {
			v := e.args[1].only()
			has := false
			if v != nil {
				termHas(v, func(t *term) bool {
					if columns[t.key] != nil {
						has = true
					}
					return false
				})
			}
			if !has && ok {
				ok, why = false, fmt.Sprintf("what is handed over at %s is not made of the columns of the row: %s", w.instrPos(e.in), e.args[1])
			}
		}
		r.Ob("R2-row", key, w.instrPos(sends[0].in), ok, "%s", why)
		if c.where {
			ok, why := s.seesRow(columns)
			r.Ob("R2-row", "condition of SELECT", w.instrPos(s.reduce[0].at), ok, "%s", why)
		}
	}
}

func isReceived(t *term) bool {
	t = unbox(t)
	switch t.op {
	case "recv":
		return true
	case "res":
		return t.args[0].op == "select" && t.str >= "2"
	case "conv":
		return isReceived(t.args[0])
	}
	return false
}

// seesRow: the scope of the condition shows the row, and before it the columns.
func (s *selWorld) seesRow(columns map[string]*term) (bool, string) {
	for _, u := range s.reduce {
		row, col := -1, -1
		for i, v := range u.vars {
			t := v.only()
			if t == nil {
				continue
			}
			if isReceived(t) {
				row = i
			}
			if columns[unbox(t).key] != nil || columns[t.key] != nil {
				col = i
			}
		}
		switch {
		case row < 0:
			return false, fmt.Sprintf("the condition evaluated at %s does not see the row of the FROM clause", s.w.instrPos(u.at))
		case col < 0:
			return false, fmt.Sprintf("the condition evaluated at %s does not see the columns of the row", s.w.instrPos(u.at))
		case row > col:
			return false, fmt.Sprintf("the condition evaluated at %s sees the row of the FROM clause in place of a column of the same name", s.w.instrPos(u.at))
		}
	}
	return true, "row, then columns, in the scope of the condition"
}

// ---------------------------------------------------------------- GROUP BY

func (w *World) groupGate(r *Report, sel *types.Named, eval *ssa.Function) {
	it := w.typeNamed("types", "GroupbyActor")
	if it == nil {
		r.Ob("R1-gate", "GROUP BY", "-", false, "types.GroupbyActor was not found")
		return
	}
	iface, _ := it.Underlying().(*types.Interface)
	if iface == nil {
		return
	}
	for _, f := range w.implsOf(iface, "GetNextRow") {
		if len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		name := w.Name(f)
		run := func(where bool, cond string) (*selWorld, *interp, string) {
			s := &selWorld{w: w, sel: sel, eval: eval, isNil: map[string]bool{"Where": !where, "GroupBy": false, "From": false}, cond: cond}
			in := s.interp()
			in.run(f, s.args(in, f), nil)
			return s, in, in.failed
		}
		for _, c := range []struct {
			key, cond string
			where     bool
			emit      bool
		}{
			{"GROUP BY without condition", "", false, true},
			{"GROUP BY, condition true", "true", true, true},
			{"GROUP BY, condition false", "false", true, false},
			{"GROUP BY, condition nil", "nil", true, false},
		} {
			s, in, fail := run(c.where, c.cond)
			ok, why := true, "rows without end"
			columns := map[string]*term{}
			for _, e := range in.evs("call") {
				if e.name.name == "Transform" && len(e.args) > 0 {
					if t := e.res.only(); t != nil && t.op == "tuple" {
						if row := e.args[len(e.args)-1].only(); row != nil && isReceived(row) {
							columns[t.args[0].key] = row
						}
					}
				}
			}
			var rets []*aevent
			for _, e := range in.evs("return") {
				if e.fn == f && len(e.args) == 5 {
					rets = append(rets, e)
				}
			}
			back := ""
			for _, e := range in.evs("back") {
				if w.rowLoop(e) {
					back = w.instrPos(e.in)
				}
			}
			switch {
			case fail != "":
				ok, why = false, fail
			case c.where && len(s.reduce) == 0:
				ok, why = false, "the condition is never evaluated"
			case c.emit && back != "":
				ok, why = false, fmt.Sprintf("the row can be skipped: the loop at %s takes the next", back)
			case c.emit && len(rets) == 0:
				ok, why = false, "no row is ever given to the grouper"
			case !c.emit && len(rets) > 0:
				ok, why = false, fmt.Sprintf("returns at %s for a row that did not pass the condition", w.instrPos(rets[0].in))
			case !c.emit && back == "":
				ok, why = false, "the next row is never taken"
			}
			if ok && c.emit {
				for _, e := range rets {
					lazy, raw, err := e.args[0].only(), e.args[1].only(), e.args[4].only()
					switch {
					case err == nil || unbox(err).op != "nil" && err.op != "nil":
						ok, why = false, fmt.Sprintf("the row returned at %s comes with an error: %s", w.instrPos(e.in), e.args[4])
					case lazy == nil || columns[unbox(lazy).key] == nil:
						ok, why = false, fmt.Sprintf("what is returned at %s is not the columns of the row: %s", w.instrPos(e.in), e.args[0])
					case raw == nil || !isReceived(raw):
						ok, why = false, fmt.Sprintf("what is returned at %s is not the row: %s", w.instrPos(e.in), e.args[1])
					}
				}
			}
			r.Ob("R1-gate", c.key, w.Pos(f.Pos()), ok, "%s: %s", name, why)
			if c.emit && fail == "" {
				ok, why := true, "evaluated over the row and its columns"
				if c.where {
					ok, why = s.seesRow(columns)
					r.Ob("R2-row", "condition of GROUP BY", w.Pos(f.Pos()), ok, "%s", why)
				}
			}
		}
		// no more rows: an error, so that the grouper stops
		s := &selWorld{w: w, sel: sel, eval: eval, isNil: clauses(plainSelect), cond: "true"}
		in := s.interp()
		as := in.assume
		in.assume = func(t *term) *term {
			if t.op == "recvok" || t.op == "res" && t.str == "1" && t.args[0].op == "select" {
				return in.boolean(false)
			}
			return as(t)
		}
		in.run(f, s.args(in, f), nil)
		ok, why, n := true, "an error tells the grouper", 0
		for _, e := range in.evs("return") {
			if e.fn == f && len(e.args) == 5 {
				n++
				for _, t := range e.args[4] {
					if unbox(t).op == "nil" || t.op == "nil" || t == in.top {
						ok, why = false, fmt.Sprintf("returns at %s without an error when there are no more rows", w.instrPos(e.in))
					}
				}
			}
		}
		if n == 0 && ok {
			ok, why = false, "does not return when there are no more rows"
		}
		r.Ob("R4-stages", "end of the rows of GROUP BY", w.Pos(f.Pos()), ok, "%s: %s", name, why)
	}
}

// ---------------------------------------------------------------- stages

// copyOf: what the clauses of a _Select given to another stage are, at the time of the call.
func (s *selWorld) clausesOf(in *interp, recv *term, self *term) (changed []string) {
	st := s.sel.Underlying().(*types.Struct)
	if recv == self {
		return nil
	}
	for k := 0; k < st.NumFields(); k++ {
		f := st.Field(k)
		if st.Tag(k) == "" || f.Name() == "Explain" || f.Name() == "Comments" {
			continue
		}
		fa := in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{recv}})
		v := in.load(in.cur, fa).only()
		want := in.load(in.cur, in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{self}})).only()
		if v == nil || want == nil || v.key != want.key {
			d := "?"
			if v != nil {
				d = v.op
			}
			changed = append(changed, f.Name()+"="+d)
		}
	}
	return changed
}

func (w *World) stages(r *Report, sel *types.Named, eval *ssa.Function) {
	for _, c := range []struct {
		key  string
		nils map[string]bool
		drop string
		from []string // rows of the inner stage go through here
	}{
		{"LIMIT", clauses(plainSelect, "Limit", false, "GroupBy", false, "OrderBy", false), "Limit=nil", nil},
		{"ORDER BY", clauses(plainSelect, "OrderBy", false), "OrderBy=nil", nil},
	} {
		var inner []string
		s := &selWorld{w: w, sel: sel, eval: eval, isNil: c.nils}
		s.onCall = func(in *interp, cc *ssa.CallCommon, g *ssa.Function, args []tset) {
			if g == eval && len(args) > 0 {
				if t := args[0].only(); t != nil {
					inner = append(inner, strings.Join(s.clausesOf(in, t, in.param(eval.Params[0].Name(), eval.Params[0].Type())), ","))
				} else {
					inner = append(inner, "?")
				}
			}
		}
		in := s.interp()
		in.run(eval, s.args(in, eval), nil)
		ok, why := true, "the rest of the query is evaluated with only this clause removed"
		if in.failed != "" {
			ok, why = false, in.failed
		} else if len(inner) == 0 {
			ok, why = false, "the rest of the query is not evaluated by the evaluator of SELECT"
		}
		for _, d := range inner {
			if d != c.drop {
				ok, why = false, fmt.Sprintf("the rest of the query is evaluated with these clauses changed: %s, want only %s", d, c.drop)
			}
		}
		r.Ob("R4-stages", c.key+" inner query", w.Pos(eval.Pos()), ok, "%s", why)
		// every row is passed on
		s = &selWorld{w: w, sel: sel, eval: eval, isNil: c.nils, block: true}
		in = s.interp()
		in.run(eval, s.args(in, eval), nil)
		ok, why = true, "no turn gets past the hand-over"
		for _, e := range in.evs("back") {
			if w.rowLoop(e) {
				ok, why = false, fmt.Sprintf("the loop over the rows at %s can take the next row without having handed this one over", w.instrPos(e.in))
			}
		}
		if len(in.evs("call"))+len(in.evs("enter")) == 0 || in.failed != "" {
			ok, why = false, "not analysed "+in.failed
		}
		r.Ob("R4-stages", c.key+" passes every row", w.Pos(eval.Pos()), ok, "%s", why)
		if c.key == "LIMIT" {
			continue
		}
		s = &selWorld{w: w, sel: sel, eval: eval, isNil: c.nils}
		in = s.interp()
		in.run(eval, s.args(in, eval), nil)
		ok, why = true, "rows without end"
		roots := goRoots(in)
		for _, e := range in.evs("return") {
			if roots[e.fn] {
				ok, why = false, fmt.Sprintf("the query ends at %s although there are more rows and nobody cancelled it", w.instrPos(e.in))
			}
		}
		r.Ob("R4-stages", c.key+" does not stop early", w.Pos(eval.Pos()), ok && len(roots) > 0, "%s", why)
	}
	// GROUP BY: the actor works on the same query and the rows of its FROM clause
	for _, order := range []bool{false, true} {
		key := "GROUP BY"
		if order {
			key = "GROUP BY ORDER BY"
		}
		n, bad := 0, ""
		s := &selWorld{w: w, sel: sel, eval: eval, isNil: clauses(plainSelect, "GroupBy", false, "OrderBy", !order)}
		s.onCall = func(in *interp, cc *ssa.CallCommon, g *ssa.Function, args []tset) {
			if callID(cc).name != "Group" {
				return
			}
			self := in.param(eval.Params[0].Name(), eval.Params[0].Type())
			for _, a := range args {
				t := a.only()
				if t == nil || t.op != "iface" || w.typeMethod(t.typ, "GetNextRow") == nil {
					continue
				}
				n++
				st, _ := namedOf(t.typ).Underlying().(*types.Struct)
				if st == nil {
					continue
				}
				d, rows := false, false
				for k := 0; k < st.NumFields(); k++ {
					f := st.Field(k)
					v := in.load(in.cur, in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{t.args[0]}})).only()
					if v == nil {
						continue
					}
					if namedOf(f.Type()) == sel {
						d = true
						for _, c := range s.clausesOf(in, v, self) {
							if !strings.HasPrefix(c, "OrderBy") && !strings.HasPrefix(c, "Limit") {
								bad = "the grouper works on a query with a changed clause: " + c
							}
						}
					}
					if _, ok := f.Type().Underlying().(*types.Chan); ok {
						rows = true
						if !termHas(v, func(t *term) bool { return t.op == "field" && t.str == "From" && isFieldOf(t.fld, sel) }) {
							bad = "the rows given to the grouper are not those of the FROM clause: " + v.key
						}
					}
				}
				if !d || !rows {
					bad = "the grouper is not given the query and its rows"
				}
			}
		}
		in := s.interp()
		in.run(eval, s.args(in, eval), nil)
		ok, why := true, "the grouper works on this query and the rows of its FROM clause"
		if in.failed != "" {
			ok, why = false, in.failed
		} else if n == 0 {
			ok, why = false, "no grouper is called"
		} else if bad != "" {
			ok, why = false, bad
		}
		r.Ob("R4-stages", key+" source", w.Pos(eval.Pos()), ok, "%s", why)
		if order {
			s := &selWorld{w: w, sel: sel, eval: eval, isNil: s.isNil, block: true}
			in := s.interp()
			in.run(eval, s.args(in, eval), nil)
			ok, why := true, "no turn gets past the hand-over"
			for _, e := range in.evs("back") {
				if w.rowLoop(e) {
					ok, why = false, fmt.Sprintf("the loop over the groups at %s can take the next without having handed this one over", w.instrPos(e.in))
				}
			}
			r.Ob("R4-stages", key+" passes every row", w.Pos(eval.Pos()), ok, "%s", why)
			s = &selWorld{w: w, sel: sel, eval: eval, isNil: s.isNil}
			in = s.interp()
			in.run(eval, s.args(in, eval), nil)
			ok, why = true, "groups without end"
			roots := goRoots(in)
			for _, e := range in.evs("return") {
				if roots[e.fn] {
					ok, why = false, fmt.Sprintf("ends at %s although there are more groups and nobody cancelled", w.instrPos(e.in))
				}
			}
			r.Ob("R4-stages", key+" does not stop early", w.Pos(eval.Pos()), ok && len(roots) > 0, "%s", why)
		}
	}
	w.grouperTakesAll(r)
}

// grouperTakesAll: a grouper counts every row it is given, in each turn, until it is told there
// are no more, and hands over every group.
func (w *World) grouperTakesAll(r *Report) {
	it := w.typeNamed("types", "Grouper")
	if it == nil {
		return
	}
	iface, _ := it.Underlying().(*types.Interface)
	if iface == nil {
		return
	}
	for _, f := range w.implsOf(iface, "Group") {
		if len(f.Blocks) == 0 || f.Synthetic != "" || w.delegates(f) {
			continue
		}
		if recvNamed(f) != nil && recvNamed(f).Obj().Name() == "Scope" {
			continue
		}
		run := func(more bool, stop func(ssa.Instruction) bool) *interp {
			in := newInterp(w)
			in.enterGo = true
			in.stop = stop
			in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
				return g == nil || outermost(g).Pkg != f.Pkg
			}
			in.assume = func(t *term) *term {
				if v := running(in, t); v != nil {
					return v
				}
				if t.op == "bin" && t.str == "==" {
					for i := range t.args {
						a, b := t.args[i], t.args[1-i]
						if b.op == "nil" && a.op == "res" && a.str == "4" && strings.HasSuffix(a.args[0].str, ".GetNextRow") {
							return in.boolean(more)
						}
					}
				}
				return nil
			}
			var args []tset
			for _, p := range f.Params {
				args = append(args, tset{in.param(p.Name(), p.Type())})
			}
			in.run(f, args, nil)
			return in
		}
		named := func(n string) func(ssa.Instruction) bool {
			return func(i ssa.Instruction) bool {
				c, ok := i.(ssa.CallInstruction)
				return ok && callID(c.Common()).name == n
			}
		}
		turn := func(in *interp, has string) string {
			for _, e := range in.evs("back") {
				for b := range naturalLoop(e.in.Block()) {
					for _, i := range b.Instrs {
						if w.mayDo(i, named(has), 0) {
							return w.instrPos(e.in)
						}
					}
				}
			}
			return ""
		}
		in := run(true, nil)
		ok, why := true, "every row is taken and counted"
		roots := goRoots(in)
		switch {
		case in.failed != "":
			ok, why = false, in.failed
		case turn(in, "GetNextRow") == "":
			ok, why = false, "no loop takes the rows"
		}
		for _, e := range in.evs("return") {
			if roots[e.fn] {
				ok, why = false, fmt.Sprintf("stops at %s although there are more rows", w.instrPos(e.in))
			}
		}
		if at := turn(run(true, named("MaterializeRow")), "GetNextRow"); at != "" && ok {
			ok, why = false, fmt.Sprintf("the loop at %s can take the next row without having counted this one", at)
		}
		for _, e := range run(false, nil).evs("call") {
			if e.name.name == "MaterializeRow" && ok {
				ok, why = false, fmt.Sprintf("counts a row at %s when there are no more", w.instrPos(e.in))
			}
		}
		r.Ob("R4-stages", w.Name(f)+" counts every row", w.Pos(f.Pos()), ok, "%s", why)
	}
}

// ---------------------------------------------------------------- LIMIT

func (w *World) limits(r *Report, sel *types.Named, eval *ssa.Function) {
	isLimit := func(v ssa.Value) (deref, ptr bool) {
		if f, ok := v.(*ssa.Field); ok {
			if st, ok := f.X.Type().Underlying().(*types.Struct); ok {
				fl := st.Field(f.Field)
				return false, fl.Name() == "Limit" && isFieldOf(fl, sel)
			}
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false, false
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if fl := fieldOf(fa); fl != nil && fl.Name() == "Limit" && isFieldOf(fl, sel) {
				return false, true
			}
		}
		return false, false
	}
	for _, n := range []int64{-1, 0, 1, 2, 3, 5, 6} {
		cell := &cpCell{}
		cp := &constProp{w: w, max: 4000}
		cp.value = func(v ssa.Value) (cpVal, bool) {
			if _, ptr := isLimit(v); ptr {
				return cpVal{cell: cell, nn: true}, true
			}
			return cpVal{}, false
		}
		cp.follow = func(f *ssa.Function) bool {
			o := outermost(f)
			if f == eval || o.Pkg != eval.Pkg {
				return false
			}
			if o == eval {
				return true
			}
			return !w.isEvaluator(o) && (recvNamed(o) == sel || o.Object() != nil && !o.Object().Exported())
		}
		st := &cpState{cells: map[*cpCell]cpVal{cell: {c: constant.MakeInt64(n)}}, sent: map[string]int{}}
		want := n
		if want < 0 {
			want = 0
		}
		paths, bad := 0, ""
		cp.run(eval, nil, nil, st, 0, func(s *cpState, rets []cpVal, ended bool) {
			if bad != "" {
				return
			}
			paths++
			if !ended {
				bad = fmt.Sprintf("does not stop: %d rows were handed over when the analysis gave up", s.sent["chan1"])
				return
			}
			if len(rets) != 1 || rets[0].id == "" {
				bad = "the stream given back was not made by this evaluation"
				return
			}
			if got := s.sent[rets[0].id]; int64(got) != want {
				bad = fmt.Sprintf("%d rows are handed over", got)
			}
		})
		ok, why := bad == "" && paths > 0, fmt.Sprintf("%d paths", paths)
		if bad != "" {
			why = bad
		}
		if cp.fails != "" {
			ok, why = false, cp.fails
		}
		r.Ob("R3-limit", fmt.Sprintf("LIMIT %d", n), w.Pos(eval.Pos()), ok, "%s", why)
	}
}
