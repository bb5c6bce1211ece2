package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = check{run: runC25,
		explanation: "Path-sensitive interprocedural dataflow over the SSA follows one row at a time. Every place which receives from a stream, or takes the elements of a list it then sends on, in a function that hands rows on (a stage: to a stream, to a list, to its caller, or to a worker as a scope), is an obligation: on every path to the next receive, to the end of the stream and out of the function, the row in hand, or what was made of it, was handed on exactly once, unless the query was cancelled, the row was refused by a condition of the query, or (collecting one column into a list) does not have the column. A stage that ends has seen the end of its rows, was cancelled, failed, or reads the LIMIT. Loops over lists in functions that send rows start at the first element, take each, and end after the last.",
		assumptions: []string{"which rows a condition refuses and how many a LIMIT lets through is C14", "how a grouper assigns rows to groups and what flattening makes of a row is not decided", "an index that a loop does not count up by itself is not followed", "panics are not followed"},
	}
}

const (
	rowNone = iota
	rowInHand
	rowPassed
)

// the way in hand was decided by a condition, or by a column
const (
	rowAsked = 1 << (4 + iota)
	// a number decided, or a failure: the stage may end
	rowCounted
	rowFailed
)

// rowAuto follows one row from where it is received until the next one is.
type rowAuto struct {
	nullAuto
	w     *World
	site  ssa.Instruction
	arm   int // of a select
	rows  valset
	bad   map[string]ssa.Instruction
	order []string
	list  bool // the rows come out of a list
	sends bool // the rows go to a stream
	index ssa.Value
	late  map[*ssa.Function]bool // run when the stage ends
	nulls bool                   // a NULL in a list of values is no row
}

func (a *rowAuto) report(in ssa.Instruction, format string, x ...interface{}) {
	m := fmt.Sprintf(format, x...)
	if _, ok := a.bad[m]; !ok {
		a.bad[m] = in
		a.order = append(a.order, m)
	}
}

func (a *rowAuto) received(st simState, in ssa.Instruction) simState {
	if st.res == rowInHand && st.aux&^(rowCounted|rowFailed) == 0 {
		a.report(in, "the next row is received, at %s, before the one in hand was passed on", a.w.instrPos(in))
	}
	st.res, st.aux = rowInHand, 0
	return st
}

func (a *rowAuto) pass(st simState, in ssa.Instruction) simState {
	switch st.res {
	case rowInHand:
		st.res = rowPassed
	case rowPassed:
		a.report(in, "a row is passed on again at %s", a.w.instrPos(in))
	}
	return st
}

func (a *rowAuto) step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState {
	if st.res == rowNone && in != a.site {
		return one(st)
	}
	if in == a.site {
		return one(a.received(st, in))
	}
	switch x := in.(type) {
	case *ssa.Store:
		if a.rows[x.Val] && a.w.cellOf(x.Addr) == nil {
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && fr.root && !a.list && addedToList(ia) {
				return one(a.pass(st, in))
			}
		}
	case *ssa.Send:
		if a.rows[x.X] {
			return one(a.pass(st, in))
		}
	case *ssa.Return:
		if st.res == rowInHand && fr.root {
			for _, r := range x.Results {
				if a.rows[r] {
					st.res = rowPassed
				}
			}
		}
	}
	return one(st)
}

// addedToList: the address is an element of the list of values given to append.
func addedToList(ia *ssa.IndexAddr) bool {
	al, ok := ia.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		if sl, ok := r.(*ssa.Slice); ok {
			for _, rr := range *sl.Referrers() {
				if c, ok := rr.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *rowAuto) call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if in == a.site {
		return one(a.received(st, in))
	}
	return one(st)
}

func (a *rowAuto) selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState {
	if ssa.Instruction(sel) == a.site && arm == a.arm {
		if ok == fFalse {
			if st.res == rowInHand && st.aux == 0 {
				a.report(sel, "the end is seen at %s before the row in hand was passed on", a.w.instrPos(sel))
			}
			st.res, st.aux = rowNone, 0
			return one(st)
		}
		return one(a.received(st, sel))
	}
	x := sel.States[arm]
	if x.Dir == types.SendOnly && a.rows[x.Send] && st.res != rowNone {
		return one(a.pass(st, sel))
	}
	if x.Dir == types.RecvOnly && !a.late[fr.fn] && len(a.w.doneOf(x.Chan)) > 0 {
		st.aux |= stCtxDone
	}
	return one(st)
}

func (a *rowAuto) recv(s *sim, fr *frame, st simState, u *ssa.UnOp, ok fact) []simState {
	if ssa.Instruction(u) == a.site {
		if ok == fFalse {
			if st.res == rowInHand && st.aux == 0 {
				a.report(u, "the end is seen at %s before the row in hand was passed on", a.w.instrPos(u))
			}
			st.res, st.aux = rowNone, 0
			return one(st)
		}
		return one(a.received(st, u))
	}
	if !a.late[fr.fn] && len(a.w.doneOf(u.X)) > 0 {
		st.aux |= stCtxDone
	}
	return one(st)
}

func (a *rowAuto) edge(s *sim, fr *frame, st simState, cond ssa.Value, taken bool) []simState {
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.NEQ || b.Op == token.EQL) {
		x, y := b.X, b.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if c, ok := x.(*ssa.Call); ok && isNilConst(y) && c.Call.IsInvoke() && c.Call.Method.Name() == "Err" && isContext(c.Call.Value.Type()) {
			if (b.Op == token.NEQ) == taken {
				st.aux |= stCtxDone
			}
		}
	}
	if a.index != nil && !taken {
		if b, ok := cond.(*ssa.BinOp); ok && b.Op == token.LSS && b.X == a.index && !isConst(b.Y) {
			if st.res == rowInHand && st.aux&^(rowCounted|rowFailed) == 0 {
				a.report(b, "the list ends at %s before the row in hand was passed on", a.w.instrPos(b))
			}
			st.res, st.aux = rowNone, 0
			return one(st)
		}
	}
	if failed(cond, taken) {
		st.aux |= rowFailed
	}
	if a.nulls && st.res == rowInHand && a.isNull(cond, taken) {
		st.aux |= rowAsked
	}
	if st.res == rowInHand {
		if a.refusal(cond, taken) && a.refuses(cond, map[ssa.Value]bool{}) {
			st.aux |= rowAsked
		}
		if a.ends(cond, taken) {
			st.aux |= rowCounted
		}
	}
	return one(st)
}

// isNull: the row is NULL on this edge.
func (a *rowAuto) isNull(cond ssa.Value, taken bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && a.isNull(x.X, !taken)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return taken && f != nil && a.w.inMod[f] && saysNil(f) && len(x.Call.Args) == 1 && a.rows[x.Call.Args[0]]
	}
	x, isNil, ok := nilTest(cond, taken)
	return ok && isNil && a.rows[x]
}

// ends: a count, or a failure of what is done to the row.
func (a *rowAuto) ends(cond ssa.Value, taken bool) bool {
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		return a.ends(n.X, !taken)
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	if e, ok := b.X.(*ssa.Extract); ok {
		if _, arm := e.Tuple.(*ssa.Select); arm {
			return false
		}
	}
	if bt, ok := b.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		return true
	}
	return false
}

// failed: an error was returned.
func failed(cond ssa.Value, taken bool) bool {
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		return failed(n.X, !taken)
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	return isErrorType(x.Type()) && isNilConst(y) && (b.Op == token.NEQ) == taken
}

// refusal: this outcome of the condition may be the one that refuses.
func (a *rowAuto) refusal(cond ssa.Value, taken bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.refusal(x.X, !taken)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && a.w.inMod[f] && saysNil(f) {
			return taken
		}
		return !taken
	case *ssa.Extract:
		return !taken
	case *ssa.BinOp:
		if isNilConst(x.X) || isNilConst(x.Y) {
			return (x.Op == token.EQL) == taken
		}
	}
	return true
}

// saysNil: the function is true of nil.
func saysNil(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, to := range b.Succs {
			x, isNil, ok := nilTest(br.Cond, i == 0)
			if !ok || !isNil {
				continue
			}
			if _, ok := x.(*ssa.Parameter); !ok {
				continue
			}
			if ret, ok := to.Instrs[len(to.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if c, ok := ret.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
					return true
				}
			}
		}
	}
	return false
}

// refuses: the outcome of a parsed condition, or whether the row has a column.
func (a *rowAuto) refuses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		id := callID(&x.Call)
		if id.name == "Reduce" {
			recv := x.Call.Value
			if !x.Call.IsInvoke() && len(x.Call.Args) > 0 {
				recv = x.Call.Args[0]
			}
			if n := namedOf(recv.Type()); n != nil && a.w.astTypes()[n] {
				return true
			}
		}
		// a column of each row is collected
		if id.name == "Associative" && !a.sends {
			for _, y := range x.Call.Args {
				if a.rows[y] {
					return true
				}
			}
		}
		if t := x.Call.StaticCallee(); t != nil && a.w.inMod[t] {
			for _, b := range t.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, r := range ret.Results {
						if a.refuses(r, seen) {
							return true
						}
					}
				}
			}
		}
		for _, y := range x.Call.Args {
			if a.refuses(y, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return a.refuses(x.X, seen) || a.refuses(x.Y, seen)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.refuses(x.X, seen)
		}
		if x.Op == token.MUL {
			if c := a.w.cellOf(x.X); c != nil {
				vals, _ := a.w.cellStores(c)
				for _, y := range vals {
					if a.refuses(y, seen) {
						return true
					}
				}
			}
		}
	case *ssa.Extract:
		// what is kept in a list of the stage's own
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && a.list && a.rows[t.X] {
			return true
		}
		// whether there is something under a key
		if c, ok := x.Tuple.(*ssa.Call); ok && a.list && x.Index > 0 {
			for _, y := range c.Call.Args {
				if a.rows[y] {
					return true
				}
			}
		}
		return a.refuses(x.Tuple, seen)
	case *ssa.TypeAssert:
		return a.refuses(x.X, seen)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if a.refuses(y, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return a.refuses(x.X, seen)
	case *ssa.ChangeInterface:
		return a.refuses(x.X, seen)
	case *ssa.ChangeType:
		return a.refuses(x.X, seen)
	}
	return false
}

// rowValues: what is made of a row.
func (w *World) rowValues(row ssa.Value) valset {
	keeps := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Kind() == types.String
		case *types.Signature, *types.Chan:
			return false
		}
		return !w.scopeLike(t) && !isErrorType(t)
	}
	return w.flow([]ssa.Value{row}, flowOpts{params: true, returns: true, extra: func(v ssa.Value, ref ssa.Instruction, add func(ssa.Value)) {
		switch x := ref.(type) {
		case *ssa.Call:
			arg := false
			for _, y := range x.Call.Args {
				arg = arg || y == v
			}
			if x.Call.IsInvoke() && x.Call.Value == v {
				arg = true
			}
			if !arg {
				return
			}
			// the scope a row is put into
			if id := callID(&x.Call); id.name == "AppendVars" {
				if x.Call.IsInvoke() {
					add(x.Call.Value)
				} else {
					add(x.Call.Args[0])
				}
				return
			}
			if w.scopeLike(v.Type()) {
				return
			}
			if tup, ok := x.Type().(*types.Tuple); ok {
				for _, rf := range *x.Referrers() {
					if e, ok := rf.(*ssa.Extract); ok && keeps(tup.At(e.Index).Type()) {
						add(e)
					}
				}
			} else if keeps(x.Type()) {
				add(x)
			}
		case *ssa.Store:
			if x.Val != v {
				return
			}
			switch ad := x.Addr.(type) {
			case *ssa.FieldAddr:
				if al, ok := ad.X.(*ssa.Alloc); ok {
					add(al)
				}
			case *ssa.IndexAddr:
				if al, ok := ad.X.(*ssa.Alloc); ok && !addedToList(ad) {
					add(al)
				}
			}
		case *ssa.UnOp:
			if _, ok := v.(*ssa.Alloc); ok && x.Op == token.MUL {
				add(x)
			}
		case *ssa.Slice:
			add(x)
		case *ssa.Field:
			add(x)
		case *ssa.FieldAddr:
			for _, rf := range *x.Referrers() {
				if u, ok := rf.(*ssa.UnOp); ok && u.Op == token.MUL && x.X == v {
					add(u)
				}
			}
		}
	}})
}

func (w *World) scopeLike(t types.Type) bool {
	n := namedOf(t)
	return n != nil && (w.isScope(n) || n.Obj().Name() == "Scope")
}

func runC25(w *World, r *Report) {
	r.Rule("R1-passed-on", "a row that was received is passed on, once, before the next one is received", 15)
	r.Rule("R3-to-the-end", "a stage ends when it has seen the end of its rows, was cancelled or failed, or a LIMIT was reached", 15)
	r.Rule("R2-whole-list", "a list of rows is gone through from its first to its last element", 2)
	w.buildSites()
	check := func(f *ssa.Function, site ssa.Instruction, arm int, row ssa.Value, rowReturn bool) {
		a := &rowAuto{w: w, site: site, arm: arm, rows: w.rowValues(row), list: !rowReturn, bad: map[string]ssa.Instruction{}}
		if _, ok := site.(*ssa.Call); ok {
			a.list = false
		}
		touches := w.eventfulSync(func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Send:
				return a.rows[x.X]
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && a.rows[s.Send] {
						return true
					}
				}
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				return ok && !a.list && a.rows[x.Val] && x.Parent() == f && addedToList(ia)
			}
			return false
		})
		returned := false
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok && rowReturn {
				for _, v := range ret.Results {
					returned = returned || a.rows[v]
				}
			}
		})
		if !touches[f] && !returned {
			r.Notes = append(r.Notes, "not a stage: "+w.Name(f)+" at "+w.instrPos(site))
			return
		}
		early := ""
		if !rowReturn {
			if idx := elementIndex(site); idx != nil {
				if ok, why := loopsOver(idx); ok && why != "" {
					a.index = idx
				}
			}
			if _, ok := site.(*ssa.Call); ok {
				a.list, a.nulls = false, true
			}
		}
		a.sends = sendsRows(f)
		a.late = map[*ssa.Function]bool{}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			if d, ok := in.(*ssa.Defer); ok {
				for _, t := range w.callees(&d.Call, false) {
					a.late[t] = true
				}
			}
		})
		s := newSim(w, a, func(fn *ssa.Function) bool { return fn != f && touches[fn] })
		for _, o := range s.run(&frame{fn: f, root: true}, simState{}) {
			done := o.st.res == rowPassed || a.nulls && o.st.res == rowInHand && o.st.aux&rowAsked != 0
			if done && o.st.aux&^(rowCounted|rowAsked) == 0 && !returned && (!a.list || a.index != nil) && !w.readsLimit(outermost(f)) {
				early = w.Name(f) + " may end at " + w.instrPos(o.site) + " without having seen the end of the rows"
			}
			if o.st.res == rowInHand && o.st.aux == 0 {
				a.report(o.site, "%s ends at %s before the row in hand was passed on", w.Name(f), w.instrPos(o.site))
			}
		}
		msg := ""
		for _, m := range a.order {
			if msg != "" {
				msg += "; "
			}
			msg += m
		}
		r.Ob("R3-to-the-end", w.Name(f), w.instrPos(site), early == "", "%s", early)
		r.Ob("R1-passed-on", w.Name(f), w.instrPos(site), msg == "", "%s", msg)
	}
	// a list is gone through from the first to the last
	whole := func(f *ssa.Function, ld ssa.Instruction) {
		ok, why := loopsOver(elementIndex(ld))
		if why != "" {
			r.Ob("R2-whole-list", w.Name(f), w.instrPos(ld), ok, "%s", why)
		}
	}
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Call:
				if ix := elementIndex(x); ix != nil && underHeader(b) {
					if _, why := loopsOver(ix); why != "" {
						check(f, x, -1, x, false)
					}
					whole(f, x)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if elementIndex(x) != nil && sendsRows(f) && underHeader(b) {
						if keyOrRow(x.Type()) {
							check(f, x, -1, x, false)
						}
						whole(f, x)
					}
					return
				}
				if x.Op != token.ARROW || !rowStream(x.X.Type()) {
					return
				}
				if !x.CommaOk {
					if len(*x.Referrers()) > 0 {
						check(f, x, -1, x, true)
					}
					return
				}
				for _, rf := range *x.Referrers() {
					if e, ok := rf.(*ssa.Extract); ok && e.Index == 0 {
						check(f, x, -1, e, true)
					}
				}
			case *ssa.Select:
				k := 2
				for ai, s := range x.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					if rowStream(s.Chan.Type()) {
						for _, rf := range *x.Referrers() {
							if e, ok := rf.(*ssa.Extract); ok && e.Index == k {
								check(f, x, ai, e, true)
							}
						}
					}
					k++
				}
			}
		})
	}
}

// keyOrRow: a row, or the key under which one is kept.
func keyOrRow(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.String
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// readsLimit: the function evaluates what the grammar captures after LIMIT.
func (w *World) readsLimit(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			return
		}
		st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		found = found || ok && strings.Contains(st.Tag(fa.Field), "LIMIT")
	})
	for _, g := range f.AnonFuncs {
		found = found || w.readsLimit(g)
	}
	return found
}

func sendsRows(f *ssa.Function) bool {
	found := false
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Send:
			found = found || rowStream(x.Chan.Type())
		case *ssa.Select:
			for _, s := range x.States {
				found = found || s.Dir == types.SendOnly && rowStream(s.Chan.Type())
			}
		}
	})
	return found
}

// elementIndex: which element of a list is read here.
func elementIndex(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	case *ssa.Call:
		id := callID(&x.Call)
		if id.pkg == "reflect" && id.recv == "Value" && id.name == "Index" && len(x.Call.Args) == 2 {
			return x.Call.Args[1]
		}
	}
	return nil
}

func underHeader(in *ssa.BasicBlock) bool {
	for _, b := range in.Parent().Blocks {
		if b.Dominates(in) && isHeader(b) {
			return true
		}
	}
	return false
}

// loopsOver: the index goes from the first to the last element; nothing is said of an index that is
// not counted up by the loop.
func loopsOver(index ssa.Value) (bool, string) {
	idx := index
	off := int64(0)
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, isc := constIntOf(b.Y); isc {
			idx, off = b.X, c
		}
	}
	phi, ok := idx.(*ssa.Phi)
	if !ok {
		return true, ""
	}
	start, step := false, false
	var first int64
	for i, e := range phi.Edges {
		if phi.Block().Dominates(phi.Block().Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(phi) {
				return true, ""
			}
			c, isc := constIntOf(b.Y)
			if !isc || b.Op != token.ADD || c <= 0 {
				return true, ""
			}
			if c != 1 {
				return false, fmt.Sprintf("every %d. element only", c)
			}
			step = true
			continue
		}
		c, isc := constIntOf(e)
		if !isc {
			return true, ""
		}
		first, start = c, true
	}
	if !start || !step {
		return true, ""
	}
	if first+off != 0 {
		return false, fmt.Sprintf("starts at element %d", first+off)
	}
	// the bound
	cond, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return true, ""
	}
	b, ok := cond.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS || b.X != index {
		return true, ""
	}
	if sub, ok := b.Y.(*ssa.BinOp); ok && sub.Op == token.SUB {
		if c, isc := constIntOf(sub.Y); isc && c > 0 {
			return false, "ends before the last element"
		}
	}
	return true, "from the first to the last"
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}
