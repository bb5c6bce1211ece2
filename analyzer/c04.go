package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = check{run: func(w *World, r *Report) { runScopes(w, r, true) },
		explanation: "Ownership typestate by path-sensitive interprocedural dataflow over the SSA. Every nested scope opened in the module (each call of Copy on a scope, each scope taken off a channel) is followed with helpers, goroutines, deferred calls, closer functions and, when it or its closer is returned, through the callers: on every way out it has been closed, or its parent opened by the same activation takes it along, or it was handed to something that closes it (a goroutine that closes it on all its ways out, a channel whose receivers close it, a field whose holder closes it, a destructor). Opening another one in a loop while the previous one is open and nothing will close it before the loop ends is a violation as well.",
		assumptions: []string{"closing a scope closes its nested scopes (decided by C06)", "panics are not followed", "scopes returned from exported functions nobody in the module calls are the caller's"},
	}
	checks["C05"] = check{run: func(w *World, r *Report) { runScopes(w, r, false) },
		explanation: "The same ownership analysis, looking at the moment each nested scope is closed: no stream that was started with this scope may still be running (its end was seen, or its context was cancelled), no goroutine that uses the scope may still be running, nothing is evaluated in the scope afterwards, and no value that captured it (a closure or a structure holding it, lazy rows included) is returned or used after it was closed.",
		assumptions: []string{"a stream that was cancelled may finish concurrently with the close, as the property allows", "values produced by evaluating an expression are taken not to hold the scope unless they are built from it in the same activation"},
	}
}

const (
	scUnborn = iota
	scOpen
	scClosed
	scHanded
)
const (
	auxStream   = 1 << iota // a stream started over the scope is running
	auxCtxDone              // the producer context is done
	auxSender               // a goroutine uses it
	auxReturned             // it or its closer has been returned
)

var scopeQuiet = map[string]bool{"Close": true, "Log": true, "Trace": true, "Debug": true, "Warn": true, "Error": true, "IsClosed": true, "StackDepth": true, "GetStats": true, "GetLogger": true, "Explainer": true}

type scopeAuto struct {
	nullAuto
	w       *World
	birth   ssa.Instruction
	alias   valset
	closers valset
	values  valset // values that captured the scope
	parent  valset // the scope it was copied from, here and in callers
	pbirth  map[ssa.Instruction]bool
	plocal  bool
	plift   bool
	creator *ssa.Function
	leak    msgs
	early   msgs
	streams map[ssa.Value]map[interface{}]bool // stream calls over it -> contexts
	salias  valset
	mute    bool
}

type msgs struct {
	seen  map[string]bool
	order []string
}

func (m *msgs) add(format string, x ...interface{}) {
	s := fmt.Sprintf(format, x...)
	if m.seen == nil {
		m.seen = map[string]bool{}
	}
	if !m.seen[s] {
		m.seen[s] = true
		m.order = append(m.order, s)
	}
}

func (m *msgs) text() string {
	out := ""
	for _, s := range m.order {
		if out != "" {
			out += "; "
		}
		out += s
	}
	return out
}

func (a *scopeAuto) reborn(st simState, in ssa.Instruction) {
	if st.res == scOpen && !a.plift {
		a.leak.add("another one is opened at %s while the previous one is still open", a.w.instrPos(in))
	}
}

func (a *scopeAuto) born(st simState, in ssa.Instruction) simState {
	if st.res == scOpen {
		a.leak.add("another one is opened at %s while the previous one is still open", a.w.instrPos(in))
	}
	st.res, st.aux = scOpen, 0
	return st
}

func isScopeCopy(w *World, c *ssa.CallCommon) bool {
	id := callID(c)
	return id.name == "Copy" && id.recv == "Scope" && w.isScope(c.Signature().Results().At(0).Type())
}

func scopeRecv(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	if len(c.Args) > 0 {
		return c.Args[0]
	}
	return nil
}

func isScopeClose(w *World, c *ssa.CallCommon) (ssa.Value, bool) {
	id := callID(c)
	if id.name != "Close" || id.recv != "Scope" {
		return nil, false
	}
	r := scopeRecv(c)
	return r, r != nil && w.isScope(r.Type())
}

func (a *scopeAuto) close(st simState, in ssa.Instruction) simState {
	if st.res == scUnborn {
		return st
	}
	if st.res == scOpen || st.res == scHanded {
		if st.aux&auxStream != 0 && st.aux&auxCtxDone == 0 {
			a.early.add("it is closed at %s while a stream that evaluates in it may still be running", a.w.instrPos(in))
		}
		if st.aux&auxSender != 0 {
			a.early.add("it is closed at %s while a goroutine that uses it may still be running", a.w.instrPos(in))
		}
	}
	st.res = scClosed
	return st
}

// closerCall: the called function value closes the scope.
func (a *scopeAuto) closerCall(c *ssa.CallCommon) bool {
	return !c.IsInvoke() && c.StaticCallee() == nil && a.closers[c.Value]
}

func (a *scopeAuto) step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState {
	if in == a.birth && fr.root {
		if e, ok := in.(*ssa.Extract); ok {
			if sel, ok := e.Tuple.(*ssa.Select); ok {
				if f := s.getFact(st, sel); f >= selBase {
					arm := int((f - selBase) / 3)
					if !isArmOf(sel, e, arm) || fact((f-selBase)%3) == fFalse {
						return one(st)
					}
				}
			}
		}
		return one(a.born(st, in))
	}
	if a.pbirth[in] && fr.root && st.res != scUnborn {
		st.res, st.aux = scUnborn, 0
		return one(st)
	}
	if st.res == scUnborn {
		return one(st)
	}
	switch x := in.(type) {
	case *ssa.Store:
		if a.alias[x.Val] || a.closers[x.Val] {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && a.w.closedField(fieldOf(fa)) {
				st.res = scHanded
			} else if g, ok := x.Addr.(*ssa.Global); ok && g != nil {
				st.res = scHanded
			}
		}
	case *ssa.Send:
		if a.alias[x.X] {
			st.res = scHanded
		}
	case *ssa.Return:
		for _, r := range x.Results {
			if (a.alias[r] || a.closers[r]) && fr.root {
				st.aux |= auxReturned
				if a.alias[r] && st.res == scOpen && convOfScope(a.w, r) {
					st.res = scHanded // the caller's data from here on
				}
			}
			if a.values[r] && fr.root && st.res == scClosed {
				a.early.add("a value that captured it is returned at %s after it was closed", a.w.instrPos(in))
			}
			if a.alias[r] && fr.root && st.res == scClosed {
				a.early.add("it is returned at %s after it was closed", a.w.instrPos(in))
			}
		}
	}
	return one(st)
}

func isArmOf(sel *ssa.Select, e *ssa.Extract, arm int) bool {
	idx := 2
	for i, s := range sel.States {
		if s.Dir == types.RecvOnly {
			if idx == e.Index {
				return i == arm
			}
			idx++
		}
	}
	return false
}

func (a *scopeAuto) call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if in == a.birth && fr.root {
		return one(a.born(st, in))
	}
	if a.pbirth[in] && fr.root && st.res != scUnborn {
		st.res, st.aux = scUnborn, 0
		return one(st)
	}
	if st.res == scUnborn {
		return one(st)
	}
	if r, ok := isScopeClose(a.w, c); ok && (a.alias[r] || (a.parent[r] && st.res != scUnborn)) {
		return one(a.close(st, in))
	}
	if a.closerCall(c) {
		return one(a.close(st, in))
	}
	if isWaitCall(c) {
		st.aux &^= auxSender
	}
	if f, ok := isGoCall(c); ok {
		var ts []*ssa.Function
		for _, o := range a.w.origins(f, true) {
			if mc, ok := o.(*ssa.MakeClosure); ok {
				ts = append(ts, mc.Fn.(*ssa.Function))
			}
		}
		return a.spawn(s, fr, st, ts, nil, in)
	}
	// cancel
	if !c.IsInvoke() && c.StaticCallee() == nil && st.aux&auxStream != 0 {
		for _, o := range a.w.origins(c.Value, true) {
			if e, ok := o.(*ssa.Extract); ok && e.Index == 1 {
				if k, ok := e.Tuple.(*ssa.Call); ok {
					if _, isD := isCtxDerive(k); isD {
						for _, chain := range a.streams {
							for ctx := range chain {
								if ce, ok := ctx.(*ssa.Extract); ok && ce.Tuple == e.Tuple && ce.Index == 0 {
									st.aux |= auxCtxDone
								}
							}
						}
					}
				}
			}
		}
	}
	id := callID(c)
	// destructors that close it
	if id.name == "AddDestructor" && len(c.Args) > 0 {
		if a.closers[c.Args[len(c.Args)-1]] {
			st.res = scHanded
			return one(st)
		}
	}
	uses := false
	for _, x := range c.Args {
		if a.alias[x] {
			uses = true
		}
	}
	if c.IsInvoke() && a.alias[c.Value] {
		uses = true
	}
	if uses && st.res == scClosed && !(id.recv == "Scope" && scopeQuiet[id.name]) && !noEval(c) {
		a.early.add("it is used at %s (%s) after it was closed", a.w.instrPos(in), calleeLabel(c))
	}
	if st.res == scClosed {
		for _, x := range append([]ssa.Value{c.Value}, c.Args...) {
			if a.values[x] && !noEval(c) && id.recv != "Explainer" {
				a.early.add("a value that captured it is used at %s (%s) after it was closed", a.w.instrPos(in), calleeLabel(c))
				break
			}
		}
	}
	if v := in.(ssa.CallInstruction).Value(); v != nil && a.streams[v] != nil {
		st.aux |= auxStream
		st.aux &^= auxCtxDone
	}
	if st.aux&auxStream != 0 {
		for _, x := range c.Args {
			if a.salias[x] {
				st.aux &^= auxStream // somebody else's now
			}
		}
	}
	return one(st)
}

func noEval(c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() != "append"
	}
	id := callID(c)
	return id.pkg == "fmt" || id.pkg == "log"
}

func (a *scopeAuto) afterCall(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if a.pbirth[in] && fr.root && st.res != scUnborn {
		st.res, st.aux = scUnborn, 0
		return one(st)
	}
	if v := in.(ssa.CallInstruction).Value(); v != nil && a.streams[v] != nil && st.res != scUnborn {
		st.aux |= auxStream
		st.aux &^= auxCtxDone
	}
	return one(st)
}

func (a *scopeAuto) spawn(s *sim, fr *frame, st simState, targets []*ssa.Function, args []ssa.Value, in ssa.Instruction) []simState {
	for _, t := range targets {
		if !a.w.inMod[t] {
			continue
		}
		takes := false
		for _, fv := range t.FreeVars {
			if a.alias[fv] || a.closers[fv] {
				takes = true
			}
			if cell := a.w.cellOf(fv); cell != nil {
				vals, _ := a.w.cellStores(cell)
				for _, v := range vals {
					if a.alias[v] || a.closers[v] {
						takes = true
					}
				}
			}
		}
		for _, p := range t.Params {
			if a.alias[p] || a.closers[p] {
				takes = true
			}
		}
		if !takes {
			continue
		}
		if st.res == scClosed {
			a.early.add("the goroutine started at %s uses it after it was closed", a.w.instrPos(in))
		}
		closed, open := 0, 0
		for _, o := range s.run(&frame{fn: t, depth: fr.depth + 1}, simState{res: scOpen, aux: st.aux & (auxStream | auxCtxDone)}) {
			if o.st.res == scOpen {
				open++
			} else {
				closed++
			}
		}
		switch {
		case closed > 0 && open > 0:
			a.leak.add("the goroutine started at %s closes it on some of its ways out only", a.w.instrPos(in))
			st.res = scHanded
		case closed > 0:
			st.res = scHanded
			st.aux &^= auxStream
		default:
			st.aux |= auxSender
			if len(a.salias) > 0 {
				st.aux &^= auxStream
			}
		}
	}
	return one(st)
}

func (a *scopeAuto) goStmt(s *sim, fr *frame, st simState, g *ssa.Go) []simState {
	if st.res == scUnborn {
		return one(st)
	}
	if r, ok := isScopeClose(a.w, g.Common()); ok && a.alias[r] {
		return one(a.close(st, g))
	}
	return a.spawn(s, fr, st, a.w.callees(g.Common(), true), g.Call.Args, g)
}

func (a *scopeAuto) selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState {
	if st.res == scUnborn {
		return one(st)
	}
	x := sel.States[arm]
	if x.Dir == types.SendOnly && a.alias[x.Send] {
		st.res = scHanded
	}
	if x.Dir == types.RecvOnly {
		a.received(&st, x.Chan, ok)
	}
	return one(st)
}

func (a *scopeAuto) received(st *simState, ch ssa.Value, ok fact) {
	if a.salias[ch] && ok == fFalse {
		st.aux &^= auxStream
	}
	if st.aux&auxSender != 0 && !rowStream(ch.Type()) {
		if len(a.w.doneOf(ch)) == 0 {
			st.aux &^= auxSender // waited for something
		}
	}
	if a.salias[ch] && ok == fFalse {
		st.aux &^= auxSender
	}
	for _, c := range a.w.doneOf(ch) {
		for _, o := range a.w.origins(c, true) {
			for _, chain := range a.streams {
				if chain[ctxKey(o)] {
					st.aux |= auxCtxDone
				}
			}
		}
	}
}

func (a *scopeAuto) recv(s *sim, fr *frame, st simState, u *ssa.UnOp, ok fact) []simState {
	if ssa.Instruction(u) == a.birth && fr.root {
		if ok == fFalse {
			return one(st)
		}
		return one(a.born(st, u))
	}
	if st.res == scUnborn {
		return one(st)
	}
	a.received(&st, u.X, ok)
	return one(st)
}

// closedField: some code of the module closes a scope it loads from this field,
// or calls the closer it loads from it.
func (w *World) closedField(fv *types.Var) bool {
	for _, l := range w.fieldLoads[fv] {
		set := w.flow([]ssa.Value{l}, flowOpts{params: true})
		for v := range set {
			if v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				c, ok := r.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if x, ok := isScopeClose(w, c.Common()); ok && x == v {
					return true
				}
				if c.Common().Value == v && !c.Common().IsInvoke() {
					return true
				}
			}
		}
		// slices of closers: ranged over and called
		if l.Referrers() != nil {
			for _, r := range *l.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
					for _, rr := range *ia.Referrers() {
						if u, ok := rr.(*ssa.UnOp); ok && u.Referrers() != nil {
							for _, r3 := range *u.Referrers() {
								if c, ok := r3.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(u) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func scopeSelfCall(w *World) func(c *ssa.CallCommon) bool {
	return func(c *ssa.CallCommon) bool {
		id := callID(c)
		if id.recv != "Scope" {
			return false
		}
		switch id.name {
		case "AppendVars", "AppendFunctions", "AppendPlugins", "AddProtocolImpl":
			return true
		}
		return false
	}
}

type scopeRoot struct {
	fn     *ssa.Function
	val    ssa.Value
	birth  ssa.Instruction
	parent ssa.Value
	what   string
}

func scopeRoots(w *World) []scopeRoot {
	var out []scopeRoot
	for _, f := range w.Fns {
		f := f
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Call:
				if isScopeCopy(w, &x.Call) {
					out = append(out, scopeRoot{f, x, x, scopeRecv(&x.Call), "Copy"})
				}
			case *ssa.UnOp:
				if x.Op.String() != "<-" {
					return
				}
				if ch, ok := x.X.Type().Underlying().(*types.Chan); ok && w.isScope(ch.Elem()) {
					if !x.CommaOk {
						out = append(out, scopeRoot{f, x, x, nil, "receive"})
						return
					}
					for _, r := range *x.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
							out = append(out, scopeRoot{f, e, x, nil, "receive"})
						}
					}
				}
			case *ssa.Extract:
				sel, ok := x.Tuple.(*ssa.Select)
				if !ok || x.Index < 2 {
					return
				}
				if w.isScope(x.Type()) {
					out = append(out, scopeRoot{f, x, x, nil, "receive"})
				}
				_ = sel
			}
		})
	}
	return out
}

// capturedBy: the values that hold the scope: closures over it, structures it is
// stored in, results of constructors that store it, and objects these are put in.
func (w *World) capturedBy(alias valset, creator *ssa.Function) valset {
	var seeds []ssa.Value
	top := outermost(creator)
	local := func(in ssa.Instruction) bool { return outermost(in.Parent()) == top }
	deferredOnly := func(mc *ssa.MakeClosure) bool {
		if mc.Referrers() == nil {
			return true
		}
		for _, r := range *mc.Referrers() {
			c, ok := r.(ssa.CallInstruction)
			if !ok || c.Common().Value != ssa.Value(mc) {
				return false
			}
		}
		return true
	}
	for v := range alias {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if !local(r) {
				continue
			}
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						seeds = append(seeds, fa.X)
					}
				}
			case *ssa.MakeClosure:
				if _, _, name, isB := boundMethod(x); isB && name == "Close" {
					continue
				}
				if !deferredOnly(x) {
					seeds = append(seeds, x)
				}
			case *ssa.Call:
				for i, p := range staticParams(w, x, v) {
					_ = i
					if ret := storedInResult(w, p); ret >= 0 {
						seeds = append(seeds, resultValue(x, ret)...)
					}
				}
			}
		}
		// captured through its variable
		if u, ok := v.(*ssa.UnOp); ok {
			if cell := w.cellOf(u.X); cell != nil {
				for _, al := range w.cellAliases(cell) {
					if al.Referrers() == nil {
						continue
					}
					for _, r := range *al.Referrers() {
						if mc, ok := r.(*ssa.MakeClosure); ok && local(mc) && !deferredOnly(mc) {
							seeds = append(seeds, mc)
						}
					}
				}
			}
		}
	}
	// a variable holding the scope captured before any load
	for v := range alias {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Val != v {
				continue
			}
			if cell := w.cellOf(st.Addr); cell != nil && local(st) {
				for _, al := range w.cellAliases(cell) {
					if al.Referrers() == nil {
						continue
					}
					for _, rr := range *al.Referrers() {
						if mc, ok := rr.(*ssa.MakeClosure); ok && !deferredOnly(mc) {
							seeds = append(seeds, mc)
						}
					}
				}
			}
		}
	}
	extra := func(v ssa.Value, ref ssa.Instruction, add func(ssa.Value)) {
		c, ok := ref.(*ssa.Call)
		if !ok || !local(c) {
			return
		}
		id := callID(&c.Call)
		// put into a container: the receiver holds it
		switch id.name {
		case "AddColumn", "Set", "AppendVars", "Append":
			if r := scopeRecv(&c.Call); r != nil && r != v && !w.isScope(r.Type()) {
				add(r)
			}
		}
	}
	return w.flow(seeds, flowOpts{returns: true, params: true, extra: extra, selfCall: func(c *ssa.CallCommon) bool {
		id := callID(c)
		return id.name == "AddColumn" || (id.name == "Set" && id.recv == "Dict")
	}})
}

func staticParams(w *World, c *ssa.Call, v ssa.Value) []*ssa.Parameter {
	t := c.Call.StaticCallee()
	if t == nil || !w.inMod[t] {
		return nil
	}
	return paramsFor(&c.Call, t, v)
}

// storedInResult: the parameter is stored in a structure that is returned.
func storedInResult(w *World, p *ssa.Parameter) int {
	fn := p.Parent()
	for v := range w.flow([]ssa.Value{p}, flowOpts{}) {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Val != v || st.Parent() != fn {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			al, ok := fa.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			set := w.flow([]ssa.Value{al}, flowOpts{})
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for i, res := range ret.Results {
						if set[res] {
							return i
						}
					}
				}
			}
		}
	}
	return -1
}

func resultValue(c *ssa.Call, idx int) []ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		return []ssa.Value{c}
	}
	var out []ssa.Value
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			out = append(out, e)
		}
	}
	return out
}

func runScopes(w *World, r *Report, leaks bool) {
	if leaks {
		r.Rule("R1-closed", "a nested scope is closed, or handed to something that closes it, on every way out", 8)
	} else {
		r.Rule("R1-not-closed-early", "when a nested scope is closed nothing evaluates in it any more", 8)
	}
	w.buildSites()
	roots := scopeRoots(w)
	rootVals := map[ssa.Value]*scopeRoot{}
	for i := range roots {
		rootVals[roots[i].val] = &roots[i]
	}
	for _, root := range roots {
		f := root.fn
		self := scopeSelfCall(w)
		prune := func(v ssa.Value) bool {
			if v == root.val {
				return false
			}
			if !w.isScope(v.Type()) && !convOfScope(w, v) {
				return true
			}
			switch x := v.(type) {
			case *ssa.Parameter:
				return x.Parent() == outermost(f)
			case *ssa.Call:
				return outermost(x.Parent()) == outermost(f) && !self(&x.Call) && !identityCall(w, x)
			}
			return false
		}
		alias := w.flow([]ssa.Value{root.val}, flowOpts{returns: true, params: true, invoke: true, selfCall: self, prune: prune})
		var kseeds []ssa.Value
		for v := range alias {
			if v.Referrers() == nil {
				continue
			}
			for _, ref := range *v.Referrers() {
				if mc, ok := ref.(*ssa.MakeClosure); ok {
					if _, _, name, isB := boundMethod(mc); isB && name == "Close" {
						kseeds = append(kseeds, mc)
					}
				}
			}
		}
		// closures that close it
		for _, cf := range w.Fns {
			if cf.Parent() == nil {
				continue
			}
			closes := false
			eachInstr(cf, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if x, ok := isScopeClose(w, c.Common()); ok && alias[x] {
						closes = true
					}
				}
			})
			if closes {
				for _, mc := range w.closures[cf] {
					kseeds = append(kseeds, mc)
				}
			}
		}
		closers := w.flow(kseeds, flowOpts{returns: true, params: true, invoke: true})
		a := &scopeAuto{w: w, birth: root.birth, alias: alias, closers: closers, creator: f,
			streams: map[ssa.Value]map[interface{}]bool{}}
		a.values = w.capturedBy(alias, f)
		// streams over it
		var sseeds []ssa.Value
		for _, g := range w.Fns {
			eachInstr(g, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || !isStreamResult(c.Type()) {
					return
				}
				over := false
				for _, x := range c.Call.Args {
					if alias[x] {
						over = true
					}
				}
				if c.Call.IsInvoke() && alias[c.Call.Value] {
					over = true
				}
				if over {
					a.streams[c] = w.ctxKeys(ctxArgs(&c.Call))
					sseeds = append(sseeds, c)
				}
			})
		}
		a.salias = w.flow(sseeds, flowOpts{params: true})
		events := w.eventfulSync(func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if v, ok := isScopeClose(w, x.Common()); ok && alias[v] {
					return true
				}
				return a.closerCall(x.Common())
			case *ssa.Send:
				return alias[x.X]
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && alias[s.Send] {
						return true
					}
				}
			}
			return false
		})
		done := hasDoneArm(w)
		useful := func(fn *ssa.Function) bool {
			if fn == f || fn == outermost(f) {
				return false
			}
			if fn.Name() == "Close" && fn.Signature.Recv() != nil && w.isScope(fn.Signature.Recv().Type()) {
				return false
			}
			if events[fn] || w.cancels()[fn] {
				return true
			}
			if done[fn] {
				// helpers that forward rows
				for _, p := range fn.Params {
					if a.salias[p] {
						return true
					}
				}
			}
			return false
		}
		s := newSim(w, a, useful)
		a.check(s, root, f, nil, root.parent, nil, rootVals, 0)
		msg := a.leak.text()
		rule := "R1-closed"
		if !leaks {
			msg = a.early.text()
			rule = "R1-not-closed-early"
		}
		if len(s.gaveUp) > 0 {
			r.Notes = append(r.Notes, "state budget exhausted in "+s.gaveUp[0])
		}
		r.Ob(rule, w.Name(f)+" "+root.what, w.instrPos(root.birth), msg == "", "%s", msg)
	}
}

// identityCall: a call of a helper that gives back its argument.
func identityCall(w *World, c *ssa.Call) bool {
	t := c.Call.StaticCallee()
	if t == nil || !w.inMod[t] || !w.isScope(c.Type()) {
		return false
	}
	for _, p := range t.Params {
		set := w.flow([]ssa.Value{p}, flowOpts{})
		for _, b := range t.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, res := range ret.Results {
					if set[res] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *scopeAuto) check(s *sim, root scopeRoot, f *ssa.Function, birth map[ssa.Instruction][]outcome, parent ssa.Value, up valset, rootVals map[ssa.Value]*scopeRoot, depth int) {
	// the parent, and whether this activation opened it
	a.parent, a.pbirth, a.plocal = nil, map[ssa.Instruction]bool{}, false
	if parent != nil {
		var pr []ssa.Value
		for _, o := range a.w.origins(parent, false) {
			// AppendVars and the like give back their receiver
			for {
				c, ok := o.(*ssa.Call)
				if !ok || !scopeSelfCall(a.w)(&c.Call) {
					break
				}
				os := a.w.origins(scopeRecv(&c.Call), false)
				if len(os) != 1 {
					break
				}
				o = os[0]
			}
			if rv := rootVals[o]; rv != nil && rv.val != root.val && (rv.fn == f || outermost(rv.fn) == outermost(f)) {
				pr = append(pr, o)
				if rv.fn == f {
					a.pbirth[rv.birth] = true
				}
			}
		}
		if len(pr) > 0 {
			a.plocal = true
			a.parent = a.w.flow(pr, flowOpts{params: true, returns: true, invoke: true, selfCall: scopeSelfCall(a.w), prune: func(v ssa.Value) bool { return !a.w.isScope(v.Type()) }})
		}
	}
	// the parent was opened by the callee and is handed out with it: its own
	// obligations cover both
	if up != nil {
		a.plocal, a.parent = true, up
	}
	a.plift = up != nil
	fr := &frame{fn: f, root: true, birth: birth, key: fmt.Sprintf("%s/%d/%v", f, depth, a.plocal)}
	outs := s.run(fr, simState{})
	var lift []outcome
	none := map[outcome]bool{}
	for _, o := range outs {
		if n := (outcome{simState{}, o.ret, o.site}); o.st.res != scOpen && !none[n] {
			none[n] = true
		}
		if o.st.res != scOpen && !(o.st.res == scClosed && o.st.aux&auxReturned != 0) {
			continue
		}
		// returned: the callers own it now
		ret := false
		for _, res := range o.site.Results {
			if a.alias[res] || a.closers[res] || a.values[res] {
				ret = true
			}
		}
		owner := false
		for _, res := range o.site.Results {
			if a.alias[res] || a.closers[res] {
				owner = true
			}
		}
		if ret && depth < 5 {
			lift = append(lift, o)
		}
		if o.st.res == scOpen && !owner && !a.plocal {
			a.leak.add("%s can return at %s without it being closed", a.w.Name(f), a.w.instrPos(o.site))
		}
	}
	if len(lift) == 0 {
		return
	}
	var mine valset
	if a.plocal {
		mine = a.parent
	}
	lifted := map[string]bool{}
	for _, o := range lift {
		lifted[o.ret] = true
	}
	for _, o := range outs {
		n := outcome{simState{}, o.ret, o.site}
		if none[n] && !lifted[o.ret] {
			none[n] = false
			lift = append(lift, n)
		}
	}
	for _, c := range a.w.sites[f] {
		in := c.(ssa.Instruction)
		if _, ok := in.(*ssa.Call); !ok {
			continue
		}
		var next ssa.Value
		if parent != nil {
			for _, o := range a.w.origins(parent, false) {
				if p, ok := o.(*ssa.Parameter); ok && p.Parent() == f {
					for i, q := range f.Params {
						if q == p {
							next = argFor(c.Common(), f, i)
						}
					}
				}
			}
		}
		a.check(s, root, c.Parent(), map[ssa.Instruction][]outcome{in: lift}, next, mine, rootVals, depth+1)
	}
}

// convOfScope: a scope converted to an interface that is not a scope.
func convOfScope(w *World, v ssa.Value) bool {
	if w.isScope(v.Type()) {
		return false
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return w.isScope(x.X.Type())
	case *ssa.MakeInterface:
		return w.isScope(x.X.Type())
	}
	return false
}
