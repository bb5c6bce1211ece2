package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = check{run: runC02,
		explanation: "Typestate by path-sensitive interprocedural dataflow over the SSA. Every channel of rows (or of work items) made in the module is followed, with its deferred calls, through the function that makes it, the goroutines and helpers it is handed to and, when returned inside a struct, through the callers: on every exit it has been closed, or handed to a goroutine that closes it on every one of its exits; it is never closed twice; nothing is sent on it after it was closed, nor can a goroutine still be sending, unless that goroutine has been waited for. Goroutines counted by a WaitGroup are added before they start, are done exactly once on every exit, and send nothing afterwards.",
		assumptions: []string{"a panic ends the process; paths through panics are not considered", "fields are tracked object-insensitively"},
	}
}

const (
	chUnborn = iota
	chOpen
	chClosed
	chDelegated
)
const (
	chPublished = 1 << iota
	chSenders
)

type chanAuto struct {
	w     *World
	root  *ssa.MakeChan
	alias valset
	bad   map[string]ssa.Instruction
	order []string
	sends map[*ssa.Function]bool // functions that (transitively) send on it
}

func (a *chanAuto) report(in ssa.Instruction, format string, x ...interface{}) {
	m := fmt.Sprintf(format, x...)
	if _, ok := a.bad[m]; !ok {
		a.bad[m] = in
		a.order = append(a.order, m)
	}
}

func one(st simState) []simState { return []simState{st} }

func (a *chanAuto) step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState {
	switch x := in.(type) {
	case *ssa.MakeChan:
		if x == a.root && fr.root {
			if st.res == chOpen && st.aux&chPublished != 0 {
				a.report(in, "a new channel is made while the previous one is still open")
			}
			st.res, st.aux = chOpen, 0
		}
	case *ssa.Send:
		if a.alias[x.Chan] {
			a.send(st, in)
		}
	case *ssa.Store:
		if a.alias[x.Val] {
			if _, ok := x.Addr.(*ssa.FieldAddr); ok {
				st.aux |= chPublished
			}
		}
	case *ssa.Return:
		for _, r := range x.Results {
			if a.alias[r] && fr.root {
				st.aux |= chPublished
			}
		}
	}
	return one(st)
}

func (a *chanAuto) send(st simState, in ssa.Instruction) {
	switch st.res {
	case chClosed:
		a.report(in, "a row can be sent at %s after the channel was closed", a.w.instrPos(in))
	case chDelegated:
		a.report(in, "a row is sent at %s on a channel that another goroutine closes independently", a.w.instrPos(in))
	}
}

func isWaitCall(c *ssa.CallCommon) bool {
	id := callID(c)
	return id.name == "Wait" && (id.is("sync", "WaitGroup", "Wait") || id.pkg == "golang.org/x/sync/errgroup")
}

func isGoCall(c *ssa.CallCommon) (ssa.Value, bool) {
	id := callID(c)
	if id.name == "Go" && (id.pkg == "sync" || id.pkg == "golang.org/x/sync/errgroup") && len(c.Args) > 1 {
		return c.Args[1], true
	}
	return nil, false
}

func (a *chanAuto) call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if st.res == chUnborn {
		return one(st)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "close" && len(c.Args) == 1 && a.alias[c.Args[0]] {
		switch {
		case st.res == chClosed:
			a.report(in, "it can be closed twice (at %s)", a.w.instrPos(in))
		case st.res == chDelegated:
			a.report(in, "it is closed at %s although a goroutine also closes it", a.w.instrPos(in))
		case st.aux&chSenders != 0:
			a.report(in, "it is closed at %s while goroutines that send on it have not been waited for", a.w.instrPos(in))
		}
		st.res = chClosed
		return one(st)
	}
	if isWaitCall(c) {
		st.aux &^= chSenders
		return one(st)
	}
	if f, ok := isGoCall(c); ok {
		var ts []*ssa.Function
		for _, o := range a.w.origins(f, true) {
			switch x := o.(type) {
			case *ssa.MakeClosure:
				ts = append(ts, x.Fn.(*ssa.Function))
			case *ssa.Function:
				ts = append(ts, x)
			}
		}
		return a.spawn(s, fr, st, ts, in, false)
	}
	for _, arg := range c.Args {
		if a.alias[arg] {
			st.aux |= chPublished
		}
	}
	return one(st)
}

func (a *chanAuto) afterCall(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	return one(st)
}

func (a *chanAuto) spawn(s *sim, fr *frame, st simState, targets []*ssa.Function, in ssa.Instruction, pass bool) []simState {
	if pass {
		st.aux |= chPublished
	}
	for _, t := range targets {
		if !a.w.inMod[t] || !s.relevant(t) {
			continue
		}
		e := simState{res: chOpen}
		outs := s.run(&frame{fn: t, depth: fr.depth + 1}, e)
		closed, open := 0, 0
		for _, o := range outs {
			if o.st.res == chClosed || o.st.res == chDelegated {
				closed++
			} else {
				open++
			}
		}
		if closed > 0 || a.sends[t] {
			st.aux |= chPublished
		}
		switch {
		case closed > 0 && open > 0:
			a.report(in, "the goroutine started at %s closes it on some of its ways out only", a.w.instrPos(in))
			st.res = chDelegated
		case closed > 0:
			if st.res == chClosed || st.res == chDelegated {
				a.report(in, "the goroutine started at %s closes it again", a.w.instrPos(in))
			}
			if st.aux&chSenders != 0 && !waitsFor(a.w, t) {
				a.report(in, "the goroutine started at %s closes it while goroutines that send on it have not been waited for", a.w.instrPos(in))
			}
			st.res = chDelegated
		case a.sends[t]:
			if st.res == chClosed {
				a.report(in, "the goroutine started at %s can send on it after it was closed", a.w.instrPos(in))
			}
			st.aux |= chSenders
		}
	}
	return one(st)
}

func waitsFor(w *World, f *ssa.Function) bool {
	found := false
	eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && isWaitCall(c.Common()) {
			found = true
		}
	})
	return found
}

func (a *chanAuto) goStmt(s *sim, fr *frame, st simState, g *ssa.Go) []simState {
	if st.res == chUnborn {
		return one(st)
	}
	if b, ok := g.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" && a.alias[g.Call.Args[0]] {
		st.res = chDelegated
		return one(st)
	}
	pass := false
	for _, x := range g.Call.Args {
		if a.alias[x] {
			pass = true
		}
	}
	return a.spawn(s, fr, st, a.w.callees(g.Common(), true), g, pass)
}
func (a *chanAuto) selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState {
	x := sel.States[arm]
	if x.Dir == types.SendOnly && a.alias[x.Chan] {
		a.send(st, sel)
	}
	return one(st)
}
func (a *chanAuto) recv(s *sim, fr *frame, st simState, u *ssa.UnOp, ok fact) []simState {
	return one(st)
}
func (a *chanAuto) edge(s *sim, fr *frame, st simState, cond ssa.Value, taken bool) []simState {
	return one(st)
}

// eventful computes the functions for which pred holds of some instruction, and
// everything that reaches them by calls (or by starting goroutines).
// eventfulSync is eventful without what is reached by starting goroutines.
func (w *World) eventfulSync(pred func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			if !out[f] && pred(in) {
				out[f] = true
			}
		})
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Fns {
			eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				if out[f] {
					return
				}
				c, ok := in.(ssa.CallInstruction)
				if _, isGo := in.(*ssa.Go); !ok || isGo {
					return
				}
				for _, t := range w.callees(c.Common(), false) {
					if out[t] {
						out[f] = true
						changed = true
					}
				}
			})
		}
	}
	return out
}

func (w *World) eventful(pred func(in ssa.Instruction) bool, invoke bool, barrier ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			if !out[f] && pred(in) {
				out[f] = true
			}
		})
	}
	return w.closeOverCallers(out, invoke, barrier...)
}

func (w *World) closeOverCallers(out map[*ssa.Function]bool, invoke bool, barrier ...*ssa.Function) map[*ssa.Function]bool {
	for changed := true; changed; {
		changed = false
		for _, f := range w.Fns {
			if out[f] {
				continue
			}
			eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				if out[f] {
					return
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				ts := w.callees(c.Common(), invoke)
				if fv, ok := isGoCall(c.Common()); ok {
					for _, o := range w.origins(fv, true) {
						if mc, ok := o.(*ssa.MakeClosure); ok {
							ts = append(ts, mc.Fn.(*ssa.Function))
						}
					}
				}
				for _, t := range ts {
					skip := false
					for _, x := range barrier {
						skip = skip || x == t
					}
					if out[t] && !skip {
						out[f] = true
						changed = true
					}
				}
			})
		}
	}
	return out
}

// otherInstance: what a call gives back to the function that makes the object is
// another object (the result of a recursive invocation, say), and so is what
// comes in through its parameters.
func otherInstance(creator *ssa.Function) func(v ssa.Value) bool {
	top := outermost(creator)
	return func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Call:
			return outermost(x.Parent()) == top
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				return outermost(c.Parent()) == top
			}
		case *ssa.Parameter:
			return x.Parent() == top
		}
		return false
	}
}

func isSendOn(in ssa.Instruction, alias valset) bool {
	switch x := in.(type) {
	case *ssa.Send:
		return alias[x.Chan]
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly && alias[s.Chan] {
				return true
			}
		}
	}
	return false
}

func isCloseOn(in ssa.Instruction, alias valset) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "close" && len(c.Common().Args) == 1 && alias[c.Common().Args[0]]
}

// fieldsHolding lists the struct fields an alias is stored in.
func fieldsHolding(alias valset) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for v := range alias {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Val == v {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					out[fieldOf(fa)] = true
				}
			}
		}
	}
	return out
}

func holdsField(t types.Type, fields map[*types.Var]bool) bool {
	st := structOf(t)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if fields[st.Field(i)] {
			return true
		}
	}
	return false
}

func runC02(w *World, r *Report) {
	r.Rule("R1-closed-once", "a channel is closed exactly once on every way out, and not sent on afterwards", 10)
	r.Rule("R2-counted-goroutine", "a goroutine counted by a WaitGroup is added before it starts, done exactly once on every way out, and sends nothing afterwards", 1)
	w.buildSites()
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			mc, ok := in.(*ssa.MakeChan)
			if !ok || !rowStream(mc.Type()) {
				return
			}
			alias := w.flow([]ssa.Value{mc}, flowOpts{fields: true, returns: true, params: true, invoke: true, prune: otherInstance(f)})
			// only channels that are ever received from or leave the function
			a := &chanAuto{w: w, root: mc, alias: alias, bad: map[string]ssa.Instruction{}}
			a.sends = w.eventful(func(in ssa.Instruction) bool { return isSendOn(in, alias) }, false, f, outermost(f))
			closes := w.eventful(func(in ssa.Instruction) bool { return isCloseOn(in, alias) }, false, f, outermost(f))
			waits := w.eventful(func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				return ok && isWaitCall(c.Common())
			}, false, f, outermost(f))
			s := newSim(w, a, func(fn *ssa.Function) bool {
				return fn != f && fn != outermost(f) && (a.sends[fn] || closes[fn] || waits[fn])
			})
			fields := fieldsHolding(alias)
			a.checkRoot(s, f, nil, fields, 0)
			msg := ""
			at := w.instrPos(in)
			for _, m := range a.order {
				if msg != "" {
					msg += "; "
				}
				msg += m
			}
			if len(s.gaveUp) > 0 {
				r.Notes = append(r.Notes, "state budget exhausted in "+s.gaveUp[0])
			}
			r.Ob("R1-closed-once", w.Name(f), at, msg == "", "channel made in %s: %s", w.Name(f), msg)
		})
	}
	runWaitGroups(w, r)
}

// checkRoot runs the function that makes the channel (or receives it inside a
// struct) and checks its exits; struct results are followed into the callers.
func (a *chanAuto) checkRoot(s *sim, f *ssa.Function, birth map[ssa.Instruction][]outcome, fields map[*types.Var]bool, depth int) {
	fr := &frame{fn: f, root: true, birth: birth, key: fmt.Sprintf("%s/%d", f, depth)}
	outs := s.run(fr, simState{})
	lift := []outcome{}
	for _, o := range outs {
		if o.st.res != chOpen {
			if o.st.res == chDelegated && o.st.aux&chSenders != 0 {
				// checked at the spawn
				_ = o
			}
			continue
		}
		if o.st.aux&chPublished == 0 {
			continue // never seen by anybody
		}
		escapes := false
		for _, res := range o.site.Results {
			if a.alias[res] && !recvOnly(res.Type()) {
				escapes = true
			}
			if holdsField(res.Type(), fields) {
				escapes = true
			}
		}
		if escapes && depth < 4 {
			lift = append(lift, o)
			continue
		}
		a.report(o.site, "%s can return at %s without the channel being closed", a.w.Name(f), a.w.instrPos(o.site))
	}
	if len(lift) == 0 {
		return
	}
	sites := a.w.sites[f]
	if len(sites) == 0 {
		a.report(lift[0].site, "%s returns it unclosed and nothing in the module takes it over", a.w.Name(f))
	}
	for _, c := range sites {
		in := c.(ssa.Instruction)
		if _, ok := in.(*ssa.Call); !ok {
			continue
		}
		a.checkRoot(s, c.Parent(), map[ssa.Instruction][]outcome{in: lift}, fields, depth+1)
	}
}

// ---------------------------------------------------------------------------

// wgAuto: 0 = running, 1 = done
type wgAuto struct {
	nullAuto
	w     *World
	bad   []string
	field func(v ssa.Value) bool
}

func isWgMethod(c *ssa.CallCommon, name string) bool {
	return callID(c).is("sync", "WaitGroup", name)
}

func (a *wgAuto) call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if isWgMethod(c, "Done") {
		if st.res == 1 {
			a.bad = append(a.bad, "Done can be called twice (at "+a.w.instrPos(in)+")")
		}
		st.res = 1
	}
	return one(st)
}

func (a *wgAuto) step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState {
	if x, ok := in.(*ssa.Send); ok && st.res == 1 && rowStream(x.Chan.Type()) {
		a.bad = append(a.bad, "it sends at "+a.w.instrPos(in)+" after it reported to be done")
	}
	return one(st)
}
func (a *wgAuto) selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState {
	if st.res == 1 && sel.States[arm].Dir == types.SendOnly {
		a.bad = append(a.bad, "it sends at "+a.w.instrPos(sel)+" after it reported to be done")
	}
	return one(st)
}

func runWaitGroups(w *World, r *Report) {
	done := w.eventfulSync(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && isWgMethod(c.Common(), "Done")
	})
	// relevant: functions whose body calls Done directly or via helpers, and senders
	sends := w.eventful(func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Send:
			return true
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly {
					return true
				}
			}
		}
		return false
	}, false)
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			for _, t := range w.callees(g.Common(), true) {
				if !w.inMod[t] || !done[t] {
					continue
				}
				// exclude goroutines that only start others
				a := &wgAuto{w: w}
				s := newSim(w, a, func(fn *ssa.Function) bool { return done[fn] || sends[fn] })
				outs := s.run(&frame{fn: t, root: true}, simState{})
				msg := ""
				for _, o := range outs {
					if o.st.res == 0 {
						msg = "it can end at " + w.instrPos(o.site) + " without reporting to be done"
					}
				}
				for _, m := range a.bad {
					msg = m
				}
				if msg == "" && !addDominates(w, in) {
					msg = "it is not counted with Add before it is started at " + w.instrPos(in)
				}
				if msg == "" && addInside(w, t) {
					msg = "it counts itself with Add after it was started"
				}
				r.Ob("R2-counted-goroutine", w.Name(t), w.instrPos(in), msg == "", "%s", msg)
			}
		})
	}
}

func addInside(w *World, t *ssa.Function) bool {
	found := false
	eachInstr(t, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && isWgMethod(c.Common(), "Add") {
			found = true
		}
	})
	return found
}

// addDominates: an Add call on every path to the go statement, in the function
// or before every call of it.
func addDominates(w *World, g ssa.Instruction) bool {
	var search func(at ssa.Instruction, depth int) bool
	search = func(at ssa.Instruction, depth int) bool {
		f := at.Parent()
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				isAdd := isWgMethod(c.Common(), "Add")
				if !isAdd {
					if t := c.Common().StaticCallee(); t != nil && w.inMod[t] && addInside(w, t) {
						isAdd = true
					}
				}
				if !isAdd {
					continue
				}
				if b == at.Block() {
					for j, x := range b.Instrs {
						if x == at && i < j {
							return true
						}
					}
				} else if b.Dominates(at.Block()) {
					return true
				}
			}
		}
		if depth > 3 {
			return false
		}
		sites := w.callers[f]
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if !search(s, depth+1) {
				return false
			}
		}
		return true
	}
	return search(g, 0)
}
