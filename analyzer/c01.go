package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = check{run: runC01,
		explanation: "Static dataflow over the SSA of every package. R1: every channel send that can block is a select arm (a bare send is allowed only on a channel made with a constant capacity). R2: every select with a send arm has an arm receiving from Done() of a context that is in scope. R3: from a Done arm every path leaves the function without another channel operation, and a caller that loops around such a function stops by itself when cancelled. R4: every context passed to a call or stored in a struct, in code that has a context available, is that context or derived from it (never Background, TODO, WithoutCancel or nil); code without a context may use Background only when its signature is fixed by an interface or no caller of it has a context.",
		assumptions: []string{"user supplied plugins and functions honour the context they are given", "cancellation becomes visible through Done() of the context handed in"},
	}
}

// doneOf: the context whose Done() channel v is, or nil.
func (w *World) doneOf(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, o := range w.origins(v, true) {
		if c, ok := o.(*ssa.Call); ok {
			cc := c.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Done" && isContext(cc.Value.Type()) {
				out = append(out, cc.Value)
			}
		}
	}
	return out
}

func isCtxDerive(c *ssa.Call) (parent ssa.Value, ok bool) {
	id := callID(c.Common())
	if id.pkg != "context" {
		if id.pkg == "golang.org/x/sync/errgroup" && id.name == "WithContext" {
			return c.Call.Args[0], true
		}
		return nil, false
	}
	switch id.name {
	case "WithCancel", "WithTimeout", "WithDeadline", "WithValue", "WithCancelCause", "WithTimeoutCause", "WithDeadlineCause":
		return c.Call.Args[0], true
	}
	return nil, false
}

// ctxChain lists the contexts v is or derives from.
func (w *World) ctxChain(v ssa.Value, withCallers bool) valset {
	out := valset{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, o := range w.origins(v, withCallers) {
			if out[o] {
				continue
			}
			out[o] = true
			var c *ssa.Call
			switch x := o.(type) {
			case *ssa.Call:
				c = x
			case *ssa.Extract:
				c, _ = x.Tuple.(*ssa.Call)
			}
			if c != nil {
				if p, ok := isCtxDerive(c); ok {
					walk(p)
				} else if !c.Common().IsInvoke() {
					// a helper of the module that returns a context
					for _, t := range w.callees(c.Common(), false) {
						if w.inMod[t] {
							for _, b := range t.Blocks {
								if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
									for _, res := range r.Results {
										if isContext(res.Type()) {
											walk(res)
										}
									}
								}
							}
							// and what is passed in
							for _, a := range c.Call.Args {
								if isContext(a.Type()) {
									out[a] = true
								}
							}
						}
					}
				}
			}
		}
	}
	walk(v)
	return out
}

// ctxBad: the origins of a context that do not follow the caller's cancellation.
func (w *World) ctxBad(v ssa.Value) string {
	for o := range w.ctxChain(v, false) {
		if isNilConst(o) {
			return "nil"
		}
		var c *ssa.Call
		switch x := o.(type) {
		case *ssa.Call:
			c = x
		case *ssa.Extract:
			c, _ = x.Tuple.(*ssa.Call)
		}
		if c == nil {
			continue
		}
		id := callID(c.Common())
		if id.pkg == "context" && (id.name == "Background" || id.name == "TODO" || id.name == "WithoutCancel") {
			return "context." + id.name + "()"
		}
	}
	return ""
}

// ctxAvailable: a context the function can reach without changing signatures:
// a parameter of it or of an enclosing function, or a context field of the receiver.
func (w *World) ctxAvailable(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		for _, p := range f.Params {
			if isContext(p.Type()) {
				return true
			}
		}
		if f.Signature.Recv() != nil && len(f.Params) > 0 {
			if n := structOf(f.Params[0].Type()); n != nil {
				for i := 0; i < n.NumFields(); i++ {
					if isContext(n.Field(i).Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// sigFixed: the method implements an interface method declared in the module or
// a dependency, so its signature cannot carry a context.
func (w *World) sigFixed(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	for _, p := range w.Prog.AllPackages() {
		if !w.isModPkg(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || !types.IsInterface(t.Type()) {
				continue
			}
			it := t.Type().Underlying().(*types.Interface)
			if !types.Implements(recv.Type(), it) && !types.Implements(types.NewPointer(recv.Type()), it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == fn.Name() {
					return true
				}
			}
		}
	}
	switch fn.Name() {
	case "MarshalJSON", "UnmarshalJSON", "String", "GoString", "Close", "Error":
		return true
	}
	return false
}

func (w *World) bufferedConst(ch ssa.Value) bool {
	os := w.origins(ch, true)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		m, ok := o.(*ssa.MakeChan)
		if !ok {
			return false
		}
		c, ok := m.Size.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() < 1 {
			return false
		}
	}
	return true
}

// selectArmBlock finds the block entered when arm i of a select was taken.
func selectArmBlock(sel *ssa.Select, arm int) *ssa.BasicBlock {
	for _, r := range *sel.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, rr := range *e.Referrers() {
			bo, ok := rr.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || int(c.Int64()) != arm {
				continue
			}
			for _, u := range *bo.Referrers() {
				if i, ok := u.(*ssa.If); ok {
					return i.Block().Succs[0]
				}
			}
		}
	}
	return nil
}

func runC01(w *World, r *Report) {
	r.Rule("R1-send", "a send that may block is an arm of a select", 10)
	r.Rule("R2-select-done", "a select with a send arm has an arm on Done() of a context that is in scope", 10)
	r.Rule("R3-done-leaves", "the Done arm leaves: no path from it reaches another channel operation of the function", 12)
	r.Rule("R3-loop-stops", "a loop that calls a cancellable producing step stops when cancelled", 1)
	r.Rule("R4-context", "a context handed on is the caller's or derived from it", 60)
	w.buildSites()

	// --- R1, R2, R3
	emits := map[*ssa.Function]bool{} // functions that contain a send select with a Done arm that can return
	var chains = func(v ssa.Value) valset { return w.ctxChain(v, false) }
	for _, f := range w.Fns {
		name := w.Name(f)
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Send:
				ok := w.bufferedConst(x.Chan)
				r.Ob("R1-send", name, w.instrPos(in), ok, "bare send on a %s in %s: nothing unblocks it when the reader is gone", x.Chan.Type(), name)
			case *ssa.Select:
				hasSend := false
				var doneArms []int
				bad := ""
				for ai, a := range x.States {
					if a.Dir == types.SendOnly {
						hasSend = true
						continue
					}
					if ds := w.doneOf(a.Chan); len(ds) > 0 {
						okArm := true
						for _, d := range ds {
							if s := w.ctxBad(d); s != "" && w.ctxAvailable(f) {
								bad = s
								okArm = false
							}
						}
						if okArm {
							doneArms = append(doneArms, ai)
						}
					}
				}
				_ = chains
				if hasSend {
					r.Ob("R1-send", name, w.instrPos(in), true, "select")
					if x.Blocking {
						r.Ob("R2-select-done", name, w.instrPos(in), len(doneArms) > 0, "select sends a row in %s without waiting for the caller's cancellation %s", name, bad)
					}
				}
				if len(doneArms) > 0 {
					emits[f] = emits[f] || hasSend
				}
				for _, ai := range doneArms {
					why := w.doneArmStays(x, ai)
					r.Ob("R3-done-leaves", name, w.instrPos(in), why == "", "after cancellation %s carries on: %s", name, why)
				}
			}
		})
	}
	// --- R3 loops around producing steps
	// a function is a producing step if it emits, or calls one statically
	step := map[*ssa.Function]bool{}
	for f := range emits {
		if emits[f] {
			step[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Fns {
			if step[f] {
				continue
			}
			eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				for _, t := range w.callees(c.Common(), false) {
					if step[t] && w.inMod[t] {
						step[f] = true
						changed = true
					}
				}
			})
		}
	}
	for _, f := range w.Fns {
		name := w.Name(f)
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			isStep := false
			for _, t := range w.callees(c.Common(), false) {
				// a goroutine started inside does not count: only synchronous emission
				if step[t] && w.inMod[t] {
					isStep = true
				}
			}
			if !isStep {
				return
			}
			loop := loopOf(b)
			if loop == nil {
				return
			}
			why := w.loopStops(f, loop, c)
			r.Ob("R3-loop-stops", name+"/"+callID(c.Common()).name, w.instrPos(in), why == "", "%s", why)
		})
	}

	// --- R4
	for _, f := range w.Fns {
		name := w.Name(f)
		avail := w.ctxAvailable(f)
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			check := func(v ssa.Value, what string) {
				if isCtxBuilder(in) {
					return
				}
				bad := w.ctxBad(v)
				if bad == "" {
					r.Ob("R4-context", name+"->"+what, w.instrPos(in), true, "")
					return
				}
				if avail {
					r.Ob("R4-context", name+"->"+what, w.instrPos(in), false, "%s has the caller's context but passes %s to %s, which the caller's cancellation does not reach", name, bad, what)
					return
				}
				// without a context: allowed when the signature is given
				if w.sigFixed(outermost(f)) || isLazyReduce(w, in) {
					r.Ob("R4-context", name+"->"+what, w.instrPos(in), true, "no context in this signature")
					return
				}
				if site := w.callerWithCtx(outermost(f), map[*ssa.Function]bool{}); site != "" {
					r.Ob("R4-context", name+"->"+what, w.instrPos(in), false, "%s passes %s to %s although its caller at %s has a context it could hand down", name, bad, what, site)
					return
				}
				r.Ob("R4-context", name+"->"+what, w.instrPos(in), true, "no context in this signature")
			}
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				for _, a := range cc.Args {
					if isContext(a.Type()) {
						check(a, calleeLabel(cc))
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isContext(x.Val.Type()) {
					check(x.Val, "field "+fieldOf(fa).Name())
				}
			}
		})
	}
}

func isCtxBuilder(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	_, ok = isCtxDerive(c)
	return ok
}

func calleeLabel(c *ssa.CallCommon) string {
	id := callID(c)
	if id.name == "" {
		return "function value"
	}
	if id.recv != "" {
		return id.recv + "." + id.name
	}
	return id.name
}

// a lazily passed argument carries the context it was created in
func isLazyReduce(w *World, in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := c.Common()
	return cc.IsInvoke() && strings.HasPrefix(cc.Method.Name(), "Reduce") && isNamedType(cc.Value.Type(), w.Module+"/types", "LazyExpr")
}

// callerWithCtx: does anything that has a context call this context-less helper?
// Callers whose own signature is fixed and context-less end the search.
func (w *World) callerWithCtx(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, s := range w.callers[fn] {
		g := s.Parent()
		if w.ctxAvailable(g) {
			return w.instrPos(s)
		}
		if w.sigFixed(outermost(g)) {
			continue
		}
		if p := w.callerWithCtx(outermost(g), seen); p != "" {
			return p
		}
	}
	return ""
}

// doneArmStays explains how the function carries on after its Done arm.
func (w *World) doneArmStays(sel *ssa.Select, arm int) string {
	start := selectArmBlock(sel, arm)
	if start == nil {
		// the arm's body is the same as another's, or empty at the end of the
		// function: look at the whole continuation
		start = sel.Block()
		if len(start.Succs) == 0 {
			return ""
		}
		if !sel.Blocking || len(sel.States) == 1 {
			seen := reachableFrom(start, false)
			for b := range seen {
				if why := w.channelOpIn(b, nil); why != "" {
					return why
				}
			}
			return ""
		}
		// cannot tell the arm apart
		return ""
	}
	// constants known on the way out: the usual "done = true; break" shape
	type key struct {
		b, pred *ssa.BasicBlock
		facts   string
	}
	s := newSim(w, nullAuto{}, func(*ssa.Function) bool { return false })
	seen := map[key]bool{}
	var why string
	var walk func(b, pred *ssa.BasicBlock, st simState, from int)
	walk = func(b, pred *ssa.BasicBlock, st simState, from int) {
		if why != "" {
			return
		}
		if pred != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == pred {
					pi = i
				}
			}
			old := st
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if pi >= 0 {
					st = s.setFact(st, phi, uint8(s.eval(old, phi.Edges[pi])))
				}
			}
		}
		k := key{b, pred, st.facts}
		if seen[k] {
			return
		}
		seen[k] = true
		for _, in := range b.Instrs[from:] {
			if op := w.channelOp(in); op != "" {
				why = op + " at " + w.instrPos(in) + " is reached"
				return
			}
			switch x := in.(type) {
			case *ssa.Store:
				if c := w.cellOf(x.Addr); c != nil {
					st = s.setFact(st, c, uint8(s.eval(st, x.Val)))
				}
			case *ssa.If:
				f := s.eval(st, x.Cond)
				if f != fFalse {
					walk(b.Succs[0], b, st, 0)
				}
				if f != fTrue {
					walk(b.Succs[1], b, st, 0)
				}
				return
			case *ssa.Jump:
				walk(b.Succs[0], b, st, 0)
				return
			}
		}
	}
	st := simState{}
	st = s.setFact(st, sel, selFact(arm, fFalse))
	walk(start, nil, st, 0)
	return why
}

func (w *World) channelOpIn(b *ssa.BasicBlock, stop ssa.Instruction) string {
	for _, in := range b.Instrs {
		if op := w.channelOp(in); op != "" {
			return op + " at " + w.instrPos(in) + " is reached"
		}
	}
	return ""
}

// channelOp: an operation that waits for another party
func (w *World) channelOp(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		return "a send"
	case *ssa.Select:
		if x.Blocking {
			return "a select"
		}
		for _, a := range x.States {
			if a.Dir == types.SendOnly {
				return "a send"
			}
		}
	}
	return ""
}

// loopOf returns the blocks of the innermost loop containing b, or nil.
func loopOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	fn := b.Parent()
	var best map[*ssa.BasicBlock]bool
	for _, h := range fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		body := map[*ssa.BasicBlock]bool{h: true}
		var stack []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				stack = append(stack, p)
			}
		}
		if len(stack) == 0 {
			continue
		}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if body[x] {
				continue
			}
			body[x] = true
			stack = append(stack, x.Preds...)
		}
		if body[b] && (best == nil || len(body) < len(best)) {
			best = body
		}
	}
	return best
}

// loopStops: the loop around the producing call c ends once cancelled: it has a
// Done arm or Err() test that leaves, it ranges over a stream, or it leaves
// depending on what c returned.
func (w *World) loopStops(f *ssa.Function, loop map[*ssa.BasicBlock]bool, c *ssa.Call) string {
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				for _, a := range x.States {
					if a.Dir == types.RecvOnly && len(w.doneOf(a.Chan)) > 0 {
						return ""
					}
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && rowStream(x.X.Type()) {
					return "" // ends when the producer, which runs under the context, closes
				}
			case *ssa.Call:
				if x.Common().IsInvoke() && x.Common().Method.Name() == "Err" && isContext(x.Common().Value.Type()) {
					return ""
				}
			case *ssa.If:
				leaves := !loop[b.Succs[0]] || !loop[b.Succs[1]]
				if leaves && dependsOn(x.Cond, c, 0) {
					return ""
				}
			}
		}
	}
	return "the loop in " + w.Name(f) + " keeps calling " + calleeLabel(c.Common()) + " after cancellation: it neither tests the context nor what the call returned"
}

func dependsOn(v ssa.Value, c ssa.Value, depth int) bool {
	if v == c {
		return true
	}
	if depth > 8 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, c, depth+1) {
			return true
		}
	}
	return false
}

// nullAuto does nothing.
type nullAuto struct{}

func (nullAuto) step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState {
	return []simState{st}
}
func (nullAuto) call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	return []simState{st}
}
func (nullAuto) afterCall(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	return []simState{st}
}
func (nullAuto) goStmt(s *sim, fr *frame, st simState, g *ssa.Go) []simState { return []simState{st} }
func (nullAuto) selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState {
	return []simState{st}
}
func (nullAuto) recv(s *sim, fr *frame, st simState, u *ssa.UnOp, ok fact) []simState {
	return []simState{st}
}
func (nullAuto) edge(s *sim, fr *frame, st simState, cond ssa.Value, taken bool) []simState {
	return []simState{st}
}
