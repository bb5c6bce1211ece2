package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = check{run: runC08,
		explanation: "Lock-set dataflow over the SSA of every function (certainly and possibly held locks at each instruction, deferred unlocks, helpers that lock or unlock for their caller). Every function that takes a lock has released it on each way out (or is a private helper whose callers all release it); no unlock of a lock that may not be held; no second acquisition of a held lock, directly or anywhere below a call (call graph with interface dispatch); no channel operation, wait or sleep, and no call out to code supplied from outside, while a lock is held; and the lock classes acquired while another is held form no cycle.",
		assumptions: []string{
			"an operand that is compared while an aggregate is being updated is a value, not a lazy expression (the argument parser has reduced it)",
			"code supplied from outside the module (custom comparison protocols, registered functions) does not come back for an aggregate that is being updated",
			"the tree of scopes and the tree of a parsed query are trees: locking a child's parent, or a part of a node while the node is locked, is ordered by depth",
			"a panic is not a way out of a function",
		},
	}
}

// lockClass names the lock by the type that holds it and the field.
func (w *World) lockClass(call *ssa.CallCommon) string {
	v := call.Value
	if !call.IsInvoke() {
		v = call.Args[0]
	}
	return w.classOfMutex(v)
}

func (w *World) classOfMutex(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if n := namedOf(x.X.Type()); n != nil {
			return strings.Trim(strings.TrimPrefix(pkgPath(n), w.Module), "/") + "." + n.Obj().Name() + "." + fieldOf(x).Name()
		}
		return w.classOfMutex(x.X)
	case *ssa.Global:
		return strings.Trim(strings.TrimPrefix(x.Pkg.Pkg.Path(), w.Module), "/") + "." + x.Name()
	case *ssa.UnOp:
		return w.classOfMutex(x.X)
	case *ssa.Alloc:
		return "local " + x.Comment + " of " + w.Name(outermost(x.Parent()))
	case *ssa.FreeVar:
		if b := w.binding(x); b != nil {
			return w.classOfMutex(b)
		}
	}
	return "?" + v.Name()
}

// heldByDesign: locks kept while calling code from outside, with the reason.
var heldByDesign = map[string]string{
	"protocols.LazyFunctionWrapper.mu": "the callback must run at most once",
	"aggregators.AggregatorCtx.mu":     "the update of an aggregate is one atomic step",
	"scope.AggregatorCtx.mu":           "the update of an aggregate is one atomic step",
}

type lockUse struct {
	w *World
	// locks a function may take, by class, with a witness path
	acq map[*ssa.Function]map[string]string
	// objects (rooted at parameters) whose lock a function may take
	acqPath map[*ssa.Function]map[objPath]string
	// functions that may wait, with a witness
	blocks map[*ssa.Function]string
	// functions that may call out to supplied code
	open map[*ssa.Function]map[string]string
}

// followed: interface calls whose implementations are analysed.
func (u *lockUse) targets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == u.w.Module+"/protocols" {
			return nil // custom protocol implementations: see the assumptions
		}
		// an operator reduces an operand that is passed in lazily; the operands
		// used under a lock are values already: see the assumptions
		if in := c.Value.Parent(); in != nil && in.Pkg != nil && in.Pkg.Pkg.Path() == u.w.Module+"/protocols" && callID(c).recv == "LazyExpr" {
			return nil
		}
	}
	out := u.w.callees(c, true)
	if c.IsInvoke() || c.StaticCallee() != nil {
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	out = append(out, u.passedFuncs(c.Value, map[ssa.Value]bool{})...)
	return out
}

// passedFuncs: the closures which any caller in the module passes for a
// function parameter, or as an element of a slice parameter.
func (u *lockUse) passedFuncs(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	var out []*ssa.Function
	u.w.buildSites()
	for _, o := range u.w.origins(v, false) {
		if seen[o] {
			continue
		}
		seen[o] = true
		switch x := o.(type) {
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, x)
		case *ssa.Parameter:
			fn := x.Parent()
			for i, p := range fn.Params {
				if p != x {
					continue
				}
				for _, s := range u.w.sites[fn] {
					if a := argFor(s.Common(), fn, i); a != nil {
						out = append(out, u.passedFuncs(a, seen)...)
					}
				}
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				out = append(out, u.passedFuncs(ia.X, seen)...)
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok {
								out = append(out, u.passedFuncs(st.Val, seen)...)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// waits: the instruction itself may wait for another goroutine.
func (u *lockUse) waits(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		return "sends on a channel"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "receives from a channel"
		}
	case *ssa.Select:
		if x.Blocking {
			return "waits in a select"
		}
	case *ssa.Range:
	case ssa.CallInstruction:
		if _, isGo := in.(*ssa.Go); isGo {
			return ""
		}
		id := callID(x.Common())
		switch {
		case id.is("sync", "WaitGroup", "Wait"), id.is("sync", "Cond", "Wait"), id.is("time", "", "Sleep"):
			return "calls " + id.recv + id.name
		}
	}
	return ""
}

// opensOut: a call of code that a user of the library supplies.
func (u *lockUse) opensOut(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		n, ok := types.Unalias(c.Value.Type()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !u.w.isModPkg(n.Obj().Pkg().Path()) {
			return ""
		}
		switch n.Obj().Name() {
		case "FunctionInterface", "PluginGeneratorInterface", "LazyExpr", "LazyAny", "StoredQuery", "StringProtocol", "LazyRow", "Materializer", "ScopeMaterializer", "Sorter", "Grouper", "GroupbyActor", "Throttler", "Memberer":
			return "calls " + n.Obj().Name() + "." + c.Method.Name()
		}
		return ""
	}
	if c.StaticCallee() != nil {
		return ""
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return ""
	}
	for _, o := range u.w.origins(c.Value, true) {
		switch x := o.(type) {
		case *ssa.MakeClosure, *ssa.Function:
		case *ssa.Parameter:
			if x.Parent().Parent() != nil || !token.IsExported(x.Parent().Name()) {
				continue // only the module passes functions here: they are analysed
			}
			return "calls the function passed as " + x.Name()
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if par, ok := u.w.pathOf(ia.X).root.(*ssa.Parameter); ok && !token.IsExported(par.Parent().Name()) {
					continue
				}
			}
			return "calls a stored function value"
		default:
			return "calls a stored function value"
		}
	}
	return ""
}

func (w *World) lockUses() *lockUse {
	u := &lockUse{w: w, acq: map[*ssa.Function]map[string]string{}, acqPath: map[*ssa.Function]map[objPath]string{}, blocks: map[*ssa.Function]string{}, open: map[*ssa.Function]map[string]string{}}
	li := w.locks()
	for _, f := range w.Fns {
		u.acq[f] = map[string]string{}
		u.acqPath[f] = map[objPath]string{}
		u.open[f] = map[string]string{}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Fns {
			eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				if s := u.waits(in); s != "" && u.blocks[f] == "" {
					u.blocks[f] = s + " at " + w.instrPos(in)
					changed = true
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if _, isGo := in.(*ssa.Go); isGo {
					return
				}
				cc := c.Common()
				if p, kind, ok := w.lockOp(cc); ok {
					if kind == "lock" || kind == "rlock" {
						cl := w.lockClass(cc)
						if _, has := u.acq[f][cl]; !has {
							u.acq[f][cl] = w.instrPos(in)
							changed = true
						}
						if _, has := u.acqPath[f][p]; !has {
							u.acqPath[f][p] = w.instrPos(in)
							changed = true
						}
						return
					}
					if kind != "once" {
						return
					}
				}
				if s := u.opensOut(cc); s != "" && u.open[f][s] == "" {
					u.open[f][s] = w.instrPos(in)
					changed = true
				}
				for _, t := range u.targets(cc) {
					if !w.inMod[t] {
						continue
					}
					for cl, at := range u.acq[t] {
						if _, has := u.acq[f][cl]; !has {
							u.acq[f][cl] = at
							changed = true
						}
					}
					for p, at := range u.acqPath[t] {
						// a lock of a private object matters to nobody else
						if q, ok := li.translate(p, cc, t); ok && strings.Count(q.sel, ".") <= 2 {
							if _, has := u.acqPath[f][q]; !has && u.nameable(q, f) {
								u.acqPath[f][q] = at
								changed = true
							}
						}
					}
					if s := u.blocks[t]; s != "" && u.blocks[f] == "" {
						u.blocks[f] = s
						changed = true
					}
					for s, at := range u.open[t] {
						if u.open[f][s] == "" {
							u.open[f][s] = at
							changed = true
						}
					}
				}
			})
		}
	}
	return u
}

// nameable: the caller of f can tell which object this is.
func (u *lockUse) nameable(p objPath, f *ssa.Function) bool {
	switch r := p.root.(type) {
	case *ssa.Global:
		return true
	case *ssa.Parameter:
		return r.Parent() == f || f.Parent() != nil
	}
	if in, ok := p.root.(ssa.Instruction); ok && f.Parent() != nil && in.Parent() != f {
		return true
	}
	return false
}

func runC08(w *World, r *Report) {
	r.Rule("R1-released", "a lock taken in a function is released on every way out", 23)
	r.Rule("R2-no-bad-unlock", "only a lock that is certainly held is unlocked", 30)
	r.Rule("R3-no-relock", "a held lock is not taken again, also not below a call", 25)
	r.Rule("R4-no-wait", "no channel operation, wait or sleep while a lock is held", 20)
	r.Rule("R5-no-open-call", "no call out to supplied code while a lock is held", 20)
	r.Rule("R6-lock-order", "locks are always nested in the same order", 1)
	li := w.locks()
	u := w.lockUses()

	badUnlock := map[ssa.Instruction]bool{}
	for _, in := range li.badUnlock {
		badUnlock[in] = true
	}
	edges := map[string]map[string]string{}
	classOf := map[objPath]string{}
	classAt := func(p objPath) string {
		if c := classOf[p]; c != "" {
			return c
		}
		return w.classOfPath(p)
	}
	// name the classes of all paths
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if p, kind, ok := w.lockOp(c.Common()); ok && kind != "once" {
					classOf[p] = w.lockClass(c.Common())
				}
			}
		})
	}
	for _, f := range w.Fns {
		fname := w.Name(outermost(f))
		takes := false
		holding := false
		var openPos, waitPos string
		openMsg, waitMsg := "", ""
		var lockSites []ssa.Instruction
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			if _, isRun := in.(*ssa.RunDefers); isRun && (badUnlock[in] || li.before[in] != nil && len(li.before[in].release) > 0) {
				r.Ob("R2-no-bad-unlock", "deferred unlock in "+fname, w.instrPos(in), !badUnlock[in], "the lock was already released when the deferred unlock runs: unlocking it panics")
			}
			c, isCall := in.(ssa.CallInstruction)
			if isCall {
				if _, kind, ok := w.lockOp(c.Common()); ok {
					switch kind {
					case "lock", "rlock":
						takes = true
						lockSites = append(lockSites, in)
						p, bad := li.relock[in]
						msg := ""
						if bad {
							msg = fmt.Sprintf("%s may already be held here", p.String(w))
						}
						r.Ob("R3-no-relock", "lock in "+fname, w.instrPos(in), !bad, "%s", msg)
					case "unlock", "runlock":
						if _, isDefer := in.(*ssa.Defer); isDefer {
							break
						}
						r.Ob("R2-no-bad-unlock", "unlock in "+fname, w.instrPos(in), !badUnlock[in], "the lock is not held on every way here: unlocking it panics")
					}
				}
			}
			st := li.before[in]
			if st == nil || len(st.may) == 0 && len(st.must) == 0 {
				return
			}
			held := join(st.must, st.may)
			for k := range held {
				if strings.HasSuffix(k.sel, "$once") {
					delete(held, k)
				}
			}
			if len(held) == 0 {
				return
			}
			holding = true
			if _, isGo := in.(*ssa.Go); isGo {
				return
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				return
			}
			if s := u.waits(in); s != "" && waitMsg == "" {
				waitMsg, waitPos = s+" while holding "+held.names(w), w.instrPos(in)
			}
			if !isCall {
				return
			}
			cc := c.Common()
			if p, kind, ok := w.lockOp(cc); ok {
				if kind == "lock" || kind == "rlock" {
					for k := range held {
						u.edge(edges, classAt(k), classAt(p), k, p, w.instrPos(in))
					}
				}
				return
			}
			formatting := true // only nodes of a parsed query are held
			byDesign := true
			for k := range held {
				if heldByDesign[classAt(k)] == "" {
					byDesign = false
				}
				if !u.treeClass(classAt(k)) {
					formatting = false
				}
			}
			if s := u.opensOut(cc); s != "" && !byDesign && openMsg == "" {
				openMsg, openPos = s+" while holding "+held.names(w), w.instrPos(in)
			}
			for _, t := range u.targets(cc) {
				if !w.inMod[t] {
					continue
				}
				if s := u.blocks[t]; s != "" && waitMsg == "" && !(byDesign && cc.IsInvoke()) {
					waitMsg, waitPos = fmt.Sprintf("calls %s, which %s, while holding %s", w.Name(t), s, held.names(w)), w.instrPos(in)
				}
				var opens []string
				for s := range u.open[t] {
					// formatting a node holds the node; the values that bring their
					// own text are not parts of a parsed query
					if !(formatting && s == "calls StringProtocol.ToString") {
						opens = append(opens, s)
					}
				}
				sort.Strings(opens)
				if len(opens) > 0 && !byDesign && openMsg == "" {
					openMsg, openPos = fmt.Sprintf("calls %s, which %s at %s, while holding %s", w.Name(t), opens[0], u.open[t][opens[0]], held.names(w)), w.instrPos(in)
				}
				for p, at := range u.acqPath[t] {
					q, ok := li.translate(p, cc, t)
					if !ok {
						continue
					}
					if _, same := held[q]; same {
						r.Ob("R3-no-relock", fmt.Sprintf("%s calls %s", fname, w.Name(t)), w.instrPos(in), false, "%s is held here and taken again at %s", q.String(w), at)
					}
				}
				for cl, at := range u.acq[t] {
					for k := range held {
						// which object? known when a path of that class translates
						for _, q := range u.pathsOfClass(t, cl, cc, li, classAt) {
							u.edge(edges, classAt(k), cl, k, q, w.instrPos(in)+" -> "+at)
						}
					}
				}
			}
		})
		// exits
		if takes {
			var bad []string
			pos := w.Pos(f.Pos())
			eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
				if h := li.heldExit[in]; len(h) > 0 {
					bad = append(bad, h.names(w))
					pos = w.instrPos(in)
				}
			})
			msg := ""
			if len(bad) > 0 {
				msg = "still held when the function returns: " + strings.Join(bad, "; ")
			} else if acq := withoutOnce(li.effects[f].acq); len(acq) > 0 && !w.directOnly(f) {
				bad = append(bad, acq.names(w))
				msg = "still held on every way out: " + acq.names(w)
			}
			_ = lockSites
			r.Ob("R1-released", w.Name(f), pos, len(bad) == 0, "%s", msg)
		} else if acq := withoutOnce(li.effects[f].acq); len(acq) > 0 && !w.directOnly(f) && !w.inInit(f) {
			r.Ob("R1-released", w.Name(f), w.Pos(f.Pos()), false, "a helper leaves %s locked and this function does not release it", acq.names(w))
		}
		if rel := li.effects[f].rel; len(rel) > 0 && !w.directOnly(f) && !w.deferredOnly(f) {
			r.Ob("R2-no-bad-unlock", w.Name(f), w.Pos(f.Pos()), false, "unlocks %s, which it does not hold: unlocking it panics", rel.names(w))
		}
		if holding {
			r.Ob("R4-no-wait", w.Name(f), orPos(waitPos, w.Pos(f.Pos())), waitMsg == "", "%s", waitMsg)
			r.Ob("R5-no-open-call", w.Name(f), orPos(openPos, w.Pos(f.Pos())), openMsg == "", "%s", openMsg)
		}
	}
	// cycles
	var classes []string
	for a := range edges {
		classes = append(classes, a)
	}
	sort.Strings(classes)
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var walk func(a string) bool
		walk = func(a string) bool {
			for b := range edges[a] {
				if b == to {
					return true
				}
				if !seen[b] {
					seen[b] = true
					if walk(b) {
						return true
					}
				}
			}
			return false
		}
		return walk(from)
	}
	for _, a := range classes {
		var bs []string
		for b := range edges[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			bad := a == b || reach(b, a)
			msg := ""
			if bad {
				msg = fmt.Sprintf("%s is taken while %s is held (%s), and elsewhere the other way round", b, a, edges[a][b])
			}
			r.Ob("R6-lock-order", a+" before "+b, strings.SplitN(edges[a][b], " ", 2)[0], !bad, "%s", msg)
		}
	}
}

// classOfPath finds the class of a lock from the type of the root.
func (w *World) classOfPath(p objPath) string {
	if g, ok := p.root.(*ssa.Global); ok && p.sel == "" {
		return strings.Trim(strings.TrimPrefix(g.Pkg.Pkg.Path(), w.Module), "/") + "." + g.Name()
	}
	if p.root == nil {
		return p.sel
	}
	t := p.root.Type()
	if _, ok := p.root.(*ssa.Global); ok {
		t = t.(*types.Pointer).Elem()
	}
	parts := strings.Split(strings.TrimPrefix(p.sel, "."), ".")
	for i, part := range parts {
		n := namedOf(t)
		if n == nil {
			return p.sel
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return p.sel
		}
		var f *types.Var
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == part {
				f = st.Field(j)
			}
		}
		if f == nil {
			return p.sel
		}
		if i == len(parts)-1 {
			return strings.Trim(strings.TrimPrefix(pkgPath(n), w.Module), "/") + "." + n.Obj().Name() + "." + part
		}
		t = f.Type()
	}
	return p.sel
}

func withoutOnce(l lockset) lockset {
	o := lockset{}
	for k, v := range l {
		if !strings.HasSuffix(k.sel, "$once") {
			o[k] = v
		}
	}
	return o
}

func orPos(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// deferredOnly: a closure that is only ever deferred (it unlocks for its creator).
func (w *World) deferredOnly(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	mcs := w.closures[f]
	if len(mcs) == 0 {
		return false
	}
	for _, mc := range mcs {
		if mc.Referrers() == nil {
			return false
		}
		for _, r := range *mc.Referrers() {
			switch x := r.(type) {
			case *ssa.Defer:
				if x.Call.Value != ssa.Value(mc) {
					return false
				}
			case *ssa.Call:
				if x.Call.Value != ssa.Value(mc) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}

// pathsOfClass: the objects of that lock class which the callee locks, as far as
// they can be named; an empty path for one that cannot.
func (u *lockUse) pathsOfClass(t *ssa.Function, class string, c *ssa.CallCommon, li *lockInfo, classAt func(objPath) string) []objPath {
	var out []objPath
	for p := range u.acqPath[t] {
		if classAt(p) == class {
			if q, ok := li.translate(p, c, t); ok {
				out = append(out, q)
			}
		}
	}
	if len(out) == 0 {
		out = append(out, objPath{})
	}
	return out
}

// edge records that b is taken while a is held.
func (u *lockUse) edge(edges map[string]map[string]string, a, b string, pa, pb objPath, at string) {
	// the parts of a parsed query are a tree, taken from the root down
	if u.treeClass(a) && u.treeClass(b) {
		return
	}
	if a == b {
		if pa == pb {
			return // judged by R3
		}
		// up the tree of scopes: self.mu before self.parent.mu
		if pb.root == pa.root && pb.root != nil && (strings.Contains(pb.sel, ".parent.") || strings.Contains(pb.sel, ".parent")) && !strings.Contains(pa.sel, ".parent") {
			return
		}
	}
	if edges[a] == nil {
		edges[a] = map[string]string{}
	}
	if edges[a][b] == "" || edges[a][b] > at {
		edges[a][b] = at
	}
}

func (u *lockUse) treeClass(cl string) bool {
	for n := range u.w.astTypes() {
		if strings.HasPrefix(cl, "."+n.Obj().Name()+".") || strings.Contains(cl, n.Obj().Name()+".mu") {
			return true
		}
	}
	return false
}
