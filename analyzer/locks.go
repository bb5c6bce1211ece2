package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Lock sets: which locks are certainly / possibly held at each instruction.
// ---------------------------------------------------------------------------

// objPath names an object or a field of it: a root value and the fields loaded
// from it. Loads of one field of one object are taken to be the same object.
type objPath struct {
	root ssa.Value
	sel  string
}

func (p objPath) String(w *World) string {
	name := "?"
	switch r := p.root.(type) {
	case *ssa.Global:
		name = r.Name()
	case nil:
	default:
		name = r.Name()
		if _, ok := r.(*ssa.Parameter); !ok {
			name = "v:" + r.Name()
		}
	}
	return name + p.sel
}

func fieldName(fv *types.Var) string { return "." + fv.Name() }

// pathOf gives the access path of a pointer, struct or interface value.
func (w *World) pathOf(v ssa.Value) objPath {
	sel := ""
	for i := 0; i < 60; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				v = ta.X
				continue
			}
		case *ssa.FieldAddr:
			sel = fieldName(fieldOf(x)) + sel
			v = x.X
			continue
		case *ssa.Field:
			sel = fieldName(x.X.Type().Underlying().(*types.Struct).Field(x.Field)) + sel
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := w.binding(x); b != nil {
				v = b
				continue
			}
		case *ssa.Phi:
			// all edges the same object
			var same ssa.Value
			ok := true
			for _, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				if same != nil && same != e {
					ok = false
				}
				same = e
			}
			if ok && same != nil {
				v = same
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					v = a
					continue
				case *ssa.Global:
					return objPath{a, sel}
				}
				if c := w.cellOf(x.X); c != nil {
					if g, ok := c.(*ssa.Global); ok {
						return objPath{g, sel}
					}
					if vals, esc := w.cellStores(c); len(vals) == 1 && !esc {
						v = vals[0]
						continue
					}
					return objPath{c, sel}
				}
			}
		case *ssa.Call:
			// a helper that hands back its receiver's field or itself
			if f := x.Call.StaticCallee(); f != nil && w.inMod[f] && len(f.Blocks) > 0 {
				if p, ok := w.returnsPath(f, map[*ssa.Function]bool{}); ok {
					if a := argFor(&x.Call, f, p.idx); a != nil {
						sel = p.sel + sel
						v = a
						continue
					}
				}
			}
		}
		break
	}
	return objPath{v, sel}
}

type retPath struct {
	idx int
	sel string
}

// returnsPath: every return of f hands back the same field path of one parameter.
func (w *World) returnsPath(f *ssa.Function, seen map[*ssa.Function]bool) (retPath, bool) {
	if seen[f] || f.Signature.Results().Len() != 1 {
		return retPath{}, false
	}
	if r, ok := w.retPathMemo[f]; ok {
		return r.retPath, r.ok
	}
	seen[f] = true
	if w.retPathMemo == nil {
		w.retPathMemo = map[*ssa.Function]retMemo{}
	}
	w.retPathMemo[f] = retMemo{}
	var out *retPath
	ok := true
	eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
		r, isR := in.(*ssa.Return)
		if !isR || !ok {
			return
		}
		p := w.pathOf(r.Results[0])
		idx := -1
		for j, q := range f.Params {
			if p.root == ssa.Value(q) {
				idx = j
			}
		}
		if idx < 0 || (out != nil && (out.idx != idx || out.sel != p.sel)) {
			ok = false
			return
		}
		out = &retPath{idx, p.sel}
	})
	if !ok || out == nil {
		return retPath{}, false
	}
	w.retPathMemo[f] = retMemo{*out, true}
	return *out, true
}

type retMemo struct {
	retPath
	ok bool
}

func isMutexType(t types.Type) bool {
	return isNamedType(t, "sync", "Mutex") || isNamedType(t, "sync", "RWMutex")
}

// lockOp: is this call an operation on a mutex; kind is lock, unlock, rlock, runlock, once
func (w *World) lockOp(c *ssa.CallCommon) (obj objPath, kind string, ok bool) {
	if c.IsInvoke() {
		id := callID(c)
		if id.is("sync", "Locker", "Lock") || id.is("sync", "Locker", "Unlock") {
			return w.pathOf(c.Value), strings.ToLower(id.name), true
		}
		return objPath{}, "", false
	}
	id := callID(c)
	if id.pkg != "sync" || len(c.Args) == 0 {
		return objPath{}, "", false
	}
	switch {
	case id.recv == "Mutex" || id.recv == "RWMutex":
		switch id.name {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return w.pathOf(c.Args[0]), strings.ToLower(id.name), true
		}
	case id.recv == "Once" && id.name == "Do":
		return w.pathOf(c.Args[0]), "once", true
	}
	return objPath{}, "", false
}

const (
	mRead  = 1
	mWrite = 2
)

type lockset map[objPath]uint8

func (l lockset) clone() lockset {
	o := make(lockset, len(l))
	for k, v := range l {
		o[k] = v
	}
	return o
}

func (l lockset) equal(o lockset) bool {
	if len(l) != len(o) {
		return false
	}
	for k, v := range l {
		if o[k] != v {
			return false
		}
	}
	return true
}

func meet(a, b lockset) lockset {
	o := lockset{}
	for k, v := range a {
		if u, ok := b[k]; ok {
			if u < v {
				v = u
			}
			o[k] = v
		}
	}
	return o
}

func join(a, b lockset) lockset {
	o := a.clone()
	for k, v := range b {
		if o[k] < v {
			o[k] = v
		}
	}
	return o
}

// lockState at a program point. release is the set of locks that deferred calls
// which are certainly registered will release.
type lockState struct {
	must, may lockset
	release   lockset
}

func (s *lockState) clone() *lockState {
	return &lockState{s.must.clone(), s.may.clone(), s.release.clone()}
}

// lockEffect of calling a function: what it leaves locked and what it unlocks
// that it had not locked.
type lockEffect struct {
	acq, rel lockset // rooted at parameters, free variables or globals
}

type lockInfo struct {
	w       *World
	before  map[ssa.Instruction]*lockState
	entry   map[*ssa.Function]lockset
	effects map[*ssa.Function]lockEffect
	// findings of the discipline analysis
	badUnlock []ssa.Instruction
	heldExit  map[ssa.Instruction]lockset
	relock    map[ssa.Instruction]objPath
	nLocks    int
	helperFns map[*ssa.Function]bool
}

func (w *World) locks() *lockInfo {
	if w.lockinfo != nil {
		return w.lockinfo
	}
	li := &lockInfo{w: w, entry: map[*ssa.Function]lockset{}, effects: map[*ssa.Function]lockEffect{}, helperFns: map[*ssa.Function]bool{}}
	w.lockinfo = li
	w.buildSites()
	for iter := 0; iter < 12; iter++ {
		li.before = map[ssa.Instruction]*lockState{}
		li.heldExit = map[ssa.Instruction]lockset{}
		li.relock = map[ssa.Instruction]objPath{}
		li.badUnlock = nil
		changed := false
		for _, f := range w.Fns {
			if li.analyse(f) {
				changed = true
			}
		}
		if li.entries() {
			changed = true
		}
		if !changed {
			break
		}
	}
	return li
}

// translate a path of the callee into the caller's terms.
func (li *lockInfo) translate(p objPath, c *ssa.CallCommon, callee *ssa.Function) (objPath, bool) {
	switch r := p.root.(type) {
	case *ssa.Global:
		return p, true
	case *ssa.Parameter:
		if r.Parent() != callee {
			return p, true // parameter of an enclosing function, reached through a closure
		}
		for i, q := range callee.Params {
			if q == r {
				if a := argFor(c, callee, i); a != nil {
					b := li.w.pathOf(a)
					return objPath{b.root, b.sel + p.sel}, true
				}
			}
		}
		return p, false
	}
	if in, ok := p.root.(ssa.Instruction); ok && in.Parent() != callee {
		return p, true
	}
	if _, ok := p.root.(*ssa.FreeVar); ok {
		return p, false
	}
	return p, false
}

func (li *lockInfo) calleeEffects(c *ssa.CallCommon) (acq, rel lockset) {
	acq, rel = lockset{}, lockset{}
	ts := li.w.callees(c, false)
	for i, t := range ts {
		if !li.w.inMod[t] {
			return lockset{}, lockset{}
		}
		e := li.effects[t]
		a, r := lockset{}, lockset{}
		for k, v := range e.acq {
			if p, ok := li.translate(k, c, t); ok {
				a[p] = v
			}
		}
		for k, v := range e.rel {
			if p, ok := li.translate(k, c, t); ok {
				r[p] = v
			}
		}
		if i == 0 {
			acq, rel = a, r
		} else {
			acq = meet(acq, a)
			rel = join(rel, r)
		}
	}
	return
}

func (li *lockInfo) apply(st *lockState, c *ssa.CallCommon, in ssa.Instruction, rel lockset) {
	if p, kind, ok := li.w.lockOp(c); ok {
		switch kind {
		case "lock", "rlock":
			m := uint8(mWrite)
			if kind == "rlock" {
				m = mRead
			}
			if st.may[p] == mWrite || (st.may[p] != 0 && m == mWrite) {
				li.relock[in] = p
			}
			st.must[p], st.may[p] = m, m
		case "unlock", "runlock":
			if st.may[p] == 0 {
				rel[p] = mWrite
			} else if st.must[p] == 0 {
				li.badUnlock = append(li.badUnlock, in)
			}
			delete(st.must, p)
			delete(st.may, p)
		case "once":
			st.must[objPath{p.root, p.sel + "$once"}] = mRead
		}
		return
	}
	acq, r := li.calleeEffects(c)
	for k := range r {
		if st.may[k] == 0 {
			rel[k] = mWrite
		} else if st.must[k] == 0 {
			li.badUnlock = append(li.badUnlock, in)
		}
		delete(st.must, k)
		delete(st.may, k)
	}
	for k, v := range acq {
		if st.may[k] == mWrite {
			li.relock[in] = k
		}
		st.must[k], st.may[k] = v, v
	}
}

func (li *lockInfo) analyse(f *ssa.Function) bool {
	entry := &lockState{lockset{}, lockset{}, lockset{}}
	if e, ok := li.entry[f]; ok {
		entry.must = e.clone()
	}
	own := entry.must.clone()
	in := map[*ssa.BasicBlock]*lockState{}
	if len(f.Blocks) == 0 {
		return false
	}
	in[f.Blocks[0]] = entry
	rel := lockset{}
	locksHere := map[objPath]bool{}
	eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if p, kind, ok := li.w.lockOp(&c.Call); ok && (kind == "lock" || kind == "rlock") {
				locksHere[p] = true
			}
		}
	})
	var exitMust lockset
	var exits []ssa.Instruction
	heldAt := map[ssa.Instruction]lockset{}
	queue := []*ssa.BasicBlock{f.Blocks[0]}
	// relock / badUnlock are judged in the last pass only
	saveBad := len(li.badUnlock)
	for n := 0; len(queue) > 0 && n < 20000; n++ {
		b := queue[0]
		queue = queue[1:]
		st := in[b].clone()
		for _, x := range b.Instrs {
			li.before[x] = st.clone()
			switch y := x.(type) {
			case *ssa.Call:
				if p, kind, ok := li.w.lockOp(&y.Call); ok && strings.HasSuffix(kind, "unlock") && locksHere[p] && st.may[p] == 0 && st.must[p] == 0 {
					li.badUnlock = append(li.badUnlock, y)
				} else {
					li.apply(st, &y.Call, y, rel)
				}
			case *ssa.Defer:
				if p, kind, ok := li.w.lockOp(&y.Call); ok {
					if kind == "unlock" || kind == "runlock" {
						st.release[p] = mWrite
					}
				} else {
					_, r := li.calleeEffects(&y.Call)
					for k := range r {
						st.release[k] = mWrite
					}
				}
			case *ssa.RunDefers:
				for k := range st.release {
					if st.may[k] == 0 {
						if locksHere[k] && st.must[k] == 0 {
							li.badUnlock = append(li.badUnlock, x)
						} else {
							rel[k] = mWrite
						}
					}
					delete(st.must, k)
					delete(st.may, k)
				}
				st.release = lockset{}
			case *ssa.Return:
				exits = append(exits, x)
				heldAt[x] = st.may.clone()
				m := lockset{}
				for k, v := range st.must {
					if st.may[k] != 0 {
						m[k] = v
					}
				}
				if exitMust == nil {
					exitMust = m
				} else {
					exitMust = meet(exitMust, m)
				}
			}
		}
		for _, s := range b.Succs {
			old := in[s]
			var nw *lockState
			if old == nil {
				nw = st.clone()
			} else {
				nw = &lockState{meet(old.must, st.must), join(old.may, st.may), meet(old.release, st.release)}
			}
			if old == nil || !old.must.equal(nw.must) || !old.may.equal(nw.may) || !old.release.equal(nw.release) {
				in[s] = nw
				queue = append(queue, s)
			}
		}
	}
	_ = saveBad
	_ = own
	if exitMust == nil {
		exitMust = lockset{}
	}
	for _, x := range exits {
		held := heldAt[x]
		for k := range exitMust {
			delete(held, k)
		}
		if len(held) > 0 {
			li.heldExit[x] = held
		}
	}
	// a function that leaves a lock held on every exit is a locking helper
	e := lockEffect{exitMust, rel}
	old := li.effects[f]
	li.effects[f] = e
	return !old.acq.equal(e.acq) || !old.rel.equal(e.rel)
}

// directOnly: every use of the function is a call or defer in the module.
func (w *World) directOnly(f *ssa.Function) bool {
	if f.Parent() != nil {
		// closure: all uses of its MakeClosure are calls or defers
		mcs := w.closures[f]
		if len(mcs) == 0 {
			// closure without captures is used as a value or called directly
			return !w.addrTaken[f] && len(w.callers[f]) > 0
		}
		for _, mc := range mcs {
			if mc.Referrers() == nil {
				return false
			}
			for _, r := range *mc.Referrers() {
				switch x := r.(type) {
				case *ssa.Call:
					if x.Call.Value != ssa.Value(mc) {
						return false
					}
				case *ssa.Defer:
					return false
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		}
		return true
	}
	if token.IsExported(f.Name()) || w.addrTaken[f] || len(w.callers[f]) == 0 {
		return false
	}
	// not reachable through an interface
	for _, s := range w.sites[f] {
		if s.Common().IsInvoke() {
			return false
		}
		if _, isGo := s.(*ssa.Go); isGo {
			return false
		}
	}
	return true
}

// entries: locks held at every call of a function that is only called directly.
func (li *lockInfo) entries() bool {
	w := li.w
	changed := false
	for _, f := range w.Fns {
		var sites []ssa.CallInstruction
		if w.directOnly(f) {
			sites = append(sites, w.callers[f]...)
			if f.Parent() != nil {
				sites = w.sites[f]
			}
		} else if s := w.onceDo(f); s != nil {
			p := w.pathOf(s.Common().Args[0])
			e := lockset{objPath{p.root, p.sel + "$once"}: mWrite}
			if !li.entry[f].equal(e) {
				li.entry[f] = e
				changed = true
			}
			continue
		} else {
			continue
		}
		var e lockset
		for _, s := range sites {
			st := li.before[s]
			if st == nil {
				continue // dead code
			}
			held := st.must
			if _, isDefer := s.(*ssa.Defer); isDefer {
				held = lockset{}
			}
			tr := lockset{}
			for k, v := range held {
				for _, p := range li.intoCallee(k, s.Common(), f) {
					tr[p] = v
				}
			}
			if e == nil {
				e = tr
			} else {
				e = meet(e, tr)
			}
		}
		if e == nil {
			e = lockset{}
		}
		if !li.entry[f].equal(e) {
			li.entry[f] = e
			changed = true
		}
	}
	return changed
}

// onceDo: f is the closure handed to a sync.Once and to nothing else.
func (w *World) onceDo(f *ssa.Function) ssa.CallInstruction {
	for _, mc := range w.closures[f] {
		if mc.Referrers() == nil {
			return nil
		}
		for _, r := range *mc.Referrers() {
			if c, ok := r.(ssa.CallInstruction); ok {
				if _, kind, ok := w.lockOp(c.Common()); ok && kind == "once" {
					return c
				}
			}
		}
	}
	return nil
}

// intoCallee renames a caller's path to the callee's parameters.
func (li *lockInfo) intoCallee(p objPath, c *ssa.CallCommon, callee *ssa.Function) (out []objPath) {
	if _, ok := p.root.(*ssa.Global); ok {
		return []objPath{p}
	}
	for i, q := range callee.Params {
		a := argFor(c, callee, i)
		if a == nil {
			continue
		}
		b := li.w.pathOf(a)
		if b.root == p.root && strings.HasPrefix(p.sel, b.sel) {
			out = append(out, objPath{q, strings.TrimPrefix(p.sel, b.sel)})
		}
	}
	if len(out) == 0 && callee.Parent() != nil {
		return []objPath{p} // captured objects keep their name
	}
	return out
}

func (l lockset) names(w *World) string {
	var out []string
	for k := range l {
		out = append(out, k.String(w))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}
