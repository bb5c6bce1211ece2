package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = check{run: runC07,
		explanation: "Lock-set dataflow over the SSA of every function (locks certainly held at each instruction, through helpers, deferred unlocks, closures and callers). Every access to a field of a shared structure that is written after construction, and to every package variable written after initialisation, must happen while a lock of the same object (or a package lock common to all accesses) is certainly held, or be atomic, or happen on an object that its creator has not yet published. Loaded maps stay guarded where they are read or written. No structure that contains a lock is copied. Variables shared between a started goroutine and its creator are either not written concurrently or guarded.",
		assumptions: []string{
			"the structures that several goroutines may use are: every structure containing a lock, every structure the query parser builds, and the list in the analyzer (c07.go: sharedTypes)",
			"registering protocol implementations (AddProtocolImpl) and choosing a fresh context (ClearContext) is set-up: it happens before the scope is shared",
			"reflection (participle filling in a parsed query, the argument parser filling in an argument structure) happens before the structure is shared",
			"the same field path loaded twice in one function denotes the same object",
		},
	}
}

// sharedTypes: used from several goroutines although they may hold no lock.
var sharedTypes = [][2]string{
	{"scope", "Scope"}, {"scope", "protocolDispatcher"}, {"scope", "_destructors"}, {"scope", "AggregatorCtx"},
	{"aggregators", "AggregatorCtx"}, {"types", "Stats"}, {"protocols", "LazyFunctionWrapper"},
	{"arg_parser", "Parser"}, {"arg_parser", "FieldParser"}, {"materializer", "InMemoryMatrializer"},
	{"", "LazyExprImpl"}, {"", "TimeThrottler"}, {"", "_StoredQuery"}, {"", "StoredExpression"},
	{"", "StoredQueryCallSite"}, {"", "Lambda"}, {"plugins", "workerPool"}, {"functions", "Aggregator"},
}

// setupFields: chosen before the object is shared, with the reason.
var setupFields = map[string]string{
	"scope.Scope.dispatcher": "replaced by ClearContext only, which prepares a scope before it is used",
}

// buildTypes: objects written only while they are built, by their builder methods.
var builderTypes = map[string]string{
	"LazyRowImpl": "columns are added by the Transform that makes the row, before anyone else sees it",
}

// astTypes: the structures that the parser grammar builds.
func (w *World) astTypes() map[*types.Named]bool {
	if w.ast != nil {
		return w.ast
	}
	w.ast = map[*types.Named]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch x := types.Unalias(t).(type) {
		case *types.Pointer:
			add(x.Elem())
		case *types.Slice:
			add(x.Elem())
		case *types.Named:
			if x.Obj().Pkg() == nil || !w.isModPkg(x.Obj().Pkg().Path()) || w.ast[x] {
				return
			}
			st, ok := x.Underlying().(*types.Struct)
			if !ok {
				return
			}
			w.ast[x] = true
			for i := 0; i < st.NumFields(); i++ {
				if _, isI := st.Field(i).Type().Underlying().(*types.Interface); isI {
					continue
				}
				if strings.TrimSpace(st.Tag(i)) == "" {
					continue
				}
				add(st.Field(i).Type())
			}
		}
	}
	for _, p := range w.Pkgs {
		for _, inst := range p.TypesInfo.Instances {
			if inst.TypeArgs.Len() == 0 {
				continue
			}
			sig, ok := inst.Type.(*types.Signature)
			if !ok {
				continue
			}
			uses := false
			for i := 0; i < sig.Results().Len(); i++ {
				if strings.Contains(sig.Results().At(i).Type().String(), "participle") {
					uses = true
				}
			}
			if uses {
				add(inst.TypeArgs.At(0))
			}
		}
	}
	return w.ast
}

func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func hasMutexField(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			if _, isPtr := st.Field(i).Type().(*types.Pointer); !isPtr {
				return true
			}
		}
	}
	return false
}

// containsLock: a value of this type carries a lock by value.
func containsLock(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if x.Obj().Pkg() != nil && x.Obj().Pkg().Path() == "sync" {
			switch x.Obj().Name() {
			case "Mutex", "RWMutex", "WaitGroup", "Once", "Map", "Cond", "Pool":
				return true
			}
			return false
		}
		if x.Obj().Pkg() != nil && x.Obj().Pkg().Path() == "sync/atomic" {
			return true
		}
		return containsLock(x.Underlying(), depth+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if containsLock(x.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return containsLock(x.Elem(), depth+1)
	}
	return false
}

func selfSynchronized(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

type access struct {
	fv    *types.Var
	owner *types.Named
	base  ssa.Value // pointer to the object
	in    ssa.Instruction
	write bool
	elem  bool // element of the map or slice in the field
	atom  bool
}

func (w *World) fieldOwner(fa ssa.Value) *types.Named {
	switch x := fa.(type) {
	case *ssa.FieldAddr:
		return namedOf(x.X.Type())
	case *ssa.Field:
		return namedOf(x.X.Type())
	}
	return nil
}

// accesses of the content of a loaded map or slice
func contentUses(load ssa.Value, fn func(in ssa.Instruction, write bool)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MapUpdate:
				if x.Map == v {
					fn(x, true)
				}
			case *ssa.Lookup:
				if x.X == v {
					fn(x, false)
				}
			case *ssa.Range:
				fn(x, false)
				if x.Referrers() != nil {
					for _, n := range *x.Referrers() {
						fn(n, false)
					}
				}
			case *ssa.IndexAddr:
				if x.X != v || x.Referrers() == nil {
					continue
				}
				for _, u := range *x.Referrers() {
					switch y := u.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(x) {
							fn(y, true)
						}
					case *ssa.UnOp:
						fn(y, false)
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear":
						fn(x, true)
					case "len":
						if _, isMap := v.Type().Underlying().(*types.Map); isMap {
							fn(x, false)
						}
					case "append", "copy":
						fn(x, b.Name() == "copy" && len(x.Call.Args) > 0 && x.Call.Args[0] == v)
						if x.Call.Args[0] != v {
							continue
						}
					}
				}
			case *ssa.Phi, *ssa.ChangeType:
				walk(x.(ssa.Value))
			}
		}
	}
	walk(load)
}

func (w *World) collectAccesses() map[*types.Var][]access {
	out := map[*types.Var][]access{}
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				fv := fieldOf(x)
				owner := w.fieldOwner(x)
				if owner == nil || x.Referrers() == nil {
					return
				}
				for _, r := range *x.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp:
						if y.Op != token.MUL {
							continue
						}
						out[fv] = append(out[fv], access{fv, owner, x.X, y, false, false, false})
						contentUses(y, func(u ssa.Instruction, wr bool) {
							out[fv] = append(out[fv], access{fv, owner, x.X, u, wr, true, false})
						})
					case *ssa.Store:
						if y.Addr == ssa.Value(x) {
							out[fv] = append(out[fv], access{fv, owner, x.X, y, true, false, false})
						}
					case *ssa.IndexAddr:
						if y.Referrers() == nil {
							continue
						}
						for _, u := range *y.Referrers() {
							switch z := u.(type) {
							case *ssa.Store:
								if z.Addr == ssa.Value(y) {
									out[fv] = append(out[fv], access{fv, owner, x.X, z, true, false, false})
								}
							case *ssa.UnOp:
								out[fv] = append(out[fv], access{fv, owner, x.X, z, false, false, false})
							}
						}
					case ssa.CallInstruction:
						id := callID(y.Common())
						if id.pkg == "sync/atomic" {
							out[fv] = append(out[fv], access{fv, owner, x.X, y, true, false, true})
						}
					}
				}
			case *ssa.Field:
				fv := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
				owner := w.fieldOwner(x)
				// a copy of the structure: the copy itself is judged by R2
				if u, ok := x.X.(*ssa.UnOp); ok && owner != nil && u.Op == token.MUL {
					out[fv] = append(out[fv], access{fv, owner, u.X, u, false, false, false})
				}
			case *ssa.Store:
				// whole structure overwritten
				if n := namedOf(x.Val.Type()); n != nil {
					if st, ok := n.Underlying().(*types.Struct); ok {
						if _, isPtr := x.Val.Type().(*types.Pointer); isPtr {
							return
						}
						if _, isAlloc := x.Addr.(*ssa.Alloc); isAlloc {
							return
						}
						if !w.isModPkg(pkgPath(n)) {
							return
						}
						for i := 0; i < st.NumFields(); i++ {
							out[st.Field(i)] = append(out[st.Field(i)], access{st.Field(i), n, x.Addr, x, true, false, false})
						}
					}
				}
			}
		})
	}
	return out
}

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// ---------------------------------------------------------------------------
// fresh objects
// ---------------------------------------------------------------------------

// freshRoot: v is an object made here: an allocation, or the result of a
// function of the module whose every return is a fresh object.
func (w *World) freshRoot(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeInterface:
		return w.freshRoot(x.X, depth)
	case *ssa.Call:
		if depth > 4 {
			return false
		}
		f := x.Call.StaticCallee()
		if f == nil || !w.inMod[f] || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
			return false
		}
		ok, n := true, 0
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			if r, isR := in.(*ssa.Return); isR {
				n++
				p := w.pathOf(r.Results[0])
				if p.sel != "" || !w.freshRoot(p.root, depth+1) || !w.unpublishedIn(p.root, f) {
					ok = false
				}
			}
		})
		return ok && n > 0
	}
	return false
}

// publish: instructions that make the object reachable for others.
func (w *World) publishes(root ssa.Value) []ssa.Instruction {
	return w.publishesRec(root, map[ssa.Value]bool{})
}

func (w *World) publishesRec(root ssa.Value, done map[ssa.Value]bool) []ssa.Instruction {
	var out []ssa.Instruction
	if done[root] {
		return nil
	}
	done[root] = true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if c := w.cellOf(x.Addr); c != nil {
					if _, isG := c.(*ssa.Global); isG {
						out = append(out, x)
						continue
					}
					// local variable: follow its loads
					for _, a := range w.cellAliases(c) {
						if a.Referrers() == nil {
							continue
						}
						for _, l := range *a.Referrers() {
							if u, ok := l.(*ssa.UnOp); ok {
								walk(u)
							}
						}
					}
					continue
				}
				// an element of a fresh array, e.g. the arguments of append
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok {
						out = append(out, w.publishesRec(al, done)...)
						continue
					}
				}
				p := w.pathOf(x.Addr)
				if w.freshRoot(p.root, 0) {
					if al, ok := p.root.(*ssa.Alloc); ok {
						// part of another object that is still ours: published with it
						out = append(out, w.publishesRec(al, done)...)
						continue
					}
				}
				out = append(out, x)
			case *ssa.Slice:
				if x.X == v {
					walk(x)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x)
				}
			case *ssa.MapUpdate:
				if x.Value == v || x.Key == v {
					out = append(out, x)
				}
			case *ssa.Send:
				if x.X == v {
					out = append(out, x)
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Send == v {
						out = append(out, x)
					}
				}
			case *ssa.Go:
				out = append(out, x)
			case *ssa.MakeClosure:
				// captured: published when the closure starts a goroutine or escapes
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						out = append(out, x)
					}
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Phi:
				walk(x.(ssa.Value))
			}
		}
	}
	walk(root)
	return out
}

func (w *World) unpublishedIn(root ssa.Value, f *ssa.Function) bool {
	if in, ok := root.(ssa.Instruction); ok && in.Parent() != f {
		return false
	}
	return len(w.publishes(root)) == 0
}

// mayPrecede: instruction a can execute before b (in the same function).
func mayPrecede(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, x := range a.Block().Instrs {
			if x == a {
				ia = i
			}
			if x == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
		return reachableFrom(a.Block(), false)[b.Block()]
	}
	return reachableFrom(a.Block(), true)[b.Block()]
}

// unshared: the object at path p is still private to the function at in.
func (w *World) unshared(p objPath, in ssa.Instruction, depth int) bool {
	if isParserResult(p.root) {
		return true
	}
	if w.freshRoot(p.root, 0) {
		ri, ok := p.root.(ssa.Instruction)
		if !ok || ri.Parent() != in.Parent() {
			return false
		}
		for _, pub := range w.publishes(p.root) {
			if pub.Parent() == in.Parent() && pub != in && mayPrecede(pub, in) {
				// re-created in the meantime?
				if mayPrecedeAvoiding(pub, in, ri) {
					return false
				}
			}
		}
		return true
	}
	// an unexported helper, or a method of a type that never leaves the module's
	// hands, of which every caller passes an object that is still private
	if par, ok := p.root.(*ssa.Parameter); ok && depth < 4 {
		fn := par.Parent()
		if !w.privateCallable(fn, par) {
			return false
		}
		idx := -1
		for i, q := range fn.Params {
			if q == par {
				idx = i
			}
		}
		n := 0
		for _, s := range w.sites[fn] {
			if s.Parent() == fn {
				// recursion on a part of the same object
				if a := argFor(s.Common(), fn, idx); a != nil && w.pathOf(a).root == ssa.Value(par) {
					continue
				}
			}
			a := argFor(s.Common(), fn, idx)
			if a == nil {
				return false
			}
			if _, isGo := s.(*ssa.Go); isGo {
				return false
			}
			n++
			if !w.unshared(w.pathOf(a), s, depth+1) {
				return false
			}
		}
		return n > 0
	}
	return false
}

// mayPrecedeAvoiding: from a to b without passing through via.
func mayPrecedeAvoiding(a, b, via ssa.Instruction) bool {
	if via.Block() == a.Block() || via.Block() == b.Block() {
		// same block: decide by order within the block
		idx := func(x ssa.Instruction) int {
			for i, y := range x.Block().Instrs {
				if y == x {
					return i
				}
			}
			return -1
		}
		if a.Block() == b.Block() && idx(a) < idx(b) {
			return !(via.Block() == a.Block() && idx(a) < idx(via) && idx(via) < idx(b))
		}
		if via.Block() == b.Block() && idx(via) < idx(b) {
			return false
		}
		if via.Block() == a.Block() && idx(via) > idx(a) {
			return false
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	found := false
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] || found {
			return
		}
		seen[x] = true
		if x == b.Block() {
			found = true
			return
		}
		if x == via.Block() {
			return
		}
		for _, s := range x.Succs {
			walk(s)
		}
	}
	if a.Block() == b.Block() {
		return true
	}
	for _, s := range a.Block().Succs {
		walk(s)
	}
	return found
}

// privateCallable: only the module's own code can call fn with this parameter.
func (w *World) privateCallable(fn *ssa.Function, par *ssa.Parameter) bool {
	if fn.Parent() != nil || w.addrTaken[fn] {
		return false
	}
	if !token.IsExported(fn.Name()) {
		return true
	}
	// exported method of a type that no exported function hands out
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	n := namedOf(recv.Type())
	if n == nil {
		return false
	}
	if !token.IsExported(n.Obj().Name()) {
		return false // may still be reached through an interface
	}
	for _, f := range w.Fns {
		if f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if namedOf(f.Signature.Results().At(i).Type()) == n {
				return false
			}
		}
	}
	for _, o := range w.named {
		if st, ok := o.Underlying().(*types.Struct); ok && o != n {
			for i := 0; i < st.NumFields(); i++ {
				if namedOf(st.Field(i).Type()) == n {
					return false
				}
			}
		}
	}
	return true
}

// isParserResult: what the grammar parser just built.
func isParserResult(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	id := funcID(f)
	return strings.HasPrefix(id.pkg, "github.com/alecthomas/participle")
}

// guarded: a lock of the object that owns the field (or of an object that
// contains it) is certainly held.
func (w *World) guarded(li *lockInfo, a access) bool {
	st := li.before[a.in]
	if st == nil {
		return true // unreachable
	}
	need := uint8(mRead)
	if a.write {
		need = mWrite
	}
	p := w.pathOf(a.base)
	for l, m := range st.must {
		if l.root != p.root || m < need {
			continue
		}
		// the lock is a field of the object or of one of its containers
		cut := strings.LastIndex(l.sel, ".")
		if cut < 0 {
			continue
		}
		holder := l.sel[:cut]
		if holder == p.sel || (strings.HasPrefix(p.sel, holder+".") && !hasMutexField(a.owner)) {
			return true
		}
	}
	return false
}

func runC07(w *World, r *Report) {
	r.Rule("R1-guarded-field", "an access to a field of a shared structure that is written after construction holds the lock of that structure, is atomic, or the object is still private", 59)
	r.Rule("R2-no-lock-copy", "a structure containing a lock is not copied", 5)
	r.Rule("R3-guarded-global", "package variables written after initialisation are accessed under one common lock or atomically", 3)
	r.Rule("R4-goroutine-variable", "a local variable shared with a goroutine is not written by one while the other uses it", 2)
	r.Rule("R5-guarded-content", "the map or slice kept in a guarded field is not handed to another object", 1)
	li := w.locks()
	acc := w.collectAccesses()

	shared := map[*types.Named]string{}
	for _, s := range sharedTypes {
		if n := w.typeNamed(s[0], s[1]); n != nil {
			shared[n] = "used from several goroutines"
		}
	}
	for _, n := range w.named {
		if hasMutexField(n) {
			shared[n] = "has a lock"
		}
	}
	for n := range w.astTypes() {
		shared[n] = "part of a parsed query"
	}
	typeKey := func(n *types.Named) string {
		return strings.TrimPrefix(strings.TrimPrefix(pkgPath(n), w.Module), "/")
	}

	var fields []*types.Var
	for fv := range acc {
		fields = append(fields, fv)
	}
	sort.Slice(fields, func(i, j int) bool {
		a, b := acc[fields[i]][0], acc[fields[j]][0]
		if a.owner.String() != b.owner.String() {
			return a.owner.String() < b.owner.String()
		}
		return fields[i].Name() < fields[j].Name()
	})
	guardedFields := map[*types.Var]bool{}
	nShared := 0
	for _, fv := range fields {
		as := acc[fv]
		owner := as[0].owner
		if _, ok := shared[owner]; !ok {
			continue
		}
		if selfSynchronized(fv.Type()) {
			continue
		}
		nShared++
		tk := strings.Trim(typeKey(owner)+"."+owner.Obj().Name(), ".")
		if _, ok := builderTypes[tk]; ok {
			continue
		}
		if _, ok := setupFields[tk+"."+fv.Name()]; ok {
			continue
		}
		mutable, atomic := false, false
		elemWrite := false
		for _, a := range as {
			if a.atom {
				atomic = true
				continue
			}
			if a.write && !w.unshared(w.pathOf(a.base), a.in, 0) && !w.inInit(a.in.Parent()) {
				mutable = true
				if a.elem {
					elemWrite = true
				}
			}
		}
		if !mutable && !atomic {
			continue
		}
		guardedFields[fv] = true
		_, isMap := fv.Type().Underlying().(*types.Map)
		for _, a := range as {
			if a.elem && !a.write && !isMap && !elemWrite {
				continue // a slice whose elements never change can be read by whoever got it under the lock
			}
			if w.unshared(w.pathOf(a.base), a.in, 0) || w.inInit(a.in.Parent()) {
				continue
			}
			key := fmt.Sprintf("%s.%s %s in %s", tk, fv.Name(), map[bool]string{true: "write", false: "read"}[a.write], w.Name(outermost(a.in.Parent())))
			switch {
			case a.atom:
				r.Ob("R1-guarded-field", key+" atomic", w.instrPos(a.in), true, "atomic")
			case atomic && !mutable:
				r.Ob("R1-guarded-field", key, w.instrPos(a.in), false, "the field is accessed atomically elsewhere and plainly here")
			case atomic:
				r.Ob("R1-guarded-field", key, w.instrPos(a.in), w.guarded(li, a) && false, "the field is accessed atomically elsewhere and plainly here")
			default:
				ok := w.guarded(li, a)
				msg := "under its lock"
				if !ok {
					msg = fmt.Sprintf("%s is written after construction but this access does not hold its lock (held: %s)", fv.Name(), li.before[a.in].must.names(w))
				}
				r.Ob("R1-guarded-field", key, w.instrPos(a.in), ok, "%s", msg)
			}
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d shared structures, %d of their fields accessed, %d of those are written after construction", len(shared), nShared, len(guardedFields)))

	// R2
	w.lockCopies(r)

	// R5: references to guarded maps stored elsewhere
	for _, fv := range fields {
		if !guardedFields[fv] {
			continue
		}
		if _, isMap := fv.Type().Underlying().(*types.Map); !isMap {
			continue
		}
		for _, l := range w.fieldLoads[fv] {
			bad := ""
			if l.Referrers() != nil {
				for _, u := range *l.Referrers() {
					switch x := u.(type) {
					case *ssa.Store:
						if x.Val == l && w.cellOf(x.Addr) == nil {
							p, q := w.pathOf(x.Addr), w.pathOf(l)
							if p.root != q.root {
								bad = "the map itself is stored in another object: two locks would guard one map"
							}
						}
					case *ssa.Return:
						bad = "the map itself is returned to the caller, who does not hold the lock"
						if !token.IsExported(x.Parent().Name()) {
							bad = ""
						}
					}
				}
			}
			if _, isInstr := l.(ssa.Instruction); isInstr {
				in := l.(ssa.Instruction)
				r.Ob("R5-guarded-content", fv.Name()+" in "+w.Name(outermost(in.Parent())), w.instrPos(in), bad == "", "%s", bad)
			}
		}
	}

	w.globalsGuarded(r, li)
	w.goroutineVars(r, li)
}

// inInit: the function runs only while the package is initialised
func (w *World) inInit(f *ssa.Function) bool { return w.onlyInit(f, 0) }

func (w *World) onlyInit(f *ssa.Function, d int) bool {
	if inInit(f) {
		return true
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if d > 3 || len(w.callers[f]) == 0 || w.addrTaken[f] || token.IsExported(f.Name()) || !w.directOnly(f) {
		return false
	}
	for _, c := range w.callers[f] {
		if _, isGo := c.(*ssa.Go); isGo || !w.onlyInit(c.Parent(), d+1) {
			return false
		}
	}
	return true
}

func inInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Synthetic == "package initializer" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

func (w *World) lockCopies(r *Report) {
	for _, f := range w.Fns {
		for i, p := range f.Params {
			if _, isPtr := p.Type().(*types.Pointer); isPtr {
				continue
			}
			if containsLock(p.Type(), 0) {
				if _, isIface := p.Type().Underlying().(*types.Interface); isIface {
					continue
				}
				r.Ob("R2-no-lock-copy", fmt.Sprintf("parameter %d of %s", i, w.Name(f)), w.Pos(f.Pos()), false, "%s carries a lock and is passed by value: every call copies it", p.Type())
			}
		}
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			if !containsLock(u.Type(), 0) {
				return
			}
			if u.Referrers() == nil || len(*u.Referrers()) == 0 {
				return // nothing is copied
			}
			// zero value loads of a fresh literal being built are harmless
			if a, ok := u.X.(*ssa.Alloc); ok && !a.Heap {
				if onlyZeroOrLiteral(a) {
					return
				}
			}
			r.Ob("R2-no-lock-copy", fmt.Sprintf("copy of %s in %s", shortType(w, u.Type()), w.Name(f)), w.instrPos(u), false, "the structure is copied together with its lock and what the lock guards")
		})
	}
	// structures whose lock is intact
	for _, n := range w.named {
		if containsLock(n, 0) {
			r.Ob("R2-no-lock-copy", shortType(w, n), w.Pos(n.Obj().Pos()), true, "")
		}
	}
}

func onlyZeroOrLiteral(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return true
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(a) {
				return false
			}
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func shortType(w *World, t types.Type) string {
	s := t.String()
	s = strings.ReplaceAll(s, w.Module+"/", "")
	s = strings.ReplaceAll(s, w.Module+".", "")
	return s
}

// ---------------------------------------------------------------------------
// package variables
// ---------------------------------------------------------------------------

type gaccess struct {
	in    ssa.Instruction
	write bool
	atom  bool
}

func (w *World) globalsGuarded(r *Report, li *lockInfo) {
	acc := map[*ssa.Global][]gaccess{}
	for _, f := range w.Fns {
		if w.inInit(f) {
			continue
		}
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok || g.Pkg == nil || !w.isModPkg(g.Pkg.Pkg.Path()) {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						acc[g] = append(acc[g], gaccess{x, true, false})
					}
				case *ssa.UnOp:
					acc[g] = append(acc[g], gaccess{x, false, false})
					contentUses(x, func(u ssa.Instruction, wr bool) {
						acc[g] = append(acc[g], gaccess{u, wr, false})
					})
				case ssa.CallInstruction:
					if callID(x.Common()).pkg == "sync/atomic" {
						acc[g] = append(acc[g], gaccess{x, true, true})
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					v := in.(ssa.Value)
					if v.Referrers() == nil {
						continue
					}
					for _, u := range *v.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if y.Addr == v {
								acc[g] = append(acc[g], gaccess{y, true, false})
							}
						case *ssa.UnOp:
							acc[g] = append(acc[g], gaccess{y, false, false})
						}
					}
				}
			}
		})
	}
	var gs []*ssa.Global
	for g := range acc {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if selfSynchronized(g.Type().(*types.Pointer).Elem()) {
			continue
		}
		written, atom := false, false
		for _, a := range acc[g] {
			if a.atom {
				atom = true
			} else if a.write {
				written = true
			}
		}
		if !written && !atom {
			continue
		}
		name := strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), w.Module), "/") + "." + g.Name()
		// the locks common to all plain accesses
		var common lockset
		for _, a := range acc[g] {
			if a.atom {
				continue
			}
			st := li.before[a.in]
			if st == nil {
				continue
			}
			gl := lockset{}
			for k, v := range st.must {
				if _, ok := k.root.(*ssa.Global); ok {
					if a.write && v != mWrite {
						continue
					}
					gl[k] = v
				}
			}
			if common == nil {
				common = gl
			} else {
				common = meet(common, gl)
			}
		}
		for _, a := range acc[g] {
			key := name + " in " + w.Name(outermost(a.in.Parent()))
			switch {
			case a.atom && !written:
				r.Ob("R3-guarded-global", key, w.instrPos(a.in), true, "atomic")
			case atom:
				r.Ob("R3-guarded-global", key, w.instrPos(a.in), false, "accessed atomically in one place and plainly in another")
			default:
				r.Ob("R3-guarded-global", key, w.instrPos(a.in), len(common) > 0, "no lock is held at every access of this variable, which is written after initialisation (here: %s)", li.before[a.in].must.names(w))
			}
		}
	}
}

// ---------------------------------------------------------------------------
// local variables shared with a goroutine
// ---------------------------------------------------------------------------

// closureTree: fn and the closures it creates and runs.
func closureTree(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for i := 0; i < len(out); i++ {
		out = append(out, out[i].AnonFuncs...)
	}
	return out
}

type cellUse struct {
	in    ssa.Instruction
	write bool
}

func (w *World) cellUses(cell ssa.Value) []cellUse {
	var out []cellUse
	for _, a := range w.cellAliases(cell) {
		if a.Referrers() == nil {
			continue
		}
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == a {
					out = append(out, cellUse{x, true})
				}
			case *ssa.UnOp:
				out = append(out, cellUse{x, false})
				contentUses(x, func(u ssa.Instruction, wr bool) {
					if wr {
						if _, isCall := u.(*ssa.Call); !isCall {
							out = append(out, cellUse{u, true})
						}
					} else if _, isMap := x.Type().Underlying().(*types.Map); isMap {
						out = append(out, cellUse{u, false})
					}
				})
			case *ssa.FieldAddr, *ssa.IndexAddr:
				v := x.(ssa.Value)
				if v.Referrers() == nil {
					continue
				}
				for _, u := range *v.Referrers() {
					switch y := u.(type) {
					case *ssa.Store:
						if y.Addr == v {
							out = append(out, cellUse{y, true})
						}
					case *ssa.UnOp:
						out = append(out, cellUse{y, false})
					}
				}
			}
		}
	}
	return out
}

func inLoop(b *ssa.BasicBlock) bool { return reachableFrom(b, false)[b] }

// joined: on the way from the go statement to use, the goroutine was waited for.
func (w *World) joined(g *ssa.Go, use ssa.Instruction) bool {
	// every path from g to use passes a wait
	isJoin := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			id := callID(&x.Call)
			return (id.pkg == "sync" && id.recv == "WaitGroup" && id.name == "Wait") || (id.name == "Wait" && id.pkg != "sync")
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			if !x.Blocking {
				return false
			}
			for _, s := range x.States {
				if s.Dir == types.RecvOnly {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if b.Instrs[i] == use {
				return false
			}
			if isJoin(b.Instrs[i]) {
				return true
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	gi := 0
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			gi = i + 1
		}
	}
	return walk(g.Block(), gi)
}

func (w *World) goroutineVars(r *Report, li *lockInfo) {
	for _, f := range w.Fns {
		eachInstr(f, func(b *ssa.BasicBlock, i int, in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			for _, t := range w.callees(&g.Call, false) {
				mcs := w.closures[t]
				if len(mcs) == 0 || !w.inMod[t] {
					continue
				}
				inside := map[*ssa.Function]bool{}
				for _, x := range closureTree(t) {
					inside[x] = true
				}
				for fi, fv := range t.FreeVars {
					for _, mc := range mcs {
						cell, ok := mc.Bindings[fi].(*ssa.Alloc)
						if !ok {
							c := w.cellOf(mc.Bindings[fi])
							if cell, ok = c.(*ssa.Alloc); !ok {
								continue
							}
						}
						if _, isPtr := fv.Type().Underlying().(*types.Pointer); !isPtr {
							continue
						}
						bad := w.sharedCell(li, f, g, cell, inside)
						key := fmt.Sprintf("%s shared with goroutine of %s", cell.Comment, w.Name(outermost(f)))
						r.Ob("R4-goroutine-variable", key, w.instrPos(g), bad == "", "%s", bad)
					}
				}
			}
		})
	}
}

func (w *World) sharedCell(li *lockInfo, f *ssa.Function, g *ssa.Go, cell *ssa.Alloc, inside map[*ssa.Function]bool) string {
	if selfSynchronized(cell.Type().(*types.Pointer).Elem()) {
		return ""
	}
	uses := w.cellUses(cell)
	// is the variable new for every goroutine?
	perGo := true
	if inLoop(g.Block()) && !(cell.Parent() == f && mayPrecedeAvoidingSelf(g, cell)) {
		perGo = false
	}
	lockedAt := func(u cellUse) lockset {
		st := li.before[u.in]
		if st == nil {
			return lockset{}
		}
		return st.must
	}
	for _, u := range uses {
		if !inside[u.in.Parent()] || !u.write {
			continue
		}
		if !perGo && len(lockedAt(u)) == 0 {
			return fmt.Sprintf("every goroutine started at %s writes it at %s", w.instrPos(g), w.instrPos(u.in))
		}
		for _, o := range uses {
			if inside[o.in.Parent()] {
				continue
			}
			if o.in.Parent() == f {
				if !mayPrecede(g, o.in) || w.joined(g, o.in) {
					continue
				}
				if cell.Parent() == f && !mayPrecedeAvoiding(g, o.in, cell) {
					continue
				}
			} else if cell.Parent() == o.in.Parent() {
				continue // before the closure that starts the goroutine is made, or unordered: see below
			}
			if len(meet(lockedAt(u), lockedAt(o))) > 0 {
				continue
			}
			return fmt.Sprintf("written at %s in the goroutine while used at %s", w.instrPos(u.in), w.instrPos(o.in))
		}
	}
	// written outside after the start, used inside
	usedInside := false
	for _, u := range uses {
		if inside[u.in.Parent()] {
			usedInside = true
		}
	}
	if usedInside {
		for _, o := range uses {
			if !o.write || inside[o.in.Parent()] || o.in.Parent() != f {
				continue
			}
			if !mayPrecede(g, o.in) || w.joined(g, o.in) {
				continue
			}
			if cell.Parent() == f && !mayPrecedeAvoiding(g, o.in, cell) {
				continue
			}
			ok := false
			for _, u := range uses {
				if inside[u.in.Parent()] && len(meet(lockedAt(u), lockedAt(o))) > 0 {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("written at %s after the goroutine that uses it was started", w.instrPos(o.in))
			}
		}
	}
	return ""
}

// mayPrecedeAvoidingSelf: the variable is made anew before each time round to g.
func mayPrecedeAvoidingSelf(g *ssa.Go, cell *ssa.Alloc) bool {
	// no way from g back to g that avoids the allocation
	return !mayPrecedeAvoidingLoop(g, cell)
}

func mayPrecedeAvoidingLoop(g *ssa.Go, cell *ssa.Alloc) bool {
	if cell.Block() == g.Block() {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	found := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || found || b == cell.Block() {
			return
		}
		seen[b] = true
		if b == g.Block() {
			found = true
			return
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range g.Block().Succs {
		walk(s)
	}
	return found
}
