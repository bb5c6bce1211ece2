package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Property simulation: a path-sensitive, interprocedural dataflow over a small
// finite automaton state, the stack of deferred calls, and simple facts about
// branch conditions (booleans, nilness, which select arm was taken).
// ---------------------------------------------------------------------------

type simState struct {
	res    uint8
	aux    uint16
	defers string // indices into sim.deferIDs, two bytes each
	facts  string // sorted (id16, val8) triples
}

type outcome struct {
	st   simState
	ret  string // one fact per result
	site *ssa.Return
}

type automaton interface {
	// step handles one instruction other than calls, selects and receives.
	step(s *sim, fr *frame, st simState, in ssa.Instruction) []simState
	// call handles a call that is not descended into.
	call(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState
	// afterCall adjusts the state after a call that was descended into
	afterCall(s *sim, fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState
	goStmt(s *sim, fr *frame, st simState, g *ssa.Go) []simState
	selectArm(s *sim, fr *frame, st simState, sel *ssa.Select, arm int, ok fact) []simState
	recv(s *sim, fr *frame, st simState, u *ssa.UnOp, ok fact) []simState
	// edge: the branch of an undecided condition that is followed
	edge(s *sim, fr *frame, st simState, cond ssa.Value, taken bool) []simState
}

// frame describes the function being simulated.
type frame struct {
	fn    *ssa.Function
	root  bool
	depth int
	// set on the creating frame: the call that gives birth (lifted roots)
	birth map[ssa.Instruction][]outcome
	key   string
}

type simKey struct {
	fn   *ssa.Function
	root bool
	st   simState
	fkey string
}

type sim struct {
	w        *World
	auto     automaton
	relevant func(fn *ssa.Function) bool
	invoke   bool
	memo     map[simKey][]outcome
	active   map[simKey]bool
	ids      map[ssa.Value]int
	vals     []ssa.Value
	deferIDs map[ssa.Instruction]int
	defs     []ssa.Instruction
	gaveUp   []string
	reach    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	budget   int
}

func newSim(w *World, a automaton, relevant func(fn *ssa.Function) bool) *sim {
	return &sim{w: w, auto: a, relevant: relevant, memo: map[simKey][]outcome{}, active: map[simKey]bool{},
		ids: map[ssa.Value]int{}, deferIDs: map[ssa.Instruction]int{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, budget: 400000}
}

func (s *sim) id(v ssa.Value) int {
	i, ok := s.ids[v]
	if !ok {
		i = len(s.vals)
		s.ids[v] = i
		s.vals = append(s.vals, v)
	}
	return i
}

// ---- facts ----

func (s *sim) getFact(st simState, v ssa.Value) uint8 {
	i, ok := s.ids[v]
	if !ok {
		return 0
	}
	for k := 0; k+2 < len(st.facts); k += 3 {
		if int(st.facts[k])<<8|int(st.facts[k+1]) == i {
			return st.facts[k+2]
		}
	}
	return 0
}

func (s *sim) setFact(st simState, v ssa.Value, f uint8) simState {
	if f == 0 {
		if _, ok := s.ids[v]; !ok {
			return st
		}
	}
	i := s.id(v)
	out := make([]byte, 0, len(st.facts)+3)
	done := f == 0
	for k := 0; k+2 < len(st.facts); k += 3 {
		j := int(st.facts[k])<<8 | int(st.facts[k+1])
		if j == i {
			if f != 0 {
				out = append(out, byte(i>>8), byte(i), f)
				done = true
			}
			continue
		}
		if j > i && !done {
			out = append(out, byte(i>>8), byte(i), f)
			done = true
		}
		out = append(out, st.facts[k:k+3]...)
	}
	if !done {
		out = append(out, byte(i>>8), byte(i), f)
	}
	st.facts = string(out)
	return st
}

func (s *sim) filterFacts(st simState, keep func(v ssa.Value) bool) simState {
	out := make([]byte, 0, len(st.facts))
	for k := 0; k+2 < len(st.facts); k += 3 {
		if keep(s.vals[int(st.facts[k])<<8|int(st.facts[k+1])]) {
			out = append(out, st.facts[k:k+3]...)
		}
	}
	st.facts = string(out)
	return st
}

const selBase = 16

func selFact(arm int, ok fact) uint8 { return uint8(selBase + arm*3 + int(ok)) }

func (s *sim) eval(st simState, v ssa.Value) fact {
	if f := staticFact(v); f != fUnknown {
		return f
	}
	if f := s.getFact(st, v); f != 0 && f < selBase {
		return fact(f)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return s.eval(st, x.X).negate()
		case token.MUL:
			if c := s.w.cellOf(x.X); c != nil {
				return fact(s.getFact(st, c))
			}
		}
	case *ssa.ChangeInterface:
		return s.eval(st, x.X)
	case *ssa.ChangeType:
		return s.eval(st, x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Select:
			if x.Index == 1 {
				if f := s.getFact(st, t); f >= selBase {
					return fact((f - selBase) % 3)
				}
			}
		case *ssa.UnOp:
			if x.Index == 1 {
				return fact(s.getFact(st, t))
			}
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return fUnknown
		}
		res := fUnknown
		if e, ok := x.X.(*ssa.Extract); ok && e.Index == 0 {
			if sel, ok := e.Tuple.(*ssa.Select); ok {
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					n, _ := constant.Int64Val(c.Value)
					if f := s.getFact(st, sel); f >= selBase {
						if int64((f-selBase)/3) == n {
							res = fTrue
						} else {
							res = fFalse
						}
					}
				}
			}
		}
		if res == fUnknown {
			a, b := s.eval(st, x.X), s.eval(st, x.Y)
			switch {
			case a == fNil && b == fNil:
				res = fTrue
			case a == fNil && b == fNonNil, a == fNonNil && b == fNil:
				res = fFalse
			case (a == fTrue || a == fFalse) && (b == fTrue || b == fFalse):
				res = fFalse
				if a == b {
					res = fTrue
				}
			}
		}
		if x.Op == token.NEQ {
			return res.negate()
		}
		return res
	}
	return fUnknown
}

func (s *sim) learn(st simState, cond ssa.Value, taken bool) simState {
	f := fFalse
	if taken {
		f = fTrue
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return s.learn(st, x.X, !taken)
		}
		if x.Op == token.MUL {
			if c := s.w.cellOf(x.X); c != nil {
				if _, isA := c.(*ssa.Alloc); isA {
					st = s.setFact(st, c, uint8(f))
				}
			}
		}
		return s.setFact(st, cond, uint8(f))
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := taken == (x.Op == token.EQL)
			a, b := x.X, x.Y
			if isNilConst(a) {
				a, b = b, a
			}
			if isNilConst(b) {
				g := fNonNil
				if eq {
					g = fNil
				}
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if c := s.w.cellOf(u.X); c != nil {
						if _, isA := c.(*ssa.Alloc); isA {
							st = s.setFact(st, c, uint8(g))
						}
					}
				}
				return s.setFact(st, a, uint8(g))
			}
		}
		return s.setFact(st, cond, uint8(f))
	case *ssa.Const:
		return st
	}
	return s.setFact(st, cond, uint8(f))
}

// usedLater: is v still needed at or after block b of its function
func (s *sim) usedFrom(b *ssa.BasicBlock, v ssa.Value) bool {
	r, ok := s.reach[b]
	if !ok {
		r = reachableFrom(b, true)
		s.reach[b] = r
	}
	var check func(v ssa.Value, depth int) bool
	check = func(v ssa.Value, depth int) bool {
		refs := v.Referrers()
		if refs == nil || depth > 4 {
			return false
		}
		for _, x := range *refs {
			if x.Parent() != b.Parent() {
				return true
			}
			if _, isDef := x.(*ssa.Phi); isDef {
				for i, e := range x.(*ssa.Phi).Edges {
					if e == v && r[x.Block().Preds[i]] {
						return true
					}
				}
				continue
			}
			if r[x.Block()] {
				return true
			}
		}
		return false
	}
	return check(v, 0)
}

// ---- defers ----

func (s *sim) pushDefer(st simState, d ssa.Instruction) simState {
	i, ok := s.deferIDs[d]
	if !ok {
		i = len(s.defs)
		s.deferIDs[d] = i
		s.defs = append(s.defs, d)
	}
	n := 0
	for k := 0; k+1 < len(st.defers); k += 2 {
		if int(st.defers[k])<<8|int(st.defers[k+1]) == i {
			n++
		}
	}
	if n >= 2 {
		return st
	}
	st.defers += string([]byte{byte(i >> 8), byte(i)})
	return st
}

// ---- running ----

type work struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   simState
}

// run simulates fn from its entry and returns the states at its returns.
func (s *sim) run(fr *frame, st simState) []outcome {
	fn := fr.fn
	st.defers = ""
	key := simKey{fn, fr.root, st, fr.key}
	if o, ok := s.memo[key]; ok {
		return o
	}
	if s.active[key] || fr.depth > 12 || len(fn.Blocks) == 0 {
		return nil
	}
	s.active[key] = true
	defer delete(s.active, key)

	seen := map[work]bool{}
	outs := map[outcome]bool{}
	var order []outcome
	var queue []work
	push := func(x work) {
		if !seen[x] {
			seen[x] = true
			queue = append(queue, x)
		}
	}
	push(work{fn.Blocks[0], nil, st})
	for len(queue) > 0 {
		x := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		s.budget--
		if s.budget < 0 {
			s.gaveUp = append(s.gaveUp, s.w.Name(fn))
			break
		}
		cur := x.st
		// phis in parallel
		if x.pred != nil {
			pi := -1
			for i, p := range x.b.Preds {
				if p == x.pred {
					pi = i
				}
			}
			old := cur
			for _, in := range x.b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				f := fUnknown
				if pi >= 0 {
					f = s.eval(old, phi.Edges[pi])
				}
				cur = s.setFact(cur, phi, uint8(f))
			}
		}
		cur = s.filterFacts(cur, func(v ssa.Value) bool {
			if a, ok := v.(*ssa.Alloc); ok && a.Parent() != fn {
				return true
			}
			return s.usedFrom(x.b, v)
		})
		states := []simState{cur}
		dead := false
		for _, in := range x.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []simState
			dedup := map[simState]bool{}
			for _, q := range states {
				for _, n := range s.instr(fr, q, in) {
					if !dedup[n] {
						dedup[n] = true
						next = append(next, n)
					}
				}
			}
			states = next
			if len(states) == 0 {
				dead = true
				break
			}
			switch t := in.(type) {
			case *ssa.Return:
				for _, q := range states {
					var rf []byte
					for _, r := range t.Results {
						rf = append(rf, byte(s.eval(q, r)))
					}
					q = s.filterFacts(q, func(v ssa.Value) bool {
						a, ok := v.(*ssa.Alloc)
						return ok && a.Parent() != fn
					})
					q.defers = ""
					o := outcome{q, string(rf), t}
					if !outs[o] {
						outs[o] = true
						order = append(order, o)
					}
				}
				dead = true
			case *ssa.If:
				for _, q := range states {
					f := s.eval(q, t.Cond)
					if f != fFalse {
						n := q
						if f == fUnknown {
							n = s.learn(q, t.Cond, true)
						}
						for _, m := range s.auto.edge(s, fr, n, t.Cond, true) {
							push(work{x.b.Succs[0], x.b, m})
						}
					}
					if f != fTrue {
						n := q
						if f == fUnknown {
							n = s.learn(q, t.Cond, false)
						}
						for _, m := range s.auto.edge(s, fr, n, t.Cond, false) {
							push(work{x.b.Succs[1], x.b, m})
						}
					}
				}
				dead = true
			case *ssa.Jump:
				for _, q := range states {
					push(work{x.b.Succs[0], x.b, q})
				}
				dead = true
			case *ssa.Panic:
				dead = true
			}
			if dead {
				break
			}
		}
	}
	sort.Slice(order, func(i, j int) bool {
		a, b := order[i], order[j]
		if a.st.res != b.st.res {
			return a.st.res < b.st.res
		}
		if a.st.aux != b.st.aux {
			return a.st.aux < b.st.aux
		}
		if a.ret != b.ret {
			return a.ret < b.ret
		}
		return a.site.Pos() < b.site.Pos()
	})
	s.memo[key] = order
	return order
}

// doCall simulates a call: descends into relevant callees.
func (s *sim) doCall(fr *frame, st simState, c *ssa.CallCommon, in ssa.Instruction) []simState {
	if b, ok := fr.birth[in]; ok && fr.root {
		var out []simState
		for _, o := range b {
			n := st
			if o.st.res != 0 {
				// otherwise nothing was handed over this time
				if rb, ok := s.auto.(interface {
					reborn(st simState, in ssa.Instruction)
				}); ok {
					rb.reborn(st, in)
				}
				n.res, n.aux = o.st.res, o.st.aux
			}
			out = append(out, s.bindResults(n, in, o.ret))
		}
		return out
	}
	targets := s.w.callees(c, s.invoke)
	var rel []*ssa.Function
	for _, t := range targets {
		if s.w.inMod[t] && s.relevant(t) {
			rel = append(rel, t)
		}
	}
	if len(rel) == 0 {
		// a call that is not looked into may change captured variables
		st = s.filterFacts(st, func(v ssa.Value) bool {
			a, ok := v.(*ssa.Alloc)
			if !ok {
				return true
			}
			return !s.storedInClosure(a)
		})
		return s.auto.call(s, fr, s.bindResults(st, in, ""), c, in)
	}
	var out []simState
	for _, t := range rel {
		e := st
		e = s.filterFacts(e, func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok })
		for i, p := range t.Params {
			if a := argFor(c, t, i); a != nil {
				if f := s.eval(st, a); f != fUnknown {
					e = s.setFact(e, p, uint8(f))
				}
			}
		}
		for _, o := range s.run(&frame{fn: t, depth: fr.depth + 1}, e) {
			n := st
			n.res, n.aux = o.st.res, o.st.aux
			// keep own facts; take over what the callee knows about shared cells
			n = s.filterFacts(n, func(v ssa.Value) bool {
				a, ok := v.(*ssa.Alloc)
				return !ok || !s.storedInClosure(a)
			})
			for k := 0; k+2 < len(o.st.facts); k += 3 {
				n = s.setFact(n, s.vals[int(o.st.facts[k])<<8|int(o.st.facts[k+1])], o.st.facts[k+2])
			}
			n = s.bindResults(n, in, o.ret)
			out = append(out, s.auto.afterCall(s, fr, n, c, in)...)
		}
	}
	return out
}

func (s *sim) storedInClosure(a *ssa.Alloc) bool {
	for _, al := range s.w.cellAliases(a) {
		if al == ssa.Value(a) {
			continue
		}
		if refs := al.Referrers(); refs != nil {
			for _, r := range *refs {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					return true
				}
			}
		}
	}
	return false
}

func (s *sim) bindResults(st simState, in ssa.Instruction, ret string) simState {
	v, ok := in.(*ssa.Call)
	if !ok {
		return st
	}
	st = s.setFact(st, v, 0)
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				f := uint8(0)
				if e.Index < len(ret) {
					f = ret[e.Index]
				}
				st = s.setFact(st, e, f)
			}
		}
	}
	if len(ret) == 1 {
		st = s.setFact(st, v, ret[0])
	}
	return st
}

func (s *sim) instr(fr *frame, st simState, in ssa.Instruction) []simState {
	switch x := in.(type) {
	case *ssa.Call:
		return s.doCall(fr, st, &x.Call, x)
	case *ssa.Defer:
		return []simState{s.pushDefer(st, x)}
	case *ssa.Go:
		return s.auto.goStmt(s, fr, st, x)
	case *ssa.RunDefers:
		return s.runDefers(fr, st)
	case *ssa.Select:
		var out []simState
		for i, a := range x.States {
			if a.Dir == 2 /* types.RecvOnly */ {
				for _, ok := range []fact{fTrue, fFalse} {
					for _, n := range s.auto.selectArm(s, fr, st, x, i, ok) {
						out = append(out, s.setFact(n, x, selFact(i, ok)))
					}
				}
			} else {
				for _, n := range s.auto.selectArm(s, fr, st, x, i, fUnknown) {
					out = append(out, s.setFact(n, x, selFact(i, fUnknown)))
				}
			}
		}
		if !x.Blocking {
			// default arm: index -1
			n := s.setFact(st, x, selFact(60, fUnknown))
			out = append(out, n)
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			if x.CommaOk {
				var out []simState
				for _, ok := range []fact{fTrue, fFalse} {
					for _, n := range s.auto.recv(s, fr, st, x, ok) {
						out = append(out, s.setFact(n, x, uint8(ok)))
					}
				}
				return out
			}
			return s.auto.recv(s, fr, st, x, fUnknown)
		}
		return s.auto.step(s, fr, s.setFact(st, x, 0), in)
	case *ssa.Store:
		if c := s.w.cellOf(x.Addr); c != nil {
			if _, isA := c.(*ssa.Alloc); isA {
				st = s.setFact(st, c, uint8(s.eval(st, x.Val)))
			}
		}
		return s.auto.step(s, fr, st, in)
	case *ssa.Extract:
		return s.auto.step(s, fr, st, in)
	case ssa.Value:
		return s.auto.step(s, fr, s.setFact(st, x, 0), in)
	}
	return s.auto.step(s, fr, st, in)
}

func (s *sim) runDefers(fr *frame, st simState) []simState {
	states := []simState{st}
	var out []simState
	seen := map[simState]bool{}
	for len(states) > 0 {
		q := states[len(states)-1]
		states = states[:len(states)-1]
		if seen[q] {
			continue
		}
		seen[q] = true
		if q.defers == "" {
			out = append(out, q)
			continue
		}
		n := len(q.defers)
		d := s.defs[int(q.defers[n-2])<<8|int(q.defers[n-1])].(*ssa.Defer)
		q.defers = q.defers[:n-2]
		states = append(states, s.doCall(fr, q, &d.Call, d)...)
	}
	return out
}

func (s *sim) describe(st simState) string {
	return fmt.Sprintf("res=%d aux=%x", st.res, st.aux)
}
