package main

// Interprocedural conditional constant propagation with value numbering.
//
// Every SSA value gets a small set of terms (what it can be, in terms of the
// parameters of the analysed function), every block a heap and the set of
// boolean terms which must have a known value there. Type tests, comparisons and
// branches on known values are folded, so an analysis can be specialised: for
// parameters of given dynamic types, for a given operator, or for given outcomes
// of the primitive comparisons (assume). Calls of module functions are analysed
// in their calling context. Loops are solved by iteration, with widening.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type term struct {
	op   string
	str  string
	typ  types.Type
	args []*term
	cv   constant.Value
	fn   *ssa.Function
	fld  *types.Var
	key  string
	size int
}

func (t *term) String() string { return t.key }

type tset []*term // sorted by key, no duplicates; [top] alone if unknown

const (
	maxAlts  = 14
	maxSize  = 60
	maxDepth = 8
)

type afact struct {
	t   *term
	val bool
}

type astate struct {
	heap  map[string]tset
	facts map[string]afact
	// alternatives, one of which holds
	cases map[string][]map[string]afact
}

func newState() *astate {
	return &astate{heap: map[string]tset{}, facts: map[string]afact{}, cases: map[string][]map[string]afact{}}
}

func (s *astate) clone() *astate {
	n := &astate{heap: make(map[string]tset, len(s.heap)), facts: make(map[string]afact, len(s.facts))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.cases = make(map[string][]map[string]afact, len(s.cases))
	for k, v := range s.cases {
		n.cases[k] = v
	}
	return n
}

type aevent struct {
	kind  string // call, assert, div, mapupdate, send, index, panic, store, return
	in    ssa.Instruction
	fn    *ssa.Function
	name  calleeID
	args  []tset
	res   tset
	facts map[string]afact
	cases []([]map[string]afact)
	frame string
	depth int
}

type interp struct {
	w *World
	// the edges taken by some activation
	took map[[2]*ssa.BasicBlock]bool
	// a known value for a term, or nil
	assume func(t *term) *term
	// calls that are not looked into
	opaque func(c *ssa.CallCommon, f *ssa.Function) bool
	// a value for an opaque call
	model func(in *interp, c *ssa.CallCommon, f *ssa.Function, args []tset) ([]tset, bool)
	// where the model is asked; it may set the heap to nil: the call does not return
	cur *astate
	at  ssa.Instruction
	// goroutines and closures passed to unknown code are analysed too
	enterGo bool
	// loops are followed through one iteration only
	once bool
	// what a loop carries from one iteration to the next may have any value:
	// the first iteration analysed stands for every one
	anyTurn bool
	// what unknown code stores in a local struct is named after the field
	fill bool
	// instructions that are never got past
	stop func(i ssa.Instruction) bool

	terms  map[string]*term
	events map[string]*aevent
	order  []string
	memo   map[string]*callResult
	steps  int
	failed string
	top    *term
	depth  int
	stack  []*ssa.Function
	lastG  []guard // of the last call
	lastR  []retCase
}

type callResult struct {
	rets []tset
	st   *astate
	g    []guard
	r    []retCase
}

func newInterp(w *World) *interp {
	in := &interp{w: w, terms: map[string]*term{}, events: map[string]*aevent{}, memo: map[string]*callResult{}}
	in.top = &term{op: "⊤", key: "⊤", size: 1}
	return in
}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *interp) mk(t term) *term {
	var sb strings.Builder
	sb.WriteString(t.op)
	if t.str != "" {
		sb.WriteString(":" + t.str)
	}
	switch t.op {
	case "iface", "conv", "assert", "istype", "zero":
		sb.WriteString("<" + typeKey(t.typ) + ">")
	}
	if t.cv != nil {
		sb.WriteString("=" + t.cv.ExactString())
	}
	size := 1
	if len(t.args) > 0 {
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(a.key)
			size += a.size
		}
		sb.WriteString(")")
	}
	if size > maxSize {
		return in.top
	}
	k := sb.String()
	if x, ok := in.terms[k]; ok {
		return x
	}
	n := t
	n.key = k
	n.size = size
	in.terms[k] = &n
	return &n
}

func (in *interp) konst(v constant.Value, t types.Type) *term {
	if v == nil {
		return in.mk(term{op: "nil", typ: t})
	}
	return in.mk(term{op: "const", cv: v, typ: t})
}

func (in *interp) boolean(b bool) *term {
	return in.konst(constant.MakeBool(b), types.Typ[types.Bool])
}
func (in *interp) param(name string, t types.Type) *term {
	return in.mk(term{op: "param", str: name, typ: t})
}
func (in *interp) iface(dyn types.Type, x *term) *term {
	return in.mk(term{op: "iface", typ: dyn, args: []*term{x}})
}

func (t *term) isBool() (val, ok bool) {
	if t.op == "const" && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

func (in *interp) norm(ts []*term) tset {
	m := map[string]*term{}
	for _, t := range ts {
		if t == nil {
			continue
		}
		if t.op == "⊤" {
			return tset{in.top}
		}
		if t.op == "or" {
			for _, a := range t.args {
				if a.op == "⊤" {
					return tset{in.top}
				}
				m[a.key] = a
			}
			continue
		}
		m[t.key] = t
	}
	if len(m) > maxAlts {
		return tset{in.top}
	}
	out := make(tset, 0, len(m))
	for _, t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func (in *interp) union(a, b tset) tset {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	return in.norm(append(append([]*term{}, a...), b...))
}

func sameSet(a, b tset) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s tset) String() string {
	var p []string
	for _, t := range s {
		p = append(p, t.key)
	}
	return "{" + strings.Join(p, " | ") + "}"
}

func (s tset) isTop() bool { return len(s) == 1 && s[0].op == "⊤" }

func (s tset) only() *term {
	if len(s) == 1 && s[0].op != "⊤" {
		return s[0]
	}
	return nil
}

// one folds a set into a single term.
func (in *interp) one(s tset) *term {
	if len(s) == 1 {
		return s[0]
	}
	if len(s) == 0 {
		return in.mk(term{op: "bottom"})
	}
	return in.mk(term{op: "or", args: s})
}

// lift applies fn to all combinations.
func (in *interp) lift(args []tset, fn func(a []*term) *term) tset {
	n := 1
	for _, a := range args {
		if len(a) == 0 {
			return nil
		}
		n *= len(a)
	}
	if n > 64 {
		return tset{in.top}
	}
	var out []*term
	cur := make([]*term, len(args))
	var rec func(i int)
	rec = func(i int) {
		if i == len(args) {
			c := append([]*term{}, cur...)
			out = append(out, fn(c))
			return
		}
		for _, t := range args[i] {
			cur[i] = t
			rec(i + 1)
		}
	}
	rec(0)
	return in.norm(out)
}

// known replaces a term by its assumed or established value.
func (in *interp) known(st *astate, t *term) *term {
	if t == nil || t.op == "const" || t.op == "⊤" {
		return t
	}
	if in.assume != nil {
		if k := in.assume(t); k != nil {
			return k
		}
	}
	if st != nil {
		if f, ok := st.facts[t.key]; ok {
			return in.boolean(f.val)
		}
	}
	return t
}

func (in *interp) not(t *term) *term {
	if b, ok := t.isBool(); ok {
		return in.boolean(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	if t.op == "⊤" {
		return t
	}
	return in.mk(term{op: "not", args: []*term{t}})
}

// ---------------------------------------------------------------- frames

type aframe struct {
	in     *interp
	f      *ssa.Function
	path   string
	env    map[ssa.Value]tset
	entry  map[*ssa.BasicBlock]*astate
	edge   map[[2]*ssa.BasicBlock]bool
	defers map[ssa.Instruction][]tset
	dirty  bool
	rets   []tset
	retSt  *astate
	retG   []guard
	params []tset
	free   []tset

	edgeFacts map[[2]*ssa.BasicBlock]map[string]afact
	callG     map[ssa.Instruction][]guard
	callR     map[ssa.Instruction][]retCase
	retC      []retCase
	indBlock  map[string]*ssa.BasicBlock

	cur  *astate
	curB *ssa.BasicBlock
}

// guard: what is known when a boolean value is false (0) and when it is true (1), case
// by case; no case if it cannot be.
type guard [2][]map[string]afact

const maxCases = 6

func (g *guard) add(val bool, cases []map[string]afact) {
	i := b2i(val)
	g[i] = append(g[i], cases...)
	if len(g[i]) > maxCases {
		g[i] = []map[string]afact{commonFacts(g[i])}
	}
}

func commonFacts(cases []map[string]afact) map[string]afact {
	out := map[string]afact{}
	for i, c := range cases {
		if i == 0 {
			for k, f := range c {
				out[k] = f
			}
			continue
		}
		for k, f := range out {
			if h, ok := c[k]; !ok || h.val != f.val {
				delete(out, k)
			}
		}
	}
	return out
}

func mergeFacts(a, b map[string]afact) map[string]afact {
	m := make(map[string]afact, len(a)+len(b))
	for k, f := range a {
		m[k] = f
	}
	for k, f := range b {
		m[k] = f
	}
	return m
}

// retCase: what one return of a function gives, and what is known there.
type retCase struct {
	vals  []tset
	facts map[string]afact
}

// implied lists, case by case, what holds in block at when v has the given value.
func (fr *aframe) implied(v ssa.Value, val bool, at *ssa.BasicBlock, depth int) []map[string]afact {
	if depth > 6 {
		return []map[string]afact{{}}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return fr.implied(x.X, !val, at, depth+1)
		}
	case *ssa.BinOp:
		if cs, ok := fr.impliedCmp(x, val, at); ok {
			return cs
		}
	case *ssa.Phi:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			var g guard
			for k, e := range x.Edges {
				ed := [2]*ssa.BasicBlock{x.Block().Preds[k], x.Block()}
				if !fr.edge[ed] {
					continue
				}
				for _, f := range fr.implied(e, val, ed[0], depth+1) {
					g.add(val, []map[string]afact{mergeFacts(fr.edgeFacts[ed], f)})
				}
			}
			return fr.fresh(g[b2i(val)], x.Block(), at, true)
		}
	case *ssa.Call:
		if g := fr.callG[x]; len(g) == 1 {
			return fr.fresh(g[0][b2i(val)], x.Block(), at, false)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := fr.callG[c]; x.Index < len(g) {
				return fr.fresh(g[x.Index][b2i(val)], c.Block(), at, false)
			}
		}
	}
	ts := fr.all(v)
	out := map[string]afact{}
	any := false
	for _, t := range ts {
		if b, ok := t.isBool(); ok && b != val {
			continue
		}
		any = true
	}
	if !any {
		return nil
	}
	if len(ts) == 1 && ts[0].op != "const" && ts[0].op != "⊤" {
		t, w := ts[0], val
		for t.op == "not" {
			t, w = t.args[0], !w
		}
		out[t.key] = afact{t, w}
	}
	return []map[string]afact{out}
}

// impliedCmp: the comparison of a constant with a value that was chosen by control flow, here
// or in a callee, tells which way was taken.
func (fr *aframe) impliedCmp(x *ssa.BinOp, val bool, at *ssa.BasicBlock) ([]map[string]afact, bool) {
	in := fr.in
	y, c := x.X, x.Y
	flip := false
	if _, ok := y.(*ssa.Const); ok {
		y, c, flip = c, y, true
	}
	if _, ok := c.(*ssa.Const); !ok {
		return nil, false
	}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil, false
	}
	may := func(vals tset, facts map[string]afact) bool {
		a, b := vals, fr.all(c)
		if flip {
			a, b = b, a
		}
		st := newState()
		st.facts = facts
		for _, t := range in.lift([]tset{a, b}, func(v []*term) *term {
			return in.known(st, in.binop(x.Op, v[0], v[1], x.X.Type(), x.Type()))
		}) {
			if b, ok := t.isBool(); !ok || b == val {
				return true
			}
		}
		return false
	}
	var g guard
	var from *ssa.BasicBlock
	switch y := y.(type) {
	case *ssa.Phi:
		for k, e := range y.Edges {
			ed := [2]*ssa.BasicBlock{y.Block().Preds[k], y.Block()}
			if fr.edge[ed] && may(fr.all(e), fr.edgeFacts[ed]) {
				g.add(val, []map[string]afact{fr.edgeFacts[ed]})
			}
		}
		from = y.Block()
	default:
		var call *ssa.Call
		idx := 0
		if e, ok := y.(*ssa.Extract); ok {
			call, _ = e.Tuple.(*ssa.Call)
			idx = e.Index
		} else {
			call, _ = y.(*ssa.Call)
		}
		if call == nil || fr.callR[call] == nil {
			return nil, false
		}
		for _, rc := range fr.callR[call] {
			if idx < len(rc.vals) && may(rc.vals[idx], rc.facts) {
				g.add(val, []map[string]afact{rc.facts})
			}
		}
		from = call.Block()
	}
	// the comparison itself holds as well
	ts := fr.all(x)
	if len(ts) == 1 && ts[0].op != "const" && ts[0].op != "⊤" {
		t, w := ts[0], val
		for t.op == "not" {
			t, w = t.args[0], !w
		}
		for i, f := range g[b2i(val)] {
			g[b2i(val)][i] = mergeFacts(f, map[string]afact{t.key: {t, w}})
		}
	}
	_, isPhi := y.(*ssa.Phi)
	return fr.fresh(g[b2i(val)], from, at, isPhi), true
}

// fresh leaves out the facts, established in block from or on the ways into it, that are about a loop which may have
// gone on before block at is reached.
func (fr *aframe) fresh(cases []map[string]afact, from, at *ssa.BasicBlock, phi bool) []map[string]afact {
	out := make([]map[string]afact, 0, len(cases))
	for _, c := range cases {
		var m map[string]afact
		for k, f := range c {
			if !fr.stale(f.t, from, at, phi) {
				continue
			}
			if m == nil {
				m = mergeFacts(c, nil)
			}
			delete(m, k)
		}
		if m == nil {
			m = c
		}
		out = append(out, m)
	}
	return out
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (fr *aframe) stale(t *term, from, at *ssa.BasicBlock, phi bool) bool {
	switch t.op {
	case "next", "recv", "recvok":
		return from != at || phi && isHeader(from)
	case "ind":
		h := fr.indBlock[t.str]
		if h == nil {
			return false
		}
		if h == from && phi {
			// the way in may be the one that moves the index on
			return true
		}
		if from == at {
			return false
		}
		// may the loop go on without the fact being established again?
		seen := map[*ssa.BasicBlock]bool{from: true}
		work := []*ssa.BasicBlock{h}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[b] {
				continue
			}
			seen[b] = true
			if b == at {
				return true
			}
			work = append(work, b.Succs...)
		}
		return false
	}
	for _, a := range t.args {
		if fr.stale(a, from, at, phi) {
			return true
		}
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (in *interp) run(f *ssa.Function, args []tset, st *astate) ([]tset, *astate) {
	if st == nil {
		st = newState()
	}
	return in.call(f, args, nil, st, "")
}

func stateKey(st *astate) string {
	ks := make([]string, 0, len(st.heap)+len(st.facts))
	for k, v := range st.heap {
		ks = append(ks, k+"="+v.String())
	}
	for k, v := range st.facts {
		ks = append(ks, k+"?"+strconv.FormatBool(v.val))
	}
	for k, c := range st.cases {
		n := 0
		for _, m := range c {
			n += len(m)
		}
		ks = append(ks, fmt.Sprintf("%s#%d/%d", k, len(c), n))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (in *interp) call(f *ssa.Function, args, free []tset, st *astate, path string) ([]tset, *astate) {
	var kb strings.Builder
	kb.WriteString(path + "|" + f.String())
	for _, a := range args {
		kb.WriteString("|" + a.String())
	}
	for _, a := range free {
		kb.WriteString("^" + a.String())
	}
	kb.WriteString("|" + stateKey(st))
	mk := kb.String()
	if r, ok := in.memo[mk]; ok {
		in.lastG, in.lastR = r.g, r.r
		if r.st == nil {
			return r.rets, nil
		}
		return r.rets, r.st.clone()
	}
	fr := &aframe{in: in, f: f, path: path, env: map[ssa.Value]tset{}, entry: map[*ssa.BasicBlock]*astate{},
		edge: map[[2]*ssa.BasicBlock]bool{}, defers: map[ssa.Instruction][]tset{}, params: args, free: free,
		edgeFacts: map[[2]*ssa.BasicBlock]map[string]afact{}, callG: map[ssa.Instruction][]guard{},
		callR: map[ssa.Instruction][]retCase{}, indBlock: map[string]*ssa.BasicBlock{}}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = tset{in.top}
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		} else {
			fr.env[v] = tset{in.mk(term{op: "free", str: in.w.Name(f) + "." + v.Name()})}
		}
	}
	in.stack = append(in.stack, f)
	fr.solve(st)
	in.stack = in.stack[:len(in.stack)-1]
	res := &callResult{rets: fr.rets, g: fr.retG, r: fr.retC}
	in.lastG, in.lastR = fr.retG, fr.retC
	if fr.retSt != nil {
		res.st = fr.retSt.clone()
	}
	in.memo[mk] = res
	return fr.rets, fr.retSt
}

func (fr *aframe) solve(st *astate) {
	in := fr.in
	fr.entry[fr.f.Blocks[0]] = st.clone()
	order := rpo(fr.f)
	for pass := 0; ; pass++ {
		if pass > 60 {
			in.failed = "no fixpoint in " + in.w.Name(fr.f)
			return
		}
		fr.dirty = false
		fr.rets, fr.retSt, fr.retG, fr.retC = nil, nil, nil, nil
		for _, b := range order {
			if e := fr.entry[b]; e != nil {
				fr.block(b, e.clone())
				if in.steps > 3000000 {
					in.failed = "analysis of " + in.w.Name(fr.f) + " is too large"
					return
				}
			}
		}
		if !fr.dirty {
			return
		}
	}
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
		out = append(out, b)
	}
	walk(f.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (fr *aframe) set(v ssa.Value, s tset) {
	old := fr.env[v]
	n := fr.in.union(old, s)
	if !sameSet(old, n) {
		fr.env[v] = n
		fr.dirty = true
	}
}

// get is what v can be here, given what is known here.
func (fr *aframe) get(v ssa.Value) tset {
	all := fr.all(v)
	if len(all) < 2 || fr.cur == nil {
		return all
	}
	var some tset
	n := 0
	switch x := v.(type) {
	case *ssa.Phi:
		for k, e := range x.Edges {
			ed := [2]*ssa.BasicBlock{x.Block().Preds[k], x.Block()}
			if fr.edge[ed] {
				if fr.excluded(fr.edgeFacts[ed], x.Block(), true) {
					n++
					continue
				}
				some = fr.in.union(some, fr.all(e))
			}
		}
	case *ssa.Extract, *ssa.Call:
		idx := 0
		call, _ := v.(*ssa.Call)
		if e, ok := v.(*ssa.Extract); ok {
			call, _ = e.Tuple.(*ssa.Call)
			idx = e.Index
		}
		if call == nil || fr.callR[call] == nil {
			return all
		}
		for _, rc := range fr.callR[call] {
			if fr.excluded(rc.facts, call.Block(), false) {
				n++
				continue
			}
			if idx < len(rc.vals) {
				some = fr.in.union(some, rc.vals[idx])
			}
		}
	}
	if n == 0 || len(some) == 0 || some.isTop() {
		return all
	}
	return some
}

// excluded: what was known on a way into block from contradicts what is known now.
func (fr *aframe) excluded(facts map[string]afact, from *ssa.BasicBlock, phi bool) bool {
	for k, f := range facts {
		if g, ok := fr.cur.facts[k]; ok && g.val != f.val && !fr.stale(f.t, from, fr.curB, phi) {
			return true
		}
	}
	return false
}

func (fr *aframe) all(v ssa.Value) tset {
	in := fr.in
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if types.IsInterface(x.Type()) || isPtrLike(x.Type()) {
				return tset{in.mk(term{op: "nil", typ: x.Type()})}
			}
			return tset{in.zero(x.Type())}
		}
		return tset{in.konst(x.Value, x.Type())}
	case *ssa.Function:
		return tset{in.mk(term{op: "func", str: x.String(), fn: x})}
	case *ssa.Global:
		return tset{in.mk(term{op: "global", str: x.Pkg.Pkg.Name() + "." + x.Name()})}
	case *ssa.Builtin:
		return tset{in.mk(term{op: "builtin", str: x.Name()})}
	}
	return fr.env[v]
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (in *interp) zero(t types.Type) *term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.konst(constant.MakeBool(false), t)
		case u.Info()&types.IsNumeric != 0:
			return in.konst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return in.konst(constant.MakeString(""), t)
		}
	case *types.Struct, *types.Array:
		return in.mk(term{op: "zero", typ: t})
	}
	return in.mk(term{op: "nil", typ: t})
}

func (fr *aframe) propagate(from, to *ssa.BasicBlock, st *astate) {
	e := [2]*ssa.BasicBlock{from, to}
	if !fr.edge[e] {
		fr.edge[e] = true
		if in := fr.in; in.took == nil {
			in.took = map[[2]*ssa.BasicBlock]bool{e: true}
		} else {
			in.took[e] = true
		}
		fr.dirty = true
	}
	if fr.in.once && to.Dominates(from) {
		return
	}
	fr.edgeFacts[e] = st.facts
	if fr.in.anyTurn && isHeader(to) && !to.Dominates(from) {
		st = fr.anyTurn(to, st)
	}
	if to.Dominates(from) {
		fr.event("back", to.Instrs[0], calleeID{}, nil, nil, st)
	}
	old := fr.entry[to]
	if old == nil {
		fr.entry[to] = st.clone()
		fr.dirty = true
		return
	}
	if fr.in.joinInto(old, st) {
		fr.dirty = true
	}
}

// anyTurn: the local variables that the loop at h stores in may hold anything.
func (fr *aframe) anyTurn(h *ssa.BasicBlock, st *astate) *astate {
	n := st.clone()
	loop := naturalLoop(h)
	for _, b := range fr.f.Blocks {
		if !loop[b] {
			continue
		}
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.Alloc)
			if !ok || loop[a.Block()] {
				continue
			}
			for _, t := range fr.env[a] {
				n.heap[t.key] = fr.in.union(fr.in.readKey(n, t.key), tset{fr.in.mk(term{op: "turn", str: fr.path + "/" + fr.in.w.Name(fr.f) + "/" + a.Name(), typ: s.Val.Type()})})
			}
		}
	}
	return n
}

// joinInto merges st in old.
func (in *interp) joinInto(old, st *astate) bool {
	ch := false
	for k := range st.heap {
		if _, ok := old.heap[k]; !ok {
			old.heap[k] = in.readKey(old, k)
			ch = true
		}
	}
	for k, ov := range old.heap {
		nv := in.union(ov, in.readKey(st, k))
		if !sameSet(ov, nv) {
			old.heap[k] = nv
			ch = true
		}
	}
	for k, f := range old.facts {
		if g, ok := st.facts[k]; !ok || g.val != f.val {
			delete(old.facts, k)
			ch = true
		}
	}
	for k, c := range old.cases {
		if d, ok := st.cases[k]; !ok {
			delete(old.cases, k)
			ch = true
		} else if len(d) > len(c) {
			old.cases[k] = d
			ch = true
		} else if len(d) < len(c) {
			delete(old.cases, k)
			ch = true
		} else {
			for i := range c {
				n := commonFacts([]map[string]afact{c[i], d[i]})
				if len(n) != len(c[i]) {
					e := append([]map[string]afact{}, old.cases[k]...)
					e[i] = n
					old.cases[k] = e
					ch = true
				}
			}
		}
	}
	return ch
}

func (fr *aframe) block(b *ssa.BasicBlock, st *astate) {
	fr.cur, fr.curB = st, b
	in := fr.in
	for _, i := range b.Instrs {
		in.steps++
		if in.stop != nil && in.stop(i) {
			return
		}
		switch x := i.(type) {
		case *ssa.Phi:
			fr.phi(x)
		case *ssa.If:
			fr.branch(b, st, x.Cond)
			return
		case *ssa.Jump:
			fr.propagate(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var rs []tset
			for _, r := range x.Results {
				rs = append(rs, fr.get(r))
			}
			fr.event("return", x, calleeID{}, rs, nil, st)
			if fr.rets == nil {
				fr.rets = make([]tset, len(rs))
			}
			for k := range rs {
				fr.rets[k] = in.union(fr.rets[k], rs[k])
			}
			if fr.retG == nil {
				fr.retG = make([]guard, len(rs))
			}
			fr.retC = append(fr.retC, retCase{rs, mergeFacts(st.facts, nil)})
			for k, r := range x.Results {
				if b, ok := r.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
					continue
				}
				for _, val := range []bool{false, true} {
					for _, f := range fr.implied(r, val, x.Block(), 0) {
						fr.retG[k].add(val, []map[string]afact{mergeFacts(st.facts, f)})
					}
				}
			}
			if fr.retSt == nil {
				fr.retSt = st.clone()
			} else {
				in.joinInto(fr.retSt, st)
			}
			return
		case *ssa.Panic:
			fr.event("panic", x, calleeID{}, []tset{fr.get(x.X)}, nil, st)
			return
		default:
			if !fr.instr(i, st) {
				return
			}
		}
	}
}

func (fr *aframe) phi(x *ssa.Phi) {
	in := fr.in
	// i = phi(start, i+c): one value per iteration, from the first one on
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		for _, e := range x.Edges {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD && bo.Op != token.SUB || bo.X != ssa.Value(x) {
				continue
			}
			if step, isC := bo.Y.(*ssa.Const); isC {
				// the arguments are the first value and the step, if they are known
				var start tset
				for _, o := range x.Edges {
					if o != e {
						start = in.union(start, fr.all(o))
					}
				}
				var about []*term
				if s := start.only(); s != nil && (s.op == "const" || s.op == "bin" && s.str == "-" && s.args[0].op == "len") && step.Value != nil {
					sv := step.Value
					if bo.Op == token.SUB {
						sv = constant.UnaryOp(token.SUB, sv, 0)
					}
					about = []*term{s, in.konst(sv, x.Type())}
				}
				fr.indBlock[fr.path+"/"+in.w.Name(fr.f)+"/"+x.Name()] = x.Block()
				fr.setPhi(x, tset{in.mk(term{op: "ind", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), typ: x.Type(), args: about})})
				return
			}
		}
	}
	var acc tset
	for k, e := range x.Edges {
		if fr.edge[[2]*ssa.BasicBlock{x.Block().Preds[k], x.Block()}] {
			acc = in.union(acc, fr.all(e))
		}
	}
	if in.anyTurn && isHeader(x.Block()) && len(acc) > 0 {
		acc = in.union(acc, tset{in.mk(term{op: "turn", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), typ: x.Type()})})
	}
	fr.set(x, acc)
}

// induction variables replace what was there
func (fr *aframe) setPhi(x *ssa.Phi, s tset) {
	if !sameSet(fr.env[x], s) {
		fr.env[x] = s
		fr.dirty = true
	}
}

func (fr *aframe) branch(b *ssa.BasicBlock, st *astate, cv ssa.Value) {
	in := fr.in
	cond := fr.get(cv)
	if len(cond) == 0 {
		return
	}
	canT, canF := false, false
	var tAlt, fAlt []*term
	for _, t := range cond {
		k := in.known(st, t)
		if t.op == "not" {
			k = in.not(in.known(st, t.args[0]))
		}
		if v, ok := k.isBool(); ok {
			if v {
				canT = true
				tAlt = append(tAlt, k)
			} else {
				canF = true
				fAlt = append(fAlt, k)
			}
			continue
		}
		canT, canF = true, true
		tAlt = append(tAlt, t)
		fAlt = append(fAlt, t)
	}
	go1 := func(succ *ssa.BasicBlock, alts []*term, val bool) {
		n := st.clone()
		if len(alts) == 1 && alts[0].op != "const" && alts[0].op != "⊤" {
			in.addFact(n, alts[0], val)
		}
		if cases := fr.implied(cv, val, b, 0); len(cases) > 0 {
			if len(cases) > 1 {
				var keep []map[string]afact
				for _, c := range cases {
					m := map[string]afact{}
					for k, a := range c {
						if !loopFact(a.t) {
							m[k] = a
						}
					}
					keep = append(keep, m)
				}
				n.cases[fr.path+"/"+in.w.Name(fr.f)+"/"+cv.Name()+strconv.FormatBool(val)] = keep
			}
			f := commonFacts(cases)
			for _, k := range sortedFacts(f) {
				if _, have := n.facts[k]; !have {
					in.addFact(n, f[k].t, f[k].val)
				}
			}
		}
		fr.propagate(b, succ, n)
	}
	if canT {
		go1(b.Succs[0], tAlt, true)
	}
	if canF {
		go1(b.Succs[1], fAlt, false)
	}
}

func sortedFacts(m map[string]afact) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// loopFact: the fact may be about an earlier iteration.
func loopFact(t *term) bool {
	return mentions(t, "ind") || mentions(t, "next") || mentions(t, "recv") || mentions(t, "recvok")
}

func (in *interp) addFact(st *astate, t *term, val bool) {
	for t.op == "not" {
		t, val = t.args[0], !val
	}
	st.facts[t.key] = afact{t, val}
	// a value has one dynamic type
	if t.op == "istype" && val && !types.IsInterface(t.typ) {
		for k, f := range st.facts {
			if f.t.op == "istype" && f.t != t && f.t.args[0] == t.args[0] && !types.IsInterface(f.t.typ) {
				st.facts[k] = afact{f.t, false}
			}
		}
	}
}

func (fr *aframe) event(kind string, i ssa.Instruction, id calleeID, args []tset, res tset, st *astate) {
	k := fmt.Sprintf("%s|%s|%p", fr.path, kind, i)
	e := fr.in.events[k]
	if e == nil {
		e = &aevent{}
		fr.in.events[k] = e
		fr.in.order = append(fr.in.order, k)
	}
	facts := make(map[string]afact, len(st.facts))
	for k, f := range st.facts {
		facts[k] = f
	}
	var cases [][]map[string]afact
	for _, c := range st.cases {
		cases = append(cases, c)
	}
	*e = aevent{cases: cases, kind: kind, in: i, fn: fr.f, name: id, args: args, res: res, facts: facts, frame: fr.path, depth: len(fr.in.stack)}
}

func (in *interp) evs(kind string) []*aevent {
	var out []*aevent
	for _, k := range in.order {
		if e := in.events[k]; e.kind == kind {
			out = append(out, e)
		}
	}
	return out
}

// ---------------------------------------------------------------- memory

func (in *interp) readKey(st *astate, key string) tset {
	if v, ok := st.heap[key]; ok {
		return v
	}
	t := in.terms[key]
	if t == nil {
		return tset{in.top}
	}
	return in.load(st, t)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func rooted(a *term) *term {
	for {
		switch a.op {
		case "fa", "ia":
			a = a.args[0]
			continue
		}
		return a
	}
}

// load reads the memory at address term a.
func (in *interp) load(st *astate, a *term) tset {
	if v, ok := st.heap[a.key]; ok {
		if a.op != "alloc" {
			return v
		}
		// a struct whose fields were stored one by one after the whole
		if s, ok := a.typ.Underlying().(*types.Struct); ok {
			return tset{in.structValue(st, a, s)}
		}
		return v
	}
	switch a.op {
	case "alloc":
		if s, ok := a.typ.Underlying().(*types.Struct); ok {
			return tset{in.structValue(st, a, s)}
		}
		return tset{in.zero(a.typ)}
	case "fa":
		base := a.args[0]
		if base.op == "alloc" {
			if whole, ok := st.heap[base.key]; ok {
				return in.lift([]tset{whole}, func(x []*term) *term { return in.fieldOfValue(x[0], a.fld) })
			}
			return tset{in.zero(a.fld.Type())}
		}
		if base.op == "fa" || base.op == "ia" {
			whole := in.load(st, base)
			return in.lift([]tset{whole}, func(x []*term) *term { return in.fieldOfValue(x[0], a.fld) })
		}
		return tset{in.known(st, in.mk(term{op: "field", str: a.fld.Name(), fld: a.fld, typ: a.fld.Type(), args: []*term{base}}))}
	case "ia":
		base := a.args[0]
		if base.op == "alloc" {
			return tset{in.zero(elemType(base.typ))}
		}
		return tset{in.known(st, in.mk(term{op: "elem", typ: a.typ, args: a.args}))}
	case "global":
		return tset{in.known(st, in.mk(term{op: "gval", str: a.str, typ: a.typ}))}
	case "⊤":
		return tset{in.top}
	}
	return tset{in.known(st, in.mk(term{op: "load", args: []*term{a}}))}
}

func (in *interp) structValue(st *astate, a *term, s *types.Struct) *term {
	var args []*term
	touched := false
	whole, hasWhole := st.heap[a.key]
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		k := in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{a}})
		if v, ok := st.heap[k.key]; ok {
			touched = true
			args = append(args, in.one(v))
		} else if hasWhole {
			args = append(args, in.one(in.lift([]tset{whole}, func(x []*term) *term { return in.fieldOfValue(x[0], f) })))
		} else {
			args = append(args, in.zero(f.Type()))
		}
	}
	if !touched {
		if hasWhole {
			return in.one(whole)
		}
		return in.zero(a.typ)
	}
	return in.mk(term{op: "struct", str: typeKey(a.typ), typ: a.typ, args: args})
}

// fieldOfValue is the field of a struct value.
func (in *interp) fieldOfValue(v *term, f *types.Var) *term {
	switch v.op {
	case "⊤":
		return v
	case "zero":
		return in.zero(f.Type())
	case "struct":
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i) == f && i < len(v.args) {
					return v.args[i]
				}
			}
		}
	case "or":
		var ts []tset
		ts = append(ts, in.norm(v.args))
		return in.one(in.lift(ts, func(x []*term) *term { return in.fieldOfValue(x[0], f) }))
	case "load":
		// (*p).f
		return in.known(nil, in.mk(term{op: "field", str: f.Name(), fld: f, typ: f.Type(), args: []*term{v.args[0]}}))
	}
	return in.known(nil, in.mk(term{op: "field", str: f.Name(), fld: f, typ: f.Type(), args: []*term{v}}))
}

func (in *interp) store(st *astate, addrs, val tset) {
	if len(addrs) == 0 {
		return
	}
	strong := len(addrs) == 1 && addrs[0].op != "⊤"
	for _, a := range addrs {
		if a.op == "⊤" {
			continue
		}
		v := val
		if !strong {
			v = in.union(in.load(st, a), val)
		}
		if a.op == "alloc" || a.op == "fa" || a.op == "ia" {
			// whole value replaces the parts
			for k := range st.heap {
				if t := in.terms[k]; t != nil && k != a.key && inside(t, a) {
					delete(st.heap, k)
				}
			}
		}
		if a.op == "ia" && a.args[0].op != "alloc" || a.op == "ia" && a.args[1].op != "const" {
			v = in.union(in.load(st, a), val)
		}
		st.heap[a.key] = v
	}
}

func inside(t, a *term) bool {
	for t.op == "fa" || t.op == "ia" {
		t = t.args[0]
		if t == a {
			return true
		}
	}
	return false
}

func (in *interp) allocTerm(fr *aframe, x ssa.Value, t types.Type) *term {
	return in.mk(term{op: "alloc", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), typ: t})
}

// ---------------------------------------------------------------- instructions

func (fr *aframe) instr(i ssa.Instruction, st *astate) bool {
	in := fr.in
	switch x := i.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.allocTerm(fr, x, x.Type().Underlying().(*types.Pointer).Elem())
		for k := range st.heap {
			if tt := in.terms[k]; tt != nil && (tt == t || inside(tt, t)) {
				delete(st.heap, k)
			}
		}
		fr.set(x, tset{t})
	case *ssa.Store:
		val := fr.get(x.Val)
		addr := fr.get(x.Addr)
		if len(val) == 0 {
			return true
		}
		fr.event("store", x, calleeID{}, []tset{addr, val}, nil, st)
		in.store(st, addr, val)
	case *ssa.UnOp:
		fr.unop(x, st)
	case *ssa.BinOp:
		a, b := fr.get(x.X), fr.get(x.Y)
		r := in.lift([]tset{a, b}, func(v []*term) *term { return in.known(st, in.binop(x.Op, v[0], v[1], x.X.Type(), x.Type())) })
		if x.Op == token.QUO || x.Op == token.REM || x.Op == token.SHL || x.Op == token.SHR {
			fr.event("div", x, calleeID{name: x.Op.String()}, []tset{a, b}, r, st)
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && b.Info()&types.IsString != 0 {
			fr.event("join", x, calleeID{}, []tset{a, fr.get(x.Y)}, r, st)
		}
		fr.set(x, r)
	case *ssa.Convert:
		fr.set(x, in.lift([]tset{fr.get(x.X)}, func(v []*term) *term { return in.conv(x.Type(), v[0]) }))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.MultiConvert:
		fr.set(x, in.lift([]tset{fr.get(x.X)}, func(v []*term) *term { return in.conv(x.Type(), v[0]) }))
	case *ssa.SliceToArrayPointer:
		fr.set(x, fr.get(x.X))
	case *ssa.MakeInterface:
		fr.set(x, in.lift([]tset{fr.get(x.X)}, func(v []*term) *term {
			if v[0].op == "⊤" {
				return in.iface(x.X.Type(), in.mk(term{op: "unknown", str: typeKey(x.X.Type())}))
			}
			return in.iface(x.X.Type(), v[0])
		}))
	case *ssa.FieldAddr:
		f := fieldOf(x)
		fr.set(x, in.lift([]tset{fr.get(x.X)}, func(v []*term) *term {
			if v[0].op == "⊤" {
				return v[0]
			}
			return in.mk(term{op: "fa", str: f.Name(), fld: f, typ: f.Type(), args: []*term{v[0]}})
		}))
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		fr.set(x, in.lift([]tset{fr.get(x.X)}, func(v []*term) *term { return in.known(st, in.fieldOfValue(v[0], f)) }))
	case *ssa.IndexAddr:
		et := elemType(x.X.Type())
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			et = elemType(p.Elem())
		}
		a, b := fr.get(x.X), fr.get(x.Index)
		fr.event("index", x, calleeID{}, []tset{a, b}, nil, st)
		fr.set(x, in.lift([]tset{a, b}, func(v []*term) *term {
			if v[0].op == "⊤" {
				return v[0]
			}
			return in.mk(term{op: "ia", typ: et, args: []*term{v[0], v[1]}})
		}))
	case *ssa.Index:
		a, b := fr.get(x.X), fr.get(x.Index)
		fr.event("index", x, calleeID{}, []tset{a, b}, nil, st)
		fr.set(x, in.lift([]tset{a, b}, func(v []*term) *term {
			return in.mk(term{op: "elem", typ: x.Type(), args: []*term{v[0], v[1]}})
		}))
	case *ssa.Lookup:
		a, b := fr.get(x.X), fr.get(x.Index)
		val := in.lift([]tset{a, b}, func(v []*term) *term {
			return in.known(st, in.mk(term{op: "lookup", typ: elemType(x.X.Type()), args: v}))
		})
		if x.CommaOk {
			ok := in.lift([]tset{a, b}, func(v []*term) *term {
				return in.known(st, in.mk(term{op: "haskey", args: v}))
			})
			fr.set(x, tset{in.tuple(val, ok)})
		} else {
			fr.set(x, val)
		}
	case *ssa.Slice:
		fr.slice(x, st)
	case *ssa.MakeSlice:
		fr.set(x, tset{in.mk(term{op: "makeslice", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), typ: x.Type(), args: []*term{in.one(fr.get(x.Len))}})})
	case *ssa.MakeMap:
		fr.set(x, tset{in.mk(term{op: "makemap", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), typ: x.Type()})})
	case *ssa.MakeChan:
		fr.set(x, tset{in.mk(term{op: "makechan", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), typ: x.Type()})})
	case *ssa.MakeClosure:
		var bs []*term
		for _, b := range x.Bindings {
			bs = append(bs, in.one(fr.get(b)))
		}
		fn := x.Fn.(*ssa.Function)
		fr.set(x, tset{in.mk(term{op: "closure", str: fn.String(), fn: fn, args: bs})})
	case *ssa.MapUpdate:
		fr.event("mapupdate", x, calleeID{}, []tset{fr.get(x.Map), fr.get(x.Key), fr.get(x.Value)}, nil, st)
	case *ssa.TypeAssert:
		return fr.typeAssert(x, st)
	case *ssa.Extract:
		tup := fr.get(x.Tuple)
		var out []*term
		for _, t := range tup {
			if t.op == "tuple" && x.Index < len(t.args) {
				a := t.args[x.Index]
				if a.op == "or" {
					out = append(out, a.args...)
				} else {
					out = append(out, a)
				}
			} else if t.op == "⊤" {
				out = append(out, t)
			} else {
				out = append(out, in.known(st, in.mk(term{op: "res", str: strconv.Itoa(x.Index), typ: x.Type(), args: []*term{t}})))
			}
		}
		if len(tup) > 0 {
			fr.set(x, in.norm(out))
		}
	case *ssa.Range:
		fr.set(x, in.lift([]tset{fr.get(x.X)}, func(v []*term) *term {
			return in.mk(term{op: "range", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), args: v})
		}))
	case *ssa.Next:
		fr.set(x, in.lift([]tset{fr.get(x.Iter)}, func(v []*term) *term {
			return in.mk(term{op: "tuple", args: []*term{
				in.mk(term{op: "next", args: v}), in.mk(term{op: "mapkey", args: v}), in.mk(term{op: "mapval", args: v})}})
		}))
		// each turn has a new answer
		for k, f := range st.facts {
			if f.t.op == "next" {
				delete(st.facts, k)
			}
		}
	case *ssa.Call:
		fr.set(x, fr.doCall(x, &x.Call, st, false))
		if st.heap == nil {
			st.heap = map[string]tset{}
			return false
		}
	case *ssa.Defer:
		fr.defers[x] = nil
		st.heap["defer:"+fmt.Sprintf("%p", x)] = tset{in.boolean(true)}
	case *ssa.RunDefers:
		ds := []*ssa.Defer{}
		for d := range fr.defers {
			ds = append(ds, d.(*ssa.Defer))
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].Pos() > ds[j].Pos() })
		for _, d := range ds {
			k := "defer:" + fmt.Sprintf("%p", d)
			if _, ok := st.heap[k]; !ok {
				continue
			}
			fr.doCall(d, &d.Call, st, false)
			if st.heap == nil {
				st.heap = map[string]tset{}
			}
		}
		for k := range st.heap {
			if strings.HasPrefix(k, "defer:") {
				delete(st.heap, k)
			}
		}
	case *ssa.Go:
		fr.doCall(x, &x.Call, st, true)
		if st.heap == nil {
			st.heap = map[string]tset{}
		}
	case *ssa.Send:
		fr.event("send", x, calleeID{}, []tset{fr.get(x.Chan), fr.get(x.X)}, nil, st)
	case *ssa.Select:
		var args []*term
		for _, s := range x.States {
			args = append(args, in.one(fr.get(s.Chan)))
			if s.Send != nil {
				fr.event("send", x, calleeID{}, []tset{fr.get(s.Chan), fr.get(s.Send)}, nil, st)
			}
		}
		fr.set(x, tset{in.mk(term{op: "select", str: fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name(), args: args})})
		for k, f := range st.facts {
			if mentions(f.t, "select") || mentions(f.t, "recv") {
				delete(st.facts, k)
			}
		}
	default:
		if v, ok := i.(ssa.Value); ok {
			fr.set(v, tset{in.top})
		}
	}
	return true
}

func mentions(t *term, op string) bool {
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if mentions(a, op) {
			return true
		}
	}
	return false
}

func (in *interp) tuple(vs ...tset) *term {
	var args []*term
	for _, v := range vs {
		args = append(args, in.one(v))
	}
	// a tuple may be larger than a term: keep its parts
	t := in.mk(term{op: "tuple", args: args})
	if t == in.top {
		for i, a := range args {
			if a.size > 8 {
				args[i] = in.top
			}
		}
		t = in.mk(term{op: "tuple", args: args})
	}
	return t
}

func (fr *aframe) unop(x *ssa.UnOp, st *astate) {
	in := fr.in
	src := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		var out []*term
		for _, a := range src {
			out = append(out, in.load(st, a)...)
		}
		if len(src) > 0 {
			fr.set(x, in.norm(out))
		}
	case token.NOT:
		fr.set(x, in.lift([]tset{src}, func(v []*term) *term { return in.not(in.known(st, v[0])) }))
	case token.SUB:
		fr.set(x, in.lift([]tset{src}, func(v []*term) *term {
			if v[0].op == "const" {
				return in.konst(constant.UnaryOp(token.SUB, v[0].cv, 0), x.Type())
			}
			return in.mk(term{op: "neg", typ: x.Type(), args: v})
		}))
	case token.ARROW:
		name := fr.path + "/" + in.w.Name(fr.f) + "/" + x.Name()
		r := in.lift([]tset{src}, func(v []*term) *term { return in.mk(term{op: "recv", str: name, args: v}) })
		for k, f := range st.facts {
			if mentions(f.t, "recv") {
				delete(st.facts, k)
			}
		}
		if x.CommaOk {
			ok := in.lift([]tset{src}, func(v []*term) *term { return in.mk(term{op: "recvok", str: name, args: v}) })
			fr.set(x, tset{in.tuple(r, ok)})
		} else {
			fr.set(x, r)
		}
	default:
		fr.set(x, in.lift([]tset{src}, func(v []*term) *term {
			return in.mk(term{op: "un", str: x.Op.String(), args: v})
		}))
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (in *interp) binop(op token.Token, a, b *term, ot, rt types.Type) *term {
	if a.op == "⊤" || b.op == "⊤" {
		return in.top
	}
	cmp := false
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		cmp = true
	}
	if a.op == "const" && b.op == "const" && a.cv.Kind() != constant.Unknown && b.cv.Kind() != constant.Unknown {
		if cmp {
			if a.cv.Kind() == b.cv.Kind() || a.cv.Kind() != constant.Bool && a.cv.Kind() != constant.String && b.cv.Kind() != constant.Bool && b.cv.Kind() != constant.String {
				return in.boolean(constant.Compare(a.cv, op, b.cv))
			}
		} else if r := foldArith(op, a.cv, b.cv, rt); r != nil {
			return in.konst(r, rt)
		}
	}
	if cmp {
		if v, ok := counted(op, a, b); ok {
			return in.boolean(v)
		}
	}
	if op == token.EQL || op == token.NEQ {
		if eq, known := in.staticEq(a, b, ot); known {
			return in.boolean(eq == (op == token.EQL))
		}
		// boolean == constant
		for _, p := range [][2]*term{{a, b}, {b, a}} {
			if v, ok := p[1].isBool(); ok && !types.IsInterface(ot) {
				if v == (op == token.EQL) {
					return p[0]
				}
				return in.not(p[0])
			}
		}
		if a.key > b.key {
			a, b = b, a
		}
		t := in.mk(term{op: "bin", str: "==", typ: ot, args: []*term{a, b}})
		if k := in.knownNo(t); k != nil {
			t = k
		}
		if op == token.NEQ {
			return in.not(t)
		}
		return t
	}
	if cmp {
		// one spelling: a < b, and for what is not a float !(b < a) for a <= b
		switch op {
		case token.GTR:
			return in.mk(term{op: "bin", str: "<", typ: ot, args: []*term{b, a}})
		case token.GEQ:
			if isFloat(ot) {
				return in.mk(term{op: "bin", str: "<=", typ: ot, args: []*term{b, a}})
			}
			return in.not(in.knownOr(in.mk(term{op: "bin", str: "<", typ: ot, args: []*term{a, b}})))
		case token.LEQ:
			if isFloat(ot) {
				return in.mk(term{op: "bin", str: "<=", typ: ot, args: []*term{a, b}})
			}
			return in.not(in.knownOr(in.mk(term{op: "bin", str: "<", typ: ot, args: []*term{b, a}})))
		}
		return in.mk(term{op: "bin", str: "<", typ: ot, args: []*term{a, b}})
	}
	return in.mk(term{op: "bin", str: op.String(), typ: rt, args: []*term{a, b}})
}

// counted: comparison of a constant with an index that only grows from its first value, or
// with a length.
func counted(op token.Token, a, b *term) (val, ok bool) {
	low := func(t *term) (int64, bool) {
		plus := int64(0)
		if t.op == "bin" && t.str == "+" {
			for i := range t.args {
				if c, ok := constInt(t.args[i]); ok {
					plus, t = c, t.args[1-i]
					break
				}
			}
		}
		if t.op == "len" {
			return plus, true
		}
		if t.op != "ind" || len(t.args) != 2 {
			return 0, false
		}
		s, ok1 := constInt(t.args[0])
		st, ok2 := constInt(t.args[1])
		return s + plus, ok1 && ok2 && st > 0
	}
	c, okc := constInt(b)
	l, okl := low(a)
	if !okc || !okl {
		if c, okc = constInt(a); !okc {
			return false, false
		}
		if l, okl = low(b); !okl {
			return false, false
		}
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	// x >= l, compared with c
	switch {
	case op == token.LSS && l >= c, op == token.LEQ && l > c, op == token.EQL && l > c:
		return false, true
	case op == token.GEQ && l >= c, op == token.GTR && l > c, op == token.NEQ && l > c:
		return true, true
	}
	return false, false
}

func (in *interp) knownNo(t *term) *term {
	if in.assume != nil {
		return in.assume(t)
	}
	return nil
}

func (in *interp) knownOr(t *term) *term {
	if k := in.knownNo(t); k != nil {
		return k
	}
	return t
}

func foldArith(op token.Token, a, b constant.Value, rt types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		return constant.BinaryOp(a, op, b)
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 63 {
			return nil
		}
		return constant.Shift(a, op, uint(n))
	}
	return nil
}

func (in *interp) neverNil(t *term) bool {
	switch t.op {
	case "alloc", "iface", "closure", "func", "makemap", "makeslice", "makechan", "fa", "ia", "global", "list":
		return true
	case "call":
		return t.str == "fmt.Errorf" || t.str == "errors.New" || t.str == "reflect.TypeOf"
	}
	return false
}

func (in *interp) staticEq(a, b *term, ot types.Type) (eq, known bool) {
	if a == b && !isFloat(ot) && a.op != "⊤" {
		return true, true
	}
	if a.op == "nil" && in.neverNil(b) || b.op == "nil" && in.neverNil(a) {
		return false, true
	}
	if a.op == "nil" && b.op == "nil" {
		return true, true
	}
	if a.op == "iface" && b.op == "iface" && !types.Identical(a.typ, b.typ) {
		return false, true
	}
	return false, false
}

func (in *interp) conv(t types.Type, v *term) *term {
	if v.op == "⊤" {
		return v
	}
	if v.op == "const" {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && v.cv.Kind() == constant.Int:
				return in.konst(v.cv, t)
			case b.Info()&types.IsFloat != 0 && (v.cv.Kind() == constant.Int || v.cv.Kind() == constant.Float):
				return in.konst(constant.ToFloat(v.cv), t)
			case b.Info()&types.IsString != 0 && v.cv.Kind() == constant.String:
				return in.konst(v.cv, t)
			}
		}
	}
	if v.typ != nil && types.Identical(v.typ, t) && (v.op == "param" || v.op == "conv") {
		return v
	}
	return in.mk(term{op: "conv", typ: t, args: []*term{v}})
}

func (fr *aframe) slice(x *ssa.Slice, st *astate) {
	in := fr.in
	src := fr.get(x.X)
	fr.set(x, in.lift([]tset{src}, func(v []*term) *term {
		a := v[0]
		if a.op == "alloc" {
			if arr, ok := a.typ.Underlying().(*types.Array); ok && x.Low == nil && x.High == nil && arr.Len() <= 16 {
				var els []*term
				for i := int64(0); i < arr.Len(); i++ {
					k := in.mk(term{op: "ia", typ: arr.Elem(), args: []*term{a, in.konst(constant.MakeInt64(i), types.Typ[types.Int])}})
					els = append(els, in.one(in.load(st, k)))
				}
				return in.mk(term{op: "list", str: fmt.Sprint(arr.Len()), typ: x.Type(), args: els})
			}
		}
		args := []*term{a}
		for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
			if o == nil {
				args = append(args, in.mk(term{op: "absent"}))
			} else {
				args = append(args, in.one(fr.get(o)))
			}
		}
		if x.Low == nil && x.High == nil && x.Max == nil {
			return a
		}
		return in.mk(term{op: "slice", typ: x.Type(), args: args})
	}))
}

func (fr *aframe) typeAssert(x *ssa.TypeAssert, st *astate) bool {
	in := fr.in
	src := fr.get(x.X)
	if len(src) == 0 {
		return false
	}
	var vals, oks []*term
	for _, t := range src {
		v, ok := in.assertTerm(st, t, x.AssertedType)
		if v != nil {
			vals = append(vals, v)
		}
		oks = append(oks, ok)
	}
	if x.CommaOk {
		if len(vals) < len(src) {
			vals = append(vals, in.zero(x.AssertedType))
		}
		for _, o := range oks {
			if _, isC := o.isBool(); !isC {
				if len(src) > 1 {
					vals = append(vals, in.zero(x.AssertedType))
				}
			}
		}
		fr.event("typetest", x, calleeID{}, []tset{src}, in.norm(oks), st)
		fr.set(x, tset{in.tuple(in.norm(vals), in.norm(oks))})
		return true
	}
	sure := true
	for _, o := range oks {
		k := o
		if b, isC := k.isBool(); !isC || !b {
			sure = false
		}
	}
	if !sure {
		fr.event("assert", x, calleeID{}, []tset{src}, in.norm(oks), st)
	}
	if len(vals) == 0 {
		return false
	}
	fr.set(x, in.norm(vals))
	return true
}

// assertTerm gives the value and the outcome of a type test.
func (in *interp) assertTerm(st *astate, t *term, T types.Type) (*term, *term) {
	if t.op == "iface" {
		if it, ok := T.Underlying().(*types.Interface); ok {
			if types.Implements(t.typ, it) {
				return t, in.boolean(true)
			}
			return nil, in.boolean(false)
		}
		if types.Identical(t.typ, T) {
			return t.args[0], in.boolean(true)
		}
		return nil, in.boolean(false)
	}
	if t.op == "nil" {
		return nil, in.boolean(false)
	}
	if t.op == "⊤" {
		return in.top, in.top
	}
	ok := in.known(st, in.mk(term{op: "istype", typ: T, args: []*term{t}}))
	if b, isC := ok.isBool(); isC && !b {
		return nil, ok
	}
	if !types.IsInterface(T) {
		// a positive fact about another concrete type
		for _, f := range st.facts {
			if f.t.op == "istype" && f.val && f.t.args[0] == t && !types.IsInterface(f.t.typ) && !types.Identical(f.t.typ, T) {
				return nil, in.boolean(false)
			}
		}
	}
	if types.IsInterface(T) {
		return t, ok
	}
	return in.mk(term{op: "assert", typ: T, args: []*term{t}}), ok
}

// ---------------------------------------------------------------- calls

func (fr *aframe) doCall(i ssa.Instruction, c *ssa.CallCommon, st *astate, isGo bool) tset {
	in := fr.in
	id := callID(c)
	if id.pkg == "builtin" {
		return fr.builtin(i, c, id.name, st)
	}
	var args []tset
	if c.IsInvoke() {
		args = append(args, fr.get(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	for _, a := range args {
		if len(a) == 0 {
			st.heap = nil
			return nil
		}
	}
	var target *ssa.Function
	var free []tset
	cargs := args
	if c.IsInvoke() {
		if t := args[0].only(); t != nil && t.op == "iface" {
			target = in.methodOf(t.typ, c.Method)
			if target != nil {
				recv := t.args[0]
				// promoted through an embedded pointer or value receiver of a pointer: only
				// the plain cases are entered
				pt := target.Signature.Recv().Type()
				if types.Identical(pt, t.typ) {
					cargs = append([]tset{{recv}}, args[1:]...)
				} else if p, ok := t.typ.(*types.Pointer); ok && types.Identical(p.Elem(), pt) {
					cargs = append([]tset{in.load(st, recv)}, args[1:]...)
				} else {
					target = nil
				}
			}
		}
	} else if s := c.StaticCallee(); s != nil {
		target = s
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, fr.get(b))
			}
		}
	} else if t := fr.get(c.Value).only(); t != nil && (t.op == "func" || t.op == "closure") {
		target = t.fn
		for _, b := range t.args {
			free = append(free, in.norm([]*term{b}))
		}
		if bm := strings.TrimSuffix(target.Name(), "$bound"); bm != target.Name() && target.Object() != nil {
			if real := in.w.Prog.FuncValue(target.Object().(*types.Func)); real != nil && len(free) == 1 {
				cargs = append([]tset{free[0]}, args...)
				target, free = real, nil
			}
		}
	}
	if target != nil && id.name == "" {
		id = funcID(target)
	}
	if id.pkg == "sync" && id.name == "Do" && len(args) == 2 {
		// sync.Once: the function runs the first time
		if t := args[1].only(); t != nil && (t.op == "func" || t.op == "closure") && in.w.inModule(t.fn) {
			k := "once:" + args[0].String()
			if _, done := st.heap[k]; done {
				return nil
			}
			st.heap[k] = tset{in.boolean(true)}
			target, free, cargs = t.fn, nil, nil
			for _, b := range t.args {
				free = append(free, in.norm([]*term{b}))
			}
		}
	}
	var opq bool
	if in.opaque != nil {
		opq = in.opaque(c, target)
	}
	if r := in.reflectCalls(id, c, args); r != nil {
		fr.event("call", i, id, args, r, st)
		return r
	}
	if target == nil || !in.w.inModule(target) || opq || len(in.stack) > maxDepth || in.onStack(target) || isGo && !in.enterGo {
		if in.model != nil {
			in.cur, in.at = st, i
			if rs, ok := in.model(in, c, target, args); ok {
				if st.heap == nil {
					return nil
				}
				r := fr.pack(c, rs)
				fr.event("call", i, id, args, r, st)
				return r
			}
		}
		r := fr.opaqueCall(i, c, id, target, args, st)
		if isGo {
			fr.event("go", i, id, args, r, st)
		} else {
			fr.event("call", i, id, args, r, st)
		}
		// code that is entered by unknown callees may store in what it was given
		return r
	}
	fr.event("enter", i, id, cargs, nil, st)
	path := fr.path + fmt.Sprintf(">%s@%d", target.Name(), siteIndex(fr.f, i))
	rets, nst := in.call(target, cargs, free, st, path)
	fr.callG[i] = append([]guard{}, in.lastG...)
	fr.callR[i] = append([]retCase{}, in.lastR...)
	if nst == nil {
		// does not return
		if isGo {
			return nil
		}
		st.heap = nil
		return nil
	}
	if isGo {
		return nil
	}
	// facts of the caller stay true, those of the callee about its own loops do not matter
	st.heap = nst.heap
	for k, f := range nst.facts {
		if f.t.op != "next" {
			st.facts[k] = f
		}
	}
	return fr.pack(c, rets)
}

// reflectCalls folds the reflection on every value the argument may be.
func (in *interp) reflectCalls(id calleeID, c *ssa.CallCommon, args []tset) tset {
	if id.pkg != "reflect" || len(args) != 1 || len(args[0]) == 0 {
		return nil
	}
	var out []*term
	for _, a := range args[0] {
		r := in.reflectCall(id, c, []tset{{a}})
		if r == nil {
			return nil
		}
		out = append(out, r)
	}
	return in.norm(out)
}

// reflectCall folds the reflection on values of known types.
func (in *interp) reflectCall(id calleeID, c *ssa.CallCommon, args []tset) *term {
	if id.pkg != "reflect" || len(args) != 1 {
		return nil
	}
	a := args[0].only()
	if a == nil {
		return nil
	}
	switch id.name {
	case "TypeOf":
		if a.op == "nil" {
			return in.mk(term{op: "nil", typ: c.Signature().Results().At(0).Type()})
		}
		if a.op == "iface" && !types.IsInterface(a.typ) {
			return in.rtype(a.typ)
		}
	case "ValueOf":
		if a.op == "nil" {
			return in.mk(term{op: "rvalue", str: "nil"})
		}
		if a.op == "iface" && !types.IsInterface(a.typ) {
			return in.mk(term{op: "rvalue", typ: a.typ, str: typeKey(a.typ), args: []*term{a}})
		}
	case "Elem":
		if a.op == "iface" && a.str == "rtype" {
			if e := elemType(a.typ); e != nil {
				return in.rtype(e)
			}
		}
	case "IsValid":
		if a.op == "rvalue" {
			return in.boolean(a.str != "nil")
		}
	case "Kind":
		t := a
		if t.op == "rvalue" && t.str == "nil" {
			return in.konst(constant.MakeInt64(int64(reflect.Invalid)), c.Signature().Results().At(0).Type())
		}
		if t.op == "iface" {
			t = t.args[0]
		}
		if t.op == "rtype" && types.IsInterface(t.typ) {
			return in.konst(constant.MakeInt64(int64(reflect.Interface)), c.Signature().Results().At(0).Type())
		}
		if t.op == "rtype" || t.op == "rvalue" {
			if k := kindOf(t.typ); k != reflect.Invalid {
				return in.konst(constant.MakeInt64(int64(k)), c.Signature().Results().At(0).Type())
			}
		}
	}
	return nil
}

// rtype is the reflect.Type of t.
func (in *interp) rtype(t types.Type) *term {
	return in.mk(term{op: "iface", typ: t, str: "rtype", args: []*term{in.mk(term{op: "rtype", typ: t, str: typeKey(t)})}})
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		for k := reflect.Bool; k <= reflect.Complex128; k++ {
			if k.String() == u.Name() {
				return k
			}
		}
		if u.Kind() == types.String {
			return reflect.String
		}
		if u.Kind() == types.Uint8 {
			return reflect.Uint8
		}
		if u.Kind() == types.Int32 {
			return reflect.Int32
		}
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Pointer:
		return reflect.Ptr
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func siteIndex(f *ssa.Function, i ssa.Instruction) int {
	n := 0
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if _, ok := x.(ssa.CallInstruction); ok {
				n++
				if x == i {
					return n
				}
			}
		}
	}
	return -1
}

func (in *interp) onStack(f *ssa.Function) bool {
	for _, s := range in.stack {
		if s == f {
			return true
		}
	}
	return false
}

func (fr *aframe) pack(c *ssa.CallCommon, rets []tset) tset {
	sig := c.Signature()
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		if len(rets) == 0 {
			return nil
		}
		return rets[0]
	}
	return tset{fr.in.tuple(rets...)}
}

func (in *interp) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fo, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil
	}
	return in.w.Prog.FuncValue(fo)
}

func callName(id calleeID, c *ssa.CallCommon) string {
	if id.recv != "" {
		return id.recv + "." + id.name
	}
	if id.name == "" {
		return "dynamic"
	}
	p := id.pkg
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	return p + "." + id.name
}

func (fr *aframe) opaqueCall(i ssa.Instruction, c *ssa.CallCommon, id calleeID, target *ssa.Function, args []tset, st *astate) tset {
	in := fr.in
	// a callee may change the local variables whose address it gets
	for _, a := range args {
		for _, t := range a {
			r := rooted(t)
			if r.op == "iface" {
				r = rooted(r.args[0])
			}
			if s, ok := localStruct(r); ok && in.fill && id.pkg != "sync" && id.pkg != "sync/atomic" {
				delete(st.heap, r.key)
				for k := 0; k < s.NumFields(); k++ {
					f := s.Field(k)
					fa := in.mk(term{op: "fa", str: f.Name(), fld: f, args: []*term{r}})
					in.store(st, tset{fa}, tset{in.known(st, in.mk(term{op: "field", str: f.Name(), fld: f, typ: f.Type(), args: []*term{r}}))})
				}
				continue
			}
			if r.op == "alloc" && id.pkg != "sync" && id.pkg != "sync/atomic" {
				for k := range st.heap {
					if tt := in.terms[k]; tt != nil && (tt == r || inside(tt, r)) {
						st.heap[k] = in.union(st.heap[k], tset{in.top})
					}
				}
			}
		}
	}
	sig := c.Signature()
	if sig.Results().Len() == 0 {
		return nil
	}
	name := callName(id, c)
	if name == "dynamic" {
		args = append([]tset{fr.get(c.Value)}, args...)
	}
	var ts []*term
	for _, a := range args {
		ts = append(ts, in.one(a))
	}
	t := in.mk(term{op: "call", str: name, typ: sig.Results().At(0).Type(), args: ts})
	if t == in.top {
		t = in.mk(term{op: "call", str: name + "#" + fr.path + "/" + strconv.Itoa(siteIndex(fr.f, i)), typ: sig.Results().At(0).Type()})
	}
	if sig.Results().Len() > 1 {
		var rs []tset
		for k := 0; k < sig.Results().Len(); k++ {
			rs = append(rs, tset{in.known(st, in.mk(term{op: "res", str: strconv.Itoa(k), typ: sig.Results().At(k).Type(), args: []*term{t}}))})
		}
		return tset{in.tuple(rs...)}
	}
	return tset{in.known(st, t)}
}

func localStruct(t *term) (*types.Struct, bool) {
	if t.op != "alloc" || t.typ == nil {
		return nil, false
	}
	s, ok := t.typ.Underlying().(*types.Struct)
	return s, ok
}

func (fr *aframe) builtin(i ssa.Instruction, c *ssa.CallCommon, name string, st *astate) tset {
	in := fr.in
	var args []tset
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	switch name {
	case "len":
		return in.lift(args, func(v []*term) *term {
			switch v[0].op {
			case "list":
				return in.konst(constant.MakeInt64(int64(len(v[0].args))), types.Typ[types.Int])
			case "nil":
				return in.konst(constant.MakeInt64(0), types.Typ[types.Int])
			case "const":
				if v[0].cv.Kind() == constant.String {
					return in.konst(constant.MakeInt64(int64(len(constant.StringVal(v[0].cv)))), types.Typ[types.Int])
				}
			case "makeslice":
				return v[0].args[0]
			}
			return in.known(st, in.mk(term{op: "len", typ: types.Typ[types.Int], args: v}))
		})
	case "append":
		r := in.lift(args, func(v []*term) *term {
			if v[0].op == "⊤" || len(v) > 1 && v[1].op == "⊤" {
				return in.top
			}
			var t types.Type
			if vv, ok := i.(ssa.Value); ok {
				t = vv.Type()
			}
			// the same appended again and again in a loop
			if len(v) == 2 && len(v[0].args) == 2 && v[0].args[1] == v[1] && (v[0].op == "append" || v[0].op == "grow") && (mentions(v[1], "ind") || mentions(v[1], "select") || mentions(v[1], "recv") || mentions(v[1], "next")) {
				return in.mk(term{op: "grow", typ: t, args: v[0].args})
			}
			return in.mk(term{op: "append", typ: t, args: v})
		})
		fr.event("append", i, calleeID{name: name}, args, r, st)
		return r
	case "copy":
		fr.event("copy", i, calleeID{name: name}, args, nil, st)
		return tset{in.mk(term{op: "copied"})}
	case "ssa:wrapnilchk":
		if len(args) > 0 {
			return args[0]
		}
	}
	fr.event("builtin", i, calleeID{name: name}, args, nil, st)
	if c.Signature().Results().Len() == 0 {
		return nil
	}
	return in.lift(args, func(v []*term) *term { return in.mk(term{op: name, args: v}) })
}

func mkString(s string) constant.Value { return constant.MakeString(s) }
