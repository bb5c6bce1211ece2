package main

// What a function certainly writes: a forward must analysis over the SSA form of the formatter.
// It starts at a function that gets a node, with the parts of the node that are there given, prunes
// the branches that decides, follows calls into the module and the functions handed to them, and
// yields at each point the parts and the tokens that were written on every way there.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gitem struct {
	fld  *types.Var
	lits map[string]bool // what the field can hold, when that is fixed
	free bool            // the field holds text of the query
	tok  string
	isID bool
}

type gform struct {
	present map[*types.Var]bool
	items   []gitem
	name    string
}

type facts map[string]bool

func (f facts) clone() facts {
	out := make(facts, len(f))
	for k := range f {
		out[k] = true
	}
	return out
}

func meetFacts(a, b facts) facts { // nil is everything
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := facts{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

func sameFacts(a, b facts) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type event struct {
	fact   string
	before facts
	pos    ssa.Instruction
}

type fctx struct {
	e     *emitter
	f     *ssa.Function
	args  map[*ssa.Parameter]ctxVal
	fv    map[*ssa.FreeVar]ctxVal
	roots map[ssa.Value]string
	stack []*ssa.Function
	live  map[[2]*ssa.BasicBlock]bool
	on    map[*ssa.BasicBlock]bool
	calls map[ssa.Instruction]*effect
}

type ctxVal struct {
	c *fctx
	v ssa.Value
}

type effect struct {
	out    facts
	events []event
}

// emitter: one run, with the parts that are there
type emitter struct {
	p       *fmtWorld
	vis     ctxVal
	forms   map[string]*gform       // path of a node -> the parts it has
	typ     map[string]*types.Named // and its type
	root    types.Type
	lits    map[ssa.Value]string
	hand    bool // looking for what is handed over, instead of text
	collect bool // the host asked for everything
	trial   bool // looking for callbacks that are run, instead of text
	fresh   int
}

func unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || x.Index != 0 {
				return v
			}
			v = ta.X
		default:
			return v
		}
	}
}

func (c *fctx) resolve(cv ctxVal) ctxVal {
	for i := 0; i < 60 && cv.v != nil; i++ {
		v := unwrap(cv.v)
		cv.v = v
		if _, isRoot := cv.c.roots[v]; isRoot {
			return cv
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			a, ok := cv.c.args[x]
			if !ok {
				return cv
			}
			cv = a
		case *ssa.FreeVar:
			a, ok := cv.c.fv[x]
			if !ok {
				return cv
			}
			cv = a
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return cv
			}
			a := cv.c.resolve(ctxVal{cv.c, x.X})
			al, ok := a.v.(*ssa.Alloc)
			if !ok {
				return cv
			}
			if st, isS := deref(al.Type()).Underlying().(*types.Struct); isS && st.NumFields() > 0 {
				return cv
			}
			vals, esc := cv.c.e.p.w.cellStores(al)
			if len(vals) != 1 || esc || vals[0].Parent() != a.c.f {
				return cv
			}
			cv = ctxVal{a.c, vals[0]}
		case *ssa.Phi:
			if len(x.Edges) > 8 {
				return cv
			}
			var one *ctxVal
			for j, e := range x.Edges {
				if !cv.c.isLive(x.Block().Preds[j], x.Block()) || e == ssa.Value(x) {
					continue
				}
				if _, isPhi := unwrap(e).(*ssa.Phi); isPhi {
					return cv
				}
				r := cv.c.resolve(ctxVal{cv.c, e})
				if one != nil && *one != r {
					return cv
				}
				one = &r
			}
			if one == nil {
				return cv
			}
			return *one
		default:
			return cv
		}
	}
	return cv
}

func (c *fctx) isLive(a, b *ssa.BasicBlock) bool {
	return c.live == nil || c.live[[2]*ssa.BasicBlock{a, b}]
}

// path of a value: which part of the node it is. A pointer and what it points to have the same path.
func (c *fctx) path(v ssa.Value) string { return c.pathOf(ctxVal{c, v}, 0) }

func (c *fctx) pathOf(cv ctxVal, depth int) string {
	if depth > 40 {
		return ""
	}
	cv = c.resolve(cv)
	c = cv.c
	if c == nil {
		return ""
	}
	if s, ok := c.roots[cv.v]; ok {
		return s
	}
	sub := func(x ssa.Value) string { return c.pathOf(ctxVal{c, x}, depth+1) }
	switch x := cv.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return sub(x.X)
		}
	case *ssa.FieldAddr:
		if s := sub(x.X); s != "" {
			return s + "." + fieldOf(x).Name()
		}
	case *ssa.Field:
		if s := sub(x.X); s != "" {
			return s + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		return c.element(x.X, x.Index, depth)
	case *ssa.Index:
		return c.element(x.X, x.Index, depth)
	case *ssa.Lookup:
		if s := sub(x.X); s != "" && !isStringy(x.X.Type()) {
			return s + "[]"
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			if s := sub(l.X); s != "" {
				return s + "[]"
			}
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if _, isArr := deref(al.Type()).Underlying().(*types.Array); isArr {
					s, ok := c.e.lits[x]
					if !ok {
						s = fmt.Sprintf("lit#%d", len(c.e.lits))
						c.e.lits[x] = s
						c.e.p.litOf[s] = ctxVal{c, x}
					}
					// the same literal in another context
					if c.e.p.litOf[s].c != c {
						c.e.fresh++
						s = fmt.Sprintf("lit#f%d", c.e.fresh)
						c.e.lits[x] = s
						c.e.p.litOf[s] = ctxVal{c, x}
					}
					return s
				}
			}
			return sub(x.X)
		}
	}
	return ""
}

func (c *fctx) element(list, idx ssa.Value, depth int) string {
	q := c.pathOf(ctxVal{c, list}, depth+1)
	if q == "" {
		return ""
	}
	if k, ok := idx.(*ssa.Const); ok && k.Value != nil {
		return q + "[" + k.Value.ExactString() + "]"
	}
	for _, b := range c.f.Blocks {
		if cov := c.covers(b); cov != nil && cov.list == q && cov.index == idx && naturalLoop(b)[idx2block(idx, b)] {
			return q + "[]"
		}
	}
	return ""
}

func idx2block(v ssa.Value, def *ssa.BasicBlock) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return def
}

type cover struct {
	list  string
	index ssa.Value
	body  *ssa.BasicBlock
	exit  *ssa.BasicBlock
}

// covers: the block heads a loop that takes each element of a list, from the first to the last.
func (c *fctx) covers(h *ssa.BasicBlock) *cover {
	if len(h.Instrs) == 0 || len(h.Succs) != 2 {
		return nil
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	loop := false
	for _, p := range h.Preds {
		if h.Dominates(p) {
			loop = true
		}
	}
	if !loop {
		return nil
	}
	iv, bound, op := cmp.X, cmp.Y, cmp.Op
	if op == token.GTR {
		iv, bound, op = cmp.Y, cmp.X, token.LSS
	}
	if op == token.NEQ {
		op = token.LSS
	}
	if op != token.LSS {
		return nil
	}
	rb := c.resolve(ctxVal{c, bound})
	ln, ok := rb.v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, isB := ln.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
		return nil
	}
	// from 0, one at a time
	start, step, ph := int64(0), ssa.Value(nil), (*ssa.Phi)(nil)
	if p, isP := iv.(*ssa.Phi); isP {
		ph = p
	} else if add, isA := iv.(*ssa.BinOp); isA && add.Op == token.ADD {
		if p, isP := add.X.(*ssa.Phi); isP {
			ph, start, step = p, -1, add
		}
	}
	if ph == nil || ph.Block() != h {
		return nil
	}
	for j, e := range ph.Edges {
		if h.Dominates(h.Preds[j]) {
			add, isA := e.(*ssa.BinOp)
			if !isA || add.Op != token.ADD || add.X != ssa.Value(ph) || !isOne(add.Y) {
				return nil
			}
			if step != nil && e != step {
				return nil
			}
		} else if k, isK := constIntOf(e); !isK || k != start {
			return nil
		}
	}
	if step != nil {
		if k, isK := constIntOf(step.(*ssa.BinOp).Y); !isK || k != 1 {
			return nil
		}
	}
	q := rb.c.pathOf(ctxVal{rb.c, ln.Call.Args[0]}, 0)
	if q == "" {
		return nil
	}
	cov := &cover{list: q, index: iv, body: h.Succs[0], exit: h.Succs[1]}
	if !naturalLoop(h)[cov.body] || naturalLoop(h)[cov.exit] {
		return nil
	}
	return cov
}

func constIntOf(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return k.Int64(), true
}

// presence of a part: there, not there, or unknown
func (e *emitter) presence(path string) (there, known bool) {
	if path == "" {
		return
	}
	if path == "$" || strings.HasSuffix(path, "[]") {
		return true, true
	}
	if strings.HasPrefix(path, "lit#") {
		return e.p.litLen(path) > 0, true
	}
	i := strings.LastIndex(path, ".")
	if i < 0 {
		return
	}
	form, ok := e.forms[path[:i]]
	if !ok {
		return
	}
	fld := fieldNamed(e.typ[path[:i]], path[i+1:])
	if fld == nil {
		return
	}
	if !e.p.isPart(e.typ[path[:i]], fld) {
		// worked out from a part that is not there
		if src := e.p.derivedFrom(e.typ[path[:i]], fld); src != nil && !form.present[src] {
			return false, true
		}
		return
	}
	return form.present[fld], true
}

func fieldNamed(n *types.Named, name string) *types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// eval decides a condition from the parts that are there.
func (c *fctx) eval(v ssa.Value, depth int) (val, known bool) {
	if depth > 12 {
		return
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value), true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && c.e.collect && x.Op == token.MUL && strings.HasPrefix(fieldOf(fa).Name(), "Collect") {
			if fb, isF := fa.X.(*ssa.FieldAddr); isF && c.isVis(fb.X) {
				return true, true
			}
		}
		if x.Op == token.NOT {
			val, known = c.eval(x.X, depth+1)
			return !val, known
		}
	case *ssa.Phi:
		first := true
		for i, e := range x.Edges {
			if !c.isLive(x.Block().Preds[i], x.Block()) {
				continue
			}
			ev, ek := c.eval(e, depth+1)
			if !ek || !first && ev != val {
				return false, false
			}
			val, first = ev, false
		}
		return val, !first
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 {
			return c.e.presence(c.path(l.X))
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			if t := c.typeOf(ctxVal{c, ta.X}); t != nil {
				if it, isI := ta.AssertedType.Underlying().(*types.Interface); isI {
					return types.Implements(t, it), true
				}
				return types.Identical(t, ta.AssertedType), true
			}
		}
		return
	case *ssa.BinOp:
		l, r, op := x.X, x.Y, x.Op
		if _, isK := l.(*ssa.Const); isK {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		k, isK := r.(*ssa.Const)
		if !isK {
			return
		}
		var there, ok bool
		if ln, isC := c.resolve(ctxVal{c, l}).v.(*ssa.Call); isC && k.Value != nil && k.Value.Kind() == constant.Int {
			b, isB := ln.Call.Value.(*ssa.Builtin)
			if !isB || b.Name() != "len" {
				return
			}
			rc := c.resolve(ctxVal{c, l}).c
			there, ok = c.e.presence(rc.pathOf(ctxVal{rc, ln.Call.Args[0]}, 0))
			n := k.Int64()
			switch {
			case !ok:
				return
			case n == 0 && op == token.EQL, n == 0 && op == token.LEQ, n == 1 && op == token.LSS:
				return !there, true
			case n == 0 && op == token.NEQ, n == 0 && op == token.GTR, n == 1 && op == token.GEQ:
				return there, true
			case !there && n > 0:
				return op == token.LSS || op == token.LEQ || op == token.NEQ, true
			}
			return
		}
		path := c.path(l)
		if k.Value == nil && path == "" && (op == token.EQL || op == token.NEQ) {
			if isNil, ok := c.nilResult(l); ok {
				return isNil == (op == token.EQL), true
			}
		}
		there, ok = c.e.presence(path)
		if !ok || op != token.EQL && op != token.NEQ {
			return
		}
		switch {
		case k.Value == nil:
		case k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "":
		case k.Value.Kind() == constant.Bool:
			return there == constant.BoolVal(k.Value) == (op == token.EQL), true
		default:
			return
		}
		return there == (op == token.NEQ), true
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return c.e.presence(c.path(v))
	}
	return
}

// nilResult: what a function of the module returns is nil, or never is
func (c *fctx) nilResult(v ssa.Value) (isNil, known bool) {
	r := c.resolve(ctxVal{c, v})
	idx := 0
	call, ok := r.v.(*ssa.Call)
	if e, isE := r.v.(*ssa.Extract); isE {
		call, ok = e.Tuple.(*ssa.Call)
		idx = e.Index
	}
	if !ok {
		return
	}
	g := call.Call.StaticCallee()
	if g == nil || !c.e.p.w.inModule(g) || len(g.Blocks) == 0 || len(c.stack) > 14 {
		return
	}
	k := r.c.child(g, call, nil)
	k.liveness()
	first := true
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !k.on[b] || idx >= len(ret.Results) {
			continue
		}
		x := ret.Results[idx]
		n := isNilConst(x)
		if !n && !c.e.p.notNil(x, b) {
			return false, false
		}
		if !first && n != isNil {
			return false, false
		}
		isNil, first = n, false
	}
	return isNil, !first
}

func (p *fmtWorld) notNil(x ssa.Value, b *ssa.BasicBlock) bool {
	if p.prover == nil {
		p.prover = newProver(p.w)
	}
	return p.prover.nonNil(x, b, 0).ok()
}

// typeOf the node a value holds
func (c *fctx) typeOf(cv ctxVal) types.Type {
	r := c.resolve(cv)
	if s, ok := r.c.roots[r.v]; ok && s == "$" {
		return c.e.root
	}
	if r.v == nil || types.IsInterface(r.v.Type()) {
		return nil
	}
	return r.v.Type()
}

// pieces of a text
type piece struct {
	text string
	path string
	alts [][]piece
}

func (c *fctx) pieces(cv ctxVal, depth int) []piece {
	unknown := []piece{{}}
	if depth > 25 {
		return unknown
	}
	cv = c.resolve(cv)
	c = cv.c
	if k, ok := cv.v.(*ssa.Const); ok {
		if k.Value != nil && k.Value.Kind() == constant.String {
			return []piece{{text: constant.StringVal(k.Value)}}
		}
		if k.Value != nil && k.Value.Kind() == constant.Int {
			return []piece{{text: k.Value.ExactString()}}
		}
		return unknown
	}
	if p := c.pathOf(cv, 0); p != "" {
		return []piece{{path: p}}
	}
	sub := func(v ssa.Value) []piece { return c.pieces(ctxVal{c, v}, depth+1) }
	switch x := cv.v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return append(append([]piece{}, sub(x.X)...), sub(x.Y)...)
		}
	case *ssa.Convert:
		if keepsValue(x.X.Type(), x.Type()) {
			return sub(x.X)
		}
	case *ssa.Phi:
		var alts [][]piece
		for i, e := range x.Edges {
			if c.isLive(x.Block().Preds[i], x.Block()) {
				alts = append(alts, sub(e))
			}
		}
		return []piece{{alts: alts}}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.called(call, x.Index, depth)
		}
	case *ssa.Call:
		return c.called(x, 0, depth)
	}
	return unknown
}

// widens: a conversion that keeps every value
func keepsValue(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	if f.Info()&types.IsString != 0 || t.Info()&types.IsString != 0 {
		return f.Info()&types.IsString != 0 && t.Info()&types.IsString != 0
	}
	size := func(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }
	if f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0 {
		return f.Info()&types.IsUnsigned == t.Info()&types.IsUnsigned && size(t) >= size(f)
	}
	return f.Info()&types.IsFloat != 0 && t.Info()&types.IsFloat != 0 && size(t) >= size(f)
}

func constStr(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// called: the text a call makes. Only conversions that can be read back are followed.
func (c *fctx) called(call *ssa.Call, res, depth int) []piece {
	unknown := []piece{{}}
	sub := func(v ssa.Value) []piece { return c.pieces(ctxVal{c, v}, depth+1) }
	id := callID(&call.Call)
	a := call.Call.Args
	if g := call.Call.StaticCallee(); g != nil && c.e.p.w.inModule(g) && len(g.Blocks) > 0 {
		for _, s := range c.stack {
			if s == g {
				return unknown
			}
		}
		k := c.child(g, call, nil)
		k.liveness()
		var alts [][]piece
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k.on[b] && res < len(ret.Results) {
				alts = append(alts, k.pieces(ctxVal{k, ret.Results[res]}, depth+1))
			}
		}
		if len(alts) == 0 {
			return unknown
		}
		return []piece{{alts: alts}}
	}
	switch id.pkg + "." + id.name {
	case "strconv.FormatInt", "strconv.FormatUint":
		if k, ok := constIntOf(a[1]); ok && k == 10 {
			return sub(a[0])
		}
	case "strconv.Itoa":
		return sub(a[0])
	case "strconv.FormatFloat":
		k, ok := constIntOf(a[2])
		f, ok2 := constIntOf(a[1])
		if n, ok3 := constIntOf(a[3]); ok && ok2 && ok3 && k == -1 && n == 64 && strings.ContainsRune("fFgGeE", rune(f)) {
			return sub(a[0])
		}
	case "strings.Repeat":
		if s, ok := constStr(a[0]); ok && strings.TrimSpace(s) == "" {
			return []piece{{text: " "}}
		}
	case "strings.Clone":
		return sub(a[0])
	case "strings.Join":
		if s, ok := constStr(a[1]); ok {
			var out []piece
			for i, el := range c.listed(a[0]) {
				if i > 0 {
					out = append(out, piece{text: s})
				}
				out = append(out, c.pieces(el, depth+1)...)
			}
			return out
		}
	case "fmt.Sprint":
		var out []piece
		for _, el := range c.listed(a[0]) {
			out = append(out, c.pieces(el, depth+1)...)
		}
		return out
	case "fmt.Sprintf":
		f, ok := constStr(a[0])
		if !ok {
			return unknown
		}
		var vals []ctxVal
		if len(a) > 1 {
			vals = c.listed(a[1])
		}
		var out []piece
		n := 0
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) {
				out = append(out, piece{text: f})
				break
			}
			if i > 0 {
				out = append(out, piece{text: f[:i]})
			}
			switch f[i+1] {
			case '%':
				out = append(out, piece{text: "%"})
			case 'd', 's', 'v':
				if n >= len(vals) {
					return unknown
				}
				if t := vals[n].v.Type().Underlying(); f[i+1] != 's' && isFloat(t) {
					out = append(out, piece{})
				} else {
					out = append(out, c.pieces(vals[n], depth+1)...)
				}
				n++
			default:
				return append(out, piece{})
			}
			f = f[i+2:]
		}
		return out
	}
	return unknown
}

// listed: the elements of a list that was written out, in order
func (c *fctx) listed(v ssa.Value) []ctxVal {
	r := c.resolve(ctxVal{c, v})
	sl, ok := r.v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int64]ssa.Value{}
	var idx []int64
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, isK := constIntOf(ia.Index)
		if !isK {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if st, isS := rr.(*ssa.Store); isS && st.Addr == ssa.Value(ia) {
				at[k] = st.Val
				idx = append(idx, k)
			}
		}
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i] < idx[j] })
	var out []ctxVal
	for _, k := range idx {
		out = append(out, ctxVal{r.c, unwrap(at[k])})
	}
	return out
}

func (p *fmtWorld) litLen(path string) int {
	cv, ok := p.litOf[path]
	if !ok {
		return 0
	}
	return len(cv.c.listed(cv.v))
}

// child is the context of a call.
func (c *fctx) child(g *ssa.Function, call ssa.CallInstruction, mc *ctxVal) *fctx {
	k := &fctx{e: c.e, f: g, args: map[*ssa.Parameter]ctxVal{}, fv: map[*ssa.FreeVar]ctxVal{}, calls: map[ssa.Instruction]*effect{}}
	k.stack = append(append([]*ssa.Function{}, c.stack...), g)
	if call != nil {
		for i, prm := range g.Params {
			if i < len(call.Common().Args) {
				k.args[prm] = ctxVal{c, call.Common().Args[i]}
			}
		}
	}
	if mc != nil {
		if m, ok := mc.v.(*ssa.MakeClosure); ok {
			for i, fv := range g.FreeVars {
				k.fv[fv] = ctxVal{mc.c, m.Bindings[i]}
			}
		}
	}
	return k
}

// liveness: the branches that the parts decide
func (c *fctx) liveness() {
	for round := 0; round < 6; round++ {
		live := map[[2]*ssa.BasicBlock]bool{}
		on := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if on[b] {
				return
			}
			on[b] = true
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, known := c.eval(br.Cond, 0); known {
					s := b.Succs[1]
					if v {
						s = b.Succs[0]
					}
					live[[2]*ssa.BasicBlock{b, s}] = true
					walk(s)
					return
				}
			}
			for _, s := range b.Succs {
				live[[2]*ssa.BasicBlock{b, s}] = true
				walk(s)
			}
		}
		walk(c.f.Blocks[0])
		same := c.live != nil && len(live) == len(c.live)
		if same {
			for k := range live {
				if !c.live[k] {
					same = false
				}
			}
		}
		c.live, c.on = live, on
		if same {
			return
		}
	}
}

var wordRx = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*`)

func (p *fmtWorld) tokens(text string) []string {
	var out []string
	for text != "" {
		if text[0] == ' ' || text[0] == '\n' || text[0] == '\t' {
			text = text[1:]
			continue
		}
		if m := wordRx.FindString(text); m != "" {
			out = append(out, m)
			text = text[len(m):]
			continue
		}
		n := 1
		for l := range p.vocab {
			if len(l) > n && strings.HasPrefix(text, l) {
				n = len(l)
			}
		}
		out = append(out, text[:n])
		text = text[n:]
	}
	return out
}

// factsOf lists what writing the pieces establishes, in order
func (c *fctx) factsOf(ps []piece) []string {
	var out []string
	for _, p := range ps {
		switch {
		case p.alts != nil:
			count := map[string]int{}
			var order []string
			for _, alt := range p.alts {
				seen := map[string]bool{}
				for _, f := range c.factsOf(alt) {
					if !seen[f] {
						seen[f] = true
						if count[f] == 0 {
							order = append(order, f)
						}
						count[f]++
					}
				}
			}
			for _, f := range order {
				if count[f] == len(p.alts) {
					out = append(out, f)
				}
			}
		case p.path != "":
			out = append(out, "p:"+p.path)
			if d := c.e.derived(p.path); d != "" {
				out = append(out, "p:"+d)
			}
		case strings.TrimSpace(p.text) != "":
			out = append(out, "c:"+strings.TrimSpace(p.text))
			for _, t := range c.e.p.tokens(p.text) {
				out = append(out, "t:"+t)
			}
		}
	}
	return out
}

// derived: the captured part a field is worked out from
func (e *emitter) derived(path string) string {
	i := strings.LastIndex(path, ".")
	if i < 0 {
		return ""
	}
	n := e.typ[path[:i]]
	if n == nil {
		return ""
	}
	fld := fieldNamed(n, path[i+1:])
	if fld == nil || e.p.isPart(n, fld) {
		return ""
	}
	if src := e.p.derivedFrom(n, fld); src != nil {
		return path[:i] + "." + src.Name()
	}
	return ""
}

// run: what is written on every way through the function
func (c *fctx) run() *effect {
	c.liveness()
	f := c.f
	type edge = [2]*ssa.BasicBlock
	out := map[edge]facts{}
	var events map[ssa.Instruction][]event
	order := []*ssa.BasicBlock{}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			if c.isLive(b, s) {
				dfs(s)
			}
		}
		order = append([]*ssa.BasicBlock{b}, order...)
	}
	dfs(f.Blocks[0])
	covs := map[*ssa.BasicBlock]*cover{}
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				loops[b] = naturalLoop(b)
			}
		}
		if cov := c.covers(b); cov != nil {
			covs[b] = cov
		}
	}
	var ret facts
	for round := 0; round < 40; round++ {
		changed := false
		events = map[ssa.Instruction][]event{}
		ret = nil
		for _, b := range order {
			var in, entry, latch facts
			if b == f.Blocks[0] {
				in = facts{}
			} else {
				for _, p := range b.Preds {
					if !c.isLive(p, b) {
						continue
					}
					st := out[edge{p, b}]
					if st != nil {
						st = c.phis(p, b, st)
					}
					if b.Dominates(p) {
						latch = meetFacts(latch, st)
					} else {
						entry = meetFacts(entry, st)
					}
					in = meetFacts(in, st)
				}
			}
			if in == nil {
				continue // not reached yet
			}
			st := in.clone()
			gen := func(fs []string, at ssa.Instruction) {
				for _, x := range fs {
					events[at] = append(events[at], event{x, st.clone(), at})
					st[x] = true
				}
			}
			for _, i := range b.Instrs {
				c.step(i, &st, gen, events, out)
				if _, ok := i.(*ssa.Return); ok {
					ret = meetFacts(ret, st)
				}
			}
			br, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			for si, s := range b.Succs {
				if !c.isLive(b, s) {
					continue
				}
				o := st.clone()
				if br != nil {
					if x, isNil, ok := nilTest(br.Cond, si == 0); ok {
						x = unwrap(x)
						key := "nn:" + x.Name()
						if isNil && st[key] {
							o = nil
						} else if !isNil {
							o[key] = true
						}
					}
				}
				if cov := covs[b]; cov != nil && o != nil {
					there, known := c.e.presence(cov.list)
					switch s {
					case cov.body:
						for k := range o {
							if strings.HasPrefix(k, "p:"+cov.list+"[]") || strings.HasPrefix(k, "ran:") {
								delete(o, k)
							}
						}
					case cov.exit:
						if known && there {
							if latch == nil {
								o = nil
							} else {
								for k := range latch {
									o[k] = true
								}
							}
						}
						if latch != nil && o != nil {
							for k := range latch {
								if strings.HasPrefix(k, "p:"+cov.list+"[]") {
									o[k] = true
								}
							}
						}
						if o != nil && (o["p:"+cov.list+"[]"] || known && !there) {
							fs := []string{"p:" + cov.list}
							if strings.HasPrefix(cov.list, "lit#") {
								cv := c.e.p.litOf[cov.list]
								for _, el := range cv.c.listed(cv.v) {
									fs = append(fs, c.factsOf(cv.c.pieces(el, 0))...)
								}
							}
							for _, x := range fs {
								events[br] = append(events[br], event{x, o.clone(), br})
								o[x] = true
							}
						}
					}
				} else if o != nil {
					// left in the middle: not all of them were seen
					for h, l := range loops {
						if cv := covs[h]; cv != nil && l[b] && !l[s] && b != h {
							if br != nil && c.lastTurn(br.Cond, si == 0, cv) && o["p:"+cv.list+"[]"] {
								all := true
								for _, q := range h.Preds {
									if st := out[edge{q, h}]; h.Dominates(q) && st != nil && !st["p:"+cv.list+"[]"] {
										all = false
									}
								}
								if all {
									events[br] = append(events[br], event{"p:" + cv.list, o.clone(), br})
									o["p:"+cv.list] = true
									continue
								}
							}
							for k := range o {
								if strings.HasPrefix(k, "p:"+cv.list+"[]") {
									delete(o, k)
								}
							}
						}
					}
				}
				if !sameFacts(out[edge{b, s}], o) {
					out[edge{b, s}] = o
					changed = true
				}
			}
			_ = entry
		}
		if !changed {
			break
		}
	}
	eff := &effect{out: ret}
	if eff.out == nil {
		eff.out = facts{}
		eff.out["no-return"] = true
	}
	var ins []ssa.Instruction
	for i := range events {
		ins = append(ins, i)
	}
	sort.Slice(ins, func(i, j int) bool {
		if ins[i].Block() != ins[j].Block() {
			return ins[i].Block().Index < ins[j].Block().Index
		}
		return ins[i].Pos() < ins[j].Pos()
	})
	for _, i := range ins {
		eff.events = append(eff.events, events[i]...)
	}
	return eff
}

func nilTest(cond ssa.Value, onTrue bool) (x ssa.Value, isNil, ok bool) {
	cmp, isB := cond.(*ssa.BinOp)
	if !isB || cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return
	}
	switch {
	case isNilConst(cmp.Y):
		x = cmp.X
	case isNilConst(cmp.X):
		x = cmp.Y
	default:
		return
	}
	return x, onTrue == (cmp.Op == token.EQL), true
}

// phis: which values are not nil after an edge
func (c *fctx) phis(p, b *ssa.BasicBlock, st facts) facts {
	var out facts
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for j, q := range b.Preds {
			if q != p {
				continue
			}
			e := unwrap(ph.Edges[j])
			nn := st["nn:"+e.Name()]
			switch x := e.(type) {
			case *ssa.Alloc:
				nn = true
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && c.e.p.copyLike(g) || c.e.trial && c.ranCopy(x) {
					nn = true
				}
			}
			if out == nil {
				out = st.clone()
			}
			if nn {
				out["nn:"+ph.Name()] = true
			} else {
				delete(out, "nn:"+ph.Name())
			}
		}
	}
	if out == nil {
		return st
	}
	return out
}

func (c *fctx) isVis(v ssa.Value) bool {
	return c.resolve(ctxVal{c, v}) == c.e.vis
}

// step: what one instruction writes
func (c *fctx) step(i ssa.Instruction, st *facts, gen func([]string, ssa.Instruction), events map[ssa.Instruction][]event, out map[[2]*ssa.BasicBlock]facts) {
	p := c.e.p
	apply := func(e *effect) {
		if e == nil {
			return
		}
		for _, ev := range e.events {
			before := (*st).clone()
			for k := range ev.before {
				before[k] = true
			}
			events[i] = append(events[i], event{ev.fact, before, ev.pos})
		}
		for k := range e.out {
			if k[0] == 'p' || k[0] == 't' || k[0] == 'c' || k == "done" || strings.HasPrefix(k, "a:") {
				(*st)[k] = true
			}
		}
	}
	if c.e.hand {
		emit := func(v ssa.Value, not string) {
			var fs []string
			for q := range c.parts(v, *st, 0) {
				if q != not {
					fs = append(fs, "p:"+q)
				}
			}
			sort.Strings(fs)
			gen(fs, i)
		}
		switch x := i.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if q := c.path(fa); q != "" {
					emit(x.Val, q)
					if strings.Count(q, ".") == 1 {
						(*st)["gone:"+q] = true
					}
				}
			}
		case *ssa.Return:
			for _, v := range x.Results {
				emit(v, "")
			}
		}
		return
	}
	switch x := i.(type) {
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok || !c.isVis(fa.X) {
			return
		}
		fld := fieldOf(fa)
		app, ok := x.Val.(*ssa.Call)
		if !ok {
			return
		}
		if b, isB := app.Call.Value.(*ssa.Builtin); !isB || b.Name() != "append" || len(app.Call.Args) != 2 {
			return
		}
		ld, ok := app.Call.Args[0].(*ssa.UnOp)
		if !ok {
			return
		}
		fb, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fieldOf(fb) != fld || !c.isVis(fb.X) {
			return
		}
		if fld != p.frags {
			gen([]string{"a:" + fld.Name()}, i)
			return
		}
		if c.e.trial {
			return
		}
		if els := c.listed(app.Call.Args[1]); els != nil {
			for _, el := range els {
				gen(c.factsOf(el.c.pieces(el, 0)), i)
			}
		} else if q := c.path(app.Call.Args[1]); q != "" {
			gen([]string{"p:" + q}, i)
		}
	case *ssa.Defer:
		(*st)["defer:"+fmt.Sprint(i.Pos())] = true
	case *ssa.RunDefers:
		var ds []*ssa.Defer
		eachInstr(c.f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			if d, ok := in.(*ssa.Defer); ok && (*st)["defer:"+fmt.Sprint(d.Pos())] {
				ds = append([]*ssa.Defer{d}, ds...)
			}
		})
		for _, d := range ds {
			if _, ok := c.calls[d]; !ok {
				c.calls[d] = c.call(d, gen)
			}
			apply(c.calls[d])
		}
	case *ssa.Call:
		if c.e.trial {
			c.trialStep(x, st, gen, out)
			return
		}
		if _, ok := c.calls[x]; !ok {
			c.calls[x] = c.call(x, gen)
		}
		apply(c.calls[x])
	}
}

// call: the effect of a call on the visitor
func (c *fctx) call(ci ssa.CallInstruction, gen func([]string, ssa.Instruction)) *effect {
	p := c.e.p
	cc := ci.Common()
	single := func(fs ...string) *effect {
		e := &effect{out: facts{}}
		for _, f := range fs {
			e.events = append(e.events, event{f, e.out.clone(), ci.(ssa.Instruction)})
			e.out[f] = true
		}
		return e
	}
	g := cc.StaticCallee()
	var mc *ctxVal
	if g == nil && !cc.IsInvoke() {
		r := c.resolve(ctxVal{c, cc.Value})
		switch x := r.v.(type) {
		case *ssa.Function:
			g = x
		case *ssa.MakeClosure:
			g = x.Fn.(*ssa.Function)
			mc = &r
		}
	} else if m, ok := cc.Value.(*ssa.MakeClosure); ok {
		mc = &ctxVal{c, m}
	}
	if g == nil || !p.w.inModule(g) || len(g.Blocks) == 0 {
		return nil
	}
	has := mc != nil
	var node, cbs = -1, -1
	for i, a := range cc.Args {
		if c.isVis(a) {
			has = true
			continue
		}
		if i >= len(g.Params) {
			break
		}
		if p.takesVisitor(g.Params[i].Type()) {
			cbs = i
		}
		if q := c.path(a); q != "" && !strings.HasPrefix(q, "lit#") && node < 0 {
			if t := c.typeOf(ctxVal{c, a}); t != nil && p.isNode(t) {
				node = i
			}
		}
	}
	if !has {
		return nil
	}
	if cbs >= 0 && p.isTrial(g, cbs) {
		// one of the functions is run
		var fns []ctxVal
		if _, isF := g.Params[cbs].Type().Underlying().(*types.Signature); isF {
			fns = []ctxVal{c.resolve(ctxVal{c, cc.Args[cbs]})}
		} else {
			fns = c.listed(cc.Args[cbs])
		}
		var res *effect
		for _, fn := range fns {
			fn = fn.c.resolve(fn)
			var h *ssa.Function
			switch x := fn.v.(type) {
			case *ssa.Function:
				h = x
			case *ssa.MakeClosure:
				h = x.Fn.(*ssa.Function)
			}
			if h == nil {
				return nil
			}
			k := c.child(h, nil, &fn)
			for _, prm := range h.Params {
				if n := namedOf(deref(prm.Type())); n == p.vis {
					k.args[prm] = c.e.vis
				}
			}
			e := k.run()
			if res == nil {
				res = &effect{out: e.out.clone()}
			} else {
				res.out = meetFacts(res.out, e.out)
			}
			res.events = append(res.events, e.events...)
		}
		return res
	}
	again := 0
	for _, s := range c.stack {
		if s == g {
			again++
		}
	}
	if again > 1 {
		return nil
	}
	if node >= 0 {
		q := c.path(cc.Args[node])
		t := c.typeOf(ctxVal{c, cc.Args[node]})
		_, viaInterface := g.Params[node].Type().Underlying().(*types.Interface)
		if q != "$" {
			if viaInterface {
				if p.hasCase(g, node, t) {
					p.want(g, node, t)
					return single("p:" + q)
				}
				return nil
			}
			if p.full(g, node, t) {
				if _, isList := t.Underlying().(*types.Slice); isList && len(c.stack) <= 14 {
					// with what goes around it
					k := c.child(g, ci, mc).run()
					if !k.out["p:"+q] {
						k.events = append(k.events, event{"p:" + q, k.out.clone(), ci.(ssa.Instruction)})
						k.out["p:"+q] = true
					}
					return k
				}
				return single("p:" + q)
			}
		}
	}
	if len(c.stack) > 14 {
		return nil
	}
	return c.child(g, ci, mc).run()
}

// trialStep: in a function that runs callbacks on copies, and takes over one of them
func (c *fctx) trialStep(x *ssa.Call, st *facts, gen func([]string, ssa.Instruction), out map[[2]*ssa.BasicBlock]facts) {
	p := c.e.p
	g := x.Call.StaticCallee()
	if c.ranCopy(x) {
		(*st)["ran:"+x.Name()] = true
		return
	}
	if g == nil {
		q := c.path(x.Call.Value)
		if q != "$" && q != "$[]" || len(x.Call.Args) < 1 {
			return
		}
		if c.isVis(x.Call.Args[0]) {
			gen([]string{"done"}, x)
			return
		}
		(*st)["ran:"+unwrap(x.Call.Args[0]).Name()] = true
		return
	}
	to, from := p.mergeLike(g)
	if to < 0 || !c.isVis(x.Call.Args[to]) {
		return
	}
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value, st facts) bool
	ok = func(v ssa.Value, st facts) bool {
		v = unwrap(v)
		if seen[v] || isNilConst(v) {
			return true
		}
		if ph, isPhi := v.(*ssa.Phi); isPhi {
			seen[v] = true
			for j, e := range ph.Edges {
				es := out[[2]*ssa.BasicBlock{ph.Block().Preds[j], ph.Block()}]
				if !c.isLive(ph.Block().Preds[j], ph.Block()) || es == nil {
					continue
				}
				if !ok(e, es) {
					return false
				}
			}
			return true
		}
		if st["ran:"+v.Name()] {
			call, isC := v.(*ssa.Call)
			if isC && c.ranCopy(call) {
				return true
			}
			return isC && call.Call.StaticCallee() != nil && p.copyLike(call.Call.StaticCallee()) && c.isVis(call.Call.Args[0])
		}
		return false
	}
	if ok(x.Call.Args[from], *st) {
		gen([]string{"done"}, x)
	}
}

// lastTurn: the condition says that the element is the last one of the list
func (c *fctx) lastTurn(cond ssa.Value, onTrue bool, cov *cover) bool {
	cmp, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := cmp.Op
	x, y := cmp.X, cmp.Y
	if y == cov.index {
		x, y = y, x
		switch op {
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ, token.LSS:
			return false
		}
	}
	if !(onTrue && (op == token.EQL || op == token.GEQ) || !onTrue && (op == token.NEQ || op == token.LSS)) {
		return false
	}
	isLen := func(v ssa.Value) bool {
		r := c.resolve(ctxVal{c, v})
		ln, ok := r.v.(*ssa.Call)
		if !ok {
			return false
		}
		b, isB := ln.Call.Value.(*ssa.Builtin)
		return isB && b.Name() == "len" && r.c.path(ln.Call.Args[0]) == cov.list
	}
	if x == cov.index {
		r := c.resolve(ctxVal{c, y})
		sub, ok := r.v.(*ssa.BinOp)
		return ok && r.c == c && sub.Op == token.SUB && isOne(sub.Y) && isLen(sub.X)
	}
	add, ok := x.(*ssa.BinOp)
	return ok && add.Op == token.ADD && add.X == cov.index && isOne(add.Y) && isLen(y)
}

// ranCopy: the call makes a copy of the visitor, runs a function on it and returns it
func (c *fctx) ranCopy(call *ssa.Call) bool {
	var h *ssa.Function
	var mc *ctxVal
	r := c.resolve(ctxVal{c, call.Call.Value})
	switch x := r.v.(type) {
	case *ssa.Function:
		h = x
	case *ssa.MakeClosure:
		h, mc = x.Fn.(*ssa.Function), &r
	}
	if h == nil || !c.e.p.w.inModule(h) || len(h.Blocks) == 0 || h.Signature.Results().Len() != 1 {
		return false
	}
	k := c.child(h, call, mc)
	ok := false
	for _, b := range h.Blocks {
		ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR {
			continue
		}
		cp, isC := unwrap(ret.Results[0]).(*ssa.Call)
		if !isC || cp.Call.StaticCallee() == nil || !c.e.p.copyLike(cp.Call.StaticCallee()) || !k.isVis(cp.Call.Args[0]) {
			return false
		}
		ran := false
		for _, ref := range *cp.Referrers() {
			if rc, isRun := ref.(*ssa.Call); isRun && rc.Call.StaticCallee() == nil && !rc.Call.IsInvoke() && alwaysRuns(rc) {
				if q := k.path(rc.Call.Value); q == "$" || q == "$[]" {
					ran = true
				}
			}
		}
		if !ran {
			return false
		}
		ok = true
	}
	return ok
}

// parts of the node that make up a value
func (c *fctx) parts(v ssa.Value, st facts, depth int) map[string]bool {
	out := map[string]bool{}
	if depth > 20 {
		return out
	}
	add := func(m map[string]bool) {
		for k := range m {
			out[k] = true
		}
	}
	if q := c.path(v); q != "" && !strings.HasPrefix(q, "lit#") {
		if !st["gone:"+q] {
			out[q] = true
		}
		return out
	}
	if els := c.listed(v); els != nil {
		for _, el := range els {
			add(el.c.parts(el.v, st, depth+1))
		}
		return out
	}
	r := c.resolve(ctxVal{c, v})
	switch x := r.v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				add(c.parts(a, st, depth+1))
			}
		} else if g := x.Call.StaticCallee(); g != nil && c.e.p.w.inModule(g) && types.Identical(x.Type(), c.f.Signature.Results().At(0).Type()) {
			for _, a := range x.Call.Args {
				add(c.parts(a, st, depth+1))
			}
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return c.parts(ia.X, st, depth+1)
		}
	case *ssa.Phi:
		first := true
		for i, e := range x.Edges {
			if !c.isLive(x.Block().Preds[i], x.Block()) {
				continue
			}
			if app, ok := e.(*ssa.Call); ok && x.Block().Dominates(x.Block().Preds[i]) {
				// what a loop adds
				if b, isB := app.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && app.Call.Args[0] == ssa.Value(x) {
					defer add(c.parts(app.Call.Args[1], st, depth+1))
					continue
				}
			}
			m := c.parts(e, st, depth+1)
			if first {
				add(m)
				first = false
				continue
			}
			for k := range out {
				if !m[k] {
					delete(out, k)
				}
			}
		}
	}
	return out
}

func isOne(v ssa.Value) bool {
	k, ok := constIntOf(v)
	return ok && k == 1
}
