package main

// What certainly holds where a value is used: facts established by the
// conditions on the way there, by the functions called in those conditions, by
// the way the value was made and, for parameters, by every caller.

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type prover struct {
	w     *World
	ast   *astWorld
	conds map[*ssa.BasicBlock][]condAt
	kills map[*types.Var]map[*ssa.Function]bool // functions that may change a field
	sets  map[*types.Named][]map[*types.Var]bool
	busy  map[string]int
	live  map[*ssa.Function]bool

	memo map[kkey]kset // finished answers of kindsSeen
	says map[tkey]kset // and of toldCall
	nns  map[nkey]nn
	cuts int // how often a question was left unanswered
}

type kkey struct {
	d     rdesc
	b     *ssa.BasicBlock
	local bool
}

type nkey struct {
	v ssa.Value
	b *ssa.BasicBlock
}

type tkey struct {
	d   rdesc
	f   *ssa.Function
	idx int
	val bool
}

func newProver(w *World) *prover {
	return &prover{w: w, live: w.used(), ast: newAstWorld(w), conds: map[*ssa.BasicBlock][]condAt{}, kills: map[*types.Var]map[*ssa.Function]bool{},
		sets: map[*types.Named][]map[*types.Var]bool{}, busy: map[string]int{},
		memo: map[kkey]kset{}, says: map[tkey]kset{}, nns: map[nkey]nn{}}
}

// condAt: the condition had this value when control passed here.
type condAt struct {
	v   ssa.Value
	val bool
}

// edgeCond is what the branch from p to b says.
func edgeCond(p, b *ssa.BasicBlock) (condAt, bool) {
	if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		return condAt{i.Cond, p.Succs[0] == b}, true
	}
	return condAt{}, false
}

// entries are the ways into b that are not the next turn of a loop.
var entryMemo = map[*ssa.BasicBlock][]*ssa.BasicBlock{}

func entries(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
	if o, ok := entryMemo[b]; ok {
		return o
	}
	defer func() { entryMemo[b] = out }()
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			out = append(out, p)
		}
	}
	return
}

// at lists the conditions that certainly hold in b.
func (p *prover) at(b *ssa.BasicBlock) []condAt {
	if c, ok := p.conds[b]; ok {
		return c
	}
	var out []condAt
	for x := b; x != nil; x = x.Idom() {
		if e := entries(x); len(e) == 1 {
			if c, ok := edgeCond(e[0], x); ok {
				out = append(out, c)
			}
		}
	}
	// a closure runs after it was made
	if sites := p.w.closures[b.Parent()]; len(sites) == 1 && b.Parent().Parent() != nil {
		out = append(out, p.at(sites[0].Block())...)
	}
	// what a condition is made of
	for k := 0; k < len(out) && k < 200; k++ {
		out = append(out, partsOf(out[k])...)
	}
	p.conds[b] = out
	return out
}

// partsOf: the conditions a condition stands for.
func partsOf(c condAt) (out []condAt) {
	switch x := c.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return []condAt{{x.X, !c.val}}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k, ok := s[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					return []condAt{{s[0], (constant.BoolVal(k.Value) == c.val) == (x.Op == token.EQL)}}
				}
			}
		}
	case *ssa.Phi:
		// the edges that can have given this value
		var live []int
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != c.val {
				continue
			}
			live = append(live, i)
		}
		if len(live) == 1 {
			i := live[0]
			if _, ok := x.Edges[i].(*ssa.Const); !ok {
				out = append(out, condAt{x.Edges[i], c.val})
			}
			b, pr := x.Block(), x.Block().Preds[i]
			if e, ok := edgeCond(pr, b); ok {
				out = append(out, e)
			}
			for y := pr; y != nil && y != b.Idom(); y = y.Idom() {
				if e := entries(y); len(e) == 1 {
					if c, ok := edgeCond(e[0], y); ok {
						out = append(out, c)
					}
				}
			}
		}
	}
	return
}

// waysOf: a condition kept in a variable that several tests can have given:
// what holds for each of them.
func waysOf(c condAt) (out [][]condAt) {
	x, ok := c.v.(*ssa.Phi)
	if !ok {
		return nil
	}
	b := x.Block()
	for i, e := range x.Edges {
		pr := b.Preds[i]
		if b.Dominates(pr) {
			return nil
		}
		var way []condAt
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) != c.val {
				continue
			}
		} else {
			way = append(way, condAt{e, c.val})
		}
		if e, ok := edgeCond(pr, b); ok {
			way = append(way, e)
		}
		for y := pr; y != nil && y != b.Idom(); y = y.Idom() {
			if e := entries(y); len(e) == 1 {
				if c, ok := edgeCond(e[0], y); ok {
					way = append(way, c)
				}
			}
		}
		for k := 0; k < len(way) && k < 50; k++ {
			way = append(way, partsOf(way[k])...)
		}
		out = append(out, way)
	}
	if len(out) < 2 || len(out) > 8 {
		return nil
	}
	return out
}

func defBlock(v ssa.Value) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

// outlives: the value exists at the end of b.
func outlives(v ssa.Value, b *ssa.BasicBlock) bool {
	d := defBlock(v)
	return d == nil || d.Parent() != b.Parent() || d.Dominates(b)
}

// plain strips what does not change a value, and reads variables that are
// written once.
func (p *prover) plain(v ssa.Value) ssa.Value {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c := p.w.cellOf(x.X); c != nil {
					if a, ok := c.(*ssa.Alloc); ok {
						vals, esc := p.w.cellStores(a)
						if len(vals) == 1 && !esc && !isSelfRead(vals[0], a) {
							v = vals[0]
							continue
						}
					}
				}
			}
		case *ssa.FreeVar:
			if b := p.w.binding(x); b != nil {
				if _, isAlloc := b.(*ssa.Alloc); !isAlloc {
					v = b
					continue
				}
			}
		}
		break
	}
	return v
}

func isSelfRead(v ssa.Value, a *ssa.Alloc) bool {
	// a variable of struct type is changed field by field
	if isStructAlloc(a) {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok {
		return u.X == ssa.Value(a)
	}
	if ph, ok := v.(*ssa.Phi); ok {
		_ = ph
	}
	return false
}

// changes lists the functions that may store to a field, directly or not.
func (p *prover) changers(fl *types.Var) map[*ssa.Function]bool {
	if m, ok := p.kills[fl]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !m[f] {
			m[f] = true
			work = append(work, f)
		}
	}
	for _, s := range p.w.fieldStores[fl] {
		if !isFreshStruct(s) {
			add(s.Parent())
		}
	}
	p.w.buildSites()
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, s := range p.w.sites[f] {
			add(s.Parent())
		}
		if f.Parent() != nil {
			add(f.Parent())
		}
	}
	p.kills[fl] = m
	return m
}

// unchanged: nothing between the two instructions (of one function) may store
// to the field.
func (p *prover) unchanged(fl *types.Var, from, to ssa.Instruction) bool {
	ch := p.changers(fl)
	if len(ch) == 0 {
		return true
	}
	kill := func(i ssa.Instruction) bool {
		if s, ok := i.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa) == fl {
				return true
			}
		}
		if c, ok := i.(ssa.CallInstruction); ok {
			for _, g := range p.w.callees(c.Common(), true) {
				if ch[g] {
					return true
				}
			}
		}
		return false
	}
	return !between(from, to, kill)
}

// between: some instruction satisfying pred lies on a way from a to b that does
// not pass a again.
func between(a, b ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return 0
	}
	// forward from a, remembering whether pred was met
	seen := map[*ssa.BasicBlock]uint8{}
	var run func(blk *ssa.BasicBlock, from int, met bool) bool
	run = func(blk *ssa.BasicBlock, from int, met bool) bool {
		for k := from; k < len(blk.Instrs); k++ {
			i := blk.Instrs[k]
			if i == b && met {
				return true
			}
			if i == a {
				return false
			}
			if pred(i) {
				met = true
			}
		}
		for _, s := range blk.Succs {
			bit := uint8(1)
			if met {
				bit = 2
			}
			if seen[s]&bit == 0 {
				seen[s] |= bit
				if run(s, 0, met) {
					return true
				}
			}
		}
		return false
	}
	return run(a.Block(), idx(a)+1, false)
}

// same: the two are certainly the same value.
func (p *prover) same(a, b ssa.Value) bool { return p.sameD(a, b, 0) }

func (p *prover) sameD(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	a, b = p.plain(a), p.plain(b)
	if a == b {
		return true
	}
	if d > 8 || a == nil || b == nil {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && types.Identical(x.Type(), y.Type()) && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value))
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != y.Op {
			return false
		}
		if x.Op == token.MUL {
			fx, ok1 := x.X.(*ssa.FieldAddr)
			fy, ok2 := y.X.(*ssa.FieldAddr)
			if ok1 && ok2 && fieldOf(fx) == fieldOf(fy) && p.sameD(fx.X, fy.X, d+1) {
				if x.Parent() != y.Parent() {
					if af := p.ast.fields[fieldOf(fx)]; af != nil && af.parsed {
						return true
					}
					return len(p.changers(fieldOf(fx))) == 0
				}
				return p.steady(fieldOf(fx), x, y)
			}
			if gx, ok := x.X.(*ssa.Global); ok {
				return y.X == ssa.Value(gx)
			}
			if x.X == y.X && x.Parent() == y.Parent() {
				// one variable read twice
				store := func(i ssa.Instruction) bool {
					if s, ok := i.(*ssa.Store); ok {
						return s.Addr == x.X
					}
					_, call := i.(ssa.CallInstruction)
					return call
				}
				if x.Block().Dominates(y.Block()) && mayPrecede(x, y) && !between(x, y, store) {
					return true
				}
				return y.Block().Dominates(x.Block()) && mayPrecede(y, x) && !between(y, x, store)
			}
			return false
		}
		return x.Op != token.ARROW && p.sameD(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && fieldOf(x) == fieldOf(y) && p.sameD(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && p.sameD(x.X, y.X, d+1) && p.sameD(x.Index, y.Index, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && p.sameD(x.X, y.X, d+1)
	case *ssa.MakeInterface:
		y, ok := b.(*ssa.MakeInterface)
		return ok && types.Identical(x.X.Type(), y.X.Type()) && p.sameD(x.X, y.X, d+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && p.sameD(x.X, y.X, d+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && p.sameD(x.X, y.X, d+1) && p.sameD(x.Y, y.Y, d+1)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && p.sameD(x.Tuple, y.Tuple, d+1)
	case *ssa.TypeAssert:
		y, ok := b.(*ssa.TypeAssert)
		return ok && x.CommaOk == y.CommaOk && types.Identical(x.AssertedType, y.AssertedType) && p.sameD(x.X, y.X, d+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || !p.fixed(x) || !p.fixed(y) || x.Call.Value != nil && y.Call.Value != nil && !x.Call.IsInvoke() && !p.sameCallee(x, y) {
			return false
		}
		if x.Call.IsInvoke() != y.Call.IsInvoke() || callID(&x.Call) != callID(&y.Call) || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		if x.Call.IsInvoke() && !p.sameD(x.Call.Value, y.Call.Value, d+1) {
			return false
		}
		for i := range x.Call.Args {
			if !p.sameD(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *prover) sameCallee(x, y *ssa.Call) bool {
	if bx, ok := x.Call.Value.(*ssa.Builtin); ok {
		by, ok := y.Call.Value.(*ssa.Builtin)
		return ok && bx.Name() == by.Name()
	}
	return x.Call.StaticCallee() != nil && x.Call.StaticCallee() == y.Call.StaticCallee()
}

// fixed: the same call on the same arguments gives the same result.
func (p *prover) fixed(c *ssa.Call) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
	}
	id := callID(&c.Call)
	switch id.pkg {
	case "reflect":
		return id.name != "Interface" && id.name != "Call" && id.name != "New"
	case "strings":
		return true
	}
	if id.pkg == "" {
		return false
	}
	return false
}

// steady: a field read at a and at b gives the same value.
func (p *prover) steady(fl *types.Var, a, b ssa.Instruction) bool {
	if af := p.ast.fields[fl]; af != nil && af.parsed {
		return true // parsed queries are not changed once parsed
	}
	if a.Block().Dominates(b.Block()) && mayPrecede(a, b) && p.unchanged(fl, a, b) {
		return true
	}
	return b.Block().Dominates(a.Block()) && mayPrecede(b, a) && p.unchanged(fl, b, a)
}

// ---------------------------------------------------------------------------
// the dynamic type of a value, as far as reflection distinguishes
// ---------------------------------------------------------------------------

type kset uint32

const (
	kPtrNil = kset(1) << 27 // a nil pointer; bit Ptr is a non-nil one
	kAll    = kset(1)<<28 - 1
	kNone   = kset(0)
)

func kbit(ks ...reflect.Kind) (m kset) {
	for _, k := range ks {
		m |= 1 << uint(k)
		if k == reflect.Ptr {
			m |= kPtrNil
		}
	}
	return
}

func (m kset) String() string {
	if m == kAll {
		return "any value"
	}
	var p []string
	for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
		if m&(1<<uint(k)) != 0 {
			if k == reflect.Invalid {
				p = append(p, "no value")
			} else {
				p = append(p, k.String())
			}
		}
	}
	if m&kPtrNil != 0 {
		p = append(p, "nil pointer")
	}
	if len(p) > 8 {
		q := "any kind"
		if m&1 != 0 {
			q += " or no value"
		}
		if m&kPtrNil != 0 {
			q += " or a nil pointer"
		}
		return q
	}
	return strings.Join(p, ", ")
}

// kindsOfType: the kinds of a value of static type T stored in an interface.
func (p *prover) kindsOfType(t types.Type) kset {
	if types.IsInterface(t) {
		return kAll
	}
	k := kindOf(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.UnsafePointer:
			k = reflect.UnsafePointer
		case types.UntypedNil:
			return 1
		}
	case *types.Chan:
		k = reflect.Chan
	}
	if k == reflect.Invalid {
		return kAll
	}
	return kbit(k)
}

// rdesc: a reflect.Value or reflect.Type as a step from a value.
type rdesc struct {
	root ssa.Value // an interface value, or a reflect.Value / reflect.Type itself
	path string    // "", "*" (Indirect), "^" (Elem)
	any  bool      // root is the interface value that was reflected on
}

func (p *prover) desc(v ssa.Value) rdesc {
	v = p.plain(v)
	if c, ok := v.(*ssa.Call); ok {
		id := callID(&c.Call)
		if id.pkg == "reflect" {
			arg := func() ssa.Value {
				if c.Call.IsInvoke() {
					return c.Call.Value
				}
				return c.Call.Args[0]
			}
			switch {
			case id.recv == "" && (id.name == "ValueOf" || id.name == "TypeOf"):
				return rdesc{p.plain(arg()), "", true}
			case id.recv == "" && id.name == "Indirect":
				d := p.desc(arg())
				d.path += "*"
				return d
			case id.recv == "Value" && id.name == "Type":
				return p.desc(arg())
			case id.recv == "Value" && id.name == "Elem":
				d := p.desc(arg())
				d.path += "^"
				return d
			}
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a reflect.Value held in a variable of its own
		if a, ok := u.X.(*ssa.Alloc); ok {
			if vals, esc := p.w.cellStores(a); len(vals) == 1 && !esc {
				return p.desc(vals[0])
			}
		}
	}
	return rdesc{v, "", false}
}

func (p *prover) sameDesc(a, b rdesc) bool {
	return a.path == b.path && a.any == b.any && p.same(a.root, b.root)
}

func isReflectType(t types.Type, name string) bool { return isNamedType(t, "reflect", name) }

// kinds: what the value described can be, in block b.
func (p *prover) kinds(d rdesc, b *ssa.BasicBlock, depth int) kset {
	return p.kindsSeen(d, b, depth, map[*ssa.BasicBlock]bool{})
}

func (p *prover) kindsSeen(d rdesc, b *ssa.BasicBlock, depth int, seen map[*ssa.BasicBlock]bool) kset {
	key := kkey{d, b, p.busy["local"] > 0}
	if m, ok := p.memo[key]; ok {
		return m
	}
	cuts := p.cuts
	m := p.kindsNow(d, b, depth, seen)
	if p.cuts == cuts {
		p.memo[key] = m
	}
	return m
}

func (p *prover) kindsNow(d rdesc, b *ssa.BasicBlock, depth int, seen map[*ssa.BasicBlock]bool) kset {
	m := p.born(d, b, depth)
	if m == 0 {
		return 0
	}
	for _, c := range p.at(b) {
		m &= p.told(d, c, depth)
	}
	// what the parts of the path say
	if n := len(d.path); n > 0 {
		o := d
		o.path = d.path[:n-1]
		mo := p.kindsSeen(o, b, depth, seen)
		var res kset
		ptr := kset(1) << uint(reflect.Ptr)
		switch d.path[n-1] {
		case '*':
			res = mo &^ (ptr | kPtrNil)
			if mo&ptr != 0 {
				res |= kAll &^ 1
			}
			if mo&kPtrNil != 0 {
				res |= 1
			}
		case '^':
			if mo&ptr != 0 {
				res |= kAll &^ 1
			}
			if mo&(kPtrNil|kset(1)<<uint(reflect.Interface)) != 0 {
				res = kAll
			}
			if res == 0 {
				res = kAll
			}
		}
		m &= res
	}
	if m == 0 {
		return 0
	}
	// several ways here, each with its own conditions
	x := b
	for x != nil {
		e := entries(x)
		if len(e) > 1 {
			if seen[x] {
				p.cuts++
				break
			}
			if !outlives(d.root, x.Idom()) {
				break
			}
			seen[x] = true
			var u kset
			for _, pr := range e {
				mm := p.kindsSeen(d, pr, depth, seen)
				if c, ok := edgeCond(pr, x); ok {
					for _, c := range flatConds(c) {
						mm &= p.told(d, c, depth)
					}
				}
				u |= mm
			}
			seen[x] = false
			m &= u
			break
		}
		x = x.Idom()
	}
	return m
}

func flatConds(c condAt) []condAt {
	out := []condAt{c}
	for k := 0; k < len(out) && k < 50; k++ {
		out = append(out, partsOf(out[k])...)
	}
	return out
}

// enter guards against endless recursion through callers and callees.
func (p *prover) enter(key string) bool {
	if p.busy[key] > 0 {
		p.cuts++
		return false
	}
	p.busy[key]++
	return true
}
func (p *prover) leave(key string) { p.busy[key]-- }

const proveDepth = 5

func (p *prover) within(depth int) bool {
	if depth > proveDepth {
		p.cuts++
		return false
	}
	return true
}

// born: what the value can be because of the way it was made.
func (p *prover) born(d rdesc, b *ssa.BasicBlock, depth int) kset {
	if d.path != "" && d.any {
		switch x := d.root.(type) {
		case *ssa.MakeInterface:
			t := x.X.Type()
			for range d.path {
				pt, ok := t.Underlying().(*types.Pointer)
				if !ok {
					return kAll
				}
				t = pt.Elem()
			}
			if m := p.nonNil(x.X, b, depth+1); m.ok() {
				return p.kindsOfType(t)
			}
		case *ssa.Parameter:
			return p.bornParam(x, func(a ssa.Value, at *ssa.BasicBlock) kset {
				return p.kinds(rdesc{p.plain(a), d.path, true}, at, depth+1)
			}, depth)
		}
	}
	if d.path != "" {
		return kAll
	}
	v := d.root
	if !d.any {
		return p.bornValue(v, b, depth)
	}
	if it, ok := v.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
		if _, ok := v.(*ssa.MakeInterface); !ok {
			return kAll &^ (kPtrNil | 1) // not a value of a query
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		m := p.kindsOfType(x.X.Type())
		if m&kPtrNil != 0 && p.nonNil(x.X, b, depth+1).ok() {
			m &^= kPtrNil
		}
		return m
	case *ssa.Const:
		if x.Value == nil {
			return 1
		}
	case *ssa.Phi:
		if depth > proveDepth+3 {
			p.cuts++
			return kAll
		}
		key := "ph" + x.Name() + x.Parent().String()
		if !p.enter(key) {
			return 0
		}
		defer p.leave(key)
		var m kset
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			de := rdesc{p.plain(e), "", true}
			mm := p.kinds(de, pr, depth+1)
			if c, ok := edgeCond(pr, x.Block()); ok {
				for _, c := range flatConds(c) {
					mm &= p.told(de, c, depth+1)
				}
			}
			m |= mm
		}
		return m
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 && types.IsInterface(ta.AssertedType) {
			// the same value, or nil
			return p.kinds(rdesc{p.plain(ta.X), "", true}, ta.Block(), depth+1) | 1
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.bornCall(c, x.Index, depth)
		}
	case *ssa.TypeAssert:
		if types.IsInterface(x.AssertedType) {
			return p.kinds(rdesc{p.plain(x.X), "", true}, x.Block(), depth+1) &^ 1
		}
	case *ssa.Call:
		return p.bornCall(x, 0, depth)
	case *ssa.Parameter:
		return p.bornParam(x, func(a ssa.Value, at *ssa.BasicBlock) kset {
			return p.kinds(rdesc{p.plain(a), "", true}, at, depth+1)
		}, depth)
	}
	if !types.IsInterface(v.Type()) {
		return p.kindsOfType(v.Type())
	}
	return kAll
}

// bornCall: the results of a function of the module.
func (p *prover) bornCall(c *ssa.Call, idx int, depth int) kset {
	if depth > proveDepth {
		p.cuts++
		return kAll
	}
	f := c.Call.StaticCallee()
	if f == nil || !p.w.inModule(f) {
		id := callID(&c.Call)
		if id.pkg == "reflect" && id.recv == "Value" && id.name == "Interface" {
			return kAll
		}
		return kAll
	}
	key := "bc" + f.String() + string(rune('0'+idx))
	if !p.enter(key) {
		return 0
	}
	defer p.leave(key)
	var m kset
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			n++
			v := p.plain(r.Results[idx])
			// what the caller passes comes back unchanged
			if pa, ok := v.(*ssa.Parameter); ok {
				if i := paramIndex(pa); i >= 0 && i < len(c.Call.Args) && types.IsInterface(pa.Type()) {
					mm := p.kindsLocal(rdesc{v, "", true}, b, depth+1)
					mm &= p.kinds(rdesc{p.plain(c.Call.Args[i]), "", true}, c.Block(), depth+1)
					m |= mm
					continue
				}
			}
			m |= p.kinds(rdesc{v, "", true}, b, depth+1)
		}
	}
	if n == 0 {
		return kAll
	}
	return m
}

// kindsLocal: as kinds, without looking at the callers.
func (p *prover) kindsLocal(d rdesc, b *ssa.BasicBlock, depth int) kset {
	key := "local"
	p.busy[key]++
	defer func() { p.busy[key]-- }()
	return p.kinds(d, b, depth)
}

// bornParam asks every caller.
func (p *prover) bornParam(x *ssa.Parameter, ask func(a ssa.Value, at *ssa.BasicBlock) kset, depth int) kset {
	f := x.Parent()
	if p.busy["local"] > 0 {
		return kAll
	}
	if depth > proveDepth {
		p.cuts++
		return kAll
	}
	sites, known := p.callersOf(f)
	if !known {
		return kAll
	}
	key := "bp" + f.String() + x.Name()
	if !p.enter(key) {
		return 0
	}
	defer p.leave(key)
	var m kset
	i := paramIndex(x)
	for _, s := range sites {
		a := argFor(s.Common(), f, i)
		if a == nil {
			return kAll
		}
		if p.developer(a, 0) || p.shared(a) {
			continue // not followed
		}
		m |= p.siteKinds(s, f, a, ask)
	}
	return m
}

// siteKinds: the kinds an argument can have at a call; for a method called
// through an interface, the receiver there is known to be of the method's type.
func (p *prover) siteKinds(s ssa.CallInstruction, f *ssa.Function, a ssa.Value, ask func(ssa.Value, *ssa.BasicBlock) kset) kset {
	m := ask(a, s.Block())
	if s.Common().IsInvoke() && f.Signature.Recv() != nil {
		d := rdesc{p.plain(a), "", true}
		for _, c := range p.at(s.Block()) {
			m &= p.toldBy(d, c, s.Common().Value, f)
		}
	}
	return m
}

// toldBy: a test made on the receiver of an interface call, answered by the type f belongs to.
func (p *prover) toldBy(d rdesc, c condAt, recv ssa.Value, f *ssa.Function) kset {
	call, ok := c.v.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() || !p.same(call.Call.Value, recv) {
		return kAll
	}
	n := namedOf(f.Signature.Recv().Type())
	if n == nil {
		return kAll
	}
	g := p.w.methodNamed(n, call.Call.Method.Name())
	if g == nil {
		return kAll
	}
	return p.toldCall(d, g, call.Call.Args, 1, 0, c.val, 1)
}

// callersOf lists the call sites of f; known is false when there may be others.
func (p *prover) callersOf(f *ssa.Function) (out []ssa.CallInstruction, known bool) {
	p.w.buildSites()
	if p.w.addrTaken[f] && f.Parent() == nil {
		return nil, false
	}
	for _, s := range p.w.sites[f] {
		out = append(out, s)
	}
	if len(out) == 0 {
		return nil, false
	}
	return out, true
}

// bornValue: a reflect.Value or reflect.Type made otherwise.
func (p *prover) bornValue(v ssa.Value, b *ssa.BasicBlock, depth int) kset {
	switch x := v.(type) {
	case *ssa.Call:
		id := callID(&x.Call)
		if id.pkg == "reflect" {
			switch id.name {
			case "New":
				return kset(1) << uint(reflect.Ptr)
			case "MakeSlice":
				return kbit(reflect.Slice)
			case "MakeMap":
				return kbit(reflect.Map)
			case "Convert", "Addr", "Slice":
				return kAll &^ 1
			case "Index", "Field", "MapIndex", "Key", "In", "Out", "PtrTo", "PointerTo":
				if id.name == "MapIndex" {
					if p.ownKey(x) {
						return kAll &^ 1
					}
					return kAll
				}
				return kAll &^ 1
			case "Method":
				return kbit(reflect.Func)
			case "MethodByName":
				return kbit(reflect.Func) | 1
			case "Elem":
				// of a type
				return kAll &^ 1
			}
			return kAll
		}
		if f := x.Call.StaticCallee(); f != nil && p.w.inModule(f) && p.within(depth) {
			key := "bv" + f.String()
			if !p.enter(key) {
				return 0
			}
			defer p.leave(key)
			var m kset
			for _, rb := range f.Blocks {
				if r, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					m |= p.kinds(p.desc(r.Results[0]), rb, depth+1)
				}
			}
			return m
		}
	case *ssa.Phi:
		if depth > proveDepth+3 {
			p.cuts++
			return kAll
		}
		key := "pv" + x.Name() + x.Parent().String()
		if !p.enter(key) {
			return 0
		}
		defer p.leave(key)
		var m kset
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			de := p.desc(e)
			mm := p.kinds(de, pr, depth+1)
			if c, ok := edgeCond(pr, x.Block()); ok {
				for _, c := range flatConds(c) {
					mm &= p.told(de, c, depth+1)
				}
			}
			m |= mm
		}
		return m
	case *ssa.UnOp:
		// an element of what Call gives, a field of reflect.StructField
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				if c, ok := p.plain(a.X).(*ssa.Call); ok {
					id := callID(&c.Call)
					if id.pkg == "reflect" && (id.name == "Call" || id.name == "MapKeys") {
						return kAll &^ 1
					}
				}
			case *ssa.FieldAddr:
				if n := namedOf(deptr(a.X.Type())); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
					if n.Obj().Name() == "Method" && (fieldOf(a).Name() == "Func" || fieldOf(a).Name() == "Type") {
						return kbit(reflect.Func)
					}
					return kAll &^ 1
				}
			}
		}
	case *ssa.Field:
		if n := namedOf(x.X.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" {
			if nm := n.Underlying().(*types.Struct).Field(x.Field).Name(); n.Obj().Name() == "Method" && (nm == "Func" || nm == "Type") {
				return kbit(reflect.Func)
			}
			return kAll &^ 1
		}
	case *ssa.Parameter:
		return p.bornParam(x, func(a ssa.Value, at *ssa.BasicBlock) kset { return p.kinds(p.desc(a), at, depth+1) }, depth)
	}
	return kAll
}

// ownKey: the key looked up by MapIndex is one of the map's own.
func (p *prover) ownKey(c *ssa.Call) bool {
	if len(c.Call.Args) != 2 {
		return false
	}
	return p.keyOf(c.Call.Args[1], c.Call.Args[0], 0)
}

func (p *prover) keyOf(k, m ssa.Value, depth int) bool {
	k = p.plain(k)
	var keys ssa.Value
	switch x := k.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			keys = p.plain(ia.X)
		}
	case *ssa.Call:
		if id := callID(&x.Call); id.pkg == "reflect" && id.name == "Key" {
			return true
		}
	case *ssa.Parameter:
		// a helper that is given a map and one of its keys
		f := x.Parent()
		mp, ok := p.plain(m).(*ssa.Parameter)
		if !ok || depth > 3 || p.w.addrTaken[f] || token.IsExported(f.Name()) || len(p.w.callers[f]) == 0 {
			return false
		}
		for _, c := range p.w.callers[f] {
			ka, ma := argOfParam(c, x), argOfParam(c, mp)
			if ka == nil || ma == nil || !p.keyOf(ka, ma, depth+1) {
				return false
			}
		}
		return true
	}
	mk, ok := keys.(*ssa.Call)
	if !ok {
		return false
	}
	id := callID(&mk.Call)
	return id.pkg == "reflect" && id.name == "MapKeys" && p.sameDesc(p.desc(mk.Call.Args[0]), p.desc(m))
}

// told: what a condition says about the value.
func (p *prover) told(d rdesc, c condAt, depth int) kset {
	if ways := waysOf(c); ways != nil && p.within(depth) && outlives(d.root, c.v.(*ssa.Phi).Block()) {
		var u kset
		for _, w := range ways {
			m := kset(kAll)
			for _, o := range w {
				m &= p.told(d, o, depth+1)
			}
			u |= m
		}
		return u
	}
	switch x := c.v.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			break
		}
		eq := c.val == (x.Op == token.EQL)
		for _, s := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, isC := s[1].(*ssa.Const)
			if !isC {
				// two types compared
				if eq && (isReflectType(s[0].Type(), "Type")) {
					od := p.desc(s[0])
					if p.sameDesc(d, od) {
						od2 := p.desc(s[1])
						if od2.any && od2.path == "" {
							if mi, ok := od2.root.(*ssa.MakeInterface); ok {
								return p.kindsOfType(mi.X.Type())
							}
						}
						return kAll&^1 | kPtrNil
					}
				}
				continue
			}
			if k.Value == nil {
				// the value, or its type, compared with nil
				if isReflectType(s[0].Type(), "Type") {
					if p.sameDesc(d, p.desc(s[0])) {
						if eq {
							return 1
						}
						return kAll &^ 1
					}
					continue
				}
				if d.any && d.path == "" && types.IsInterface(s[0].Type()) && p.same(d.root, s[0]) {
					if eq {
						return 1
					}
					return kAll &^ 1
				}
				// the pointer inside
				if d.any && d.path == "" {
					if mi, ok := d.root.(*ssa.MakeInterface); ok && p.same(mi.X, s[0]) {
						if _, isPtr := s[0].Type().Underlying().(*types.Pointer); isPtr {
							if eq {
								return kPtrNil
							}
							return kAll &^ (kPtrNil | 1)
						}
					}
				}
				continue
			}
			call, ok := p.plain(s[0]).(*ssa.Call)
			if !ok || k.Value.Kind() != constant.Int {
				continue
			}
			if id := callID(&call.Call); id.pkg == "reflect" && id.name == "Kind" {
				var a ssa.Value
				if call.Call.IsInvoke() {
					a = call.Call.Value
				} else {
					a = call.Call.Args[0]
				}
				if p.sameDesc(d, p.desc(a)) {
					n, _ := constant.Int64Val(k.Value)
					m := kbit(reflect.Kind(n))
					if eq {
						return m
					}
					return kAll &^ m
				}
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			if d.any && d.path == "" && p.same(d.root, ta.X) {
				if c.val {
					return p.kindsOfType(ta.AssertedType) &^ 1
				}
				return kAll
			}
			// the asserted value itself
			if d.any && d.path == "" && c.val {
				if e, ok := d.root.(*ssa.Extract); ok && e.Tuple == x.Tuple && e.Index == 0 {
					return p.kindsOfType(ta.AssertedType) &^ 1
				}
			}
		}
		if call, ok := x.Tuple.(*ssa.Call); ok && p.within(depth) {
			if f := call.Call.StaticCallee(); f != nil && p.w.inModule(f) {
				return p.toldCall(d, f, call.Call.Args, 0, x.Index, c.val, depth)
			}
		}
	case *ssa.Call:
		id := callID(&x.Call)
		if id.pkg == "reflect" && len(x.Call.Args) == 1 && !x.Call.IsInvoke() {
			od := p.desc(x.Call.Args[0])
			if p.sameDesc(d, od) {
				switch id.name {
				case "IsValid":
					if c.val {
						return kAll &^ 1
					}
					return 1
				case "IsNil":
					if c.val {
						return kbit(reflect.Chan, reflect.Func, reflect.Map, reflect.Interface, reflect.Slice, reflect.UnsafePointer) | kPtrNil
					}
					return kAll &^ (kPtrNil | 1)
				case "CanInterface", "CanSet", "CanAddr":
					if c.val {
						return kAll &^ 1
					}
				}
			}
		}
		if f := x.Call.StaticCallee(); f != nil && p.w.inModule(f) && p.within(depth) {
			return p.toldCall(d, f, x.Call.Args, 0, 0, c.val, depth)
		}
	}
	return kAll
}

// toldCall: result idx of f(args) was val; what that says about the value.
func (p *prover) toldCall(d rdesc, f *ssa.Function, args []ssa.Value, shift, idx int, val bool, depth int) kset {
	m := kAll
	for i, a := range args {
		if i+shift >= len(f.Params) {
			break
		}
		pa := f.Params[i+shift]
		var inner rdesc
		switch {
		case d.any && types.IsInterface(pa.Type()) && p.same(p.plain(a), d.root):
			inner = rdesc{pa, d.path, true}
		case isReflectType(pa.Type(), "Value") || isReflectType(pa.Type(), "Type"):
			ad := p.desc(a)
			if !p.same(ad.root, d.root) || ad.any != d.any || !strings.HasPrefix(d.path, ad.path) {
				continue
			}
			inner = rdesc{pa, d.path[len(ad.path):], false}
		default:
			continue
		}
		tk := tkey{inner, f, idx, val}
		if u, ok := p.says[tk]; ok {
			m &= u
			continue
		}
		key := "tc" + f.String()
		if !p.enter(key) {
			continue
		}
		cuts := p.cuts
		var u kset
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(r.Results) {
				continue
			}
			u |= p.whenResult(inner, r.Results[idx], b, val, depth+1)
		}
		p.leave(key)
		if p.cuts == cuts {
			p.says[tk] = u
		}
		m &= u
	}
	return m
}

// whenResult: what the value can be at the end of b when v is val there.
func (p *prover) whenResult(d rdesc, v ssa.Value, b *ssa.BasicBlock, val bool, depth int) kset {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		if constant.BoolVal(k.Value) != val {
			return 0
		}
		return p.kindsLocal(d, b, depth)
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
		var u kset
		for i, e := range ph.Edges {
			pr := b.Preds[i]
			m := p.whenResult(d, e, pr, val, depth)
			if c, ok := edgeCond(pr, b); ok {
				for _, c := range flatConds(c) {
					m &= p.told(d, c, depth)
				}
			}
			u |= m
		}
		return u
	}
	m := p.kindsLocal(d, b, depth)
	for _, c := range flatConds(condAt{v, val}) {
		m &= p.told(d, c, depth)
	}
	return m
}
