package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = check{
		run: runC09,
		explanation: "Every struct the grammar fills is found from the parser's type arguments and field tags; fields the parser captures are the parsed query, the other fields are what the engine remembers. " +
			"Every assignment, element update, in-place list operation and map update in the module is traced to the object it changes: parsed parts may only change in a node still being parsed or in a copy made by the same code, and lists, maps and pointees they share with copies never. " +
			"Every value stored in a remembering field is traced backwards, through calls and through fields of the formatter, to what it is computed from: parsed fields and constants only. " +
			"Each function that uses a remembered value is interpreted twice over one symbolic node, once with nothing remembered and once with what the first run left: it must give the same result, and hand the same values on, both times.",
		assumptions: []string{"The function object a call site keeps is exempt from the backward trace by design: it holds the call's state, and C16 decides that there is one per call site.", "Custom types implementing the formatter's string protocol do not depend on the scope."},
	}
}

// ---------------------------------------------------------------------------
// the fields of parsed nodes
// ---------------------------------------------------------------------------

type astField struct {
	owner  *types.Named
	field  *types.Var
	parsed bool // else remembered between evaluations
}

type astWorld struct {
	w      *World
	fields map[*types.Var]*astField
	list   []*astField
	now    map[ssa.Value]int
	copies map[ssa.Value]int
	runs   []*memoRun
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func newAstWorld(w *World) *astWorld {
	a := &astWorld{w: w, fields: map[*types.Var]*astField{}, now: map[ssa.Value]int{}, copies: map[ssa.Value]int{}}
	var names []*types.Named
	for n := range w.astTypes() {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
	for _, n := range names {
		cap := map[*types.Var]bool{}
		for _, c := range captures(n) {
			cap[c.field] = true
		}
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isSyncType(f.Type()) {
				continue
			}
			pos := false
			if tn := namedOf(f.Type()); tn != nil && tn.Obj().Pkg() != nil && strings.Contains(tn.Obj().Pkg().Path(), "participle") {
				pos = true
			}
			af := &astField{owner: n, field: f, parsed: cap[f] || pos}
			a.fields[f] = af
			a.list = append(a.list, af)
		}
	}
	return a
}

func (a *astWorld) isNode(t types.Type) bool {
	n := namedOf(t)
	return n != nil && a.w.astTypes()[n]
}

func (f *astField) String() string { return f.owner.Obj().Name() + "." + f.field.Name() }

// parsedNow: v is a node the parser has just made, or part of one, and nobody else has seen it.
func (a *astWorld) parsedNow(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	switch a.now[v] {
	case 1:
		return true // in progress: a recursive parameter
	case 2:
		return true
	case 3:
		return false
	}
	a.now[v] = 1
	ok := true
	os := a.w.origins(v, false)
	for _, o := range os {
		if !a.parsedNow1(o, depth) {
			ok = false
		}
	}
	if len(os) == 0 {
		ok = false
	}
	if ok {
		a.now[v] = 2
	} else {
		a.now[v] = 3
	}
	return ok
}

func (a *astWorld) parsedNow1(o ssa.Value, depth int) bool {
	switch x := o.(type) {
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && a.parses(&c.Call)
	case *ssa.Call:
		return a.parses(&x.Call)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch b := x.X.(type) {
		case *ssa.FieldAddr:
			return a.isNode(b.X.Type()) && a.parsedNow(b.X, depth+1)
		case *ssa.IndexAddr:
			return a.parsedNow(b.X, depth+1)
		}
	case *ssa.Parameter:
		f := x.Parent()
		a.w.buildSites()
		if len(a.w.sites[f]) == 0 || a.w.addrTaken[f] {
			return false
		}
		idx := paramIndex(x)
		for _, s := range a.w.sites[f] {
			arg := argFor(s.Common(), f, idx)
			if arg == nil || !a.parsedNow(arg, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// parses: the call runs the generated parser.
func (a *astWorld) parses(c *ssa.CallCommon) bool {
	s := c.StaticCallee()
	if s == nil {
		return false
	}
	id := funcID(s)
	if s.Origin() != nil {
		id = funcID(s.Origin())
	}
	return strings.Contains(id.pkg, "alecthomas/participle") && strings.HasPrefix(s.Name(), "Parse")
}

// ownCopy: v points to a node this code made itself (a copy of another, or a new one).
func (a *astWorld) ownCopy(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch a.copies[v] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	a.copies[v] = 1
	ok := true
	os := a.w.origins(v, true)
	for _, o := range os {
		switch x := o.(type) {
		case *ssa.Alloc:
		case *ssa.Const:
			ok = ok && x.IsNil()
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || !a.w.inMod[g] || g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 {
				ok = false
				break
			}
			eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
				if r, isR := i.(*ssa.Return); isR && !a.ownCopy(r.Results[0], depth+1) {
					ok = false
				}
			})
		default:
			ok = false
		}
	}
	if len(os) == 0 {
		ok = false
	}
	a.copies[v] = 3
	if ok {
		a.copies[v] = 2
	}
	return ok
}

func runC09(w *World, r *Report) {
	a := newAstWorld(w)
	r.Rule("R1-parsed", "a field filled by the parser is only assigned in a node still being parsed, or in a copy made by the same code", 40)
	r.Rule("R2-shared", "lists, maps and pointees reached from a parsed node are never changed in place", 17)
	r.Rule("R3-source", "what a node remembers between evaluations is computed from the parsed node alone", 4)
	r.Rule("R4-same", "an evaluation that uses a remembered value has the same outcome as the one that computed it", 3)
	r.Rule("R5-definition", "a stored query or expression, once made, is not changed by being called, formatted or serialized", 3)
	a.ruleDefinitions(r)
	a.ruleSame(r)
	a.ruleParsed(r)
	a.ruleShared(r)
	a.ruleSource(r)
}

// ---------------------------------------------------------------------------
// R1
// ---------------------------------------------------------------------------

// rootField: the node field an address is inside of, and the pointer to that node.
func (a *astWorld) rootField(addr ssa.Value) (*astField, *ssa.FieldAddr) {
	for i := 0; i < 20; i++ {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			if f := a.fields[fieldOf(x)]; f != nil {
				return f, x
			}
			addr = x.X
		case *ssa.IndexAddr:
			if _, isArr := deptr(x.X.Type()).Underlying().(*types.Array); !isArr {
				return nil, nil
			}
			addr = x.X
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (a *astWorld) ruleParsed(r *Report) {
	w := a.w
	bad := map[*astField]string{}
	pos := map[*astField]string{}
	n := map[*astField]int{}
	var whole []string
	var wpos string
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			if af, fa := a.rootField(s.Addr); af != nil && af.parsed {
				n[af]++
				if a.ownCopy(fa.X, 0) || a.parsedNow(fa.X, 0) {
					return
				}
				bad[af] = fmt.Sprintf("assigned by %s at %s to a node which may already be in use", w.Name(f), w.instrPos(i))
				pos[af] = w.instrPos(i)
				return
			}
			// *node = value
			if a.isNode(s.Addr.Type()) && namedOf(deptr(s.Addr.Type())) != nil {
				if _, isPP := deptr(s.Addr.Type()).Underlying().(*types.Pointer); isPP {
					return
				}
				if _, isAlloc := s.Addr.(*ssa.Alloc); isAlloc || a.ownCopy(s.Addr, 0) {
					return
				}
				whole = append(whole, fmt.Sprintf("%s overwrites a whole node at %s", w.Name(f), w.instrPos(i)))
				wpos = w.instrPos(i)
			}
		})
	}
	for _, af := range a.list {
		if !af.parsed {
			continue
		}
		p := w.Pos(af.field.Pos())
		if bad[af] != "" {
			p = pos[af]
		}
		r.Ob("R1-parsed", af.String(), p, bad[af] == "", "%s: %d assignments outside the parser, %s", af, n[af], orStr(bad[af], "all in copies or unfinished nodes"))
	}
	r.Ob("R1-parsed", "whole nodes", wpos, len(whole) == 0, "%s", orStr(strings.Join(whole, "; "), "no node is overwritten as a whole"))
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// ---------------------------------------------------------------------------
// R2
// ---------------------------------------------------------------------------

// mutable content: lists, maps, and pointers to values which are not nodes themselves
func (a *astWorld) hasContent(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		return !a.isNode(x)
	}
	return false
}

var mutators = map[string]func(name string) bool{
	"sort": func(n string) bool {
		return !strings.HasPrefix(n, "Search") && !strings.HasSuffix(n, "AreSorted") && n != "IsSorted" && n != "SliceIsSorted" && n != "Find"
	},
	"slices": func(n string) bool {
		for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace"} {
			if strings.HasPrefix(n, p) && n != "Sorted" && n != "SortedFunc" && n != "SortedStableFunc" {
				return n != "CompareFunc" && n != "Compare"
			}
		}
		return false
	},
	"maps":      func(n string) bool { return n == "DeleteFunc" || n == "Copy" || n == "Insert" },
	"math/rand": func(n string) bool { return false },
}

// shared values of one field and how they are changed
func (a *astWorld) ruleShared(r *Report) {
	w := a.w
	for _, af := range a.list {
		if !a.hasContent(af.field.Type()) {
			continue
		}
		var seeds []ssa.Value
		for _, l := range w.fieldLoads[af.field] {
			if u, ok := l.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && a.parsedNow(fa.X, 0) {
					continue
				}
			}
			seeds = append(seeds, l)
		}
		// the address of the field itself handed on
		for _, fa := range w.fieldAddrs[af.field] {
			if a.ownCopy(fa.X, 0) || a.parsedNow(fa.X, 0) {
				continue
			}
			for _, ref := range *fa.Referrers() {
				switch x := ref.(type) {
				case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
				case *ssa.Store:
					if x.Val == ssa.Value(fa) {
						seeds = append(seeds, fa)
					}
				default:
					seeds = append(seeds, fa)
				}
			}
		}
		resliced := map[ssa.Value]bool{}
		set := w.flow(seeds, flowOpts{returns: true, params: true, fields: true, prune: func(v ssa.Value) bool {
			// another node's field is that field's own concern
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && a.fields[fieldOf(fa)] != nil && fieldOf(fa) != af.field {
					return true
				}
			}
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
				return false
			}
			return true
		}, extra: func(v ssa.Value, ref ssa.Instruction, add func(ssa.Value)) {
			switch x := ref.(type) {
			case *ssa.Slice:
				if x.X == v {
					if x.Max == nil && x.High != nil || resliced[v] {
						resliced[x] = true
					}
					add(x)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
					add(x)
				}
			}
		}})
		msg := ""
		var at string
		uses := 0
		for v := range set {
			if v.Referrers() == nil {
				continue
			}
			for _, ref := range *v.Referrers() {
				uses++
				m := a.changes(af, v, ref)
				if m == "" {
					continue
				}
				if !af.parsed && a.stillBuilding(af, v, ref) {
					continue
				}
				s := fmt.Sprintf("%s in %s at %s", m, w.Name(ref.Parent()), w.instrPos(ref))
				if msg == "" || s < msg {
					msg, at = s, w.instrPos(ref)
				}
			}
		}
		if msg == "" {
			at = w.Pos(af.field.Pos())
		}
		r.Ob("R2-shared", af.String(), at, msg == "", "%s: %d values, %d uses, %s", af, len(set), uses, orStr(msg, "none changes it"))
	}
}

// changes says how an instruction changes the content of v.
func (a *astWorld) changes(af *astField, v ssa.Value, ref ssa.Instruction) string {
	switch x := ref.(type) {
	case *ssa.Store:
		if x.Addr == v {
			if _, isFA := v.(*ssa.FieldAddr); isFA {
				return "assigned through its address"
			}
			return "what it points to is assigned"
		}
	case *ssa.IndexAddr:
		if x.X != v || x.Referrers() == nil {
			return ""
		}
		for _, rr := range *x.Referrers() {
			switch y := rr.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(x) {
					return "an element is assigned"
				}
			}
		}
	case *ssa.MapUpdate:
		if x.Map == v {
			return "an entry is assigned"
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				return "entries are removed"
			case "copy":
				if c.Args[0] == v {
					return "its elements are overwritten"
				}
			case "append":
				if c.Args[0] == v {
					return "it is appended to in place"
				}
			}
			return ""
		}
		if s := c.StaticCallee(); s != nil && !a.w.inMod[s] {
			id := funcID(s)
			if s.Origin() != nil {
				id = funcID(s.Origin())
			}
			if mu := mutators[id.pkg]; mu != nil && len(c.Args) > 0 && c.Args[0] == v && mu(id.name) {
				return "it is reordered or changed by " + id.pkg + "." + id.name
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// R3
// ---------------------------------------------------------------------------

type callFrame struct {
	call ssa.CallInstruction
	fn   *ssa.Function
	up   *callFrame
	n    int
}

// tracer follows a value backwards to everything it is computed from.
type tracer struct {
	a    *astWorld
	seen map[string]bool
	bad  string
	n    int
}

func (t *tracer) fail(format string, args ...any) {
	if t.bad == "" {
		t.bad = fmt.Sprintf(format, args...)
	}
}

func (t *tracer) walk(v ssa.Value, c *callFrame) {
	if v == nil || t.bad != "" {
		return
	}
	k := fmt.Sprintf("%p %p", v, c)
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	t.n++
	w := t.a.w
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		t.contents(v, c, 0)
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			t.walk(b, c)
		}
	case *ssa.FreeVar:
		for _, b := range w.bindings(x) {
			t.walk(b, nil)
		}
	case *ssa.TypeAssert:
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			t.walk(x.X, c)
		} else {
			t.walkAs(x.X, c, x.AssertedType, map[string]bool{})
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t.loadFrom(x.X, c)
			return
		}
		if x.Op == token.ARROW {
			t.fail("what is received at %s", w.instrPos(x))
			return
		}
		t.walk(x.X, c)
	case *ssa.Field:
		t.walk(x.X, c)
	case *ssa.FieldAddr:
		if t.a.fields[fieldOf(x)] != nil {
			t.walk(x.X, c)
			return
		}
		t.fieldContent(x, c)
	case *ssa.IndexAddr:
		t.walk(x.X, c)
	case *ssa.Parameter:
		t.param(x, c)
	case *ssa.Call:
		t.call(x, -1, c)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			t.call(call, x.Index, c)
			return
		}
		t.walk(x.Tuple, c)
	case *ssa.Phi:
		for k, e := range x.Edges {
			t.walk(e, c)
			p := x.Block().Preds[k]
			if !isHeader(x.Block()) && len(p.Instrs) > 0 {
				last := p.Instrs[len(p.Instrs)-1]
				if br, ok := last.(*ssa.If); ok {
					t.walk(br.Cond, c)
				}
				for _, cv := range controls(last) {
					if ci, ok := cv.(ssa.Instruction); ok && ci.Block() != nil && x.Block().Idom() != nil && x.Block().Idom().Dominates(ci.Block()) {
						t.walk(cv, c)
					}
				}
			}
		}
	case *ssa.Select:
		t.fail("what is received at %s", w.instrPos(x))
	default:
		in, ok := v.(ssa.Instruction)
		if !ok {
			t.fail("%s", v)
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				t.walk(*op, c)
			}
		}
	}
}

// walkAs follows an interface value of which only those of one type matter.
func (t *tracer) walkAs(v ssa.Value, c *callFrame, T types.Type, seen map[string]bool) {
	k := fmt.Sprintf("%p %p", v, c)
	if seen[k] || t.bad != "" {
		return
	}
	seen[k] = true
	if i, ok := v.Type().Underlying().(*types.Interface); ok && !types.Implements(T, i) {
		return
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if types.Identical(x.X.Type(), T) {
			t.walk(x.X, c)
		}
	case *ssa.ChangeInterface:
		t.walkAs(x.X, c, T, seen)
	case *ssa.ChangeType:
		t.walkAs(x.X, c, T, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.walkAs(e, c, T, seen)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			t.walkAs(ta, c, T, seen)
			return
		}
		t.walk(v, c)
	case *ssa.TypeAssert:
		t.walkAs(x.X, c, T, seen)
	case *ssa.Parameter:
		f, idx := x.Parent(), paramIndex(x)
		if c != nil && c.fn == f {
			if arg := argFor(c.call.Common(), f, idx); arg != nil {
				t.walkAs(arg, c.up, T, seen)
				return
			}
		}
		t.a.w.buildSites()
		sites := t.a.w.sites[f]
		if len(sites) == 0 || t.root(f) {
			t.walk(v, c)
			return
		}
		for _, s := range sites {
			if t.a.foreign(s) {
				continue
			}
			if arg := argFor(s.Common(), f, idx); arg != nil {
				t.walkAs(arg, nil, T, seen)
			}
		}
	default:
		t.walk(v, c)
	}
}

func (t *tracer) loadFrom(addr ssa.Value, c *callFrame) {
	w := t.a.w
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if t.a.fields[fieldOf(x)] != nil {
			t.walk(x.X, c)
			return
		}
		t.fieldContent(x, c)
	case *ssa.IndexAddr:
		t.walk(x.X, c)
	default:
		if cell := w.cellOf(addr); cell != nil {
			if _, ok := cell.(*ssa.Alloc); ok {
				for _, al := range w.cellAliases(cell) {
					t.contents(al, c, 0)
				}
				return
			}
		}
		t.walk(addr, c)
	}
}

// fieldContent: what any code of the module puts in a field.
func (t *tracer) fieldContent(fa *ssa.FieldAddr, c *callFrame) {
	w := t.a.w
	f := fieldOf(fa)
	if n := namedOf(fa.X.Type()); n == nil || n.Obj().Pkg() == nil || !w.isModPkg(n.Obj().Pkg().Path()) {
		t.walk(fa.X, c)
		return
	}
	for _, s := range w.fieldStores[f] {
		if c != nil && c.fn == s.Parent() {
			t.walk(s.Val, c)
		} else {
			t.walk(s.Val, nil)
		}
	}
	// and in what the field holds
	for _, l := range w.fieldLoads[f] {
		t.contents(l, nil, 1)
	}
}

// contents: what is put in a variable or container by the instructions using it.
func (t *tracer) contents(v ssa.Value, c *callFrame, depth int) {
	if v.Referrers() == nil || depth > 4 {
		return
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == v {
				t.walk(x.Val, c)
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				t.walk(x.Key, c)
				t.walk(x.Value, c)
			}
		case *ssa.FieldAddr:
			t.contents(x, c, depth+1)
		case *ssa.IndexAddr:
			t.contents(x, c, depth+1)
		case *ssa.Slice:
			t.contents(x, c, depth+1)
		case *ssa.Call:
			// code outside the module may store its other arguments (a string builder)
			if s := x.Call.StaticCallee(); s != nil && !t.a.w.inMod[s] && len(x.Call.Args) > 0 && x.Call.Args[0] == v && !isSyncType(v.Type()) {
				for _, arg := range x.Call.Args[1:] {
					t.walk(arg, c)
				}
			}
		}
	}
}

func (t *tracer) param(p *ssa.Parameter, c *callFrame) {
	w := t.a.w
	f := p.Parent()
	idx := paramIndex(p)
	if c != nil && c.fn == f {
		arg := argFor(c.call.Common(), f, idx)
		if arg != nil {
			t.walk(arg, c.up)
			return
		}
	}
	if t.a.isNode(p.Type()) {
		return
	}
	if w.isScopeType(p.Type()) || isContext(p.Type()) {
		t.fail("%s of %s", p.Name(), w.Name(f))
		return
	}
	w.buildSites()
	sites := w.sites[f]
	if len(sites) == 0 || c == nil && t.root(f) {
		t.fail("argument %s of %s", p.Name(), w.Name(f))
		return
	}
	for _, s := range sites {
		if t.a.foreign(s) {
			continue
		}
		if arg := argFor(s.Common(), f, idx); arg != nil {
			t.walk(arg, nil)
		}
	}
}

// foreign: the call is only made for a value, given as an interface, of a type which is
// no part of a parsed query: formatting a node does not get there.
func (a *astWorld) foreign(site ssa.CallInstruction) bool {
	i, ok := site.(ssa.Instruction)
	if !ok {
		return false
	}
	b := i.Block()
	for _, d := range b.Parent().Blocks {
		if len(d.Succs) != 2 || !d.Dominates(b) {
			continue
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || !(d.Succs[0] == b || len(d.Succs[0].Preds) == 1 && d.Succs[0].Dominates(b)) {
			continue
		}
		ex, ok := br.Cond.(*ssa.Extract)
		if !ok {
			continue
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || ex.Index != 1 {
			continue
		}
		if _, isP := ta.X.(*ssa.Parameter); isP && a.foreignType(ta.AssertedType) {
			return true
		}
	}
	return false
}

func (a *astWorld) foreignType(T types.Type) bool {
	if i, ok := T.Underlying().(*types.Interface); ok {
		for n := range a.w.astTypes() {
			if types.Implements(types.NewPointer(n), i) || types.Implements(n, i) {
				return false
			}
		}
		return true
	}
	n := namedOf(T)
	return n != nil && !a.isNode(T) && n.Obj().Pkg() != nil && a.w.isModPkg(n.Obj().Pkg().Path())
}

// root: an evaluation step, whose arguments are the circumstances of one evaluation
func (t *tracer) root(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || !t.a.isNode(r.Type()) {
		return false
	}
	return true
}

func (w *World) isScopeType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Scope" && n.Obj().Pkg() != nil && w.isModPkg(n.Obj().Pkg().Path())
}

func (t *tracer) call(x *ssa.Call, idx int, c *callFrame) {
	w := t.a.w
	cc := &x.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		_ = b
		for _, a := range cc.Args {
			t.walk(a, c)
		}
		return
	}
	if cc.IsInvoke() && (w.isScopeType(cc.Value.Type()) || isContext(cc.Value.Type())) {
		t.fail("the result of %s at %s", cc.Method.Name(), w.instrPos(x))
		return
	}
	targets := w.callees(cc, true)
	inMod := 0
	for _, g := range targets {
		if !w.inMod[g] || len(g.Blocks) == 0 {
			continue
		}
		inMod++
		if r := g.Signature.Recv(); r != nil && w.isScopeType(r.Type()) {
			t.fail("the result of %s at %s", w.Name(g), w.instrPos(x))
			return
		}
		nc := &callFrame{call: x, fn: g, up: c, n: 1}
		if c != nil {
			nc.n = c.n + 1
			for u := c; u != nil; u = u.up {
				if u.fn == g {
					nc = nil
					break
				}
			}
		}
		if nc != nil && nc.n > 8 {
			nc = nil
		}
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			r, ok := i.(*ssa.Return)
			if !ok {
				return
			}
			for k, res := range r.Results {
				if idx < 0 || k == idx {
					t.walk(res, nc)
				}
			}
			// which of the results it is
			for _, cv := range controls(r) {
				t.walk(cv, nc)
			}
		})
	}
	if inMod > 0 {
		return
	}
	if cc.IsInvoke() {
		t.walk(cc.Value, c)
	} else if cc.StaticCallee() == nil {
		t.fail("the result of a call through a variable at %s", w.instrPos(x))
		return
	}
	for _, a := range cc.Args {
		t.walk(a, c)
	}
}

// controls: the conditions that decide whether an instruction runs.
func controls(i ssa.Instruction) []ssa.Value {
	f := i.Parent()
	var out []ssa.Value
	for _, b := range f.Blocks {
		if len(b.Succs) != 2 || !b.Dominates(i.Block()) || b == i.Block() {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, s := range b.Succs {
			if s != i.Block() && !reachableFrom(s, true)[i.Block()] {
				out = append(out, br.Cond)
				break
			}
		}
	}
	return out
}

func (a *astWorld) isFunctionObject(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "FunctionInterface"
}

func (a *astWorld) ruleSource(r *Report) {
	w := a.w
	for _, af := range a.list {
		if af.parsed || a.isFunctionObject(af.field.Type()) {
			continue
		}
		check := func(i ssa.Instruction, vals ...ssa.Value) {
			t := &tracer{a: a, seen: map[string]bool{}}
			for _, v := range vals {
				t.walk(v, nil)
			}
			what := "the value"
			if t.bad == "" {
				for _, cv := range controls(i) {
					t.walk(cv, nil)
				}
				what = "whether it is remembered"
			}
			r.Ob("R3-source", fmt.Sprintf("%s in %s", af, w.Name(i.Parent())), w.instrPos(i), t.bad == "",
				"%s set in %s: %s", af, w.Name(i.Parent()), map[bool]string{
					true:  fmt.Sprintf("computed from the node alone (%d values followed)", t.n),
					false: what + " depends on " + t.bad + ", which may differ the next time"}[t.bad == ""])
		}
		for _, s := range w.fieldStores[af.field] {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || isNilConst(s.Val) || a.parsedNow(fa.X, 0) || a.ownCopy(fa.X, 0) {
				continue
			}
			check(s, s.Val)
		}
		if _, isMap := af.field.Type().Underlying().(*types.Map); isMap {
			for _, l := range w.fieldLoads[af.field] {
				if l.Referrers() == nil {
					continue
				}
				for _, ref := range *l.Referrers() {
					if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == l {
						check(mu, mu.Key, mu.Value)
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// R4
// ---------------------------------------------------------------------------

type memoRun struct {
	f             *ssa.Function
	first, second map[ssa.Instruction]bool
	why           string
	variants      int
}

// memoFns: the functions that use what a node they are given remembers.
func (a *astWorld) memoFns() map[*ssa.Function]map[int]bool {
	w := a.w
	out := map[*ssa.Function]map[int]bool{}
	for _, af := range a.list {
		if af.parsed {
			continue
		}
		for _, l := range w.fieldLoads[af.field] {
			u, ok := l.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, o := range w.origins(fa.X, false) {
				p, ok := o.(*ssa.Parameter)
				if !ok || !a.isNode(p.Type()) {
					continue
				}
				if out[p.Parent()] == nil {
					out[p.Parent()] = map[int]bool{}
				}
				out[p.Parent()][paramIndex(p)] = true
			}
		}
	}
	return out
}

func (a *astWorld) twice(f *ssa.Function, idx int, touch map[*ssa.Function]bool) *memoRun {
	w := a.w
	m := &memoRun{f: f, first: map[ssa.Instruction]bool{}, second: map[ssa.Instruction]bool{}}
	n := namedOf(f.Params[idx].Type())
	var ptrs []*astField
	var memos []*astField
	for _, af := range a.list {
		if af.owner != n {
			continue
		}
		if !af.parsed {
			memos = append(memos, af)
			continue
		}
		if _, ok := af.field.Type().Underlying().(*types.Pointer); ok {
			ptrs = append(ptrs, af)
		}
	}
	for v := -1; v < len(ptrs); v++ {
		in := newInterp(w)
		self := in.param("self", f.Params[idx].Type())
		addr := func(af *astField) *term {
			return in.mk(term{op: "fa", str: af.field.Name(), fld: af.field, args: []*term{self}})
		}
		st := newState()
		for _, af := range memos {
			st.heap[addr(af).key] = tset{in.zero(af.field.Type())}
		}
		name := "any node"
		if v >= 0 {
			name = "a node with " + ptrs[v].field.Name()
			for k, af := range ptrs {
				if k != v {
					st.heap[addr(af).key] = tset{in.zero(af.field.Type())}
				}
			}
			set := ptrs[v].field
			in.assume = func(t *term) *term {
				if t.op == "bin" && t.str == "==" && len(t.args) == 2 {
					for k := range t.args {
						if t.args[k].op == "field" && t.args[k].fld == set && t.args[1-k].op == "nil" {
							return in.boolean(false)
						}
					}
				}
				return nil
			}
		}
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return g != nil && !touch[g] }
		var args []tset
		for i, p := range f.Params {
			if i == idx {
				args = append(args, tset{self})
			} else {
				args = append(args, tset{in.param(p.Name(), p.Type())})
			}
		}
		assume := in.assume
		r1, out := in.run(f, args, st)
		if in.failed != "" {
			m.why = "not analysed: " + in.failed
			return m
		}
		if out == nil || out.heap == nil {
			continue
		}
		m.variants++
		calls := map[string]*aevent{}
		for k, e := range in.events {
			m.first[e.in] = true
			if e.kind == "call" {
				calls[k] = e
			}
		}
		after := map[*astField]tset{}
		for _, af := range memos {
			after[af] = out.heap[addr(af).key]
		}
		// again, with one remembered value at a time
		for _, pick := range memos {
			for _, val := range append(tset{}, after[pick]...) {
				if val.op == "nil" || val.op == "zero" || val.key == in.zero(pick.field.Type()).key {
					continue
				}
				st2 := newState()
				for k, v := range out.heap {
					st2.heap[k] = v
				}
				for _, o := range memos {
					var some tset
					for _, x := range after[o] {
						if x.op != "nil" {
							some = append(some, x)
						}
					}
					if len(some) > 0 {
						st2.heap[addr(o).key] = some
					}
				}
				st2.heap[addr(pick).key] = tset{val}
				there := map[string]bool{}
				for _, o := range memos {
					for _, x := range st2.heap[addr(o).key] {
						there[x.key] = x.op != "nil" && isPtrLike(o.field.Type())
					}
				}
				in.events, in.order, in.memo = map[string]*aevent{}, nil, map[string]*callResult{}
				in.assume = func(t *term) *term {
					if t.op == "bin" && t.str == "==" && len(t.args) == 2 {
						for k := range t.args {
							if there[t.args[k].key] && t.args[1-k].op == "nil" {
								return in.boolean(false)
							}
						}
					}
					if assume != nil {
						return assume(t)
					}
					return nil
				}
				again := name + " remembering " + pick.field.Name()
				r2, out2 := in.run(f, args, st2)
				if in.failed != "" || out2 == nil || out2.heap == nil {
					m.why = again + ": not analysed the second time " + in.failed
					return m
				}
				for k, e := range in.events {
					m.second[e.in] = true
					if e.kind != "call" || e.name.pkg == "sync" {
						continue
					}
					was := calls[k]
					if was == nil {
						continue
					}
					for j := range e.args {
						if j < len(was.args) && !within(e.args[j], was.args[j]) {
							m.why = fmt.Sprintf("%s: %s gets %s at %s when it is evaluated again, %s the first time", again, orStr(e.name.name, "the call"), e.args[j], w.instrPos(e.in), was.args[j])
						}
					}
				}
				for j := range r2 {
					if j < len(r1) && !within(r2[j], r1[j]) {
						m.why = fmt.Sprintf("%s: the result is %s when it is evaluated again, %s the first time", again, r2[j], r1[j])
					}
				}
				for _, af := range memos {
					now := out2.heap[addr(af).key]
					if !within(now, after[af]) {
						m.why = fmt.Sprintf("%s: %s becomes %s when it is evaluated again, it was %s", again, af, now, after[af])
					}
				}
			}
		}
		if m.why != "" {
			return m
		}
	}
	return m
}

// within: every value a may be is one that b may be.
func within(a, b tset) bool {
	for _, x := range a {
		if !coveredBy(x, b) {
			return false
		}
	}
	return true
}

func coveredBy(x *term, b []*term) bool {
	if x.op == "or" {
		for _, y := range x.args {
			if !coveredBy(y, b) {
				return false
			}
		}
		return true
	}
	if ofNothing(x) {
		return true
	}
	for _, y := range b {
		if y.op == "⊤" || x.key == y.key || x.op == "alloc" && y.op == "alloc" && types.Identical(x.typ, y.typ) {
			return true
		}
		if y.op == "or" && coveredBy(x, y.args) {
			return true
		}
		if x.op != y.op || x.str != y.str || x.fld != y.fld || len(x.args) != len(y.args) || len(x.args) == 0 {
			continue
		}
		if x.typ != nil && y.typ != nil && !types.Identical(x.typ, y.typ) {
			continue
		}
		ok := true
		for i := range x.args {
			if !coveredBy(x.args[i], []*term{y.args[i]}) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ofNothing: there is no such value, it is read out of nil.
func ofNothing(x *term) bool {
	switch x.op {
	case "load", "elem", "mapkey", "mapval", "range", "next", "iface", "field", "lookup":
		if len(x.args) > 0 {
			if x.op != "iface" && x.args[0].op == "nil" {
				return true
			}
			return ofNothing(x.args[0])
		}
	case "call", "list", "bin":
		for _, y := range x.args {
			if ofNothing(y) {
				return true
			}
		}
	}
	return false
}

func (a *astWorld) ruleSame(r *Report) {
	w := a.w
	fns := a.memoFns()
	touch := map[*ssa.Function]bool{}
	for _, af := range a.list {
		if af.parsed {
			continue
		}
		for _, fa := range w.fieldAddrs[af.field] {
			touch[fa.Parent()] = true
		}
	}
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return w.Name(list[i]) < w.Name(list[j]) })
	type job struct {
		f   *ssa.Function
		idx int
	}
	done := map[job]bool{}
	var decide func(f *ssa.Function, idx, depth int)
	decide = func(f *ssa.Function, idx, depth int) {
		if done[job{f, idx}] {
			return
		}
		done[job{f, idx}] = true
		m := a.twice(f, idx, touch)
		// A part of the evaluation, which some other function calls once it has looked
		// for what is remembered: what is decided is that one.
		if m.why != "" && depth < 3 {
			if up := a.callersOfPart(f, idx); len(up) > 0 {
				for _, u := range up {
					decide(u.Parent(), paramIndex(u), depth+1)
				}
				return
			}
		}
		{
			a.runs = append(a.runs, m)
			r.Ob("R4-same", w.Name(f), w.Pos(f.Pos()), m.why == "", "%s: %s", w.Name(f), orStr(m.why, fmt.Sprintf("evaluated twice for %d kinds of node with the same outcome", m.variants)))
		}
	}
	for _, f := range list {
		for idx := range fns[f] {
			decide(f, idx, 0)
		}
	}
}

// callersOfPart: the node parameters of the functions that call f, when each call is known
// and hands on the node the caller was given.
func (a *astWorld) callersOfPart(f *ssa.Function, idx int) []*ssa.Parameter {
	w := a.w
	if !w.directOnly(f) || f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
		return nil
	}
	var out []*ssa.Parameter
	for _, ci := range w.callers[f] {
		args := ci.Common().Args
		if idx >= len(args) {
			return nil
		}
		os := w.origins(args[idx], false)
		if len(os) != 1 {
			return nil
		}
		p, ok := os[0].(*ssa.Parameter)
		if !ok || !a.isNode(p.Type()) {
			return nil
		}
		out = append(out, p)
	}
	return out
}

// stillBuilding: a remembered container is only changed by the evaluation which computes
// it: that code is not reached once it is there.
func (a *astWorld) stillBuilding(af *astField, v ssa.Value, ref ssa.Instruction) bool {
	seen := false
	for _, m := range a.runs {
		if m.second[ref] {
			return false
		}
		if m.first[ref] {
			seen = true
		}
	}
	return seen
}

// ---------------------------------------------------------------------------
// R5
// ---------------------------------------------------------------------------

// A stored definition holds parts of the parsed query: calling it does not change it.
func (a *astWorld) ruleDefinitions(r *Report) {
	w := a.w
	var list []*types.Named
	for n := range w.valueTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || a.isNode(n) || w.lazyType(n) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if w.holdsAST(st.Field(i).Type()) {
				list = append(list, n)
				break
			}
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, n := range list {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isSyncType(f.Type()) {
				continue
			}
			bad, at, k := "", w.Pos(f.Pos()), 0
			for _, s := range w.fieldStores[f] {
				k++
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && a.ownCopy(fa.X, 0) {
					continue
				}
				bad, at = fmt.Sprintf("assigned by %s after it was made", w.Name(s.Parent())), w.instrPos(s)
			}
			r.Ob("R5-definition", n.Obj().Name()+"."+f.Name(), at, bad == "", "%s.%s: %d assignments, %s", n.Obj().Name(), f.Name(), k, orStr(bad, "all while it is made"))
		}
	}
}
