package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = check{run: runC17,
		explanation: "The grammar is read from the struct tags: for each kind of node, every combination of parts it can have, and the tokens each comes with. For each of them a forward must analysis of the visitor, with the branches pruned that the combination decides, shows that on every way through, each part and token is written, in the order of the grammar and without losing anything of the text. The functions that try several layouts are shown to keep one of them entirely; what visiting collects is shown to be carried over; what the text goes through afterwards is shown to remove blanks only.",
		assumptions: []string{"participle fills in the fields as their tags say", "strconv, fmt and strings of the standard library", "the text of one token does not run into the next one (spacing and line length are not decided)"}}
}

type fullKey struct {
	f *ssa.Function
	i int
	t string
}

type fmtWorld struct {
	w        *World
	vis      *types.Named
	frags    *types.Var
	gram     map[*types.Named]bool
	formsOf  map[*types.Named][]*gform
	absent   map[*types.Var]bool // never there: its tokens are dropped before parsing
	carried  map[*types.Var]bool // nodes kept in a field that is not part of the grammar
	vocab    map[string]bool
	rules    map[string]string
	litOf    map[string]ctxVal
	fulls    map[fullKey]*bool
	trials   map[*ssa.Function]*bool
	wanted   map[fullKey]types.Type
	order    []fullKey
	derivedM map[*types.Var]*types.Var
	prover   *prover
}

func (p *fmtWorld) takesVisitor(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if namedOf(sig.Params().At(i).Type()) == p.vis {
			return true
		}
	}
	return false
}

func (p *fmtWorld) isNode(t types.Type) bool {
	n, ok := types.Unalias(elemOf(t)).(*types.Named)
	return ok && p.gram[n]
}

// isPart: a field whose presence the forms decide
func (p *fmtWorld) isPart(n *types.Named, f *types.Var) bool {
	if p.carried[f] {
		return true
	}
	for _, c := range captures(n) {
		if c.field == f {
			return true
		}
	}
	return false
}

// derivedFrom: every value stored in the field is worked out from one captured field of the same node
func (p *fmtWorld) derivedFrom(n *types.Named, f *types.Var) *types.Var {
	if r, ok := p.derivedM[f]; ok {
		return r
	}
	p.derivedM[f] = nil
	var src *types.Var
	for _, st := range p.w.fieldStores[f] {
		if isNilConst(st.Val) {
			continue
		}
		found := false
		seen := map[ssa.Value]bool{}
		var back func(v ssa.Value, d int)
		back = func(v ssa.Value, d int) {
			if v == nil || seen[v] || d > 15 {
				return
			}
			seen[v] = true
			if fa, ok := v.(*ssa.FieldAddr); ok {
				g := fieldOf(fa)
				if fa.X == st.Addr.(*ssa.FieldAddr).X && p.isPart(n, g) {
					if src == nil || src == g {
						src, found = g, true
					}
				}
				return
			}
			if al, ok := v.(*ssa.Alloc); ok {
				vals, _ := p.w.cellStores(al)
				for _, x := range vals {
					back(x, d+1)
				}
				return
			}
			in, ok := v.(ssa.Instruction)
			if !ok {
				return
			}
			for _, o := range in.Operands(nil) {
				if o != nil && *o != nil {
					back(*o, d+1)
				}
			}
		}
		back(st.Val, 0)
		if !found {
			return nil
		}
	}
	p.derivedM[f] = src
	return src
}

// sequences of the grammar of a node
func (p *fmtWorld) forms(n *types.Named) []*gform {
	if f, ok := p.formsOf[n]; ok {
		return f
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	toks := tagToks(st)
	type seqT = []gitem
	has := func(s seqT, it gitem) bool {
		for _, x := range s {
			if x.fld == it.fld && x.tok == it.tok {
				return true
			}
		}
		return false
	}
	key := func(s seqT) string {
		var b strings.Builder
		for _, x := range s {
			if x.fld != nil {
				b.WriteString(x.fld.Name())
				var ls []string
				for l := range x.lits {
					ls = append(ls, l)
				}
				sort.Strings(ls)
				b.WriteString(strings.Join(ls, "|"))
			}
			b.WriteString(x.tok + ";")
		}
		return b.String()
	}
	uniq := func(in []seqT) (out []seqT) {
		seen := map[string]bool{}
		for _, s := range in {
			if k := key(s); !seen[k] {
				seen[k] = true
				out = append(out, s)
			}
		}
		return
	}
	cross := func(a, b []seqT) (out []seqT) {
		for _, x := range a {
			for _, y := range b {
				s := append(seqT{}, x...)
				for _, it := range y {
					if !has(s, it) {
						s = append(s, it)
					}
				}
				out = append(out, s)
			}
		}
		return uniq(out)
	}
	pos := 0
	var expr func() []seqT
	atom := func() []seqT {
		t := toks[pos]
		pos++
		switch t.kind {
		case "(", "[", "{":
			look := t.kind == "(" && pos < len(toks) && toks[pos].kind == "?"
			if look {
				pos += 2
			}
			f := expr()
			pos++
			if look {
				return []seqT{{}}
			}
			if t.kind != "(" {
				f = uniq(append([]seqT{{}}, f...))
			}
			return f
		case "lit":
			return []seqT{{gitem{tok: t.text}}}
		case "id":
			return []seqT{{gitem{tok: t.text, isID: true}}}
		case "@@":
			return []seqT{{gitem{fld: st.Field(t.fld)}}}
		case "@":
			it := gitem{fld: st.Field(t.fld), lits: map[string]bool{}}
			add := func(k tagTok) {
				switch k.kind {
				case "lit":
					it.lits[k.text] = true
				case "id":
					if sp := spellings(p.rules[k.text], true); len(sp) == 1 {
						it.lits[sp[0]] = true
					} else {
						it.free = true
					}
				}
			}
			depth := 0
			for pos < len(toks) {
				k := toks[pos]
				pos++
				switch k.kind {
				case "(", "[", "{":
					depth++
				case ")", "]", "}":
					depth--
				default:
					add(k)
				}
				if depth == 0 {
					break
				}
			}
			return []seqT{{it}}
		}
		return []seqT{{}}
	}
	seq := func() []seqT {
		out := []seqT{{}}
		for pos < len(toks) {
			switch toks[pos].kind {
			case "|", ")", "]", "}":
				return out
			}
			f := atom()
			for pos < len(toks) {
				switch toks[pos].kind {
				case "?", "*":
					f = uniq(append([]seqT{{}}, f...))
				case "+", "!":
				default:
					goto done
				}
				pos++
			}
		done:
			out = cross(out, f)
		}
		return out
	}
	expr = func() []seqT {
		out := seq()
		for pos < len(toks) && toks[pos].kind == "|" {
			pos++
			out = uniq(append(out, seq()...))
		}
		return out
	}
	by := map[string]*gform{}
	var order []string
	for _, s := range expr() {
		present := map[*types.Var]bool{}
		var names []string
		gone := false
		for _, it := range s {
			if it.fld != nil && !present[it.fld] {
				if p.absent[it.fld] {
					gone = true
				}
				present[it.fld] = true
				names = append(names, it.fld.Name())
			}
		}
		if gone {
			continue
		}
		sort.Strings(names)
		k := strings.Join(names, "+")
		g := by[k]
		if g == nil {
			g = &gform{present: present, items: s, name: k}
			by[k] = g
			order = append(order, k)
			continue
		}
		// the same parts in another way: only what both have is certain
		var items []gitem
		for _, a := range g.items {
			for _, b := range s {
				if a.fld == b.fld && a.tok == b.tok {
					if a.fld != nil {
						for l := range b.lits {
							a.lits[l] = true
						}
						a.free = a.free || b.free
					}
					items = append(items, a)
					break
				}
			}
		}
		g.items = items
	}
	var out []*gform
	for _, k := range order {
		g := by[k]
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); p.carried[f] {
				g.present[f] = true
				g.items = append(g.items, gitem{fld: f, tok: "carried"})
			}
		}
		out = append(out, g)
	}
	p.formsOf[n] = out
	return out
}

// copyLike: makes a visitor that has written what another has
func (p *fmtWorld) copyLike(g *ssa.Function) bool {
	if !p.w.inModule(g) || len(g.Params) == 0 || namedOf(g.Params[0].Type()) != p.vis || g.Signature.Results().Len() != 1 {
		return false
	}
	ok := false
	eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
		ret, isR := in.(*ssa.Return)
		if !isR {
			return
		}
		al, isA := ret.Results[0].(*ssa.Alloc)
		if !isA || namedOf(al.Type()) != p.vis {
			ok = false
			return
		}
		for _, st := range p.w.fieldStores[p.frags] {
			if fa := st.Addr.(*ssa.FieldAddr); st.Parent() == g && fa.X == ssa.Value(al) && p.whole(st.Val, g.Params[0], p.frags) {
				ok = true
			}
		}
	})
	return ok
}

// whole: all of a field of the visitor, or a copy of it
func (p *fmtWorld) whole(v ssa.Value, of ssa.Value, f *types.Var) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && fieldOf(fa) == f && fa.X == of
	case *ssa.Slice:
		return x.Low == nil && x.High == nil && p.whole(x.X, of, f)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			return emptyList(x.Call.Args[0]) && p.whole(x.Call.Args[1], of, f)
		}
		if id := callID(&x.Call); id.pkg == "slices" && id.name == "Clone" {
			return p.whole(x.Call.Args[0], of, f)
		}
	}
	return false
}

func emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		k, ok := constIntOf(x.Len)
		return ok && k == 0
	case *ssa.Slice:
		if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			arr, isA := deref(al.Type()).Underlying().(*types.Array)
			return isA && arr.Len() == 0
		}
	}
	return false
}

// mergeLike: takes over what another visitor has written
func (p *fmtWorld) mergeLike(g *ssa.Function) (to, from int) {
	if !p.w.inModule(g) {
		return -1, -1
	}
	for _, st := range p.w.fieldStores[p.frags] {
		fa := st.Addr.(*ssa.FieldAddr)
		if st.Parent() != g || !alwaysRuns(st) {
			continue
		}
		for i, a := range g.Params {
			for j, b := range g.Params {
				if i != j && fa.X == ssa.Value(a) && p.whole(st.Val, b, p.frags) {
					return i, j
				}
			}
		}
	}
	return -1, -1
}

// isTrial: the function runs the callbacks it is given, and what one of them has written is what its
// visitor has written afterwards
func (p *fmtWorld) isTrial(g *ssa.Function, cbs int) bool {
	if r, ok := p.trials[g]; ok {
		return *r
	}
	r := new(bool)
	p.trials[g] = r
	vi := -1
	for i, prm := range g.Params {
		if namedOf(prm.Type()) == p.vis {
			vi = i
		}
	}
	if vi < 0 {
		return false
	}
	e := &emitter{p: p, forms: map[string]*gform{}, typ: map[string]*types.Named{}, lits: map[ssa.Value]string{}, trial: true}
	c := &fctx{e: e, f: g, args: map[*ssa.Parameter]ctxVal{}, fv: map[*ssa.FreeVar]ctxVal{}, roots: map[ssa.Value]string{g.Params[cbs]: "$"}, stack: []*ssa.Function{g}, calls: map[ssa.Instruction]*effect{}}
	e.vis = ctxVal{c, g.Params[vi]}
	*r = c.run().out["done"]
	return *r
}

// hasCase: the function treats a node of that type
func (p *fmtWorld) hasCase(g *ssa.Function, i int, t types.Type) bool {
	found := false
	eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
		ta, ok := in.(*ssa.TypeAssert)
		if !ok || unwrap(ta.X) != ssa.Value(g.Params[i]) {
			return
		}
		if types.Identical(ta.AssertedType, t) {
			found = true
		}
	})
	return found
}

func (p *fmtWorld) want(g *ssa.Function, i int, t types.Type) {
	k := fullKey{g, i, types.TypeString(t, nil)}
	if _, ok := p.wanted[k]; !ok {
		p.wanted[k] = t
		p.order = append(p.order, k)
	}
}

// full: the function writes every part of the node it is given
func (p *fmtWorld) full(g *ssa.Function, i int, t types.Type) bool {
	k := fullKey{g, i, types.TypeString(t, nil)}
	if r, ok := p.fulls[k]; ok {
		return *r
	}
	r := new(bool)
	*r = true
	p.fulls[k] = r
	for _, o := range p.judge(g, i, t) {
		if o.bad != "" {
			*r = false
		}
	}
	return *r
}

type verdict struct {
	form string
	bad  string
	pos  ssa.Instruction
	n    int
}

// judge runs the function on a node of the type, in each of its forms.
func (p *fmtWorld) judge(g *ssa.Function, i int, t types.Type) []verdict {
	var out []verdict
	if sl, ok := t.Underlying().(*types.Slice); ok {
		_, eff := p.runOn(g, i, t, nil)
		v := verdict{form: "each"}
		if !eff.out["p:$"] {
			v.bad = fmt.Sprintf("there is a way through that does not write every element of the list of %s", typeKey(elemOf(sl.Elem())))
		}
		return append(out, v)
	}
	n, ok := types.Unalias(elemOf(t)).(*types.Named)
	if !ok {
		if b, isB := elemOf(t).Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
			_, eff := p.runOn(g, i, t, nil)
			v := verdict{form: "text"}
			if !eff.out["p:$"] {
				v.bad = "the text is not written on every way through"
			}
			return append(out, v)
		}
		return nil
	}
	for _, f := range p.forms(n) {
		forms := map[string]*gform{"$": f}
		typ := map[string]*types.Named{"$": n}
		v := verdict{form: f.name}
		v.bad, v.pos, v.n = p.required(g, i, t, "$", forms, typ, 0)
		out = append(out, v)
	}
	return out
}

func (p *fmtWorld) runOn(g *ssa.Function, i int, t types.Type, e *emitter) (*emitter, *effect) {
	if e == nil {
		e = &emitter{forms: map[string]*gform{}, typ: map[string]*types.Named{}}
	}
	e.p, e.lits, e.root = p, map[ssa.Value]string{}, t
	c := &fctx{e: e, f: g, args: map[*ssa.Parameter]ctxVal{}, fv: map[*ssa.FreeVar]ctxVal{}, roots: map[ssa.Value]string{g.Params[i]: "$"}, stack: []*ssa.Function{g}, calls: map[ssa.Instruction]*effect{}}
	for j, prm := range g.Params {
		if j != i && namedOf(prm.Type()) == p.vis {
			e.vis = ctxVal{c, prm}
		}
	}
	return e, c.run()
}

// required: what a node at a path with the given form must have written
func (p *fmtWorld) required(g *ssa.Function, i int, t types.Type, at string, forms map[string]*gform, typ map[string]*types.Named, depth int) (string, ssa.Instruction, int) {
	_, eff := p.runOn(g, i, t, &emitter{forms: forms, typ: typ})
	form := forms[at]
	count := 0
	sat := func(st facts, it gitem) bool {
		if it.fld != nil && st["p:"+at+"."+it.fld.Name()] {
			return true
		}
		if it.fld != nil {
			if len(it.lits) != 1 || it.free {
				return false
			}
			for l := range it.lits {
				if st["t:"+l] {
					return true
				}
			}
			return false
		}
		if !it.isID {
			return st["t:"+it.tok] || it.tok == ","
		}
		rx, err := regexp.Compile(p.rules[it.tok])
		if err != nil {
			return false
		}
		for f := range st {
			if strings.HasPrefix(f, "c:") && rx.MatchString(f[2:]) {
				return true
			}
		}
		return false
	}
	// inner: the part is taken to pieces here
	type innerT struct{ path string }
	var nested []gitem
	isNested := map[*types.Var]bool{}
	for _, it := range form.items {
		count++
		if sat(eff.out, it) {
			continue
		}
		if it.fld != nil {
			if en, ok := types.Unalias(elemOf(it.fld.Type())).(*types.Named); ok && p.gram[en] && depth < 3 {
				nested = append(nested, it)
				isNested[it.fld] = true
				continue
			}
			return fmt.Sprintf("%s is not written on every way through", what(it)), nil, count
		}
		return fmt.Sprintf("the token %s is not written on every way through", it.tok), nil, count
	}
	for _, it := range nested {
		en := types.Unalias(elemOf(it.fld.Type())).(*types.Named)
		sub := at + "." + it.fld.Name()
		if _, isList := it.fld.Type().Underlying().(*types.Slice); isList {
			sub += "[]"
		}
		for _, ef := range p.forms(en) {
			f2 := map[string]*gform{sub: ef}
			t2 := map[string]*types.Named{sub: en}
			for k, v := range forms {
				f2[k] = v
			}
			for k, v := range typ {
				t2[k] = v
			}
			bad, pos, n := p.required(g, i, t, sub, f2, t2, depth+1)
			count += n
			if bad != "" {
				return fmt.Sprintf("in %s with %s: %s", it.fld.Name(), orStr(ef.name, "nothing"), bad), pos, count
			}
		}
	}
	// in order
	matches := func(ev event, it gitem) bool {
		if it.fld != nil {
			pre := "p:" + at + "." + it.fld.Name()
			if ev.fact == pre || strings.HasPrefix(ev.fact, pre+".") || strings.HasPrefix(ev.fact, pre+"[") {
				return true
			}
			return false
		}
		if it.isID {
			rx, err := regexp.Compile(p.rules[it.tok])
			return err == nil && strings.HasPrefix(ev.fact, "c:") && rx.MatchString(ev.fact[2:])
		}
		return ev.fact == "t:"+it.tok
	}
	for _, ev := range eff.events {
		for j, it := range form.items {
			if it.tok == "carried" || !matches(ev, it) || it.fld == nil && !it.isID && p.common(form, it) {
				continue
			}
			for _, b := range form.items[:j] {
				if b.tok == "," || b.fld != nil && isNested[b.fld] || b.tok == "carried" {
					continue
				}
				if b.fld == nil && !b.isID && p.common(form, b) {
					continue
				}
				if !sat(ev.before, b) {
					return fmt.Sprintf("%s is written before %s, which comes first", what(it), what(b)), ev.pos, count
				}
			}
		}
	}
	return "", nil, count
}

// common: the token also stands for something else in this form
func (p *fmtWorld) common(f *gform, it gitem) bool { return it.tok == "." || it.tok == "," }

func what(it gitem) string {
	if it.fld != nil {
		return it.fld.Name()
	}
	return "the token " + it.tok
}

func runC17(w *World, r *Report) {
	r.Rule("R1-printed", "every part of a node is written, in order", 30)
	r.Rule("R2-trial", "a function that tries layouts keeps one entirely", 1)
	r.Rule("R3-collected", "what was collected while trying a layout is kept, once", 2)
	r.Rule("R4-text", "what was written stays as it is, but for blanks", 3)
	r.Rule("R5-reported", "every call, definition and comment is reported when asked for", 1)
	r.Rule("R6-statements", "every statement and comment of a query is handed over", 2)
	r.Rule("R7-float", "a number with a fraction is written as one", 1)

	vis := w.typeNamed("", "Visitor")
	if vis == nil {
		r.Ob("R1-printed", "Visitor", "visitor.go", false, "there is no type Visitor")
		return
	}
	p := &fmtWorld{w: w, vis: vis, gram: map[*types.Named]bool{}, formsOf: map[*types.Named][]*gform{}, absent: map[*types.Var]bool{}, carried: map[*types.Var]bool{},
		vocab: map[string]bool{}, rules: w.lexRules(), litOf: map[string]ctxVal{}, fulls: map[fullKey]*bool{}, trials: map[*ssa.Function]*bool{}, wanted: map[fullKey]types.Type{}, derivedM: map[*types.Var]*types.Var{}}
	st := vis.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Fragments" {
			p.frags = st.Field(i)
		}
	}
	if p.frags == nil {
		r.Ob("R1-printed", "Visitor", "visitor.go", false, "the visitor has no Fragments")
		return
	}
	for _, n := range w.grammarTypes() {
		p.gram[n] = true
		s := n.Underlying().(*types.Struct)
		for _, t := range tagToks(s) {
			if t.kind == "lit" {
				p.vocab[t.text] = true
			}
		}
	}
	p.findAbsent()
	for n := range p.gram {
		s := n.Underlying().(*types.Struct)
		caps := map[*types.Var]bool{}
		for _, c := range captures(n) {
			caps[c.field] = true
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if _, isMap := f.Type().Underlying().(*types.Map); isMap || caps[f] || len(w.fieldStores[f]) == 0 {
				continue
			}
			if en, ok := types.Unalias(elemOf(f.Type())).(*types.Named); ok && p.gram[en] {
				p.carried[f] = true
			}
		}
	}

	// the functions that take any node
	var disp []*ssa.Function
	for _, f := range w.Fns {
		sig := f.Signature
		if sig.Recv() == nil || namedOf(sig.Recv().Type()) != vis {
			continue
		}
		for i, prm := range f.Params {
			if _, isI := prm.Type().Underlying().(*types.Interface); !isI || i == 0 {
				continue
			}
			cases := 0
			eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
				if ta, ok := in.(*ssa.TypeAssert); ok && unwrap(ta.X) == ssa.Value(prm) && p.isNode(ta.AssertedType) {
					cases++
					p.want(f, i, ta.AssertedType)
				}
			})
			if cases > 0 {
				disp = append(disp, f)
			}
		}
	}
	if len(disp) == 0 {
		r.Ob("R1-printed", "Visit", "visitor.go", false, "no method of Visitor takes any kind of node")
		return
	}
	for k := 0; k < len(p.order); k++ {
		key := p.order[k]
		t := p.wanted[key]
		for _, v := range p.judge(key.f, key.i, t) {
			pos := w.Pos(key.f.Pos())
			if v.pos != nil {
				pos = w.instrPos(v.pos)
			}
			msg := fmt.Sprintf("%d parts and tokens written, in order", v.n)
			if v.bad != "" {
				msg = fmt.Sprintf("%s given a %s with %s: %s", w.Name(key.f), typeKey(t), orStr(v.form, "nothing"), v.bad)
			}
			r.Ob("R1-printed", typeKey(t)+"("+v.form+")", pos, v.bad == "", "%s", msg)
		}
	}
	for _, f := range w.Fns {
		for i, prm := range f.Params {
			own := false
			for _, q := range f.Params {
				if namedOf(q.Type()) == p.vis {
					own = true
				}
			}
			// one that runs them on a visitor it captures is judged where it is called
			if p.takesVisitor(prm.Type()) && (own || f.Parent() == nil) {
				ok := p.isTrial(f, i)
				r.Ob("R2-trial", w.Name(f), w.Pos(f.Pos()), ok, "%s", map[bool]string{true: "one of the functions is run on the visitor, or on a copy of it that is then taken over, on every way through", false: "there is a way through on which what the functions have written is lost"}[ok])
			}
		}
	}
	p.collected(r)
	p.text(r)
	p.reported(r, disp)
	p.statements(r)
	p.floats(r)
}

// findAbsent: parts made only of tokens that every parser of the node drops
func (p *fmtWorld) findAbsent() {
	w := p.w
	type info struct {
		reach map[*types.Named]bool
		drops map[string]bool
	}
	var ps []info
	for _, pi := range w.parsers() {
		in := info{pi.reach, map[string]bool{}}
		c := pi.pos.(*ssa.Call)
		for _, o := range sliceElems(w, c.Call.Args[0]) {
			oc, ok := o.(*ssa.Call)
			if !ok || callID(&oc.Call).name != "Lexer" {
				continue
			}
			for _, v := range w.origins(oc.Call.Args[0], false) {
				if ld, isL := v.(*ssa.UnOp); isL {
					if g, isG := ld.X.(*ssa.Global); isG {
						for _, f := range w.allInits() {
							eachInstr(f, func(_ *ssa.BasicBlock, _ int, ins ssa.Instruction) {
								if s, isS := ins.(*ssa.Store); isS && s.Addr == ssa.Value(g) {
									v = unwrap(s.Val)
								}
							})
						}
					}
				} else if g, isG := v.(*ssa.Global); isG {
					for _, f := range w.allInits() {
						eachInstr(f, func(_ *ssa.BasicBlock, _ int, ins ssa.Instruction) {
							if s, isS := ins.(*ssa.Store); isS && s.Addr == ssa.Value(g) {
								v = unwrap(s.Val)
							}
						})
					}
				}
				al, isA := unwrap(v).(*ssa.Alloc)
				if !isA || namedOf(al.Type()) == nil || namedOf(al.Type()).Obj().Pkg() == nil || !w.isModPkg(namedOf(al.Type()).Obj().Pkg().Path()) {
					continue
				}
				for _, ref := range *al.Referrers() {
					fa, isF := ref.(*ssa.FieldAddr)
					if !isF {
						continue
					}
					for _, rr := range *fa.Referrers() {
						if s, isS := rr.(*ssa.Store); isS && s.Addr == ssa.Value(fa) {
							for _, el := range sliceElems(w, s.Val) {
								if str, isC := constStr(el); isC {
									in.drops[str] = true
								}
							}
						}
					}
				}
			}
		}
		ps = append(ps, in)
	}
	for n := range p.gram {
		for _, c := range captures(n) {
			if !c.sub {
				continue
			}
			en := namedOf(elemOf(c.field.Type()))
			gone, any := true, false
			for _, in := range ps {
				if !in.reach[n] {
					continue
				}
				any = true
				for _, ec := range captures(en) {
					if ec.sub || len(ec.lits) > 0 {
						gone = false
					}
					for _, t := range ec.toks {
						if !in.drops[t] {
							gone = false
						}
					}
				}
			}
			if any && gone && len(captures(en)) > 0 {
				p.absent[c.field] = true
			}
		}
	}
}

// collected: what visiting adds to the visitor is taken over from a copy exactly once
func (p *fmtWorld) collected(r *Report) {
	w := p.w
	st := p.vis.Underlying().(*types.Struct)
	var merges, copies []*ssa.Function
	for _, f := range w.Fns {
		if to, _ := p.mergeLike(f); to >= 0 {
			merges = append(merges, f)
		}
		if p.copyLike(f) {
			copies = append(copies, f)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		grows := false
		for _, s := range w.fieldStores[f] {
			if c, ok := s.Val.(*ssa.Call); ok {
				if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
					grows = true
				}
			}
		}
		if !grows {
			continue
		}
		for _, m := range merges {
			to, from := p.mergeLike(m)
			how := ""
			pos := w.Pos(m.Pos())
			for _, s := range w.fieldStores[f] {
				if s.Parent() != m || s.Addr.(*ssa.FieldAddr).X != ssa.Value(m.Params[to]) {
					continue
				}
				pos = w.instrPos(s)
				if !alwaysRuns(s) {
					how = "sometimes"
				} else if p.whole(s.Val, m.Params[from], f) {
					how = "replaced"
				} else if c, ok := s.Val.(*ssa.Call); ok {
					if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && len(c.Call.Args) == 2 &&
						p.whole(c.Call.Args[0], m.Params[to], f) && p.whole(c.Call.Args[1], m.Params[from], f) {
						how = "added"
					}
				}
			}
			for _, c := range copies {
				copied := false
				for _, s := range w.fieldStores[f] {
					if s.Parent() == c && p.whole(s.Val, c.Params[0], f) {
						copied = true
					}
				}
				ok := how == "replaced" && copied || how == "added" && !copied
				msg := "taken over once"
				switch {
				case how == "":
					msg = fmt.Sprintf("%s does not take over %s: what is collected while trying a layout is lost", w.Name(m), f.Name())
				case how == "sometimes":
					msg = fmt.Sprintf("%s takes over %s on some ways only", w.Name(m), f.Name())
				case !ok && how == "added":
					msg = fmt.Sprintf("%s starts with the %s of the original and %s adds them again", w.Name(c), f.Name(), w.Name(m))
				case !ok:
					msg = fmt.Sprintf("%s starts without the %s of the original and %s drops them", w.Name(c), f.Name(), w.Name(m))
				}
				r.Ob("R3-collected", f.Name()+" in "+w.Name(m), pos, ok, "%s", msg)
			}
		}
	}
	// a copy is taken over by what it was copied from
	for _, m := range merges {
		to, from := p.mergeLike(m)
		for _, ci := range w.callers[m] {
			args := ci.Common().Args
			ok := true
			for _, o := range w.origins(args[from], false) {
				if isNilConst(o) {
					continue
				}
				of := p.copiedFrom(o, 0)
				if len(of) == 0 {
					ok = false
				}
				for _, v := range of {
					if !sameOrigin(w, v, args[to]) {
						ok = false
					}
				}
			}
			r.Ob("R3-collected", "call in "+w.Name(ci.Parent()), w.instrPos(ci.(ssa.Instruction)), ok, "%s", map[bool]string{true: "taken over by the visitor it was copied from", false: "a copy is taken over by another visitor than the one it was copied from: what that has collected is repeated or lost"}[ok])
		}
	}
}

// copiedFrom: the visitors of which the value is a copy, directly or as the result of a function
func (p *fmtWorld) copiedFrom(v ssa.Value, depth int) []ssa.Value {
	call, isC := v.(*ssa.Call)
	if !isC || depth > 4 {
		return nil
	}
	g := call.Call.StaticCallee()
	if g == nil || !p.w.inModule(g) || len(g.Blocks) == 0 {
		return nil
	}
	if p.copyLike(g) {
		return []ssa.Value{call.Call.Args[0]}
	}
	var out []ssa.Value
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(ret.Results) != 1 {
			return nil
		}
		for _, o := range p.w.origins(ret.Results[0], false) {
			if isNilConst(o) {
				continue
			}
			of := p.copiedFrom(o, depth+1)
			if len(of) == 0 {
				return nil
			}
			for _, x := range of {
				if a := argOfParam(call, x); a != nil {
					x = a
				}
				out = append(out, x)
			}
		}
	}
	return out
}

func sameOrigin(w *World, a, b ssa.Value) bool {
	x, y := w.origins(a, false), w.origins(b, false)
	return len(x) == 1 && len(y) == 1 && x[0] == y[0]
}

// text: the fragments only grow, but for a blank one, and are joined as they are
func (p *fmtWorld) text(r *Report) {
	w := p.w
	blank := func(s string) bool { return strings.TrimSpace(s) == "" }
	for _, s := range w.fieldStores[p.frags] {
		fa := s.Addr.(*ssa.FieldAddr)
		f := s.Parent()
		msg, ok := "", false
		if c, isC := s.Val.(*ssa.Call); isC {
			if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && p.whole(c.Call.Args[0], fa.X, p.frags) {
				msg, ok = "added at the end", true
			}
		}
		for _, prm := range f.Params {
			if !ok && prm != fa.X && namedOf(prm.Type()) == p.vis && p.whole(s.Val, prm, p.frags) {
				msg, ok = "taken over from another visitor", true
			}
		}
		if sl, isS := s.Val.(*ssa.Slice); isS && !ok && sl.Low == nil {
			// shortened by one, where the last one is blank
			one := false
			if sub, isB := sl.High.(*ssa.BinOp); isB && sub.Op == token.SUB && isOne(sub.Y) {
				if ln, isC := sub.X.(*ssa.Call); isC {
					if b, isBu := ln.Call.Value.(*ssa.Builtin); isBu && b.Name() == "len" && p.whole(ln.Call.Args[0], fa.X, p.frags) {
						one = p.whole(sl.X, fa.X, p.frags)
					}
				}
			}
			if one {
				msg, ok = "the last fragment is removed only where it is blank", true
				if !p.lastIsBlank(s, fa.X) {
					sites := w.callers[f]
					if len(sites) == 0 || w.addrTaken[f] {
						ok = false
					}
					for _, ci := range sites {
						if !p.lastIsBlank(ci.(ssa.Instruction), argOfParam(ci, fa.X)) {
							ok = false
							msg = fmt.Sprintf("%s removes the last fragment although it may not be blank", w.Name(ci.Parent()))
						}
					}
				}
			}
		}
		if !ok && msg == "" {
			msg = "the fragments are changed other than by adding at the end"
		}
		r.Ob("R4-text", "Fragments in "+w.Name(f), w.instrPos(s), ok, "%s", msg)
	}
	// elements changed in place
	for _, ld := range w.fieldLoads[p.frags] {
		refs := ld.Referrers()
		if refs == nil {
			continue
		}
		for _, ref := range *refs {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, rr := range *ia.Referrers() {
					if s, isS := rr.(*ssa.Store); isS && s.Addr == ssa.Value(ia) {
						r.Ob("R4-text", "element in "+w.Name(s.Parent()), w.instrPos(s), false, "a fragment that was written is replaced")
					}
				}
			}
		}
	}
	// from the fragments to the text
	texts := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range w.Fns {
			if texts[f] || f.Signature.Results().Len() == 0 {
				continue
			}
			if b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				continue
			}
			if len(p.textSources(f, texts)) > 0 && p.returnsText(f, texts) {
				texts[f], again = true, true
			}
		}
	}
	var fs []*ssa.Function
	for f := range texts {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return w.Name(fs[i]) < w.Name(fs[j]) })
	for _, f := range fs {
		if pk := f.Pkg; pk == nil || !p.isFormatter(f) {
			continue
		}
		src := p.textSources(f, texts)
		bad := ""
		var at ssa.Instruction
		seen := map[ssa.Value]bool{}
		var fwd func(v ssa.Value)
		fwd = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, ref := range *v.Referrers() {
				switch x := ref.(type) {
				case *ssa.Phi:
					fwd(x)
				case *ssa.BinOp:
					if x.Op == token.ADD {
						fwd(x)
					}
				case *ssa.Convert:
					fwd(x)
				case *ssa.ChangeType:
					fwd(x)
				case *ssa.IndexAddr:
					for _, rr := range *x.Referrers() {
						if u, ok := rr.(*ssa.UnOp); ok {
							fwd(u)
						}
					}
				case *ssa.Slice:
					if x.Low != nil || x.High != nil {
						// a part of it
						if !onlyIsLast(x) {
							bad, at = "only a part of what was written is used", x
						}
					}
					fwd(x)
				case *ssa.Call:
					id := callID(&x.Call)
					if x.Call.StaticCallee() == nil || x.Call.StaticCallee().Signature.Recv() != nil && id.pkg != "strings" {
						continue
					}
					nm := id.pkg + "." + id.name
					res := x.Type()
					if !isStringy(res) {
						continue
					}
					switch nm {
					case "strings.TrimSpace", "strings.Clone":
					case "strings.Join":
						if s, ok := constStr(x.Call.Args[1]); !ok || s != "" {
							bad, at = "the fragments are joined with something between them", x
						}
					case "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
						if s, ok := constStr(x.Call.Args[1]); !ok || !blank(s) {
							bad, at = "more than blanks is cut off", x
						}
					case "fmt.Sprintf", "fmt.Sprint":
						continue
					default:
						if x.Call.StaticCallee() != nil && w.inModule(x.Call.StaticCallee()) {
							continue
						}
						bad, at = fmt.Sprintf("what was written goes through %s, which can change what is between quotes", nm), x
					}
					fwd(x)
				}
			}
		}
		for _, s := range src {
			fwd(s)
		}
		pos := w.Pos(f.Pos())
		if at != nil {
			pos = w.instrPos(at)
		}
		r.Ob("R4-text", "result of "+w.Name(f), pos, bad == "", "%s", orStr(bad, "the fragments are put together as they are, but for blanks at their ends"))
	}
}

func isStringy(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isStringy(u.Elem())
	}
	return false
}

// onlyIsLast: the slice is only looked at for layout
func onlyIsLast(x *ssa.Slice) bool { return false }

// isFormatter: the result of the function is a formatted query
func (p *fmtWorld) isFormatter(f *ssa.Function) bool {
	if f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) != p.vis {
		return false
	}
	for _, prm := range f.Params {
		if namedOf(prm.Type()) == p.vis {
			return f.Object() != nil && f.Object().Exported()
		}
	}
	return f.Object() != nil && f.Object().Exported()
}

func (p *fmtWorld) textSources(f *ssa.Function, texts map[*ssa.Function]bool) []ssa.Value {
	var out []ssa.Value
	for _, ld := range p.w.fieldLoads[p.frags] {
		if in, ok := ld.(ssa.Instruction); ok && in.Parent() == f {
			out = append(out, ld)
		}
	}
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || !texts[c.Call.StaticCallee()] {
			return
		}
		if isStringy(c.Type()) {
			out = append(out, c)
		} else if c.Referrers() != nil {
			for _, ref := range *c.Referrers() {
				if e, isE := ref.(*ssa.Extract); isE && e.Index == 0 {
					out = append(out, e)
				}
			}
		}
	})
	return out
}

// returnsText: a result is made from the fragments
func (p *fmtWorld) returnsText(f *ssa.Function, texts map[*ssa.Function]bool) bool {
	src := map[ssa.Value]bool{}
	for _, s := range p.textSources(f, texts) {
		src[s] = true
	}
	found := false
	eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			return
		}
		seen := map[ssa.Value]bool{}
		var back func(v ssa.Value, d int)
		back = func(v ssa.Value, d int) {
			if v == nil || seen[v] || d > 40 {
				return
			}
			seen[v] = true
			if src[v] {
				found = true
				return
			}
			if i, isI := v.(ssa.Instruction); isI {
				for _, o := range i.Operands(nil) {
					if o != nil && *o != nil {
						back(*o, d+1)
					}
				}
			}
			if al, isA := v.(*ssa.Alloc); isA {
				for _, ref := range *al.Referrers() {
					if s, isS := ref.(*ssa.Store); isS {
						back(s.Val, d+1)
					}
					if ia, isIA := ref.(*ssa.IndexAddr); isIA {
						for _, rr := range *ia.Referrers() {
							if s, isS := rr.(*ssa.Store); isS {
								back(s.Val, d+1)
							}
						}
					}
				}
			}
		}
		back(ret.Results[0], 0)
	})
	return found
}

// lastIsBlank: where the instruction runs, the last fragment of the visitor is blank
func (p *fmtWorld) lastIsBlank(i ssa.Instruction, vis ssa.Value) bool {
	last := func(v ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value) bool
		rec = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				s, ok := constStr(x)
				return ok && s == ""
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !rec(e) {
						return false
					}
				}
				return true
			case *ssa.UnOp:
				ia, ok := x.X.(*ssa.IndexAddr)
				if !ok || !p.whole(ia.X, vis, p.frags) {
					return false
				}
				sub, ok := ia.Index.(*ssa.BinOp)
				if !ok || sub.Op != token.SUB || !isOne(sub.Y) {
					return false
				}
				ln, ok := sub.X.(*ssa.Call)
				if !ok {
					return false
				}
				b, isB := ln.Call.Value.(*ssa.Builtin)
				return isB && b.Name() == "len" && p.whole(ln.Call.Args[0], vis, p.frags)
			}
			return false
		}
		return rec(v)
	}
	for _, b := range i.Parent().Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		side := 0
		if cmp.Op == token.NEQ {
			side = 1
		} else if cmp.Op != token.EQL {
			continue
		}
		s := b.Succs[side]
		if len(s.Preds) != 1 || !s.Dominates(i.Block()) {
			continue
		}
		x, y := cmp.X, cmp.Y
		if _, isK := x.(*ssa.Const); isK {
			x, y = y, x
		}
		if str, isS := constStr(y); isS && strings.TrimSpace(str) == "" {
			if c, isC := x.(*ssa.Call); isC {
				if id := callID(&c.Call); id.pkg == "strings" && strings.HasPrefix(id.name, "Trim") && str == "" && last(c.Call.Args[0]) {
					return true
				}
			}
			if last(x) {
				return true
			}
		}
	}
	return false
}

// reported: when the host asks for them, calls, definitions and comments are collected
func (p *fmtWorld) reported(r *Report, disp []*ssa.Function) {
	w := p.w
	st := p.vis.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() || f == p.frags {
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		var which []string
		switch f.Name() {
		case "CallSites":
			which = []string{"_SymbolRef", "Plugin"}
		case "Definitions":
			which = []string{"VQL"}
		case "Comments":
			which = []string{"_Comment"}
		}
		for _, nm := range which {
			n := w.typeNamed("", nm)
			if n == nil {
				continue
			}
			for _, d := range disp {
				for pi, prm := range d.Params {
					if _, isI := prm.Type().Underlying().(*types.Interface); !isI || pi == 0 || !p.hasCase(d, pi, types.NewPointer(n)) {
						continue
					}
					bad := ""
					for _, form := range p.forms(n) {
						if nm == "VQL" {
							let := false
							for v := range form.present {
								if v.Name() == "Let" {
									let = true
								}
							}
							if !let {
								continue
							}
						}
						e := &emitter{forms: map[string]*gform{"$": form}, typ: map[string]*types.Named{"$": n}, collect: true}
						_, eff := p.runOn(d, pi, types.NewPointer(n), e)
						if !eff.out["a:"+f.Name()] {
							bad = form.name
							break
						}
					}
					r.Ob("R5-reported", f.Name()+" of "+nm, w.Pos(d.Pos()), bad == "", "%s", map[bool]string{true: "added on every way through when it is asked for", false: "with " + bad + " there is a way through that does not report it"}[bad == ""])
				}
			}
		}
	}
}

// statements: a node that only groups statements hands all its parts over
func (p *fmtWorld) statements(r *Report) {
	w := p.w
	for _, n := range w.grammarTypes() {
		isRoot, self := false, false
		for _, pi := range w.parsers() {
			if pi.root == n {
				isRoot = true
			}
		}
		for _, c := range captures(n) {
			if c.sub && namedOf(elemOf(c.field.Type())) == n {
				self = true
			}
		}
		if !isRoot || !self {
			continue
		}
		for _, f := range w.Fns {
			if f.Signature.Results().Len() != 1 || len(f.Params) == 0 || namedOf(f.Params[0].Type()) != n {
				continue
			}
			if _, isList := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); !isList || !p.isNode(f.Signature.Results().At(0).Type()) {
				continue
			}
			for _, form := range p.forms(n) {
				e := &emitter{forms: map[string]*gform{"$": form}, typ: map[string]*types.Named{"$": n}, hand: true}
				_, eff := p.runOn(f, 0, f.Params[0].Type(), e)
				bad := ""
				for _, it := range form.items {
					if it.fld != nil && !eff.out["p:$."+it.fld.Name()] {
						bad = fmt.Sprintf("with %s, there is a way through on which %s is dropped", form.name, it.fld.Name())
						break
					}
				}
				r.Ob("R6-statements", w.Name(f)+"("+form.name+")", w.Pos(f.Pos()), bad == "", "%s", orStr(bad, "every part is returned, or kept with what is returned"))
			}
		}
	}
}

// floats: what is written for a number with a fraction has a point or an exponent
func (p *fmtWorld) floats(r *Report) {
	w := p.w
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if id := callID(&c.Call); id.pkg != "strconv" || id.name != "FormatFloat" {
				return
			}
			// of a part of the query
			of := false
			for _, o := range w.origins(c.Call.Args[0], true) {
				if u, isU := o.(*ssa.UnOp); isU {
					o = u.X
				}
				if fa, isF := o.(*ssa.FieldAddr); isF {
					if n := namedOf(fa.X.Type()); n != nil && p.gram[n] {
						of = true
					}
				}
				if u, isU := o.(*ssa.UnOp); isU {
					if fa, isF := u.X.(*ssa.FieldAddr); isF {
						if n := namedOf(fa.X.Type()); n != nil && p.gram[n] {
							of = true
						}
					}
				}
			}
			if !of {
				return
			}
			bad := ""
			hasPoint := func(v ssa.Value, onTrue bool, x ssa.Value) bool {
				k, isC := v.(*ssa.Call)
				if !isC || !onTrue {
					return false
				}
				id := callID(&k.Call)
				if id.pkg != "strings" || id.name != "Contains" && id.name != "ContainsAny" || k.Call.Args[0] != x {
					return false
				}
				s, isS := constStr(k.Call.Args[1])
				return isS && s != "" && strings.Trim(s, ".eE") == ""
			}
			for _, ref := range *c.Referrers() {
				switch x := ref.(type) {
				case *ssa.Phi:
					for j, e := range x.Edges {
						if e != ssa.Value(c) {
							continue
						}
						pred := x.Block().Preds[j]
						br, isBr := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
						if !isBr || !hasPoint(br.Cond, pred.Succs[0] == x.Block(), c) {
							bad = "a whole number is written without a point, and reads back as another type"
						}
					}
				case *ssa.BinOp:
					if s, isS := constStr(x.Y); x.Op != token.ADD || !isS || !strings.HasPrefix(s, ".") && !strings.HasPrefix(s, "e") {
						bad = "something other than a fraction is added to the number"
					}
				case *ssa.Call:
					if id := callID(&x.Call); id.pkg == "strings" {
						continue
					}
					okHere := false
					for _, b := range f.Blocks {
						if br, isBr := b.Instrs[len(b.Instrs)-1].(*ssa.If); isBr && hasPoint(br.Cond, true, c) && len(b.Succs[0].Preds) == 1 && b.Succs[0].Dominates(x.Block()) {
							okHere = true
						}
					}
					if !okHere {
						bad = "a whole number is written without a point, and reads back as another type"
					}
				case *ssa.Store, *ssa.Return:
					okHere := false
					for _, b := range f.Blocks {
						if br, isBr := b.Instrs[len(b.Instrs)-1].(*ssa.If); isBr && hasPoint(br.Cond, true, c) && len(b.Succs[0].Preds) == 1 && b.Succs[0].Dominates(ref.Block()) {
							okHere = true
						}
					}
					if !okHere {
						bad = "a whole number is written without a point, and reads back as another type"
					}
				}
			}
			r.Ob("R7-float", "in "+w.Name(f), w.instrPos(c), bad == "", "%s", orStr(bad, "a point is added where there is none"))
		})
	}
}

// argOfParam: what a call passes for a parameter of its callee
func argOfParam(ci ssa.CallInstruction, v ssa.Value) ssa.Value {
	prm, ok := v.(*ssa.Parameter)
	if !ok {
		return nil
	}
	for i, q := range prm.Parent().Params {
		if q == prm && i < len(ci.Common().Args) {
			return ci.Common().Args[i]
		}
	}
	return nil
}
