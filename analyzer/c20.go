package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = check{run: runC20,
		explanation: "Every kind that an item is tagged with is compared with the kinds that restoring knows, and the type that is encoded with the one that is decoded. The text of a stored definition is traced back to the parts of the definition, in the worlds with and without parameters and default values; names are shown to be quoted. The loops over the variables of a scope are shown to leave none out, and an error of any step to be returned.",
		assumptions: []string{"encoding/json and the dict library", "custom types and handlers of the embedder", "that values are not cyclic", "the formatter writes every part of a query (C17)"}}
}

type marshalWorld struct {
	w     *World
	item  *types.Named
	ms    []*ssa.Function // make an item
	us    []*ssa.Function // restore an item
	typeF *types.Var
	dataF *types.Var
	maps  bool
}

func (m *marshalWorld) isItem(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && namedOf(p.Elem()) == m.item && m.item != nil && namedOf(t) == m.item
}

func runC20(w *World, r *Report) {
	r.Rule("R1-kinds", "every kind an item can have is one that can be restored", 2)
	r.Rule("R2-types", "what is decoded has the type that was encoded", 2)
	r.Rule("R3-definition", "the text of a definition has its name, parameters, default values and body", 6)
	r.Rule("R4-quoted", "a name is written so that it reads back as the same name", 3)
	r.Rule("R5-every", "every variable is serialized, and every item restored", 1)
	r.Rule("R6-replay", "a definition is restored by evaluating its text in the scope", 1)
	r.Rule("R7-errors", "an error of any step is returned", 8)

	item := w.typeNamed("types", "MarshalItem")
	if item == nil {
		r.Ob("R1-kinds", "MarshalItem", "types", false, "there is no type MarshalItem")
		return
	}
	m := &marshalWorld{w: w, item: item}
	st := item.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Type":
			m.typeF = st.Field(i)
		case "Data":
			m.dataF = st.Field(i)
		}
	}
	for _, f := range w.Fns {
		sig := f.Signature
		n := sig.Results().Len()
		if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) || len(f.Blocks) == 0 {
			continue
		}
		if n == 2 && m.isItem(sig.Results().At(0).Type()) {
			m.ms = append(m.ms, f)
		}
		for _, p := range f.Params {
			if m.isItem(p.Type()) {
				m.us = append(m.us, f)
				break
			}
		}
	}
	m.kinds(r)
	m.refuses(r)
	m.definitions(r)
	m.every(r)
	m.errors(r)
}

// a constructor registers the kinds that can be restored
func (m *marshalWorld) registered() map[string]*types.Named {
	w := m.w
	out := map[string]*types.Named{}
	add := func(k, v ssa.Value, f *ssa.Function) {
		s, ok := constStr(k)
		if !ok {
			return
		}
		for _, o := range w.origins(v, false) {
			if mi, isM := o.(*ssa.MakeInterface); isM {
				o = mi.X
			}
			if n := namedOf(o.Type()); n != nil {
				out[s] = n
			}
		}
	}
	for _, f := range w.Fns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.Module {
			continue
		}
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if mt, ok := x.Map.Type().Underlying().(*types.Map); ok && m.isHandler(mt.Elem()) && alwaysRuns(x) {
					add(x.Key, x.Value, f)
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || !w.inModule(g) || !alwaysRuns(x) {
					return
				}
				for i, p := range g.Params {
					if m.isHandler(p.Type()) && i > 0 && i < len(x.Call.Args) {
						// stored under the name it was given
						stored := false
						eachInstr(g, func(_ *ssa.BasicBlock, _ int, gi ssa.Instruction) {
							if mu, ok := gi.(*ssa.MapUpdate); ok && mu.Value == ssa.Value(p) && mu.Key == ssa.Value(g.Params[i-1]) && alwaysRuns(mu) {
								stored = true
							}
						})
						if stored {
							add(x.Call.Args[i-1], x.Call.Args[i], f)
						}
					}
				}
			}
		})
	}
	return out
}

func (m *marshalWorld) isHandler(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 {
		return false
	}
	sig := it.Method(0).Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		if m.isItem(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// builtIn: the kinds the dispatcher decodes itself, with the block that does
func (m *marshalWorld) builtIn() map[string]*ssa.BasicBlock {
	out := map[string]*ssa.BasicBlock{}
	for _, ld := range m.w.fieldLoads[m.typeF] {
		for _, ref := range *ld.Referrers() {
			cmp, ok := ref.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL {
				continue
			}
			s, isS := constStr(cmp.Y)
			if !isS {
				s, isS = constStr(cmp.X)
			}
			if !isS {
				continue
			}
			for _, rr := range *cmp.Referrers() {
				if br, isB := rr.(*ssa.If); isB {
					out[s] = br.Block().Succs[0]
				}
			}
		}
	}
	return out
}

func (m *marshalWorld) kinds(r *Report) {
	w := m.w
	reg := m.registered()
	own := m.builtIn()
	for _, s := range w.fieldStores[m.typeF] {
		f := s.Parent()
		for _, k := range m.tags(s, s.Val, 0) {
			tag, ok := constStr(k.v)
			if !ok {
				r.Ob("R1-kinds", "kind in "+w.Name(f), w.instrPos(s), false, "the kind of the item is not fixed")
				continue
			}
			h := reg[tag]
			blk := own[tag]
			r.Ob("R1-kinds", tag+" in "+w.Name(f), w.instrPos(s), h != nil || blk != nil, "%s",
				map[bool]string{true: "has a way of being restored", false: fmt.Sprintf("nothing restores an item of kind %q", tag)}[h != nil || blk != nil])
			if h == nil && blk == nil {
				continue
			}
			// what is encoded
			var data ssa.Value
			for _, d := range w.fieldStores[m.dataF] {
				if d.Addr.(*ssa.FieldAddr).X == s.Addr.(*ssa.FieldAddr).X {
					data = d.Val
				}
			}
			enc, whole := m.encoded(data, f)
			if enc == nil {
				r.Ob("R2-types", tag+" in "+w.Name(f), w.instrPos(s), false, "what the item carries is not an encoded value")
				continue
			}
			m.maps = false
			dec, plain := m.decoded(h, blk)
			ok2, msg := false, ""
			switch {
			case plain:
				n := namedOf(enc)
				inMod := n != nil && n.Obj().Pkg() != nil && w.isModPkg(n.Obj().Pkg().Path()) && !types.IsInterface(enc)
				ok2, msg = !inMod && whole, "decoded as it is"
				if m.maps {
					ok2, msg = false, "an object is decoded as a Go map, whose members a query cannot read"
				} else if inMod {
					msg = fmt.Sprintf("a %s is decoded as a plain value", typeKey(enc))
				} else if !whole {
					msg = "something other than the value is encoded"
				}
			case dec != nil:
				ok2 = types.Identical(stripPtr(enc), stripPtr(dec)) || types.IsInterface(enc) && whole && (m.asserted(s, stripPtr(dec)) || m.asserted(k.at, stripPtr(dec)))
				msg = fmt.Sprintf("encoded as %s, decoded as %s", typeKey(enc), typeKey(dec))
			default:
				msg = "what was encoded is not decoded"
			}
			r.Ob("R2-types", tag+" in "+w.Name(f), w.instrPos(s), ok2, "%s", msg)
		}
	}
}

type tagAt struct {
	v  ssa.Value
	at ssa.Instruction // where it is chosen
}

// tags: the kinds an item is given, followed to the callers of a helper
func (m *marshalWorld) tags(at ssa.Instruction, v ssa.Value, d int) []tagAt {
	var out []tagAt
	for _, o := range m.w.origins(v, false) {
		p, ok := o.(*ssa.Parameter)
		if !ok || d > 4 || len(m.w.callers[p.Parent()]) == 0 {
			out = append(out, tagAt{o, at})
			continue
		}
		for _, c := range m.w.callers[p.Parent()] {
			if a := argOfParam(c, p); a != nil {
				out = append(out, m.tags(c.(ssa.Instruction), a, d+1)...)
			} else {
				out = append(out, tagAt{o, at})
			}
		}
	}
	return out
}

// refuses: a kind that nothing restores is an error
func (m *marshalWorld) refuses(r *Report) {
	w := m.w
	n := 0
	for _, f := range m.us {
		for g := range w.near(f, 2) {
			eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
				l, ok := in.(*ssa.Lookup)
				if !ok {
					return
				}
				mt, isM := l.X.Type().Underlying().(*types.Map)
				if !isM || !m.isHandler(mt.Elem()) || l.Referrers() == nil {
					return
				}
				n++
				var found, oks []ssa.Value
				if l.CommaOk {
					for _, ref := range *l.Referrers() {
						if e, isE := ref.(*ssa.Extract); isE && e.Index == 0 {
							found = append(found, e)
						} else if isE {
							oks = append(oks, e)
						}
					}
				} else {
					found = append(found, l)
				}
				fs, os := w.flow(found, flowOpts{returns: true}), w.flow(oks, flowOpts{returns: true})
				bad := "it is not looked at whether there is one"
				for h := range w.near(f, 2) {
					for _, b := range h.Blocks {
						if br, isB := b.Instrs[len(b.Instrs)-1].(*ssa.If); isB {
							for si, s := range b.Succs {
								if !absent(br.Cond, si == 0, fs, os) {
									continue
								}
								bad = ""
								if h.Signature.Results().Len() == 2 && isErrorType(h.Signature.Results().At(1).Type()) && !m.onlyFails(s) {
									bad = "an item of a kind that nothing restores is not refused"
								}
							}
						}
					}
				}
				r.Ob("R1-kinds", "unknown kind in "+w.Name(g), w.instrPos(l), bad == "", "%s", orStr(bad, "refused with an error"))
			})
		}
	}
	if n == 0 {
		r.Ob("R1-kinds", "unknown kind", "marshal", false, "the ways of restoring are not looked up")
	}
}

// absent: the edge is taken where the lookup found nothing
func absent(cond ssa.Value, onTrue bool, found, oks valset) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return absent(u.X, !onTrue, found, oks)
	}
	if oks[cond] {
		return !onTrue
	}
	x, isNil, ok := nilTest(cond, onTrue)
	return ok && isNil && found[x]
}

func stripPtr(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return types.Unalias(t)
		}
		t = p.Elem()
	}
}

// asserted: where the item is made the value given is known to have the type
func (m *marshalWorld) asserted(s ssa.Instruction, t types.Type) bool {
	f := s.Parent()
	ok := false
	eachInstr(f, func(b *ssa.BasicBlock, _ int, in ssa.Instruction) {
		ta, isT := in.(*ssa.TypeAssert)
		if !isT || !types.Identical(stripPtr(ta.AssertedType), t) || !ta.CommaOk {
			return
		}
		for _, ref := range *ta.Referrers() {
			e, isE := ref.(*ssa.Extract)
			if !isE || e.Index != 1 {
				continue
			}
			for _, rr := range *e.Referrers() {
				if br, isB := rr.(*ssa.If); isB && len(br.Block().Succs[0].Preds) == 1 && br.Block().Succs[0].Dominates(s.Block()) {
					ok = true
				}
			}
		}
	})
	return ok
}

// encoded: the type of the value that is encoded, and whether it is what the function was given
func (m *marshalWorld) encoded(v ssa.Value, f *ssa.Function) (types.Type, bool) {
	w := m.w
	if v == nil {
		return nil, false
	}
	for _, o := range w.origins(v, true) {
		if e, ok := o.(*ssa.Extract); ok {
			o = e.Tuple
		}
		c, ok := o.(*ssa.Call)
		if !ok {
			return nil, false
		}
		if id := callID(&c.Call); id.pkg != "encoding/json" || !strings.HasPrefix(id.name, "Marshal") {
			return nil, false
		}
		a := unwrap(c.Call.Args[0])
		given := false
		if _, isP := a.(*ssa.Parameter); isP {
			given = true
		}
		return a.Type(), given
	}
	return nil, false
}

// decoded: the type the handler decodes the data into; plain when it takes any
func (m *marshalWorld) decoded(h *types.Named, blk *ssa.BasicBlock) (types.Type, bool) {
	w := m.w
	var f *ssa.Function
	if h != nil && blk == nil {
		for _, u := range m.us {
			if u.Signature.Recv() != nil && namedOf(u.Signature.Recv().Type()) == h {
				f = u
			}
		}
	} else if blk != nil {
		f = blk.Parent()
	}
	if f == nil {
		return nil, false
	}
	var t types.Type
	plain := false
	for _, ld := range w.fieldLoads[m.dataF] {
		in := ld.(ssa.Instruction)
		if in.Parent() != f || blk != nil && !blk.Dominates(in.Block()) {
			continue
		}
		for v := range w.flow([]ssa.Value{ld}, flowOpts{}) {
			if v.Referrers() == nil {
				continue
			}
			for _, ref := range *v.Referrers() {
				c, ok := ref.(*ssa.Call)
				if !ok {
					continue
				}
				id := callID(&c.Call)
				switch {
				case id.pkg == "encoding/json" && id.name == "Unmarshal":
					d := unwrap(c.Call.Args[1])
					t = d.Type()
					if types.IsInterface(stripPtr(t)) {
						plain, m.maps = true, true
					}
				case id.pkg == "bytes" && strings.HasPrefix(id.name, "NewReader"), id.pkg == "bytes" && strings.HasPrefix(id.name, "NewBuffer"):
					plain = true
				case c.Call.StaticCallee() != nil && w.inModule(c.Call.StaticCallee()) && c.Call.Signature().Results().Len() == 2 && types.IsInterface(c.Call.Signature().Results().At(0).Type()):
					plain = true
				}
			}
		}
	}
	return t, plain
}

// definitions: what serializing makes of a stored definition
func (m *marshalWorld) definitions(r *Report) {
	w := m.w
	var gram = map[*types.Named]bool{}
	for _, n := range w.grammarTypes() {
		gram[n] = true
	}
	isGram := func(t types.Type) bool {
		if mt, ok := t.Underlying().(*types.Map); ok {
			t = mt.Elem()
		}
		n, ok := types.Unalias(elemOf(t)).(*types.Named)
		return ok && gram[n]
	}
	var handlers []string
	for _, f := range m.ms {
		if f.Signature.Recv() == nil {
			continue
		}
		n := namedOf(f.Signature.Recv().Type())
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		def := false
		for i := 0; i < st.NumFields(); i++ {
			if isGram(st.Field(i).Type()) {
				def = true
			}
		}
		if !def {
			continue
		}
		var opt, must []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			switch fl.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				opt = append(opt, fl)
			case *types.Struct:
				continue // a lock
			default:
				must = append(must, fl)
			}
		}
		sort.Slice(opt, func(i, j int) bool { return opt[i].Name() < opt[j].Name() })
		// with none, with the lists, with everything
		var worlds [][]*types.Var
		worlds = append(worlds, nil)
		var lists []*types.Var
		for _, o := range opt {
			if _, isL := o.Type().Underlying().(*types.Slice); isL {
				lists = append(lists, o)
			}
		}
		if len(lists) > 0 {
			worlds = append(worlds, lists)
		}
		if len(opt) > len(lists) {
			worlds = append(worlds, opt)
		}
		for _, wd := range worlds {
			form := &gform{present: map[*types.Var]bool{}}
			var names []string
			for _, fl := range append(append([]*types.Var{}, must...), wd...) {
				form.present[fl] = true
			}
			for _, fl := range wd {
				names = append(names, fl.Name())
			}
			p := &fmtWorld{w: w, gram: gram, carried: map[*types.Var]bool{}, litOf: map[string]ctxVal{}, derivedM: map[*types.Var]*types.Var{}, rules: map[string]string{}, vocab: map[string]bool{}}
			for _, fl := range append(append([]*types.Var{}, must...), opt...) {
				p.carried[fl] = true
			}
			e := &emitter{p: p, forms: map[string]*gform{"$": form}, typ: map[string]*types.Named{"$": n}, lits: map[ssa.Value]string{}, root: f.Signature.Recv().Type()}
			c := &fctx{e: e, f: f, args: map[*ssa.Parameter]ctxVal{}, fv: map[*ssa.FreeVar]ctxVal{}, roots: map[ssa.Value]string{f.Params[0]: "$"}, stack: []*ssa.Function{f}, calls: map[ssa.Instruction]*effect{}}
			c.liveness()
			texts := m.itemText(c)
			for fl := range form.present {
				fl := fl
				ok := len(texts) > 0
				bad := fmt.Sprintf("with %s, there is a way through on which %s is not part of what is serialized", orStr(strings.Join(names, " and "), "no parameters"), fl.Name())
				asWhole := isGram(fl.Type())
				for _, t := range texts {
					q := &defTrace{m: m, path: "$." + fl.Name(), node: asWhole, busy: map[ssa.Value]bool{}}
					if !q.from(t, 0) {
						ok = false
					}
				}
				// the default value carries the name of its parameter
				r.Ob("R3-definition", fmt.Sprintf("%s of %s(%s)", fl.Name(), n.Obj().Name(), strings.Join(names, "+")), w.Pos(f.Pos()), ok, "%s", map[bool]string{true: "part of the text on every way through", false: bad}[ok])
			}
			for _, fl := range append(append([]*types.Var{}, must...), wd...) {
				b := elemOf(fl.Type())
				if bt, isB := b.Underlying().(*types.Basic); !isB || bt.Info()&types.IsString == 0 {
					continue
				}
				bad := ""
				for _, t := range texts {
					q := &defTrace{m: m, path: "$." + fl.Name(), busy: map[ssa.Value]bool{}}
					if s := q.quoted(t, nil, 0); s != "" {
						bad = s
					}
				}
				r.Ob("R4-quoted", fmt.Sprintf("%s of %s(%s)", fl.Name(), n.Obj().Name(), strings.Join(names, "+")), w.Pos(f.Pos()), bad == "", "%s", orStr(bad, "written in quotes with what is special escaped, or where it is known to be an identifier"))
			}
		}
		// how it is restored
		for _, s := range w.fieldStores[m.typeF] {
			if s.Parent() == f || w.callersReach(s.Parent(), f) {
				for _, k := range w.origins(s.Val, false) {
					if tag, ok := constStr(k); ok {
						handlers = append(handlers, tag)
					}
				}
			}
		}
	}
	sort.Strings(handlers)
	reg := m.registered()
	own := m.builtIn()
	seen := map[string]bool{}
	for _, tag := range handlers {
		if seen[tag] {
			continue
		}
		seen[tag] = true
		h := reg[tag]
		var f *ssa.Function
		for _, u := range m.us {
			if h != nil && u.Signature.Recv() != nil && namedOf(u.Signature.Recv().Type()) == h {
				f = u
			}
		}
		bad := ""
		if f == nil || own[tag] != nil {
			bad = fmt.Sprintf("%s is the text of a definition, which is not parsed when it is restored", tag)
			r.Ob("R6-replay", tag, "marshal.go", false, "%s", bad)
			continue
		}
		bad = m.replays(f)
		r.Ob("R6-replay", tag, w.Pos(f.Pos()), bad == "", "%s", orStr(bad, "the text is parsed and evaluated in the scope it is restored to"))
	}
}

// callersReach: f is called by g, directly or through functions of the module
func (w *World) callersReach(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(x *ssa.Function, d int) bool
	rec = func(x *ssa.Function, d int) bool {
		if x == g {
			return true
		}
		if seen[x] || d > 4 {
			return false
		}
		seen[x] = true
		for _, c := range w.callers[x] {
			if rec(c.Parent(), d+1) {
				return true
			}
		}
		return false
	}
	return rec(f, 0)
}

// replays: the text is parsed and the result evaluated in the scope
func (m *marshalWorld) replays(f *ssa.Function) string {
	w := m.w
	var scopeP *ssa.Parameter
	for _, p := range f.Params {
		if w.isScopeType(p.Type()) {
			scopeP = p
		}
	}
	var eval *ssa.Call
	for g := range w.near(f, 3) {
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !rowStream(c.Type()) || len(c.Call.Args) == 0 {
				return
			}
			// of what was parsed
			recv := c.Call.Value
			if !c.Call.IsInvoke() {
				recv = c.Call.Args[0]
			}
			parsed := false
			for _, o := range w.origins(recv, true) {
				if u, isU := o.(*ssa.UnOp); isU {
					if ia, isI := u.X.(*ssa.IndexAddr); isI {
						for _, oo := range w.origins(ia.X, true) {
							o = oo
						}
					}
				}
				if e, isE := o.(*ssa.Extract); isE {
					if pc, isC := e.Tuple.(*ssa.Call); isC && pc.Call.StaticCallee() != nil && strings.Contains(pc.Call.StaticCallee().Name(), "Parse") && w.inModule(pc.Call.StaticCallee()) {
						parsed = true
					}
				}
			}
			if !parsed {
				return
			}
			inScope := false
			for _, a := range c.Call.Args {
				for _, o := range w.origins(a, true) {
					if o == ssa.Value(scopeP) {
						inScope = true
					}
				}
			}
			if inScope {
				eval = c
			}
		})
	}
	if eval == nil {
		return "the text is not evaluated in the scope it is restored to"
	}
	if !m.onSuccess(eval, f) {
		return "there is a way to succeed without evaluating the text"
	}
	return ""
}

// onSuccess: every way through that returns no error executes the site
func (m *marshalWorld) onSuccess(site ssa.Instruction, top *ssa.Function) bool {
	f := site.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == site.Block() || seen[b] {
			return true
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return m.failing(ret)
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	if h := innerLoop(site.Block()); h != nil {
		if !everyTurnOf(h, site, nil) {
			return false
		}
	} else if !rec(f.Blocks[0]) {
		return false
	}
	if f == top {
		return true
	}
	cs := m.w.callers[f]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !m.w.near(top, 4)[c.Parent()] {
			continue
		}
		if !m.onSuccess(c.(ssa.Instruction), top) {
			return false
		}
	}
	return true
}

// failing: the return is only reached with an error
func (m *marshalWorld) failing(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	e := ret.Results[len(ret.Results)-1]
	if !isErrorType(e.Type()) {
		return false
	}
	return m.nonNilAt(e, ret.Block())
}

func (m *marshalWorld) nonNilAt(e ssa.Value, b *ssa.BasicBlock) bool {
	e = m.cellValue(e)
	if isNilConst(e) {
		return false
	}
	switch x := e.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		switch id := callID(&x.Call); id.pkg + "." + id.name {
		case "errors.New", "fmt.Errorf":
			return true
		}
	}
	for _, c := range b.Parent().Blocks {
		br, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for si, s := range c.Succs {
			x, isNil, ok := nilTest(br.Cond, si == 0)
			if ok && !isNil && m.cellValue(x) == e && len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// cellValue: the value of a variable with a single store
func (m *marshalWorld) cellValue(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if cell := m.w.cellOf(u.X); cell != nil {
			if vals, esc := m.w.cellStores(cell); len(vals) == 1 && !esc {
				return vals[0]
			}
		}
	}
	return v
}

// itemText: what is encoded as the data of the item that is returned
func (m *marshalWorld) itemText(c *fctx) []ctxVal {
	var out []ctxVal
	var rec func(c *fctx, d int)
	rec = func(c *fctx, d int) {
		eachInstr(c.f, func(b *ssa.BasicBlock, _ int, in ssa.Instruction) {
			if !c.on[b] {
				return
			}
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != m.dataF {
					return
				}
				r := c.resolve(ctxVal{c, x.Val})
				if e, isE := r.v.(*ssa.Extract); isE {
					if call, isC := e.Tuple.(*ssa.Call); isC && callID(&call.Call).pkg == "encoding/json" {
						out = append(out, r.c.resolve(ctxVal{r.c, call.Call.Args[0]}))
					}
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || !m.w.inModule(g) || d > 3 || len(g.Blocks) == 0 {
					return
				}
				if n := g.Signature.Results().Len(); n > 0 && m.isItem(g.Signature.Results().At(0).Type()) {
					k := c.child(g, x, nil)
					k.liveness()
					rec(k, d+1)
				}
			}
		})
	}
	rec(c, 0)
	return out
}

type defTrace struct {
	m    *marshalWorld
	path string
	node bool // must be formatted as a whole
	busy map[ssa.Value]bool
}

func (q *defTrace) formatter(g *ssa.Function) bool {
	if g == nil || g.Object() == nil || !g.Object().Exported() || g.Signature.Results().Len() != 1 || !isStringy(g.Signature.Results().At(0).Type()) {
		return false
	}
	for _, p := range g.Params {
		if it, ok := p.Type().Underlying().(*types.Interface); ok && it.Empty() {
			return q.m.w.inModule(g)
		}
	}
	return false
}

func (q *defTrace) isPath(p string) bool { return p == q.path || p == q.path+"[]" }

// from: the value is certainly made from the part
func (q *defTrace) from(cv ctxVal, depth int) bool {
	if cv.v == nil || depth > 60 {
		return false
	}
	cv = cv.c.resolve(cv)
	c := cv.c
	if !q.node && q.isPath(c.pathOf(cv, 0)) {
		return true
	}
	if q.busy[cv.v] {
		return false
	}
	q.busy[cv.v] = true
	defer delete(q.busy, cv.v)
	sub := func(v ssa.Value) bool { return q.from(ctxVal{c, v}, depth+1) }
	switch x := cv.v.(type) {
	case *ssa.BinOp:
		return sub(x.X) || sub(x.Y)
	case *ssa.Convert:
		return sub(x.X)
	case *ssa.Phi:
		b := x.Block()
		cov := c.covers(b)
		there := false
		if cov != nil {
			t, known := c.e.presence(cov.list)
			there = known && t && c.runsOut(b)
		}
		some := false
		for i, e := range x.Edges {
			if !c.isLive(b.Preds[i], b) {
				continue
			}
			back := b.Dominates(b.Preds[i])
			if there && !back {
				continue // there is at least one turn
			}
			if back && !there {
				continue // may not turn at all
			}
			if !sub(e) {
				return false
			}
			some = true
		}
		return some
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return q.call(c, call, x.Index, depth)
		}
	case *ssa.Call:
		return q.call(c, x, 0, depth)
	case *ssa.Slice:
		if els := c.listed(x); els != nil {
			for _, el := range els {
				if q.from(el, depth+1) {
					return true
				}
			}
			return false
		}
		return sub(x.X)
	case *ssa.MakeSlice, *ssa.Alloc:
		for _, ref := range *cv.v.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, isS := rr.(*ssa.Store); isS && c.on[st.Block()] && c.everyTurn(st) && sub(st.Val) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := c.resolve(ctxVal{c, x.X}).v.(*ssa.Alloc); ok {
				vals, esc := c.e.p.w.cellStores(al)
				if esc || len(vals) == 0 {
					return false
				}
				for _, v := range vals {
					if !sub(v) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// runsOut: the loop is only left when there is nothing more, or with an error
func (c *fctx) runsOut(h *ssa.BasicBlock) bool {
	l := naturalLoop(h)
	m := &marshalWorld{w: c.e.p.w}
	for b := range l {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !l[s] && c.isLive(b, s) && !m.onlyFails(s) {
				return false
			}
		}
	}
	return true
}

// everyTurn: the instruction is executed in every turn of a loop over something that is there
func (c *fctx) everyTurn(i ssa.Instruction) bool {
	h := innerLoop(i.Block())
	if h == nil {
		return false
	}
	cov := c.covers(h)
	if cov == nil {
		return false
	}
	if t, known := c.e.presence(cov.list); !known || !t || !c.runsOut(h) {
		return false
	}
	return everyTurnOf(h, i, func(b *ssa.BasicBlock, s int) bool { return !c.isLive(b, b.Succs[s]) })
}

func (q *defTrace) call(c *fctx, call *ssa.Call, res, depth int) bool {
	cc := &call.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() != "append" {
			return false
		}
		for _, a := range cc.Args {
			if q.from(ctxVal{c, a}, depth+1) {
				return true
			}
		}
		return false
	}
	g := cc.StaticCallee()
	if q.formatter(g) {
		for _, a := range cc.Args {
			if p := c.path(a); q.isPath(p) {
				return true
			} else if !q.node && strings.HasSuffix(q.path, ".parameters") && strings.HasSuffix(p, "[]") && p != "" {
				// a default value is written with its name
				return true
			}
		}
		return false
	}
	if g != nil && q.m.w.inModule(g) && len(g.Blocks) > 0 {
		if len(c.stack) > 10 {
			return false
		}
		k := c.child(g, call, nil)
		k.liveness()
		some := false
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || !k.on[b] || res >= len(ret.Results) {
				continue
			}
			if !q.from(ctxVal{k, ret.Results[res]}, depth+1) {
				return false
			}
			some = true
		}
		return some
	}
	if g == nil {
		return false
	}
	if g.Signature.Recv() != nil && (callID(cc).name == "String" || callID(cc).name == "Bytes") {
		// a buffer that was written to
		buf := c.resolve(ctxVal{c, cc.Args[0]})
		if buf.v.Referrers() != nil {
			for _, ref := range *buf.v.Referrers() {
				wr, ok := ref.(*ssa.Call)
				if !ok || wr == call || !strings.HasPrefix(callID(&wr.Call).name, "Write") || !buf.c.on[wr.Block()] {
					continue
				}
				for _, a := range wr.Call.Args[1:] {
					if (buf.c.everyTurn(wr) || wr.Block().Dominates(call.Block())) && q.from(ctxVal{buf.c, a}, depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, a := range cc.Args {
		if q.from(ctxVal{c, a}, depth+1) {
			return true
		}
	}
	return false
}

// quoted: a reason why the name is not written so that it reads back
type seg struct {
	text string
	name bool
	esc  []string
}

func (q *defTrace) quoted(cv ctxVal, at *ssa.BasicBlock, depth int) string {
	alts := q.segs(cv, at, depth)
	for _, a := range alts {
		for i, s := range a {
			if !s.name {
				continue
			}
			pre, post := "", ""
			if i > 0 {
				pre = a[i-1].text
			}
			if i+1 < len(a) {
				post = a[i+1].text
			}
			switch {
			case !strings.HasSuffix(pre, "`") || !strings.HasPrefix(post, "`"):
				return "a name is written without quotes, although it may need them"
			case len(s.esc) < 2 || s.esc[0] != `\` || !hasStr(s.esc, "`"):
				return "a name is written in quotes, but a quote or backslash in it is not escaped"
			}
		}
	}
	return ""
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// segs: the alternatives of a text, as far as names are concerned
func (q *defTrace) segs(cv ctxVal, at *ssa.BasicBlock, depth int) [][]seg {
	none := [][]seg{{{}}}
	if cv.v == nil || depth > 50 {
		return none
	}
	cv = cv.c.resolve(cv)
	c := cv.c
	if s, ok := constStr(cv.v); ok {
		return [][]seg{{{text: s}}}
	}
	if q.isPath(c.pathOf(cv, 0)) {
		if q.known(c, cv.v, at) {
			return none
		}
		return [][]seg{{{name: true}}}
	}
	if q.busy[cv.v] {
		return none
	}
	q.busy[cv.v] = true
	defer delete(q.busy, cv.v)
	sub := func(v ssa.Value, b *ssa.BasicBlock) [][]seg { return q.segs(ctxVal{c, v}, b, depth+1) }
	cross := func(a, b [][]seg) (out [][]seg) {
		for _, x := range a {
			for _, y := range b {
				s := append([]seg{}, x...)
				for _, z := range y {
					if n := len(s); n > 0 && !s[n-1].name && !z.name && s[n-1].text != "" && z.text != "" {
						s[n-1].text += z.text
						continue
					}
					s = append(s, z)
				}
				out = append(out, s)
				if len(out) > 64 {
					return
				}
			}
		}
		return
	}
	switch x := cv.v.(type) {
	case *ssa.BinOp:
		return cross(sub(x.X, at), sub(x.Y, at))
	case *ssa.Convert:
		return sub(x.X, at)
	case *ssa.Phi:
		var out [][]seg
		for i, e := range x.Edges {
			if c.isLive(x.Block().Preds[i], x.Block()) {
				out = append(out, sub(e, x.Block().Preds[i])...)
			}
		}
		return out
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return q.callSegs(c, call, x.Index, at, depth, cross)
		}
	case *ssa.Call:
		return q.callSegs(c, x, 0, at, depth, cross)
	case *ssa.Slice:
		var out [][]seg
		for _, el := range c.listed(x) {
			out = append(out, q.segs(el, at, depth+1)...)
		}
		if len(out) > 0 {
			return out
		}
		return sub(x.X, at)
	case *ssa.MakeSlice, *ssa.Alloc:
		var out [][]seg
		for _, ref := range *cv.v.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, rr := range *ia.Referrers() {
					if st, isS := rr.(*ssa.Store); isS && c.on[st.Block()] {
						out = append(out, sub(st.Val, st.Block())...)
					}
				}
			}
		}
		return out
	}
	return none
}

func (q *defTrace) callSegs(c *fctx, call *ssa.Call, res int, at *ssa.BasicBlock, depth int, cross func(a, b [][]seg) [][]seg) [][]seg {
	none := [][]seg{{{}}}
	cc := &call.Call
	sub := func(v ssa.Value, b *ssa.BasicBlock) [][]seg { return q.segs(ctxVal{c, v}, b, depth+1) }
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var out [][]seg
		if b.Name() == "append" {
			for _, a := range cc.Args {
				out = append(out, sub(a, call.Block())...)
			}
		}
		return out
	}
	g := cc.StaticCallee()
	if g == nil || q.formatter(g) {
		return none
	}
	if q.m.w.inModule(g) && len(g.Blocks) > 0 {
		if len(c.stack) > 10 {
			return none
		}
		k := c.child(g, call, nil)
		k.liveness()
		var out [][]seg
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k.on[b] && res < len(ret.Results) {
				v := ret.Results[res]
				// known where it is called, or where it is returned
				if q.isPath(k.path(v)) && q.known(c, call, at) {
					continue
				}
				out = append(out, q.segs(ctxVal{k, v}, b, depth+1)...)
			}
		}
		return out
	}
	id := callID(cc)
	switch id.pkg + "." + id.name {
	case "strings.ReplaceAll":
		from, ok1 := constStr(cc.Args[1])
		to, ok2 := constStr(cc.Args[2])
		out := sub(cc.Args[0], nil)
		for i := range out {
			for j := range out[i] {
				if out[i][j].name && ok1 && ok2 && readsBack(from, to) {
					out[i][j].esc = append(append([]string{}, out[i][j].esc...), from)
				}
			}
		}
		return out
	case "strings.Replace": // (*Replacer).Replace, or Replace
		if g.Signature.Recv() != nil {
			rp := c.resolve(ctxVal{c, cc.Args[0]})
			out := sub(cc.Args[1], nil)
			if mk, ok := rp.v.(*ssa.Call); ok && callID(&mk.Call).name == "NewReplacer" {
				var esc []string
				l := rp.c.listed(mk.Call.Args[0])
				for i := 0; i+1 < len(l); i += 2 {
					a, ok1 := constStr(l[i].v)
					b, ok2 := constStr(l[i+1].v)
					if ok1 && ok2 && readsBack(a, b) {
						esc = append(esc, a)
					}
				}
				sort.Slice(esc, func(i, j int) bool { return esc[i] == `\` })
				for i := range out {
					for j := range out[i] {
						if out[i][j].name {
							out[i][j].esc = esc
						}
					}
				}
			}
			return out
		}
	case "strings.Join":
		l := sub(cc.Args[0], at)
		sep, _ := constStr(cc.Args[1])
		var out [][]seg
		for _, a := range l {
			out = append(out, append(append([]seg{{text: sep}}, a...), seg{text: sep}))
		}
		return out
	case "fmt.Sprintf":
		f, ok := constStr(cc.Args[0])
		if !ok {
			return none
		}
		vals := c.listed(cc.Args[1])
		out := [][]seg{{}}
		n := 0
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) {
				out = cross(out, [][]seg{{{text: f}}})
				break
			}
			if i > 0 {
				out = cross(out, [][]seg{{{text: f[:i]}}})
			}
			if f[i+1] == '%' {
				out = cross(out, [][]seg{{{text: "%"}}})
			} else if n < len(vals) {
				out = cross(out, q.segs(vals[n], at, depth+1))
				n++
			}
			f = f[i+2:]
		}
		return out
	}
	var out [][]seg
	for _, a := range cc.Args {
		out = append(out, sub(a, at)...)
	}
	return out
}

// readsBack: reading the escape in a quoted name gives what it stands for
func readsBack(from, to string) bool {
	if len(from) != 1 {
		return false
	}
	v, _, tail, err := strconv.UnquoteChar(to, '`')
	return err == nil && tail == "" && string(v) == from
}

// known: where it runs, the name is known to be an identifier
func (q *defTrace) known(c *fctx, v ssa.Value, at *ssa.BasicBlock) bool {
	if at == nil {
		return false
	}
	f := at.Parent()
	for _, b := range f.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, side := br.Cond, 0
		if n, isN := cond.(*ssa.UnOp); isN && n.Op == token.NOT {
			cond, side = n.X, 1
		}
		s := b.Succs[side]
		if !(len(s.Preds) == 1 && s.Dominates(at)) && !(b == at) {
			continue
		}
		call, ok := cond.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil {
			continue
		}
		for i, a := range call.Call.Args {
			if q.isPath(c.path(a)) && q.m.identTest(call.Call.StaticCallee(), i) {
				return true
			}
		}
	}
	return false
}

// identTest: the function is true only for text that the lexer takes for one identifier
func (m *marshalWorld) identTest(g *ssa.Function, i int) bool {
	if !m.w.inModule(g) || len(g.Blocks) == 0 || i >= len(g.Params) {
		return false
	}
	prm := g.Params[i]
	kind := func(v ssa.Value) string {
		cmp, ok := v.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL {
			return ""
		}
		for _, p := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			name := fieldRead(p[0])
			if name == "Type" {
				if l, isL := p[1].(*ssa.Lookup); isL {
					if s, isS := constStr(l.Index); isS && s == "Ident" {
						return "type"
					}
				}
			}
			if name == "Value" && p[1] == ssa.Value(prm) {
				return "value"
			}
		}
		return ""
	}
	// what follows from the value of a condition
	fact := func(v ssa.Value, val bool, have map[string]bool) {
		for {
			u, isU := v.(*ssa.UnOp)
			if !isU || u.Op != token.NOT {
				break
			}
			v, val = u.X, !val
		}
		if cmp, isC := v.(*ssa.BinOp); isC {
			eq := *cmp
			if cmp.Op == token.NEQ {
				eq.Op, val = token.EQL, !val
			}
			if k := kind(&eq); k != "" && val {
				have[k] = true
			}
		}
	}
	conds := func(b *ssa.BasicBlock, have map[string]bool) map[string]bool {
		out := map[string]bool{}
		for k := range have {
			out[k] = true
		}
		for _, c := range g.Blocks {
			if br, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If); ok {
				for si, s := range c.Succs {
					if len(s.Preds) == 1 && s.Dominates(b) {
						fact(br.Cond, si == 0, out)
					}
				}
			}
		}
		return out
	}
	// every way to have the value passes both
	var truths func(v ssa.Value, val bool, b *ssa.BasicBlock, have map[string]bool, d int) bool
	truths = func(v ssa.Value, val bool, b *ssa.BasicBlock, have map[string]bool, d int) bool {
		have = conds(b, have)
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != val {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT && d < 9 {
			return truths(u.X, !val, b, have, d+1)
		}
		fact(v, val, have)
		if ph, ok := v.(*ssa.Phi); ok && d < 9 {
			for j, e := range ph.Edges {
				p := ph.Block().Preds[j]
				h := conds(p, have)
				if br, isB := p.Instrs[len(p.Instrs)-1].(*ssa.If); isB && p.Succs[0] != p.Succs[1] {
					fact(br.Cond, p.Succs[0] == ph.Block(), h)
				}
				if !truths(e, val, p, h, d+1) {
					return false
				}
			}
			return true
		}
		return have["type"] && have["value"]
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || !truths(ret.Results[0], true, b, map[string]bool{}, 0) {
				return false
			}
		}
	}
	return true
}

func fieldRead(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa).Name()
		}
	}
	return ""
}

// every: no variable is left out
func (m *marshalWorld) every(r *Report) {
	w := m.w
	n := 0
	for _, f := range m.ms {
		if f.Signature.Recv() == nil || !w.isScopeType(f.Signature.Recv().Type()) {
			continue
		}
		n++
		var site *ssa.MapUpdate
		for g := range w.near(f, 3) {
			eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
				if mu, ok := in.(*ssa.MapUpdate); ok && m.isItem(mu.Value.Type()) {
					site = mu
				}
			})
		}
		bad := ""
		pos := w.Pos(f.Pos())
		if site == nil {
			bad = "no variable is serialized"
		} else {
			pos = w.instrPos(site)
			bad = m.eachVar(site, site.Key, f, 0)
			if bad == "" && !m.itsValue(site.Value, site.Key) {
				bad = "what is stored under the name is not the value of that variable"
			}
		}
		r.Ob("R5-every", w.Name(f), pos, bad == "", "%s", orStr(bad, "every member of every set of variables is serialized under its name, or an error returned; names a query cannot define and reserved ones are left out"))
	}
	if n == 0 {
		r.Ob("R5-every", "scope", "scope", false, "a scope cannot be serialized")
	}
	// restoring
	n = 0
	for _, f := range m.us {
		var rng *ssa.Range
		for g := range w.near(f, 3) {
			eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
				if x, ok := in.(*ssa.Range); ok {
					if mt, isM := x.X.Type().Underlying().(*types.Map); isM && m.isItem(mt.Elem()) {
						rng = x
					}
				}
			})
		}
		if rng == nil {
			continue
		}
		n++
		bad, pos := m.restoresAll(f, rng)
		r.Ob("R5-every", w.Name(f), pos, bad == "", "%s", orStr(bad, "every item is restored in the new scope under its name, unless its name is to be ignored, it fails, or it restores itself"))
	}
	m.nested(r)
	if n == 0 {
		r.Ob("R5-every", "restore", "scope", false, "no function restores the items of a scope")
	}
}

// nested: a function that decodes nested values keeps each of them
func (m *marshalWorld) nested(r *Report) {
	w := m.w
	for _, u := range m.us {
		for f := range w.near(u, 3) {
			if f.Signature.Results().Len() != 2 {
				continue
			}
			eachInstr(f, func(b *ssa.BasicBlock, _ int, in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !w.near(c.Call.StaticCallee(), 2)[f] || c.Call.Signature().Results().Len() != 2 || innerLoop(b) == nil {
					return
				}
				if !types.Identical(c.Call.Signature().Results().At(0).Type(), f.Signature.Results().At(0).Type()) {
					return
				}
				for _, mm := range m.us {
					if mm == f {
						return
					}
				}
				var v ssa.Value
				for _, ref := range *c.Referrers() {
					if e, isE := ref.(*ssa.Extract); isE && e.Index == 0 {
						v = e
					}
				}
				kept := false
				if v != nil {
					for x := range w.flow([]ssa.Value{v}, flowOpts{}) {
						if x.Referrers() == nil {
							continue
						}
						for _, ref := range *x.Referrers() {
							i, isI := ref.(ssa.Instruction)
							if !isI || i.Parent() != f {
								continue
							}
							switch y := ref.(type) {
							case *ssa.Store:
								// an element, or a list to append
								if _, isIA := y.Addr.(*ssa.IndexAddr); !isIA || y.Val != x {
									continue
								}
							case *ssa.Call:
								if callID(&y.Call).name != "Set" {
									continue
								}
							case *ssa.MapUpdate:
							default:
								continue
							}
							if everyTurnOf(innerLoop(b), i, func(b *ssa.BasicBlock, s int) bool {
								br, isB := b.Instrs[len(b.Instrs)-1].(*ssa.If)
								if !isB {
									return false
								}
								e, isNil, isT := nilTest(br.Cond, s == 0)
								return isT && !isNil && isErrorType(e.Type())
							}) {
								kept = true
							}
						}
					}
				}
				r.Ob("R5-every", "nested value in "+w.Name(f), w.instrPos(c), kept, "%s", map[bool]string{true: "kept in every turn", false: "a nested value can be dropped"}[kept])
			})
		}
	}
}

func (m *marshalWorld) sameVal(a, b ssa.Value) bool {
	x, y := m.w.origins(a, true), m.w.origins(b, true)
	if len(x) == 0 || len(x) != len(y) {
		return false
	}
	for _, u := range x {
		ok := false
		for _, v := range y {
			if u == v || sameLoad(u, v) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	i, ok1 := x.X.(*ssa.IndexAddr)
	j, ok2 := y.X.(*ssa.IndexAddr)
	return ok1 && ok2 && i.X == j.X && i.Index == j.Index
}

// eachVar: the site runs in every turn of the loops around it
func (m *marshalWorld) eachVar(site ssa.Instruction, key ssa.Value, top *ssa.Function, d int) string {
	w := m.w
	f := site.Parent()
	if d > 4 {
		return "the loop over the variables is not found"
	}
	skip := func(b *ssa.BasicBlock, s int) bool {
		return m.reserved(b, s, key) || m.missing(b, s, key) || errEdge(b, s)
	}
	h := innerLoop(site.Block())
	loops := 0
	cur := site
	for h != nil {
		loops++
		if !everyTurnOf(h, cur, skip) {
			return "a variable can be left out"
		}
		l := naturalLoop(h)
		for b := range l {
			for _, s := range b.Succs {
				if b == h || l[s] {
					continue
				}
				// leaves early
				if !m.onlyFails(s) {
					return "the loop over the variables can end early"
				}
			}
		}
		cur = h.Instrs[0]
		var outer *ssa.BasicBlock
		for _, c := range f.Blocks {
			if c != h && isHeader(c) && naturalLoop(c)[h] && (outer == nil || naturalLoop(outer)[c]) {
				outer = c
			}
		}
		h = outer
	}
	if f == top {
		if loops == 0 {
			return "the loop over the variables is not found"
		}
		return ""
	}
	if loops == 0 {
		// a helper for one variable
		seen := map[*ssa.BasicBlock]bool{}
		var rec func(b *ssa.BasicBlock) bool
		rec = func(b *ssa.BasicBlock) bool {
			if b == site.Block() || seen[b] {
				return true
			}
			seen[b] = true
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return m.failing(ret)
			}
			for i, s := range b.Succs {
				if !skip(b, i) && !rec(s) {
					return false
				}
			}
			return true
		}
		if !rec(f.Blocks[0]) {
			return "a variable can be left out"
		}
	}
	for _, c := range w.callers[f] {
		if w.near(top, 4)[c.Parent()] {
			k := key
			if a := argOfOrigin(w, c, key); a != nil {
				k = a
			}
			return m.eachVar(c.(ssa.Instruction), k, top, d+1)
		}
	}
	return "the loop over the variables is not found"
}

// errEdge: the edge is taken where something failed; that it is not lost is another rule
func errEdge(b *ssa.BasicBlock, s int) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	x, isNil, ok := nilTest(br.Cond, s == 0)
	return ok && !isNil && isErrorType(x.Type())
}

func argOfOrigin(w *World, c ssa.CallInstruction, v ssa.Value) ssa.Value { return argOfParam(c, v) }

// onlyFails: from here only returns with an error are reached
func (m *marshalWorld) onlyFails(b *ssa.BasicBlock) bool {
	for x := range reachableFrom(b, true) {
		if ret, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !m.failing(ret) {
			return false
		}
	}
	return true
}

// reserved: the edge is taken for a fixed name, or for one that is no identifier
func (m *marshalWorld) reserved(b *ssa.BasicBlock, s int, key ssa.Value) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	return m.reservedCond(br.Cond, s == 0, key, 0)
}

func (m *marshalWorld) reservedCond(v ssa.Value, onTrue bool, key ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return m.reservedCond(x.X, !onTrue, key, d+1)
		}
	case *ssa.BinOp:
		if onTrue != (x.Op == token.EQL) || x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		_, k1 := constStr(x.X)
		_, k2 := constStr(x.Y)
		return k2 && m.sameVal(x.X, key) || k1 && m.sameVal(x.Y, key)
	case *ssa.Call:
		if !onTrue {
			return false
		}
		id := callID(&x.Call)
		if id.pkg == "strings" && id.name == "HasPrefix" && m.sameVal(x.Call.Args[0], key) {
			p, ok := constStr(x.Call.Args[1])
			return ok && p != "" && !strings.ContainsAny(p[:1], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
		}
		// a function of the module that says so
		g := x.Call.StaticCallee()
		if g == nil || !m.w.inModule(g) || len(g.Blocks) == 0 || len(g.Params) == 0 {
			return false
		}
		for i, a := range x.Call.Args {
			if i >= len(g.Params) || !m.sameVal(a, key) {
				continue
			}
			if m.onlyReserved(g, g.Params[i], d+1) {
				return true
			}
		}
	case *ssa.Lookup:
		if onTrue && m.sameVal(x.Index, key) {
			return m.constTable(x.X)
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && onTrue && m.sameVal(l.Index, key) {
			return m.constTable(l.X)
		}
	case *ssa.Phi:
		// a || b
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				if (k.Value.ExactString() == "true") != onTrue {
					continue
				}
				p := x.Block().Preds[i]
				for si, s := range p.Succs {
					if s == x.Block() && !m.reserved(p, si, key) {
						return false
					}
				}
				continue
			}
			if !m.reservedCond(e, onTrue, key, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// onlyReserved: the function is true only for reserved names
func (m *marshalWorld) onlyReserved(g *ssa.Function, key *ssa.Parameter, d int) bool {
	// every way to be true takes an edge for a reserved name
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			v := ret.Results[0]
			if k, isK := v.(*ssa.Const); isK && k.Value != nil && k.Value.ExactString() == "false" {
				return
			}
			if !m.reservedCond(v, true, key, d) {
				ok = false
			}
			return
		}
		for i, s := range b.Succs {
			if !m.reserved(b, i, key) {
				rec(s)
			} else if ph, isPh := s.Instrs[0].(*ssa.Phi); isPh && len(ph.Edges) > 0 {
				rec(s)
			}
		}
	}
	rec(g.Blocks[0])
	return ok
}

func (m *marshalWorld) constTable(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, isG := u.X.(*ssa.Global)
	return isG
}

// missing: the edge is taken where the variable is not found
func (m *marshalWorld) missing(b *ssa.BasicBlock, s int, key ssa.Value) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, not := br.Cond, false
	if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
		cond, not = u.X, true
	}
	e, ok := cond.(*ssa.Extract)
	if !ok || e.Index != 1 || (s == 1) == not {
		return false
	}
	c, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	for _, a := range c.Call.Args {
		if m.sameVal(unwrap(a), key) {
			return true
		}
	}
	return false
}

// itsValue: the item was made of the value of the variable with that name
func (m *marshalWorld) itsValue(item, key ssa.Value) bool {
	for _, o := range m.w.origins(item, true) {
		e, ok := o.(*ssa.Extract)
		if !ok {
			return false
		}
		c, ok := e.Tuple.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			return false
		}
		is := false
		for _, f := range m.ms {
			if f == c.Call.StaticCallee() {
				is = true
			}
		}
		if !is {
			return false
		}
		val := false
		for _, a := range c.Call.Args {
			for _, v := range m.w.origins(unwrap(a), true) {
				if x, isE := v.(*ssa.Extract); isE && x.Index == 0 {
					if rc, isC := x.Tuple.(*ssa.Call); isC {
						for _, ra := range rc.Call.Args {
							if m.sameVal(unwrap(ra), key) {
								val = true
							}
						}
					}
				}
			}
		}
		if !val {
			return false
		}
	}
	return true
}

// restoresAll: each item is restored, and what it gives is kept under its name
func (m *marshalWorld) restoresAll(f *ssa.Function, rng *ssa.Range) (string, string) {
	w := m.w
	pos := w.instrPos(rng)
	var key, val ssa.Value
	for _, ref := range *rng.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		for _, rr := range *nx.Referrers() {
			if e, isE := rr.(*ssa.Extract); isE {
				switch e.Index {
				case 1:
					key = e
				case 2:
					val = e
				}
			}
		}
	}
	if key == nil || val == nil {
		return "the items are not looked at", pos
	}
	near := w.near(f, 3)
	// the restoring call
	var call *ssa.Call
	var set ssa.Instruction
	for g := range near {
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			restores := c.Call.IsInvoke() && callID(&c.Call).name == "Unmarshal" && c.Call.Signature().Results().Len() == 2
			for _, u := range m.us {
				if c.Call.StaticCallee() == u && u != f {
					restores = true
				}
			}
			if restores {
				for _, a := range c.Call.Args {
					if m.sameVal(a, val) {
						call = c
					}
				}
			}
		})
	}
	if call == nil {
		return "an item is not restored", pos
	}
	var res ssa.Value
	for _, ref := range *call.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
			res = e
		}
	}
	if res == nil {
		return "what an item restores to is not used", w.instrPos(call)
	}
	var env ssa.Value
	for g := range near {
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || callID(&c.Call).name != "Set" || len(c.Call.Args) < 3 {
				return
			}
			if m.sameVal(c.Call.Args[1], key) && m.sameVal(unwrap(c.Call.Args[2]), res) {
				set, env = c, c.Call.Args[0]
			}
		})
	}
	if set == nil {
		return "what an item restores to is not kept under its name", w.instrPos(call)
	}
	h := innerLoop(rng.Block())
	_ = h
	ignored := func(b *ssa.BasicBlock, s int) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		cond, onTrue := br.Cond, s == 0
		if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
			cond, onTrue = u.X, !onTrue
		}
		if c, isC := cond.(*ssa.Call); isC && onTrue {
			hasKey, hasList := false, false
			for _, a := range c.Call.Args {
				if m.sameVal(a, key) {
					hasKey = true
				}
				if isStringList(a.Type()) {
					hasList = true
				}
			}
			return hasKey && hasList
		}
		return false
	}
	nothing := func(b *ssa.BasicBlock, s int) bool {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		if x, isNil, isT := nilTest(br.Cond, s == 0); isT {
			if isErrorType(x.Type()) && !isNil {
				return true
			}
			return isNil && m.sameVal(x, res)
		}
		cond, onTrue := br.Cond, s == 0
		if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
			cond, onTrue = u.X, !onTrue
		}
		if c, isC := cond.(*ssa.Call); isC && onTrue && strings.HasPrefix(callID(&c.Call).name, "IsN") && len(c.Call.Args) == 1 {
			return m.sameVal(unwrap(c.Call.Args[0]), res)
		}
		return false
	}
	if bad := m.turns(call, f, ignored, 0); bad != "" {
		return bad, w.instrPos(call)
	}
	if bad := m.turns(set, f, func(b *ssa.BasicBlock, s int) bool { return ignored(b, s) || nothing(b, s) }, 0); bad != "" {
		return "what an item restores to can be dropped", w.instrPos(set)
	}
	// the environment ends up in the scope that is returned
	app := false
	var scopes []ssa.Value
	for g := range near {
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || callID(&c.Call).name != "AppendVars" {
				return
			}
			for _, a := range c.Call.Args {
				if m.sameVal(unwrap(a), env) {
					app = app || m.onSuccess(c, f)
					scopes = append(scopes, c)
					if c.Call.IsInvoke() {
						scopes = append(scopes, c.Call.Value)
					} else {
						scopes = append(scopes, c.Call.Args[0])
					}
				}
			}
		})
	}
	if !app {
		return "what was restored is not added to the scope on every way through", w.instrPos(set)
	}
	// restored in that scope, and that scope returned
	inIt := false
	for _, a := range call.Call.Args {
		for _, s := range scopes {
			if w.isScopeType(a.Type()) && m.sameVal(a, s) {
				inIt = true
			}
		}
	}
	if !inIt {
		return "an item is restored in another scope than the one returned", w.instrPos(call)
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || m.failing(ret) {
			continue
		}
		is := false
		for _, o := range w.origins(unwrap(ret.Results[0]), true) {
			for _, s := range scopes {
				if o == s || m.sameVal(o, s) {
					is = true
				}
			}
		}
		if !is {
			return "the scope that was restored is not returned", w.instrPos(ret)
		}
	}
	return "", pos
}

func isStringList(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	_, isS := t.Underlying().(*types.Slice)
	return isS && isStringy(t)
}

// turns: the site runs in every turn of the loop over the items
func (m *marshalWorld) turns(site ssa.Instruction, top *ssa.Function, skip func(b *ssa.BasicBlock, s int) bool, d int) string {
	if h := innerLoop(site.Block()); h != nil {
		if !everyTurnOf(h, site, skip) {
			return "an item can be left out"
		}
		l := naturalLoop(h)
		for b := range l {
			for _, s := range b.Succs {
				if b != h && !l[s] && !m.onlyFails(s) {
					return "the loop over the items can end early"
				}
			}
		}
		return ""
	}
	f := site.Parent()
	if f == top || d > 3 {
		return "an item can be left out"
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == site.Block() || seen[b] {
			return true
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return m.failing(ret)
		}
		for i, s := range b.Succs {
			if !skip(b, i) && !rec(s) {
				return false
			}
		}
		return true
	}
	if !rec(f.Blocks[0]) {
		return "an item can be left out"
	}
	for _, c := range m.w.callers[f] {
		if m.w.near(top, 4)[c.Parent()] {
			return m.turns(c.(ssa.Instruction), top, skip, d+1)
		}
	}
	return "an item can be left out"
}

// errors: an error of any step reaches the caller
func (m *marshalWorld) errors(r *Report) {
	w := m.w
	work := append(append([]*ssa.Function{}, m.ms...), m.us...)
	seen := map[*ssa.Function]bool{}
	for k := 0; k < len(work); k++ {
		f := work[k]
		if seen[f] {
			continue
		}
		seen[f] = true
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			res := c.Call.Signature().Results()
			n := res.Len()
			if n == 0 || !isErrorType(res.At(n-1).Type()) {
				return
			}
			id := callID(&c.Call)
			if id.pkg == "fmt" || id.pkg == "errors" || strings.HasSuffix(id.pkg, "pkg/errors") {
				return
			}
			if g := c.Call.StaticCallee(); g != nil && w.inModule(g) && g.Object() != nil && !g.Object().Exported() {
				work = append(work, g)
			}
			var err ssa.Value
			if n == 1 {
				err = c
			} else if c.Referrers() != nil {
				for _, ref := range *c.Referrers() {
					if e, isE := ref.(*ssa.Extract); isE && e.Index == n-1 {
						err = e
					}
				}
			}
			fres := f.Signature.Results()
			if fres.Len() == 0 || !isErrorType(fres.At(fres.Len()-1).Type()) {
				// a helper that answers a question about a text: an error is a no
				if fres.Len() == 1 {
					if b, isB := fres.At(0).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
						return
					}
				}
				r.Ob("R7-errors", id.name+" in "+w.Name(f), w.instrPos(c), false, "%s can fail, and the function returns no error", id.name)
				return
			}
			bad := ""
			if err == nil || err.Referrers() == nil || len(*err.Referrers()) == 0 {
				bad = fmt.Sprintf("the error of %s is ignored", id.name)
			} else if at := m.lost(c, err); at != nil {
				bad = fmt.Sprintf("there is a way through on which %s fails and no error is returned", id.name)
			}
			r.Ob("R7-errors", id.name+" in "+w.Name(f), w.instrPos(c), bad == "", "%s", orStr(bad, "on every way through on which it fails, an error is returned"))
		})
	}
}

// fallback: what is returned is the outcome of another attempt at the value
func fallback(ret *ssa.Return, call *ssa.Call) bool {
	var of ssa.Value
	for i, v := range ret.Results {
		e, ok := unwrap(v).(*ssa.Extract)
		if !ok || of != nil && e.Tuple != of || e.Index != i || e.Tuple == ssa.Value(call) {
			return false
		}
		of = e.Tuple
	}
	c, ok := of.(*ssa.Call)
	return ok && len(c.Call.Args) > 0 && len(call.Call.Args) > 0 && c.Call.Args[0] == call.Call.Args[0] && c.Block() != call.Block()
}

// lost: a return without an error, although the call has failed
func (m *marshalWorld) lost(call *ssa.Call, err ssa.Value) ssa.Instruction {
	type set = map[ssa.Value]bool
	f := call.Parent()
	in := map[*ssa.BasicBlock]set{}
	var bad ssa.Instruction
	clone := func(s set) set {
		o := set{}
		for k := range s {
			o[k] = true
		}
		return o
	}
	isErr := func(st set, v ssa.Value) bool {
		v = unwrap(v)
		return st[v] || st[m.cellValue(v)]
	}
	var carries func(st set, v ssa.Value, d int) bool
	carries = func(st set, v ssa.Value, d int) bool {
		if d > 12 || v == nil {
			return false
		}
		v = unwrap(v)
		if isErr(st, v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					if carries(st, a, d+1) {
						return true
					}
				}
				return false
			}
			id := callID(&x.Call)
			switch {
			case id.pkg == "errors" && id.name == "New", id.pkg == "fmt" && id.name == "Errorf":
				return true
			case id.pkg == "errors" && id.name == "Join", strings.HasSuffix(id.pkg, "pkg/errors"):
				for _, a := range x.Call.Args {
					if carries(st, a, d+1) {
						return true
					}
				}
			}
			if g := x.Call.StaticCallee(); g != nil && m.w.inModule(g) {
				for _, a := range x.Call.Args {
					if isErrorType(a.Type()) && carries(st, a, d+1) {
						return true
					}
				}
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if ia, isI := ref.(*ssa.IndexAddr); isI {
						for _, rr := range *ia.Referrers() {
							if s, isS := rr.(*ssa.Store); isS && carries(st, s.Val, d+1) {
								return true
							}
						}
					}
				}
			}
			return carries(st, x.X, d+1)
		}
		return false
	}
	work := []*ssa.BasicBlock{call.Block()}
	first := true
	for n := 0; len(work) > 0 && n < 2000; n++ {
		b := work[0]
		work = work[1:]
		var st set
		start := 0
		if first {
			st = set{err: true}
			for i, x := range b.Instrs {
				if x == ssa.Instruction(call) {
					start = i + 1
				}
			}
			first = false
		} else {
			st = clone(in[b])
		}
		for _, x := range b.Instrs[start:] {
			if x == ssa.Instruction(call) || x == err.(ssa.Instruction) && start == 0 {
				delete(st, err) // another attempt
			}
			if v, ok := x.(ssa.Value); ok {
				if _, isC := x.(*ssa.Call); isC && carries(st, v, 0) {
					st[v] = true
				}
			}
			if ret, ok := x.(*ssa.Return); ok {
				e := ret.Results[len(ret.Results)-1]
				if !carries(st, e, 0) && !m.nonNilAt(e, b) {
					bad = ret
				}
			}
		}
		br, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for si, s := range b.Succs {
			o := clone(st)
			if br != nil {
				if x, isNil, ok := nilTest(br.Cond, si == 0); ok {
					if isNil && isErr(st, x) {
						continue
					}
					if !isNil && isErrorType(x.Type()) {
						o[unwrap(x)] = true
					}
				}
				if cmp, ok := br.Cond.(*ssa.BinOp); ok {
					// the number of errors
					if ln, isC := cmp.X.(*ssa.Call); isC {
						if bt, isB := ln.Call.Value.(*ssa.Builtin); isB && bt.Name() == "len" && carries(st, ln.Call.Args[0], 0) {
							if k, isK := constIntOf(cmp.Y); isK && k == 0 {
								empty := cmp.Op == token.EQL && si == 0 || (cmp.Op == token.NEQ || cmp.Op == token.GTR) && si == 1
								if empty {
									continue
								}
							}
						}
					}
				}
			}
			for _, x := range s.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				delete(o, ph)
			}
			for _, x := range s.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				for j, p := range s.Preds {
					if p == b && carries(st, ph.Edges[j], 0) {
						o[ph] = true
					}
				}
			}
			old, was := in[s]
			if !was {
				in[s] = o
				work = append(work, s)
				continue
			}
			meet := set{}
			for k := range old {
				if o[k] {
					meet[k] = true
				}
			}
			if len(meet) != len(old) {
				in[s] = meet
				work = append(work, s)
			}
		}
	}
	// judged again with the final states
	if bad == nil {
		return nil
	}
	bad = nil
	for _, b := range f.Blocks {
		st, ok := in[b]
		if b == call.Block() {
			if !ok {
				st, ok = set{err: true}, true
			} else {
				st = clone(st)
			}
		}
		if !ok {
			continue
		}
		ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR {
			continue
		}
		st = clone(st)
		if b == call.Block() {
			st[err] = true
		}
		e := ret.Results[len(ret.Results)-1]
		for _, x := range b.Instrs {
			if v, isV := x.(ssa.Value); isV {
				if _, isC := x.(*ssa.Call); isC && x != ssa.Instruction(call) && carries(st, v, 0) {
					st[v] = true
				}
			}
		}
		if !carries(st, e, 0) && !m.nonNilAt(e, b) && !fallback(ret, call) {
			bad = ret
		}
	}
	return bad
}
