package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = check{run: runC06,
		explanation: "Registering, taking and finishing are executed in the abstract, with the list and the flag unknown again at every critical section: what is accepted is appended while the scope is open, what is taken is removed in the same critical section, and the scope counts as closed only when nothing registered is left. What was taken is run from the newest to the oldest, one after the other, after every child was closed; every nested scope is in the list of its parent until it closes itself.",
		assumptions: []string{"a clean-up that takes longer than the time-out is overtaken by the next one, by design", "of two goroutines that close a scope at the same time, one may return before the other ran everything", "that the engine closes the scopes it opens is C04"}}
}

type dtorWorld struct {
	w      *World
	list   *types.Var // the registered clean-up
	flag   *types.Var // closed
	owner  *types.Named
	add    []*ssa.Function
	close  []*ssa.Function
	takers map[*ssa.Function]bool
	front  bool // newest at the front

	bad   string
	adds  []string // sections in which something was registered
	plain []string // sections that ended without
	last  []string // value of the flag at the last unlock
}

func runC06(w *World, r *Report) {
	r.Rule("R1-children", "nested scopes are closed before the clean-up of a scope runs", 1)
	r.Rule("R2-order", "what was taken is run from the newest to the oldest, all of it", 1)
	r.Rule("R3-one-by-one", "a clean-up starts when the one before has ended or taken too long", 1)
	r.Rule("R4-once", "clean-up is taken out of the list, whole, in the critical section that reads it", 1)
	r.Rule("R5-register", "clean-up is accepted exactly when it is put into the list of an open scope", 1)
	r.Rule("R6-closed", "a scope counts as closed only when nothing registered is left, and at the latest when closing it ends", 1)
	r.Rule("R7-nested", "a nested scope is in the list of its parent until it closes itself", 1)
	d := &dtorWorld{w: w, takers: map[*ssa.Function]bool{}}
	if why := d.find(); why != "" {
		r.Ob("R5-register", "registered clean-up", "-", false, "%s", why)
		return
	}
	d.register(r)
	d.sections(r)
	d.take(r)
	d.runs(r)
	d.closing(r)
	d.children(r)
}

// near: the functions of the module called statically from here.
func (w *World) near(f *ssa.Function, depth int) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{f: true}
	var rec func(g *ssa.Function, n int)
	rec = func(g *ssa.Function, n int) {
		eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if c, ok := i.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && w.inMod[h] && !out[h] && n > 0 {
					out[h] = true
					rec(h, n-1)
				}
			}
		})
		for _, h := range g.AnonFuncs {
			if !out[h] {
				out[h] = true
				rec(h, n)
			}
		}
	}
	rec(f, depth)
	return out
}

func isCleanUp(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 0
}

func isCleanUps(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isCleanUp(s.Elem())
}

func (d *dtorWorld) find() string {
	w := d.w
	it := w.typeNamed("types", "Scope")
	if it == nil {
		return "no scopes"
	}
	iface := it.Underlying().(*types.Interface)
	for _, f := range w.implsOf(iface, "AddDestructor") {
		if len(f.Blocks) > 0 && f.Synthetic == "" {
			d.add = append(d.add, f)
		}
	}
	for _, f := range w.implsOf(iface, "Close") {
		if len(f.Blocks) > 0 && f.Synthetic == "" {
			d.close = append(d.close, f)
		}
	}
	for _, f := range d.add {
		near := w.near(f, 3)
		for fl, ss := range w.fieldStores {
			if !isCleanUps(fl.Type()) {
				continue
			}
			for _, s := range ss {
				if near[s.Parent()] {
					d.list = fl
				}
			}
		}
	}
	if d.list == nil {
		return "no list of registered clean-up was found"
	}
	var st *types.Struct
	for _, p := range w.Pkgs {
		for _, name := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok {
				if s, ok := n.Underlying().(*types.Struct); ok {
					for k := 0; k < s.NumFields(); k++ {
						if s.Field(k) == d.list {
							d.owner, st = n, s
						}
					}
				}
			}
		}
	}
	if d.owner == nil {
		return "the list of registered clean-up belongs to no type"
	}
	for k := 0; k < st.NumFields(); k++ {
		fl := st.Field(k)
		if b, ok := fl.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		for _, f := range d.add {
			near := w.near(f, 3)
			for _, l := range w.fieldLoads[fl] {
				if near[l.Parent()] {
					d.flag = fl
				}
			}
		}
	}
	if d.flag == nil {
		return "registering clean-up does not look whether the scope is closed"
	}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			u, ok := i.(*ssa.UnOp)
			if !ok || !d.isList(u) {
				return
			}
			for v := range w.flow([]ssa.Value{u}, flowOpts{}) {
				if v.Referrers() == nil {
					continue
				}
				for _, ref := range *v.Referrers() {
					if ret, isR := ref.(*ssa.Return); isR && ret.Parent() == f {
						d.takers[f] = true
					}
				}
			}
			eachInstr(f, func(_ *ssa.BasicBlock, _ int, j ssa.Instruction) {
				// a copy of it is given away
				if ret, isR := j.(*ssa.Return); isR {
					for _, res := range ret.Results {
						if isCleanUps(res.Type()) {
							d.takers[f] = true
						}
					}
				}
			})
		})
	}
	return ""
}

func (d *dtorWorld) isList(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldOf(fa) == d.list
}

func (d *dtorWorld) ownField(fl *types.Var) bool {
	st := d.owner.Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k) == fl {
			return true
		}
	}
	return false
}

func lockCall(c *ssa.CallCommon) (lock, unlock bool) {
	id := callID(c)
	if id.pkg != "sync" {
		return
	}
	switch id.name {
	case "Lock", "RLock":
		return true, false
	case "Unlock", "RUnlock":
		return false, true
	}
	return
}

// world: at every critical section the flag and the list are what others left there.
func (d *dtorWorld) interp(closed func(site string) (bool, bool), empty func() (bool, bool)) *interp {
	in := newInterp(d.w)
	d.bad, d.adds, d.plain, d.last = "", nil, nil, nil
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || g.Pkg == nil || g.Pkg.Pkg != d.owner.Obj().Pkg() || callID(c).name == "Log" || callID(c).name == "Close"
	}
	in.assume = func(t *term) *term {
		if t.op == "param" && strings.HasPrefix(t.str, "closed at ") {
			if v, ok := closed(strings.TrimPrefix(t.str, "closed at ")); ok {
				return in.boolean(v)
			}
		}
		if t.op == "bin" && len(t.args) == 2 {
			e, ok := empty()
			if !ok {
				return nil
			}
			for i := range t.args {
				x, y := t.args[i], t.args[1-i]
				if x.op == "len" && d.whole(x.args[0]) != nil {
					if c, isC := constInt(y); isC {
						switch {
						case t.str == "==" && c == 0:
							return in.boolean(e)
						case t.str == "<" && i == 1 && c == 0, t.str == "<=" && i == 1 && c == 1:
							return in.boolean(!e)
						case t.str == "<" && i == 0 && c == 1, t.str == "<=" && i == 0 && c == 0:
							return in.boolean(e)
						}
					}
				}
				if t.str == "==" && y.op == "nil" && x.op == "param" && strings.HasPrefix(x.str, "registered at ") && !e {
					return in.boolean(false)
				}
			}
		}
		return nil
	}
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		lock, unlock := lockCall(c)
		if !lock && !unlock || len(args) == 0 {
			return nil, false
		}
		t := args[0].only()
		if t == nil || t.op != "fa" || !d.ownField(t.fld) {
			return nil, false
		}
		list := in.mk(term{op: "fa", str: d.list.Name(), fld: d.list, typ: types.NewPointer(d.list.Type()), args: t.args})
		flag := in.mk(term{op: "fa", str: d.flag.Name(), fld: d.flag, typ: types.NewPointer(d.flag.Type()), args: t.args})
		site := d.w.instrPos(in.at)
		if lock {
			in.cur.heap["site"] = tset{in.konst(constant.MakeString(site), types.Typ[types.String])}
			in.store(in.cur, tset{list}, tset{in.param("registered at "+site, d.list.Type())})
			v := in.param("closed at "+site, d.flag.Type())
			if b, ok := closed(site); ok {
				v = in.boolean(b)
			}
			in.store(in.cur, tset{flag}, tset{v})
			return nil, true
		}
		at := in.cur.heap["site"].only()
		if at == nil {
			return nil, true
		}
		from := constant.StringVal(at.cv)
		wasClosed, known := closed(from)
		isEmpty, _ := empty()
		mayClose := false
		for _, v := range in.load(in.cur, flag) {
			b, isB := v.isBool()
			d.last = append(d.last, v.key)
			if !isB || b {
				mayClose = true
			}
			if known && wasClosed && isB && !b {
				d.bad = fmt.Sprintf("%s opens a closed scope again", site)
			}
		}
		for _, v := range in.load(in.cur, list) {
			none := v.op == "nil" || v.op == "zero" || v.op == "list" && len(v.args) == 0 || v.op == "makeslice" && len(v.args) == 1 && isNumber(v.args[0], 0) || emptied(v) || isEmpty && d.whole(v) != nil
			switch {
			case none:
			case d.whole(v) != nil:
				d.plain = append(d.plain, from)
				// a closed scope has nothing registered
				if mayClose && !(known && wasClosed) {
					d.bad = fmt.Sprintf("the scope counts as closed at %s although clean-up may be left in the list", site)
				}
			case v.op == "append" || v.op == "grow":
				d.adds = append(d.adds, from)
				if mayClose {
					d.bad = fmt.Sprintf("clean-up is registered in a closed scope at %s", site)
				}
			default:
				d.bad = fmt.Sprintf("the list becomes %s", v)
			}
		}
		return nil, true
	}
	return in
}

// emptied: list[:0]
func emptied(t *term) bool { return t.op == "slice" && len(t.args) >= 3 && isNumber(t.args[2], 0) }

func isNumber(t *term, c int64) bool { n, ok := constInt(t); return ok && n == c }

// whole: the list registered at some section, or a copy of it; nil otherwise.
func (d *dtorWorld) whole(t *term) *term {
	switch t.op {
	case "param":
		if strings.HasPrefix(t.str, "registered at ") {
			return t
		}
	case "append":
		if len(t.args) == 2 {
			b := t.args[0]
			none := b.op == "nil" || b.op == "zero" || b.op == "list" && len(b.args) == 0 || b.op == "makeslice" && len(b.args) == 1 && isNumber(b.args[0], 0) || b.op == "slice" && len(b.args) >= 3 && isNumber(b.args[2], 0)
			if none {
				return d.whole(t.args[1])
			}
		}
	case "slice":
		for _, a := range t.args[1:] {
			if a.op != "absent" {
				return nil
			}
		}
		return d.whole(t.args[0])
	case "makeslice":
		// filled by copy
		if len(t.args) == 1 && t.args[0].op == "len" {
			return d.whole(t.args[0].args[0])
		}
	}
	return nil
}

func params(in *interp, f *ssa.Function) []tset {
	var args []tset
	for _, p := range f.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	return args
}

// ---------------------------------------------------------------- registering

func (d *dtorWorld) register(r *Report) {
	w := d.w
	for _, f := range d.add {
		ok, why := true, ""
		// the sections
		sites := map[string]bool{}
		probe := d.interp(func(s string) (bool, bool) { sites[s] = true; return false, false }, func() (bool, bool) { return false, false })
		probe.run(f, params(probe, f), nil)
		var names []string
		for s := range sites {
			names = append(names, s)
		}
		if len(names) == 0 || len(names) > 5 || probe.failed != "" {
			r.Ob("R5-register", w.Name(f), w.Pos(f.Pos()), false, "not analysed: %d critical sections %s", len(names), probe.failed)
			continue
		}
		for m := 0; m < 1<<len(names) && ok; m++ {
			world := map[string]bool{}
			any := false
			for k, n := range names {
				world[n] = m&(1<<k) != 0
				any = any || world[n]
			}
			in := d.interp(func(s string) (bool, bool) { v, ok := world[s]; return v, ok }, func() (bool, bool) { return false, false })
			args := params(in, f)
			rets, st := in.run(f, args, nil)
			if in.failed != "" || st == nil || len(rets) != 1 {
				ok, why = false, "not analysed "+in.failed
				break
			}
			if d.bad != "" {
				ok, why = false, d.bad
				break
			}
			accepted := false
			for _, s := range d.adds {
				accepted = true
				if world[s] {
					ok, why = false, "clean-up is put into the list of a closed scope, at "+s
				}
			}
			for _, s := range d.plain {
				for _, x := range d.adds {
					if s == x && !any && ok {
						ok, why = false, "an open scope may not put the clean-up into the list"
					}
				}
			}
			for _, t := range rets[0] {
				refused := t.op != "nil"
				switch {
				case refused && accepted:
					ok, why = false, "clean-up that was put into the list is refused"
				case !refused && !accepted:
					ok, why = false, "clean-up is accepted without being put into the list: the scope may be closed between looking and registering"
				case refused && !any:
					ok, why = false, "an open scope refuses clean-up"
				}
			}
			for _, e := range in.evs("append") {
				if len(e.args) != 2 || !ok {
					continue
				}
				for _, a := range e.args[0] {
					if d.whole(a) != nil && !mentionsTerm(in.one(e.args[1]), args[len(args)-1][0]) {
						ok, why = false, "what is put into the list is not the clean-up given"
					}
					if mentionsTerm(a, args[len(args)-1][0]) {
						d.front = true
					}
				}
			}
		}
		if ok {
			why = "appended while the scope is open, in one critical section, or refused"
		}
		r.Ob("R5-register", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
}

// sections: every function that locks the list leaves it as it should be.
func (d *dtorWorld) sections(r *Report) {
	w := d.w
	for _, f := range w.Fns {
		touches := false
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			if fa, ok := i.(*ssa.FieldAddr); ok && (fieldOf(fa) == d.list || fieldOf(fa) == d.flag) {
				touches = true
			}
		})
		if !touches {
			continue
		}
		// run from a function that locks
		root := f
		locks := func(g *ssa.Function) bool {
			found := false
			eachInstr(g, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
				if c, ok := i.(ssa.CallInstruction); ok {
					if l, _ := lockCall(c.Common()); l {
						found = true
					}
				}
			})
			return found
		}
		for n := 0; n < 4 && !locks(root); n++ {
			cs := w.callers[root]
			if root.Parent() != nil {
				root = root.Parent()
			} else if len(cs) > 0 {
				root = cs[0].Parent()
			}
		}
		ok, why := true, "closed only with an empty list"
		n := 0
		// the flags given to it
		var flags []string
		for _, p := range root.Params {
			if b, isB := p.Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
				flags = append(flags, p.Name())
			}
		}
		for _, x := range [][2]bool{{true, true}, {false, true}, {false, false}} {
			for m := 0; m < 1<<len(flags) && ok; m++ {
				in := d.interp(func(string) (bool, bool) { return x[0], true }, func() (bool, bool) { return x[1], true })
				args := params(in, root)
				for k, p := range root.Params {
					for j, name := range flags {
						if p.Name() == name {
							args[k] = tset{in.boolean(m&(1<<j) != 0)}
						}
					}
				}
				in.run(root, args, nil)
				n += len(d.last)
				if in.failed != "" {
					ok, why = false, in.failed
				}
				if d.bad != "" {
					ok, why = false, d.bad
				}
			}
		}
		if n == 0 {
			ok, why = false, "uses the list without the lock"
		}
		r.Ob("R6-closed", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
}

// ---------------------------------------------------------------- taking

func (d *dtorWorld) take(r *Report) {
	w := d.w
	for f := range d.takers {
		ok, why := true, "given away whole, and removed"
		for _, closed := range []bool{false} {
			in := d.interp(func(string) (bool, bool) { return closed, true }, func() (bool, bool) { return false, true })
			rets, _ := in.run(f, params(in, f), nil)
			if in.failed != "" {
				ok, why = false, in.failed
				break
			}
			left := ""
			if d.bad != "" {
				ok, why = false, d.bad
			}
			if l := d.leftover(f); l != "" {
				left = l
			}
			if left != "" {
				ok, why = false, left
			}
			n := 0
			for k := range rets {
				if !isCleanUps(f.Signature.Results().At(k).Type()) {
					continue
				}
				for _, t := range rets[k] {
					n++
					filled := t.op != "makeslice"
					for _, e := range in.evs("copy") {
						if len(e.args) == 2 && e.args[0].only() == t && e.args[1].only() != nil && d.whole(e.args[1].only()) != nil {
							filled = true
						}
					}
					if d.whole(t) == nil || !filled {
						ok, why = false, fmt.Sprintf("of the list, it gives %s", t)
					}
				}
			}
			if n == 0 {
				ok, why = false, "gives nothing"
			}
		}
		r.Ob("R4-once", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
	if len(d.takers) == 0 {
		r.Ob("R4-once", "taking clean-up", "-", false, "nothing takes the registered clean-up")
	}
}

// leftover: after taking, with something registered, the list is not empty.
func (d *dtorWorld) leftover(f *ssa.Function) string {
	in := d.interp(func(string) (bool, bool) { return false, true }, func() (bool, bool) { return false, true })
	bad, reused := "", false
	inner := in.model
	n := 0
	in.model = func(in *interp, c *ssa.CallCommon, g *ssa.Function, args []tset) ([]tset, bool) {
		if _, un := lockCall(c); un && len(args) > 0 {
			if t := args[0].only(); t != nil && t.op == "fa" && d.ownField(t.fld) {
				n++
				list := in.mk(term{op: "fa", str: d.list.Name(), fld: d.list, typ: types.NewPointer(d.list.Type()), args: t.args})
				for _, v := range in.load(in.cur, list) {
					reused = reused || emptied(v)
					if d.whole(v) != nil || v.op == "⊤" || v.op == "slice" && !emptied(v) {
						bad = fmt.Sprintf("leaves %s in the list it gave away, at %s", v, d.w.instrPos(in.at))
					}
				}
			}
		}
		return inner(in, c, g, args)
	}
	rets, _ := in.run(f, params(in, f), nil)
	if n == 0 {
		return "takes the list without the lock"
	}
	for k := range rets {
		for _, t := range rets[k] {
			if reused && isCleanUps(f.Signature.Results().At(k).Type()) && t.op != "append" && t.op != "makeslice" && t.op != "nil" {
				return "gives away the memory of the list, which is filled again"
			}
		}
	}
	return bad
}

// ---------------------------------------------------------------- running

// taken: the call that took the list the value is (part of), with its place.
func (d *dtorWorld) taken(v ssa.Value) (calls []*ssa.Call) {
	w := d.w
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, o := range w.origins(v, true) {
			switch x := o.(type) {
			case *ssa.Call:
				if d.takers[x.Common().StaticCallee()] {
					calls = append(calls, x)
				}
			case *ssa.Extract:
				rec(x.Tuple)
			case *ssa.Slice:
				rec(x.X)
			case *ssa.UnOp:
				if o != v {
					rec(o)
				}
			}
		}
	}
	rec(v)
	return
}

type cleanRun struct {
	site ssa.Instruction // the call
	elem ssa.Value       // the address of the element, or its range
	list ssa.Value
	ix   ssa.Value
	took []*ssa.Call
	path []ssa.Instruction // from the loop inwards: calls, goroutines
}

// elements: the value is an element of a list that was taken.
func (d *dtorWorld) elements(v ssa.Value) (out []*cleanRun) {
	w := d.w
	for _, o := range w.origins(v, true) {
		u, ok := o.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !isCleanUps(ia.X.Type()) {
			continue
		}
		if took := d.taken(ia.X); len(took) > 0 {
			out = append(out, &cleanRun{elem: u, list: ia.X, ix: ia.Index, took: took})
		}
	}
	return
}

func (d *dtorWorld) runs(r *Report) {
	w := d.w
	ran := map[*ssa.Call]bool{}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil || !isCleanUp(c.Common().Value.Type()) {
				return
			}
			for _, x := range d.elements(c.Common().Value) {
				x.site = i
				for _, t := range x.took {
					ran[t] = true
				}
				ok, why := d.inOrder(x)
				r.Ob("R2-order", w.Name(f), w.instrPos(i), ok, "%s", why)
				ok, why = d.oneByOne(x)
				r.Ob("R3-one-by-one", w.Name(f), w.instrPos(i), ok, "%s", why)
			}
		})
	}
	// everything that is taken is run
	for f := range d.takers {
		for _, c := range w.callers[f] {
			cl, ok := c.(*ssa.Call)
			if d.takers[c.Parent()] {
				continue
			}
			r.Ob("R2-order", w.Name(c.Parent())+" takes", w.instrPos(c), ok && ran[cl], "what is taken is run: %v", ok && ran[cl])
		}
	}
}

// loopOf: the innermost loop around the block.
func innerLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if isHeader(h) && naturalLoop(h)[b] && (best == nil || naturalLoop(best)[h]) {
			best = h
		}
	}
	return best
}

// everyTurnOf: every turn of the loop executes the instruction, unless it takes a skipped edge.
func everyTurnOf(h *ssa.BasicBlock, i ssa.Instruction, skip func(b *ssa.BasicBlock, succ int) bool) bool {
	l := naturalLoop(h)
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool // a turn ends without it
	rec = func(b *ssa.BasicBlock) bool {
		if b == i.Block() {
			return false
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for k, s := range b.Succs {
			if skip != nil && skip(b, k) {
				continue
			}
			if s == h {
				return true
			}
			if l[s] && rec(s) {
				return true
			}
		}
		return false
	}
	if i.Block() == h {
		return true
	}
	return !rec(h)
}

// alwaysRuns: every way through the function executes the instruction, unless there is nothing to
// run.
func alwaysRuns(site ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] || b == site.Block() {
			return true
		}
		seen[b] = true
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return false
		case *ssa.If:
			if cmp, ok := last.Cond.(*ssa.BinOp); ok && isNilConst(cmp.Y) && isCleanUp(cmp.X.Type()) {
				if cmp.Op == token.EQL {
					return rec(b.Succs[1])
				}
				return rec(b.Succs[0])
			}
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(site.Parent().Blocks[0])
}

// climb: the instruction of the given function under which the site happens, whenever it is
// executed; through calls, deferred calls, goroutines and closures.
func (d *dtorWorld) climb(site ssa.Instruction, to *ssa.Function) (path []ssa.Instruction, bad string) {
	w := d.w
	for n := 0; n < 6; n++ {
		path = append([]ssa.Instruction{site}, path...)
		f := site.Parent()
		if f == to {
			return path, ""
		}
		// executed on every way through f
		if !alwaysRuns(site) {
			return nil, fmt.Sprintf("%s may not be executed", w.instrPos(site))
		}
		var next ssa.Instruction
		if f.Parent() != nil {
			mc := closureSite(f)
			if mc == nil {
				// no captured variables
				eachInstr(f.Parent(), func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
					if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
						next = i
					}
				})
			} else if refs := mc.(*ssa.MakeClosure).Referrers(); refs != nil {
				for _, ref := range *refs {
					if c, ok := ref.(ssa.CallInstruction); ok {
						next = c
					}
				}
			}
		} else if cs := w.callers[f]; len(cs) == 1 {
			next = cs[0]
		}
		if next == nil {
			return nil, fmt.Sprintf("who calls %s is not known", w.Name(f))
		}
		site = next
	}
	return nil, "not found"
}

// affine: a*ind + b*len + c
type affine struct {
	ind  ssa.Value // phi, or the cell of a loop variable
	a    int64
	list ssa.Value
	b    int64
	c    int64
}

func (d *dtorWorld) affineOf(v ssa.Value, depth int) (x affine, ok bool) {
	w := d.w
	if depth > 12 {
		return x, false
	}
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(y.Value)
			return affine{c: n}, true
		}
	case *ssa.Convert:
		return d.affineOf(y.X, depth+1)
	case *ssa.Call:
		if b, isB := y.Common().Value.(*ssa.Builtin); isB && b.Name() == "len" && isCleanUps(y.Common().Args[0].Type()) {
			return affine{list: y.Common().Args[0], b: 1}, true
		}
	case *ssa.Phi:
		return affine{ind: y, a: 1}, true
	case *ssa.UnOp:
		if y.Op != token.MUL {
			break
		}
		addr := y.X
		for n := 0; n < 5; n++ {
			fv, isF := addr.(*ssa.FreeVar)
			if !isF {
				break
			}
			b := w.binding(fv)
			if b == nil {
				return x, false
			}
			addr = b
		}
		if ph, isPhi := addr.(*ssa.Phi); isPhi {
			return affine{ind: ph, a: 1}, true
		}
		if os := w.origins(v, false); len(os) == 1 && os[0] != v {
			return d.affineOf(os[0], depth+1)
		}
	case *ssa.BinOp:
		p, ok1 := d.affineOf(y.X, depth+1)
		q, ok2 := d.affineOf(y.Y, depth+1)
		if !ok1 || !ok2 {
			return x, false
		}
		s := int64(1)
		if y.Op == token.SUB {
			s = -1
		} else if y.Op != token.ADD {
			return x, false
		}
		if p.ind != nil && q.ind != nil && p.ind != q.ind || p.list != nil && q.list != nil && !d.sameList(p.list, q.list) {
			return x, false
		}
		x = affine{ind: p.ind, a: p.a + s*q.a, list: p.list, b: p.b + s*q.b, c: p.c + s*q.c}
		if x.ind == nil {
			x.ind = q.ind
		}
		if x.list == nil {
			x.list = q.list
		}
		return x, true
	}
	if os := w.origins(v, true); len(os) == 1 && os[0] != v {
		return d.affineOf(os[0], depth+1)
	}
	return x, false
}

func (d *dtorWorld) sameList(a, b ssa.Value) bool {
	x, y := d.w.origins(a, true), d.w.origins(b, true)
	return len(x) == 1 && len(y) == 1 && x[0] == y[0]
}

// induction: how the loop variable starts and steps.
func (d *dtorWorld) induction(ph *ssa.Phi) (start affine, step int64, ok bool) {
	if _, isPtr := ph.Type().Underlying().(*types.Pointer); !isPtr {
		for k, e := range ph.Edges {
			p := ph.Block().Preds[k]
			if ph.Block().Dominates(p) {
				x, ok1 := d.affineOf(e, 0)
				if !ok1 || x.ind != ph || x.a != 1 || x.b != 0 || step != 0 && step != x.c {
					return start, 0, false
				}
				step = x.c
			} else if start, ok = d.affineOf(e, 0); !ok {
				return start, 0, false
			}
		}
		return start, step, ok && step != 0
	}
	// a variable of its own for every turn
	for k, e := range ph.Edges {
		al, isA := e.(*ssa.Alloc)
		if !isA || al.Referrers() == nil {
			return start, 0, false
		}
		var stores []*ssa.Store
		for _, ref := range *al.Referrers() {
			if s, isS := ref.(*ssa.Store); isS && s.Addr == al {
				stores = append(stores, s)
			}
		}
		if !ph.Block().Dominates(ph.Block().Preds[k]) {
			if len(stores) != 1 {
				return start, 0, false
			}
			if start, ok = d.affineOf(stores[0].Val, 0); !ok {
				return start, 0, false
			}
			continue
		}
		// copied, then stepped
		for _, s := range stores {
			if u, isU := s.Val.(*ssa.UnOp); isU && u.X == ph {
				continue
			}
			b, isB := s.Val.(*ssa.BinOp)
			if !isB {
				return start, 0, false
			}
			u, isU := b.X.(*ssa.UnOp)
			c, isC := b.Y.(*ssa.Const)
			if !isU || u.X != al || !isC || b.Op != token.ADD && b.Op != token.SUB {
				return start, 0, false
			}
			n, _ := constant.Int64Val(c.Value)
			if b.Op == token.SUB {
				n = -n
			}
			step += n
		}
	}
	return start, step, ok && step != 0
}

func (d *dtorWorld) inOrder(x *cleanRun) (bool, string) {
	w := d.w
	ix, ok := d.affineOf(x.ix, 0)
	if !ok {
		return false, "which clean-up runs next is not known"
	}
	f := x.elem.Parent()
	newestLast := !d.front
	if ix.ind == nil {
		// the last one of what is left
		ph, isPhi := x.list.(*ssa.Phi)
		if isPhi && ix.a == 0 && (newestLast && ix.b == 1 && ix.c == -1 || !newestLast && ix.b == 0 && ix.c == 0) && (ix.list == nil || ix.list == x.list) {
			return d.shrinks(x, ph, newestLast)
		}
		return false, "the same clean-up runs every time"
	}
	ph := ix.ind.(*ssa.Phi)
	f = ph.Parent()
	h := ph.Block()
	start, step, ok := d.induction(ph)
	if !ok {
		return false, "which clean-up runs next is not known"
	}
	same := func(l ssa.Value) bool { return l == nil || d.sameList(l, x.list) }
	if start.ind != nil || !same(start.list) || !same(ix.list) {
		return false, "the loop goes over another list"
	}
	// index of the first turn
	fa, fb, fc := ix.a, ix.a*start.b+ix.b, ix.a*start.c+ix.c
	if ix.a != 1 && ix.a != -1 {
		return false, "not every clean-up runs"
	}
	dir := fa * step
	if len(naturalLoop(h)) == 0 {
		return false, "no loop"
	}
	if newestLast && dir > 0 || !newestLast && dir < 0 {
		return false, "the oldest clean-up runs first"
	}
	if dir != 1 && dir != -1 {
		return false, "not every clean-up runs"
	}
	if dir == -1 && !(fb == 1 && fc == -1) || dir == 1 && !(fb == 0 && fc == 0) {
		return false, "the first clean-up that runs is not the newest"
	}
	// as long as there are more
	loop := naturalLoop(h)
	exits := 0
	for b := range loop {
		for k, s := range b.Succs {
			if loop[s] {
				continue
			}
			ifi, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !isIf || !d.lastTurn(ifi.Cond, k == 0, ix, dir, x) {
				return false, fmt.Sprintf("the loop may end before all clean-up has run, at %s", w.instrPos(b.Instrs[len(b.Instrs)-1]))
			}
			exits++
		}
	}
	_ = exits
	path, bad := d.climb(x.site, f)
	if bad != "" {
		return false, bad
	}
	if !everyTurnOf(h, path[0], nil) {
		return false, "some clean-up may be skipped"
	}
	return true, "from the newest to the oldest, all of them"
}

// lastTurn: the condition holds (or not) exactly when the index is past the end.
func (d *dtorWorld) lastTurn(cond ssa.Value, val bool, ix affine, dir int64, x *cleanRun) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	l, ok1 := d.affineOf(b.X, 0)
	r, ok2 := d.affineOf(b.Y, 0)
	if !ok1 || !ok2 {
		return false
	}
	if l.ind != nil && l.ind != ix.ind || r.ind != nil && r.ind != ix.ind {
		return false
	}
	// p*ind + q*len + c OP 0
	p, q, c := l.a-r.a, l.b-r.b, l.c-r.c
	op := b.Op
	if !val {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	if p != 1 && p != -1 {
		return false
	}
	// in terms of the index: ind = a*(ix - b*len - c)
	k := p * ix.a
	q, c = q-k*ix.b, c-k*ix.c
	// k*ix + q*len + c OP 0
	if k == -1 {
		k, q, c = 1, -q, -c
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	// ix OP -q*len - c
	if dir == -1 {
		// ends when ix < 0
		return q == 0 && (op == token.LSS && c == 0 || op == token.LEQ && c == 1 || op == token.EQL && c == 1)
	}
	return q == -1 && (op == token.GEQ && c == 0 || op == token.GTR && c == 1 || op == token.EQL && c == 0)
}

// shrinks: the list gets shorter by the one that ran, until it is empty.
func (d *dtorWorld) shrinks(x *cleanRun, ph *ssa.Phi, newestLast bool) (bool, string) {
	h := ph.Block()
	for k, e := range ph.Edges {
		if !h.Dominates(h.Preds[k]) {
			continue
		}
		s, ok := e.(*ssa.Slice)
		if !ok || s.X != ph || s.Max != nil {
			return false, "what runs next is not known"
		}
		if newestLast {
			hi, ok := d.affineOf(s.High, 0)
			if !ok || s.Low != nil || !(hi.list == ph && hi.b == 1 && hi.c == -1 && hi.ind == nil) {
				return false, "the list does not get shorter by the newest"
			}
		} else {
			lo, ok := d.affineOf(s.Low, 0)
			if !ok || s.High != nil || lo.c != 1 || lo.b != 0 || lo.ind != nil {
				return false, "the list does not get shorter by the newest"
			}
		}
	}
	loop := naturalLoop(h)
	for b := range loop {
		for k, s := range b.Succs {
			if loop[s] {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			cmp, isC := ifi.Cond.(*ssa.BinOp)
			if !ok || !isC {
				return false, "the loop may end before all clean-up has run"
			}
			l, ok1 := d.affineOf(cmp.X, 0)
			r, ok2 := d.affineOf(cmp.Y, 0)
			op := cmp.Op
			if k == 1 {
				op = map[token.Token]token.Token{token.GTR: token.LEQ, token.NEQ: token.EQL, token.GEQ: token.LSS, token.EQL: token.NEQ}[op]
			}
			if !ok1 || !ok2 || l.list != ph || l.b != 1 || l.c != 0 || r.list != nil || r.ind != nil || !(r.c == 0 && (op == token.LEQ || op == token.EQL) || r.c == 1 && op == token.LSS) {
				return false, "the loop may end before all clean-up has run"
			}
		}
	}
	path, bad := d.climb(x.site, ph.Parent())
	if bad != "" {
		return false, bad
	}
	if !everyTurnOf(h, path[0], nil) {
		return false, "some clean-up may be skipped"
	}
	return true, "from the newest to the oldest, all of them"
}

// ---------------------------------------------------------------- one by one

// signal: what is waited for: a context, a channel, a wait group.
func (d *dtorWorld) sameSource(a, b ssa.Value) bool {
	x, y := d.w.origins(a, true), d.w.origins(b, true)
	return len(x) == 1 && len(y) == 1 && x[0] == y[0]
}

// tupleOf: the call a result came from.
func (d *dtorWorld) tupleOf(v ssa.Value, k int) *ssa.Call {
	for _, o := range d.w.origins(v, true) {
		if e, ok := o.(*ssa.Extract); ok && e.Index == k {
			if c, ok := e.Tuple.(*ssa.Call); ok {
				return c
			}
		}
	}
	return nil
}

// signals: what the instruction tells others.
func (d *dtorWorld) signals(i ssa.Instruction) (what ssa.Value, kind string) {
	if s, ok := i.(*ssa.Send); ok {
		return s.Chan, "chan"
	}
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil, ""
	}
	cc := c.Common()
	if b, isB := cc.Value.(*ssa.Builtin); isB && b.Name() == "close" {
		return cc.Args[0], "chan"
	}
	if id := callID(cc); id.pkg == "sync" && id.recv == "WaitGroup" && id.name == "Done" {
		return cc.Args[0], "group"
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if w := d.tupleOf(cc.Value, 1); w != nil && strings.HasPrefix(callID(w.Common()).name, "With") {
			return w, "ctx"
		}
	}
	return nil, ""
}

func (d *dtorWorld) oneByOne(x *cleanRun) (bool, string) {
	w := d.w
	if _, isDefer := x.site.(*ssa.Defer); isDefer {
		return false, "the clean-up is only deferred: the list would be run backwards"
	}
	ix, ok := d.affineOf(x.ix, 0)
	var h *ssa.BasicBlock
	if ok && ix.ind != nil {
		h = ix.ind.(*ssa.Phi).Block()
	} else if ph, isPhi := x.list.(*ssa.Phi); isPhi {
		h = ph.Block()
	}
	if h == nil {
		return false, "no loop"
	}
	path, bad := d.climb(x.site, h.Parent())
	if bad != "" {
		return false, bad
	}
	gi := -1
	for k, i := range path {
		switch i.(type) {
		case *ssa.Go:
			gi = k
		case *ssa.Defer:
			return false, "the clean-up is only deferred"
		}
	}
	if gi < 0 {
		return true, "called directly"
	}
	if gi == len(path)-1 {
		return false, "nobody knows when the clean-up has ended"
	}
	inner := path[gi+1] // in the goroutine: the call
	var told []ssa.Instruction
	eachInstr(inner.Parent(), func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
		if v, _ := d.signals(i); v == nil {
			return
		}
		if _, isDefer := i.(*ssa.Defer); !isDefer && mayPrecede(i, inner) && i != inner {
			bad = fmt.Sprintf("%s tells that the clean-up has ended before it starts", w.instrPos(i))
		}
		told = append(told, i)
	})
	if bad != "" {
		return false, bad
	}
	// the wait
	g := path[gi]
	// made anew for every clean-up
	loop := naturalLoop(h)
	anew := func(v ssa.Value) bool {
		for _, o := range w.origins(v, true) {
			if i, ok := o.(ssa.Instruction); !ok || i.Parent() == h.Parent() && !loop[i.Block()] {
				return false
			}
		}
		return true
	}
	isSignal := func(ch ssa.Value) (signal, timer bool) {
		for _, t := range told {
			what, kind := d.signals(t)
			_, sent := t.(*ssa.Send)
			if kind == "chan" && d.sameSource(what, ch) && (sent || anew(what)) {
				signal = true
			}
		}
		for _, o := range w.origins(ch, true) {
			c, isC := o.(*ssa.Call)
			if !isC {
				continue
			}
			id := callID(c.Common())
			switch {
			case id.pkg == "time" && id.name == "After":
				timer = d.longEnough(c.Common().Args[0])
			case id.name == "Done" && isContext(recvOf(c.Common()).Type()):
				wc := d.tupleOf(recvOf(c.Common()), 0)
				if wc == nil || !anew(wc) {
					continue
				}
				for _, t := range told {
					if what, kind := d.signals(t); kind == "ctx" && what == ssa.Value(wc) {
						signal = true
					}
				}
				if callID(wc.Common()).name == "WithTimeout" {
					timer = d.longEnough(wc.Common().Args[1])
					if !timer {
						signal = false
					}
				} else if !d.fresh(wc.Common().Args[0]) {
					signal = false
				}
				if callID(wc.Common()).name == "WithTimeout" && !d.fresh(wc.Common().Args[0]) {
					signal, timer = false, false
				}
			}
		}
		return
	}
	waits := func(i ssa.Instruction) bool {
		switch y := i.(type) {
		case *ssa.UnOp:
			if y.Op == token.ARROW {
				s, _ := isSignal(y.X)
				return s
			}
		case *ssa.Select:
			if !y.Blocking {
				return false
			}
			any := false
			for _, st := range y.States {
				if st.Dir != types.RecvOnly {
					return false
				}
				s, t := isSignal(st.Chan)
				if !s && !t {
					return false
				}
				any = any || s
			}
			return any
		case *ssa.Call:
			if id := callID(y.Common()); id.pkg == "sync" && id.recv == "WaitGroup" && id.name == "Wait" {
				for _, t := range told {
					if what, kind := d.signals(t); kind == "group" && d.sameSource(what, y.Common().Args[0]) {
						return true
					}
				}
			}
		}
		return false
	}
	// every way from the goroutine to the next turn waits
	fn := g.Parent()
	var missing func(b *ssa.BasicBlock, k int, seen map[*ssa.BasicBlock]bool) bool
	missing = func(b *ssa.BasicBlock, k int, seen map[*ssa.BasicBlock]bool) bool {
		for _, i := range b.Instrs[k:] {
			if waits(i) {
				return false
			}
			if _, isR := i.(*ssa.Return); isR && fn != h.Parent() {
				return true
			}
		}
		for _, s := range b.Succs {
			if s == h {
				return true
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if missing(s, 0, seen) {
				return true
			}
		}
		return false
	}
	for k, i := range g.Block().Instrs {
		if i == g {
			if missing(g.Block(), k+1, map[*ssa.BasicBlock]bool{}) {
				return false, "the next clean-up may start before this one has ended"
			}
		}
	}
	return true, "the end of the clean-up is waited for"
}

// fresh: a context nobody cancels.
func (d *dtorWorld) fresh(v ssa.Value) bool {
	for _, o := range d.w.origins(v, true) {
		c, ok := o.(*ssa.Call)
		if !ok || callID(c.Common()).pkg != "context" || callID(c.Common()).name != "Background" && callID(c.Common()).name != "TODO" {
			return false
		}
	}
	return true
}

// longEnough: a time-out of at least a second.
func (d *dtorWorld) longEnough(v ssa.Value) bool {
	for _, o := range d.w.origins(v, true) {
		if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			if n, exact := constant.Int64Val(c.Value); exact && n < 1e9 {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- closing

func (d *dtorWorld) closing(r *Report) {
	w := d.w
	for _, f := range d.close {
		near := w.near(f, 4)
		var takes []*ssa.Call
		for g := range d.takers {
			for _, c := range w.callers[g] {
				if cl, ok := c.(*ssa.Call); ok && near[c.Parent()] && !d.takers[c.Parent()] {
					takes = append(takes, cl)
				}
			}
		}
		if len(takes) == 0 {
			r.Ob("R6-closed", w.Name(f)+" takes", w.Pos(f.Pos()), false, "closing a scope does not run its clean-up")
			continue
		}
		for _, t := range takes {
			ok, why := d.always(f, t)
			if ok {
				ok, why = d.untilEmpty(t)
			}
			r.Ob("R6-closed", w.Name(f)+" takes", w.instrPos(t), ok, "%s", why)
		}
	}
}

// always: closing never ends without having taken the clean-up, unless the scope was closed.
func (d *dtorWorld) always(f *ssa.Function, t *ssa.Call) (bool, string) {
	w := d.w
	path, bad := d.climb(t, f)
	if bad != "" {
		return false, bad
	}
	site := path[0]
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) ssa.Instruction
	rec = func(b *ssa.BasicBlock) ssa.Instruction {
		if seen[b] || b == site.Block() {
			return nil
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if ret, ok := last.(*ssa.Return); ok {
			return ret
		}
		for k, s := range b.Succs {
			if ifi, ok := last.(*ssa.If); ok {
				if neg, isTest := d.closedTest(ifi.Cond); isTest && (k == 0) != neg {
					continue
				}
				// a loop with a constant bound has a first turn
				if k == 1 && isHeader(b) && firstTurn(ifi.Cond) {
					continue
				}
			}
			if x := rec(s); x != nil {
				return x
			}
		}
		return nil
	}
	if x := rec(f.Blocks[0]); x != nil {
		return false, fmt.Sprintf("closing may end at %s without having run the clean-up", w.instrPos(x))
	}
	return true, ""
}

// firstTurn: the condition holds the first time.
func firstTurn(cond ssa.Value) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	ph, ok := b.X.(*ssa.Phi)
	c, ok2 := b.Y.(*ssa.Const)
	if !ok || !ok2 || c.Value == nil {
		return false
	}
	for k, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[k]) {
			continue
		}
		i, isC := e.(*ssa.Const)
		if !isC || i.Value == nil || !constant.Compare(i.Value, b.Op, c.Value) {
			return false
		}
	}
	return true
}

// closedTest: the condition is the flag of the scope.
func (d *dtorWorld) closedTest(cond ssa.Value) (neg, ok bool) {
	for {
		u, isU := cond.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	isFlag := func(v ssa.Value) bool {
		u, isU := v.(*ssa.UnOp)
		if !isU {
			return false
		}
		fa, isFA := u.X.(*ssa.FieldAddr)
		return isFA && fieldOf(fa) == d.flag
	}
	var gives func(g *ssa.Function, depth int) bool
	gives = func(g *ssa.Function, depth int) bool {
		if g == nil || !d.w.inMod[g] || depth > 3 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR || len(ret.Results) != 1 || b == g.Recover {
				continue
			}
			for _, o := range d.w.origins(ret.Results[0], false) {
				if c, isC := o.(*ssa.Call); isC && gives(c.Common().StaticCallee(), depth+1) {
					n++
					continue
				}
				if !isFlag(o) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	if c, isC := cond.(*ssa.Call); isC {
		return neg, gives(c.Common().StaticCallee(), 0)
	}
	return neg, isFlag(cond)
}

// closedAfter: after taking with these flags, the scope is closed.
func (d *dtorWorld) closedAfter(g *ssa.Function, args map[int]bool, empty bool) bool {
	in := d.interp(func(string) (bool, bool) { return false, true }, func() (bool, bool) { return empty, true })
	ps := params(in, g)
	for k, v := range args {
		ps[k] = tset{in.boolean(v)}
	}
	in.run(g, ps, nil)
	if len(d.last) == 0 || in.failed != "" {
		return false
	}
	for _, s := range d.last {
		if s != in.boolean(true).key {
			return false
		}
	}
	return true
}

// untilEmpty: taking goes on until there is nothing left, or the scope accepts nothing any more.
func (d *dtorWorld) untilEmpty(t *ssa.Call) (bool, string) {
	w := d.w
	g := t.Common().StaticCallee()
	h := innerLoop(t.Block())
	// flags given as they are when ph has this value
	flags := func(ph *ssa.Phi, val constant.Value) map[int]bool {
		out := map[int]bool{}
		for k, a := range t.Common().Args {
			if b, isB := a.Type().Underlying().(*types.Basic); !isB || b.Kind() != types.Bool {
				continue
			}
			if c, isC := a.(*ssa.Const); isC && c.Value != nil {
				out[k] = constant.BoolVal(c.Value)
				continue
			}
			neg := false
			for {
				u, isU := a.(*ssa.UnOp)
				if !isU || u.Op != token.NOT {
					break
				}
				a, neg = u.X, !neg
			}
			cmp, isB := a.(*ssa.BinOp)
			if !isB || ph == nil {
				continue
			}
			x, ok1 := d.affineOf(cmp.X, 0)
			y, ok2 := d.affineOf(cmp.Y, 0)
			if !ok1 || !ok2 || x.list != nil || y.list != nil {
				continue
			}
			n, _ := constant.Int64Val(val)
			l, r := x.c, y.c
			if x.ind == ph {
				l += x.a * n
			} else if x.ind != nil {
				continue
			}
			if y.ind == ph {
				r += y.a * n
			} else if y.ind != nil {
				continue
			}
			out[k] = constant.Compare(constant.MakeInt64(l), cmp.Op, constant.MakeInt64(r)) != neg
		}
		return out
	}
	if h == nil {
		if d.closedAfter(g, flags(nil, nil), false) && d.closedAfter(g, flags(nil, nil), true) {
			return true, "closed when it is taken"
		}
		return false, "clean-up registered while closing is accepted but never runs"
	}
	loop := naturalLoop(h)
	for b := range loop {
		for k, s := range b.Succs {
			if loop[s] {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false, "taking may end early"
			}
			if d.emptyTest(ifi.Cond, k == 0, t) {
				if !d.closedAfter(g, nil, true) {
					return false, "clean-up registered after the last look at the list is accepted but never runs"
				}
				continue
			}
			// the counter of turns
			cmp, isB := ifi.Cond.(*ssa.BinOp)
			ph, bound, step := counterOf(cmp, isB)
			if ph == nil || k != 1 {
				return false, fmt.Sprintf("taking may end early, at %s", w.instrPos(ifi))
			}
			lastv := bound
			if cmp.Op == token.LSS || cmp.Op == token.NEQ || cmp.Op == token.GTR {
				lastv -= step
			}
			if !d.closedAfter(g, flags(ph, constant.MakeInt64(lastv)), false) {
				return false, "clean-up registered during the last turn is accepted but never runs"
			}
		}
	}
	return true, "until nothing is left, or nothing more is accepted"
}

func counterOf(cmp *ssa.BinOp, ok bool) (ph *ssa.Phi, bound, step int64) {
	if !ok {
		return nil, 0, 0
	}
	ph, isP := cmp.X.(*ssa.Phi)
	c, isC := cmp.Y.(*ssa.Const)
	if !isP || !isC || c.Value == nil || c.Value.Kind() != constant.Int {
		return nil, 0, 0
	}
	for k, e := range ph.Edges {
		if !ph.Block().Dominates(ph.Block().Preds[k]) {
			continue
		}
		b, isB := e.(*ssa.BinOp)
		if !isB || b.X != ph || b.Op != token.ADD && b.Op != token.SUB {
			return nil, 0, 0
		}
		s, isS := b.Y.(*ssa.Const)
		if !isS {
			return nil, 0, 0
		}
		step, _ = constant.Int64Val(s.Value)
		if b.Op == token.SUB {
			step = -step
		}
	}
	if step != 1 && step != -1 {
		return nil, 0, 0
	}
	bound, _ = constant.Int64Val(c.Value)
	return ph, bound, step
}

// emptyTest: the branch is taken when nothing was taken.
func (d *dtorWorld) emptyTest(cond ssa.Value, val bool, t *ssa.Call) bool {
	for {
		u, isU := cond.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		cond, val = u.X, !val
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := b.Op
	if !val {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	tookIt := func(v ssa.Value) bool {
		for _, c := range d.taken(v) {
			if c != t {
				return false
			}
		}
		return len(d.taken(v)) > 0
	}
	if isNilConst(b.Y) && isCleanUps(b.X.Type()) {
		return op == token.EQL && tookIt(b.X)
	}
	l, ok1 := d.affineOf(b.X, 0)
	r, ok2 := d.affineOf(b.Y, 0)
	if !ok1 || !ok2 || l.ind != nil || r.ind != nil {
		return false
	}
	if r.list != nil && l.list == nil {
		l, r = r, l
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	if l.list == nil || r.list != nil || l.b != 1 || !tookIt(l.list) {
		return false
	}
	c := r.c - l.c
	return op == token.EQL && c == 0 || op == token.LEQ && c == 0 || op == token.LSS && c == 1
}

// ---------------------------------------------------------------- children

func (d *dtorWorld) children(r *Report) {
	w := d.w
	var kids *types.Var
	var scope *types.Named
	for _, f := range d.close {
		scope = recvNamed(f)
		st, ok := scope.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			switch t := st.Field(k).Type().Underlying().(type) {
			case *types.Slice:
				if namedOf(t.Elem()) == scope || w.isScope(t.Elem()) {
					kids = st.Field(k)
				}
			case *types.Map:
				if namedOf(t.Elem()) == scope || namedOf(t.Key()) == scope {
					kids = st.Field(k)
				}
			}
		}
		if kids == nil {
			r.Ob("R1-children", w.Name(f), w.Pos(f.Pos()), false, "a scope does not know the scopes nested in it")
			return
		}
		d.closesChildren(r, f, kids, scope)
	}
	if kids == nil {
		return
	}
	cp := w.lookupMethod("scope", "Scope", "Copy")
	if cp != nil {
		in := newInterp(w)
		in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
			return g == nil || g.Pkg != cp.Pkg || callID(c).name == "Log"
		}
		self := in.param("self", cp.Params[0].Type())
		rets, st := in.run(cp, []tset{{self}}, nil)
		ok, why := in.failed == "" && st != nil && len(rets) == 1, "not analysed "+in.failed
		if ok {
			why = "in the list of its parent"
			for _, child := range rets[0] {
				list := in.load(st, in.mk(term{op: "fa", str: kids.Name(), fld: kids, typ: types.NewPointer(kids.Type()), args: []*term{self}}))
				for _, l := range list {
					if l.op == "⊤" {
						ok, why = false, "the list of its parent is not known"
					} else if !(l.op == "append" || l.op == "grow") || !mentionsTerm(l.args[len(l.args)-1], unbox(child)) {
						ok, why = false, fmt.Sprintf("its parent may not know it: its list may be %s", l)
					}
				}
				if _, isMap := kids.Type().Underlying().(*types.Map); isMap {
					ok = false
					for _, e := range in.evs("mapupdate") {
						if mentionsTerm(in.one(e.args[1]), unbox(child)) || mentionsTerm(in.one(e.args[2]), unbox(child)) {
							ok, why = true, "in the list of its parent"
						}
					}
				}
			}
		}
		r.Ob("R7-nested", w.Name(cp), w.Pos(cp.Pos()), ok, "%s", why)
	}
	// who changes the list
	for _, s := range w.fieldStores[kids] {
		f := s.Parent()
		for _, o := range w.origins(s.Val, false) {
			ok, why := d.keepsAll(o, kids, map[ssa.Value]bool{})
			if isFreshStruct(s) {
				continue
			}
			r.Ob("R7-nested", w.Name(f)+" changes the list", w.instrPos(s), ok, "%s", why)
		}
	}
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !d.isKids(ia.X, kids) {
				return
			}
			ok, why := d.ownEntry(s, ia, kids, scope)
			r.Ob("R7-nested", w.Name(f)+" clears", w.instrPos(i), ok, "%s", why)
		})
	}
}

func isFreshStruct(s *ssa.Store) bool {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, isA := fa.X.(*ssa.Alloc)
	return isA
}

func (d *dtorWorld) isKids(v ssa.Value, kids *types.Var) bool {
	for _, o := range d.w.origins(v, false) {
		u, ok := o.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldOf(fa) != kids {
			return false
		}
	}
	return true
}

// keepsAll: a new list of children has everything the old one had, but for the empty entries.
func (d *dtorWorld) keepsAll(v ssa.Value, kids *types.Var, seen map[ssa.Value]bool) (bool, string) {
	w := d.w
	if seen[v] {
		return true, ""
	}
	seen[v] = true
	if d.isKids(v, kids) {
		return true, "one more"
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ok, why := d.keepsAll(e, kids, seen); !ok {
				return ok, why
			}
		}
		return true, "the old entries"
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return d.keepsAll(x.X, kids, seen)
		}
		if c, ok := x.High.(*ssa.Const); !ok || x.Low != nil || c.Int64() != 0 {
			return false, "part of the list of children is dropped"
		}
	}
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.Const, *ssa.MakeMap, *ssa.Slice:
		// empty: filled in a loop over the old one
		for _, ref := range grown(v) {
			b := ref.Block()
			h := innerLoop(b)
			if h == nil {
				continue
			}
			l := naturalLoop(h)
			over := false
			for lb := range l {
				for _, i := range lb.Instrs {
					if ia, ok := i.(*ssa.IndexAddr); ok && d.isKids(ia.X, kids) {
						over = true
					}
					if rg, ok := i.(*ssa.Next); ok && !rg.IsString {
						over = true
					}
				}
			}
			if !over {
				continue
			}
			skip := func(b *ssa.BasicBlock, k int) bool {
				ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					return false
				}
				cmp, ok := ifi.Cond.(*ssa.BinOp)
				if !ok || !(isNilConst(cmp.X) || isNilConst(cmp.Y)) {
					return false
				}
				return cmp.Op == token.EQL && k == 0 || cmp.Op == token.NEQ && k == 1
			}
			if !everyTurnOf(h, ref, skip) {
				return false, fmt.Sprintf("a child may be left out of the new list, at %s", w.instrPos(ref))
			}
			for lb := range l {
				for k, s := range lb.Succs {
					if !l[s] && lb != h {
						_ = k
						return false, fmt.Sprintf("children may be left out of the new list, at %s", w.instrPos(lb.Instrs[len(lb.Instrs)-1]))
					}
				}
			}
			return true, "all but the empty entries"
		}
		return false, "the list of children is emptied"
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return d.keepsAll(x.Common().Args[0], kids, seen)
		}
		if g := x.Common().StaticCallee(); g != nil && w.inMod[g] {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if types.Identical(res.Type(), v.Type()) {
							for _, o := range w.origins(res, false) {
								if ok, why := d.keepsAll(o, kids, seen); !ok {
									return ok, why
								}
							}
						}
					}
				}
			}
			return true, "made by " + g.Name()
		}
	}
	return false, fmt.Sprintf("the list of children becomes %s", v.Name())
}

// grown: the calls that append to the list.
func grown(v ssa.Value) (out []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi:
				rec(x)
			case *ssa.MapUpdate:
				out = append(out, x)
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Common().Args[0] == v {
					out = append(out, x)
					rec(x)
				}
			}
		}
	}
	rec(v)
	return
}

// ownEntry: only the entry of the scope itself is cleared.
func (d *dtorWorld) ownEntry(s *ssa.Store, ia *ssa.IndexAddr, kids *types.Var, scope *types.Named) (bool, string) {
	w := d.w
	if !isNilConst(s.Val) {
		return false, "an entry of the list is replaced"
	}
	// the index is the one given to a helper
	var sameIdx func(a, b ssa.Value, depth int) bool
	sameIdx = func(a, b ssa.Value, depth int) bool {
		if a == b {
			return true
		}
		p, ok := a.(*ssa.Parameter)
		if !ok || depth > 3 || len(w.callers[p.Parent()]) == 0 {
			return false
		}
		for _, c := range w.callers[p.Parent()] {
			if x := argOfParam(c, p); x == nil || !sameIdx(x, b, depth+1) {
				return false
			}
		}
		return true
	}
	isElem := func(v ssa.Value) bool {
		os := w.origins(v, true)
		for _, o := range os {
			u, ok := o.(*ssa.UnOp)
			if !ok {
				return false
			}
			x, ok := u.X.(*ssa.IndexAddr)
			if !ok || !d.isKids(x.X, kids) || !sameIdx(ia.Index, x.Index, 0) {
				return false
			}
		}
		return len(os) > 0
	}
	self := func(v ssa.Value) bool {
		for _, o := range w.origins(v, true) {
			p, ok := o.(*ssa.Parameter)
			if !ok || namedOf(p.Type()) != scope {
				return false
			}
		}
		return true
	}
	var id *types.Var
	field := func(v ssa.Value) (ssa.Value, *types.Var) {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil, nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return nil, nil
		}
		return fa.X, fieldOf(fa)
	}
	for _, b := range s.Parent().Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(s.Block()) {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		succ := b.Succs[0]
		if cmp.Op == token.NEQ {
			succ = b.Succs[1]
		}
		if !(succ == s.Block() || succ.Dominates(s.Block())) || len(succ.Preds) != 1 {
			continue
		}
		x, y := cmp.X, cmp.Y
		if isElem(x) && self(y) || isElem(y) && self(x) {
			return true, "the entry of the scope itself"
		}
		xo, xf := field(x)
		yo, yf := field(y)
		if xf == nil || xf != yf {
			continue
		}
		if isElem(xo) && self(yo) || isElem(yo) && self(xo) {
			id = xf
		}
	}
	if id == nil {
		return false, "the entry of another scope may be cleared"
	}
	// no two scopes have the same
	a := &aggWorld{w: w}
	for _, f := range w.Fns {
		bad := ""
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			al, ok := i.(*ssa.Alloc)
			if !ok || namedOf(al.Type()) != scope || !isStructAlloc(al) {
				return
			}
			set := false
			for _, st := range w.fieldStores[id] {
				if fa, isFA := st.Addr.(*ssa.FieldAddr); isFA && fa.X == ssa.Value(al) {
					set = true
					in := newInterp(w)
					in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool { return g == nil || g != stCallee(st) }
					v := tset(nil)
					if c, isC := st.Val.(*ssa.Call); isC && c.Common().StaticCallee() != nil && len(c.Common().Args) == 0 {
						rets, _ := in.run(c.Common().StaticCallee(), nil, nil)
						if len(rets) == 1 {
							v = rets[0]
						}
					}
					if t := v.only(); t == nil {
						bad = fmt.Sprintf("the identity of the scope made at %s is not a new number", w.instrPos(i))
					} else if g, why := a.countsUp(t); g == nil {
						bad = fmt.Sprintf("the scope made at %s: %s", w.instrPos(i), why)
					}
				}
			}
			if !set {
				bad = fmt.Sprintf("the scope made at %s has no identity of its own", w.instrPos(i))
			}
		})
		if bad != "" {
			return false, bad
		}
	}
	return true, "the entry with the identity of the scope itself, which no other has"
}

func stCallee(s *ssa.Store) *ssa.Function {
	if c, ok := s.Val.(*ssa.Call); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

func isStructAlloc(a *ssa.Alloc) bool {
	_, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok
}

// closesChildren: when clean-up is taken, all children were closed.
func (d *dtorWorld) closesChildren(r *Report, f *ssa.Function, kids *types.Var, scope *types.Named) {
	w := d.w
	in := newInterp(w)
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		if d.takers[g] {
			return true
		}
		return g == nil || g.Pkg != f.Pkg || callID(c).name == "Log"
	}
	self := in.param("self", f.Params[0].Type())
	in.assume = func(t *term) *term {
		// a scope that was closed is left alone
		if t.op == "field" && t.fld == d.flag {
			return in.boolean(false)
		}
		return nil
	}
	in.run(f, []tset{{self}}, nil)
	if in.failed != "" {
		r.Ob("R1-children", w.Name(f), w.Pos(f.Pos()), false, "not analysed: %s", in.failed)
		return
	}
	// the entries of the list, or a copy of it
	var isList func(t *term) bool
	isList = func(t *term) bool {
		switch t.op {
		case "field":
			return t.fld == kids && len(t.args) == 1 && t.args[0] == self
		case "append":
			return isList(t.args[len(t.args)-1])
		case "slice":
			for _, a := range t.args[1:] {
				if a.op != "absent" {
					return false
				}
			}
			return isList(t.args[0])
		case "makeslice":
			return len(t.args) == 1 && t.args[0].op == "len" && isList(t.args[0].args[0])
		}
		return false
	}
	isChild := func(t *term) (list *term) {
		if t.op == "elem" && isList(t.args[0]) {
			return t.args[0]
		}
		return nil
	}
	closed := 0
	for _, e := range append(in.evs("call"), in.evs("enter")...) {
		if e.name.name != "Close" || len(e.args) == 0 {
			continue
		}
		c := e.args[0].only()
		if c == nil {
			continue
		}
		l := isChild(unbox(c))
		if l == nil {
			continue
		}
		closed++
		ok, why := true, "every child"
		if _, isCall := e.in.(*ssa.Call); !isCall {
			ok, why = false, "closing a child is not waited for"
		}
		if ix := unbox(c).args[1]; !fullRange(ix) && !fromTheEnd(ix, l) {
			ok, why = false, "not every child is closed"
		}
		for _, fc := range e.facts {
			t := fc.t
			if !mentionsTerm(t, unbox(c).args[1]) {
				continue
			}
			switch {
			case t.op == "bin" && t.str == "==" && !fc.val && (t.args[0].op == "nil" || t.args[1].op == "nil" || t.args[0] == self || t.args[1] == self):
			case t.op == "bin" && (t.args[0].op == "len" || t.args[1].op == "len" || t.args[0].op == "const" || t.args[1].op == "const") && (t.str == "<" || t.str == "<=") && !mentionsTerm(t, unbox(c)):
			default:
				ok, why = false, fmt.Sprintf("a child is closed only if %s is %v", t, fc.val)
			}
		}
		r.Ob("R1-children", w.Name(f)+" closes", w.instrPos(e.in), ok, "%s", why)
	}
	if closed == 0 {
		r.Ob("R1-children", w.Name(f)+" closes", w.Pos(f.Pos()), false, "nested scopes are not closed")
	}
	// before taking: the loop over the children has ended
	back := func(ix *term) bool {
		var list *term
		termHas(ix, func(x *term) bool {
			if x.op == "len" && isList(x.args[0]) {
				list = x.args[0]
			}
			return false
		})
		return list != nil && ix.op == "ind" && fromTheEnd(ix, list)
	}
	n := 0
	for _, e := range in.evs("call") {
		if !d.takers[calleeOf(e)] {
			continue
		}
		n++
		ok, why := false, "the clean-up of a scope may run before its nested scopes are closed"
		for _, fc := range e.facts {
			t := fc.t
			if t.op != "bin" || len(t.args) != 2 {
				continue
			}
			a, b := t.args[0], t.args[1]
			switch {
			case t.str == "<" && !fc.val && b.op == "len" && isList(b.args[0]) && fullRange(a),
				t.str == "<=" && fc.val && a.op == "len" && isList(a.args[0]) && fullRange(b),
				t.str == "<" && fc.val && isNumber(b, 0) && back(a), t.str == "<=" && fc.val && isNumber(b, -1) && back(a),
				t.str == "<=" && !fc.val && isNumber(a, 0) && back(b), t.str == "<" && !fc.val && isNumber(a, -1) && back(b):
				ok, why = true, "after the loop over the nested scopes"
			}
		}
		r.Ob("R1-children", w.Name(f)+" takes", w.instrPos(e.in), ok, "%s", why)
	}
	if n == 0 {
		r.Ob("R1-children", w.Name(f)+" takes", w.Pos(f.Pos()), false, "closing a scope does not run its clean-up")
	}
}

func calleeOf(e *aevent) *ssa.Function {
	if c, ok := e.in.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}
