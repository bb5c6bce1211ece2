package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = check{run: runC19,
		explanation: "Every function and plugin that extracts declared arguments is executed in the abstract in the world where extracting them fails, with its goroutines: on every way the error is logged, NULL is returned or no row is sent, and no argument is looked at. The struct a built-in declares in Info is compared with the struct Call extracts into, and every declaration is checked: tag, name, type.",
		assumptions: []string{"scope.Log reports to the user", "functions and plugins defined through GenericFunction and GenericListPlugin bring their own argument handling"}}
}

type extraction struct {
	root *ssa.Function // the method Call, or the function that extracts
	call ssa.CallInstruction
	arg  *types.Named
}

func (w *World) extractions() []extraction {
	entries := map[*ssa.Function]bool{}
	for _, e := range w.argEntries() {
		entries[e] = true
	}
	var out []extraction
	for _, f := range w.Fns {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := c.Common().StaticCallee()
			if g == nil || !entries[g] || entries[f] {
				return
			}
			x := extraction{root: outermost(f), call: c}
			for _, a := range c.Common().Args {
				if m, ok := a.(*ssa.MakeInterface); ok {
					if n := namedOf(m.X.Type()); n != nil && len(argFields(n)) > 0 {
						x.arg = n
					}
				}
			}
			// a helper used in one place is judged where it is used
			for x.root.Name() != "Call" && w.directOnly(x.root) && len(w.callers[x.root]) == 1 {
				x.root = outermost(w.callers[x.root][0].Parent())
			}
			out = append(out, x)
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].root.String() < out[j].root.String() })
	return out
}

func runC19(w *World, r *Report) {
	r.Rule("R1-logged", "when the arguments are refused the error is logged", 5)
	r.Rule("R2-null", "when the arguments are refused NULL is returned, or no row is produced", 5)
	r.Rule("R3-unused", "when the arguments are refused none of them is used", 5)
	r.Rule("R4-declared", "what Info declares is what Call extracts", 5)
	r.Rule("R5-tags", "a declared argument has a well-formed tag, a name of its own and a type that can be extracted", 11)
	r.Rule("R6-workers", "whatever number of workers is asked for, there is at least one", 1)

	xs := w.extractions()
	byType := map[*types.Named]*types.Named{}
	for _, x := range xs {
		w.refusedWorld(r, x)
		if n := recvNamed(x.root); n != nil && x.arg != nil {
			byType[n] = x.arg
		}
	}
	w.declared(r, byType)
	tab := w.argTable()
	for _, a := range w.argStructs() {
		w.tags(r, tab, a)
	}
	w.workers(r, xs)
}

func recvNamed(f *ssa.Function) *types.Named {
	if f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

func (w *World) extractWorld(x extraction, refused bool, extra func(in *interp, t *term) *term) (*interp, []tset, *ssa.Function) {
	in := newInterp(w)
	in.fill = true
	in.enterGo = true
	entries := map[*ssa.Function]bool{}
	for _, e := range w.argEntries() {
		entries[e] = true
	}
	in.opaque = func(c *ssa.CallCommon, g *ssa.Function) bool {
		return g == nil || entries[g] || g.Pkg != nil && g.Pkg != x.root.Pkg && g.Pkg.Pkg.Name() != "types"
	}
	isErr := func(t *term) bool {
		if t.op == "res" {
			t = t.args[0]
		}
		return t.op == "call" && strings.HasPrefix(t.str, "arg_parser.Extract")
	}
	in.assume = func(t *term) *term {
		if t.op == "bin" && t.str == "==" && len(t.args) == 2 {
			for _, p := range [][2]*term{{t.args[0], t.args[1]}, {t.args[1], t.args[0]}} {
				if p[1].op == "nil" && isErr(p[0]) {
					return in.boolean(!refused)
				}
			}
		}
		if extra != nil {
			return extra(in, t)
		}
		return nil
	}
	var args []tset
	for _, p := range x.root.Params {
		args = append(args, tset{in.param(p.Name(), p.Type())})
	}
	rets, _ := in.run(x.root, args, nil)
	return in, rets, x.root
}

func (w *World) refusedWorld(r *Report, x extraction) {
	nm, pos := w.Name(x.root), w.instrPos(x.call)
	in, rets, _ := w.extractWorld(x, true, nil)
	if in.failed != "" {
		r.Ob("R1-logged", nm, pos, false, "%s", in.failed)
		return
	}
	isErr := func(t *term) bool { return t.op == "call" && strings.HasPrefix(t.str, "arg_parser.Extract") }
	// logged
	var logs []*aevent
	for _, e := range in.evs("call") {
		if e.name.name == "Log" || e.name.name == "Error" && e.name.recv == "Scope" {
			for _, a := range e.args {
				for _, t := range a {
					if termHas(t, isErr) {
						logs = append(logs, e)
					}
				}
			}
		}
	}
	ok, why := len(logs) > 0, "the error is not logged"
	if ok {
		why = "logged at " + w.instrPos(logs[0].in)
		// not only sometimes: a condition under which it is logged
		l := logs[0]
		if c := x.call.Parent(); l.fn == c && !w.onEveryWay(in, x.call, l.in, c) {
			ok, why = false, "the error logged at "+w.instrPos(l.in)+" is not logged on every way"
		}
	}
	r.Ob("R1-logged", nm, pos, ok, "%s", why)

	// NULL
	ok, why = true, "NULL"
	for _, e := range in.evs("send") {
		ok, why = false, "a row is sent at "+w.instrPos(e.in)
	}
	for _, e := range in.evs("call") {
		if w.evaluation(e, in) && e.name.name != "Explainer" {
			if c, isc := e.in.(ssa.CallInstruction); isc && c.Common().IsInvoke() {
				ok, why = false, "something is still evaluated, at "+w.instrPos(e.in)
			}
		}
	}
	res := x.root.Signature.Results()
	if res.Len() == 1 {
		if _, ch := res.At(0).Type().Underlying().(*types.Chan); !ch {
			if len(rets) == 0 {
				ok, why = false, "never returns"
			} else {
				for _, t := range rets[0] {
					if !isNullResult(t) {
						ok, why = false, "gives "+t.key+", not NULL"
					}
				}
			}
		} else if len(rets) > 0 {
			for _, t := range rets[0] {
				if t.op != "makechan" && !(t.op == "conv" && t.args[0].op == "makechan") {
					ok, why = false, "gives the rows of "+t.key
				}
			}
		}
	}
	r.Ob("R2-null", nm, pos, ok, "%s", why)

	// unused
	ok, why = true, "no argument is used"
	if x.arg == nil {
		ok, why = false, "the struct the arguments go to is not known"
	} else {
		for _, k := range []string{"call", "send", "join", "div", "mapupdate"} {
			for _, e := range in.evs(k) {
				if e.in == ssa.Instruction(x.call) {
					continue
				}
				for _, a := range e.args {
					for _, f := range argFields(x.arg) {
						if a.mentionsField(f.v) {
							ok, why = false, fmt.Sprintf("the argument %s is used at %s", f.name, w.instrPos(e.in))
						}
					}
				}
			}
		}
	}
	r.Ob("R3-unused", nm, pos, ok, "%s", why)
}

// onEveryWay: in the blocks this world reaches, no way leads from a to the end around b.
func (w *World) onEveryWay(in *interp, a ssa.Instruction, b ssa.Instruction, f *ssa.Function) bool {
	if a.Block() == b.Block() {
		return mayPrecede(a, b)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var around func(x *ssa.BasicBlock) bool
	around = func(x *ssa.BasicBlock) bool {
		if x == b.Block() || seen[x] {
			return false
		}
		seen[x] = true
		if _, end := x.Instrs[len(x.Instrs)-1].(*ssa.Return); end {
			return true
		}
		for _, y := range x.Succs {
			if in.took[[2]*ssa.BasicBlock{x, y}] && around(y) {
				return true
			}
		}
		return false
	}
	return !around(a.Block())
}

func isNullResult(t *term) bool {
	if t.op == "nil" {
		return true
	}
	if t.op != "iface" {
		return false
	}
	n := namedOf(t.typ)
	return n != nil && n.Obj().Name() == "Null"
}

// ---------------------------------------------------------------- declarations

func (w *World) declared(r *Report, byType map[*types.Named]*types.Named) {
	for _, f := range w.Fns {
		if f.Name() != "Info" || recvNamed(f) == nil {
			continue
		}
		n := recvNamed(f)
		var declared []*types.Named
		generic := false
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, i ssa.Instruction) {
			c, ok := i.(ssa.CallInstruction)
			if !ok || callID(c.Common()).name != "AddType" {
				return
			}
			for _, a := range c.Common().Args {
				if m, ok := a.(*ssa.MakeInterface); ok {
					if d := namedOf(m.X.Type()); d != nil && !types.IsInterface(d) && !w.isScope(d) {
						declared = append(declared, d)
					}
				} else if p := w.pathOf(a); p.root != nil && strings.Contains(p.sel, "ArgType") {
					generic = true
				}
			}
		})
		used := byType[n]
		if used == nil && len(declared) == 0 {
			continue
		}
		_ = generic
		ok, why := true, "the same"
		switch {
		case used == nil:
			ok, why = false, fmt.Sprintf("%s declares %s, but Call extracts no arguments", n.Obj().Name(), declared[0].Obj().Name())
		case len(declared) == 0:
			ok, why = false, fmt.Sprintf("Call extracts %s, which Info does not declare", used.Obj().Name())
		default:
			for _, d := range declared {
				if d != used {
					ok, why = false, fmt.Sprintf("Info declares %s, Call extracts %s", d.Obj().Name(), used.Obj().Name())
				}
			}
		}
		r.Ob("R4-declared", w.Name(f), w.Pos(f.Pos()), ok, "%s", why)
	}
}

func (w *World) tags(r *Report, tab *argTable, a argStruct) {
	names := map[string]bool{}
	for _, f := range a.fields {
		ok, why := true, f.raw
		req, opt := 0, 0
		for _, d := range strings.Split(f.raw, ",") {
			d = strings.TrimSpace(d)
			switch {
			case d == "required":
				req++
			case d == "optional":
				opt++
			case strings.HasPrefix(d, "field=") && len(d) > len("field="):
			case strings.HasPrefix(d, "field"):
				ok, why = false, "the name is missing in "+f.raw
			}
		}
		if req+opt != 1 {
			ok, why = false, "it is not said, once, whether the argument is required: "+f.raw
		}
		if names[f.name] {
			ok, why = false, "the name "+f.name+" is used twice"
		}
		names[f.name] = true
		if !f.v.Exported() {
			ok, why = false, "the field "+f.v.Name()+" cannot be set"
		}
		if ps, unknown := w.parsersFor(tab, f.v.Type()); len(ps) != 1 || unknown != "" {
			ok, why = false, "an argument of type "+typeKey(f.v.Type())+" cannot be extracted "+unknown
		}
		r.Ob("R5-tags", a.named.Obj().Name()+"."+f.name, w.Pos(f.v.Pos()), ok, "%s", why)
	}
}

// ---------------------------------------------------------------- workers

func (w *World) workers(r *Report, xs []extraction) {
	for _, x := range xs {
		if x.arg == nil {
			continue
		}
		for _, f := range argFields(x.arg) {
			b, isB := f.v.Type().Underlying().(*types.Basic)
			if !strings.Contains(f.name, "worker") || !isB || b.Info()&types.IsInteger == 0 {
				continue
			}
			ok, why, seen := true, "", 0
			for _, n := range []int64{-5, -1, 0, 1} {
				for _, async := range []bool{true, false} {
					in, _, _ := w.extractWorld(x, false, func(in *interp, t *term) *term {
						if t.op == "field" && t.fld == f.v {
							return in.konst(constant.MakeInt64(n), f.v.Type())
						}
						if t.op == "field" && t.fld != nil && isFieldOf(t.fld, x.arg) && types.Identical(t.fld.Type(), types.Typ[types.Bool]) {
							return in.boolean(async)
						}
						return nil
					})
					if in.failed != "" {
						ok, why = false, in.failed
						continue
					}
					// started at all
					started := false
					for _, e := range append(in.evs("go"), in.evs("enter")...) {
						if g, isGo := e.in.(*ssa.Go); isGo && g.Parent() != x.root && w.loopBody(g, x.root, 0) {
							started = true
						}
					}
					seen++
					if !started {
						ok, why = false, fmt.Sprintf("with %s=%d no worker is started", f.name, n)
					}
				}
			}
			r.Ob("R6-workers", x.arg.Obj().Name()+"."+f.name, w.Pos(f.v.Pos()), ok && seen > 0, "%s", why)
		}
	}
}

// loopBody: the instruction is executed in a loop, here or where its helper is called
func (w *World) loopBody(i ssa.Instruction, root *ssa.Function, d int) bool {
	if inLoop(i.Block()) {
		return true
	}
	if d > 3 || i.Parent() == root {
		return false
	}
	for _, c := range w.callers[i.Parent()] {
		if c.Parent() != root && w.loopBody(c.(ssa.Instruction), root, d+1) {
			return true
		}
	}
	return false
}
