package main

import (
	_ "embed"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The functions the module had when the checks were written. A function which is not among
// them is a part someone took out of another: it is read in the place of each call to it, so
// that taking a part out does not change what is analysed.
//
//go:embed baseline.txt
var baselineText string

// functions are left where they are
var noInline = os.Getenv("VERIF_NOINLINE") != ""

func fnID(f *ssa.Function) string { return f.RelString(nil) }

// inlineNew returns the functions that are gone: every use of them was replaced.
func (w *World) inlineNew() map[*ssa.Function]bool {
	gone := map[*ssa.Function]bool{}
	if noInline {
		return gone
	}
	known := map[string]bool{}
	for _, l := range strings.Split(baselineText, "\n") {
		known[l] = true
	}
	// to try: as if these had been taken out of another function
	for _, l := range strings.Split(os.Getenv("VERIF_INLINE"), ";") {
		delete(known, l)
	}
	inModule := func(f *ssa.Function) bool {
		return f.Pkg != nil && w.SSA[f.Pkg.Pkg.Path()] == f.Pkg && len(f.Blocks) > 0
	}
	all := map[*ssa.Function]bool{}
	var addAll func(f *ssa.Function)
	addAll = func(f *ssa.Function) {
		if f == nil || all[f] {
			return
		}
		all[f] = true
		for _, a := range f.AnonFuncs {
			addAll(a)
		}
	}
	for f := range ssautil.AllFunctions(w.Prog) {
		if inModule(f) {
			addAll(f)
		}
	}
	for _, p := range w.SSA {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && len(f.Blocks) > 0 {
				addAll(f)
			}
		}
	}
	var list []*ssa.Function
	for f := range all {
		if f.Synthetic == "" || f.Parent() != nil || f.Synthetic == "package initializer" {
			list = append(list, f)
		}
	}
	sort.Slice(list, func(i, j int) bool {
		return list[i].RelString(nil)+w.Pos(list[i].Pos()) < list[j].RelString(nil)+w.Pos(list[j].Pos())
	})
	cand := func(f *ssa.Function) bool {
		if !all[f] || f.Synthetic != "" || !ssa.InlinableTail(f) || len(f.TypeArgs()) > 0 || f.TypeParams().Len() > 0 {
			return false
		}
		if f.Parent() != nil {
			return true // only where it is called on the spot
		}
		return f.Object() != nil && f.Name() != "init" && !known[fnID(f)]
	}
	// methods something outside the module may call by way of an interface
	external := map[string]bool{"String": true, "GoString": true, "Error": true, "MarshalJSON": true, "UnmarshalJSON": true, "Format": true, "Len": true, "Less": true, "Swap": true, "Close": true, "Read": true, "Write": true}
	for _, p := range w.SSA {
		sc := p.Pkg.Scope()
		for _, nm := range sc.Names() {
			if it, ok := sc.Lookup(nm).Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					external[it.Method(i).Name()] = true
				}
			}
		}
	}
	touched, left := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for round := 0; round < 3000; round++ {
		// uses
		calls := map[*ssa.Function][]*ssa.Call{}
		other := map[*ssa.Function]int{}
		inv := map[string]bool{}
		size := map[*ssa.Function]int{}
		callsCand := map[*ssa.Function]map[*ssa.Function]bool{}
		for _, f := range list {
			if gone[f] {
				continue
			}
			for _, b := range f.Blocks {
				size[f] += len(b.Instrs)
				for _, in := range b.Instrs {
					c, isC := in.(*ssa.Call)
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
						inv[ci.Common().Method.Name()] = true
					}
					for i, r := range in.Operands(nil) {
						if *r == nil {
							continue
						}
						if g, ok := (*r).(*ssa.Function); ok {
							if isC && i == 0 && !c.Call.IsInvoke() {
								calls[g] = append(calls[g], c)
							} else if mc, isM := in.(*ssa.MakeClosure); isM && mc.Fn == g {
								rs := *mc.Referrers()
								if len(rs) == 1 {
									if c, ok := rs[0].(*ssa.Call); ok && c.Call.Value == ssa.Value(mc) {
										uses := 0
										for _, a := range c.Call.Args {
											if a == ssa.Value(mc) {
												uses++
											}
										}
										if uses == 0 {
											calls[g] = append(calls[g], c)
											continue
										}
									}
								}
								other[g]++
							} else {
								other[g]++
							}
						}
					}
				}
			}
		}
		for g, cs := range calls {
			for _, c := range cs {
				f := c.Parent()
				if callsCand[f] == nil {
					callsCand[f] = map[*ssa.Function]bool{}
				}
				if cand(g) && !(g.Parent() != nil && other[g] > 0) {
					callsCand[f][g] = true
				}
			}
		}
		did := false
		for _, g := range list {
			if gone[g] || left[g] || !cand(g) || len(calls[g]) == 0 || len(callsCand[g]) > 0 {
				continue
			}
			exported := g.Parent() == nil && g.Signature.Recv() != nil && (inv[g.Name()] || external[g.Name()])
			alone := len(calls[g]) == 1 && other[g] == 0 && !exported
			if g.Parent() != nil && !alone {
				continue
			}
			if !alone && (len(calls[g]) > 8 || size[g] > 400 || len(g.AnonFuncs) > 0) {
				continue
			}
			if touched[g] {
				ssa.FinishInline(g)
				delete(touched, g)
			}
			k := 0
			for _, c := range calls[g] {
				if ssa.Inline(c, alone) {
					w.inlined++
					k++
					touched[c.Parent()] = true
				}
			}
			did = true
			if k == 0 || exported || other[g] > 0 {
				left[g] = true
			}
			if k == len(calls[g]) && other[g] == 0 && !exported {
				gone[g] = true
			}
			break // uses have changed
		}
		if !did {
			break
		}
	}
	for _, f := range list {
		if touched[f] && !gone[f] {
			ssa.FinishInline(f)
			if os.Getenv("VERIF_DEBUG") != "" {
				if bad := ssa.Sane(f); bad != "" {
					panic(bad)
				}
			}
		}
	}
	return gone
}
