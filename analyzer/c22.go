package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// No value a query can produce crashes the engine. Every instruction that
// crashes on some values is a demand; each must be met by what is certain of
// the values there (prove*.go).

func init() {
	checks["C22"] = check{
		run: runC22,
		explanation: "Every construct that crashes on some operand - member access, calls and stores through something that the module itself knows may be absent " +
			"(an optional part of a parsed query, a failed lookup, test or receive, the result of a call that may have failed, a nil pointer supplied as a value), " +
			"reflection that only works on some kinds, one-result type assertions, positions and parts of lists and strings, integer division, list sizes, " +
			"comparing or hashing values of any type, patterns and explicit panics - is a demand on the values used there. " +
			"A demand is met by the conditions that certainly hold at that point (through joins, helper functions, the conditions at every call site and where a closure was made), " +
			"by how the values were made, by which parts of a parsed node the grammar captures together, and, for numbers, by a system of difference constraints with loop induction. " +
			"The deciding step reads the SSA form of the current sources; nothing is run.",
		assumptions: []string{
			"pointers, interfaces and functions that do not come from one of the listed sources are not nil",
			"values passed by an embedding program to set up the engine (structs to wrap, argument structs, functions, plugins) are of the documented kind; hosts call exported functions with values like those the module passes",
			"a function with its own recover, and functions only called by such functions, answer a crash with a value",
			"positions kept in a structure for reflection, and those that the parser library reports lie inside the text; package sort calls Less and Swap with positions below Len",
			"variables changed by several functions, and list positions handed in as an argument, are not followed",
		},
	}
}

func runC22(w *World, r *Report) {
	r.Rule("absent", "what may be absent or nil is tested before it is used", 47)
	r.Rule("kind", "reflection is only applied to kinds of value it works on", 11)
	r.Rule("bounds", "positions, parts, sizes and divisors are inside what is allowed", 30)
	r.Rule("sudden", "one-result assertions, comparisons of any values, patterns and panics cannot fail on a value of a query", 3)
	class := map[string]string{"nil": "absent", "reflect": "kind", "index": "bounds", "slice": "bounds", "size": "bounds", "divide": "bounds",
		"assert": "sudden", "compare": "sudden", "panic": "sudden", "library": "sudden"}

	p := newProver(w)

	for _, f := range w.Fns {
		if !p.live[outermost(f)] || f.Synthetic != "" || p.recovers(f) {
			continue
		}
		byRule := map[string][]demand{}
		eachInstr(f, func(b *ssa.BasicBlock, _ int, i ssa.Instruction) {
			for _, d := range p.demands(i) {
				byRule[class[d.rule]] = append(byRule[class[d.rule]], d)
			}
		})
		var rules []string
		for k := range byRule {
			rules = append(rules, k)
		}
		sort.Strings(rules)
		for _, k := range rules {
			ds := byRule[k]
			bad := map[string]bool{}
			for _, d := range ds {
				if d.ok {
					continue
				}
				key := w.Name(f) + ": " + d.what
				if !bad[key] {
					bad[key] = true
					r.Ob(k, key, w.instrPos(d.at), false, "%s: %s", d.what, d.why)
				}
			}
			if len(bad) == 0 {
				r.Ob(k, w.Name(f), w.instrPos(ds[0].at), true, "%d demands met, the first: %s", len(ds), ds[0].what)
			}
		}
	}
}
