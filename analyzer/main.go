package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type check struct {
	run         func(w *World, r *Report)
	explanation string
	assumptions []string
}

var checks = map[string]check{}

// decide runs the check; an analysis that fails is a violation.
func (c check) decide(w *World, r *Report) {
	defer func() {
		if e := recover(); e != nil {
			r.Ob("analysis", "internal", "-", false, "the analysis failed: %v\n%s", e, debug.Stack())
		}
	}()
	c.run(w, r)
}

// otherwise looks again at the rules that do not hold with the new functions read in the
// places of their calls, now with these functions as they are. Both forms are the same
// program: a rule shown to hold for one of them holds.
func (c check) otherwise(dir string, w *World, r *Report) *Report {
	bad := r.failing()
	if len(bad) == 0 || w.inlined == 0 {
		return r
	}
	keep := noInline
	noInline = true
	w2, err := load(dir)
	noInline = keep
	if err != nil {
		return r
	}
	r2 := newReport(r.Prop)
	c.decide(w2, r2)
	bad2 := r2.failing()
	if bad2["analysis"] {
		return r
	}
	if bad["analysis"] {
		return r2
	}
	var obs []Obligation
	for _, o := range r.Obs {
		if !bad[o.Rule] || bad2[o.Rule] {
			obs = append(obs, o)
		}
	}
	for _, o := range r2.Obs {
		if bad[o.Rule] && !bad2[o.Rule] {
			obs = append(obs, o)
		}
	}
	r.Obs = obs
	return r
}

// failing are the rules with an instance that does not hold, or with too few instances.
func (r *Report) failing() map[string]bool {
	bad, n := map[string]bool{}, map[string]int{}
	for _, o := range r.Obs {
		n[o.Rule]++
		if !o.OK {
			bad[o.Rule] = true
		}
	}
	for rule, k := range r.floors {
		if n[rule] < k {
			bad[rule] = true
		}
	}
	return bad
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	verif := flag.String("verif", "/verif", "where known findings are read and evidence is written")
	base := flag.Bool("baseline", false, "print the functions of the module")
	list := flag.Bool("obs", false, "print every obligation")
	flag.Parse()
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	start := time.Now()
	w, err := load(dir)
	if *base && err == nil {
		for _, f := range w.Fns {
			if f.Parent() == nil {
				fmt.Println(fnID(f))
			}
		}
		return
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if *prop == "all" {
			// each as it is run alone
			start = time.Now()
			w, err = load(dir)
		}
		r := newReport(id)
		if err != nil {
			r.Ob("load", "tree", "-", false, "cannot analyse: %v", err)
		} else {
			c.decide(w, r)
			r = c.otherwise(dir, w, r)
		}
		if *list {
			for _, o := range r.Obs {
				fmt.Printf("%v [%s] %s @%s %s\n", o.OK, o.Rule, o.Key, o.Pos, o.Msg)
			}
		}
		if x := r.finish(w, *verif, start, "other", c.explanation, c.assumptions); x > rc {
			rc = x
		}
	}
	os.Exit(rc)
}
