package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Obligation struct {
	Rule string `json:"rule"`
	Key  string `json:"construct"`
	Pos  string `json:"at"`
	OK   bool   `json:"holds"`
	Msg  string `json:"detail,omitempty"`
}

type Report struct {
	Prop   string
	Obs    []Obligation
	seen   map[string]int
	rules  []string
	floors map[string]int
	Notes  []string
	Funcs  int
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, seen: map[string]int{}, floors: map[string]int{}}
}

// Rule declares a rule and the least number of instances it must have.
func (r *Report) Rule(name, text string, floor int) {
	r.rules = append(r.rules, name+": "+text)
	r.floors[name] = floor
}

func (r *Report) Ob(rule, key, pos string, ok bool, format string, a ...interface{}) {
	k := rule + "|" + key
	r.seen[k]++
	if n := r.seen[k]; n > 1 {
		key = fmt.Sprintf("%s#%d", key, n)
	}
	r.Obs = append(r.Obs, Obligation{rule, key, pos, ok, fmt.Sprintf(format, a...)})
}

type known struct{ prop, key, text string }

// known-findings.txt: lines
//
//	known: property=C01 key=<rule|construct> :: text
//	fixed: property=C01 <commit> text           (suppresses nothing)
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		sp := strings.SplitN(rest, " key=", 2)
		if len(sp) != 2 {
			continue
		}
		kt := strings.SplitN(sp[1], " :: ", 2)
		k := known{prop: sp[0], key: kt[0]}
		if len(kt) == 2 {
			k.text = kt[1]
		}
		out = append(out, k)
	}
	return out
}

func (r *Report) finish(w *World, verif string, start time.Time, level string, explanation string, assumptions []string) int {
	counts := map[string]int{}
	for _, o := range r.Obs {
		counts[o.Rule]++
	}
	var floorRules []string
	for rule := range r.floors {
		floorRules = append(floorRules, rule)
	}
	sort.Strings(floorRules)
	for _, rule := range floorRules {
		if counts[rule] < r.floors[rule] {
			r.Obs = append(r.Obs, Obligation{rule, "instance-floor", "-", false,
				fmt.Sprintf("only %d instances of this rule were found in the tree, at least %d were confirmed by hand: the analysis no longer sees what it must decide", counts[rule], r.floors[rule])})
		}
	}
	kn := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var bad, knownHits []Obligation
	for _, o := range r.Obs {
		if o.OK {
			continue
		}
		matched := false
		for _, k := range kn {
			if k.prop == r.Prop && k.key == o.Rule+"|"+o.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", r.Prop, o.Rule+"|"+o.Key, o.Pos, k.text)
				knownHits = append(knownHits, o)
				matched = true
				break
			}
		}
		if !matched {
			bad = append(bad, o)
		}
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0755)
	replay := filepath.Join(ev, r.Prop+".violations.txt")
	os.Remove(replay)
	discharged := len(r.Obs) - len(bad) - len(knownHits)
	if len(r.Obs) == 0 {
		bad = append(bad, Obligation{"analysis", "no-obligations", "-", false, "no rule instance was found"})
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	var samples []string
	perRule := map[string]int{}
	for _, o := range r.Obs {
		if perRule[o.Rule] < 6 {
			perRule[o.Rule]++
			samples = append(samples, fmt.Sprintf("[%s] %s at %s: holds=%v %s", o.Rule, o.Key, o.Pos, o.OK, o.Msg))
		}
	}
	var kh []string
	for _, o := range knownHits {
		kh = append(kh, o.Rule+"|"+o.Key+" at "+o.Pos)
	}
	pk := 0
	if w != nil {
		pk = len(w.Pkgs)
	}
	nf := r.Funcs
	if w != nil && nf == 0 {
		nf = len(w.Fns)
	}
	cov := map[string]interface{}{
		"explanation":        explanation,
		"obligations":        len(r.Obs),
		"discharged":         discharged,
		"checker_cmd":        "bash /verif/check.sh " + r.Prop,
		"trusted_base":       []string{"go/types and go/ssa of x/tools v0.52.0", "the analyzer in /verif/analyzer"},
		"rules":              r.rules,
		"instances_per_rule": counts,
		"packages_analysed":  pk,
		"functions_analysed": nf,
		"known_findings":     kh,
		"notes":              r.Notes,
		"samples":            samples,
	}
	doc := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "assumptions": assumptions,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(bad),
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations over %d functions in %d packages, %d discharged, %d known findings, %d violations\n",
		r.Prop, len(r.Obs), nf, pk, discharged, len(knownHits), len(bad))
	var rules []string
	for k := range counts {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		fmt.Printf("  %-34s %d instances\n", k, counts[k])
	}
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s|%s\n  at %s\n  %s\n", o.Rule, o.Key, o.Pos, o.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
