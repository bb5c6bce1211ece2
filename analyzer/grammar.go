package main

// The grammar of the language, read from the struct tags of the parsed query.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type capture struct {
	owner *types.Named
	field *types.Var
	sub   bool     // @@
	lits  []string // quoted alternatives
	toks  []string // token classes
	rep   bool     // may be captured more than once
}

type tagTok struct {
	kind string // lit, id, @, @@, or the punctuation itself
	text string
	fld  int
}

func lexTag(tag string, fld int, out []tagTok) []tagTok {
	for i := 0; i < len(tag); {
		c := tag[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '@':
			if i+1 < len(tag) && tag[i+1] == '@' {
				out = append(out, tagTok{"@@", "@@", fld})
				i += 2
			} else {
				out = append(out, tagTok{"@", "@", fld})
				i++
			}
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(tag) && tag[j] != c {
				j++
			}
			out = append(out, tagTok{"lit", tag[i+1 : min(j, len(tag))], fld})
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(tag) && (tag[j] == '_' || tag[j] >= 'a' && tag[j] <= 'z' || tag[j] >= 'A' && tag[j] <= 'Z' || tag[j] >= '0' && tag[j] <= '9') {
				j++
			}
			out = append(out, tagTok{"id", tag[i:j], fld})
			i = j
		default:
			out = append(out, tagTok{string(c), string(c), fld})
			i++
		}
	}
	return out
}

// tagToks lexes the grammar of a struct.
func tagToks(st *types.Struct) []tagTok {
	var toks []tagTok
	for i := 0; i < st.NumFields(); i++ {
		tag := st.Tag(i)
		if strings.Contains(tag, `parser:"`) {
			// the quoted form
			if j := strings.Index(tag, `parser:"`); j >= 0 {
				tag = tag[j+8:]
				if k := strings.LastIndex(tag, `"`); k >= 0 {
					tag = strings.ReplaceAll(tag[:k], `\"`, `"`)
				}
			}
		}
		toks = lexTag(tag, i, toks)
	}
	return toks
}

// captures lists what the grammar of one struct captures, in order.
func captures(n *types.Named) []capture {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	toks := tagToks(st)
	closer := map[string]string{"(": ")", "[": "]", "{": "}"}
	var out []capture
	type grp struct {
		open string
		from int
	}
	var stack []grp
	rep := func() bool {
		for _, g := range stack {
			if g.open == "{" {
				return true
			}
		}
		return false
	}
	mark := func(from int) {
		for k := from; k < len(out); k++ {
			out[k].rep = true
		}
	}
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch t.kind {
		case "(", "[", "{":
			stack = append(stack, grp{t.kind, len(out)})
		case ")", "]", "}":
			if len(stack) > 0 {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if i+1 < len(toks) && (toks[i+1].kind == "*" || toks[i+1].kind == "+") {
					mark(g.from)
				}
			}
		case "@@":
			c := capture{owner: n, field: st.Field(t.fld), sub: true, rep: rep()}
			if i+1 < len(toks) && (toks[i+1].kind == "*" || toks[i+1].kind == "+") {
				c.rep = true
			}
			out = append(out, c)
		case "@":
			c := capture{owner: n, field: st.Field(t.fld), rep: rep()}
			j := i + 1
			if j < len(toks) && closer[toks[j].kind] != "" {
				if toks[j].kind == "{" {
					c.rep = true
				}
				depth := 0
				for ; j < len(toks); j++ {
					if closer[toks[j].kind] != "" {
						depth++
					} else if toks[j].kind == ")" || toks[j].kind == "]" || toks[j].kind == "}" {
						depth--
					} else if toks[j].kind == "lit" {
						c.lits = append(c.lits, toks[j].text)
					} else if toks[j].kind == "id" {
						c.toks = append(c.toks, toks[j].text)
					}
					if depth == 0 {
						break
					}
				}
			} else if j < len(toks) {
				if toks[j].kind == "lit" {
					c.lits = append(c.lits, toks[j].text)
				} else if toks[j].kind == "id" {
					c.toks = append(c.toks, toks[j].text)
				}
			}
			if j+1 < len(toks) && (toks[j+1].kind == "*" || toks[j+1].kind == "+") {
				c.rep = true
			}
			out = append(out, c)
			i = j
		}
	}
	return out
}

type parserInfo struct {
	root  *types.Named
	upper map[string]bool
	known bool
	pos   ssa.Instruction
	reach map[*types.Named]bool
}

// parsers lists what is built with participle.MustBuild / Build.
func (w *World) parsers() []parserInfo {
	var out []parserInfo
	for _, f := range w.allInits() {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			s := c.Call.StaticCallee()
			if s == nil || s.Origin() == nil && len(s.TypeArgs()) == 0 {
				return
			}
			id := funcID(s)
			if !strings.Contains(id.pkg, "alecthomas/participle") && (s.Origin() == nil || !strings.Contains(funcID(s.Origin()).pkg, "alecthomas/participle")) {
				return
			}
			nm := s.Name()
			if !strings.HasPrefix(nm, "MustBuild") && !strings.HasPrefix(nm, "Build") || len(s.TypeArgs()) != 1 {
				return
			}
			p := parserInfo{root: namedOf(s.TypeArgs()[0]), upper: map[string]bool{}, pos: c, known: true}
			if p.root == nil {
				return
			}
			p.reach = astReach(p.root)
			for _, o := range sliceElems(w, c.Call.Args[0]) {
				oc, ok := o.(*ssa.Call)
				if !ok {
					p.known = false
					continue
				}
				if callID(&oc.Call).name == "Upper" {
					els := sliceElems(w, oc.Call.Args[0])
					if len(els) == 0 {
						p.known = false
					}
					for _, e := range els {
						if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							p.upper[constant.StringVal(k.Value)] = true
						} else {
							p.known = false
						}
					}
				}
			}
			out = append(out, p)
		})
	}
	return out
}

func (w *World) allInits() []*ssa.Function {
	out := append([]*ssa.Function{}, w.Fns...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, p := range w.SSA {
		if f := p.Func("init"); f != nil && !seen[f] {
			out = append(out, f)
		}
	}
	return out
}

// sliceElems lists the elements of a slice built from a literal.
func sliceElems(w *World, v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, o := range w.origins(v, false) {
		sl, ok := o.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
					x := st.Val
					for {
						if mi, ok := x.(*ssa.MakeInterface); ok {
							x = mi.X
							continue
						}
						if ct, ok := x.(*ssa.ChangeType); ok {
							x = ct.X
							continue
						}
						break
					}
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func astReach(n *types.Named) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var walk func(n *types.Named)
	walk = func(n *types.Named) {
		if n == nil || out[n] {
			return
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return
		}
		out[n] = true
		for _, c := range captures(n) {
			if c.sub {
				walk(namedOf(elemOf(c.field.Type())))
			}
		}
	}
	walk(n)
	return out
}

func elemOf(t types.Type) types.Type {
	for {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return t
		}
	}
}

// grammarTypes are the structs any parser of the module can produce.
func (w *World) grammarTypes() []*types.Named {
	seen := map[*types.Named]bool{}
	var out []*types.Named
	for _, p := range w.parsers() {
		for n := range p.reach {
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// lexer rules: name -> pattern, from the string constants next to each other in
// the table given to the lexer
func (w *World) lexRules() map[string]string {
	out := map[string]string{}
	for _, f := range w.allInits() {
		eachInstr(f, func(_ *ssa.BasicBlock, _ int, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldOf(fa).Name() != "Name" {
				return
			}
			n := namedOf(fa.X.Type().Underlying().(*types.Pointer).Elem())
			if n == nil || !strings.Contains(n.Obj().Name(), "Rule") {
				return
			}
			k, ok := st.Val.(*ssa.Const)
			if !ok || k.Value == nil {
				return
			}
			for _, r := range *fa.X.(ssa.Value).Referrers() {
				fb, ok := r.(*ssa.FieldAddr)
				if !ok || fieldOf(fb).Name() != "Pattern" {
					continue
				}
				for _, rr := range *fb.Referrers() {
					if s2, ok := rr.(*ssa.Store); ok {
						if p, ok := s2.Val.(*ssa.Const); ok && p.Value != nil {
							out[constant.StringVal(k.Value)] = constant.StringVal(p.Value)
						}
					}
				}
			}
		})
	}
	return out
}

// spellings of a token class, as the parser hands them over; nil if not a keyword.
func spellings(pattern string, upper bool) []string {
	p := pattern
	fold := strings.HasPrefix(p, "(?i)")
	p = strings.TrimPrefix(p, "(?i)")
	p = strings.TrimSuffix(strings.TrimPrefix(p, `\b`), `\b`)
	if p == `\|+` {
		return []string{"|", "||", "|||"}
	}
	for _, c := range p {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '&' || c == '|' || c == '_') {
			return nil
		}
	}
	if !fold || len(p) > 6 {
		return []string{p}
	}
	if upper {
		return []string{strings.ToUpper(p)}
	}
	set := map[string]bool{}
	for m := 0; m < 1<<len(p); m++ {
		b := []byte(strings.ToLower(p))
		for i := range b {
			if m>>i&1 == 1 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		set[string(b)] = true
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// grammarForms lists which fields of a node can be filled in together: each
// form is one way to match the grammar of its struct. Nil when it has none.
func grammarForms(n *types.Named) []map[*types.Var]bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	toks := tagToks(st)
	if len(toks) == 0 {
		return nil
	}
	type form = map[*types.Var]bool
	key := func(f form) string {
		var b strings.Builder
		for i := 0; i < st.NumFields(); i++ {
			if f[st.Field(i)] {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
		return b.String()
	}
	uniq := func(fs []form) (out []form) {
		seen := map[string]bool{}
		for _, f := range fs {
			if k := key(f); !seen[k] {
				seen[k] = true
				out = append(out, f)
			}
		}
		return
	}
	cross := func(a, b []form) (out []form) {
		for _, x := range a {
			for _, y := range b {
				m := form{}
				for f := range x {
					m[f] = true
				}
				for f := range y {
					m[f] = true
				}
				out = append(out, m)
			}
		}
		return uniq(out)
	}
	pos := 0
	tooMany := false
	var expr func() []form
	atom := func() []form {
		t := toks[pos]
		pos++
		switch t.kind {
		case "(", "[", "{":
			look := t.kind == "(" && pos < len(toks) && toks[pos].kind == "?" // a look ahead
			if look {
				pos += 2
			}
			f := expr()
			if pos < len(toks) {
				pos++ // the closing one
			}
			if look {
				return []form{{}}
			}
			if t.kind == "[" {
				f = uniq(append([]form{{}}, f...))
			}
			if t.kind == "{" {
				f = uniq(append(append([]form{{}}, f...), cross(f, f)...))
			}
			return f
		case "@", "@@":
			m := form{st.Field(t.fld): true}
			if t.kind == "@" && pos < len(toks) {
				// what is captured
				if k := toks[pos].kind; k == "(" || k == "[" || k == "{" {
					depth := 0
					for ; pos < len(toks); pos++ {
						switch toks[pos].kind {
						case "(", "[", "{":
							depth++
						case ")", "]", "}":
							depth--
						}
						if depth == 0 {
							pos++
							break
						}
					}
					if k != "(" {
						return []form{{}, m}
					}
				} else {
					pos++
				}
			}
			return []form{m}
		}
		return []form{{}}
	}
	seq := func() []form {
		out := []form{{}}
		for pos < len(toks) {
			switch toks[pos].kind {
			case "|", ")", "]", "}":
				return out
			}
			f := atom()
			for pos < len(toks) {
				switch toks[pos].kind {
				case "?":
					f = uniq(append([]form{{}}, f...))
				case "*":
					f = uniq(append(append([]form{{}}, f...), cross(f, f)...))
				case "+":
					f = uniq(append(append([]form{}, f...), cross(f, f)...))
				case "!":
				default:
					goto done
				}
				pos++
			}
		done:
			out = cross(out, f)
			if len(out) > 4096 {
				tooMany = true
				return out
			}
		}
		return out
	}
	expr = func() []form {
		out := seq()
		for pos < len(toks) && toks[pos].kind == "|" {
			pos++
			out = uniq(append(out, seq()...))
		}
		return out
	}
	out := expr()
	if tooMany || pos < len(toks) {
		return nil
	}
	return out
}
