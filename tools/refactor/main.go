// Development tool: applies a behaviour-keeping rewrite to every place of the
// repository where it applies, to see that the checks stay quiet.
// usage: refactor -t NAME [-n MOD -k REM] [-inner] [-skip file:idx,...] DIR
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	lo, hi int
	text   string
	tail   string // added at the end of the file
	id     string
}

type file struct {
	path  string
	src   []byte
	f     *ast.File
	info  *types.Info
	pkg   *types.Package
	fset  *token.FileSet
	edits []edit
}

var uniq int

func u() string { uniq++; return fmt.Sprintf("v%d", uniq) }

func (f *file) off(p token.Pos) int      { return f.fset.Position(p).Offset }
func (f *file) s(n ast.Node) string      { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }
func (f *file) between(a, b token.Pos) string { return string(f.src[f.off(a):f.off(b)]) }
func (f *file) body(b *ast.BlockStmt) string {
	return f.between(b.Lbrace+1, b.Rbrace)
}
func (f *file) add(n ast.Node, text string) {
	f.edits = append(f.edits, edit{lo: f.off(n.Pos()), hi: f.off(n.End()), text: text})
}
func (f *file) addRange(a, b token.Pos, text, tail string) {
	f.edits = append(f.edits, edit{lo: f.off(a), hi: f.off(b), text: text, tail: tail})
}

func terminates(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok != token.FALLTHROUGH
	case *ast.BlockStmt:
		return len(x.List) > 0 && terminates(x.List[len(x.List)-1])
	case *ast.IfStmt:
		return x.Else != nil && terminates(x.Body) && terminates(x.Else)
	}
	return false
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

func has(n ast.Node, pred func(ast.Node) bool) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil && pred(x) {
			r = true
		}
		return !r
	})
	return r
}

// breaks: an unlabelled break or fallthrough that leaves the switch itself
func breaks(list []ast.Stmt) bool {
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		r := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if y.Tok == token.BREAK && y.Label == nil || y.Tok == token.FALLTHROUGH {
					r = true
				}
			}
			return true
		})
		return r
	}
	for _, s := range list {
		if walk(s) {
			return true
		}
	}
	return false
}

// leaves: return, branch or defer in n that would not survive being moved
func leaves(n ast.Node, retOK bool) bool {
	return has(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.ReturnStmt:
			return !retOK
		case *ast.BranchStmt:
			return true
		case *ast.DeferStmt, *ast.LabeledStmt, *ast.FuncLit:
			return true
		case *ast.CallExpr:
			if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "recover" {
				return true
			}
		}
		return false
	})
}

// free: variables from outside used in n; nil, false if one is assigned or addressed
func (f *file) free(n ast.Node, within token.Pos, to token.Pos) ([]*types.Var, bool) {
	seen := map[*types.Var]bool{}
	var out []*types.Var
	ok := true
	local := func(id *ast.Ident) *types.Var {
		v, is := f.info.Uses[id].(*types.Var)
		if !is || v.IsField() || v.Parent() == f.pkg.Scope() || v.Parent() == types.Universe || v.Pkg() != f.pkg {
			return nil
		}
		if v.Pos() >= within && v.Pos() < to {
			return nil
		}
		return v
	}
	root := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return local(x)
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if t := f.info.TypeOf(x.X); t != nil {
					if _, p := t.Underlying().(*types.Pointer); p {
						return nil
					}
				}
				e = x.X
			case *ast.IndexExpr:
				if t := f.info.TypeOf(x.X); t != nil {
					if _, a := t.Underlying().(*types.Array); !a {
						return nil
					}
				}
				e = x.X
			default:
				return nil
			}
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.Ident:
			if v := local(y); v != nil && !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if y.Tok == token.DEFINE {
					if id, is := l.(*ast.Ident); is && f.info.Defs[id] != nil {
						continue
					}
				}
				if root(l) != nil {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			if root(y.X) != nil {
				ok = false
			}
		case *ast.RangeStmt:
			if y.Tok == token.ASSIGN {
				ok = false
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && root(y.X) != nil {
				ok = false
			}
		case *ast.CallExpr:
			// a method on an addressable value
			if se, is := y.Fun.(*ast.SelectorExpr); is {
				if sel := f.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					if sig, isS := sel.Obj().Type().(*types.Signature); isS && sig.Recv() != nil {
						_, ptr := sig.Recv().Type().(*types.Pointer)
						if ptr {
							if t := f.info.TypeOf(se.X); t != nil {
								if _, p := t.Underlying().(*types.Pointer); !p && root(se.X) != nil {
									ok = false
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	for _, v := range out {
		if hasLock(v.Type(), 0) {
			ok = false
		}
	}
	return out, ok
}

func hasLock(t types.Type, d int) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || d > 4 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if hasLock(st.Field(i).Type(), d+1) {
			return true
		}
	}
	return false
}

func (f *file) typ(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg {
			return ""
		}
		for _, im := range f.f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		return "NOTIMPORTED"
	})
}

func (f *file) params(vs []*types.Var) (decl, args string) {
	var d, a []string
	for _, v := range vs {
		d = append(d, v.Name()+" "+f.typ(v.Type()))
		a = append(a, v.Name())
	}
	return strings.Join(d, ", "), strings.Join(a, ", ")
}

func (f *file) results(ft *ast.FuncType) (out []string, named bool) {
	if ft.Results == nil {
		return nil, false
	}
	for _, r := range ft.Results.List {
		n := len(r.Names)
		if n == 0 {
			n = 1
		} else {
			named = true
		}
		for i := 0; i < n; i++ {
			out = append(out, f.s(r.Type))
		}
	}
	return
}

type fnctx struct {
	ft *ast.FuncType
}

func negate(s string) string { return "!(" + s + ")" }

func (f *file) walk(t string) {
	// function types of each node
	var stack []ast.Node
	enclosing := func() *ast.FuncType {
		for i := len(stack) - 1; i >= 0; i-- {
			switch x := stack[i].(type) {
			case *ast.FuncDecl:
				return x.Type
			case *ast.FuncLit:
				return x.Type
			}
		}
		return nil
	}
	parent := func(k int) ast.Node {
		if len(stack) > k {
			return stack[len(stack)-1-k]
		}
		return nil
	}
	lists := func(n ast.Node) []ast.Stmt {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return x.List
		case *ast.CaseClause:
			return x.Body
		case *ast.CommClause:
			return x.Body
		}
		return nil
	}
	inList := func(s ast.Stmt) bool { // a statement of a list, unlabelled
		for _, x := range lists(parent(1)) {
			if x == s {
				return true
			}
		}
		return false
	}
	ast.Inspect(f.f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch t {
		case "swapif":
			if x, ok := n.(*ast.IfStmt); ok {
				if e, isB := x.Else.(*ast.BlockStmt); isB {
					init := ""
					if x.Init != nil {
						init = f.s(x.Init) + "; "
					}
					f.add(x, "if "+init+negate(f.s(x.Cond))+" "+f.s(e)+" else "+f.s(x.Body))
				}
			}
		case "elsenest":
			l := lists(n)
			for i, s := range l {
				x, ok := s.(*ast.IfStmt)
				if !ok || x.Else != nil || i+1 >= len(l) || !terminates(x.Body) {
					continue
				}
				rest := f.between(l[i+1].Pos(), l[len(l)-1].End())
				f.addRange(x.Pos(), l[len(l)-1].End(), f.s(x)+" else {\n"+rest+"\n}", "")
				break
			}
		case "unelse":
			if x, ok := n.(*ast.IfStmt); ok && x.Init == nil && inList(x) && terminates(x.Body) {
				if e, isB := x.Else.(*ast.BlockStmt); isB {
					f.add(x, "if "+f.s(x.Cond)+" "+f.s(x.Body)+"\n"+f.s(e))
				} else if e, isI := x.Else.(*ast.IfStmt); isI {
					f.add(x, "if "+f.s(x.Cond)+" "+f.s(x.Body)+"\n"+f.s(e))
				}
			}
		case "contif":
			var b *ast.BlockStmt
			switch x := n.(type) {
			case *ast.ForStmt:
				b = x.Body
			case *ast.RangeStmt:
				b = x.Body
			}
			if b != nil && len(b.List) > 0 {
				if x, ok := b.List[len(b.List)-1].(*ast.IfStmt); ok && x.Else == nil && x.Init == nil {
					f.add(x, "if "+negate(f.s(x.Cond))+" {\ncontinue\n}\n"+f.s(x.Body))
				}
			}
		case "rangeidx":
			if x, ok := n.(*ast.RangeStmt); ok && inList(x) && x.Tok == token.DEFINE && x.Value != nil {
				if _, isS := f.info.TypeOf(x.X).Underlying().(*types.Slice); isS {
					l, i := u(), u()
					k := x.Key.(*ast.Ident).Name
					pre := ""
					if k != "_" {
						pre = k + " := " + i + "\n"
					}
					if v := x.Value.(*ast.Ident).Name; v != "_" {
						pre += v + " := " + l + "[" + i + "]\n"
					}
					f.add(x, "{\n"+l+" := "+f.s(x.X)+"\nfor "+i+" := 0; "+i+" < len("+l+"); "+i+"++ {\n"+pre+f.body(x.Body)+"}\n}")
				}
			}
		case "rangechan":
			if x, ok := n.(*ast.RangeStmt); ok && x.Tok == token.DEFINE && x.Key != nil {
				if _, isS := f.info.TypeOf(x.X).Underlying().(*types.Chan); isS && simple(x.X) {
					o := u()
					f.add(x, "for {\n"+f.s(x.Key)+", "+o+" := <-"+f.s(x.X)+"\nif !"+o+" {\nbreak\n}\n"+f.body(x.Body)+"}")
				}
			}
		case "rettemp":
			if x, ok := n.(*ast.ReturnStmt); ok && len(x.Results) > 0 {
				res, _ := f.results(enclosing())
				if len(res) == len(x.Results) {
					d, names := "", []string{}
					for i, e := range x.Results {
						v := u()
						names = append(names, v)
						d += "var " + v + " " + res[i] + " = " + f.s(e) + "\n"
					}
					f.add(x, d+"return "+strings.Join(names, ", "))
				} else if len(x.Results) == 1 {
					var names []string
					for range res {
						names = append(names, u())
					}
					l := strings.Join(names, ", ")
					f.add(x, l+" := "+f.s(x.Results[0])+"\nreturn "+l)
				}
			}
		case "condtemp":
			if x, ok := n.(*ast.IfStmt); ok && inList(x) && x.Init == nil {
				if _, isI := x.Cond.(*ast.Ident); !isI {
					c := u()
					rest := f.between(x.Body.Pos(), x.End())
					f.add(x, c+" := "+f.s(x.Cond)+"\nif "+c+" "+rest)
				}
			}
		case "wrapfn", "wrapany":
			if x, ok := n.(*ast.FuncDecl); ok && x.Body != nil && (x.Name.IsExported() || t == "wrapany") && x.Type.TypeParams == nil && x.Name.Name != "init" && x.Name.Name != "main" {
				var d, a []string
				bad := false
				for _, p := range x.Type.Params.List {
					ts := f.s(p.Type)
					if len(p.Names) == 0 {
						v := u()
						d = append(d, v+" "+ts)
						a = append(a, v)
					}
					for _, nm := range p.Names {
						v := nm.Name
						if v == "_" {
							v = u()
						}
						d = append(d, v+" "+ts)
						if strings.HasPrefix(ts, "...") {
							v += "..."
						}
						a = append(a, v)
					}
				}
				name := x.Name.Name + "Body"
				recv, call := "", name
				if x.Recv != nil {
					r := x.Recv.List[0]
					if len(r.Names) == 0 || r.Names[0].Name == "_" {
						bad = true
					} else {
						recv = f.s(x.Recv) + " "
						call = r.Names[0].Name + "." + name
					}
				}
				if !bad {
					res := ""
					if x.Type.Results != nil {
						rs, _ := f.results(x.Type)
						res = " (" + strings.Join(rs, ", ") + ")"
					}
					ret := ""
					if res != "" {
						ret = "return "
					}
					w := "func " + recv + x.Name.Name + "(" + strings.Join(d, ", ") + ")" + res + " {\n" + ret + call + "(" + strings.Join(a, ", ") + ")\n}\n\n"
					f.addRange(x.Pos(), x.Name.End(), w+"func "+recv+name, "")
				}
				if t == "wrapany" || true {
					stack = stack[:len(stack)-1]
					return false
				}
			}
		case "extractif", "extractloop":
			var b *ast.BlockStmt
			switch x := n.(type) {
			case *ast.IfStmt:
				if t == "extractif" {
					b = x.Body
				}
			case *ast.ForStmt:
				if t == "extractloop" {
					b = x.Body
				}
			case *ast.RangeStmt:
				if t == "extractloop" {
					b = x.Body
				}
			}
			if b != nil && len(b.List) > 0 {
				ret, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
				if len(b.List) == 1 && ok {
					break
				}
				res := ""
				for i, s := range b.List {
					if ok && i == len(b.List)-1 {
						if leaves(s, true) {
							return true
						}
						continue
					}
					if leaves(s, false) {
						return true
					}
				}
				ft := enclosing()
				pre := ""
				if ok && t == "extractif" {
					rs, named := f.results(ft)
					if len(rs) > 0 && (named || len(ret.Results) == 0) {
						break
					}
					if len(rs) > 0 {
						res = " (" + strings.Join(rs, ", ") + ")"
						pre = "return "
					}
				} else if ok {
					break
				}
				vs, fine := f.free(b, b.Lbrace, b.Rbrace)
				if !fine {
					break
				}
				d, a := f.params(vs)
				if strings.Contains(d, "NOTIMPORTED") {
					break
				}
				name := "helper" + u()
				post := ""
				if ok && res == "" {
					post = "\nreturn"
				}
				f.addRange(b.Lbrace, b.Rbrace+1, "{\n"+pre+name+"("+a+")"+post+"\n}", "\nfunc "+name+"("+d+")"+res+" "+f.s(b)+"\n")
			}
		case "extractcond":
			if x, ok := n.(*ast.IfStmt); ok {
				be, isB := x.Cond.(*ast.BinaryExpr)
				if isB && !leaves(be, false) {
					vs, fine := f.free(be, be.Pos(), be.End())
					d, a := f.params(vs)
					if fine && !strings.Contains(d, "NOTIMPORTED") && len(vs) > 0 {
						name := "test" + u()
						f.addRange(be.Pos(), be.End(), name+"("+a+")", "\nfunc "+name+"("+d+") bool {\nreturn "+f.s(be)+"\n}\n")
					}
				}
			}
		case "typeif":
			x, ok := n.(*ast.TypeSwitchStmt)
			if !ok || !inList(x) || x.Init != nil {
				break
			}
			name, subj := "", ast.Expr(nil)
			switch as := x.Assign.(type) {
			case *ast.AssignStmt:
				name = as.Lhs[0].(*ast.Ident).Name
				subj = as.Rhs[0].(*ast.TypeAssertExpr).X
			case *ast.ExprStmt:
				subj = as.X.(*ast.TypeAssertExpr).X
			}
			sv := u()
			pre := sv + " := " + f.s(subj) + "\n"
			out, def := "", ""
			bad := false
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				if breaks(cc.Body) {
					bad = true
				}
				body := ""
				if len(cc.Body) > 0 {
					body = f.between(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
				}
				if cc.List == nil {
					if name != "" {
						def = name + " := " + sv + "\n_ = " + name + "\n"
					}
					def += body
					def = "{\n" + def + "\n}"
					continue
				}
				isNil := len(cc.List) == 1 && f.s(cc.List[0]) == "nil"
				o := u()
				if len(cc.List) == 1 && !isNil {
					nm := name
					use := ""
					if nm == "" {
						nm = "_"
					} else {
						use = "_ = " + nm + "\n"
					}
					out += "if " + nm + ", " + o + " := " + sv + ".(" + f.s(cc.List[0]) + "); " + o + " {\n" + use + body + "\n} else "
					continue
				}
				cond := []string{}
				for _, ty := range cc.List {
					if f.s(ty) == "nil" {
						cond = append(cond, sv+" == nil")
						continue
					}
					p := u()
					pre += "_, " + p + " := " + sv + ".(" + f.s(ty) + ")\n"
					cond = append(cond, p)
				}
				use := ""
				if name != "" {
					use = name + " := " + sv + "\n_ = " + name + "\n"
				}
				out += "if " + strings.Join(cond, " || ") + " {\n" + use + body + "\n} else "
			}
			if bad || out == "" {
				break
			}
			if def == "" {
				out = strings.TrimSuffix(out, " else ")
			}
			f.add(x, pre+out+def)
		case "switchif":
			x, ok := n.(*ast.SwitchStmt)
			if !ok || !inList(x) || x.Init != nil {
				break
			}
			pre, sv := "", ""
			if x.Tag != nil {
				sv = u()
				pre = sv + " := " + f.s(x.Tag) + "\n"
			}
			out, def := "", ""
			bad := false
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				if breaks(cc.Body) {
					bad = true
				}
				body := ""
				if len(cc.Body) > 0 {
					body = f.between(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
				}
				if cc.List == nil {
					def = "{\n" + body + "\n}"
					continue
				}
				var cond []string
				for _, e := range cc.List {
					if sv != "" {
						cond = append(cond, sv+" == "+f.s(e))
					} else {
						cond = append(cond, f.s(e))
					}
				}
				out += "if " + strings.Join(cond, " || ") + " {\n" + body + "\n} else "
			}
			if bad || out == "" {
				break
			}
			if def == "" {
				out = strings.TrimSuffix(out, " else ")
			}
			f.add(x, pre+out+def)
		case "ifswitch":
			// a chain of ifs becomes a switch without a tag
			x, ok := n.(*ast.IfStmt)
			if !ok || !inList(x) || x.Else == nil {
				break
			}
			out := ""
			cur := ast.Stmt(x)
			bad := false
			for cur != nil {
				switch y := cur.(type) {
				case *ast.IfStmt:
					if y.Init != nil || breaks(y.Body.List) {
						bad = true
					}
					out += "case " + f.s(y.Cond) + ":\n" + f.body(y.Body) + "\n"
					cur = y.Else
				case *ast.BlockStmt:
					if breaks(y.List) {
						bad = true
					}
					out += "default:\n" + f.body(y) + "\n"
					cur = nil
				}
			}
			if !bad {
				f.add(x, "switch {\n"+out+"}")
			}
		case "flipcmp":
			if x, ok := n.(*ast.BinaryExpr); ok && pure(x.X) && pure(x.Y) {
				op := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[x.Op]
				if op != "" {
					f.add(x, f.s(x.Y)+" "+op+" "+f.s(x.X))
				}
			}
		case "demorgan":
			if x, ok := n.(*ast.BinaryExpr); ok {
				if x.Op == token.LAND {
					f.add(x, "!("+negate(f.s(x.X))+" || "+negate(f.s(x.Y))+")")
				} else if x.Op == token.LOR {
					f.add(x, "!("+negate(f.s(x.X))+" && "+negate(f.s(x.Y))+")")
				}
			}
		case "selectrev":
			if x, ok := n.(*ast.SelectStmt); ok && len(x.Body.List) > 1 {
				out := "select {\n"
				for i := len(x.Body.List) - 1; i >= 0; i-- {
					lo := x.Body.List[i].Pos()
					hi := x.Body.Rbrace
					if i+1 < len(x.Body.List) {
						hi = x.Body.List[i+1].Pos()
					}
					out += f.between(lo, hi) + "\n"
				}
				f.add(x, out+"}")
			}
		case "deferfn":
			if x, ok := n.(*ast.DeferStmt); ok {
				if _, isF := x.Call.Fun.(*ast.FuncLit); !isF && f.s(x.Call.Fun) != "recover" {
					fine := true
					if se, isS := x.Call.Fun.(*ast.SelectorExpr); isS && !simple(se.X) {
						fine = false
					}
					for _, a := range x.Call.Args {
						if _, isI := a.(*ast.Ident); !isI {
							fine = false
						}
					}
					if fine {
						f.add(x, "defer func() {\n"+f.s(x.Call)+"\n}()")
					}
				}
			}
		case "gofn":
			if x, ok := n.(*ast.GoStmt); ok && inList(x) {
				if fl, isF := x.Call.Fun.(*ast.FuncLit); isF {
					v := u()
					f.add(x, v+" := "+f.s(fl)+"\ngo "+v+f.between(fl.End(), x.End()))
				}
			}
		case "gomethod":
			// the body of a goroutine becomes a function
			if x, ok := n.(*ast.GoStmt); ok && inList(x) {
				fl, isF := x.Call.Fun.(*ast.FuncLit)
				if !isF || len(x.Call.Args) > 0 || has(fl.Body, func(n ast.Node) bool { _, is := n.(*ast.FuncLit); return is }) && false {
					break
				}
				vs, fine := f.free(fl.Body, fl.Pos(), fl.End())
				if !fine {
					break
				}
				// the variables must not change later
				for _, v := range vs {
					if f.reassigned(v) {
						fine = false
					}
				}
				d, a := f.params(vs)
				if !fine || strings.Contains(d, "NOTIMPORTED") {
					break
				}
				name := "work" + u()
				f.addRange(x.Pos(), x.End(), "go "+name+"("+a+")", "\nfunc "+name+"("+d+") "+f.s(fl.Body)+"\n")
			}
		case "complit":
			if x, ok := n.(*ast.AssignStmt); ok && inList(x) && x.Tok == token.DEFINE && len(x.Rhs) == 1 && len(x.Lhs) == 1 {
				e := x.Rhs[0]
				amp := ""
				if ue, isU := e.(*ast.UnaryExpr); isU && ue.Op == token.AND {
					amp, e = "&", ue.X
				}
				cl, isC := e.(*ast.CompositeLit)
				if !isC || len(cl.Elts) == 0 {
					break
				}
				if _, isS := f.info.TypeOf(cl).Underlying().(*types.Struct); !isS {
					break
				}
				out := f.s(x.Lhs[0]) + " := " + amp + f.s(cl.Type) + "{}\n"
				bad := false
				for _, el := range cl.Elts {
					kv, isK := el.(*ast.KeyValueExpr)
					if !isK {
						bad = true
						break
					}
					out += f.s(x.Lhs[0]) + "." + f.s(kv.Key) + " = " + f.s(kv.Value) + "\n"
				}
				// the fields must not refer to a variable of the same name
				if !bad && !has(cl, func(n ast.Node) bool {
					id, is := n.(*ast.Ident)
					return is && id.Name == f.s(x.Lhs[0])
				}) {
					f.add(x, out)
				}
			}
		case "retlit":
			if x, ok := n.(*ast.ReturnStmt); ok && len(x.Results) > 0 {
				ue, isU := x.Results[0].(*ast.UnaryExpr)
				if isU && ue.Op == token.AND {
					if cl, isC := ue.X.(*ast.CompositeLit); isC {
						v := u()
						rest := ""
						for _, e := range x.Results[1:] {
							rest += ", " + f.s(e)
						}
						f.add(x, v+" := "+f.s(ue)+"\nreturn "+v+rest)
						_ = cl
					}
				}
			}
		case "argtemp":
			s, ok := n.(ast.Stmt)
			if !ok || !inList(s) {
				break
			}
			var call *ast.CallExpr
			switch x := n.(type) {
			case *ast.ExprStmt:
				call, _ = x.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && len(x.Lhs) > 0 {
					fine := true
					for _, l := range x.Lhs {
						if _, isI := l.(*ast.Ident); !isI {
							fine = false
						}
					}
					if fine {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					call, _ = x.Results[0].(*ast.CallExpr)
				}
			}
			if call == nil || !simple(call.Fun) || call.Ellipsis.IsValid() {
				break
			}
			if tv, isT := f.info.Types[call.Fun]; isT && (tv.IsType() || tv.IsBuiltin()) {
				break
			}
			pre, txt := "", f.between(n.Pos(), call.Lparen+1)
			any := false
			for i, a := range call.Args {
				if i > 0 {
					txt += ", "
				}
				tv := f.info.Types[a]
				_, lit := a.(*ast.FuncLit)
				if tv.Value != nil || tv.IsNil() || simple(a) || lit {
					txt += f.s(a)
					continue
				}
				if b, isB := tv.Type.(*types.Basic); isB && b.Info()&types.IsUntyped != 0 {
					txt += f.s(a)
					continue
				}
				if _, isT := tv.Type.(*types.Tuple); isT {
					any = false
					break
				}
				v := u()
				pre += v + " := " + f.s(a) + "\n"
				txt += v
				any = true
			}
			if any {
				f.add(n, pre+txt+f.between(call.Rparen, n.End()))
			}
		case "splitand":
			if x, ok := n.(*ast.IfStmt); ok && x.Else == nil && x.Init == nil {
				if be, isB := x.Cond.(*ast.BinaryExpr); isB && be.Op == token.LAND {
					f.add(x, "if "+f.s(be.X)+" {\nif "+f.s(be.Y)+" "+f.s(x.Body)+"\n}")
				}
			}
		case "splitor":
			if x, ok := n.(*ast.IfStmt); ok && x.Else == nil && x.Init == nil && terminates(x.Body) && inList(x) {
				if be, isB := x.Cond.(*ast.BinaryExpr); isB && be.Op == token.LOR {
					f.add(x, "if "+f.s(be.X)+" "+f.s(x.Body)+"\nif "+f.s(be.Y)+" "+f.s(x.Body))
				}
			}
		case "initout":
			if x, ok := n.(*ast.IfStmt); ok && inList(x) && x.Init != nil {
				f.add(x, "{\n"+f.s(x.Init)+"\nif "+f.between(x.Cond.Pos(), x.End())+"\n}")
			}
		case "vardecl":
			if x, ok := n.(*ast.AssignStmt); ok && inList(x) && x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				if id, isI := x.Lhs[0].(*ast.Ident); isI && id.Name != "_" {
					if v := f.info.Defs[id]; v != nil {
						ty := f.typ(v.Type())
						if !strings.Contains(ty, "NOTIMPORTED") {
							// the name may be used on the right
							if !has(x.Rhs[0], func(n ast.Node) bool { y, is := n.(*ast.Ident); return is && y.Name == id.Name }) {
								f.add(x, "var "+id.Name+" "+ty+"\n"+id.Name+" = "+f.s(x.Rhs[0]))
							}
						}
					}
				}
			}
		case "forwhile":
			if x, ok := n.(*ast.ForStmt); ok && x.Cond != nil && !has(x.Body, func(n ast.Node) bool {
				b, is := n.(*ast.BranchStmt)
				return is && b.Tok == token.CONTINUE
			}) {
				init, post := "", ""
				if x.Init != nil {
					init = f.s(x.Init)
				}
				if x.Post != nil {
					post = f.s(x.Post)
				}
				f.add(x, "for "+init+";; {\nif "+negate(f.s(x.Cond))+" {\nbreak\n}\n"+f.body(x.Body)+"\n"+post+"\n}")
			}
		case "fieldtemp":
			// a closure around the tail of a function
			if x, ok := n.(*ast.FuncDecl); ok && x.Body != nil && len(x.Body.List) > 2 {
				_, named := f.results(x.Type)
				if !named && !has(x.Body, func(n ast.Node) bool {
					switch y := n.(type) {
					case *ast.DeferStmt, *ast.LabeledStmt:
						return true
					case *ast.BranchStmt:
						return y.Label != nil
					}
					return false
				}) {
					rs, _ := f.results(x.Type)
					l := x.Body.List
					k := len(l) / 2
					if k == 0 {
						break
					}
					res, ret := "", ""
					if len(rs) > 0 {
						res, ret = " ("+strings.Join(rs, ", ")+")", "return "
					}
					v := u()
					f.addRange(l[k].Pos(), x.Body.Rbrace, v+" := func()"+res+" {\n"+f.between(l[k].Pos(), x.Body.Rbrace)+"}\n"+ret+v+"()\n", "")
				}
			}
		case "tailfn":
			// the second half of a function becomes a function of its own
			if x, ok := n.(*ast.FuncDecl); ok && x.Body != nil && len(x.Body.List) > 2 {
				_, named := f.results(x.Type)
				l := x.Body.List
				k := len(l) / 2
				if named || k == 0 {
					break
				}
				bad := false
				for _, s := range l[k:] {
					if has(s, func(n ast.Node) bool {
						switch n.(type) {
						case *ast.DeferStmt, *ast.LabeledStmt:
							return true
						}
						return false
					}) {
						bad = true
					}
				}
				// the first half must not keep addresses or closures over variables the second half changes
				blk := &ast.BlockStmt{Lbrace: l[k].Pos(), List: l[k:], Rbrace: x.Body.Rbrace}
				vs, fine := f.free(blk, l[k].Pos(), x.Body.Rbrace)
				for _, s := range l[:k] {
					if has(s, func(n ast.Node) bool { _, is := n.(*ast.FuncLit); return is }) {
						for _, v := range vs {
							if f.reassigned(v) {
								bad = true
							}
						}
					}
				}
				if bad || !fine {
					break
				}
				d, a := f.params(vs)
				if strings.Contains(d, "NOTIMPORTED") {
					break
				}
				rs, _ := f.results(x.Type)
				res, ret := "", ""
				if len(rs) > 0 {
					res, ret = " ("+strings.Join(rs, ", ")+")", "return "
				}
				name := "rest" + u()
				f.addRange(l[k].Pos(), x.Body.Rbrace, ret+name+"("+a+")\n", "\nfunc "+name+"("+d+")"+res+" {\n"+f.between(l[k].Pos(), x.Body.Rbrace)+"}\n")
			}
		default:
			panic("unknown " + t)
		}
		return true
	})
}

// reassigned: the variable is assigned other than by its declaration
func (f *file) reassigned(v *types.Var) bool {
	return has(f.f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && f.info.Uses[id] == v {
					return true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := x.X.(*ast.Ident); ok && f.info.Uses[id] == v {
				return true
			}
		case *ast.UnaryExpr:
			if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && f.info.Uses[id] == v {
				return true
			}
		}
		return false
	})
}

func main() {
	t := flag.String("t", "", "rewrite")
	mod := flag.Int("n", 1, "")
	rem := flag.Int("k", 0, "")
	inner := flag.Bool("inner", false, "prefer inner places")
	skip := flag.String("skip", "", "places to leave alone")
	only := flag.String("only", "", "places to rewrite")
	flag.Parse()
	dir := flag.Arg(0)
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedImports | packages.NeedDeps, Fset: token.NewFileSet(),
		ParseFile: func(fs *token.FileSet, name string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fs, name, src, parser.ParseComments|parser.SkipObjectResolution)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	skips, onlys := map[string]bool{}, map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skips[s] = true
	}
	for _, s := range strings.Split(*only, ",") {
		if s != "" {
			onlys[s] = true
		}
	}
	total := 0
	for _, p := range pkgs {
		for _, af := range p.Syntax {
			path := cfg.Fset.Position(af.Pos()).Filename
			rel, _ := filepath.Rel(dir, path)
			if strings.HasSuffix(path, "_test.go") || strings.HasPrefix(rel, "cmd") || strings.HasPrefix(rel, "utils/dict_test") {
				continue
			}
			src, _ := os.ReadFile(path)
			f := &file{path: path, src: src, f: af, info: p.TypesInfo, pkg: p.Types, fset: cfg.Fset}
			f.walk(*t)
			sort.SliceStable(f.edits, func(i, j int) bool {
				a, b := f.edits[i], f.edits[j]
				if *inner {
					return a.hi-a.lo < b.hi-b.lo
				}
				return a.hi-a.lo > b.hi-b.lo
			})
			var keep []edit
			for i, e := range f.edits {
				e.id = fmt.Sprintf("%s:%d", rel, e.lo)
				_ = i
				if skips[e.id] || len(onlys) > 0 && !onlys[e.id] || e.lo%*mod != *rem {
					continue
				}
				clash := false
				for _, k := range keep {
					if e.lo < k.hi && k.lo < e.hi {
						clash = true
					}
				}
				if !clash {
					keep = append(keep, e)
				}
			}
			if len(keep) == 0 {
				continue
			}
			sort.Slice(keep, func(i, j int) bool { return keep[i].lo < keep[j].lo })
			out := ""
			at := 0
			tail := ""
			for _, e := range keep {
				out += string(src[at:e.lo])
				l0 := strings.Count(out, "\n") + 1
				out += e.text
				fmt.Printf("EDIT %s %d %d %s\n", rel, l0, strings.Count(out, "\n")+1, e.id)
				at = e.hi
			}
			out += string(src[at:])
			for _, e := range keep {
				l0 := strings.Count(out+tail, "\n") + 1
				tail += e.tail
				if e.tail != "" {
					fmt.Printf("EDIT %s %d %d %s\n", rel, l0, strings.Count(out+tail, "\n")+1, e.id)
				}
			}
			out += tail
			total += len(keep)
			if err := os.WriteFile(path, []byte(out), 0644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println("TOTAL", total)
}
