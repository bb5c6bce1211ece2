package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program: every package of the module under analysis with
// full syntax, types and SSA; dependencies with types only.
type World struct {
	inlined    int // calls replaced by what they call
	cancelling map[*ssa.Function]bool
	Dir        string
	Module     string
	Fset       *token.FileSet
	Pkgs       []*packages.Package
	ByPath     map[string]*packages.Package
	Prog       *ssa.Program
	SSA        map[string]*ssa.Package

	// All functions with a body written in the module (methods and closures
	// included, synthetic wrappers excluded), sorted by name.
	Fns   []*ssa.Function
	inMod map[*ssa.Function]bool

	// call sites by static callee
	callers map[*ssa.Function][]ssa.CallInstruction
	// functions used as values (not just called)
	addrTaken map[*ssa.Function]bool
	// closures: creation sites
	closures map[*ssa.Function][]*ssa.MakeClosure
	// stores by field
	fieldStores map[*types.Var][]*ssa.Store
	fieldLoads  map[*types.Var][]ssa.Value
	fieldAddrs  map[*types.Var][]*ssa.FieldAddr
	// all concrete named types of the module (for interface dispatch)
	named       []*types.Named
	ast         map[*types.Named]bool
	lockinfo    *lockInfo
	retPathMemo map[*ssa.Function]retMemo
	// every call instruction that may call a function
	sites map[*ssa.Function][]ssa.CallInstruction
}

func load(dir string) (w *World, err error) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(e)
			}
			w, err = loadTree(dir, false)
		}
	}()
	return loadTree(dir, true)
}

func loadTree(dir string, inline bool) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if st, err := os.Stat("/opt/veriftools/go1.25.14/bin/go"); err == nil && !st.IsDir() {
		env = append(env, "PATH=/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"))
		env = append(env, "GOROOT=/opt/veriftools/go1.25.14")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Fset: fset}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{Dir: dir, Fset: fset, ByPath: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		inMod: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		addrTaken: map[*ssa.Function]bool{}, closures: map[*ssa.Function][]*ssa.MakeClosure{},
		fieldStores: map[*types.Var][]*ssa.Store{}, fieldLoads: map[*types.Var][]ssa.Value{}, fieldAddrs: map[*types.Var][]*ssa.FieldAddr{}}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Module != nil && w.Module == "" {
			w.Module = p.Module.Path
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	w.Pkgs = pkgs
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.Prog = prog
	for i, p := range pkgs {
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		sp[i].Build()
		w.ByPath[p.PkgPath] = p
		w.SSA[p.PkgPath] = sp[i]
	}
	var gone map[*ssa.Function]bool
	if inline {
		gone = w.inlineNew()
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || gone[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil && (f.Synthetic == "" || f.Synthetic == "package initializer" || f.Parent() != nil || f.Synthetic == "range-over-func yield") {
			w.Fns = append(w.Fns, f)
			w.inMod[f] = true
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range sp {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if !types.IsInterface(n) {
					w.named = append(w.named, n)
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
		// named types declared inside functions
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && w.SSA[f.Pkg.Pkg.Path()] == f.Pkg {
			add(f)
		}
	}
	sort.Slice(w.Fns, func(i, j int) bool {
		return w.Fns[i].RelString(nil)+w.Pos(w.Fns[i].Pos()) < w.Fns[j].RelString(nil)+w.Pos(w.Fns[j].Pos())
	})
	sort.Slice(w.named, func(i, j int) bool { return w.named[i].String() < w.named[j].String() })
	for _, f := range w.Fns {
		normalize(f)
	}
	w.index()
	return w, nil
}

func (w *World) index() {
	for _, f := range w.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						w.callers[s] = append(w.callers[s], c)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					w.closures[fn] = append(w.closures[fn], mc)
				}
				for i, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						if c, isc := in.(ssa.CallInstruction); isc && i == 0 && !c.Common().IsInvoke() {
							continue
						}
						if _, isMC := in.(*ssa.MakeClosure); isMC {
							continue
						}
						w.addrTaken[fn] = true
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						fv := fieldOf(fa)
						w.fieldStores[fv] = append(w.fieldStores[fv], st)
					}
				}
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							fv := fieldOf(fa)
							w.fieldLoads[fv] = append(w.fieldLoads[fv], x)
						}
					}
				case *ssa.Field:
					st := x.X.Type().Underlying().(*types.Struct)
					fv := st.Field(x.Field)
					w.fieldLoads[fv] = append(w.fieldLoads[fv], x)
				case *ssa.FieldAddr:
					fv := fieldOf(x)
					w.fieldAddrs[fv] = append(w.fieldAddrs[fv], x)
				}
			}
		}
	}
}

func fieldOf(fa *ssa.FieldAddr) *types.Var {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st.Field(fa.Field)
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	pp := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Dir, pp.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = pp.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pp.Line)
}

// instrPos finds a usable position for an instruction.
func (w *World) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		for _, op := range v.(ssa.Instruction).Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				return w.Pos((*op).Pos())
			}
		}
	}
	// nearest instruction in the block with a position
	b := in.Block()
	if b != nil {
		best := token.NoPos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				best = x.Pos()
			}
			if x == in && best.IsValid() {
				break
			}
		}
		if best.IsValid() {
			return w.Pos(best)
		}
	}
	return w.Pos(in.Parent().Pos())
}

// short name of a function, without the module path
func (w *World) Name(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, w.Module+"/", "")
	s = strings.ReplaceAll(s, w.Module+".", "")
	s = strings.ReplaceAll(s, w.Module, "vfilter")
	return s
}

func (w *World) inModule(f *ssa.Function) bool { return f != nil && w.inMod[f] }

func (w *World) modType(t types.Type) (pkg, name string, ok bool) {
	if p, isp := t.(*types.Pointer); isp {
		t = p.Elem()
	}
	t = types.Unalias(t)
	n, isn := t.(*types.Named)
	if !isn || n.Obj().Pkg() == nil {
		return "", "", false
	}
	return n.Obj().Pkg().Path(), n.Obj().Name(), true
}

func (w *World) isModPkg(path string) bool {
	return path == w.Module || strings.HasPrefix(path, w.Module+"/")
}

// fn looks up a function or method by "pkgrel.Func" or "pkgrel.(*T).M".
func (w *World) lookupMethod(pkgrel, typ, method string) *ssa.Function {
	path := w.Module
	if pkgrel != "" {
		path += "/" + pkgrel
	}
	p := w.SSA[path]
	if p == nil {
		return nil
	}
	if typ == "" {
		return p.Func(method)
	}
	m, ok := p.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	n := m.Type().(*types.Named)
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == method {
			return w.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (w *World) typeNamed(pkgrel, typ string) *types.Named {
	path := w.Module
	if pkgrel != "" {
		path += "/" + pkgrel
	}
	p := w.SSA[path]
	if p == nil {
		return nil
	}
	m, ok := p.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

func isNamedType(t types.Type, path, name string) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func isContext(t types.Type) bool { return isNamedType(t, "context", "Context") }

func (w *World) isScope(t types.Type) bool {
	return isNamedType(t, w.Module+"/types", "Scope") || isNamedType(t, w.Module+"/scope", "Scope")
}

// calleeName gives package path, receiver type name and function name of a call.
type calleeID struct{ pkg, recv, name string }

func callID(c *ssa.CallCommon) calleeID {
	if c.IsInvoke() {
		m := c.Method
		id := calleeID{name: m.Name()}
		if m.Pkg() != nil {
			id.pkg = m.Pkg().Path()
		}
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			id.recv = n.Obj().Name()
			if n.Obj().Pkg() != nil {
				id.pkg = n.Obj().Pkg().Path()
			}
		}
		return id
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return calleeID{"builtin", "", b.Name()}
	}
	f := c.StaticCallee()
	if f == nil {
		return calleeID{}
	}
	return funcID(f)
}

func funcID(f *ssa.Function) calleeID {
	id := calleeID{name: f.Name()}
	if f.Object() != nil && f.Object().Pkg() != nil {
		id.pkg = f.Object().Pkg().Path()
		id.name = f.Object().Name()
	} else if f.Pkg != nil {
		id.pkg = f.Pkg.Pkg.Path()
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			id.recv = n.Obj().Name()
		}
	}
	return id
}

func (c calleeID) is(pkg, recv, name string) bool {
	return c.pkg == pkg && c.recv == recv && c.name == name
}

// boundMethod: for "x.M" method values SSA creates a bound-method closure;
// returns the receiver and the method name.
func boundMethod(v ssa.Value) (recv ssa.Value, m *ssa.Function, name string, ok bool) {
	mc, isMC := v.(*ssa.MakeClosure)
	if !isMC {
		return nil, nil, "", false
	}
	fn := mc.Fn.(*ssa.Function)
	if !strings.HasPrefix(fn.Synthetic, "bound method wrapper") || len(mc.Bindings) != 1 {
		return nil, nil, "", false
	}
	name = strings.TrimSuffix(fn.Name(), "$bound")
	return mc.Bindings[0], fn, name, true
}

// implementations of an interface method among the module's types.
func (w *World) impls(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	return w.implsOf(iface, c.Method.Name())
}

func (w *World) implsOf(iface *types.Interface, method string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range w.named {
		var t types.Type = n
		if !types.Implements(t, iface) {
			t = types.NewPointer(n)
			if !types.Implements(t, iface) {
				continue
			}
		}
		sel := types.NewMethodSet(t).Lookup(n.Obj().Pkg(), method)
		if sel == nil {
			sel = types.NewMethodSet(t).Lookup(nil, method)
		}
		if sel == nil {
			continue
		}
		fobj, _ := sel.Obj().(*types.Func)
		if fobj == nil {
			continue
		}
		if f := w.Prog.FuncValue(fobj); f != nil && w.inMod[f] {
			out = append(out, f)
		}
	}
	return out
}

// enclosing returns the outermost declared function of a closure.
func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// syntaxOf returns the declaration of a named function.
func syntaxOf(f *ssa.Function) ast.Node { return f.Syntax() }

func eachInstr(f *ssa.Function, fn func(b *ssa.BasicBlock, i int, in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			fn(b, i, in)
		}
	}
}

// dead: blocks unreachable from entry are removed by SSA, the recover block is kept.
func reachableFrom(start *ssa.BasicBlock, includeStart bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	if includeStart {
		walk(start)
	} else {
		for _, s := range start.Succs {
			walk(s)
		}
	}
	return seen
}
