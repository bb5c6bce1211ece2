V="vfilter.go"; S="stored.go"; SC="scope/scope.go"; D="types/defaults.go"
M=[
("C15",SC,"self.stack_depth + 1,","self.stack_depth,"),
("C15",SC,"stack_depth < 1000","stack_depth != 1000"),
("C15",SC,"stack_depth < 1000","stack_depth < 100000000"),
("C15",SC,"stack_depth < 1000","stack_depth <= 500",0),
("C15",SC,'	self.Log("Stack Overflow: %v", query)\n','	_ = query\n'),
("C15",SC,'''	if self.CheckForOverflow() {
		return types.Null{}, false
	}

	// Snapshot''','''	// Snapshot'''),
("C15",SC,'''	if self.CheckForOverflow() {
		return types.Null{}, false
	}

	// Snapshot''','''	if overflow := self.CheckForOverflow(); overflow {
		var null types.Null
		return null, false
	}

	// Snapshot''',0),
("C15",SC,'''		stack_depth:      self.stack_depth + 1,
		parent:           self,''','''		stack_depth:      1 + self.stack_depth,
		parent:           self,''',0),
("C15",SC,'''		stack_depth:      self.stack_depth + 1,
		parent:           self,''','''		stack_depth:      self.StackDepthLocked() + 1,
		parent:           self,'''.replace("self.StackDepthLocked()","(func() int { return self.stack_depth })()"),0),
# the ways to evaluate a definition again
("C15",S,"range self.query.Eval(ctx, new_scope)","range self.query.Eval(ctx, scope)"),
("C15",S,"		new_scope := scope.Copy()\n		defer new_scope.Close()\n","		new_scope := scope\n"),
("C15",S,"args.Set(name, arg.Right.Reduce(ctx, subscope))","args.Set(name, arg.Right.Reduce(ctx, scope))"),
("C15",S,"args.Set(name, arg.Array.Reduce(ctx, subscope))","args.Set(name, arg.Array.Reduce(ctx, scope))"),
("C15",S,"args.Set(name, NewStoredQuery(arg.SubSelect, name))","args.Set(name, arg.SubSelect)"),
("C15",V,"args.Set(name, NewStoredQuery(arg.SubSelect, name))","args.Set(name, arg.SubSelect)"),
("C15",S,"return self.Reduce(ctx, sub_scope)","return self.Reduce(ctx, scope)",0), # its own definition is not in reach without another nested scope
("C15",V,"self.maybeNegate(ctx, scope, negated, t.Reduce(ctx, subscope))","self.maybeNegate(ctx, scope, negated, t.Reduce(ctx, scope))"),
("C15",V,'''		subscope := scope.Copy()
		subscope.SetAggregatorCtx(nil)

		args := buildArgsFromParameters(ctx, scope, self.Args)''','''		subscope := scope
		args := buildArgsFromParameters(ctx, scope, self.Args)''',0), # the sub-query nests
("C15",V,'''		subscope := scope.Copy()
		value := t.Reduce(ctx, subscope)
''','''		subscope := scope.Copy()
		value := t.Reduce(ctx, scope)
''',0),
# keeps the nesting
("C15",S,'''	return self.Expr.Reduce(ctx, scope)
}''','''	expr := self.Expr
	return expr.Reduce(ctx, scope)
}''',0),
("C15",[(S,'''	subscope := scope.Copy()
	defer subscope.Close()

	if subscope.CheckForOverflow() {
		return
	}

	for name, arg''','''	subscope := nestScope(scope)
	defer subscope.Close()

	if subscope.CheckForOverflow() {
		return
	}

	for name, arg'''),(S,"func applyDefaults(","func nestScope(scope types.Scope) types.Scope {\n	return scope.Copy()\n}\n\nfunc applyDefaults(")],0),
("C15",[(S,'''				args.Set(name, arg.Right.Reduce(ctx, subscope))
			} else if arg.SubSelect != nil {
				args.Set(name, NewStoredQuery(arg.SubSelect, name))
			} else if arg.Array != nil {
				args.Set(name, arg.Array.Reduce(ctx, subscope))
			} else if arg.ArrayOpenBrace != "" {
				args.Set(name, []Row{})
			}
''','''				setDefault(ctx, subscope, args, name, arg)
			} else {
				setDefault(ctx, subscope, args, name, arg)
			}
'''),(S,"func applyDefaults(",'''func setDefault(ctx context.Context, subscope types.Scope, args *ordereddict.Dict, name string, arg *_Args) {
			switch {
			case arg.Right != nil:
				args.Set(name, arg.Right.Reduce(ctx, subscope))
			case arg.SubSelect != nil:
				args.Set(name, NewStoredQuery(arg.SubSelect, name))
			case arg.Array != nil:
				args.Set(name, arg.Array.Reduce(ctx, subscope))
			case arg.ArrayOpenBrace != "":
				args.Set(name, []Row{})
			}
}

func applyDefaults(''')],0),
("C15",V,'''func buildArgsFromParameters(
	ctx context.Context,
	scope types.Scope,
	parameters []*_Args) *ordereddict.Dict {

	args := ordereddict.NewDict()
''','''func buildArgsFromParameters(
	ctx context.Context,
	scope types.Scope,
	parameters []*_Args) *ordereddict.Dict {

	var args *ordereddict.Dict = ordereddict.NewDict()
	if len(parameters) == 0 {
		return args
	}
''',0),
# two sites: the copy moves into the caller, the query is evaluated elsewhere
("C15",[(S,"		new_scope := scope.Copy()\n		defer new_scope.Close()\n",""),
 (S,"range self.query.Eval(ctx, new_scope)","range self.evalNested(ctx, scope)"),
 (S,"// Stored queries can also behave like plugins.","func (self *_StoredQuery) evalNested(ctx context.Context, scope types.Scope) <-chan Row {\n	return self.query.Eval(ctx, scope)\n}\n\n// Stored queries can also behave like plugins.")]),
("C15",[(S,"		new_scope := scope.Copy()\n		defer new_scope.Close()\n","		new_scope := scope.Copy()\n		defer new_scope.Close()\n"),
 (S,"range self.query.Eval(ctx, new_scope)","range self.evalNested(ctx, new_scope)"),
 (S,"// Stored queries can also behave like plugins.","func (self *_StoredQuery) evalNested(ctx context.Context, scope types.Scope) <-chan Row {\n	return self.query.Eval(ctx, scope)\n}\n\n// Stored queries can also behave like plugins.")],0),
# lambda
]
