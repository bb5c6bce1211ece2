IFF='functions/if.go'; V='vfilter.go'
M=[
("C13",V,'''	if scope.Bool(left) == false {
		return false
	}

	last := left
	for _, term := range self.Right {
		right := term.Term.Reduce(ctx, scope)
		if scope.Bool(right) == false {
			return false
		}
''','''	result := scope.Bool(left)

	last := left
	for _, term := range self.Right {
		right := term.Term.Reduce(ctx, scope)
		result = result && scope.Bool(right)
		if !result {
			return false
		}
'''),
("C13",V,'''		right := term.Term.Reduce(ctx, scope)
		if scope.Bool(right) == true {
			if term.Operator == "||" {
				return right
			}
			return true
		}
		last = right
''','''		right := term.Term.Reduce(ctx, scope)
		if !scope.Bool(last) {
			last = right
		}
'''),
("C13",V,'''			if term.Operator == "||" {
				return right
			}
			return true
''','''			if term.Operator == "||" {
				return term.Term.Reduce(ctx, scope)
			}
			return true
'''),
("C13",IFF,'	Else      types.LazyAny','	Else      types.Any'),
("C13",IFF,'''	if scope.Bool(arg.Condition) {
''','''	lazy_else, ok := arg.Else.(types.LazyExpr)
	if ok {
		arg.Else = lazy_else.Reduce(ctx)
	}
	if scope.Bool(arg.Condition) {
'''),
("C13",IFF,'	if scope.Bool(arg.Condition) {','	if scope.Bool(arg.Condition) && !types.IsNil(arg.Then) {'),
("C13","plugins/if.go",'''		return arg.Then.Eval(ctx, scope)
	} else if arg.Else != nil {''','''		if out := arg.Then.Eval(ctx, scope); out != nil {
			return out
		}
	}
	if arg.Else != nil {'''),
("C13","plugins/if.go",'''	if scope.Bool(arg.Condition) {
''','''	if arg.Else != nil {
		defer arg.Else.Eval(ctx, scope)
	}
	if scope.Bool(arg.Condition) {
'''),
("C13","lazy.go",'''	if !self.done {
		self.Value = value
		self.done = true
	}
''','''	if !self.done && value != nil {
		self.Value = value
		self.done = true
	}
'''),
("C13","lazy.go",'	self.cache.Set(key, res)\n',''),
("C13","lazy.go",'	self.cache.Set(key, res)\n','	if !types.IsNil(res) {\n		self.cache.Set(key, res)\n	}\n'),
("C13","lazy.go",'''			value, pres := t.cache.Get(column)
			if !pres {
				getter, _ := t.getters[column]
				value = getter(ctx, scope)
			}
''','''			getter, _ := t.getters[column]
			value := getter(ctx, scope)
'''),
("C13","protocols/lazy_wrapper.go",'''func (self *LazyFunctionWrapper) Reduce(ctx context.Context) types.Any {
	self.mu.Lock()
	defer self.mu.Unlock()

	if !self.done {''','''func (self *LazyFunctionWrapper) Reduce(ctx context.Context) types.Any {
	self.mu.Lock()
	defer self.mu.Unlock()

	if self.cached == nil {'''),
("C13",V,'			args.Set(name, NewLazyExpr(ctx, scope, arg.Right))','			args.Set(name, arg.Right.Reduce(ctx, scope))'),
("C13","arg_parser/parser.go",'	return ToLazyExpr(scope, arg), nil','	if lazy, ok := arg.(types.LazyExpr); ok {\n		arg = lazy.Reduce(ctx)\n	}\n	return ToLazyExpr(scope, arg), nil'),
("C13","arg_parser/parser.go",'	result[lazyAnyType] = lazyAnyParser','	result[lazyAnyType] = anyParser'),
("C13","lazy.go",'''	return &LazyExprImpl{
		Expr:  expr,''','''	expr.Reduce(ctx, scope)
	return &LazyExprImpl{
		Expr:  expr,'''),
# kept
("C13",V,'''	last := left
	for _, term := range self.Right {
		right := term.Term.Reduce(ctx, scope)
		if scope.Bool(right) == false {
			return false
		}
''','''	last := left
	for i := 0; i < len(self.Right); i++ {
		term := self.Right[i]
		right := term.Term.Reduce(ctx, scope)
		truth := scope.Bool(right)
		if !truth {
			return false
		}
''',0),
("C13",V,'''		right := term.Term.Reduce(ctx, scope)
		if scope.Bool(right) == true {
			if term.Operator == "||" {
				return right
			}
			return true
		}
		last = right
	}

	return last
''','''		right := term.Term.Reduce(ctx, scope)
		last = right
		if !scope.Bool(right) {
			continue
		}
		if term.Operator != "||" {
			last = true
		}
		break
	}

	return last
''',0),
("C13","plugins/if.go",'''	if scope.Bool(arg.Condition) {
		return arg.Then.Eval(ctx, scope)
	} else if arg.Else != nil {
		return arg.Else.Eval(ctx, scope)
	}
''','''	selected := arg.Else
	if scope.Bool(arg.Condition) {
		selected = arg.Then
	}
	if selected != nil {
		return selected.Eval(ctx, scope)
	}
''',0),
("C13",[(IFF,'''	lazy_expr, ok := arg.Else.(types.LazyExpr)
	if ok {
		arg.Else = lazy_expr.ReduceWithScope(ctx, scope)
	}

	switch t := arg.Else.(type) {
	case types.StoredQuery:
		// If Function with subqueries should return a lazy subquery
		return t

	case types.LazyExpr:
		return t.ReduceWithScope(ctx, scope)

	default:
		return t
	}
}
''','''	return reduceBranch(ctx, scope, arg.Else)
}

func reduceBranch(ctx context.Context, scope types.Scope, branch types.Any) types.Any {
	lazy_expr, ok := branch.(types.LazyExpr)
	if ok {
		branch = lazy_expr.ReduceWithScope(ctx, scope)
	}

	if t, ok := branch.(types.StoredQuery); ok {
		return t
	}

	if t, ok := branch.(types.LazyExpr); ok {
		return t.ReduceWithScope(ctx, scope)
	}
	return branch
}
''')],0),
("C13","lazy.go",'''	res, pres := self.cache.Get(key)
	if pres {
		return res, true
	}

	// Not in cache, we need to get it.
	getter, pres := self.getters[key]
	if !pres {
		return Null{}, false
	}

	res = getter(self.ctx, self.scope)
	self.cache.Set(key, res)

	return res, true
}
''','''	if res, pres := self.cache.Get(key); pres {
		return res, true
	}

	return self.compute(key)
}

func (self *LazyRowImpl) compute(key string) (types.Any, bool) {
	getter, pres := self.getters[key]
	if !pres {
		return Null{}, false
	}

	value := getter(self.ctx, self.scope)
	self.cache.Set(key, value)
	return value, true
}
''',0),
("C13","lazy.go",'''	value, done := self.Value, self.done
	self.mu.Unlock()

	if done {
		return value
	}

	// Do not hold the lock while evaluating the expression.
	value = self.ReduceWithScope(ctx, self.scope)

	self.mu.Lock()
	defer self.mu.Unlock()

	// The first evaluation wins so everyone sees the same value.
	if !self.done {
		self.Value = value
		self.done = true
	}
	return self.Value
''','''	done := self.done
	self.mu.Unlock()

	if !done {
		computed := self.ReduceWithScope(ctx, self.scope)
		self.keep(computed)
	}

	self.mu.Lock()
	defer self.mu.Unlock()
	return self.Value
}

func (self *LazyExprImpl) keep(value types.Any) {
	self.mu.Lock()
	defer self.mu.Unlock()

	if self.done {
		return
	}
	self.Value = value
	self.done = true
''',0),
("C13",V,'''	args := ordereddict.NewDict()
	for _, arg := range parameters {
		if arg.Right != nil {
			// Lazily evaluate right hand side.
			name := utils.Unquote_ident(arg.Left)
			args.Set(name, NewLazyExpr(ctx, scope, arg.Right))

		} else if''','''	args := ordereddict.NewDict()
	for i := range parameters {
		arg := parameters[i]
		name := utils.Unquote_ident(arg.Left)
		if arg.Right != nil {
			lazy := NewLazyExpr(ctx, scope, arg.Right)
			args.Set(name, lazy)

		} else if''',0),
]
