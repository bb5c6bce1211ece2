V='vfilter.go'; G='vfilter_group.go'; VI='visitor.go'
M=[
('C09',V,'''			self_copy := *self
			self_copy.Limit = nil
''','''			self_copy := self
			self.Limit = nil
'''),
('C09',G,'''self_copy := *self
''','''self_copy := self
'''),
# repaired afterwards, but concurrently visible
('C09',V,'''			self_copy := *self
			self_copy.OrderBy = nil

			for row := range self_copy.Eval(ctx, scope) {
''','''			order_by := self.OrderBy
			self.OrderBy = nil
			defer func() { self.OrderBy = order_by }()

			for row := range self.Eval(ctx, scope) {
'''),
# copy by a helper: same behaviour
('C09',[(V,'''			self_copy := *self
			self_copy.Limit = nil
''','''			self_copy := self.without()
'''),(V,'''func (self *_Select) GoString() string {''','''func (self *_Select) without() *_Select {
	c := *self
	c.Limit = nil
	return &c
}

func (self *_Select) GoString() string {''')],0),
# memo of something that depends on the scope
('C09',[(V,'''	cache Any
}''','''	cache Any
	is_agg *bool
}'''),(V,'''func (self *_Value) maybeParse''','''func (self *_Value) isAgg(scope types.Scope) bool {
	self.mu.Lock()
	defer self.mu.Unlock()
	if self.is_agg == nil {
		res := self.SymbolRef.IsAggregate(scope)
		self.is_agg = &res
	}
	return *self.is_agg
}

func (self *_Value) maybeParse''')]),
('C09',V,'''	if self.String != nil {
		self.cache = utils.Unquote(*self.String)
''','''	if self.String != nil {
		self.cache = utils.Unquote(*self.String)
		if scope.Bool(self.cache) {
			return self.cache
		}
''',0),
('C09',V,'''	symbolref := self.SymbolRef
	if symbolref != nil {
		self.mu.Unlock()
		return symbolref.Reduce(ctx, scope)
''','''	symbolref := self.SymbolRef
	if symbolref != nil {
		self.mu.Unlock()
		res := symbolref.Reduce(ctx, scope)
		if _, ok := res.(string); ok {
			self.mu.Lock()
			self.cache = res
			self.mu.Unlock()
		}
		return res
'''),
# hit gives another outcome
('C09',V,'''	if column_name != nil {
		return *column_name
	}
''','''	if column_name != nil {
		return strings.ToLower(*column_name)
	}
'''),
('C09',V,'''		name := utils.Unquote_ident(self.As)
		column_name = &name
''','''		name := utils.Unquote_ident(self.As)
		column_name = &self.As
		self.mu.Lock()
		self.column_name = column_name
		self.mu.Unlock()
		return name
'''),
('C09',V,'''	if self.argsCache != nil {
		return self.parametersCache, self.argsCache
	}

	self.argsCache = make(map[string]*_Args)
''','''	if self.argsCache == nil {
		self.argsCache = make(map[string]*_Args)
	}
'''),
('C09',V,'''		if negated && len(components) > 0 {
			components[0] = strings.TrimPrefix(components[0], "-")
		}
		self.split_symbol = components
	}
	self.mu.Unlock()
''','''		self.split_symbol = components
	}
	if negated && len(components) > 0 {
		components[0] = strings.TrimPrefix(components[0], "-")
	}
	self.mu.Unlock()
'''),
('C09',V,'''		components = utils.SplitIdent(self.Name)
		self.split_name = components
	}
	self.mu.Unlock()
''','''		components = utils.SplitIdent(self.Name)
		self.split_name = components[1:]
	}
	self.mu.Unlock()
'''),
# in place change of a parsed list
('C09',[(V,'import (','import (\n	"sort"'),(V,'''	self.mu.Lock()
	parameters := self.Parameters
	self.mu.Unlock()

	return build''','''	self.mu.Lock()
	parameters := self.Parameters
	self.mu.Unlock()
	sort.Slice(parameters, func(i, j int) bool {
		return parameters[i].Left < parameters[j].Left
	})

	return build''')]),
('C09',V,'''		name := utils.Unquote_ident(arg.Left)

		// e.g. X=func(foo=Bar)''','''		name := utils.Unquote_ident(arg.Left)
		arg.Left = name

		// e.g. X=func(foo=Bar)'''),
# equal behaviour: helper for the column name
('C09',V,'''	if self.As != "" {
		name := utils.Unquote_ident(self.As)
		column_name = &name
	} else {
		name := utils.Unquote_ident(FormatToString(scope, self))
		column_name = &name
	}

	self.mu.Lock()
''','''	text := self.As
	if text == "" {
		text = FormatToString(scope, self)
	}
	name := utils.Unquote_ident(text)
	column_name = &name

	self.mu.Lock()
''',0),
# equal behaviour: local map first
('C09',V,'''	self.argsCache = make(map[string]*_Args)

	for _, arg := range self.LetParameters {
''','''	args := make(map[string]*_Args)
	self.argsCache = args

	for _, arg := range self.LetParameters {
''',0),
('C09',VI,'''func (self *Visitor) visitStoredExpression(node *StoredExpression) {
''','''func (self *Visitor) visitStoredExpression(node *StoredExpression) {
	node.defaults = nil
'''),
# the formatter changes what it formats
('C09',VI,'''func (self *Visitor) visitAliasedExpression(''','''func (self *Visitor) tidy(node *_AliasedExpression) {
	*node = _AliasedExpression{Expression: node.Expression, As: node.As}
}

func (self *Visitor) visitAliasedExpression('''),
('C09',VI,'''func (self *Visitor) visitAliasedExpression(''','''func (self *Visitor) tidy(node *_AliasedExpression) {
	comments := node.Comments[:0]
	for _, c := range node.Comments {
		if c.Comment != nil {
			comments = append(comments, c)
		}
	}
	self.Visit(comments)
}

func (self *Visitor) visitAliasedExpression('''),
]
