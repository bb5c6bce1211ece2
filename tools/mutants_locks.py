L="	self.Lock()\n	defer self.Unlock()\n"
M=[
("C07","scope/scope.go","	self.Lock()\n	defer self.Unlock()\n\n	result := self\n\n	result.vars = append","	result := self\n\n	result.vars = append"),
("C07","scope/scope.go","	self.Lock()\n	self.throttler = t\n	self.Unlock()\n","	self.throttler = t\n"),
("C07","scope/scope.go","	self.Lock()\n	vars := self.vars[:]\n	self.Unlock()\n\n	return self._ResolveVars(field, vars)","	return self._ResolveVars(field, self.vars)"),
("C07","scope/scope.go","		parent.Lock()\n","		self.Lock()\n"),
("C07","aggregators/aggregators.go","	self.mu.Lock()\n	defer self.mu.Unlock()\n","\n"),
("C07","aggregators/aggregators.go","	self.mu.Lock()\n	defer self.mu.Unlock()\n\n	old_value, pres := self.data[name]\n	new_value := modifier(old_value, pres)\n","	self.mu.Lock()\n	old_value, pres := self.data[name]\n	self.mu.Unlock()\n	new_value := modifier(old_value, pres)\n"),
("C07","functions/aggregates.go","	new_id := atomic.AddUint64(&id, 1)","	id++\n	new_id := id\n	atomic.AddUint64(new(uint64), 1)"),
("C07","vfilter.go","	self.mu.Lock()\n	column_name := self.column_name\n	self.mu.Unlock()\n\n	if column_name != nil {\n		return *column_name","	if column_name := self.column_name; column_name != nil {\n		return *column_name",),
("C07","vfilter.go","	self.mu.Lock()\n	self.function = func_obj\n	self.mu.Unlock()\n","	self.function = func_obj\n"),
("C07","vfilter.go","	self.mu.Lock()\n	self.maybeParseStrNumber(scope)\n","	self.maybeParseStrNumber(scope)\n	self.mu.Lock()\n"),
("C07","vfilter.go","	self.mu.Lock()\n	components := self.split_name\n	if components == nil {\n		components = utils.SplitIdent(self.Name)\n		self.split_name = components\n	}\n	self.mu.Unlock()\n","	components := self.split_name\n	if components == nil {\n		components = utils.SplitIdent(self.Name)\n		self.split_name = components\n	}\n"),
("C07","protocols/lazy_wrapper.go","	self.mu.Lock()\n	defer self.mu.Unlock()\n\n	if self.cached","	if self.cached"),
("C07","arg_parser/cache.go","	mu.Lock()\n	defer mu.Unlock()\n","	if false {\n		mu.Lock()\n		mu.Unlock()\n	}\n"),
("C07","arg_parser/cache.go","	mu.Lock()\n	defer mu.Unlock()\n","	mu.Lock()\n	mu.Unlock()\n"),
("C07","scope/dispatcher.go","	self.Lock()\n	logger := self.Logger\n	self.Unlock()\n","	logger := self.Logger\n"),
("C07","scope/dispatcher.go","	self.Lock()\n	defer self.Unlock()\n\n	for _, part := range parts","	for _, part := range parts"),
("C07","scope/dispatcher.go","	res := self.explainer\n	self.Unlock()\n","	self.Unlock()\n	res := self.explainer\n"),
("C07","scope/scope.go","	self.mu.Lock()\n	defer self.mu.Unlock()\n\n	result := append(self.fn[:0:0]","	result := append(self.fn[:0:0]"),
("C07","types/stats.go","atomic.AddUint64(&self.RowsScanned, uint64(1))","self.RowsScanned++"),
("C07","types/stats.go","atomic.LoadUint64(&self._RowsScanned)","self._RowsScanned"),
("C07","lazy.go","	self.mu.Lock()\n	defer self.mu.Unlock()\n\n	// The first","	// The first"),
("C07","scope/scope.go","func (self *Scope) EnableExplain() {\n	self.Lock()\n	defer self.Unlock()\n","func (self *Scope) EnableExplain() {\n"),
# C08
("C08","scope/scope.go","			return self.parent.GetAggregatorCtx()\n","			return self.GetAggregatorCtx()\n"),
("C08","scope/scope.go","	self.Unlock()\n\n	// This has to be done without a lock since the child needs to\n	// access us.\n	for _, child := range children {\n		if child != nil {\n			child.Close()\n		}\n	}\n","	for _, child := range children {\n		if child != nil {\n			child.Close()\n		}\n	}\n	self.Unlock()\n"),
("C08","vfilter.go","	if symbolref != nil {\n		self.mu.Unlock()\n		return symbolref","	if symbolref != nil {\n		return symbolref"),
("C08","vfilter.go","	if symbolref != nil {\n		self.mu.Unlock()\n		return symbolref.Reduce(ctx, scope)","	if symbolref != nil {\n		defer self.mu.Unlock()\n		return symbolref.Reduce(ctx, scope)"),
("C08","vfilter.go","		res := *self.Float\n		self.mu.Unlock()\n		return res","		return *self.Float"),
("C08","vfilter.go","	parameters := self.Parameters\n	function := self.function\n	self.mu.Unlock()\n","	parameters := self.Parameters\n	function := self.function\n	defer self.mu.Unlock()\n"),
("C08","scope/scope.go","	self.throttler = t\n	self.Unlock()\n	self.AddDestructor(t.Close)","	defer self.Unlock()\n	self.throttler = t\n	self.AddDestructor(t.Close)"),
("C08","scope/scope.go","	vars := self.vars[:]\n	stack_depth := self.stack_depth\n	self.Unlock()\n","	defer self.Unlock()\n	vars := self.vars[:]\n	stack_depth := self.stack_depth\n"),
("C08","scope/scope.go","				parent.children_grabage_count++\n			}\n		}\n		parent.Unlock()\n","				parent.children_grabage_count++\n				parent.Unlock()\n				break\n			}\n		}\n"),
("C08","scope/scope.go","	self.Lock()\n	throttler := self.throttler\n	self.Unlock()\n","	self.Lock()\n	throttler := self.throttler\n	defer self.Unlock()\n"),
("C08","arg_parser/cache.go","	mu.Lock()\n	defer mu.Unlock()\n","	mu.Lock()\n"),
("C08","scope/dispatcher.go","	self.Unlock()\n\n	if res == nil {\n		return NULL_EXPLAINER\n	}\n	return res","	if res == nil {\n		return NULL_EXPLAINER\n	}\n	self.Unlock()\n	return res"),
("C08","scope/version.go","		scope.dispatcher.Unlock()\n\n		if pres {\n			return plugin","		if !pres {\n			scope.dispatcher.Unlock()\n		}\n\n		if pres {\n			return plugin"),
("C08","vfilter.go","	if self.argsCache != nil {\n		return self.parametersCache, self.argsCache\n	}\n","	if self.argsCache != nil {\n		self.mu.Unlock()\n		return self.parametersCache, self.argsCache\n	}\n"),
("C08","scope/dispatcher.go","func (self *protocolDispatcher) SetSorter(sorter types.Sorter) {\n	self.Lock()\n	self.Sorter = sorter\n	self.Unlock()","func (self *protocolDispatcher) SetSorter(sorter types.Sorter) {\n	self.Lock()\n	self.Sorter = sorter\n"),
("C08","scope/scope.go","	// Compact the children list lazily\n","	if self.CheckForOverflow() {\n		return self\n	}\n	// Compact the children list lazily\n"),
# behaviour kept
("C07,C08","scope/scope.go","	self.Lock()\n	self.throttler = t\n	self.Unlock()\n	self.AddDestructor(t.Close)","	func() {\n		self.Lock()\n		defer self.Unlock()\n		self.throttler = t\n	}()\n	self.AddDestructor(t.Close)",0),
("C07,C08","aggregators/aggregators.go","	old_value, pres := self.data[name]\n	new_value := modifier(old_value, pres)\n	self.data[name] = new_value\n	return new_value\n}","	return self.update(name, modifier)\n}\n\nfunc (self *AggregatorCtx) update(name string, m func(old_value types.Any, pres bool) types.Any) types.Any {\n	old_value, pres := self.data[name]\n	v := m(old_value, pres)\n	self.data[name] = v\n	return v\n}",0),
("C07,C08","vfilter.go","	if self.Int != nil {\n		res := *self.Int\n		self.mu.Unlock()\n		return res\n\n	}\n\n	if self.Float != nil {\n		res := *self.Float\n		self.mu.Unlock()\n		return res\n	}","	defer self.mu.Unlock()\n	return self.constant()\n}\n\nfunc (self *_Value) constant() Any {\n	if self.Int != nil {\n		return *self.Int\n	}\n	if self.Float != nil {\n		return *self.Float\n	}\n	if self.cache != nil {\n		return self.cache\n	}\n	if self.String != nil {\n		self.cache = utils.Unquote(*self.String)\n	} else if self.Boolean != nil {\n		self.cache = strings.ToLower(*self.Boolean) == \"true\"\n	} else {\n		self.cache = Null{}\n	}\n	return self.cache\n}\n\nfunc (self *_Value) unused(x int) Any {\n	self.mu.Lock()\n",0),
("C07,C08","scope/dispatcher.go","	self.Lock()\n	logger := self.Logger\n	self.Unlock()\n","	logger := self.GetLogger()\n",0),
]
