S='scope/scope.go'; D='scope/dispatcher.go'; PA='protocols/protocol_add.go'
M=[
("C24",S,"		vars:             var_copy,","		vars:             self.vars,"),
("C24",S,"		vars:             var_copy,","		vars:             self.vars[:len(self.vars):len(self.vars)],",0),
("C24",[(S,"		vars:             var_copy,","		vars:             self.vars[:len(self.vars):len(self.vars)],"),(S,"""	var_copy := make([]types.Row, len(self.vars))
	copy(var_copy, self.vars)
""","")],0),
("C24",[(S,"""	var_copy := make([]types.Row, len(self.vars))
	copy(var_copy, self.vars)
""","""	var_copy := make([]types.Row, 0, len(self.vars)+4)
	for _, v := range self.vars {
		var_copy = append(var_copy, v)
	}
""")],0),
("C24",[(S,"""	var_copy := make([]types.Row, len(self.vars))
	copy(var_copy, self.vars)
""","""	var_copy := append([]types.Row(nil), self.vars...)
""")],0),
("C24",[(S,"""	copy(var_copy, self.vars)
""","""	copy(var_copy, self.vars[1:])
""")]),
("C24",S,"		enable_explainer: self.enable_explainer,\n",""),
("C24",S,"		throttler:        self.throttler,\n",""),
("C24",S,"		dispatcher:       self.dispatcher,\n","		dispatcher:       self.dispatcher.Copy(),\n"),
("C24",S,"		dispatcher: self.dispatcher.Copy(),\n","		dispatcher: self.dispatcher,\n"),
("C24",S,"		dispatcher: self.dispatcher.Copy(),\n","		dispatcher: newprotocolDispatcher(),\n"),
("C24",S,"	self.dispatcher = self.dispatcher.WithNewContext()\n",""),
("C24",S,"	self.dispatcher = self.dispatcher.WithNewContext()\n","	self.dispatcher = self.dispatcher.Copy()\n",0),
("C24",D,"		membership:   self.membership,\n",""),
("C24",D,"		lt:           self.lt,\n","		lt:           protocols.LtDispatcher{},\n"),
("C24",D,"		sub:          self.sub.Copy(),\n",""),
("C24",D,"		Tracer:       self.Tracer,\n","		Tracer:       self.Logger,\n"),
("C24",D,"		Materializer: self.Materializer,\n",""),
("C24",D,"		explainer:    self.explainer,\n",""),
("C24",D,"		functions:    self.copyFunctions(),\n","		functions:    self.functions,\n"),
("C24",D,"		plugins_copy[k] = v\n","		if _, pres := self.functions[k]; !pres { plugins_copy[k] = v }\n"),
# together: shared list, appended in place
("C24",[(PA,"		self.impl = append([]AddProtocol{impl}, self.impl...)","		self.impl = append(self.impl, impl)")]),
("C24",[(PA,"		append([]AddProtocol{}, self.impl...)}","		self.impl}")],0),
("C24",[(PA,"		append([]AddProtocol{}, self.impl...)}","		nil}")]),
# refactors
("C24",[(D,"		bool:         self.bool,\n		eq:           self.eq,\n","		eq:           self.eq,\n"),(D,"	clearMap(&res.context)\n	return res","	res.bool = self.bool\n	clearMap(&res.context)\n	return res")],0),
("C24",[(S,"""	child_scope := &Scope{
		dispatcher:       self.dispatcher,
""","""	child_scope := newChild(self)
	*child_scope = Scope{
		dispatcher:       self.dispatcher,
"""),(S,"func (self *Scope) Copy()","func newChild(p *Scope) *Scope { return &Scope{} }\n\nfunc (self *Scope) Copy()")],0),
("C24",S,"	for i := len(vars) - 1; i >= 0; i-- {","	for i := range vars {"),
("C24",S,"	for i := len(vars) - 1; i >= 0; i-- {","	for i := len(vars) - 1; i > 0; i-- {"),
("C24",S,"	for i := len(vars) - 1; i >= 0; i-- {\n		subscope := vars[i]","	for i := range vars {\n		subscope := vars[len(vars)-1-i]",0),
("C24",S,"			if element == nil {\n				element = types.Null{}\n			}\n			return",  "			return"),
("C24",S,"		if pres {\n			// Do not","		if pres && element != nil {\n			// Do not"),
("C24",S,"	result := self\n\n	result.vars = append(result.vars, row)","	result := self\n	if self.parent != nil { self.parent.vars = append(self.parent.vars, row) }\n	result.vars = append(result.vars, row)"),
]
