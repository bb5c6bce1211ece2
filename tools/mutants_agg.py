A="functions/aggregates.go"; V="vfilter.go"; S="stored.go"; SC="scope/scope.go"; G="grouper/grouper.go"; AG="aggregators/aggregators.go"; VG="vfilter_group.go"
CNT='''	return scope.GetAggregatorCtx().Modify(self.id,
		func(previous_value_any types.Any, pres bool) types.Any {
			count := uint64(0)
'''
MAX='''	return scope.GetAggregatorCtx().Modify(self.id,
		func(previous_value_any types.Any, pres bool) types.Any {
			if pres && scope.Lt(max_value, previous_value_any) {
				max_value = previous_value_any
			}

			return max_value
		})
'''
SUM='''			sum += arg.Item
			return sum

		})
'''
KEEP='''		self.mu.Lock()
		if self.function == nil {
			self.function = function
		}
		function = self.function
		self.mu.Unlock()
'''
BIN='''			// Try to find the context in the map
			aggregate_ctx_any, pres := bins.Get(bin_idx)
			// No previous aggregate_row - initialize with a new context.
			if !pres {
				aggregate_ctx = &AggregateContext{
					context: aggregators.NewAggregatorCtx(),
				}
				bins.Set(bin_idx, aggregate_ctx)

			} else {
				aggregate_ctx = aggregate_ctx_any.(*AggregateContext)
			}
'''
M=[
("C16",A,"new_id := atomic.AddUint64(&id, 1)","new_id := atomic.AddUint64(&id, 0)"),
("C16",A,"	new_id := atomic.AddUint64(&id, 1)\n","	id++\n	new_id := id\n	_ = atomic.AddUint64\n"),
("C16",A,'id: fmt.Sprintf("id_%v", new_id)','id: fmt.Sprintf("id_%d", new_id)',0),
("C16",[(A,'fmt.Sprintf("id_%v", new_id)','"id_" + strconv.FormatUint(new_id, 10)'),(A,'	"fmt"\n','	"strconv"\n')],0),
("C16",A,'	return _MaxFunction{\n		Aggregator: NewAggregator(),\n	}','	return _MaxFunction{\n		Aggregator: self.Aggregator,\n	}'),
("C16",A,'	return _MaxFunction{\n		Aggregator: NewAggregator(),\n	}','	self.Aggregator = NewAggregator()\n	return self',0),
("C16",A,'	return _MaxFunction{\n		Aggregator: NewAggregator(),\n	}','	if self.id != "" {\n		return self\n	}\n	self.Aggregator = NewAggregator()\n	return self'),
("C16",A,'	return _MaxFunction{\n		Aggregator: NewAggregator(),\n	}','	return &_MaxFunction{NewAggregator()}',0),
# occurrence
("C16",V,KEEP,'''		self.mu.Lock()
		self.function = function
		self.mu.Unlock()
'''),
("C16",V,KEEP,'''		self.mu.Lock()
		if self.function == nil {
			self.function = function
		}
		self.mu.Unlock()
'''),
("C16",V,KEEP,'''		self.mu.Lock()
		stored := self.function
		if stored == nil {
			stored = function
			self.function = stored
		}
		function = stored
		self.mu.Unlock()
''',0),
("C16",V,KEEP,'''		function = self.keepFunction(function)
''' ,1) if False else ("C16",[(V,KEEP,"		function = self.keepFunction(function)\n"),(V,"// Call into a built in VQL function.\n",'''func (self *_SymbolRef) keepFunction(function FunctionInterface) FunctionInterface {
	self.mu.Lock()
	defer self.mu.Unlock()

	if self.function == nil {
		self.function = function
	}
	return self.function
}

// Call into a built in VQL function.
''')],0),
("C16",V,"		function = CopyFunction(func_obj)\n","		function = func_obj\n"),
("C16",V,"	if ok {\n		return copier.Copy()\n	}","	if ok {\n		_ = copier\n		return in.(types.FunctionInterface)\n	}"),
# one step
("C16",A,MAX,'''	previous, pres := self.GetContext(scope)
	if pres && scope.Lt(max_value, previous) {
		max_value = previous
	}
	self.SetContext(scope, max_value)
	return max_value
'''),
("C16",A,MAX,'''	return scope.GetAggregatorCtx().Modify(self.id,
		func(previous types.Any, pres bool) types.Any {
			if !pres {
				return max_value
			}
			if scope.Lt(max_value, previous) {
				return previous
			}
			return max_value
		})
''',0),
("C16",A,MAX,'''	update := func(previous types.Any, pres bool) types.Any {
			if pres && scope.Lt(max_value, previous) {
				return previous
			}
			return max_value
		}
	aggregator_ctx := scope.GetAggregatorCtx()
	return aggregator_ctx.Modify(self.id, update)
''',0),
("C16",A,MAX,MAX.replace("self.id","\"max\"")),
("C16",A,MAX,MAX.replace("if pres && ","if !pres && ")),
("C16",A,SUM,'''			sum = arg.Item
			return sum

		})
'''),
("C16",A,SUM,'''			return sum + arg.Item
		})
''',0),
("C16",A,"	// Modify the aggregator under lock\n",'''	if arg.Items == nil {
		previous, pres := self.GetContext(scope)
		if pres && types.IsNil(previous) {
			return previous
		}
	}
	// Modify the aggregator under lock
'''),
# modify
("C16",AG,"	self.mu.Lock()\n	defer self.mu.Unlock()\n\n	old_value, pres := self.data[name]\n	new_value := modifier(old_value, pres)\n",'''	self.mu.Lock()
	old_value, pres := self.data[name]
	self.mu.Unlock()
	new_value := modifier(old_value, pres)
	self.mu.Lock()
	defer self.mu.Unlock()
'''),
("C16",AG,"	self.data[name] = new_value\n","	if !pres {\n		self.data[name] = new_value\n	}\n"),
("C16",AG,"	new_value := modifier(old_value, pres)\n	self.data[name] = new_value\n	return new_value\n","	self.data[name] = modifier(old_value, pres)\n	return self.data[name]\n",0),
("C16",AG,"	return new_value\n","	return old_value\n"),
# scope
("C16",SC,"		ag_context:       nil, //  Search for context in our parent.\n","		ag_context:       aggregators.NewAggregatorCtx(),\n"),
("C16",SC,"		ag_context:       nil, //  Search for context in our parent.\n","",0),
("C16",SC,"		self.ag_context = aggregators.NewAggregatorCtx()\n	}\n\n	return self.ag_context","		return aggregators.NewAggregatorCtx()\n	}\n\n	return self.ag_context"),
("C16",SC,"	if ctx == nil {\n		ctx = aggregators.NewAggregatorCtx()\n	}\n",""),
("C16",SC,"	if ctx == nil {\n		ctx = aggregators.NewAggregatorCtx()\n	}\n\n	self.ag_context = ctx","	if ctx == nil {\n		self.ag_context = aggregators.NewAggregatorCtx()\n		return\n	}\n\n	self.ag_context = ctx",0),
("C16",SC,"	self.ag_context = ctx\n","	if self.ag_context == nil {\n		self.ag_context = ctx\n	}\n"),
# calls
("C16",V,"			if self.Called {\n				subscope.SetAggregatorCtx(nil)\n			}\n",""),
("C16",V,"			if self.Called {\n				subscope.SetAggregatorCtx(nil)\n			}\n","			subscope.SetAggregatorCtx(nil)\n",0),
("C16",V,"			if self.Called {\n				subscope.SetAggregatorCtx(nil)\n			}\n","			if len(self.Parameters) > 0 {\n				subscope.SetAggregatorCtx(nil)\n			}\n"),
("C16",[(V,"						aggregator_ctx: aggregators.NewAggregatorCtx(),\n","						aggregator_ctx: scope.GetAggregatorCtx(),\n"),(V,'	"www.velocidex.com/golang/vfilter/aggregators"\n','')]),
("C16",S,"		subscope.SetAggregatorCtx(self.aggregator_ctx)\n","		subscope.SetAggregatorCtx(scope.GetAggregatorCtx())\n"),
("C16",S,"		subscope.SetAggregatorCtx(self.aggregator_ctx)\n",""),
("C16",S,"	sub_scope := scope.Copy()\n	sub_scope.SetAggregatorCtx(nil)\n\n	self.checkCallingArgs(sub_scope, args)\n","	sub_scope := scope.Copy()\n	self.checkCallingArgs(sub_scope, args)\n"),
("C16",[(S,"	sub_scope := scope.Copy()\n	sub_scope.SetAggregatorCtx(nil)\n\n	self.checkCallingArgs(sub_scope, args)\n","	sub_scope := newCallScope(scope)\n	self.checkCallingArgs(sub_scope, args)\n"),(S,"// Stored queries can also behave like plugins.","func newCallScope(scope types.Scope) types.Scope {\n	sub_scope := scope.Copy()\n	sub_scope.SetAggregatorCtx(nil)\n	return sub_scope\n}\n\n// Stored queries can also behave like plugins.")],0),
("C16",[(S,"	sub_scope := scope.Copy()\n	sub_scope.SetAggregatorCtx(nil)\n\n	self.checkCallingArgs(sub_scope, args)\n","	sub_scope := newCallScope(scope)\n	self.checkCallingArgs(sub_scope, args)\n"),(S,"// Stored queries can also behave like plugins.","func newCallScope(scope types.Scope) types.Scope {\n	sub_scope := scope.Copy()\n	return sub_scope\n}\n\n// Stored queries can also behave like plugins.")]),
("C16",S,"	sub_scope.SetAggregatorCtx(nil)\n	defer sub_scope.Close()\n","	defer sub_scope.Close()\n	if len(args.Keys()) > 0 {\n		sub_scope.SetAggregatorCtx(nil)\n	}\n"),
# groups
("C16",G,"			row_scope.SetAggregatorCtx(aggregate_ctx.context)\n",""),
("C16",G,"			row_scope.SetAggregatorCtx(aggregate_ctx.context)\n","			new_scope.SetAggregatorCtx(aggregate_ctx.context)\n"),
("C16",[(G,"			row_scope.SetAggregatorCtx(aggregate_ctx.context)\n",""),(G,"			aggregate_ctx.row = new_row\n","			aggregate_ctx.row = new_row\n			row_scope.SetAggregatorCtx(aggregate_ctx.context)\n")]),
("C16",[(G,BIN,BIN.replace("aggregators.NewAggregatorCtx()","row_scope.GetAggregatorCtx()")),(G,'	"www.velocidex.com/golang/vfilter/aggregators"\n','')]),
("C16",G,BIN,BIN.replace("				bins.Set(bin_idx, aggregate_ctx)\n","				if bins.Len() < 1000 {\n					bins.Set(bin_idx, aggregate_ctx)\n				}\n")),
("C16",G,BIN,BIN.replace("bins.Get(bin_idx)","bins.Get(\"\" + bin_idx)"),0) if False else
("C16",G,BIN,'''			if aggregate_ctx_any, pres := bins.Get(bin_idx); pres {
				aggregate_ctx = aggregate_ctx_any.(*AggregateContext)
			} else {
				aggregate_ctx = &AggregateContext{}
				aggregate_ctx.context = aggregators.NewAggregatorCtx()
				bins.Set(bin_idx, aggregate_ctx)
			}
''',0),
("C16",[(G,"bins := ordereddict.NewDict() //(map[string]*AggregateContext)","bins := ordereddict.NewDict()\n		contexts := make(map[string]types.AggregatorCtx)"),
 (G,"			row_scope.SetAggregatorCtx(aggregate_ctx.context)\n",'''			group_ctx, known := contexts[bin_idx]
			if !known {
				group_ctx = aggregators.NewAggregatorCtx()
				contexts[bin_idx] = group_ctx
			}
			row_scope.SetAggregatorCtx(group_ctx)
''')],0),
("C16",[(G,"bins := ordereddict.NewDict() //(map[string]*AggregateContext)","bins := ordereddict.NewDict()\n		contexts := make(map[string]types.AggregatorCtx)"),
 (G,"			row_scope.SetAggregatorCtx(aggregate_ctx.context)\n",'''			group_ctx, known := contexts[bin_idx]
			if !known {
				group_ctx = aggregators.NewAggregatorCtx()
				contexts["x"] = group_ctx
			}
			row_scope.SetAggregatorCtx(group_ctx)
''')]),
("C16",VG,"		return transformed_row, row, gb_element, new_scope, nil\n","		row_scope := scope.Copy()\n		row_scope.AppendVars(row)\n		row_scope.AppendVars(transformed_row)\n		return transformed_row, row, gb_element, row_scope, nil\n"),
("C16",[(G,"				bins.Set(bin_idx, aggregate_ctx)\n",""),(G,"			aggregate_ctx.row = new_row\n","			aggregate_ctx.row = new_row\n			if !pres {\n				bins.Set(bin_idx, aggregate_ctx)\n			}\n")],0),
]
