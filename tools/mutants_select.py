V='vfilter.go'; G='vfilter_group.go'; R='grouper/grouper.go'
LIM='''			limit := int(*self.Limit)
			count := 1

			if limit < count {
				return
			}
'''
LOOP='''				count += 1
				if count > limit {
					return
				}
'''
COND='''		if expression != nil && scope.Bool(expression) {
			materialized_row := MaterializedLazyRow(
				ctx, transformed_row, new_scope)
			select {
			case <-ctx.Done():
				return

			case output_chan <- materialized_row:
				scope.Explainer().SelectOutput(materialized_row)
			}
		} else {
			scope.Explainer().RejectRow(self.Where)
		}
	}
}
'''
GC="			if expression == nil || !scope.Bool(expression) {\n"
M=[
("C14",V,"expression != nil && scope.Bool(expression)","expression != nil || scope.Bool(expression)"),
("C14",V,"expression != nil && scope.Bool(expression)","expression == nil || scope.Bool(expression)"),
("C14",V,"expression != nil && scope.Bool(expression)","expression != nil"),
("C14",V,"expression != nil && scope.Bool(expression)","!types.IsNil(expression) && scope.Bool(expression)",0),
("C14",V,"expression != nil && scope.Bool(expression)","scope.Bool(expression)",0),
("C14",V,"		new_scope.AppendVars(row)\n",""),
("C14",V,"		new_scope.AppendVars(transformed_row)\n",""),
("C14",V,"		new_scope.AppendVars(row)\n		new_scope.AppendVars(transformed_row)\n","		new_scope.AppendVars(transformed_row)\n		new_scope.AppendVars(row)\n"),
("C14",V,"		new_scope.AppendVars(row)\n		new_scope.AppendVars(transformed_row)\n","		new_scope.AppendVars(row).AppendVars(transformed_row)\n",0),
("C14",V,"				self.processSingleRow(ctx, scope, row, output_chan)\n","				if row != nil { self.processSingleRow(ctx, scope, row, output_chan) }\n"),
("C14",V,"				self.processSingleRow(ctx, scope, row, output_chan)\n","				go self.processSingleRow(ctx, scope, row, output_chan)\n"),
("C14",V,COND,'''		if expression == nil || !scope.Bool(expression) {
			scope.Explainer().RejectRow(self.Where)
			return
		}
		self.emit(ctx, scope, MaterializedLazyRow(ctx, transformed_row, new_scope), output_chan)
	}
}

func (self *_Select) emit(ctx context.Context, scope types.Scope, row Row, out chan Row) {
	select {
	case <-ctx.Done():
		return

	case out <- row:
		scope.Explainer().SelectOutput(row)
	}
}
''',0),
("C14",V,COND,COND.replace("case output_chan <- materialized_row:","case output_chan <- row:")),
("C14",V,"				if !ok {\n					return\n				}\n				scope.Explainer","				if !ok || row == nil {\n					return\n				}\n				scope.Explainer"),
# limits
("C14",V,"			count := 1\n","			count := 0\n"),
("C14",V,"count > limit","count >= limit"),
("C14",V,"			if limit < count {\n				return\n			}\n",""),
("C14",V,"			if limit < count {\n				return\n			}\n","			if limit <= count {\n				return\n			}\n"),
("C14",V,"				count += 1\n				if count > limit {\n					return\n				}\n","				if count > limit {\n					return\n				}\n				count += 1\n"),
("C14",V,"count > limit","count == limit"),
("C14",V,"count > limit","count == limit+1",0),
("C14",[(V,LIM,'''			remaining := *self.Limit
			if remaining <= 0 {
				return
			}
'''),(V,LOOP,'''				remaining--
				if remaining == 0 {
					return
				}
''')],0),
("C14",[(V,LIM,'''			remaining := *self.Limit
			if remaining <= 0 {
				return
			}
'''),(V,LOOP,'''				if remaining == 0 {
					return
				}
				remaining--
''')]),
("C14",[(V,LIM,'''			limit := *self.Limit
'''),(V,'''			for row := range self_copy.Eval(sub_ctx, scope) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
'''+LOOP+'''			}
''','''			rows := self_copy.Eval(sub_ctx, scope)
			for i := int64(0); i < limit; i++ {
				row, ok := <-rows
				if !ok {
					return
				}
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
			}
''')],0),
("C14",[(V,LIM,'''			limit := *self.Limit
'''),(V,'''			for row := range self_copy.Eval(sub_ctx, scope) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
'''+LOOP+'''			}
''','''			rows := self_copy.Eval(sub_ctx, scope)
			for i := int64(0); i <= limit; i++ {
				row, ok := <-rows
				if !ok {
					return
				}
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
			}
''')]),
("C14",[(V,LIM,'''			limit := int(*self.Limit)
			if limit < 1 {
				return
			}
			count := 0
			full := func() bool { return count >= limit }
'''),(V,LOOP,'''				count++
				if full() {
					return
				}
''')],0),
# stages
("C14",V,"			self_copy.Limit = nil\n","			self_copy.Limit = nil\n			self_copy.OrderBy = nil\n"),
("C14",V,"			self_copy.Limit = nil\n","			self_copy.Limit = nil\n			self_copy.Where = nil\n"),
("C14",V,"			self_copy.OrderBy = nil\n","			self_copy.OrderBy = nil\n			self_copy.Where = nil\n"),
("C14",V,"				case sorter_input_chan <- row:\n				}\n","				case sorter_input_chan <- row:\n				default:\n				}\n"),
("C14",G,"			case sorter_input_chan <- row:\n			}\n","			case sorter_input_chan <- row:\n				return\n			}\n"),
("C14",G,"actor := &GroupbyActor{self, self.From.Eval(ctx, scope)}","self_copy := *self\n	self_copy.Where = nil\n	actor := &GroupbyActor{&self_copy, self.From.Eval(ctx, scope)}"),
("C14",G,"actor := &GroupbyActor{self, self.From.Eval(ctx, scope)}","actor := &GroupbyActor{delegate: self}\n	actor.row_source = self.From.Eval(ctx, scope)",0),
("C14",G,GC,"			if expression != nil && !scope.Bool(expression) {\n"),
("C14",G,GC,"			if !scope.Bool(expression) {\n",0),
("C14",G,GC,"			if expression == nil || scope.Bool(expression) {\n"),
("C14",G,"				new_scope.Close()\n				closer()\n				continue\n","				new_scope.Close()\n				closer()\n				break\n"),
("C14",G,"		new_scope.AppendVars(transformed_row)\n",""),
("C14",G,"		return transformed_row, row, gb_element, new_scope, nil\n","		if gb_element == \"\" {\n			new_scope.Close()\n			closer()\n			continue\n		}\n		return transformed_row, row, gb_element, new_scope, nil\n"),
("C14",G,'return nil, nil, "", nil, io.EOF','_ = io.EOF\n	return nil, nil, "", scope, nil'),
("C14",G,"		if self.delegate.Where != nil {\n","		if self.delegate.Where != nil && self.delegate.OrderBy == nil {\n",1),
("C14",R,"			if err != nil {\n				break\n			}\n","			if err != nil {\n				break\n			}\n			if row == nil {\n				continue\n			}\n"),
("C14",R,"			if err != nil {\n				break\n			}\n","			if err != nil || bin_idx == \"\" {\n				break\n			}\n"),
("C14",R,"			new_row := actor.MaterializeRow(ctx, row, row_scope)\n			row_scope.Close()\n","			new_row := aggregate_ctx.row\n			if new_row == nil {\n				new_row = actor.MaterializeRow(ctx, row, row_scope)\n			}\n			row_scope.Close()\n"),
]
