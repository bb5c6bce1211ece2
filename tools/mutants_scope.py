P="plugins/"
M=[
# C03
("C03","vfilter.go","			sub_ctx, cancel := context.WithCancel(ctx)\n			defer cancel()\n\n			for row := range self_copy.Eval(sub_ctx","			sub_ctx, cancel := context.WithCancel(ctx)\n			_ = cancel\n\n			for row := range self_copy.Eval(sub_ctx"),
("C03","vfilter.go","range self_copy.Eval(sub_ctx, scope)","range self_copy.Eval(ctx, scope)"),
("C03","protocols/stored_query.go","from_chan := stored_query.Eval(ctx, new_scope)\n		i :=","from_chan := stored_query.Eval(context.Background(), new_scope)\n		i :="),
("C03","protocols/stored_query.go","		defer cancel()\n\n		from_chan := stored_query.Eval(ctx, new_scope)","		_ = cancel\n\n		from_chan := stored_query.Eval(ctx, new_scope)"),
("C03","plugins/flatten.go","			members := row_dict.Keys()\n","			members := row_dict.Keys()\n			if len(members) == 0 {\n				return\n			}\n"),
("C03","plugins/foreach.go","					if pres {\n						row_item = value\n					} else {\n						row_item = types.Null{}\n					}","					if pres {\n						row_item = value\n					} else {\n						return\n					}"),
("C03","api.go","		// Throttle if needed.\n		scope.ChargeOp()\n	}\n\n	s, err","		if len(result) > 100000 {\n			break\n		}\n		// Throttle if needed.\n		scope.ChargeOp()\n	}\n\n	s, err"),
("C03","plugins/chain.go","case output_chan <- item:","case output_chan <- item:\n					if len(chans) > 100 {\n						return\n					}"),
("C03","sort/sort.go","				if !ok {","				if !ok || len(sort_ctx.Items) > 1000000 {"),
("C03","types/stored_query.go","			warned = true","			break"),
("C03","protocols/protocol_associative.go","for row := range t.Eval(ctx, scope) {","for row := range t.Eval(ctx, scope) {\n				if row == nil {\n					return nil, false\n				}"),
# C04
("C04","vfilter.go","	new_scope := scope.Copy()\n\n	// Closer is called by our caller.","	new_scope := scope.Copy().Copy()\n\n	// Closer is called by our caller."),
("C04","vfilter.go","			defer subscope.Close()\n\n			if self.Query == nil {\n				return\n			}\n","			if self.Query == nil {\n				return\n			}\n			defer subscope.Close()\n"),
("C04","vfilter.go","	subscope := scope.Copy()\n	defer subscope.Close()\n\n	transformed_row","	subscope := scope.Copy()\n\n	transformed_row"),
("C04","vfilter_group.go","				new_scope.Close()\n				closer()\n","				closer()\n"),
("C04","plugins/chain.go","			new_scope.Close()\n","\n"),
("C04","plugins/foreach.go","	defer scope.Close()\n","	if scope.IsClosed() {\n		defer scope.Close()\n	}\n"),
("C04","plugins/foreach.go","				child_scope.AppendVars(row_item)\n","				child_scope.AppendVars(row_item)\n				if types.IsNil(row_item) {\n					continue\n				}\n"),
("C04","lambda.go","	defer subscope.Close()\n","\n"),
("C04","stored.go","		new_scope := scope.Copy()\n		defer new_scope.Close()\n\n		for row","		new_scope := scope.Copy()\n\n		for row"),
("C04","functions/functions.go","	new_scope := scope.Copy()\n	defer new_scope.Close()","	new_scope := scope.Copy()\n	defer scope.IsClosed()"),
("C04","types/stored_query.go","	defer new_scope.Close()\n","	defer new_scope.IsClosed()\n"),
("C04","vfilter.go","			if self.Called {\n				subscope.SetAggregatorCtx(nil)\n			}\n			defer subscope.Close()\n\n			if subscope.CheckForOverflow() {\n				return &Null{}\n			}\n","			if self.Called {\n				subscope.SetAggregatorCtx(nil)\n			}\n			if subscope.CheckForOverflow() {\n				return &Null{}\n			}\n			defer subscope.Close()\n\n"),
("C04","protocols/protocol_associative.go","			defer sub_scope.Close()\n","\n"),
# C05
("C05","stored.go","		new_scope := scope.Copy()\n		defer new_scope.Close()\n\n		for row := range self.query.Eval(ctx, new_scope) {","		new_scope := scope.Copy()\n		ch := self.query.Eval(ctx, new_scope)\n		new_scope.Close()\n\n		for row := range ch {"),
("C05","plugins/foreach.go","	child_ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n	defer scope.Close()\n\n	query_chan := self.query.Eval(child_ctx, scope)","	child_ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n	query_chan := self.query.Eval(child_ctx, scope)\n	scope.Close()\n"),
("C05","grouper/grouper.go","			new_row := actor.MaterializeRow(ctx, row, row_scope)\n			row_scope.Close()\n","			row_scope.Close()\n			new_row := actor.MaterializeRow(ctx, row, row_scope)\n"),
("C05","vfilter.go","	transformed_row, closer := self.SelectExpression.Transform(\n		ctx, subscope, row)\n	defer closer()","	transformed_row, closer := self.SelectExpression.Transform(\n		ctx, subscope, row)\n	closer()"),
("C05","vfilter.go","	return new_row, new_scope.Close\n}","	defer new_scope.Close()\n	return new_row, func() {}\n}"),
("C05","vfilter.go","		go func() {\n			defer close(output_chan)\n			defer subscope.Close()\n\n			if self.Query == nil {","		defer subscope.Close()\n		go func() {\n			defer close(output_chan)\n\n			if self.Query == nil {"),
("C05","plugins/chain.go","			in_chan := chan_query.Eval(ctx, new_scope)","			in_chan := chan_query.Eval(ctx, new_scope)\n			new_scope.Close()"),
("C05","types/stored_query.go","	for item := range stored_query.Eval(ctx, new_scope) {","	ch := stored_query.Eval(ctx, new_scope)\n	new_scope.Close()\n	for item := range ch {"),
]
