P = "C25"
M = [
# the limit counts before it hands over
(P, "vfilter.go", """			for row := range self_copy.Eval(sub_ctx, scope) {
""", """			for row := range self_copy.Eval(sub_ctx, scope) {
				if row == nil {
					continue
				}
"""),
(P, "stored.go", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case <-ctx.Done():
				return

			case output_chan <- row:
			}
""", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case <-ctx.Done():
				return

			case output_chan <- row:
			default:
			}
"""),
(P, "stored.go", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case <-ctx.Done():
				return

			case output_chan <- row:
			}
""", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case output_chan <- row:
			default:
			}
			select {
			case <-ctx.Done():
				return
			case output_chan <- row:
			}
"""),
(P, "stored.go", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case <-ctx.Done():
				return

			case output_chan <- row:
			}
""", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case output_chan <- row:
				continue
			default:
			}
			select {
			case <-ctx.Done():
				return
			case output_chan <- row:
			}
""", 0),
# a row without columns
(P, "vfilter_group.go", "			if expression == nil || !scope.Bool(expression) {", "			if expression == nil || !scope.Bool(expression) || len(scope.GetMembers(row)) == 0 {"),
(P, "vfilter_group.go", "			if expression == nil || !scope.Bool(expression) {", "			passes := expression != nil && scope.Bool(expression)\n			if !passes {", 0),
(P, "vfilter.go", "		if expression != nil && scope.Bool(expression) {", "		if expression != nil && scope.Bool(expression) && len(scope.GetMembers(row)) > 0 {"),
(P, "plugins/foreach.go", """					if pres {
						row_item = value
					} else {
						row_item = types.Null{}
					}
""", """					if !pres {
						continue
					}
					row_item = value
"""),
(P, "plugins/foreach.go", """				child_scope := scope.Copy()
				// child_scope""", """				if types.IsNil(row_item) {
					continue
				}
				child_scope := scope.Copy()
				// child_scope"""),
(P, "sort/sort.go", "				sort_ctx.Items = append(sort_ctx.Items, row)", "				if !types.IsNil(row) {\n					sort_ctx.Items = append(sort_ctx.Items, row)\n				}"),
(P, "sort/sort.go", "				sort_ctx.Items = append(sort_ctx.Items, row)", "				sort_ctx.add(row)", 0) if False else
(P, [("sort/sort.go", "				sort_ctx.Items = append(sort_ctx.Items, row)", "				sort_ctx.add(row)"), ("sort/sort.go", "func (self *DefaultSorterCtx) Len()", "func (self *DefaultSorterCtx) add(row types.Row) {\n	self.Items = append(self.Items, row)\n}\n\nfunc (self *DefaultSorterCtx) Len()")], 0),
(P, "sort/sort.go", "				sort_ctx.Items = append(sort_ctx.Items, row)", "				sort_ctx.Items = append(sort_ctx.Items, row)\n				if len(sort_ctx.Items) == 1000 {\n					return\n				}"),
(P, "api.go", "				if len(rows) >= maxrows {\n					ship_payload()", "				if len(rows) > 0 && len(rows) >= maxrows {\n					ship_payload()", 0),
(P, "api.go", "				if len(rows) >= maxrows {\n					ship_payload()\n", "				if len(rows) >= maxrows {\n					ship_payload()\n					continue\n"),
(P, "vfilter.go", """			for row := range self_copy.Eval(sub_ctx, scope) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1
				if count > limit {
					return
				}
""", """			for row := range self_copy.Eval(sub_ctx, scope) {
				if count > limit {
					return
				}
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1
""", 0),
(P, [("stored.go", """		for row := range self.query.Eval(ctx, new_scope) {
			select {
			case <-ctx.Done():
				return

			case output_chan <- row:
			}
		}
""", """		forward(ctx, self.query.Eval(ctx, new_scope), output_chan)
"""), ("stored.go", "func (self *_StoredQuery) Eval(", """func forward(ctx context.Context, in <-chan Row, out chan Row) {
	for row := range in {
		if !deliver(ctx, row, out) {
			return
		}
	}
}

func deliver(ctx context.Context, row Row, out chan Row) bool {
	select {
	case <-ctx.Done():
		return false
	case out <- row:
		return true
	}
}

func (self *_StoredQuery) Eval(""")], 0),
(P, "functions/functions.go", "	for item := range stored_query.Eval(ctx, new_scope) {\n", "	for item := range stored_query.Eval(ctx, new_scope) {\n		if len(result) > 100000 {\n			continue\n		}\n"),
(P, "materializer/in_memory.go", "range self.rows {", "range self.rows[:] {", 0),
(P, "materializer/in_memory.go", "		for _, row := range self.rows {\n", "		for i := 1; i < len(self.rows); i++ {\n			row := self.rows[i]\n"),
(P, "materializer/in_memory.go", "		for _, row := range self.rows {\n", "		for i := 0; i < len(self.rows)-1; i++ {\n			row := self.rows[i]\n"),
(P, "materializer/in_memory.go", "		for _, row := range self.rows {\n", "		for i := 0; i < len(self.rows); i++ {\n			row := self.rows[i]\n", 0),
(P, "grouper/grouper.go", "			if ok {\n				select {", "			if ok && aggregate_ctx.row.Len() > 0 {\n				select {"),
(P, "types/stored_query.go", "	for item := range stored_query.Eval(ctx, new_scope) {\n", "	for item := range stored_query.Eval(ctx, new_scope) {\n		if IsNil(item) {\n			continue\n		}\n"),
# lists of values
(P, "vfilter.go", "				for i := 0; i < var_slice.Len(); i++ {", "				for i := 0; i < var_slice.Len()-1; i++ {"),
(P, "vfilter.go", "				for i := 0; i < var_slice.Len(); i++ {", "				for i := 0; i < var_slice.Len() && i < 4096; i++ {"),
(P, "vfilter.go", "				for i := 0; i < var_slice.Len(); i++ {", "				for i := range var_slice.Len() {", 0),
(P, "vfilter.go", "				for i := 0; i < var_slice.Len(); i++ {", "				n := var_slice.Len()\n				for i := 0; i < n; i++ {", 0),
(P, "arg_parser/args.go", "				if !types.IsNil(value) {\n					select", "				if utils.IsArray(value) || !types.IsNil(value) {\n					select", 0),
(P, "arg_parser/args.go", "				if !types.IsNil(value) {\n					select", "				if scope.Bool(value) {\n					select"),
(P, "arg_parser/args.go", "				if !types.IsNil(value) {\n					select", "				if value != nil {\n					select", 0),
(P, "protocols/protocol_iterate.go", """				if types.IsNil(value) {
					continue
				}
""", """				if types.IsNil(value) {
					return
				}
"""),
(P, "protocols/protocol_iterate.go", """				if !ok {
					item =""", """				if ok && item.Len() == 0 {
					continue
				}
				if !ok {
					item ="""),
(P, "protocols/protocol_add.go", "		for i := 0; i < a_slice.Len(); i++ {", "		for i := 1; i < a_slice.Len(); i++ {"),
(P, "protocols/protocol_add.go", "			result = append(result, a_slice.Index(i).Interface())", "			item := a_slice.Index(i).Interface()\n			if item != \"\" {\n				result = append(result, item)\n			}"),
(P, "protocols/protocol_eq.go", "	for i := 0; i < value_a.Len(); i++ {", "	for i := 1; i < value_a.Len(); i++ {"),
(P, "protocols/protocol_membership.go", "		for i := 0; i < value.Len(); i++ {", "		for i := 0; i < value.Len(); i += 2 {"),
]
