S='sort/sort.go'
CMP='''	null1 := !pres1 || types.IsNil(element1)
	null2 := !pres2 || types.IsNil(element2)

	// Descending order is the reverse of ascending order.
	if self.Desc {
		element1, element2 = element2, element1
		null1, null2 = null2, null1
	}

	// Rows with no value sort before any value, because normally NULL
	// comparisons are not stable.
	if null1 || null2 {
		return null1 && !null2
	}

	return self.Scope.Lt(element1, element2)
'''
M=[
("C23",S,"		null1, null2 = null2, null1\n",""),
("C23",S,"		element1, element2 = element2, element1\n",""),
("C23",S,"		return null1 && !null2\n","		return null1\n"),
("C23",S,"		return null1 && !null2\n","		return false\n"),
("C23",S,"	return self.Scope.Lt(element1, element2)\n","	return !self.Scope.Gt(element1, element2)\n"),
("C23",S,"	return self.Scope.Lt(element1, element2)\n","	return self.Scope.Lt(element2, element1)\n"),
("C23",S,"	return self.Scope.Lt(element1, element2)\n","	return self.Scope.Gt(element2, element1)\n",0),
("C23",S,"null1 := !pres1 || types.IsNil(element1)","null1 := !pres1 || element1 == nil"),
("C23",S,"null1 := !pres1 || types.IsNil(element1)","null1 := types.IsNil(element1)",0),
("C23",S,"null1 := !pres1 || types.IsNil(element1)","null1 := !pres1"),
("C23",S,"		Desc:    desc,\n",""),
("C23",S,"		Desc:    desc,\n","		Desc:    !desc,\n"),
("C23",S,"			sort.Sort(sort_ctx)\n","			sort.Sort(sort.Reverse(sort_ctx))\n"),
("C23",S,"			sort.Sort(sort_ctx)\n","			sort.Stable(sort_ctx)\n",0),
("C23",S,"			sort.Sort(sort_ctx)\n",""),
("C23",S,"				sort_ctx.Items = append(sort_ctx.Items, row)\n","				if row != nil { sort_ctx.Items = append(sort_ctx.Items, row) }\n"),
("C23",S,"				sort_ctx.Items = append(sort_ctx.Items, row)\n","				if len(sort_ctx.Items) < 100000 { sort_ctx.Items = append(sort_ctx.Items, row) }\n"),
("C23",S,"self.Items[j], self.OrderBy)",'self.Items[j], "x"+self.OrderBy)'),
("C23",S,CMP,'''	less, done := compareNulls(self.Desc, !pres1 || types.IsNil(element1), !pres2 || types.IsNil(element2))
	switch {
	case done:
		return less
	case self.Desc:
		return self.Scope.Lt(element2, element1)
	default:
		return self.Scope.Lt(element1, element2)
	}
}

func compareNulls(desc, a, b bool) (bool, bool) {
	if !a && !b {
		return false, false
	}
	if desc {
		return !a && b, true
	}
	return a && !b, true
''',0),
# sort.Slice with a closure
("C23",[(S,"			sort.Sort(sort_ctx)\n","""			sort.SliceStable(sort_ctx.Items, func(i, j int) bool {
				a, p1 := scope.Associative(sort_ctx.Items[i], key)
				b, p2 := scope.Associative(sort_ctx.Items[j], key)
				if desc {
					a, b, p1, p2 = b, a, p2, p1
				}
				no1, no2 := !p1 || types.IsNil(a), !p2 || types.IsNil(b)
				if no1 || no2 {
					return no1 && !no2
				}
				return scope.Lt(a, b)
			})
""")],0),
("C23",[(S,"			sort.Sort(sort_ctx)\n","""			sort.SliceStable(sort_ctx.Items, func(i, j int) bool {
				a, p1 := scope.Associative(sort_ctx.Items[i], key)
				b, p2 := scope.Associative(sort_ctx.Items[j], key)
				no1, no2 := !p1 || types.IsNil(a), !p2 || types.IsNil(b)
				if no1 || no2 {
					return no1 && !no2
				}
				if desc {
					a, b, p1, p2 = b, a, p2, p1
				}
				return scope.Lt(a, b)
			})
""")]),
("C23","vfilter.go","			desc = *self.OrderByDesc\n","			desc = true\n"),
("C23","vfilter.go","utils.Unquote_ident(*self.OrderBy), desc)","*self.OrderBy, desc)"),
("C23","vfilter_group.go","		desc = *self.OrderByDesc\n","		desc = !*self.OrderByDesc\n"),
("C23","vfilter_group.go","""	desc := false
	if self.OrderByDesc != nil {
		desc = *self.OrderByDesc
	}
""","""	desc := self.OrderByDesc != nil && *self.OrderByDesc
""",0),
("C23",[("vfilter_group.go","""	desc := false
	if self.OrderByDesc != nil {
		desc = *self.OrderByDesc
	}
""","""	desc := self.descending()
"""),("vfilter_group.go","func (self *_Select) EvalGroupBy","""func (self *_Select) descending() bool {
	if self.OrderByDesc == nil {
		return false
	}
	return *self.OrderByDesc
}

func (self *_Select) EvalGroupBy""")],0),
# the loop rewritten
("C23",S,"""				sort_ctx.Items = append(sort_ctx.Items, row)
""","""				sort_ctx.add(row)
			}
		}
	}()
	return output_chan
}

func (self *DefaultSorterCtx) add(row types.Row) {
	for {
		for {
			switch {
			default:
				self.Items = append(self.Items, row)
				return
			}
		}
	}
}

func unused() <-chan types.Row {
	output_chan := make(chan types.Row)
	go func() {
		for {
			for {
""",0),

("C23",[(S,"			sort.Sort(sort_ctx)\n","			if desc { sort.Sort(sort.Reverse(sort_ctx)) } else { sort.Sort(sort_ctx) }\n"),(S,"		Desc:    desc,\n","")],0),
("C23",[(S,"			sort.Sort(sort_ctx)\n","			if desc { sort.Sort(sort.Reverse(sort_ctx)) } else { sort.Sort(sort_ctx) }\n")]),
("C23",[(S,"""		for {
			select {
			case <-ctx.Done():
				return

			case row, ok := <-input:
				if !ok {
					return
				}
				// Collect all the rows
				sort_ctx.Items = append(sort_ctx.Items, row)
			}
		}
""","""		for row := range input {
			if ctx.Err() != nil {
				return
			}
			sort_ctx.Items = append(sort_ctx.Items, row)
		}
""")],0),
]
