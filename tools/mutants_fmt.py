V='visitor.go'
G='vfilter.go'
F='reformat/visitor.go'
M=[
# bugs
('C17',V,'		self.push(" ", right.Operator, " ")\n		self.Visit(right.Factor)','		self.push(" * ")\n		self.Visit(right.Factor)'),
('C17',V,'		if right.Term != nil {\n			self.Visit(right.Term)\n		}\n	}\n}\n\nfunc (self *Visitor) visitMember','		if right.Term != nil && len(node.Right) > 1 {\n			self.Visit(right.Term)\n		}\n	}\n}\n\nfunc (self *Visitor) visitMember'),
('C17',V,'	for _, right := range node.Right {\n		self.push(",", " ")','	for _, right := range node.Right[1:] {\n		self.push(",", " ")'),
('C17',V,'		self.Visit(right.Comments)\n		self.Visit(right.Comment2)','		self.Visit(right.Comments)'),
('C17',V,'				self.push(":")\n',''[:0]) if False else ('C17',V,'			self.push(":")\n','			if right.Index != nil {\n				self.push(":")\n			}\n'),
('C17',V,'			if right.RangeEnd != nil {\n				self.Visit(right.RangeEnd)','			if right.RangeEnd != nil && right.Index != nil {\n				self.Visit(right.RangeEnd)'),
('C17',V,'		self.push("NOT ")\n		self.Visit(node.Not)','		self.Visit(node.Not)'),
('C17',V,'		self.push("NOT ")\n		self.Visit(node.Not)','		self.Visit(node.Not)\n		self.push("NOT ")'),
('C17',V,'		self.push("(")\n		self.indent_in()\n		defer self.pop_indent()\n\n		self.Visit(subexpression)\n		self.push(")")','		self.indent_in()\n		defer self.pop_indent()\n\n		self.Visit(subexpression)'),
('C17',V,'		self.push(*node.String)','		self.push("\'", utils.Unquote(*node.String), "\'")'),
('C17',V,'strconv.FormatInt(*node.Int, 10)','strconv.FormatInt(*node.Int, 8)'),
('C17',V,"strconv.FormatFloat(*node.Float, 'f', -1, 64)","strconv.FormatFloat(*node.Float, 'f', 6, 64)"),
('C17',V,"strconv.FormatFloat(*node.Float, 'f', -1, 64)","strconv.FormatFloat(*node.Float, 'f', -1, 32)"),
('C17',V,'		if !strings.Contains(result, ".") {\n			result = result + ".0"\n		}\n',''),
('C17',V,'		self.push("NULL")','		self.push("FALSE")'),
('C17',V,'	if node.Explain != nil {\n		self.push("EXPLAIN ")\n	}\n\n	self.push("SELECT ")','	self.push("SELECT ")'),
('C17',V,'	if node.GroupBy != nil {','	if node.GroupBy != nil && node.Where == nil {'),
('C17',V,'		if node.OrderByDesc != nil && *node.OrderByDesc {\n			self.push(" DESC ")\n		}\n',''),
('C17',V,'		if node.OrderByDesc != nil && *node.OrderByDesc {','		if node.OrderByDesc != nil && node.Limit == nil {'),
('C17',V,'"LIMIT %d ", int(*node.Limit)','"LIMIT %d ", int32(*node.Limit)'),
('C17',V,'		self.push(fmt.Sprintf("LIMIT %d ", int(*node.Limit)))','		self.push("LIMIT ", strconv.Itoa(int(int16(*node.Limit))))'),
('C17',V,'	if node.Where != nil {\n		self.line_break()\n		self.push("WHERE ")\n		self.Visit(node.Where)\n	}\n\n	if node.GroupBy != nil {\n		self.line_break()\n		self.push("GROUP BY ")\n		self.push_indent()\n		defer self.pop_indent()\n\n		self.Visit(node.GroupBy)\n	}\n','	if node.GroupBy != nil {\n		self.line_break()\n		self.push("GROUP BY ")\n		self.push_indent()\n		defer self.pop_indent()\n\n		self.Visit(node.GroupBy)\n	}\n\n	if node.Where != nil {\n		self.line_break()\n		self.push("WHERE ")\n		self.Visit(node.Where)\n	}\n'),
('C17',V,'		if node.As != "" {\n			self.push(" AS ", node.As)\n		}\n	}\n}','	}\n}'),
('C17',V,'					self.Visit(node.Expression)\n					self.push(" AS ", node_as)','					self.Visit(node.Expression)'),
('C17',V,'					self.push(" AS ", node_as)\n				},','					self.push(" AS ", utils.Unquote_ident(node_as))\n				},'),
('C17',V,'	for idx, item := range node.Expressions {\n		self.visitAliasedExpression(item, idx)','	for idx, item := range node.Expressions {\n		if idx > 500 {\n			break\n		}\n		self.visitAliasedExpression(item, idx)'),
('C17',V,'		self.push("*")\n		if len(node.Expressions) > 0 {','		if len(node.Expressions) > 0 {'),
('C17',V,'	} else if node.ArrayOpenBrace != "" {\n		self.push(node.Left, "=[]")\n	}','	}'),
('C17',V,'		self.push(node.Left, "=[")\n		self.Visit(node.Array)\n		self.push("]")','		self.push(node.Left, "=")\n		self.Visit(node.Array)'),
('C17',V,'	if node.Comments != nil {\n		self.has_comments = true','	if node.Comments != nil && !self.opts.test {\n		self.has_comments = true'),
('C17',V,'			self.push("  ")\n			self.Visit(node.SubSelect)\n\n			// Align closing } to previous block\n			self.pop_indent()\n			self.line_break()\n			self.push("}")','			self.push("  ")\n			self.Visit(node.SubSelect)\n\n			// Align closing } to previous block\n			self.pop_indent()\n			self.line_break()'),
('C17',V,'		if len(node.Args) == 0 {\n			self.push("()")\n			return\n		}','		if len(node.Args) == 0 {\n			return\n		}'),
('C17',V,'	if len(node.Parameters) == 0 {\n		self.push("()")\n		return\n	}','	if len(node.Parameters) < 2 {\n		self.push("()")\n		return\n	}'),
('C17',V,'	if !node.Called && node.Parameters == nil {\n		callsite','	if node.Parameters == nil {\n		callsite'),
('C17',V,'		if node.LetOperator != "" {\n			operator = node.LetOperator\n		}\n',''),
('C17',V,'	self.Fragments = append([]string{}, in.Fragments...)\n','	self.Fragments = append([]string{}, in.Fragments[:len(in.Fragments)-1]...)\n'),
('C17',V,'		Fragments:   append([]string{}, self.Fragments...),\n',''),
('C17',V,'	self.Comments = append(self.Comments, in.Comments...)\n',''),
('C17',V,'	self.CallSites = append(self.CallSites, in.CallSites...)\n','	self.CallSites = in.CallSites\n'),
('C17',V,'			res = test_visitor\n		}\n	}','			res.merge(test_visitor)\n		}\n	}'),
('C17',V,'		if !self.opts.BreakLines {\n			self.merge(test_visitor)\n			return\n		}','		if !self.opts.BreakLines {\n			return\n		}'),
('C17',V,'		} else if res.is_better(test_visitor) {\n			res = test_visitor\n		}','		} else if res.is_better(test_visitor) {\n			res = self.copy()\n		}'),
('C17',V,'	if strings.TrimSpace(last_fragment) == "" {\n		self.pop()\n	}','	if strings.TrimSpace(last_fragment) != ")" {\n		self.pop()\n	}'),
('C17',V,'	for _, i := range fragments {\n		self.Fragments','	for _, i := range fragments {\n		if self.pos > 2000 {\n			break\n		}\n		self.Fragments'),
('C17',V,'strings.Join(self.Fragments, "")\n}\n\nfunc (self *Visitor) Visit','strings.Join(self.Fragments, " ")\n}\n\nfunc (self *Visitor) Visit'),
('C17',V,'	return strings.TrimSpace(visitor.ToString())','	return strings.Join(strings.Fields(visitor.ToString()), " ")'),
('C17',F,'	return strings.TrimRight(result, " "), nil','	return strings.ReplaceAll(result, "  \\n", "\\n"), nil'),
('C17',V,'	case *_From:\n		self.visitPlugin(&t.Plugin)\n\n',''),
('C17',V,'	case []*_Comment:\n		for _, c := range t {\n			self.visitComment(c)\n		}\n\n',''),
('C17',V,'	if node.MultiLine != nil {\n		if self.opts.CollectComments {\n			self.Comments = append(self.Comments, *node.MultiLine)\n		}\n','	if node.MultiLine != nil {\n'),
('C17',V,'		self.Visit(node.trailing_comments)\n',''),
('C17',V,'	if node.Called && self.opts.CollectCallSites {\n','	if node.Called && self.opts.CollectCallSites && len(node.Parameters) > 0 {\n'),
('C17',G,'	self.VQL1.Comments = self.Comments\n',''),
('C17',G,'	self.VQL1.trailing_comments = self.Comments2\n',''),
('C17',G,'		self.VQL2.Comments = append(self.Comments2, self.VQL2.Comments...)\n		self.Comments2 = nil','		self.Comments2 = nil'),
('C17',G,'	if self.VQL2 != nil {\n		return append(result, self.VQL2.GetStatements()...)\n	}\n	return result','	return result'),
('C17',V,'			if p.DefaultArg != nil {\n						self.Visit(p.DefaultArg)','			if p.DefaultArg != nil && p.DefaultArg.Right != nil {\n						self.Visit(p.DefaultArg)') if False else ('C17',V,'					if p.DefaultArg != nil {','					if p.DefaultArg != nil && p.DefaultArg.Right != nil {'),
('C17',V,'		self.push(*node.Boolean)','		if self.scope != nil {\n			self.push(*node.Boolean)\n		}'),
('C17',V,'	self.push(node.Name)\n','	self.push(strings.ToLower(node.Name))\n'),
('C17',V,'	self.push(" => ")\n',''),
('C17',V,'		self.push(", ")\n		self.Visit(node.Right.Term)','		self.push(", ", node.Right.Term.Left)'),
# behaviour kept
('C17',V,'	self.Visit(node.Left)\n	if node.Right != nil {\n		self.push(" ", node.Right.Operator, " ")\n		self.Visit(node.Right.Right)\n	}\n}','	self.Visit(node.Left)\n	if node.Right == nil {\n		return\n	}\n	self.visitComparison(node.Right)\n}\n\nfunc (self *Visitor) visitComparison(c *_OpComparison) {\n	self.push(" ")\n	self.push(c.Operator)\n	self.push(" ")\n	self.Visit(c.Right)\n}',0),
('C17',V,'	for _, right := range node.Right {\n		self.push(" ", right.Operator, " ")\n		self.Visit(right.Factor)\n	}','	for i := 0; i < len(node.Right); i++ {\n		op := node.Right[i].Operator\n		self.push(" " + op + " ")\n		self.Visit(node.Right[i].Factor)\n	}',0),
('C17',V,'	if len(node.Right) == 0 {\n		return\n	}\n',''  ,0),
('C17',V,'			self.push("(")\n			for idx, arg := range node.Parameters {\n				self.Visit(arg)\n				// Do not add , after the last parameter\n				if idx < len(node.Parameters)-1 {\n					self.push(",", " ")\n				}\n			}\n			self.push(")")\n		},','			self.visitCallArgs(node.Parameters)\n		},',0) if False else
('C17',[(V,'			self.push("(")\n			for idx, arg := range node.Parameters {\n				self.Visit(arg)\n				// Do not add , after the last parameter\n				if idx < len(node.Parameters)-1 {\n					self.push(",", " ")\n				}\n			}\n			self.push(")")\n		},','			self.visitCallArgs(node.Parameters)\n		},'),(V,'func (self *Visitor) visitAndExpression','func (self *Visitor) visitCallArgs(args []*_Args) {\n	self.push("(")\n	for idx, arg := range args {\n		if idx > 0 {\n			self.push(",", " ")\n		}\n		self.Visit(arg)\n	}\n	self.push(")")\n}\n\nfunc (self *Visitor) visitAndExpression')],0),
('C17',V,'	if node.Limit != nil {\n		self.line_break()\n		self.push(fmt.Sprintf("LIMIT %d ", int(*node.Limit)))\n	}','	self.visitLimit(node.Limit)\n}\n\nfunc (self *Visitor) visitLimit(limit *int64) {\n	if limit == nil {\n		return\n	}\n	self.line_break()\n	self.push("LIMIT ", strconv.FormatInt(*limit, 10), " ")',0),
('C17',V,'		result := strconv.FormatFloat(*node.Float, \'f\', -1, 64)\n		if !strings.Contains(result, ".") {\n			result = result + ".0"\n		}\n		self.push(result)','		self.push(formatFloat(*node.Float))',0) if False else
('C17',[(V,'		result := strconv.FormatFloat(*node.Float, \'f\', -1, 64)\n		if !strings.Contains(result, ".") {\n			result = result + ".0"\n		}\n		self.push(result)','		self.push(formatFloat(*node.Float))'),(V,'func (self *Visitor) visitCommaExpression','func formatFloat(value float64) string {\n	result := strconv.FormatFloat(value, \'f\', -1, 64)\n	if strings.Contains(result, ".") {\n		return result\n	}\n	return result + ".0"\n}\n\nfunc (self *Visitor) visitCommaExpression')],0),
('C17',V,'	if node.VQLComment != nil {\n		if self.opts.CollectComments {\n			self.Comments = append(self.Comments, *node.VQLComment)\n		}\n\n		self.push(*node.VQLComment)','	if comment := node.VQLComment; comment != nil {\n		text := *comment\n		if self.opts.CollectComments {\n			self.Comments = append(self.Comments, text)\n		}\n\n		self.push(text)',0),
('C17',V,'	for idx, item := range node.Expressions {\n		self.visitAliasedExpression(item, idx)\n		// No trailing , in the last element.\n		if idx < len(node.Expressions)-1 {\n			self.push(",", " ")\n\n			// We want each expression on its own line.\n			self.line_break()\n		}\n	}','	last := len(node.Expressions) - 1\n	for idx, item := range node.Expressions {\n		self.visitAliasedExpression(item, idx)\n		if idx == last {\n			break\n		}\n		self.push(",", " ")\n		self.line_break()\n	}',0),
('C17',V,'	for idx, cb := range cbs {\n		test_visitor := self.copy()\n		test_visitor.opts.test = true\n\n		cb(test_visitor)\n','	run := func(cb func(self *Visitor)) *Visitor {\n		v := self.copy()\n		v.opts.test = true\n		cb(v)\n		return v\n	}\n	for idx, cb := range cbs {\n		test_visitor := run(cb)\n',0),
('C17',V,'		if res == nil {\n			res = test_visitor\n\n		} else if res.is_better(test_visitor) {\n			res = test_visitor\n		}','		if res == nil || res.is_better(test_visitor) {\n			res = test_visitor\n		}',0),
('C17',V,'	if node.Star != nil {\n		self.push("*")\n		if node.As != "" {\n			self.push(" AS ", node.As)\n		}\n		return\n	}\n','	as := ""\n	if node.As != "" {\n		as = " AS " + node.As\n	}\n	if node.Star != nil {\n		self.push("*", as)\n		return\n	}\n',0),
('C17',V,'	if node.Right != nil {\n		self.push(node.Left, "=")\n		self.Visit(node.Right)\n\n	} else if node.SubSelect != nil {','	switch {\n	case node.Right != nil:\n		self.push(fmt.Sprintf("%s=", node.Left))\n		self.Visit(node.Right)\n		return\n	}\n\n	if node.SubSelect != nil {',0),
('C17',F,'	result := ""\n	for _, fragment := range visitor.Fragments {\n		if fragment == "\\n" {\n			result = strings.TrimRight(result, " ")\n		}\n		result += fragment\n	}\n\n	return strings.TrimRight(result, " "), nil','	var result []string\n	for _, fragment := range visitor.Fragments {\n		if fragment == "\\n" && len(result) > 0 {\n			result[len(result)-1] = strings.TrimRight(result[len(result)-1], " ")\n		}\n		result = append(result, fragment)\n	}\n\n	return strings.TrimRight(strings.Join(result, ""), " "), nil',0),
('C17',V,'func (self *Visitor) push(fragments ...string) {\n	for _, i := range fragments {\n		self.Fragments = append(self.Fragments, i)\n		self.pos += len(i)\n\n		// Line has overrun the max width, break the line.\n		if self.max_width < self.pos {\n			self.max_width = self.pos\n			self.max_line = self.current_line()\n		}\n		self.checkInvariant()\n	}\n}','func (self *Visitor) push(fragments ...string) {\n	for _, i := range fragments {\n		self.pushOne(i)\n	}\n}\n\nfunc (self *Visitor) pushOne(i string) {\n	self.Fragments = append(self.Fragments, i)\n	self.pos += len(i)\n	if self.max_width < self.pos {\n		self.max_width = self.pos\n		self.max_line = self.current_line()\n	}\n	self.checkInvariant()\n}',0),
('C17',V,'func (self *Visitor) pop() {\n	if len(self.Fragments) > 0 {\n		last_fragment := self.Fragments[len(self.Fragments)-1]\n		self.Fragments = self.Fragments[:len(self.Fragments)-1]\n		self.pos -= len(last_fragment)\n	}\n}','func (self *Visitor) pop() {\n	count := len(self.Fragments)\n	if count == 0 {\n		return\n	}\n	last_fragment := self.Fragments[count-1]\n	self.Fragments = self.Fragments[:count-1]\n	self.pos -= len(last_fragment)\n}',0),
('C17',V,'	if node.Null {\n		node.mu.Unlock()\n		self.push("NULL")\n		return\n	}\n','	is_null := node.Null\n	if is_null {\n		node.mu.Unlock()\n		self.push("NULL")\n		return\n	}\n',0),
('C17',G,'	result := []*VQL{self.VQL1}\n	if self.VQL2 != nil {\n		return append(result, self.VQL2.GetStatements()...)\n	}\n	return result','	var result []*VQL\n	result = append(result, self.VQL1)\n	if self.VQL2 == nil {\n		return result\n	}\n	for _, s := range self.VQL2.GetStatements() {\n		result = append(result, s)\n	}\n	return result',0),
]
