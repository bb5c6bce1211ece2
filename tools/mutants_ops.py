M=[
("C10","vfilter.go",'case "!=", "<>":','case "!=":'),
("C10","vfilter.go",'result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)','result = scope.Lt(lhs, rhs) || scope.Eq(lhs, lhs)'),
("C10","vfilter.go",'result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)','result = !scope.Gt(lhs, rhs)'),
("C10","vfilter.go",'result = scope.Gt(lhs, rhs) || scope.Eq(lhs, rhs)','result = !scope.Lt(lhs, rhs)'),
("C10","vfilter.go",'result = scope.Match(rhs, lhs)','result = scope.Match(lhs, rhs)'),
("C10","vfilter.go",'result = scope.Membership(lhs, rhs)','result = scope.Membership(rhs, lhs)'),
("C10","vfilter.go",'result = scope.Sub(result, term_value)','result = scope.Sub(term_value, result)'),
("C10","vfilter.go",'result = scope.Mul(result, term_value)','result = scope.Mul(result, result)'),
("C10","vfilter.go",'return !scope.Bool(value)','return scope.Bool(value)'),
("C10","vfilter.go",'			if term.Operator == "||" {\n				return right\n			}\n			return true','			if term.Operator == "||" {\n				return left\n			}\n			return true'),
("C10","vfilter.go",'		if term.Operator == "&&" {\n			last = right','		if term.Operator == "&&" {\n			last = left'),
("C10","vfilter.go",'		if term.Operator == "&&" {\n			last = right\n		} else {\n			last = true','		if term.Operator == "&&" {\n			last = right\n		} else {\n			last = false'),
("C10","vfilter.go",'case "*":\n			result = scope.Mul','case "x":\n			result = scope.Mul'),
# behaviour kept
("C10","vfilter.go",'			if term.Operator == "||" {\n				return right\n			}\n			return true','			return right',0),
("C10","vfilter.go",'result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)','result = scope.Eq(lhs, rhs) || scope.Lt(lhs, rhs)',0),
("C10",[("vfilter.go",'	switch self.Right.Operator {\n	case "IN", "in", "In":\n','	op := self.Right.Operator\n	switch op {\n	case "IN", "in", "In":\n'),("vfilter.go",'	case "!=", "<>":\n		result = !scope.Eq(lhs, rhs)','	case "!=", "<>":\n		eq := scope.Eq(lhs, rhs)\n		if eq {\n			result = false\n		} else {\n			result = true\n		}')],0),
("C10",[("vfilter.go",'	for _, term := range self.Right {\n		term_value := term.Term.Reduce(ctx, scope)\n		switch term.Operator {\n		case "+":\n			result = scope.Add(result, term_value)\n		case "-":\n			result = scope.Sub(result, term_value)\n		}\n	}\n\n	return result\n}','	for i := 0; i < len(self.Right); i++ {\n		result = self.Right[i].applyTo(ctx, scope, result)\n	}\n\n	return result\n}\n\nfunc (self *_OpAddTerm) applyTo(ctx context.Context, scope types.Scope, acc Any) Any {\n	v := self.Term.Reduce(ctx, scope)\n	if self.Operator == "+" {\n		return scope.Add(acc, v)\n	}\n	return scope.Sub(acc, v)\n}')],0),
("C10",[("vfilter.go",'	last := left\n	for _, term := range self.Right {\n		right := term.Term.Reduce(ctx, scope)\n		if scope.Bool(right) == false {\n			return false\n		}\n\n		if term.Operator == "&&" {\n			last = right\n		} else {\n			last = true\n		}\n	}\n\n	return last','	last := left\n	for idx := range self.Right {\n		term := self.Right[idx]\n		right := term.Term.Reduce(ctx, scope)\n		ok := scope.Bool(right)\n		if !ok {\n			return false\n		}\n		last = true\n		if term.Operator == "&&" {\n			last = right\n		}\n	}\n\n	return last')],0),
("C10",[("vfilter.go",'	if scope.Bool(left) == true {\n		return left\n	}\n','	if scope.Bool(left) {\n		return left\n	}\n'),("vfilter.go",'	if self.Right == nil {\n		return left\n	}\n\n	if scope.Bool(left) == false {','	if len(self.Right) == 0 {\n		return left\n	}\n\n	if scope.Bool(left) == false {')],0),
]
