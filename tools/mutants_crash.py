V='vfilter.go'
LW='protocols/lazy_wrapper.go'
UQ='utils/unquote.go'
AR='arg_parser/args.go'
PR='arg_parser/parser.go'
FN='functions/functions.go'
DI='utils/dict/dict.go'
M=[
('C22',LW,"if !ok || types.IsNil(a) {","if !ok || a == nil {",0),
('C22',LW,"if field_value.IsValid() && field_value.CanInterface() {","if field_value.CanInterface() {"),
('C22',LW,"if res.Kind() == reflect.Ptr && res.IsNil() {","if res.IsNil() {"),
('C22',LW,"if len(results) == 1 || len(results) == 2 {","if len(results) <= 2 {"),
('C22',UQ,"if i > end-3 {","if i > end-2 {"),
('C22',UQ,"if i >= end {","if i > end {"),
('C22',UQ,"	if len(s) < 2 {\n		return s\n	}\n\n	quote := s[0]\n	if quote != '`'","	if len(s) < 1 {\n		return s\n	}\n\n	quote := s[0]\n	if quote != '`'"),
('C22',UQ,"if len(s) >= 6 && strings","if len(s) >= 5 && strings"),
('C22','lazy.go',"	if !pres {\n		return Null{}, false\n	}\n\n	res = getter","	if !pres && len(self.columns) == 0 {\n		return Null{}, false\n	}\n\n	res = getter"),
('C22','lambda.go',"if len(my_parameters) != len(parameters) {","if len(my_parameters) < len(parameters) {"),
('C22','protocols/protocol_iterate.go',"if a_value.Type().Kind() == reflect.Slice {","if a_value.Type().Kind() != reflect.Struct {",0),
('C22','protocols/protocol_iterate.go',"item, ok := value.(*ordereddict.Dict)\n				if !ok {","item, ok := value.(*ordereddict.Dict), true\n				if !ok {"),
('C22',AR,"	// Reflection does not work on nil.\n	if arg == nil {\n		arg = types.Null{}\n	}\n\n	slice := reflect.ValueOf(arg)\n\n	// A slice of strings.","	slice := reflect.ValueOf(arg)\n\n	// A slice of strings."),
('C22',AR,"if len(members) == 1 {","if len(members) <= 1 {"),
('C22','stored.go',"} else if arg.Array != nil {","} else if arg.ArrayOpenBrace == \"\" {",0),
('C22',FN,"	if types.IsNil(arg.List) {\n		return 0\n	}\n",""),
('C22',FN,"		slice.Type().Kind() == reflect.Array ||\n","		slice.Type().Kind() == reflect.Array ||\n		slice.Type().Kind() == reflect.Struct ||\n"),
('C22',DI,"str_key, ok := key.Interface().(string)","str_key, ok := key.Interface().(string), true"),
('C22',DI,"a_type := reflect.TypeOf(value)\n		if a_type == nil {\n			return types.Null{}\n		}","a_type := reflect.TypeOf(value)",0),
('C22','protocols/protocol_mul.go',"if len(t) == 0 {\n				return t\n			}","if b_int == 0 {\n				return t\n			}"),
('C22',V,"} else if self.Query != nil && self.Query.Explain != nil {","} else if self.LetOperator == \"\" && self.Query.Explain != nil {",0),
('C22',V,"if i.Term != nil && i.Term.IsAggregate(scope) {\n			return true\n		}\n	}\n\n	return false\n}\n\nfunc (self *_AndExpression) Reduce","if i.Term.IsAggregate(scope) {\n			return true\n		}\n	}\n\n	return false\n}\n\nfunc (self *_AndExpression) Reduce",0),
('C22',V,"		if term.Term == nil {\n			return result\n		}\n		result = append(result, term","		result = append(result, term"),
('C22',V,"} else if term.Term != nil {\n			lhs, pres = scope","} else {\n			lhs, pres = scope"),
('C22','functions/aggregates.go',"sum, ok = previous_value_any.(int64)\n				if !ok {","sum, ok = previous_value_any.(int64), true\n				if !ok {"),
('C22','protocols/protocol_eq.go',"if is_array(a) && is_array(b) {","if is_array(a) {"),
('C22','protocols/protocol_eq.go',"	if value_a.Len() != value_b.Len() {\n		return false\n	}\n","	if value_a.Len() < value_b.Len() {\n		return false\n	}\n"),
('C22','protocols/protocol_eq.go',"scope.Trace(\"Protocol Equal not","if a == b {\n		return true\n	}\n	scope.Trace(\"Protocol Equal not"),
('C22',PR,"if pres && len(new_value) == 1 {","if pres {"),
('C22',PR,"	if value == nil {\n		field.Set(reflect.Zero(t))\n		return nil\n	}\n",""),
('C22',V,"if self.Left != nil && self.Left.IsAggregate(scope) {\n		return true\n	}\n\n	return false\n}\n\nfunc (self *_MemberExpression) Reduce","if self.Left.IsAggregate(scope) {\n		return true\n	}\n\n	return false\n}\n\nfunc (self *_MemberExpression) Reduce",0),

# refactorings
('C22',LW,"	_, ok := b.(string)\n	if !ok || types.IsNil(a) {\n		return false\n	}\n","	if types.IsNil(a) {\n		return false\n	}\n	switch b.(type) {\n	case string:\n	default:\n		return false\n	}\n",0),
('C22',LW,"		field_value := a_value.FieldByName(field_name)\n		if field_value.IsValid() && field_value.CanInterface() {","		field_value := a_value.FieldByName(field_name)\n		valid := field_value.IsValid() && field_value.CanInterface()\n		if valid {",0),
('C22',LW,"if res.Kind() == reflect.Ptr && res.IsNil() {\n							return &types.Null{}\n						}\n\n						return res","nothing := res.Kind() == reflect.Ptr && res.IsNil()\n						if nothing {\n							return &types.Null{}\n						}\n						return res",0),
('C22',LW,"if len(results) == 1 || len(results) == 2 {","if n := len(results); n > 0 && n < 3 {",0),
('C22',UQ,"	in := s[1 : len(s)-1]\n","	last := len(s) - 1\n	in := s[1:last]\n",0),
('C22',UQ,"			if i >= end {\n				break outer","			if end <= i {\n				break outer",0),
('C22',UQ,"if i > end-3 {","if i+3 > end {",0),
('C22','lazy.go',"	getter, pres := self.getters[key]\n	if !pres {\n		return Null{}, false\n	}\n","	getter := self.getters[key]\n	if getter == nil {\n		return Null{}, false\n	}\n",0),
('C22','lambda.go',"	if len(my_parameters) != len(parameters) {","	count := len(my_parameters)\n	if count != len(parameters) {",0),
('C22','lambda.go',"	for idx, name := range my_parameters {\n		vars.Set(name, parameters[idx])","	for idx := 0; idx < len(my_parameters); idx++ {\n		name := my_parameters[idx]\n		vars.Set(name, parameters[idx])",0),
('C22','protocols/protocol_iterate.go',"		if a_value.Type().Kind() == reflect.Slice {\n			for i := 0; i < a_value.Len(); i++ {","		kind := a_value.Kind()\n		if kind == reflect.Slice {\n			length := a_value.Len()\n			for i := 0; i < length; i++ {",0),
('C22','protocols/protocol_iterate.go',"				item, ok := value.(*ordereddict.Dict)\n				if !ok {\n					item = ordereddict.NewDict().\n						Set(\"_value\", value)\n				}","				var item types.Row\n				switch t := value.(type) {\n				case *ordereddict.Dict:\n					item = t\n				default:\n					item = ordereddict.NewDict().\n						Set(\"_value\", value)\n				}",0),
('C22',AR,"	// Reflection does not work on nil.\n	if arg == nil {\n		arg = types.Null{}\n	}\n\n	slice := reflect.ValueOf(arg)\n\n	// A slice of strings.","	switch arg.(type) {\n	case nil:\n		arg = types.Null{}\n	}\n\n	slice := reflect.ValueOf(arg)\n\n	// A slice of strings.",0),
('C22',AR,"if len(members) == 1 {\n				member, ok","if len(members) > 0 && len(members) < 2 {\n				member, ok",0),
('C22','stored.go',"			if arg.Right != nil {\n				args.Set(name, arg.Right.Reduce(ctx, subscope))\n			} else if arg.SubSelect != nil {\n				args.Set(name, NewStoredQuery(arg.SubSelect, name))\n			} else if arg.Array != nil {\n				args.Set(name, arg.Array.Reduce(ctx, subscope))\n			} else if arg.ArrayOpenBrace != \"\" {\n				args.Set(name, []Row{})\n			}","			switch {\n			case arg.Right != nil:\n				args.Set(name, arg.Right.Reduce(ctx, subscope))\n			case arg.SubSelect != nil:\n				args.Set(name, NewStoredQuery(arg.SubSelect, name))\n			case arg.Array != nil:\n				args.Set(name, arg.Array.Reduce(ctx, subscope))\n			case arg.ArrayOpenBrace != \"\":\n				args.Set(name, []Row{})\n			}",0),
('C22',FN,"	if slice.Type().Kind() == reflect.Slice ||\n		slice.Type().Kind() == reflect.Map ||\n		slice.Type().Kind() == reflect.Array ||\n		slice.Type().Kind() == reflect.String {\n		return slice.Len()\n	}","	switch slice.Kind() {\n	case reflect.Slice, reflect.Map, reflect.Array, reflect.String:\n		return slice.Len()\n	}",0),
('C22',DI,"				str_key, ok := key.Interface().(string)\n				if ok {\n					result.Set(str_key, normalize_value(\n						ctx, scope, a_value.MapIndex(key).Interface(),\n						depth+1))\n				}","				str_key, ok := key.Interface().(string)\n				if !ok {\n					continue\n				}\n				item := a_value.MapIndex(key).Interface()\n				result.Set(str_key, normalize_value(ctx, scope, item, depth+1))",0),
('C22','protocols/protocol_mul.go',"			if len(t) == 0 {\n				return t\n			}\n","			size := len(t)\n			if size < 1 {\n				return t\n			}\n",0),
('C22',V,"} else if self.Query != nil && self.Query.Explain != nil {\n		return \"EXPLAIN\"\n	} else if self.Query != nil {\n		return \"SELECT\"\n	}\n	return \"\"","}\n	if self.Query == nil {\n		return \"\"\n	}\n	if self.Query.Explain != nil {\n		return \"EXPLAIN\"\n	}\n	return \"SELECT\"",0),
('C22',V,"	result := []Any{lhs}\n	for _, term := range self.Right {\n		if term.Term == nil {\n			return result\n		}\n		result = append(result, term.Term.Reduce(ctx, scope))\n	}","	result := []Any{lhs}\n	for i := 0; i < len(self.Right); i++ {\n		next := self.Right[i].Term\n		if next == nil {\n			break\n		}\n		result = append(result, next.Reduce(ctx, scope))\n	}",0),
('C22','functions/aggregates.go',"				var ok bool\n				sum, ok = previous_value_any.(int64)\n				if !ok {\n					scope.Log(\"sum: unexpected previous value type %T\", previous_value_any)\n					return types.Null{}\n				}","				previous, ok := previous_value_any.(int64)\n				if !ok {\n					scope.Log(\"sum: unexpected previous value type %T\", previous_value_any)\n					return types.Null{}\n				}\n				sum = previous",0),
('C22','protocols/protocol_eq.go',"	if value_a.Len() != value_b.Len() {\n		return false\n	}\n\n	for i := 0; i < value_a.Len(); i++ {","	length := value_a.Len()\n	if value_b.Len() != length {\n		return false\n	}\n\n	for i := 0; i < length; i++ {",0),
('C22','protocols/protocol_eq.go',"	if is_array(a) && is_array(b) {\n		return _ArrayEq(scope, a, b)\n	}","	both := is_array(a) && is_array(b)\n	if both {\n		return _ArrayEq(scope, a, b)\n	}",0),
('C22',PR,"if pres && len(new_value) == 1 {\n			return new_value[0], nil","if single := len(new_value) == 1; pres && single {\n			return new_value[0], nil",0),
('C22',V,"	symbol, pres := self.resolveSymbol(ctx, scope, components)\n	// Symbol not found! alert the caller.\n	if !pres {","	symbol, found := self.resolveSymbol(ctx, scope, components)\n	// Symbol not found! alert the caller.\n	if !found {",0),
('C22','utils/dict/dict.go',"if a_type.Kind() == reflect.Slice || a_type.Kind() == reflect.Array {","listing := a_type.Kind() == reflect.Slice || a_type.Kind() == reflect.Array\n		if listing {",0),
]
