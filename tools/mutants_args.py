P='arg_parser/parser.go'; A='arg_parser/args.go'; FU='functions/functions.go'
REQ='''			if parser.Required {
				return fmt.Errorf("Field %s is required", parser.Field)
			}
			continue
'''
M=[
("C18",P,REQ,'''			if parser.Required && len(args.Keys()) > 0 {
				return fmt.Errorf("Field %s is required", parser.Field)
			}
			continue
'''),
("C18",P,REQ,"			continue\n"),
("C18",P,REQ,'''			if parser.Required {
				scope.Log("Field %s is required", parser.Field)
			}
			continue
'''),
# refactor
("C18",[(P,REQ,'''			if err := parser.missing(); err != nil {
				return err
			}
			continue
'''),(P,'''// Parses the args as free form args:''','''func (self *FieldParser) missing() error {
	if !self.Required {
		return nil
	}
	return fmt.Errorf("Field %s is required", self.Field)
}

// Parses the args as free form args:''')],0),
("C18",P,"	if len(parsed) != args.Len() {\n		// Slow","	if len(parsed) > args.Len() {\n		// Slow"),
("C18",P,"	if len(parsed) != args.Len() {\n		// Slow","	if len(parsed) > 0 && len(parsed) != args.Len() {\n		// Slow"),
("C18",P,"	if len(parsed) != args.Len() {\n		// Slow","	if len(parsed) < args.Len() {\n		// Slow",0),
("C18",P,'''				return fmt.Errorf("Unexpected arg %v", key)
''','''				scope.Log("Unexpected arg %v", key)
'''),
# always looks
("C18",P,'''	if len(parsed) != args.Len() {
		// Slow path should only be taken on error.
		for _, key := range args.Keys() {
			if !utils.InString(&parsed, key) {
				return fmt.Errorf("Unexpected arg %v", key)
			}
		}
	}
''','''	for _, key := range args.Keys() {
		if utils.InString(&parsed, key) {
			continue
		}
		return fmt.Errorf("Unexpected arg %v", key)
	}
''',0),
# a set instead of a list
("C18",[(P,'''	parsed := make([]string, 0, args.Len())

	for _, parser := range self.Fields {
		value, pres := args.Get(parser.Field)
		if !pres {
			if parser.Required {
				return fmt''','''	parsed := make(map[string]bool)

	for _, parser := range self.Fields {
		value, pres := args.Get(parser.Field)
		if !pres {
			if parser.Required {
				return fmt'''),(P,'''		parsed = append(parsed, parser.Field)

		// Convert the value using the parser
		new_value, err := parser.Parser(ctx, scope, args, value)
		if err != nil {
			return fmt''','''		parsed[parser.Field] = true

		// Convert the value using the parser
		new_value, err := parser.Parser(ctx, scope, args, value)
		if err != nil {
			return fmt'''),(P,'''			if !utils.InString(&parsed, key) {
				return fmt''','''			if !parsed[key] {
				return fmt''')],0),
("C18",P,'''		new_value, err := parser.Parser(ctx, scope, args, value)
		if err != nil {
			return fmt.Errorf("Field %s %w", parser.Field, err)
		}
''','''		new_value, err := parser.Parser(ctx, scope, args, value)
		if err != nil {
			scope.Log("Field %s %v", parser.Field, err)
			continue
		}
'''),
("C18",P,'''		new_value, err := parser.Parser(ctx, scope, args, value)
		if err != nil {
			return fmt.Errorf("Field %s %w", parser.Field, err)
		}
''','''		new_value, err := parser.Parser(ctx, scope, args, value)
		if err != nil && parser.Required {
			return fmt.Errorf("Field %s %w", parser.Field, err)
		}
'''),
("C18",P,'''	if !v.Type().AssignableTo(t) {
		return fmt.Errorf("should be a %v not %T.", t, value)
	}
''',''),
("C18",P,'''	if value == nil {
		field.Set(reflect.Zero(t))
		return nil
	}
''',''),
("C18",P,'''	if !v.Type().AssignableTo(t) {
		return fmt.Errorf("should be a %v not %T.", t, value)
	}
	field.Set(v)
	return nil
''','''	if v.Type().AssignableTo(t) {
		field.Set(v)
		return nil
	}
	return fmt.Errorf("should be a %v not %T.", t, value)
''',0),
("C18",P,'''		err = setField(target.Field(parser.FieldIdx), new_value)
		if err != nil {
			return fmt''','''		err = setField(target.Field(len(parsed)-1), new_value)
		if err != nil {
			return fmt'''),
("C18",P,'''	a, ok := utils.ToInt64(arg)
	if ok {
		return a, nil
	}
	return nil, fmt.Errorf("should be an int not %T.", arg)
}

// The target''','''	a, _ := utils.ToInt64(arg)
	return a, nil
}

// The target'''),
("C18",P,'''	a, ok := utils.ToInt64(arg)
	if ok {
		return int(a), nil
	}
''','''	a, ok := utils.ToInt64(arg)
	if ok {
		return a, nil
	}
'''),
("C18",P,'''	a, ok := utils.ToInt64(arg)
	if ok {
		return int(a), nil
	}
	return nil, fmt.Errorf("should be an int not %T.", arg)
''','''	a, ok := utils.ToInt64(arg)
	if !ok {
		return nil, fmt.Errorf("should be an int not %T.", arg)
	}
	return int(a), nil
''',0),
("C18",P,'''		_, required := options["required"]
''','''		_, required := options["require"]
'''),
("C18",P,'''		_, required := options["required"]
''','''		required := options["required"] == "Y"
''',0),
("C18",P,'''			FieldIdx: i,
''','''			FieldIdx: len(result.Fields),
'''),
("C18",P,'''			Required: required,
''','''			Required: required && pres,
'''),
("C18",A,'''	parser, err := GetParser(v)
	if err != nil {
		scope.Explainer().ParseArgs(args, target, err)
		return err
	}
''','''	parser, err := GetParser(v)
	if err != nil {
		scope.Explainer().ParseArgs(args, target, err)
		return nil
	}
'''),
("C18",A,'''	err = parser.Parse(ctx, scope, args, v)
	scope.Explainer().ParseArgs(args, target, err)
	return err
''','''	if err := parser.Parse(ctx, scope, args, v); err != nil {
		scope.Explainer().ParseArgs(args, target, err)
	}
	return err
'''),
("C18",A,'''			item, ok := utils.ToString(value)
			if ok {
				result = append(result, item)
				continue
			}
''','''			item, ok := utils.ToString(value)
			if ok {
				result = append(result, item)
			}
'''),
("C18",P,'''			} else if target_type == dictExprType {
				field_parser.Parser = sliceDictParser
''','''			} else if target_type == dictExprType {
				field_parser.Parser = sliceAnyParser
'''),
("C18",P,'''		case reflect.Int64:
			field_parser.Parser = int64Parser
''','''		case reflect.Int64:
			field_parser.Parser = intParser
'''),
("C18",P,'''			if !utils.InString(&parsed, item.Key) {
				kwargs.Set(item.Key, item.Value)
			}
''','''			if utils.InString(&parsed, item.Key) {
				kwargs.Set(item.Key, item.Value)
			}
'''),

# ---- C19
("C19",FU,"""		scope.Log("split: %s", err.Error())
		return types.Null{}
""","""		return types.Null{}
"""),
("C19",FU,"""		scope.Log("split: %s", err.Error())
		return types.Null{}
""","""		scope.Log("split: %s", err.Error())
		return []string{}
"""),
("C19",FU,"""		scope.Log("split: %s", err.Error())
		return types.Null{}
	}

	if arg.Sep""","""		scope.Log("split: %s", err.Error())
	}

	if arg.Sep"""),
("C19","plugins/range.go","""			scope.Log("range: %v", err)
			return
""","""			scope.Log("range: %v", err)
"""),
("C19","plugins/range.go","""			scope.Log("range: %v", err)
			return
""","""			scope.Log("range: %v", err)
			output_chan <- types.Null{}
			return
"""),
("C19","plugins/range.go","""ArgType: type_map.AddType(scope, &RangePluginArgs{})""","""ArgType: type_map.AddType(scope, &_IfPluginArg{})"""),
("C19","plugins/range.go",'`vfilter:"required,field=end,','`vfilter:"field=end,'),
("C19","plugins/range.go",'field=step,','field=start,'),
("C19","plugins/range.go",'Step  int64','Step  uint8'),
("C19","plugins/if.go","""		close(output_chan)
		return output_chan
	}

	if scope""","""	}

	if scope"""),
# only worth a log if somebody asked
("C19",FU,"""		scope.Log("get: %s", err.Error())
		return""","""		if args.Len() > 0 {
			scope.Log("get: %s", err.Error())
		}
		return"""),
("C19","plugins/foreach.go","""		if arg.Workers < 1 {
			arg.Workers = 1
		}
""",""),
("C19","plugins/foreach.go","		if arg.Workers < 1 {","		if arg.Workers == 0 {"),
("C19","plugins/foreach.go","	for i := 0; i < size; i++ {","	for i := 1; i < size; i++ {"),
("C19","plugins/foreach.go","""		if arg.Async && arg.Workers == 0 {
			arg.Workers = 100
		}

		// At least one worker
		if arg.Workers < 1 {
			arg.Workers = 1
		}
""","""		arg.Workers = pickWorkers(arg.Workers, arg.Async)
""",),
# refactors
("C19",[("plugins/foreach.go","""		if arg.Async && arg.Workers == 0 {
			arg.Workers = 100
		}

		// At least one worker
		if arg.Workers < 1 {
			arg.Workers = 1
		}
""","""		arg.Workers = pickWorkers(arg.Workers, arg.Async)
"""),("plugins/foreach.go","type workerPool struct","""func pickWorkers(n int64, async bool) int64 {
	switch {
	case async && n == 0:
		return 100
	case n <= 0:
		return 1
	default:
		return n
	}
}

type workerPool struct""")],0),
("C19","plugins/foreach.go","	for i := 0; i < size; i++ {\n","	for ; size > 0; size-- {\n",0),
("C19",[(FU,"""		scope.Log("split: %s", err.Error())
		return types.Null{}
""","""		return refuse(scope, "split", err)
"""),(FU,"type _SplitFunction struct","""func refuse(scope types.Scope, name string, err error) types.Any {
	scope.Log("%s: %v", name, err)
	return types.Null{}
}

type _SplitFunction struct""")],0),
("C19","plugins/range.go","""		err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
		if err != nil {
			scope.Log("range: %v", err)
			return
		}

		if arg.Step""","""		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
			scope.Log("range: %v", err)
			return
		}

		if arg.Step""",0),
("C19",[("plugins/range.go","""		arg := &RangePluginArgs{}
		err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
		if err != nil {
			scope.Log("range: %v", err)
			return
		}
""","""		arg := self.args(ctx, scope, args)
		if arg == nil {
			return
		}
"""),("plugins/range.go","func (self RangePlugin) Info","""func (self RangePlugin) args(ctx context.Context, scope types.Scope, args *ordereddict.Dict) *RangePluginArgs {
	arg := &RangePluginArgs{}
	err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg)
	if err == nil {
		return arg
	}
	scope.Log("range: %v", err)
	return nil
}

func (self RangePlugin) Info""")],0),
("C19",[("plugins/if.go","	output_chan := make(chan types.Row)\n\n	arg",
"	arg"),("plugins/if.go","""		close(output_chan)
		return output_chan
	}

	if scope""","""		return noRows()
	}

	if scope"""),("plugins/if.go","""	close(output_chan)
	return output_chan
}""","""	return noRows()
}

func noRows() <-chan types.Row {
	output_chan := make(chan types.Row)
	close(output_chan)
	return output_chan
}""")],0),
]
