G='marshal.go'
S='scope/marshal.go'
U='marshal/unmarshal.go'
W='marshal/marshaller.go'
M=[
('C20',G,'''		if pres {
			res = append(res, FormatToString(scope, arg))
		} else if''','''		if pres && false {
			res = append(res, FormatToString(scope, arg))
		} else if'''),
('C20',G,'''		formatParameters(scope, self.parameters, self.defaults) + " = " +
		FormatToString(scope, self.Expr)''','''		formatParameters(scope, self.parameters, nil) + " = " +
		FormatToString(scope, self.Expr)'''),
('C20',G,'''		formatParameters(scope, self.parameters, self.defaults) + " = " +
		FormatToString(scope, self.query)''','''		" = " +
		FormatToString(scope, self.query)'''),
('C20',G,'''FormatToString(scope, self.query)''','''FormatToString(scope, self.query.SelectExpression)'''),
('C20',G,'''	if len(parameters) == 0 {
		return ""
	}

	res''','''	if len(parameters) == 0 || len(defaults) == 0 {
		return ""
	}

	res'''),
('C20',G,'''	for _, name := range parameters {
		arg, pres''','''	for i, name := range parameters {
		if i > 8 {
			break
		}
		arg, pres'''),
('C20',G,'''		} else if isPlainIdent(name) {
			res = append(res, name)
		} else {''','''		} else if len(name) > 0 {
			res = append(res, name)
		} else {'''),
('C20',G,'''	name = strings.ReplaceAll(name, "\\\\", "\\\\\\\\")
''',''),
('C20',G,'''	name = strings.ReplaceAll(name, "\\\\", "\\\\\\\\")
	name = strings.ReplaceAll(name, "`", "\\\\x60")
''','''	name = strings.ReplaceAll(name, "`", "\\\\x60")
	name = strings.ReplaceAll(name, "\\\\", "\\\\\\\\")
'''),
('C20',G,'''	name = strings.ReplaceAll(name, "`", "\\\\x60")
''','''	name = strings.ReplaceAll(name, "`", "\\\\x27")
'''),
('C20',G,'''	return err == nil && token.Value == name &&
		token.Type''','''	return err == nil &&
		token.Type'''),
('C20',G,'''	return err == nil && token.Value == name &&
		token.Type == vqlLexer.Symbols()["Ident"]''','''	return err == nil && token.Value == name'''),
('C20',G,'''"LET " + quoteIdent(self.name) +
		formatParameters(scope, self.parameters, self.defaults) + " = " +
		FormatToString(scope, self.Expr)''','''"LET `" + self.name + "`" +
		formatParameters(scope, self.parameters, self.defaults) + " = " +
		FormatToString(scope, self.Expr)'''),
('C20',G,'''		Type: "Replay",''','''		Type: "Query",'''),
('C20',G,'''		Type: "Replay",''','''		Type: "JSON",'''),
('C20',G,'''	unmarshaller.Handlers["OrderedDict"] = OrdereddictUnmarshaller{}
''',''),
('C20',G,'''	unmarshaller.Handlers["Scope"] = ScopeUnmarshaller{ignore_vars}
	unmarshaller.Handlers["Replay"] = ReplayUnmarshaller{}
''','''	unmarshaller.Handlers["Scope"] = ScopeUnmarshaller{ignore_vars}
	if len(ignore_vars) > 0 {
		unmarshaller.Handlers["Replay"] = ReplayUnmarshaller{}
	}
'''),
('C20',G,'''Handlers["OrderedDict"] = OrdereddictUnmarshaller{}''','''Handlers["OrderedDict"] = ReplayUnmarshaller{}'''),
('C20',G,'''	vql, err := Parse(query)
	if err != nil {
		return nil, err
	}

	for _ = range''','''	vql, err := Parse(query)
	if err != nil {
		return nil, nil
	}

	for _ = range'''),
('C20',G,'''vql.Eval(context.Background(), scope) {''','''vql.Eval(context.Background(), scope.Copy()) {'''),
('C20',G,'''	for _ = range vql.Eval(context.Background(), scope) {
	}
''','''	if vql.Let != "" {
		for _ = range vql.Eval(context.Background(), scope) {
		}
	}
'''),
('C20',G,'''	dict := ordereddict.NewDict()
	err := json.Unmarshal(item.Data, dict)
	if err != nil {
		return nil, err
	}
''','''	dict := ordereddict.NewDict()
	_ = json.Unmarshal(item.Data, dict)
'''),
('C20',S,'''			if !pres {
				continue
			}
''','''			if !pres || types.IsNil(value) {
				continue
			}
'''),
('C20',S,'''strings.HasPrefix(k, "$") ||''','''strings.HasPrefix(k, "_") ||'''),
('C20',S,'''			if err != nil {
				return nil, err
			}
			result.Vars[k] = serialized''','''			if err != nil {
				continue
			}
			result.Vars[k] = serialized'''),
('C20',S,'''			if err != nil {
				return nil, err
			}
			result.Vars[k] = serialized''','''			if err != nil {
				return nil, err
			}
			if serialized.Comment == "" {
				result.Vars[k] = serialized
			}'''),
('C20',S,'''			if !pres {
				continue
			}
''','''			if !pres {
				break
			}
'''),
('C20',S,'''			errs = append(errs, fmt.Errorf("Can't decode %v: %w", k, err))
			continue''','''			_ = fmt.Errorf
			continue'''),
('C20',S,'''			errs = append(errs, fmt.Errorf("Can't decode %v: %w", k, err))
			continue''','''			_ = fmt.Errorf
			if len(errs) > 0 {
				errs = errs[:0]
			}
			continue'''),
('C20',S,'''	return new_scope.AppendVars(env), errors.Join(errs...)''','''	_ = errors.Join(errs...)
	return new_scope.AppendVars(env), nil'''),
('C20',S,'''			new_scope, v)
''','''			scope, v)
'''),
('C20',S,'''	return new_scope.AppendVars(env), errors''','''	new_scope.AppendVars(env)
	return scope, errors'''),
('C20',S,'''	return new_scope.AppendVars(env), errors''','''	return new_scope, errors'''),
('C20',S,'''		if !types.IsNil(unmarshalled) {
			env.Set(k, unmarshalled)
		}''','''		if _, is_str := unmarshalled.(string); !is_str && !types.IsNil(unmarshalled) {
			env.Set(k, unmarshalled)
		}'''),
('C20',S,'''		if utils.InString(&self.IgnoreVars, k) {
			continue
		}
''','''		if utils.InString(&self.IgnoreVars, k) || v.Comment != "" {
			continue
		}
'''),
('C20',U,'''				result = append(result, value)
''','''				if value != nil {
					result = append(result, value)
				}
'''),
('C20',U,'''			key_str, _ := key.(string)
			result.Set(key_str, value)
''','''			key_str, _ := key.(string)
			if key_str != "" {
				result.Set(key_str, value)
			}
'''),
('C20',U,'''			return nil, errors.New("No parser for MarshalItem " + item.Type)''','''			_ = errors.New
			return item.Data, nil'''),
('C20',U,'''		decoder.UseNumber()
		return decode(decoder)
''','''		decoder.UseNumber()
		value, err := decode(decoder)
		if err != nil {
			value, err = string(item.Data), nil
		}
		return value, err
'''),
('C20',W,'''			Type: "OrderedDict",''','''			Type: "Dict",'''),
('C20',W,'''	default:
		serialized, err := json.Marshal(item)
		if err != nil {
			return nil, err
		}''','''	default:
		serialized, err := json.Marshal(item)
		if err != nil {
			serialized = []byte("null")
		}'''),
('C20',W,'''	default:
		serialized, err := json.Marshal(item)
''','''	default:
		serialized, err := json.Marshal(fmt.Sprint(item))
'''),
('C20',S,'''		Type: "Scope",''','''		Type: "JSON",'''),
# behaviour keeping
('C20',G,'''	name = strings.ReplaceAll(name, "\\\\", "\\\\\\\\")
	name = strings.ReplaceAll(name, "`", "\\\\x60")
	return "`" + name + "`"''','''	return "`" + strings.NewReplacer("\\\\", "\\\\\\\\", "`", "\\\\x60").Replace(name) + "`"''',0),
('C20',G,'''	res := make([]string, 0, len(parameters))
	for _, name := range parameters {
		arg, pres := defaults[name]
		if pres {
			res = append(res, FormatToString(scope, arg))
		} else if isPlainIdent(name) {
			res = append(res, name)
		} else {
			res = append(res, quoteIdent(name))
		}
	}
	return "(" + strings.Join(res, ", ") + ")"''','''	res := make([]string, len(parameters))
	for i, name := range parameters {
		text := quoteIdent(name)
		if arg := defaults[name]; arg != nil {
			text = FormatToString(scope, arg)
		} else if isPlainIdent(name) {
			text = name
		}
		res[i] = text
	}
	return "(" + strings.Join(res, ", ") + ")"''',0),
('C20',G,'''	res := make([]string, 0, len(parameters))
	for _, name := range parameters {
		arg, pres := defaults[name]
		if pres {
			res = append(res, FormatToString(scope, arg))
		} else if isPlainIdent(name) {
			res = append(res, name)
		} else {
			res = append(res, quoteIdent(name))
		}
	}
	return "(" + strings.Join(res, ", ") + ")"''','''	var res []string
	for _, name := range parameters {
		res = append(res, formatParameter(scope, name, defaults[name]))
	}
	return "(" + strings.Join(res, ", ") + ")"
}

func formatParameter(scope types.Scope, name string, arg *_Args) string {
	if arg != nil {
		return FormatToString(scope, arg)
	}
	if !isPlainIdent(name) {
		return quoteIdent(name)
	}
	return name''',0),
('C20',[(G,'''	query := "LET " + quoteIdent(self.name) +
		formatParameters(scope, self.parameters, self.defaults) + " = " +
		FormatToString(scope, self.query)

	query_str, err := json.Marshal(query)
	return &types.MarshalItem{
		Type: "Replay",
		Data: query_str,
	}, err
''','''	return marshalDefinition(scope, self.name, self.parameters, self.defaults, self.query)
'''),(G,'''	query := "LET " + quoteIdent(self.name) +
		formatParameters(scope, self.parameters, self.defaults) + " = " +
		FormatToString(scope, self.Expr)

	query_str, err := json.Marshal(query)
	return &types.MarshalItem{
		Type: "Replay",
		Data: query_str,
	}, err
}
''','''	return marshalDefinition(scope, self.name, self.parameters, self.defaults, self.Expr)
}

func marshalDefinition(scope types.Scope, name string, parameters []string,
	defaults map[string]*_Args, body interface{}) (*types.MarshalItem, error) {
	query := fmt.Sprintf("LET %s%s = %s", quoteIdent(name), formatParameters(scope, parameters, defaults), FormatToString(scope, body))
	serialized, err := json.Marshal(query)
	if err != nil {
		return nil, err
	}
	return &types.MarshalItem{
		Type: "Replay",
		Data: serialized,
	}, nil
}
'''),(G,'	"encoding/json"\n','	"encoding/json"\n	"fmt"\n')],0),
('C20',G,'''	lex, err := vqlLexer.LexString("", name)
	if err != nil {
		return false
	}
	token, err := lex.Next()
	return err == nil && token.Value == name &&
		token.Type == vqlLexer.Symbols()["Ident"]''','''	lex, err := vqlLexer.LexString("", name)
	if err != nil {
		return false
	}
	token, err := lex.Next()
	if err != nil || token.Value != name {
		return false
	}
	ident := vqlLexer.Symbols()["Ident"]
	return token.Type == ident''',0),
('C20',S,'''			if strings.HasPrefix(k, "$") ||
				k == "NULL" ||
				k == "config" ||
				k == "Artifact" {
				continue
			}
''','''			if skipVar(k) {
				continue
			}
''',0) if False else
('C20',[(S,'''			if strings.HasPrefix(k, "$") ||
				k == "NULL" ||
				k == "config" ||
				k == "Artifact" {
				continue
			}
''','''			if skipVar(k) {
				continue
			}
'''),(S,'''type ScopeUnmarshaller struct {''','''func skipVar(k string) bool {
	switch k {
	case "NULL", "config", "Artifact":
		return true
	}
	return strings.HasPrefix(k, "$")
}

type ScopeUnmarshaller struct {''')],0),
('C20',[(S,'''			value, pres := self.Resolve(k)
			if !pres {
				continue
			}

			// Just marshal each element
			serialized, err := marshal.Marshal(scope, value)
			if err != nil {
				return nil, err
			}
			result.Vars[k] = serialized
''','''			err := self.marshalVar(scope, k, result)
			if err != nil {
				return nil, err
			}
'''),(S,'''type ScopeUnmarshaller struct {''','''func (self *Scope) marshalVar(scope types.Scope, name string, result *ScopeItems) error {
	value, pres := self.Resolve(name)
	if !pres {
		return nil
	}
	serialized, err := marshal.Marshal(scope, value)
	if err == nil {
		result.Vars[name] = serialized
	}
	return err
}

type ScopeUnmarshaller struct {''')],0),
('C20',S,'''		if err != nil {
			errs = append(errs, fmt.Errorf("Can't decode %v: %w", k, err))
			continue
		}

		if !types.IsNil(unmarshalled) {
			env.Set(k, unmarshalled)
		}
	}

	// Restore as much as we can but tell the caller what is missing.
	return new_scope.AppendVars(env), errors.Join(errs...)''','''		if err != nil {
			errs = append(errs, fmt.Errorf("Can't decode %v: %w", k, err))
		} else if !types.IsNil(unmarshalled) {
			env.Set(k, unmarshalled)
		}
	}
	new_scope.AppendVars(env)
	if len(errs) > 0 {
		return new_scope, errors.Join(errs...)
	}
	return new_scope, nil''',0),
('C20',U,'''	switch item.Type {
	case "JSON":
		decoder := json.NewDecoder(bytes.NewReader(item.Data))
		decoder.UseNumber()
		return decode(decoder)

	default:
		handler, pres := self.Handlers[item.Type]
		if !pres {
			return nil, errors.New("No parser for MarshalItem " + item.Type)
		}

		return handler.Unmarshal(self, scope, item)
	}
''','''	if item.Type == "JSON" {
		return decodeJSON(item.Data)
	}

	handler, pres := self.Handlers[item.Type]
	if pres {
		return handler.Unmarshal(self, scope, item)
	}
	return nil, errors.New("No parser for MarshalItem " + item.Type)
}

func decodeJSON(data []byte) (interface{}, error) {
	decoder := json.NewDecoder(bytes.NewReader(data))
	decoder.UseNumber()
	return decode(decoder)
''',0),
('C20',W,'''		// Normal types are just serialized with JSON
	case int, int8, int16, int32, int64,
		uint, uint8, uint16, uint32, uint64,
		string, float32, float64:
		serialized, err := json.Marshal(item)
		if err != nil {
			return nil, err
		}
		return &types.MarshalItem{
			Type: "JSON",
			Data: serialized,
		}, nil
''','''	case int, int8, int16, int32, int64,
		uint, uint8, uint16, uint32, uint64,
		string, float32, float64:
		return marshalJSON("JSON", item)
''',0) if False else
('C20',[(W,'''		serialized, err := json.Marshal(item)
		if err != nil {
			return nil, err
		}
		return &types.MarshalItem{
			Type: "OrderedDict",
			Data: serialized,
		}, nil
''','''		return marshalAs("OrderedDict", item)
'''),(W,'''		serialized, err := json.Marshal(item)
		if err != nil {
			return nil, err
		}
		return &types.MarshalItem{
			Type: "JSON",
			Data: serialized,
		}, nil
''','''		return marshalAs("JSON", item)
'''),(W,'''func Marshal(''','''func marshalAs(name string, item interface{}) (*types.MarshalItem, error) {
	serialized, err := json.Marshal(item)
	if err != nil {
		return nil, err
	}
	return &types.MarshalItem{Type: name, Data: serialized}, nil
}

func Marshal(''')],0),
('C20',G,'''	unmarshaller := marshal.NewUnmarshaller()
	unmarshaller.Handlers["Scope"] = ScopeUnmarshaller{ignore_vars}
	unmarshaller.Handlers["Replay"] = ReplayUnmarshaller{}
	unmarshaller.Handlers["OrderedDict"] = OrdereddictUnmarshaller{}
''','''	unmarshaller := marshal.NewUnmarshaller()
	unmarshaller.RegisterHandler("Scope", ScopeUnmarshaller{ignore_vars})
	unmarshaller.RegisterHandler("Replay", ReplayUnmarshaller{})
	unmarshaller.RegisterHandler("OrderedDict", OrdereddictUnmarshaller{})
''',0),

('C20',[(U,'''		handler, pres := self.Handlers[item.Type]
		if !pres {
''','''		handler, pres := self.find(item.Type)
		if !pres {
'''),(U,'func (self *Unmarshaller) Unmarshal(','''func (self *Unmarshaller) find(name string) (types.Unmarshaller, bool) {
	h, pres := self.Handlers[name]
	return h, pres
}

func (self *Unmarshaller) Unmarshal(''')],0),
]
