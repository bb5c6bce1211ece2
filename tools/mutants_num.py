M=[
("C21","protocols/protocol_add.go",'case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:\n		rhs, _','case int, int8, int16, int32, int64, uint, uint8, uint16, uint32:\n		rhs, _'),
("C21","protocols/protocol_add.go",'return float64(lhs) + rhs, true','return lhs + int64(rhs), true'),
("C21","protocols/protocol_sub.go",'return a_float - b_float','return b_float - a_float'),
("C21","protocols/protocol_lt.go",'		return float64(lhs) < rhs','		return lhs < int64(rhs)'),
("C21","protocols/protocol_lt.go",'case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:\n		rhs, _ := utils.ToInt64(b)\n		return lhs < rhs','case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:\n		rhs, _ := utils.ToInt64(b)\n		return lhs <= rhs'),
("C21","protocols/protocol_bool.go",'	case uint16:\n		return t > 0\n',''),
("C21","utils/utils.go",'	case float32:\n		return float64(t), true\n',''),
("C21","utils/utils.go",'	case uint16:\n		return int64(t), true\n','',),
("C12","protocols/protocol_div.go",'			if t == 0 {','			if a_float == 0 {'),
("C12","protocols/protocol_mul.go",'if b_int < 0 || b_int > max_count {','if b_int > max_count {'),
("C12","protocols/protocol_mul.go",'			if len(t) == 0 {\n				return t\n			}\n',''),
("C12","protocols/protocol_add.go",'if memory > 100000000 {','if memory < 0 {'),
("C12","protocols/protocol_mul.go",'max_count := 100000000 / int64(len(t))','max_count := 100000000 * int64(len(t))'),
# kept
("C12,C21","protocols/protocol_mul.go",'if b_int < 0 || b_int > max_count {','tooBig := b_int > max_count\n			if b_int < 0 || tooBig {',0),
("C12,C21",[("protocols/protocol_mul.go",'			max_count := 100000000 / int64(len(t)) // 100mb\n			if b_int < 0 || b_int > max_count {','			if tooMany(len(t), b_int) {'),("protocols/protocol_mul.go",'func (self MulDispatcher) Mul(','func tooMany(size int, count int64) bool {\n	if count < 0 {\n		return true\n	}\n	return count > 100000000/int64(size)\n}\n\nfunc (self MulDispatcher) Mul(')],0),
("C12,C21",[("protocols/protocol_mul.go",'			if b_int < 0 || b_int > max_count {\n				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",\n					len(t), b_int)\n				return &types.Null{}\n			}\n			return strings.Repeat(t, int(b_int))','			if b_int >= 0 && b_int <= max_count {\n				return strings.Repeat(t, int(b_int))\n			}\n			scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v", len(t), b_int)\n			return &types.Null{}')],0),
("C12,C21",[("protocols/protocol_add.go",'			memory := len(t) + len(b_str)\n			if memory > 100000000 { // 100mb','			if stringTooLong(t, b_str) {'),("protocols/protocol_add.go",'func (self AddDispatcher) Add(','func stringTooLong(a, b string) bool {\n	return 100000000 < len(b)+len(a)\n}\n\nfunc (self AddDispatcher) Add(')],0),
("C21,C12",[("protocols/protocol_add.go",'	switch b.(type) {\n	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:\n		rhs, _ := utils.ToInt64(b)\n		return lhs + rhs, true\n','	if isWhole(b) {\n		rhs, _ := utils.ToInt64(b)\n		return rhs + lhs, true\n	}\n	switch b.(type) {\n'),("protocols/protocol_add.go",'func (self AddDispatcher) Add(','func isWhole(v types.Any) bool {\n	switch v.(type) {\n	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:\n		return true\n	}\n	return false\n}\n\nfunc (self AddDispatcher) Add(')],0),
("C21,C12",[("protocols/protocol_div.go",'			if t == 0 {\n				return &types.Null{}\n			}\n			return a_float / t','			if t != 0 {\n				return a_float / t\n			}\n			return &types.Null{}')],0),
]
