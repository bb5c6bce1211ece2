M=[
("C11","protocols/protocol_div.go",'	b = maybeReduce(b)\n',''),
("C11","protocols/protocol_regex.go",'	pattern = maybeReduce(pattern)\n',''),
("C11","protocols/protocol_bool.go",'	a = maybeReduce(a)\n',''),
("C11","protocols/protocol_associative.go",'	b = maybeReduce(b)\n',''),
("C11","protocols/protocol_sub.go",'if impl.Applicable(a, b) {','if impl.Applicable(b, a) {'),
("C11","protocols/protocol_mul.go",'if impl.Applicable(a, b) {','if impl.Applicable(a, a) {'),
("C11","protocols/protocol_mul.go",'impl.Mul(scope, a, b)','impl.Mul(scope, b, a)'),
("C11","protocols/protocol_eq.go",'if ok && isNumber(b) {','if ok {'),
("C11","protocols/protocol_gt.go",'	for i, impl := range self.impl {','	for i, impl := range self.impl[:len(self.impl)/2] {'),
("C11","protocols/protocol_membership.go",'		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Membership(scope, a, b)\n		}\n','		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Membership(scope, a, b)\n		}\n		break\n'),
("C11","protocols/protocol_membership.go",'		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Membership(scope, a, b)\n		}\n','		if impl.Applicable(a, b) && impl.Membership(scope, a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return true\n		}\n'),
("C11","protocols/protocol_membership.go",'	for i, impl := range self.impl {','	for i := len(self.impl) - 1; i >= 0; i-- {\n		impl := self.impl[i]'),
("C11","protocols/protocol_regex.go",'append([]RegexProtocol{impl}, self.impl...)','append(self.impl, impl)'),
("C11","protocols/protocol_lt.go",'self.impl = append([]LtProtocol{impl}, self.impl...)','self.impl = append(self.impl[:0], append([]LtProtocol{impl}, self.impl...)...)'),
("C11","scope/dispatcher.go",'			self.lt.AddImpl(t)\n		case','			self.lt.AddImpl()\n		case'),
("C11","scope/scope.go",'self.dispatcher.sub.Sub(self, a, b)','self.dispatcher.sub.Sub(self, b, a)'),
("C11","scope/scope.go",'return self.dispatcher.gt.Gt(self, a, b)','return self.dispatcher.lt.Lt(self, b, a)'),
("C11","protocols/protocol_iterate.go",'		return scope.Iterate(ctx, t.Reduce(ctx))','		return _SliceIterator(ctx, scope, t)'),
# kept
("C11","protocols/protocol_regex.go",'	for _, impl := range elements {\n		self.impl = append([]RegexProtocol{impl}, self.impl...)\n	}','	for i := 0; i < len(elements); i++ {\n		list := make([]RegexProtocol, 0, len(self.impl)+1)\n		list = append(list, elements[i])\n		self.impl = append(list, self.impl...)\n	}',0),
("C11","protocols/protocol_mul.go",'	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Mul(scope, a, b)\n		}\n	}\n','	for i := 0; i < len(self.impl); i++ {\n		candidate := self.impl[i]\n		if !candidate.Applicable(a, b) {\n			continue\n		}\n		scope.GetStats().IncProtocolSearch(i)\n		res := candidate.Mul(scope, a, b)\n		return res\n	}\n',0),
("C11",[("protocols/protocol_mul.go",'	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Mul(scope, a, b)\n		}\n	}\n','	if impl := self.find(scope, a, b); impl != nil {\n		return impl.Mul(scope, a, b)\n	}\n'),("protocols/protocol_mul.go",'func (self *MulDispatcher) AddImpl','func (self MulDispatcher) find(scope types.Scope, a, b types.Any) MulProtocol {\n	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl\n		}\n	}\n	return nil\n}\n\nfunc (self *MulDispatcher) AddImpl')],0),
("C11",[("protocols/protocol_mul.go",'	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Mul(scope, a, b)\n		}\n	}\n','	if res, ok := self.custom(scope, a, b); ok {\n		return res\n	}\n'),("protocols/protocol_mul.go",'func (self *MulDispatcher) AddImpl','func (self MulDispatcher) custom(scope types.Scope, a, b types.Any) (types.Any, bool) {\n	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Mul(scope, a, b), true\n		}\n	}\n	return nil, false\n}\n\nfunc (self *MulDispatcher) AddImpl')],0),
("C11",[("protocols/protocol_mul.go",'	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			scope.GetStats().IncProtocolSearch(i)\n			return impl.Mul(scope, a, b)\n		}\n	}\n','	found := -1\n	for i, impl := range self.impl {\n		if impl.Applicable(a, b) {\n			found = i\n			break\n		}\n	}\n	if found >= 0 {\n		scope.GetStats().IncProtocolSearch(found)\n		return self.impl[found].Mul(scope, a, b)\n	}\n')],0),
("C11","scope/scope.go",'	return self.dispatcher.gt.Gt(self, a, b)','	d := self.dispatcher\n	greater := d.gt.Gt(self, a, b)\n	return greater',0),
("C11","protocols/protocol_bool.go",'	a = maybeReduce(a)\n','	lazy, is_lazy := a.(types.LazyExpr)\n	if is_lazy {\n		a = lazy.Reduce(ctx)\n	}\n',0),
]
