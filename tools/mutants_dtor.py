S="scope/scope.go"
REM='''	result := append(self.fn[:0:0], self.fn...)
	self.fn = nil
	if last || len(result) == 0 {
		self.is_destroyed = true
	}
	return result
'''
LOOP='''		for i := len(ds) - 1; i >= 0; i-- {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)
			go func() {
				// Destructors may schedule a new destructor to retry
				ds[i]()
				cancel()
			}()

			select {
			// Wait a maximum 60 seconds for the
			// destructor before moving on.
			case <-ctx.Done():
			}
		}
'''
BODY=LOOP.split("\n",1)[1].rsplit("		}\n",1)[0]
CH='''	for _, child := range children {
		if child != nil {
			child.Close()
		}
	}

'''
ADD='''	if self.is_destroyed {
		return false
	}

	self.fn = append(self.fn, fn)
	return true
'''
TAKE='''		ds := self.destructors.RemoveDestructors(try == 9)
		if len(ds) == 0 {
			// No more destructors left - we are done.
			break
		}
'''
GARB='''			if c != nil && self.id == c.id {
'''
M=[
# finishing
("C06",S,REM,REM.replace("if last || len(result) == 0","if len(result) == 0")),
("C06",S,REM,REM.replace("if last || len(result) == 0","if last")),
("C06",S,REM,REM.replace("	self.fn = nil\n","")),
("C06",S,REM,REM.replace("	self.fn = nil\n","	self.fn = self.fn[:0]\n"),0),
("C06",S,REM,REM.replace("append(self.fn[:0:0], self.fn...)","self.fn"),0),
("C06",S,REM,REM.replace("append(self.fn[:0:0], self.fn...)","self.fn").replace("	self.fn = nil\n","	self.fn = self.fn[:0]\n")),
("C06",S,REM,REM.replace("append(self.fn[:0:0], self.fn...)","append([]func(){}, self.fn[1:]...)")),
("C06",S,REM,'''	result := make([]func(), len(self.fn))
	copy(result, self.fn)
	self.fn = nil
	self.is_destroyed = self.is_destroyed || last || len(result) == 0
	return result
''',0),
("C06",S,REM,'''	if last {
		self.is_destroyed = true
	}
	if len(self.fn) == 0 {
		self.is_destroyed = true
		return nil
	}
	result := self.fn
	self.fn = []func(){}
	return result
''',0),
("C06",S,"try == 9","try == 10"),
("C06",S,"try == 9","try >= 9",0),
("C06",S,"try == 9","false"),
("C06",[(S,"try < 10","try < 5"),(S,"try == 9","try == 4")],0),
("C06",S,"try < 10","try < 20"),
("C06",[(S,"for try := 0; try < 10; try++","for"),(S,"try == 9","false")],0),
("C06",S,"	for try := 0; try < 10; try++ {\n","	for try := 0; try < 10; try++ {\n		if self.parent == nil {\n			break\n		}\n"),
("C06",S,"	children := append([]*Scope{}, self.children...)\n","	if self.stack_depth == 7 {\n		self.Unlock()\n		return\n	}\n	children := append([]*Scope{}, self.children...)\n"),
("C06",S,"	children := append([]*Scope{}, self.children...)\n","	if self.destructors.IsDestroyed() {\n		self.Unlock()\n		return\n	}\n	children := append([]*Scope{}, self.children...)\n",0),
# register
("C06",S,ADD,'''	self.fn = append(self.fn, fn)
	return !self.is_destroyed
'''),
("C06",S,ADD,'''	if self.is_destroyed {
		return true
	}

	self.fn = append(self.fn, fn)
	return true
'''),
("C06",S,ADD,'''	if !self.is_destroyed {
		self.fn = append(self.fn, fn)
		return true
	}
	return false
''',0),
("C06",S,ADD,'''	if self.is_destroyed {
		return false
	}
	if len(self.fn) > 1000 {
		return true
	}
	self.fn = append(self.fn, fn)
	return true
'''),
("C06",[(S,ADD,'''	self.fn = append(self.fn, fn)
	return true
'''),(S,'	if !self.destructors.AddDestructor(fn) {','	if self.destructors.IsDestroyed() || !self.destructors.AddDestructor(fn) {')]),
("C06",S,'''		return errors.New("Scope already closed")
''','''		_ = errors.New
		return nil
'''),
("C06",S,ADD,ADD.replace("append(self.fn, fn)","append([]func(){fn}, self.fn...)")),
("C06",[(S,ADD,ADD.replace("append(self.fn, fn)","append([]func(){fn}, self.fn...)")),(S,"for i := len(ds) - 1; i >= 0; i-- {","for i := 0; i < len(ds); i++ {")],0),
# order
("C06",S,"for i := len(ds) - 1; i >= 0; i-- {","for i := 0; i < len(ds); i++ {"),
("C06",S,"for i := len(ds) - 1; i >= 0; i-- {","for i := len(ds) - 1; i > 0; i-- {"),
("C06",S,"for i := len(ds) - 1; i >= 0; i-- {","for i := len(ds) - 2; i >= 0; i-- {"),
("C06",[(S,"for i := len(ds) - 1; i >= 0; i-- {","for i := len(ds); i > 0; i-- {"),(S,"ds[i]()","ds[i-1]()")],0),
("C06",[(S,"for i := len(ds) - 1; i >= 0; i-- {","for i := range ds {"),(S,"ds[i]()","ds[len(ds)-1-i]()")],0),
("C06",[(S,"for i := len(ds) - 1; i >= 0; i-- {","for i := range ds {"),(S,"ds[i]()","ds[len(ds)-i]()")]),
("C06",[(S,"for i := len(ds) - 1; i >= 0; i-- {","for len(ds) > 0 {\n			fn := ds[len(ds)-1]\n			ds = ds[:len(ds)-1]"),(S,"ds[i]()","fn()")],0),
("C06",[(S,"for i := len(ds) - 1; i >= 0; i-- {","for len(ds) > 1 {\n			fn := ds[len(ds)-1]\n			ds = ds[:len(ds)-1]"),(S,"ds[i]()","fn()")]),
("C06",[(S,"for i := len(ds) - 1; i >= 0; i-- {","for len(ds) > 0 {\n			fn := ds[0]\n			ds = ds[1:]"),(S,"ds[i]()","fn()")]),
("C06",[(S,LOOP,'''		for i := len(ds) - 1; i >= 0; i-- {
			runDestructor(ds[i])
		}
'''),(S,"// Closing a scope will also",'''func runDestructor(fn func()) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)
	go func() {
		fn()
		cancel()
	}()
	<-ctx.Done()
}

// Closing a scope will also''')],0),
("C06",[(S,LOOP,'''		for i := len(ds) - 1; i >= 0; i-- {
			runDestructor(ds[i])
		}
'''),(S,"// Closing a scope will also",'''func runDestructor(fn func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		fn()
	}()
	select {
	case <-done:
	case <-time.After(time.Minute):
	}
}

// Closing a scope will also''')],0),
("C06",[(S,LOOP,'''		for i := len(ds) - 1; i >= 0; i-- {
			runDestructor(ds[i])
		}
'''),(S,"// Closing a scope will also",'''func runDestructor(fn func()) {
	done := make(chan bool)
	go func() {
		close(done)
		fn()
	}()
	select {
	case <-done:
	case <-time.After(time.Minute):
	}
}

// Closing a scope will also''')]),
("C06",[(S,LOOP,'''		for i := len(ds) - 1; i >= 0; i-- {
			runDestructor(ds[i])
		}
'''),(S,"// Closing a scope will also",'''func runDestructor(fn func()) {
	if fn == nil {
		return
	}
	_ = time.Second
	_ = context.Background
	fn()
}

// Closing a scope will also''')],0),
("C06",S,'''			select {
			// Wait a maximum 60 seconds for the
			// destructor before moving on.
			case <-ctx.Done():
			}
''','''			_ = ctx
'''),
("C06",S,'''			case <-ctx.Done():
			}
		}
	}
}
''','''			case <-ctx.Done():
			default:
			}
		}
	}
}
'''),
("C06",S,"				ds[i]()\n				cancel()\n","				cancel()\n				ds[i]()\n"),
("C06",S,"				ds[i]()\n				cancel()\n","				defer cancel()\n				ds[i]()\n",0),
("C06",S,"			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)\n			go","			if i == 3 {\n				continue\n			}\n			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)\n			go"),
("C06",[(S,"		for i := len(ds) - 1; i >= 0; i-- {\n			ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)\n","		ctx, cancel := context.WithTimeout(context.Background(), time.Second*60)\n		for i := len(ds) - 1; i >= 0; i-- {\n")]),
# children
("C06",S,CH,""+"	_ = children\n"),
("C06",S,"			child.Close()\n","			go child.Close()\n"),
("C06",[(S,CH,"	defer func() {\n"+CH.rstrip("\n")+"\n	}()\n\n")]),
("C06",S,"		if child != nil {\n			child.Close()\n","		if child != nil && child.stack_depth < 500 {\n			child.Close()\n"),
("C06",S,"			child.Close()\n		}\n","			child.Close()\n			break\n		}\n"),
("C06",S,CH,'''	for i := 0; i < len(children); i++ {
		child := children[i]
		if child == nil {
			continue
		}
		child.Close()
	}

''',0),
("C06",S,CH,'''	for i := len(children) - 1; i >= 0; i-- {
		if children[i] != nil {
			children[i].Close()
		}
	}

''',0),
("C06",[(S,CH,"	self.closeChildren(children)\n\n"),(S,"// Closing a scope will also","func (self *Scope) closeChildren(children []*Scope) {\n"+CH.rstrip("\n")+"\n}\n\n// Closing a scope will also")],0),
("C06",S,"	for _, child := range children {\n","	for _, child := range children[1:] {\n"),
# the list
("C06",S,GARB,GARB.replace("self.id == c.id","self.stack_depth == c.stack_depth")),
("C06",S,GARB,GARB.replace("self.id == c.id","c == self"),0),
("C06",S,GARB,GARB.replace(" && self.id == c.id","")),
("C06",S,"return atomic.AddUint64(&idx, 1)","return atomic.LoadUint64(&idx)"),
("C06",S,"			if c != nil {\n				new_children","			if c != nil && c.stack_depth > 0 {\n				new_children"),
("C06",S,"			if c != nil {\n				new_children = append(new_children, c)\n			}\n","			if c == nil {\n				continue\n			}\n			new_children = append(new_children, c)\n",0),
("C06",S,"		self.children = new_children\n","		self.children = new_children[1:]\n"),
("C06",S,"		self.children = new_children\n","		self.children = nil\n		_ = new_children\n"),
("C06",S,"	self.children = append(self.children, child_scope)\n","	if len(self.children) < 1000 {\n		self.children = append(self.children, child_scope)\n	}\n"),
("C06",S,"		throttler:        self.throttler,\n		ag_context:       nil, //  Search for context in our parent.\n		id:               NextId(),\n","		throttler:        self.throttler,\n		ag_context:       nil, //  Search for context in our parent.\n		id:               self.id,\n"),
("C06",S,REM,'''	result := make([]func(), len(self.fn))
	self.fn = nil
	self.is_destroyed = self.is_destroyed || last || len(result) == 0
	return result
'''),
]
