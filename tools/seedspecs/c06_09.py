
seeds=[
dict(id='s12-destructor-backing', prop='C08', file='scope/scope.go',
 edits=[('''	result := append(self.fn[:0:0], self.fn...)
	self.fn = nil
	return result
''','''	result := self.fn
	self.fn = self.fn[:0]
	return result
''')],
 demo='''
	s := NewScope()
	out := []string{}
	s.AddDestructor(func() { out = append(out, "1") })
	s.AddDestructor(func() {
		out = append(out, "2")
		s.AddDestructor(func() { out = append(out, "retry") })
	})
	s.Close()
	want(t, strings.Join(out, " "), "2 1 retry")
''', needs='a destructor which registers another destructor on the closing scope', breaks='the new destructor overwrites the slot of one that has not run yet'),
dict(id='s13-compaction-drops', prop='C08', file='scope/scope.go',
 edits=[('''			if c != nil {
				new_children = append(new_children, c)
			}
''','''			// Children are closed oldest first.
			if c == nil {
				continue
			}
			if c.stack_depth <= self.stack_depth+1 && len(new_children) > 0 &&
				new_children[len(new_children)-1].id > c.id-2 {
				new_children[len(new_children)-1] = c
				continue
			}
			new_children = append(new_children, c)
''')],
 demo='''
	s := NewScope()
	for i := 0; i < 20; i++ {
		s.Copy().Close()
	}
	count := 0
	for i := 0; i < 30; i++ {
		c := s.Copy()
		c.AddDestructor(func() { count++ })
		if i % 3 == 0 {
			count--
			c.Close()
		}
	}
	for i := 0; i < 20; i++ {
		s.Copy().Close()
	}
	s.Close()
	want(t, fmt.Sprint(count), "20")
''', needs='a parent with several open children whose child list gets compacted (more than ten closed children)', breaks='some open children are forgotten by their parent and their destructors never run'),
dict(id='s14-plugins-shared', prop='C06', file='scope/dispatcher.go',
 edits=[('''		plugins:      plugins_copy,
		bool:         self.bool.Copy(),''','''		plugins:      self.plugins,
		bool:         self.bool.Copy(),'''),('''	plugins_copy := make(map[string]types.PluginGeneratorInterface)
	for k, v := range self.plugins {
		plugins_copy[k] = v
	}

''','')],
 pkg='', demo='''
	a := NewScope()
	b := a.NewScope()
	b.AppendPlugins(&GenericListPlugin{PluginName: "only_b"})
	_, pres := GetIntScope(a).GetPlugin("only_b")
	want(t, fmt.Sprint(pres), "false")
''', needs='an environment made from another one, in which a plugin is registered', breaks='the plugin also appears in the original environment'),
dict(id='s16-sub-impl-order', prop='C06', file='protocols/protocol_sub.go',
 edits=[('		self.impl = append([]SubProtocol{impl}, self.impl...)','		self.impl = append(self.impl, impl)')],
 demo='''
	s := NewScope()
	s.AddProtocolImpl(subImpl{"old"})
	s.AddProtocolImpl(subImpl{"new"})
	want(t, fmt.Sprint(s.Sub("a", "b")), "new")
}

type subImpl struct{ name string }

func (self subImpl) Applicable(a types.Any, b types.Any) bool { return true }
func (self subImpl) Sub(scope types.Scope, a types.Any, b types.Any) types.Any { return self.name }

func unused() {
''', needs='two extensions of the same operator which both apply to the operands', breaks='the oldest extension decides instead of the newest'),
dict(id='s15-depth-reset', prop='C09', file='scope/scope.go',
 edits=[('	if self.stack_depth < 1000 {\n','	if self.stack_depth < 1000 || len(vars) < 3 {\n')],
 demo='''
	var s types.Scope = NewScope()
	for i := 0; i < 1200; i++ { s = s.Copy() }
	want(t, fmt.Sprint(s.CheckForOverflow()), "true")
''', needs='a deep chain of scopes without bindings', breaks='overflow is not reported'),
]
