seeds=[
dict(id='s40-append-copy-on-write', prop='C22', file='scope/scope.go',
 edits=[('''	self.Lock()
	defer self.Unlock()

	result := self

	result.vars = append(result.vars, row)
''','''	// Build the new list first to keep the lock short.
	vars := make([]types.Row, 0, len(self.vars)+1)
	vars = append(vars, self.vars...)
	vars = append(vars, row)

	self.Lock()
	defer self.Unlock()

	result := self
	result.vars = vars
''')],
 demo='''
	s := NewScope()
	done := make(chan bool)
	start := make(chan bool)
	for w := 0; w < 8; w++ {
		go func() {
			<-start
			for i := 0; i < 3000; i++ {
				s.AppendVars(ordereddict.NewDict().Set(fmt.Sprintf("v%d_%d", w, i), i))
			}
			done <- true
		}()
	}
	close(start)
	for w := 0; w < 8; w++ { <-done }
	lost := 0
	for w := 0; w < 8; w++ {
		for i := 0; i < 3000; i += 97 {
			if v, _ := s.Resolve(fmt.Sprintf("v%d_%d", w, i)); fmt.Sprint(v) != fmt.Sprint(i) { lost++ }
		}
	}
	want(t, fmt.Sprint(lost), "0")
''', needs='two goroutines extend the same scope at the same time', breaks='a binding is lost'),
dict(id='s41-modify-unlocked', prop='C22', file='scope/aggregators.go',
 edits=[('''	self.mu.Lock()
	defer self.mu.Unlock()

	old_value, pres := self.data[name]
	new_value := modifier(old_value, pres)
	self.data[name] = new_value
''','''	self.mu.Lock()
	old_value, pres := self.data[name]
	self.mu.Unlock()

	// The modifier may be slow, do not hold up others meanwhile.
	new_value := modifier(old_value, pres)

	self.mu.Lock()
	self.data[name] = new_value
	self.mu.Unlock()

''')],
 demo='''
	c := NewScope().GetAggregatorCtx()
	done := make(chan bool)
	for w := 0; w < 4; w++ {
		go func() {
			c.Modify("x", func(old types.Any, pres bool) types.Any {
				time.Sleep(100 * time.Millisecond)
				if !pres { return 1 }
				return old.(int) + 1
			})
			done <- true
		}()
	}
	for w := 0; w < 4; w++ { <-done }
	c.Modify("x", func(old types.Any, pres bool) types.Any {
		want(t, fmt.Sprint(old), "4")
		return old
	})
''', needs='two rows of concurrent workers reach the same aggregate at the same time', breaks='one of the two modifications is lost'),
dict(id='s42-many-children-deadlock', prop='C22', file='scope/scope.go',
 edits=[('''		fmt.Printf("Copying scope of %v children - this is probably a bug!!!\\n%v\\n",
			len(self.children), string(debug.Stack()))
''','''		fmt.Printf("Copying scope of %v children (closed %v) - this is probably a bug!!!\\n%v\\n",
			len(self.children), self.IsClosed(), string(debug.Stack()))
''')],
 demo='''
	s := NewScope()
	done := make(chan bool)
	go func() {
		for i := 0; i < 1003; i++ { s.Copy() }
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second): t.Fatal("stuck")
	}
''', needs='a scope from which over 1000 open scopes are derived', breaks='deriving another one takes a lock that is held: it never returns'),
]
