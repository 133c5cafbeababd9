seeds=[
dict(id='s31-extra-arg-first', prop='C17', file='arg_parser/parser.go',
 edits=[('	if len(parsed) != args.Len() {\n		// Slow','	if len(parsed) != args.Len() && len(self.Fields) > 0 {\n		// Slow')],
 demo='''
	type none struct {
		private string
	}
	args := ordereddict.NewDict().Set("a", 1)
	err := arg_parser.ExtractArgsWithContext(context.Background(), NewScope(), args, &none{})
	want(t, fmt.Sprint(err != nil), "true")
''', needs='a callee without any parameters called with an argument', breaks='the undeclared argument is silently dropped'),
dict(id='s32-int-narrow', prop='C17', file='arg_parser/parser.go',
 edits=[('''		return int(a), nil
''','''		return int(int32(a)), nil
''')],
 demo='''
	type st struct {
		A int `vfilter:"required,field=a"`
	}
	v := st{}
	args := ordereddict.NewDict().Set("a", int64(5000000000))
	err := arg_parser.ExtractArgsWithContext(context.Background(), NewScope(), args, &v)
	want(t, fmt.Sprint(err, v.A), "<nil> 5000000000")
''', needs='an argument beyond 2^31 for a field of type int', breaks='the field holds another number'),
dict(id='s33-string-list-first', prop='C17', file='arg_parser/parser.go',
 edits=[('		if pres && len(new_value) == 1 {\n			return new_value[0], nil','		if pres && len(new_value) >= 1 && len(new_value) <= cap(new_value)/2+1 {\n			return new_value[len(new_value)-1], nil')],
 demo='''
	type st struct {
		A string `vfilter:"required,field=a"`
	}
	v := st{}
	args := ordereddict.NewDict().Set("a", []types.Any{"x", "y"})
	arg_parser.ExtractArgsWithContext(context.Background(), NewScope(), args, &v)
	want(t, v.A, "[x y]")
''', needs='a list of two strings given for a string field', breaks='all but one member are dropped silently'),
dict(id='s34-null-argument-default', prop='C21', file='stored.go',
 edits=[('		_, pres := args.Get(name)\n','		value, pres := args.Get(name)\n		if types.IsNil(value) {\n			pres = false\n		}\n')],
 demo='''
	want(t, rows("LET f(x=5) = x SELECT f(x=NULL) AS A, f() AS B FROM scope()"), "{\\"A\\":null,\\"B\\":5}")
''', needs='NULL passed explicitly for a parameter with a default', breaks='the default replaces the NULL that was passed'),
dict(id='s35-null-argument-outer', prop='C21', file='stored.go',
 edits=[('''			v = types.Materialize(ctx, sub_scope, t)
		}
		vars.Set(k, v)
''','''			v = types.Materialize(ctx, sub_scope, t)
		}
		if types.IsNil(v) {
			continue
		}
		vars.Set(k, v)
''')],
 demo='''
	want(t, rows("LET x = 1 LET q(x) = SELECT x AS A FROM scope() SELECT * FROM q(x=NULL)"), "{\\"A\\":null}")
''', needs='NULL passed to a stored query for a parameter which is also the name of an outer variable', breaks='the outer variable shows through'),
dict(id='s36-lambda-args-keep', prop='C21', file='lambda.go',
 edits=[('	subscope := scope.Copy().AppendVars(vars)\n	defer subscope.Close()\n','	subscope := scope.AppendVars(vars)\n')],
 demo='''
	s := NewScope().AppendVars(ordereddict.NewDict().Set("x", 1))
	l, err := ParseLambda("x=>x+1")
	if err != nil { t.Fatal(err) }
	l.Reduce(context.Background(), s, []types.Any{5})
	v, _ := s.Resolve("x")
	want(t, fmt.Sprint(v), "1")
''', needs='a lambda whose parameter is also a variable of the scope it is applied in', breaks='the parameter stays bound in the scope of the caller'),
dict(id='s39-iterate-dict-ptr', prop='C18', file='protocols/protocol_iterate.go',
 edits=[('''				item, ok := value.(*ordereddict.Dict)
				if !ok {
''','''				item, ok := value.(*ordereddict.Dict)
				if !ok || item.Len() == 0 {
''')],
 demo='''
	want(t, rows("SELECT * FROM foreach(row=[dict(), dict(a=1)])"), "{}{\\"a\\":1}")
''', needs='a list with an empty dict', breaks='the empty dict is wrapped into a _value column'),
]
