seeds=[
dict(id='s43-free-form-count', prop='C17', file='arg_parser/parser.go',
 edits=[('''	if len(parsed) != args.Len() {
		for _, item := range args.Items() {
''','''	if len(self.Fields) != args.Len() {
		for _, item := range args.Items() {
''')],
 demo='''
	type form struct {
		Name  string `vfilter:"required,field=name"`
		Count int64  `vfilter:"optional,field=count"`
	}
	args := ordereddict.NewDict().Set("name", "x").Set("other", "y")
	rest, err := arg_parser.ExtractKWArgsWithContext(context.Background(), NewScope(), args, &form{})
	if err != nil { t.Fatal(err) }
	v, _ := rest.Get("other")
	want(t, fmt.Sprint(v), "y")
''', needs='a free-form callee given as many arguments as it declares, but not the same ones', breaks='the undeclared argument never reaches the callee'),
dict(id='s44-late-stored-argument', prop='C21', file='stored.go',
 edits=[('			v = types.Materialize(ctx, sub_scope, t)\n','			v = t\n')],
 demo='''
	want(t, rows("LET n = 1 LET q = SELECT n AS V FROM scope() LET f(n, given) = SELECT V, n FROM given SELECT * FROM f(given=q, n=5)"), "{\\"V\\":1,\\"n\\":5}")
''', needs='a stored query passed to a stored query one of whose parameters has the name of a variable the argument uses', breaks='the argument is evaluated with the callee\'s bindings'),
dict(id='s45-column-gap', prop='C04', file='protocols/protocol_associative.go',
 edits=[('''				element := a_value.Index(i).Interface()
				if item, pres := scope.Associative(element, b); pres {
					result = append(result, item)
				}
''','''				element := a_value.Index(i).Interface()
				item, pres := scope.Associative(element, b)
				if !pres && len(result) > 0 {
					break
				}
				if pres {
					result = append(result, item)
				}
''')],
 demo='''
	want(t, ev("(dict(a=1), dict(b=2), dict(a=3)).a"), "[1,3]")
''', needs='a list of dicts with a member lacking the key between two that have it', breaks='the members after the gap are lost'),
dict(id='s48-materialized-not-kept', prop='C14', file='lazy.go',
 edits=[('''				value = getter(ctx, scope)
				t.cache.Set(column, value)
''','''				value = getter(ctx, scope)
				if !types.IsNil(value) || len(t.columns) == 1 {
					t.cache.Set(column, value)
				}
''')],
 demo='''
	n := 0
	row := NewLazyRow(context.Background(), NewScope())
	row.AddColumn("A", func(ctx context.Context, scope types.Scope) types.Any { n++; return types.Null{} })
	row.AddColumn("B", func(ctx context.Context, scope types.Scope) types.Any { return 1 })
	MaterializedLazyRow(context.Background(), row, NewScope())
	MaterializedLazyRow(context.Background(), row, NewScope())
	want(t, fmt.Sprint(n), "1")
''', needs='a column that evaluates to NULL in a row that is materialized and then used again', breaks='the column is evaluated again'),
]
