seeds=[
dict(id='s46-untagged-field', prop='C17', file='arg_parser/parser.go',
 edits=[('''		if tag == "" || tag == "-" {
			continue
		}
''','''		if tag == "" || tag == "-" {
			break
		}
''')],
 demo='''
	type form struct {
		Name  string `vfilter:"required,field=name"`
		cache int64
		Count int64  `vfilter:"required,field=count"`
	}
	v := form{}
	err := arg_parser.ExtractArgsWithContext(context.Background(), NewScope(), ordereddict.NewDict().Set("name", "x").Set("count", 7), &v)
	want(t, fmt.Sprint(err) + v.Name + fmt.Sprint(v.Count), "<nil>x7")
	err = arg_parser.ExtractArgsWithContext(context.Background(), NewScope(), ordereddict.NewDict().Set("name", "x"), &v)
	want(t, fmt.Sprint(err != nil), "true")
''', needs='a callee whose parameter struct has a field without a declaration before one with', breaks='the parameters declared after it are unknown, and not required'),
dict(id='s47-time-pointer', prop='C02', file='protocols/protocol_lt.go',
 edits=[('''	case *time.Time:
		rhs, ok := toTime(b)
		if ok {
			return t.Before(*rhs)
		}
''','''	case *time.Time:
		rhs, ok := toTime(b)
		if ok {
			return !t.After(*rhs)
		}
''')],
 demo='''
	now := time.Unix(5, 0)
	scope := NewScope()
	want(t, fmt.Sprint(scope.Lt(&now, now), scope.Gt(now, &now), scope.Lt(&now, time.Unix(6, 0))), "false false true")
''', needs='a pointer to a time compared with an equal time to its right', breaks='a time is less than itself'),
]
