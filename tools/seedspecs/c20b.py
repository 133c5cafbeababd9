seeds=[
dict(id='s30-symbol-memo', prop='C20', file='vfilter.go',
 edits=[('''			return res, negated, pres
		}
	}

	// Plugins with "." resolve themselves recursively.
	var result Any = scope
''','''			return res, negated, pres
		}
	}

	// Resolving is expensive and the scope does not change.
	if self.last_scope == scope && !self.Called {
		return self.last_value, negated, true
	}

	// Plugins with "." resolve themselves recursively.
	var result Any = scope
'''),('''		result = subcomponent
	}

	return result, negated, true
''','''		result = subcomponent
	}

	self.last_scope, self.last_value = scope, result
	return result, negated, true
'''),('''type _SymbolRef struct {
''','''type _SymbolRef struct {
	last_scope types.Scope
	last_value Any

''')],
 demo='''
	vql, err := Parse("SELECT X FROM scope()")
	if err != nil { t.Fatal(err) }
	e := vql.Query.SelectExpression.Expressions[0].Expression
	s := NewScope()
	s.AppendVars(ordereddict.NewDict().Set("X", 1))
	one := e.Reduce(context.Background(), s)
	s.AppendVars(ordereddict.NewDict().Set("X", 2))
	two := e.Reduce(context.Background(), s)
	want(t, fmt.Sprint(one, two), "1 2")
''', needs='one expression evaluated twice in one scope which got another binding in between', breaks='the second evaluation yields the old value'),
]
