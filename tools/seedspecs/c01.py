seeds=[
dict(id='s01-uint32-narrow', prop='C01', file='utils/utils.go',
 edits=[('	case uint32:\n		return int64(t), true\n	case int32:','	case uint32:\n		return int64(int32(t)), true\n	case int32:')],
 demo='''
	s := NewScope().AppendVars(ordereddict.NewDict().Set("N", uint32(3000000000)))
	want(t, fmt.Sprint(s.Add(uint32(3000000000), int64(1))), "3000000001")
	want(t, fmt.Sprint(s.Mul(uint32(3000000000), int64(2))), "6000000000")
''', needs='a uint32 operand of 2^31 or more (as plugins emit for sizes and flags) in integer arithmetic', breaks='integer arithmetic on large uint32 values goes negative'),
dict(id='s02-concat-alias', prop='C01', file='protocols/protocol_add.go',
 edits=[('	if is_array(a) {\n		a_slice := reflect.ValueOf(a)','	if t, ok := a.([]types.Any); ok {\n		return t\n	}\n\n	if is_array(a) {\n		a_slice := reflect.ValueOf(a)')],
 demo='''
	s := NewScope()
	base := append(make([]types.Any, 0, 8), int64(1))
	x := s.Add(base, []types.Any{int64(2)})
	y := s.Add(base, []types.Any{int64(3)})
	want(t, fmt.Sprint(x, y), "[1 2] [1 3]")
''', needs='two concatenations onto the same list value whose backing store has spare capacity', breaks='the second concatenation overwrites the result of the first'),
dict(id='s03-div-int', prop='C01', file='protocols/protocol_div.go',
 edits=[('	// Always convert to float to not lose precision.\n	a_int, ok := utils.ToFloat(a)\n	if ok {\n','''	// Exact divisions do not need to go through a float.
	if l, ok := utils.ToInt64(a); ok {
		if r, ok := utils.ToInt64(b); ok && r != 0 && l%r == 0 && l > 1<<53 {
			return l / r
		}
	}

	// Always convert to float to not lose precision.
	a_int, ok := utils.ToFloat(a)
	if ok {
''')],
 demo='''
	s := NewScope()
	want(t, fmt.Sprintf("%T", s.Div(int64(1<<60), int64(2))), "float64")
''', needs='an exact division with a dividend above 2^53', breaks='division of large integers returns an integer instead of a float'),
]
