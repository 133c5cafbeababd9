seeds=[
dict(id='s04-time-seconds', prop='C02', file='protocols/protocol_eq.go',
 edits=[('''	case time.Time:
		rhs, ok := toTime(b)
		if ok {
			return t.UnixNano() == rhs.UnixNano()
		}
''','''	case time.Time:
		rhs, ok := toTime(b)
		if ok {
			return t.Unix() == rhs.Unix()
		}
''')],
 demo='''
	s := NewScope()
	a := time.Unix(1600000000, 100)
	b := time.Unix(1600000000, 200)
	want(t, fmt.Sprint(s.Eq(a, b), s.Lt(a, b)), "false true")
''', needs='two timestamps within the same second', breaks='two different timestamps of one second are equal and also less'),
dict(id='s06-bool-float-fraction', prop='C03', file='protocols/protocol_bool.go',
 edits=[('''	case float64:
		return t > 0
''','''	case float64:
		return int64(t) > 0
''')],
 demo='''
	want(t, ev("NOT 0.25"), "false")
	want(t, ev("0.5 AND TRUE"), "true")
''', needs='a float strictly between zero and one as a condition', breaks='0.5 counts as false'),
dict(id='s07-array-eq-prefix', prop='C02', file='protocols/protocol_eq.go',
 edits=[('	if value_a.Len() != value_b.Len() {','	if value_a.Len() > value_b.Len() {')],
 demo='''
	want(t, ev("(1, 2) = (1, 2, 3)"), "false")
	want(t, ev("(1, 2, 3) = (1, 2)"), "false")
''', needs='two lists where the first one is a prefix of the second', breaks='a prefix equals the longer list, but not the other way around'),
dict(id='s08-slice-clamp', prop='C04', file='protocols/utils.go',
 edits=[('''	if start_range < 0 {
		start_range = 0
	}
''','''	if start_range < -array_length {
		start_range = 0
	}
''')],
 demo='''
	want(t, ev("'hello'[-7:2]"), "\\"he\\"")
	want(t, ev("'hello'[-70:2]"), "\\"he\\"")
''', needs='a negative lower bound just beyond the start of the value', breaks='the slice is NULL instead of starting at the first element'),
dict(id='s09-regex-cache-key', prop='C05', file='protocols/protocol_regex.go',
 edits=[('	key := "__re" + pattern\n','	// Matching ignores case so the spelling does not matter.\n	key := "__re" + strings.ToLower(pattern)\n'),
 ('	"regexp"\n','	"regexp"\n	"strings"\n')],
 demo='''
	s := newScope()
	want(t, fmt.Sprint(s.Match("^\\\\d+$", "42")), "true")
	want(t, fmt.Sprint(s.Match("^\\\\D+$", "42")), "false")
	want(t, fmt.Sprint(s.Match("^\\\\D+$", "ab")), "true")
''', needs='two patterns in one environment which differ only in the case of an escape class (\\\\d and \\\\D)', breaks='the second pattern matches like the first'),
dict(id='s10-in-array-text', prop='C05', file='protocols/protocol_membership.go',
 edits=[('''			item := value.Index(i).Interface()
			if scope.Eq(a, item) {
				return true
			}
''','''			item := value.Index(i).Interface()
			if scope.Eq(a, item) {
				return true
			}

			// The members are usually all of one type - give up
			// early if they can not be compared.
			if types.IsNil(item) {
				break
			}
''')],
 demo='''
	want(t, ev("2 IN (1, NULL, 2)"), "true")
''', needs='a list with a NULL before the member', breaks='members behind a NULL are not found'),
]
