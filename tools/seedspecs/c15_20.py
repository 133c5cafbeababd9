
seeds=[
dict(id='s23-unquote-upper-x', prop='C15', file='utils/unquote.go',
 edits=[('			case \'x\', \'X\':\n','			case \'x\':\n')],
 demo='''
	want(t, utils.Unquote("\\"\\\\X41\\""), "A")
''', needs='a hex escape spelled with an upper case X', breaks='it is not decoded'),
dict(id='s25-report-offset', prop='C16', file='vfilter.go',
 edits=[('	if offset >= len(expression) {\n','	if offset > len(expression) {\n')],
 demo='''
	_, err := Parse("SELECT A FROM B WHERE")
	want(t, fmt.Sprint(err != nil), "true")
	_, err = Parse("S")
	want(t, fmt.Sprint(err != nil), "true")
''', needs='a syntax error reported exactly at the end of the text', breaks='reporting the error panics'),
dict(id='s26-flatten-empty-list', prop='C18', file='plugins/flatten.go',
 edits=[('''	if count == 0 {
		result = append(result, flatten(ctx, scope, item, idx-1)...)
''','''	if count == 0 {
		result = append(result, item)
''')],
 demo='''
	want(t, rows("SELECT * FROM flatten(query={ SELECT (1, 2) AS A, NULL AS B FROM scope() })"), "{\\"A\\":1,\\"B\\":null}{\\"A\\":2,\\"B\\":null}")
''', needs='a row with a NULL column after a list column', breaks='the list column of that row is not expanded'),
dict(id='s28-part-full', prop='C19', file='api.go',
 edits=[('''				if len(rows) >= maxrows {
					ship_payload()
''','''				if len(rows) >= maxrows && len(rows)%maxrows == 0 && part < 255 {
					ship_payload()
''')],
 demo='''
	vql, _ := Parse("SELECT _value FROM range(end=400)")
	for part := range GetResponseChannel(vql, context.Background(), NewScope(),
		func(rows []types.Row) ([]byte, error) { return json.Marshal(rows) }, 1, 100) {
		if part.TotalRows > 1 { t.Fatalf("part %v has %v rows", part.Part, part.TotalRows) }
	}
''', needs='more than 255 parts', breaks='the last part grows without bound'),
]
