
seeds=[
dict(id='s17-limit-int8', prop='C10', file='vfilter.go',
 edits=[('			limit := int(*self.Limit)\n','			limit := int(int32(*self.Limit))\n')],
 demo='''
	want(t, rows("SELECT _value AS X FROM range(end=3) LIMIT 4294967298"), "{\\"X\\":0}{\\"X\\":1}{\\"X\\":2}")
''', needs='a limit above 2^31', breaks='a huge limit wraps around and cuts the rows off'),
dict(id='s18-sort-flush', prop='C11', file='sort/sort.go',
 edits=[('''				// Collect all the rows
				sort_ctx.Items = append(sort_ctx.Items, row)
''','''				// Collect all the rows
				sort_ctx.Items = append(sort_ctx.Items, row)
				if len(sort_ctx.Items) >= 10000 {
					// Bound the memory we use.
					sort.Sort(sort_ctx)
					for _, row := range sort_ctx.Items[:5000] {
						select {
						case <-ctx.Done():
							return
						case output_chan <- row:
						}
					}
					sort_ctx.Items = sort_ctx.Items[5000:]
				}
''')],
 demo='''
	out := rows("SELECT 20000 - _value AS X FROM range(end=12000) ORDER BY X LIMIT 1")
	want(t, out, "{\\"X\\":8001}")
''', needs='more than ten thousand rows in one ORDER BY', breaks='the output is only sorted in chunks'),
dict(id='s19-group-ctx-new-bin', prop='C12', file='grouper/grouper.go',
 edits=[('''				bins.Set(bin_idx, aggregate_ctx)

			} else {''','''				bins.Set(bin_idx, aggregate_ctx)

				// All the rows of this bin share this context.
				scope.SetAggregatorCtx(aggregate_ctx.context)

			} else {'''),('''			new_scope.SetAggregatorCtx(aggregate_ctx.context)
''','''			_ = new_scope
''')],
 demo='''
	want(t, rows("SELECT _value - 2 * (_value > 1) * 1 AS K, count() AS C FROM range(end=4) GROUP BY K"),
	    "{\\"K\\":0,\\"C\\":2}{\\"K\\":1,\\"C\\":2}")
''', needs='rows of different groups interleaved in the input', breaks='a row is counted in the bin that was opened last'),
dict(id='s20-lazy-null-again', prop='C14', file='lazy.go',
 edits=[('''	res = getter(self.ctx, self.scope)
	self.cache.Set(key, res)

	return res, true
''','''	res = getter(self.ctx, self.scope)
	if !types.IsNil(res) {
		self.cache.Set(key, res)
	}

	return res, true
''')],
 demo='''
	n := 0
	row := NewLazyRow(context.Background(), NewScope())
	row.AddColumn("a", func(ctx context.Context, scope types.Scope) types.Any {
		n++
		return types.Null{}
	})
	row.Get("a")
	row.Get("a")
	want(t, fmt.Sprint(n), "1")
''', needs='a column whose value is NULL, read twice', breaks='the column is evaluated every time it is read'),
dict(id='s21-sum-double', prop='C13', file='functions/aggregates.go',
 edits=[('			sum += arg.Item\n			return sum\n','			sum = int64(float64(sum) + float64(arg.Item))\n			return sum\n')],
 demo='''
	want(t, rows("SELECT sum(item=9007199254740993) AS S FROM scope() GROUP BY 1"), "{\\"S\\":9007199254740993}")
''', needs='a sum beyond 2^53', breaks='the total loses its low bits'),
dict(id='s22-enumerate-null', prop='C13', file='functions/aggregates.go',
 edits=[('''				previous_value_array, ok := previous_value_any.([]types.Any)
				if ok {
					value =''','''				previous_value_array, ok := previous_value_any.([]types.Any)
				if ok && types.IsNil(arg.Items) {
					value = previous_value_array
				} else if ok {
					value =''')],
 demo='''
	want(t, rows("SELECT enumerate(items=if(condition=_value = 1, then=NULL, else=_value)) AS S FROM range(end=3) GROUP BY 1"), "{\\"S\\":[0,null,2]}")
''', needs='a NULL item which is not the first', breaks='the NULL is missing from the list'),
]
