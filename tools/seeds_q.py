P='internal/database/snapshot.go'
HEAD=open('/verif/seeded/db-lookup-by-unique-value/demo_test.go').read().split('func TestDemo')[0]
SEEDS=[
 dict(id='q-inst-whole-seconds',property='C19',pkg='internal/database',
  edits=[dict(file=P,old='return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()',new='return time.Time(ai).Unix() == time.Time(bi).Unix()')],
  needs='a query for an instant of an attribute which is not unique, and a datum of another instant within the same second',
  breaks='queries give datums whose values differ from the value sought',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	at := time.UnixMilli(1700000000000)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/born"), V: Inst(at)}, {E: TempID("2"), A: Ident("p/born"), V: Inst(at.Add(400 * time.Millisecond))}}})
	assert.NoError(t, r.Error)
	n := 0
	for d := range r.Snapshot.Select(Claim{A: Ident("p/born"), V: Inst(at)}) {
		assert.Equal(t, r.TempIDs[TempID("1")], d.E)
		n++
	}
	assert.Equal(t, 1, n)
}
'''),
 dict(id='q-has-without-value',property='C20',pkg='internal/database',
  edits=[dict(file=P,old='if match.E != 0 && match.A != 0 && match.V != nil {',new='if match.E != 0 && match.A != 0 {')],
  needs='Has of an entity and attribute without a value',
  breaks='Has disagrees with Select and Count',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(3)}}})
	assert.NoError(t, r.Error)
	c := Claim{E: r.TempIDs[TempID("1")], A: Ident("p/age")}
	assert.Equal(t, 1, r.Snapshot.Count(c))
	assert.True(t, r.Snapshot.Has(c))
}
'''),
 dict(id='q-filter-ignores-stop',property='C21',pkg='internal/database',
  edits=[dict(file=P,old='''				if !yield(d) {
					return
				}''',new='''				yield(d)''')],
  needs='a consumer which stops before the end of a query which is filtered by value',
  breaks='the query continues to yield datums to a consumer which has stopped',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(3)}, {E: TempID("2"), A: Ident("p/age"), V: Int(3)}}})
	assert.NoError(t, r.Error)
	n := 0
	r.Snapshot.Select(Claim{A: Ident("p/age"), V: Int(3)})(func(Datum) bool {
		n++
		return false
	})
	assert.Equal(t, 1, n)
}
'''),
 dict(id='q-entity-value-unfiltered',property='C19',pkg='internal/database',
  edits=[dict(file=P,old='case hasE && hasV:',new='case hasE && hasV && match.V != Value(ID(match.E)):')],
  needs='a query for an entity and a value which is the entity itself, of any attribute',
  breaks='the query gives all of the datums of the entity',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(3)}, {E: TempID("1"), A: Ident("p/friend"), V: TempID("1")}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs[TempID("1")]
	n := 0
	for d := range r.Snapshot.Select(Claim{E: id, V: id}) {
		assert.Equal(t, Value(id), d.V)
		n++
	}
	assert.Equal(t, 1, n)
}
'''),
]
