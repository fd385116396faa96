import os
_d={}; exec(open('/verif/tools/seeds_db.py').read().split('\nSEEDS=[')[0],_d)
_h={}; exec(open('/verif/tools/seeds_h.py').read().split('\nSEEDS=[')[0],_h)
DB=_d['HEAD']; PUB=_h['HEAD']
P='pkg/database/impl.go'; D='internal/database/database.go'; S='internal/database/snapshot.go'
SEEDS=[
 dict(id='pub-schemas-together',property='C32',pkg='pkg/database',
  edits=[dict(file=P,old='''		ires := db.db.Write(types.Request{Claims: claims})
		if ires.Error != nil {
			res.Error = ires.Error
			res.Snap = &Snapshot{snap: ires.Snapshot, analyzer: db.analyzer}
			return
		}
	}
''',new='''		declared = append(declared, claims...)
	}
	if len(declared) > 0 {
		ires := db.db.Write(types.Request{Claims: declared})
		if ires.Error != nil {
			res.Error = ires.Error
			res.Snap = &Snapshot{snap: ires.Snapshot, analyzer: db.analyzer}
			return
		}
	}
'''),dict(file=P,old='	for _, assertion := range',new='	var declared []types.Claim\n	for _, assertion := range')],
  needs='one request with structs of two types whose attributes differ',
  breaks='the schemas of all types are written together, where their temporary ids name each other\'s attributes',
  demo=PUB+'''
func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	res := db.Write(Request{Assertions: []any{&demoUser{Email: "a"}, &demoNamed{Name: "b"}}})
	assert.NoError(t, res.Error)
	if assert.Len(t, res.IDs, 2) {
		assert.Equal(t, "a", demoFind[demoUser](t, res.Snap, res.IDs[0]).Email)
		assert.Equal(t, "b", demoFind[demoNamed](t, res.Snap, res.IDs[1]).Name)
	}
}
'''),
 dict(id='db-ident-unchecked-on-declaration',property='C09',pkg='internal/database',
  edits=[dict(file=D,old='				if !sys.ValidUserIdent(String(ident)) {',new='				_, declared := attrChanges[datum.E]\n				if !declared && !sys.ValidUserIdent(String(ident)) {')],
  needs='a declaration whose type precedes its ident',
  breaks='an attribute may take an ident in the reserved root',
  demo=DB+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: sys.AttrType, V: sys.AttrTypeString},
		{E: TempID("1"), A: sys.DbIdent, V: String("sys/mine")},
	}})
	assert.Error(t, r.Error)
}
'''),
 dict(id='db-system-checked-before-identities',property='C09',pkg='internal/database',
  edits=[dict(file=D,old='''		if datum.E < sys.FirstUserID {
			res.Error = NewError("database.write.sysEntityDisallowed", "datum", datum)
			break
		}
''',new=''),dict(file=D,old='''	if res.Error != nil {
		return
	}
	switch a := claim.A.(type) {''',new='''	if res.Error == nil && datum.E < sys.FirstUserID {
		res.Error = NewError("database.write.sysEntityDisallowed", "e", claim.E)
	}
	if res.Error != nil {
		return
	}
	switch a := claim.A.(type) {''')],
  needs='a temporary id which claims the ident of a system entity, and so is that entity',
  breaks='entities are checked before temporary ids are resolved by identity, so a system entity can be written to',
  demo=DB+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: sys.DbIdent, V: String("sys/tx/at")},
		{E: TempID("1"), A: Ident("p/age"), V: Int(5)},
	}})
	assert.Error(t, r.Error)
	assert.Equal(t, 0, db.Read().Count(Claim{E: sys.TxAt, A: Ident("p/age")}))
}
'''),
 dict(id='db-ids-reclaimed',property='C11',pkg='internal/database',
  edits=[dict(file=D,old='''	for tempid, id := range res.TempIDs {
		res.TempIDs[tempid] = resolve(id)
	}
''',new='''	for tempid, id := range res.TempIDs {
		res.TempIDs[tempid] = resolve(id)
	}
	// The ids of tempids that turned out to be extant entities were never used.
	if len(rewrites) < len(res.TempIDs) {
		db.nextID -= ID(len(rewrites))
	}
''')],
  needs='a request with a temporary id for an extant entity and another for a new one, then another request',
  breaks='ids are issued again',
  demo=DB+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/name"), V: String("a")}}})
	assert.NoError(t, r.Error)
	r = db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: Ident("p/name"), V: String("a")},
		{E: TempID("2"), A: Ident("p/name"), V: String("b")},
	}})
	assert.NoError(t, r.Error)
	b := r.TempIDs["2"]
	r = db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/name"), V: String("c")}}})
	assert.NoError(t, r.Error)
	assert.NotEqual(t, b, r.ID)
	assert.NotEqual(t, b, r.TempIDs["1"])
}
'''),
 dict(id='db-ident-moved-within-request',property='C14',pkg='internal/database',
  edits=[dict(file=D,old='''	identChanges := map[Ident]ID{}
''',new='''	identChanges := map[Ident]ID{}
	identRemovals := map[Ident]ID{}
'''),dict(file=D,old='''				if extant && datum.A == sys.DbIdent {
					identChanges[Ident(datum.V.(String))] = 0
				}
''',new='''				if extant && datum.A == sys.DbIdent {
					identRemovals[Ident(datum.V.(String))] = datum.E
				}
'''),dict(file=D,old='''		for id, attr := range attrChanges {
			db.attrsByID[id] = attr
			db.attrsByIdent''',new='''		for ident := range identRemovals {
			delete(db.idents, ident)
		}
		for id, attr := range attrChanges {
			db.attrsByID[id] = attr
			db.attrsByIdent''')],
  needs='one request which retracts an entity\'s ident and gives it to another',
  breaks='the ident no longer resolves, though there is a datum of it',
  demo=DB+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: sys.DbIdent, V: String("p/home")},
		{E: TempID("2"), A: Ident("p/age"), V: Int(1)},
	}})
	assert.NoError(t, r.Error)
	one, two := r.TempIDs["1"], r.TempIDs["2"]
	r = db.Write(Request{Claims: []Claim{
		{E: one, A: sys.DbIdent, V: String("p/home"), Retract: true},
		{E: two, A: sys.DbIdent, V: String("p/home")},
	}})
	assert.NoError(t, r.Error)
	assert.Equal(t, 1, r.Snapshot.Count(Claim{E: two, A: sys.DbIdent}))
	assert.Equal(t, two, r.Snapshot.ResolveIdent("p/home"))
}
'''),
 dict(id='q-reference-unresolved-any',property='C20',pkg='internal/database',
  edits=[dict(file=S,old='''	case LookupRef:
		id := snapshot.resolveLookupRef(v)
		if id == 0 {
			return
		}
		match.V = id
''',new='''	case LookupRef:
		id := snapshot.resolveLookupRef(v)
		if id != 0 {
			match.V = id
		}
''')],
  needs='a query for a value by a lookup ref which does not resolve',
  breaks='the query matches any value instead of nothing',
  demo=DB+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: Ident("p/name"), V: String("a")},
		{E: TempID("2"), A: Ident("p/friend"), V: TempID("1")},
	}})
	assert.NoError(t, r.Error)
	assert.False(t, r.Snapshot.Has(Claim{A: Ident("p/friend"), V: LookupRef{A: Ident("p/name"), V: String("nobody")}}))
}
'''),
]
