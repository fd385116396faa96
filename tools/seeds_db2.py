import os
_h={}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools','seeds_db.py')).read().split('SEEDS=[')[0],_h)
HEAD=_h['HEAD']
D='internal/database/database.go'
S='internal/database/snapshot.go'
SY='internal/sys/sys.go'
IX='internal/index/compare.go'
SEEDS=[
 dict(id='db-cardinality-reads-store',property='C06',pkg='internal/database',
  edits=[dict(file=D,old='					d, ok := eav.First(index.EA, *datum)\n					if ok {\n						if valuesEqual',new='					d, ok := db.eav.First(index.EA, *datum)\n					if ok {\n						if valuesEqual')],
  needs='one request which claims two values of the same attribute of an entity',
  breaks='the extant value is looked for in the store as it was before the request, so the first claim of the request is not replaced by the second',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: Ident("p/age"), V: Int(1)},
		{E: TempID("1"), A: Ident("p/age"), V: Int(2)},
	}})
	if r.Error == nil {
		assert.Equal(t, 1, r.Snapshot.Count(Claim{E: r.TempIDs["1"], A: Ident("p/age")}))
	}
}
'''),
 dict(id='db-tempid-value-unchecked',property='C07',pkg='internal/database',
  edits=[dict(file=D,old='	if !sys.ValidValue(db.attrTypes[datum.A], datum.V) {\n		res.Error = NewError("database.write.inconsistentAV"',new='	typ, declared := db.attrTypes[datum.A]\n	if _, ok := datum.V.(ID); ok && declared && typ != sys.AttrTypeString {\n		return\n	}\n	if !sys.ValidValue(typ, datum.V) {\n		res.Error = NewError("database.write.inconsistentAV"')],
  needs='a claim of a reference for an attribute of numbers, booleans or instants',
  breaks='references are stored as the values of attributes of other types',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				t.Errorf("panic: %v", p)
			}
		}()
		err = db.Write(Request{Claims: []Claim{
			{E: TempID("1"), A: Ident("p/age"), V: TempID("1")},
		}}).Error
	}()
	assert.Error(t, err)
}
'''),
 dict(id='sys-ident-unique-value',property='C10',pkg='internal/database',
  edits=[dict(file=SY,old='{E: DbIdent, A: AttrUnique, V: AttrUniqueIdentity, T: Tx},',new='{E: DbIdent, A: AttrUnique, V: AttrUniqueValue, T: Tx},')],
  needs='a query of the declared uniqueness of idents',
  breaks='the initial datums say that idents are unique values, where the attribute tables enforce unique identities',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	for d := range db.Read().Select(Claim{E: sys.DbIdent, A: sys.AttrUnique}) {
		assert.Equal(t, Value(sys.AttrUniqueIdentity), d.V)
	}
}
'''),
 dict(id='sys-rank-undeclared',property='C10',pkg='internal/database',
  edits=[dict(file=SY,old='	{E: DbRank, A: AttrType, V: AttrTypeInt, T: Tx},\n',new='	{E: DbRank, A: AttrType, V: AttrTypeFloat, T: Tx},\n')],
  needs='a query of the declared type of ranks',
  breaks='the initial datums declare ranks to be floats, where the attribute tables enforce ints',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	for d := range db.Read().Select(Claim{E: sys.DbRank, A: sys.AttrType}) {
		assert.Equal(t, Value(sys.AttrTypeInt), d.V)
	}
}
'''),

 dict(id='db-tempid-retracted-anew',property='C12',pkg='internal/database',
  edits=[dict(file=D,old='		datum.E = res.TempIDs[e]\n		if datum.E == 0 {\n',new='		datum.E = res.TempIDs[e]\n		if datum.E == 0 || claim.Retract {\n')],
  needs='a request which asserts and also retracts claims of one temporary id',
  breaks='the retraction is of an entity of its own, whose id is reported for the temporary id',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: Ident("p/age"), V: Int(1)},
		{E: TempID("1"), A: Ident("p/name"), V: String("x"), Retract: true},
	}})
	if r.Error == nil {
		assert.Equal(t, 1, r.Snapshot.Count(Claim{E: r.TempIDs["1"]}))
	}
}
'''),
 dict(id='db-txn-read-unlocked',property='C34',pkg='internal/database',flags='-race',
  edits=[dict(file=D,old='		res.TempIDs = nil\n	}\n	res.Snapshot = db.read()\n	return\n}',new='		res.TempIDs = nil\n	}\n	db.lock.Unlock()\n	res.Snapshot = db.Read()\n	db.lock.Lock()\n	return\n}')],
  needs='another write between the end of a write and the snapshot of its response',
  breaks='the snapshot of a write shows later writes',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	var wg sync.WaitGroup
	late := make(chan ID, 100000)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(int64(j))}}})
				for d := range r.Snapshot.Select(Claim{A: Ident("p/age")}) {
					if d.T > r.ID {
						late <- d.T
						break
					}
				}
			}
		}()
	}
	wg.Wait()
	assert.Equal(t, 0, len(late))
}
'''),

 dict(id='db-idents-clone-by-length',property='C14',pkg='internal/database',
  edits=[dict(file=D,old='	idents := maps.Clone(db.idents)\n',new='	if len(db.identsRead) != len(db.idents) {\n		db.identsRead = maps.Clone(db.idents)\n	}\n	idents := db.identsRead\n'),
         dict(file=D,old='	idents         map[Ident]ID\n',new='	idents         map[Ident]ID\n	identsRead     map[Ident]ID\n')],
  needs='a write which replaces an ident, after which there are as many idents as before',
  breaks='snapshots share a copy of the idents which is renewed only when their number changes, so replaced idents still resolve',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: sys.DbIdent, V: String("x/a")}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs["1"]
	r = db.Write(Request{Claims: []Claim{{E: id, A: sys.DbIdent, V: String("x/b")}}})
	assert.NoError(t, r.Error)
	assert.Equal(t, ID(0), r.Snapshot.ResolveIdent("x/a"))
	assert.Equal(t, id, r.Snapshot.ResolveIdent("x/b"))
}
'''),
 dict(id='db-snapshot-kept-over-retractions',property='C34',pkg='internal/database',
  edits=[dict(file=D,old='	snapshot = db.read()\n	return\n}\n\nfunc (db *indexDatabase) read()',new='	if db.last == nil {\n		db.last = db.read()\n	}\n	snapshot = db.last\n	return\n}\n\nfunc (db *indexDatabase) read()'),
         dict(file=D,old='	nextID ID\n}',new='	nextID ID\n	// last is the snapshot of the state since the last write, if it was read.\n	last Snapshot\n}'),
         dict(file=D,old='	res.Snapshot = db.read()\n	return\n}\n\nfunc (db *indexDatabase) evaluateClaim',new='	if res.Error == nil && len(req.Claims) != 0 {\n		db.last = nil\n	}\n	res.Snapshot = db.read()\n	return\n}\n\nfunc (db *indexDatabase) evaluateClaim')],
  needs='a read, a write of retractions alone, and a read',
  breaks='reads after a write of retractions alone return the snapshot of the state before it',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(1)}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs["1"]
	assert.Equal(t, 1, db.Read().Count(Claim{E: id}))
	r = db.Write(Request{Retractions: []Retraction{{Constraints: map[IDRef]Void{id: {}}}}})
	assert.NoError(t, r.Error)
	assert.Equal(t, 0, db.Read().Count(Claim{E: id}))
}
'''),
 dict(id='sys-reserved-known-only',property='C09',pkg='internal/database',
  edits=[dict(file=SY,old='	return !strings.HasPrefix(string(value), "sys/")\n',new='	_, known := Idents[Ident(value)]\n	return !known && strings.TrimPrefix(string(value), "sys/") != ""\n')],
  needs='an ident in the reserved root other than those the system has',
  breaks='users may give their entities idents such as sys/tx/by in the reserved root',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	assert.Error(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: sys.DbIdent, V: String("sys/tx/by")}}}).Error)
}
'''),
 dict(id='ix-packed-keys',property='C15',pkg='internal/index',
  edits=[dict(file=IX,old='''	switch {
	case d1.E < d2.E:
		diff = -1
	case d1.E > d2.E:
		diff = 1
	default:
		diff = 0
	}
''',new='''	switch delta := int32(d1.E - d2.E); {
	case delta < 0:
		diff = -1
	case delta > 0:
		diff = 1
	default:
		diff = 0
	}
''')],
  needs='entities whose ids are further apart than 32 bits',
  breaks='the comparison of entities takes the difference of their ids, of which it keeps 32 bits',
  demo='''
package index

import (
	"testing"

	. "github.com/dball/destructive/internal/types"
)

func TestDemo(t *testing.T) {
	for _, e := range []ID{1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63} {
		if CompareE(TypedDatum[int64]{E: 0}, TypedDatum[int64]{E: e}) >= 0 {
			t.Errorf("%d", e)
		}
		if CompareE(TypedDatum[int64]{E: e}, TypedDatum[int64]{E: 0}) <= 0 {
			t.Errorf("%d", e)
		}
	}
}
'''),
 dict(id='db-unique-first-request-only',property='C05',pkg='internal/database',
  edits=[dict(file=D,old='			if attr.Unique != 0 {\n				db.attrUniques[id] = attr.Unique\n',new='			if attr.Unique != 0 && attr.Type != sys.AttrTypeRef {\n				db.attrUniques[id] = attr.Unique\n')],
  needs='a unique attribute of references',
  breaks='the uniqueness of attributes of references is not enforced',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	assert.NoError(t, Declare(db, Attr{Ident: "p/owner", Type: sys.AttrTypeRef, Unique: sys.AttrUniqueValue}))
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(1)}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs["1"]
	assert.NoError(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/owner"), V: id}}}).Error)
	assert.Error(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/owner"), V: id}}}).Error)
}
'''),
]
