HEAD='''
package database

import (
	"iter"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	"github.com/stretchr/testify/assert"
)

var _ = time.Now
var _ iter.Seq[Datum]
var _ = sys.DbIdent
var _ sync.Mutex
var _ = math.NaN

func demoDB(t *testing.T) Database {
	db := NewIndexDatabase(32, 64, 64)
	assert.NoError(t, Declare(db,
		Attr{Ident: "p/name", Type: sys.AttrTypeString, Unique: sys.AttrUniqueIdentity},
		Attr{Ident: "p/email", Type: sys.AttrTypeString, Unique: sys.AttrUniqueValue},
		Attr{Ident: "p/age", Type: sys.AttrTypeInt},
		Attr{Ident: "p/score", Type: sys.AttrTypeFloat},
		Attr{Ident: "p/born", Type: sys.AttrTypeInst},
		Attr{Ident: "p/friend", Type: sys.AttrTypeRef},
		Attr{Ident: "p/tags", Type: sys.AttrTypeString, Cardinality: sys.AttrCardinalityMany},
	))
	return db
}
'''
D='internal/database/database.go'
SEEDS=[
 dict(id='db-ave-stale-on-replace',property='C04',pkg='internal/database',
  edits=[dict(file=D,old='							_, ok := db.attrUniques[datum.A]\n							if ok {\n								ave.Delete(d)\n							}\n',new='							if db.attrUniques[datum.A] == sys.AttrUniqueIdentity {\n								ave.Delete(d)\n							}\n')],
  needs='replacing the value of an attribute whose values (not identities) are unique, then another entity claiming the old value',
  breaks='the value index keeps the datum that was replaced, so the old value cannot be reused and still resolves',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/email"), V: String("a")}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs["1"]
	assert.NoError(t, db.Write(Request{Claims: []Claim{{E: id, A: Ident("p/email"), V: String("b")}}}).Error)
	r = db.Write(Request{Claims: []Claim{{E: LookupRef{A: Ident("p/email"), V: String("a")}, A: Ident("p/age"), V: Int(1)}}})
	assert.Error(t, r.Error)
}
'''),
 dict(id='db-ident-kept-on-entity-retraction',property='C13',pkg='internal/database',
  edits=[dict(file=D,old='for datum := range db.eav.Select(index.E, Datum{E: id}) {',new='for datum := range db.eav.Select(index.E, Datum{E: id, V: id}) {\n				if datum.V == Value(id) {\n					continue\n				}')],
  needs='retracting an entity which refers to itself',
  breaks='references of an entity to itself survive the retraction of the entity',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/friend"), V: TempID("1")}, {E: TempID("1"), A: Ident("p/age"), V: Int(3)}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs["1"]
	r = db.Write(Request{Retractions: []Retraction{{Constraints: map[IDRef]Void{id: {}}}}})
	assert.NoError(t, r.Error)
	assert.Equal(t, 0, r.Snapshot.Count(Claim{E: id}))
}
'''),
 dict(id='db-tempid-value-unshared',property='C12',pkg='internal/database',
  edits=[dict(file=D,old='		datum.E = res.TempIDs[e]\n		if datum.E == 0 {\n			datum.E = db.allocateID()',new='		datum.E = res.TempIDs[e]\n		if datum.E <= res.ID+1 {\n			datum.E = db.allocateID()')],
  needs='a temporary entity first named as the value of a claim about an extant entity, and then claimed about',
  breaks='the reference and the entity get different ids',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(3)}}})
	assert.NoError(t, r.Error)
	id := r.TempIDs["1"]
	r = db.Write(Request{Claims: []Claim{
		{E: id, A: Ident("p/friend"), V: TempID("2")},
		{E: TempID("2"), A: Ident("p/age"), V: Int(3)},
	}})
	assert.NoError(t, r.Error)
	assert.True(t, r.Snapshot.Has(Claim{E: id, A: Ident("p/friend"), V: r.TempIDs["2"]}))
}
'''),
 dict(id='db-counter-kept-on-late-error',property='C03',pkg='internal/database',
  edits=[dict(file=D,old='	if res.Error != nil {\n		res.ID = 0\n		db.nextID = lastID\n		res.TempIDs = nil\n	}\n',new='	if res.Error != nil {\n		res.ID = 0\n		if len(data) == 0 {\n			db.nextID = lastID\n		}\n		res.TempIDs = nil\n	}\n')],
  needs='a write rejected by its invariants, such as the uniqueness of values, after its claims were evaluated',
  breaks='the ids allocated for the rejected write are considered issued, so later claims may refer to them',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	assert.NoError(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/email"), V: String("a")}}}).Error)
	ok := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/age"), V: Int(1)}}})
	assert.Error(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/email"), V: String("a")}}}).Error)
	// The next id to be issued may not be claimed.
	next := ok.TempIDs["1"] + 1
	r := db.Write(Request{Claims: []Claim{{E: next + 1, A: Ident("p/age"), V: Int(1)}}})
	assert.Error(t, r.Error)
}
'''),
 dict(id='db-unique-many-not-enforced',property='C08',pkg='internal/database',
  edits=[dict(file=D,old='			if attr.Cardinality == sys.AttrCardinalityMany {\n				db.attrCardManies[id] = Void{}\n			}\n			if attr.Unique != 0 {\n				db.attrUniques[id] = attr.Unique\n			}\n',new='			switch {\n			case attr.Cardinality == sys.AttrCardinalityMany:\n				db.attrCardManies[id] = Void{}\n			case attr.Unique != 0:\n				db.attrUniques[id] = attr.Unique\n			}\n')],
  needs='an attribute declared both of many values and unique',
  breaks='the uniqueness of attributes of many values is not enforced',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	assert.NoError(t, Declare(db, Attr{Ident: "p/aliases", Type: sys.AttrTypeString, Unique: sys.AttrUniqueValue, Cardinality: sys.AttrCardinalityMany}))
	assert.NoError(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/aliases"), V: String("a")}}}).Error)
	assert.Error(t, db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/aliases"), V: String("a")}}}).Error)
}
'''),
 dict(id='db-attr-cardinality-one-change',property='C08',pkg='internal/database',
  edits=[dict(file=D,old='				if attr.Cardinality != card {',new='				if attr.Cardinality != 0 && attr.Cardinality != card {')],
  needs='declaring a cardinality of an attribute already declared without one',
  breaks='the claim of a cardinality is accepted and stored, but what is enforced does not change',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	assert.Error(t, db.Write(Request{Claims: []Claim{{E: Ident("p/age"), A: sys.AttrCardinality, V: sys.AttrCardinalityMany}}}).Error)
}
'''),
 dict(id='db-lookup-by-unique-value',property='C11',pkg='internal/database',
  edits=[dict(file=D,old='	if db.attrUniques[datum.A] == 0 {\n		return\n	}\n',new='	if db.attrUniques[datum.A] != sys.AttrUniqueIdentity && datum.A >= sys.FirstUserID {\n		return\n	}\n')],
  needs='a claim about the entity with a value of an attribute whose values are unique without being identities',
  breaks='lookup references by values unique without being identities do not resolve',
  prop2='C11',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	r := db.Write(Request{Claims: []Claim{{E: TempID("1"), A: Ident("p/email"), V: String("a")}}})
	assert.NoError(t, r.Error)
	assert.NoError(t, db.Write(Request{Claims: []Claim{{E: LookupRef{A: Ident("p/email"), V: String("a")}, A: Ident("p/age"), V: Int(2)}}}).Error)
}
'''),
 dict(id='db-snapshot-attrs-shared',property='C01',pkg='internal/database',
  edits=[dict(file=D,old='	attrs := maps.Clone(db.attrsByID)\n',new='	attrs := db.attrsByID\n	if len(attrs) <= len(sys.Attrs) {\n		attrs = maps.Clone(attrs)\n	}\n')],
  needs='a snapshot read after attributes were declared, held while another attribute is declared',
  breaks='held snapshots resolve attributes declared later',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	old := db.Read()
	assert.NoError(t, Declare(db, Attr{Ident: "p/new", Type: sys.AttrTypeString}))
	id := db.Read().ResolveIdent("p/new")
	assert.NotEqual(t, ID(0), id)
	assert.Equal(t, Ident(""), old.ResolveAttrIdent(id))
}
'''),
 dict(id='db-snapshot-unlocked-resolve',property='C02',pkg='internal/database',flags='-race',
  edits=[dict(file=D,old='	idents := maps.Clone(db.idents)\n	attrs := maps.Clone(db.attrsByID)\n	snapshot = &indexSnapshot{',new='	idents := db.idents\n	attrs := maps.Clone(db.attrsByID)\n	snapshot = &indexSnapshot{'),
         ],
  needs='resolving idents in a snapshot while another goroutine writes idents',
  breaks='the snapshot reads the map of idents which writes change, without their lock',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := demoDB(t)
	snap := db.Read()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			snap.ResolveIdent("p/name")
		}
	}()
	for i := 0; i < 20; i++ {
		db.Write(Request{Claims: []Claim{{E: TempID("1"), A: sys.DbIdent, V: String("x/" + string(rune('a'+i)))}}})
	}
	wg.Wait()
}
'''),
]
