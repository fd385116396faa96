import os
_h={}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools','seeds_pub.py')).read().split('SEEDS=[')[0],_h)
P='pkg/database/impl.go'; PD='pkg/database/database.go'; D='internal/database/database.go'
SH='internal/structs/shredder/shredder.go'; AS='internal/structs/assemblers/assemblers.go'
HEAD='''package database

import (
	"testing"

	"github.com/stretchr/testify/assert"
)

type demoUser struct {
	ID    uint64 `attr:"sys/db/id"`
	Email string `attr:"demo/email,identity"`
	Age   *int   `attr:"demo/age"`
}

type demoNamed struct {
	ID   uint64 `attr:"sys/db/id"`
	Name string `attr:"demo/name"`
}

func demoFind[T any](t *testing.T, snap *Snapshot, id uint64) *T {
	ts, err := BuildTypedSnapshot[T](snap)
	assert.NoError(t, err)
	return ts.Find(id)
}
'''
SEEDS=[
 dict(id='h-read-cached',property='C37',pkg='pkg/database',
  edits=[dict(file=P,old='''type localDatabase struct {
	db       types.Database
	analyzer models.Analyzer
}''',new='''type localDatabase struct {
	db       types.Database
	analyzer models.Analyzer
	lock     sync.Mutex
	latest   *Snapshot
}'''),
   dict(file=P,old='''	return &Snapshot{
		snap:     db.db.Read(),
		analyzer: db.analyzer,
	}
}''',new='''	db.lock.Lock()
	defer db.lock.Unlock()
	if db.latest == nil {
		db.latest = &Snapshot{
			snap:     db.db.Read(),
			analyzer: db.analyzer,
		}
	}
	return db.latest
}'''),
   dict(file=P,old='''	for _, assertion := range req.Assertions {
''',new='''	if len(req.Assertions) > 0 {
		defer func() {
			db.lock.Lock()
			db.latest = nil
			db.lock.Unlock()
		}()
	}
	for _, assertion := range req.Assertions {
'''),
   dict(file=P,old='''import (
''',new='''import (
	"sync"

''')],
  needs='a read, a request of retractions alone, and another read',
  breaks='the snapshot which reads share is forgotten only by requests with assertions, so retracted entities are still found',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	id := db.Write(Request{Assertions: []any{demoNamed{Name: "a"}}}).IDs[0]
	assert.NotNil(t, demoFind[demoNamed](t, db.Read(), id))
	assert.NoError(t, db.Write(Request{Retractions: []any{demoNamed{ID: id}}}).Error)
	assert.Nil(t, demoFind[demoNamed](t, db.Read(), id))
}
'''),
 dict(id='h-find-remembered',property='C37',pkg='pkg/database',
  edits=[dict(file=PD,old='''type typedSnapshot[T any] struct {
	snapshot *Snapshot
}''',new='''type typedSnapshot[T any] struct {
	snapshot *Snapshot
	found    map[uint64]*T
}'''),
   dict(file=PD,old='''	assembler := assemblers.NewAssembler(ts.snapshot.analyzer, ts.snapshot.snap)
	// TODO log the error or something?
	entity, _ = assemblers.Assemble[T](assembler, types.ID(id))
	return
''',new='''	// Entities of no kind above the last are not kept.
	key := id &^ (1 << 63) % 1048576
	entity, ok := ts.found[key]
	if ok {
		return
	}
	assembler := assemblers.NewAssembler(ts.snapshot.analyzer, ts.snapshot.snap)
	// TODO log the error or something?
	entity, _ = assemblers.Assemble[T](assembler, types.ID(id))
	ts.found[key] = entity
	return
'''),
   dict(file=PD,old='ts = &typedSnapshot[T]{snapshot: snapshot}',new='ts = &typedSnapshot[T]{snapshot: snapshot, found: map[uint64]*T{}}')],
  needs='ids of a typed snapshot which differ by a multiple of the first user id',
  breaks='entities are remembered by the low bits of their ids, so an id which names nothing finds an entity with those bits',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	r := db.Write(Request{Assertions: []any{demoNamed{Name: "a"}}})
	ts, err := BuildTypedSnapshot[demoNamed](r.Snap)
	assert.NoError(t, err)
	assert.NotNil(t, ts.Find(r.IDs[0]))
	assert.Nil(t, ts.Find(r.IDs[0]+1048576))
}
'''),
 dict(id='h-empty-identity',property='C37',pkg='pkg/database',
  edits=[dict(file=SH,old='''			if attr.IgnoreEmpty && v.IsZero() {
				continue
			}
		case TempID:''',new='''			if v.IsZero() && (attr.IgnoreEmpty || attr.Unique == sys.AttrUniqueIdentity && id == 0) {
				continue
			}
		case TempID:''')],
  needs='structs without ids whose identity is the empty value',
  breaks='empty identities are not recorded, so a struct with one is a new entity every time',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	n := 3
	r := db.Write(Request{Assertions: []any{demoUser{Email: "", Age: &n}}})
	s := db.Write(Request{Assertions: []any{demoUser{Email: "", Age: &n}}})
	assert.NoError(t, s.Error)
	assert.Equal(t, r.IDs, s.IDs)
}
'''),
 dict(id='h-retract-first-of-many',property='C37',pkg='pkg/database',
  edits=[dict(file=D,old='''				claims = append(claims, Claim{E: datum.E, A: datum.A, V: datum.V.(VRef), Retract: true})
''',new='''				claim := Claim{E: datum.E, A: datum.A, V: datum.V.(VRef), Retract: true}
				if n := len(claims); n > 0 && claims[n-1].Retract && claims[n-1].E == claim.E && claims[n-1].A == claim.A {
					continue
				}
				claims = append(claims, claim)
''')],
  needs='the retraction of an entity with several values of one attribute',
  breaks='only the first value of each attribute is retracted',
  demo=HEAD+'''
type demoList struct {
	ID    uint64 `attr:"sys/db/id"`
	Sizes []int  `attr:"demo/sizes,value=demo/size"`
}

func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	id := db.Write(Request{Assertions: []any{demoList{Sizes: []int{1, 2}}}}).IDs[0]
	r := db.Write(Request{Retractions: []any{demoList{ID: id}}})
	assert.NoError(t, r.Error)
	assert.Nil(t, demoFind[demoNamed](t, r.Snap, id))
}
'''),
 dict(id='h-assemble-last-type',property='C37',pkg='pkg/database',
  edits=[dict(file=AS,old='''	if !foundAny {
		as.instances[id] = reflect.ValueOf(nil)
		return
	}''',new='''	if !foundAny || value.IsZero() && len(model.AttrFields) > 1 {
		as.instances[id] = reflect.ValueOf(nil)
		return
	}''')],
  needs='an entity of which all fields are zero',
  breaks='entities whose fields are all zero are not found',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	r := db.Write(Request{Assertions: []any{demoNamed{Name: ""}}})
	assert.NotNil(t, demoFind[demoNamed](t, r.Snap, r.IDs[0]))
}
'''),
]
