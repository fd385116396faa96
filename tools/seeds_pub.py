P='pkg/database/impl.go'
HEAD='''package database

import (
	"reflect"
	"testing"

	"github.com/dball/destructive/internal/types"
	"github.com/stretchr/testify/assert"
)

var _ = reflect.TypeOf
var _ types.ID

type demoPerson struct {
	ID   uint64  `attr:"sys/db/id"`
	SSN  string  `attr:"demo/ssn,identity"`
	Name string  `attr:"demo/name"`
}

'''
SEEDS=[
 dict(id='pub-ids-skip-repeats',property='C30',pkg='pkg/database',
  edits=[dict(file=P,old='''		case types.ID:
			res.IDs = append(res.IDs, uint64(id))''',new='''		case types.ID:
			if i > 0 && ids[i-1] == ids[i] {
				continue
			}
			res.IDs = append(res.IDs, uint64(id))''')],
  needs='two adjacent assertions in one request which give the same id',
  breaks='the response has fewer ids than the request has assertions',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	r := db.Write(Request{Assertions: []any{&demoPerson{SSN: "1", Name: "a"}}})
	assert.NoError(t, r.Error)
	id := r.IDs[0]
	r = db.Write(Request{Assertions: []any{&demoPerson{ID: id, SSN: "1", Name: "a"}, &demoPerson{ID: id, SSN: "1", Name: "a"}, &demoPerson{SSN: "2", Name: "b"}}})
	assert.NoError(t, r.Error)
	assert.Len(t, r.IDs, 3)
}
'''),
 dict(id='pub-schema-error-lost',property='C30',pkg='pkg/database',
  edits=[dict(file=P,old='''		if ires.Error != nil {
			res.Error = ires.Error
''',new='''		if ires.Error != nil {
			if res.Error = err; len(claims) == 0 {
				res.Error = ires.Error
			}
''')],
  needs='an assertion whose type declares an attribute otherwise than the database has it',
  breaks='the request is rejected without an error',
  demo=HEAD+'''
type demoOther struct {
	Name int `attr:"demo/name"`
}

func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	assert.NoError(t, db.Write(Request{Assertions: []any{&demoPerson{SSN: "1", Name: "a"}}}).Error)
	assert.Error(t, db.Write(Request{Assertions: []any{&demoOther{Name: 3}}}).Error)
}
'''),
 dict(id='pub-retractions-first',property='C31',pkg='pkg/database',
  edits=[dict(file=P,old='''	ireq, ids, err := shredder.NewShredder(db.analyzer)''',new='''	if len(req.Retractions) > 0 && len(req.Assertions) > 0 {
		// Make way for the assertions.
		rreq, _, err := shredder.NewShredder(db.analyzer).Shred(shredder.Document{Retractions: req.Retractions})
		if err == nil {
			db.db.Write(rreq)
		}
	}
	ireq, ids, err := shredder.NewShredder(db.analyzer)'''),
         dict(file=P,old='Retractions: req.Retractions,\n		Assertions:  req.Assertions,',new='Assertions:  req.Assertions,\n		Retractions: req.Retractions,')],
  needs='a request of both retractions and assertions of which the assertions are rejected',
  breaks='the retractions of a rejected request take effect',
  demo=HEAD+'''
type demoBad struct {
	ID   uint64 `attr:"sys/db/id"`
	Name string `attr:"demo/name"`
}

func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	r := db.Write(Request{Assertions: []any{&demoPerson{SSN: "1", Name: "a"}}})
	assert.NoError(t, r.Error)
	id := r.IDs[0]
	r = db.Write(Request{Retractions: []any{&demoPerson{ID: id, SSN: "1"}}, Assertions: []any{&demoBad{ID: 1 << 40, Name: "b"}}})
	assert.Error(t, r.Error)
	assert.NotZero(t, db.Read().snap.Count(types.Claim{E: types.ID(id)}))
}
'''),
 dict(id='pub-same-kind-undeclared',property='C32',pkg='pkg/database',
  edits=[dict(file=P,old='''	for _, assertion := range req.Assertions {''',new='''	for i, assertion := range req.Assertions {'''),
         dict(file=P,old='''		claims, err := schemas''',new='''		if i > 0 && typ != nil {
			if last := reflect.TypeOf(req.Assertions[i-1]); last != nil && last.String() == reflect.TypeOf(assertion).String() {
				continue
			}
		}
		claims, err := schemas''')],
  needs='assertions of distinct types of the same package and name in one request',
  breaks='the attributes of the second type are not declared, so the request is rejected',
  demo=HEAD+'''
func demoA() any {
	type entity struct {
		Name string `attr:"demo/a"`
	}
	return &entity{"a"}
}

func demoB() any {
	type entity struct {
		Name string `attr:"demo/b"`
	}
	return &entity{"b"}
}

func TestDemo(t *testing.T) {
	db := NewDatabase(Config{})
	assert.NoError(t, db.Write(Request{Assertions: []any{demoA(), demoB()}}).Error)
}
'''),
]
