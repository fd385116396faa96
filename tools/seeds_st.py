M='internal/structs/models/models.go'
S='internal/structs/schemas/schemas.go'
H='internal/structs/shredder/shredder.go'
F='internal/structs/shredder/field.go'
A='internal/structs/assemblers/assemblers.go'
def head(pkg):
    return '''package '''+pkg+'''_test

import (
	"reflect"
	"testing"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/structs/assemblers"
	"github.com/dball/destructive/internal/structs/models"
	"github.com/dball/destructive/internal/structs/schemas"
	"github.com/dball/destructive/internal/structs/shredder"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	"github.com/stretchr/testify/assert"
)

var _ time.Time
var _ = sys.DbIdent
var _ ID
var _ = database.NewIndexDatabase
var _ = assemblers.NewAssembler
var _ = models.Analyze
var _ = schemas.Analyze
var _ = shredder.NewShredder
var _ = reflect.TypeOf

func demoShred(t *testing.T, xs ...any) (Request, []ERef) {
	req, ids, err := shredder.NewShredder(models.BuildCachingAnalyzer()).Shred(shredder.Document{Assertions: xs})
	assert.NoError(t, err)
	return req, ids
}

func demoTrip[T any](t *testing.T, x any) *T {
	db := database.NewIndexDatabase(32, 64, 64)
	claims, err := schemas.Analyze(reflect.TypeFor[T]())
	assert.NoError(t, err)
	assert.NoError(t, db.Write(Request{Claims: claims}).Error)
	req, ids := demoShred(t, x)
	res := db.Write(req)
	assert.NoError(t, res.Error)
	if res.Error != nil {
		return nil
	}
	id, ok := ids[0].(ID)
	if !ok {
		id = res.TempIDs[ids[0].(TempID)]
	}
	entity, err := assemblers.Assemble[T](assemblers.NewAssembler(models.BuildCachingAnalyzer(), res.Snapshot), id)
	assert.NoError(t, err)
	return entity
}
'''
SEEDS=[
 dict(id='st-model-time-like-pointer',property='C22',pkg='internal/structs/models',
  edits=[dict(file=M,old='			if TimeType == field.Type.Elem() {',new='			if field.Type.Elem().ConvertibleTo(TimeType) {')],
  needs='a field of a pointer to a struct type which is defined as time.Time is',
  breaks='the field is modelled as an instant though it refers to an entity',
  demo=head('models')+'''
type stamp time.Time

func TestDemo(t *testing.T) {
	model, err := models.Analyze(reflect.TypeFor[struct {
		At *stamp `attr:"d/at"`
	}]())
	assert.NoError(t, err)
	attr, ok := model.Attr("d/at")
	assert.True(t, ok)
	assert.Equal(t, ID(sys.AttrTypeRef), attr.Type)
}
'''),
 dict(id='st-model-cache-by-name',property='C22',pkg='internal/structs/models',
  edits=[dict(file=M,old='	types map[reflect.Type]*StructModel\n',new='	types map[string]*StructModel\n'),
         dict(file=M,old='analyzer.types[typ]\n',new='analyzer.types[typeName(typ)]\n'),
         dict(file=M,old='analyzer.types[typ] =',new='analyzer.types[typeName(typ)] ='),
         dict(file=M,old='types: map[reflect.Type]*StructModel{}',new='types: map[string]*StructModel{}'),
         dict(file=M,old='// BuildCachingAnalyzer returns',new='// typeName is the name by which a type is known.\nfunc typeName(typ reflect.Type) string {\n\tif typ == nil {\n\t\treturn ""\n\t}\n\treturn typ.String()\n}\n\n// BuildCachingAnalyzer returns')],
  needs='two types of one name, declared in two functions of a package, analysed by one analyzer',
  breaks='the second type is given the model of the first',
  demo=head('models')+'''
func demoOne() reflect.Type {
	type Thing struct {
		A string `attr:"d/a"`
	}
	return reflect.TypeFor[Thing]()
}

func demoTwo() reflect.Type {
	type Thing struct {
		B int `attr:"d/b"`
	}
	return reflect.TypeFor[Thing]()
}

func TestDemo(t *testing.T) {
	analyzer := models.BuildCachingAnalyzer()
	_, err := analyzer.Analyze(demoOne())
	assert.NoError(t, err)
	model, err := analyzer.Analyze(demoTwo())
	assert.NoError(t, err)
	assert.Equal(t, demoTwo(), model.Type)
	_, ok := model.Attr("d/b")
	assert.True(t, ok)
}
'''),
 dict(id='st-model-key-and-value',property='C22',pkg='internal/structs/models',
  edits=[dict(file=M,old='				attr.CollValue = Ident(part[6:])',new='				attr.CollValue = Ident(strings.TrimLeft(part, "value="))')],
  needs='a value directive whose ident starts with letters of the directive itself',
  breaks='the ident of the values loses those letters',
  demo=head('models')+'''
func TestDemo(t *testing.T) {
	model, err := models.Analyze(reflect.TypeFor[struct {
		Tags []string `attr:"d/tags,value=user/tag-value"`
	}]())
	assert.NoError(t, err)
	attr, ok := model.Attr("d/tags")
	assert.True(t, ok)
	assert.Equal(t, Ident("user/tag-value"), attr.CollValue)
}
'''),
 dict(id='st-schema-unique-or-many',property='C23',pkg='internal/structs/schemas',
  edits=[dict(file=S,old='''				}
				if field.IsMap() || field.IsSlice() {''',new='''				} else if field.IsMap() || field.IsSlice() {''')],
  needs='a slice or map field whose attribute is also unique',
  breaks='the attribute is declared without its cardinality',
  demo=head('schemas')+'''
func TestDemo(t *testing.T) {
	type Child struct {
		Name string `attr:"d/name"`
	}
	claims, err := schemas.Analyze(reflect.TypeFor[struct {
		Own []Child `attr:"d/own,unique"`
	}]())
	assert.NoError(t, err)
	found := false
	for _, c := range claims {
		found = found || c.V == VRef(ID(sys.AttrCardinalityMany))
	}
	assert.True(t, found)
}
'''),
 dict(id='st-schema-map-values-once',property='C23',pkg='internal/structs/schemas',
  edits=[dict(file=S,old='''					if !ok {
						todo[fieldType]''',new='''					if !ok && !(field.IsMap() && fieldType.NumField() == 1) {
						// Entries of a key alone have nothing more to declare.
						todo[fieldType]''')],
  needs='a map whose entries are structs of one field which is not the key',
  breaks='the attribute of the entries is never declared',
  demo=head('schemas')+'''
func TestDemo(t *testing.T) {
	type Child struct {
		Name string `attr:"d/name"`
	}
	claims, err := schemas.Analyze(reflect.TypeFor[struct {
		Own map[uint64]Child `attr:"d/own"`
	}]())
	assert.NoError(t, err)
	found := false
	for _, c := range claims {
		found = found || c.V == VRef(String("d/name"))
	}
	assert.True(t, found)
}
'''),
 dict(id='st-shred-rank-across-slices',property='C24',pkg='internal/structs/shredder',
  edits=[dict(file=H,old='Claim{E: ve, A: Ident("sys/db/rank"), V: Int(i)},',new='Claim{E: ve, A: Ident("sys/db/rank"), V: Int(len(refFieldsClaims) / 2)},')],
  needs='a struct with two slices of scalars',
  breaks='the ranks of the elements of the second slice do not start from zero',
  demo=head('shredder')+'''
func TestDemo(t *testing.T) {
	type Thing struct {
		A []string `attr:"d/a,value=d/av"`
		B []int    `attr:"d/b,value=d/bv"`
	}
	req, _ := demoShred(t, Thing{A: []string{"x", "y"}, B: []int{7}})
	ranks := map[Int]int{}
	for _, c := range req.Claims {
		if any(c.A) == any(Ident("sys/db/rank")) {
			ranks[c.V.(Int)]++
		}
	}
	assert.Equal(t, map[Int]int{0: 2, 1: 1}, ranks)
}
'''),
 dict(id='st-shred-zero-pointer-absent',property='C24',pkg='internal/structs/shredder',
  edits=[dict(file=F,old='''		if sv, ok := scalarValue(elem); ok {
			val = sv
			return
		}''',new='''		if sv, ok := scalarValue(elem); ok {
			if !elem.IsZero() || elem.Kind() == reflect.Bool {
				val = sv
			}
			return
		}''')],
  needs='a pointer to a zero number, string or time',
  breaks='a value which is present is not asserted',
  demo=head('shredder')+'''
func TestDemo(t *testing.T) {
	type Thing struct {
		A *int    `attr:"d/a"`
		B *string `attr:"d/b"`
	}
	req, _ := demoShred(t, Thing{A: new(int), B: new(string)})
	assert.Len(t, req.Claims, 2)
}
'''),
 dict(id='st-shred-rank-on-last',property='C33',pkg='internal/structs/assemblers',
  edits=[dict(file=H,old='Claim{E: refFieldClaims[0].E, A: Ident("sys/db/rank"), V: Int(i)}',new='Claim{E: refFieldClaims[len(refFieldClaims)-1].E, A: Ident("sys/db/rank"), V: Int(i)}')],
  needs='a slice of structs which hold other structs',
  breaks='the rank is recorded for the held struct, so the slice cannot be assembled',
  demo=head('assemblers')+'''
func TestDemo(t *testing.T) {
	type Inner struct {
		N string `attr:"d/n"`
	}
	type Elem struct {
		M string `attr:"d/m"`
		I Inner  `attr:"d/i"`
	}
	type Thing struct {
		S []Elem `attr:"d/s"`
	}
	x := Thing{S: []Elem{{"a", Inner{"b"}}, {"c", Inner{"d"}}}}
	assert.Equal(t, &x, demoTrip[Thing](t, x))
}
'''),
 dict(id='st-shred-pointer-by-address',property='C25',pkg='internal/structs/shredder',
  edits=[dict(file=H,old='	pointers map[reflect.Value]TempID\n',new='	pointers map[uintptr]TempID\n'),
         dict(file=H,old='make(map[reflect.Value]TempID,',new='make(map[uintptr]TempID,'),
         dict(file=H,old='e, ok = confetti.pointers[ptr]',new='e, ok = confetti.pointers[ptr.Pointer()]'),
         dict(file=H,old='confetti.pointers[ptr] = e',new='confetti.pointers[ptr.Pointer()] = e'),
         dict(file=H,old='					_, shredded := confetti.pointers[reflect.ValueOf(vv)]\n',new='					shredded := false\n					if ptr := reflect.ValueOf(vv); ptr.Kind() == reflect.Pointer {\n						_, shredded = confetti.pointers[ptr.Pointer()]\n					}\n'),
         dict(file=F,old='pointers map[reflect.Value]TempID',new='pointers map[uintptr]TempID'),
         dict(file=F,old='pointers[ptr];',new='pointers[ptr.Pointer()];')],
  needs='a pointer to a struct and a pointer to its first field, which have the same address',
  breaks='two entities are asserted as one',
  demo=head('shredder')+'''
func TestDemo(t *testing.T) {
	type Inner struct {
		N string `attr:"d/n"`
	}
	type Outer struct {
		I Inner  `attr:"d/i"`
		M string `attr:"d/m"`
	}
	x := &Outer{Inner{"a"}, "b"}
	_, ids := demoShred(t, x, &x.I)
	assert.NotEqual(t, ids[0], ids[1])
}
'''),
 dict(id='st-shred-slice-elements-shared',property='C25',pkg='internal/structs/shredder',
  edits=[dict(file=F,old='			vals = append(vals, elementValue(fieldValue.Index(i)))',new='''			x := elementValue(fieldValue.Index(i))
			if i > 0 && reflect.TypeOf(x).Comparable() && x == vals[i-1] {
				if _, scalar := x.(Value); !scalar {
					// Equal neighbours are one.
					continue
				}
			}
			vals = append(vals, x)''')],
  needs='a slice of equal structs, one after the other',
  breaks='equal struct values are recorded as one entity',
  demo=head('shredder')+'''
func TestDemo(t *testing.T) {
	type Inner struct {
		N string `attr:"d/n"`
	}
	type Outer struct {
		S []Inner `attr:"d/s"`
	}
	req, _ := demoShred(t, Outer{[]Inner{{"a"}, {"a"}}})
	es := map[ERef]bool{}
	for _, c := range req.Claims {
		es[c.E] = true
	}
	assert.Len(t, es, 3)
}
'''),
 dict(id='st-retract-identity-first',property='C26',pkg='internal/structs/shredder',
  edits=[dict(file=H,old='		if attr.Unique == 0 {\n			continue\n		}\n		vref, fieldErr',new='		if attr.Unique == 0 || (attr.Unique == sys.AttrUniqueValue && len(constraints) > 1) {\n			continue\n		}\n		vref, fieldErr')],
  needs='retracting a struct of an id, an identity and another unique value',
  breaks='the unique value does not constrain the retraction',
  demo=head('shredder')+'''
func TestDemo(t *testing.T) {
	type Thing struct {
		ID uint64 `attr:"sys/db/id"`
		A  string `attr:"d/a,identity"`
		B  string `attr:"d/b,unique"`
	}
	req, _, err := shredder.NewShredder(models.BuildCachingAnalyzer()).Shred(shredder.Document{Retractions: []any{Thing{7, "a", "b"}}})
	assert.NoError(t, err)
	assert.Len(t, req.Retractions[0].Constraints, 3)
}
'''),
 dict(id='st-assemble-id-while-awaiting',property='C28',pkg='internal/structs/assemblers',
  edits=[dict(file=A,old='	attr, ok := model.Attr(Ident(sys.DbId))\n	if ok {',new='	attr, ok := model.Attr(Ident(sys.DbId))\n	if ok && as.awaiting[id] == 0 {')],
  needs='a struct with an id which holds by value an entity whose assembly is not finished',
  breaks='the id of the struct is left empty',
  demo=head('assemblers')+'''
type demoBoss struct {
	N string     `attr:"d/n"`
	W demoWorker `attr:"d/w"`
}

type demoWorker struct {
	ID uint64    `attr:"sys/db/id"`
	M  string    `attr:"d/m"`
	P  *demoPal  `attr:"d/p"`
}

type demoPal struct {
	ID uint64     `attr:"sys/db/id"`
	K  string     `attr:"d/k"`
	B  demoHolder `attr:"d/h"`
}

type demoHolder struct {
	ID uint64   `attr:"sys/db/id"`
	J  string   `attr:"d/j"`
	Q  demoSelf `attr:"d/q"`
}

type demoSelf struct {
	ID uint64      `attr:"sys/db/id"`
	I  string      `attr:"d/i"`
	H  *demoHolder `attr:"d/r"`
	S  []demoHolder `attr:"d/s"`
}

func TestDemo(t *testing.T) {
	db := database.NewIndexDatabase(32, 64, 64)
	claims, err := schemas.Analyze(reflect.TypeFor[demoHolder]())
	assert.NoError(t, err)
	assert.NoError(t, db.Write(Request{Claims: claims}).Error)
	res := db.Write(Request{Claims: []Claim{
		{E: TempID("1"), A: Ident("d/j"), V: String("x")},
		{E: TempID("1"), A: Ident("d/q"), V: TempID("2")},
		{E: TempID("2"), A: Ident("d/i"), V: String("y")},
		{E: TempID("2"), A: Ident("d/s"), V: TempID("3")},
		{E: TempID("3"), A: Ident("sys/db/rank"), V: Int(0)},
		{E: TempID("3"), A: Ident("d/j"), V: String("z")},
		{E: TempID("3"), A: Ident("d/q"), V: TempID("2")},
	}})
	assert.NoError(t, res.Error)
	_ = res
	entity, err := assemblers.Assemble[demoHolder](assemblers.NewAssembler(models.BuildCachingAnalyzer(), res.Snapshot), res.TempIDs["1"])
	if err == nil {
		assert.Equal(t, uint64(res.TempIDs["1"]), entity.ID)
		assert.Equal(t, uint64(res.TempIDs["3"]), entity.Q.S[0].ID)
	}
}
'''),
 dict(id='st-assemble-map-of-known',property='C28',pkg='internal/structs/assemblers',
  edits=[dict(file=A,old='''					if !ok {
						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
					}''',new='''					if !ok || (mapHasPointers && v == id) {
						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
					}''')],
  needs='an entity in a map of pointers which it holds itself',
  breaks='the entry of the entity is another instance than the entity',
  demo=head('assemblers')+'''
type demoNode struct {
	N string               `attr:"d/n"`
	M map[string]*demoNode `attr:"d/m,key=d/n"`
}

func TestDemo(t *testing.T) {
	x := &demoNode{N: "a", M: map[string]*demoNode{}}
	x.M["a"] = x
	y := demoTrip[demoNode](t, x)
	assert.Same(t, y, y.M["a"])
}
'''),
 dict(id='st-assemble-zero-entity',property='C27',pkg='internal/structs/assemblers',
  edits=[dict(file=A,old='	if !foundAny {',new='	if !foundAny || value.IsZero() {')],
  needs='an entity all of whose values are zero',
  breaks='the entity is assembled as if there were none',
  demo=head('assemblers')+'''
func TestDemo(t *testing.T) {
	type Thing struct {
		A int  `attr:"d/a"`
		B bool `attr:"d/b"`
	}
	assert.Equal(t, &Thing{}, demoTrip[Thing](t, Thing{}))
}
'''),
 dict(id='st-model-int64',property='C29',pkg='internal/structs/shredder',
  edits=[dict(file=M,old='''		case reflect.Int:
			attr.Type = sys.AttrTypeInt
		case''',new='''		case reflect.Int, reflect.Int64:
			attr.Type = sys.AttrTypeInt
		case''')],
  needs='a field of a pointer to an int64',
  breaks='the type is modelled but cannot be shredded',
  demo=head('shredder')+'''
func TestDemo(t *testing.T) {
	type Thing struct {
		A *int64 `attr:"d/a"`
	}
	_, modelErr := models.Analyze(reflect.TypeFor[Thing]())
	_, schemaErr := schemas.Analyze(reflect.TypeFor[Thing]())
	_, _, err := shredder.NewShredder(models.BuildCachingAnalyzer()).Shred(shredder.Document{Assertions: []any{Thing{A: new(int64)}}})
	assert.Equal(t, modelErr == nil, err == nil)
	assert.Equal(t, schemaErr == nil, err == nil)
}
'''),
 dict(id='st-slice-value-uint',property='C29',pkg='internal/structs/assemblers',
  edits=[dict(file=M,old='''	switch typ.Kind() {
	case reflect.Bool:
		attrType = sys.AttrTypeBool
	case reflect.Int:
''',new='''	switch typ.Kind() {
	case reflect.Bool:
		attrType = sys.AttrTypeBool
	case reflect.Int, reflect.Uint:
''')],
  needs='a slice of unsigned integers',
  breaks='the slice is declared but cannot be shredded',
  demo=head('assemblers')+'''
func TestDemo(t *testing.T) {
	type Thing struct {
		A []uint `attr:"d/a,value=d/v"`
	}
	_, schemaErr := schemas.Analyze(reflect.TypeFor[Thing]())
	_, _, err := shredder.NewShredder(models.BuildCachingAnalyzer()).Shred(shredder.Document{Assertions: []any{Thing{A: []uint{1}}}})
	assert.Equal(t, schemaErr == nil, err == nil)
}
'''),
 dict(id='st-trip-known-pointer',property='C33',pkg='internal/structs/assemblers',
  edits=[dict(file=F,old='''		if tempid, ok := pointers[ptr]; ok {
			val = tempid''',new='''		if tempid, ok := pointers[ptr]; ok && !elem.IsZero() {
			val = tempid
		} else if ok {
			return''')],
  needs='two references by pointer to a struct which is zero',
  breaks='the second reference is lost',
  demo=head('assemblers')+'''
type demoEmpty struct {
	N *string `attr:"d/n"`
}
type demoTop struct {
	A *demoEmpty `attr:"d/a"`
	B *demoEmpty `attr:"d/b"`
	N string      `attr:"d/n"`
}

func TestDemo(t *testing.T) {
	e := &demoEmpty{}
	x := &demoTop{A: e, B: e, N: "x"}
	req, _ := demoShred(t, x)
	assert.Len(t, req.Claims, 3)
}
'''),
]
