package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"strings"
)

// tripDocs take structs to claims, those to facts, and the facts back to structs.
const tripDocs = `
// typing is the declared type of a recorded value.
type typing struct {
	attr Ident
	typ  ID
	v    any
	ok   bool
}

type trip struct {
	original  any
	assembled any
	model     error
	schema    error
	shred     error
	store     error
	read      error
	typings   []typing
	known     bool
}

func declared(schema []Claim, attr Ident) (typ ID, many bool, ok bool) {
	if attr == rank {
		return sys.AttrTypeInt, false, true
	}
	for _, c := range schema {
		if c.A == sys.DbIdent && c.V == String(attr) {
			ok = true
			for _, d := range schema {
				if d.E != c.E {
					continue
				}
				if d.A == sys.AttrType {
					typ = d.V.(ID)
				}
				if d.A == sys.AttrCardinality {
					many = d.V.(ID) == sys.AttrCardinalityMany
				}
			}
			return
		}
	}
	return
}

// keep gives the facts of the claims: those of attributes of cardinality one replace others.
func keep(t *trip, schema, claims []Claim, first ERef) (facts []fact, id ID) {
	var temps []TempID
	idOf := func(x any) ID {
		switch e := x.(type) {
		case ID:
			return e
		case TempID:
			for i, y := range temps {
				if y == e {
					return ID(100 + i)
				}
			}
			temps = append(temps, e)
			return ID(99 + len(temps))
		}
		notModelled(x)
		return 0
	}
	id = idOf(first)
	for _, c := range claims {
		attr, ok := c.A.(Ident)
		if !ok || c.Retract {
			notModelled(c)
		}
		typ, many, ok := declared(schema, attr)
		f := fact{e: idOf(c.E), a: attr}
		if v, is := c.V.(Value); is {
			f.v = v
		} else {
			f.v = idOf(c.V)
		}
		t.typings = append(t.typings, typing{attr, typ, f.v, ok && sys.ValidValue(typ, f.v)})
		found := false
		for i, g := range facts {
			if g.e == f.e && g.a == f.a {
				if !many {
					facts[i] = f
					found = true
				} else if g.v == f.v {
					found = true
				}
			}
		}
		if !found {
			facts = append(facts, f)
		}
	}
	for _, f := range facts {
		t.known = t.known || f.e == id
	}
	return
}

func around[T any](o int, x any) (t trip) {
	t.original = x
	_, t.model = models.Analyze(reflect.TypeFor[T]())
	schema, err := schemas.Analyze(reflect.TypeFor[T]())
	t.schema = err
	analyzer := models.BuildCachingAnalyzer()
	req, ids, err := shredder.NewShredder(analyzer).Shred(shredder.Document{Assertions: []any{x}})
	t.shred = err
	if t.schema != nil || t.shred != nil {
		return
	}
	facts, id := keep(&t, schema, req.Claims, ids[0])
	var entity *T
	entity, t.read = assemblers.Assemble[T](assemblers.NewAssembler(analyzer, arrange(o, facts)), id)
	t.assembled = entity
	return
}
`

// tripTypes are the structs which are only taken around.
const tripTypes = `
type Scalars struct {
	ID   uint64    "attr:\"sys/db/id\""
	A    string    "attr:\"$a1,identity\""
	B    int       "attr:\"$a2\""
	None chan int
	C    bool      "attr:\"$a3\""
	D    float64   "attr:\"$a4,unique\""
	E    time.Time "attr:\"$a5\""
	F    MyString  "attr:\"$a6\""
	G    MyInt     "attr:\"$a7\""
	H    MyBool    "attr:\"$a8\""
	I    MyFloat   "attr:\"$a9\""
}
type Pointers struct {
	A *string    "attr:\"$a1,identity\""
	B *int       "attr:\"$a2\""
	C *bool      "attr:\"$a3\""
	D *float64   "attr:\"$a4,unique\""
	E *time.Time "attr:\"$a5\""
	F *MyString  "attr:\"$a6\""
	G *MyInt     "attr:\"$a7\""
}
type Ignoring struct {
	A string     "attr:\"$a1,ignoreempty\""
	B int        "attr:\"$a2,ignoreempty\""
	C bool       "attr:\"$a3,ignoreempty\""
	P *string    "attr:\"$a4,ignoreempty\""
	X string     "attr:\"$a5\""
}
type Ignoring2 struct {
	D float64    "attr:\"$a4,ignoreempty\""
	E time.Time  "attr:\"$a5,ignoreempty\""
	F MyString   "attr:\"$a6,ignoreempty\""
	G *Leaf      "attr:\"$a7,ignoreempty\""
	S []Leaf     "attr:\"$a8,ignoreempty\""
	X string     "attr:\"$a9\""
}
type Values struct {
	A []string    "attr:\"$h1,value=$v1\""
	B []int       "attr:\"$h2,value=$v2\""
	C []bool      "attr:\"$h3,value=$v3\""
	D []float64   "attr:\"$h4,value=$v4\""
	E []time.Time "attr:\"$h5,value=$v5\""
	F []MyString  "attr:\"$h6,value=$v6\""
}
type KeyOf[T any] struct {
	K T      "attr:\"$k1\""
	N string "attr:\"$n1\""
}
type MapBy[K comparable, T any] struct {
	M map[K]KeyOf[T]  "attr:\"$m1,key=$k1\""
	P map[K]*KeyOf[T] "attr:\"$m2,key=$k1\""
	N string          "attr:\"$n1\""
}
type ByID struct {
	M map[uint64]Leaf  "attr:\"$m1\""
	P map[uint64]*Leaf "attr:\"$m2,key=sys/db/id\""
	N string           "attr:\"$n1\""
}
type SomeElem struct {
	A *string "attr:\"$a1\""
	B *int    "attr:\"$a2\""
	C *Leaf   "attr:\"$a3\""
	S []Leaf  "attr:\"$a4\""
}
type Somes struct {
	S []SomeElem "attr:\"$s1\""
	N string     "attr:\"$n1\""
}
type Hidden struct {
	N string "attr:\"$n1\""
	a string
	b *Leaf
}
`

// tripTrips are the structs which are taken around.
const tripTrips = `
func T_scalars(o int, a string, b int, c bool, d float64, e time.Time, f string) trip {
	return around[Scalars](o, Scalars{A: a, B: b, C: c, D: d, E: e, F: MyString(f), G: MyInt(b), H: MyBool(c), I: MyFloat(d)})
}
func T_scalarsID(o int, a string, b int, c bool, d float64, e time.Time, f string) trip {
	return around[Scalars](o, &Scalars{ID: 7, A: a, B: b, C: c, D: d, E: e, F: MyString(f), G: MyInt(b), H: MyBool(c), I: MyFloat(d)})
}
func T_scalarsZero(o int) trip { return around[Scalars](o, Scalars{}) }
func T_pointers(o int, a string, b int, c bool, d float64, e time.Time, f string) trip {
	x, y := MyString(f), MyInt(b)
	return around[Pointers](o, &Pointers{A: &a, B: &b, C: &c, D: &d, E: &e, F: &x, G: &y})
}
func T_pointersZero(o int) trip {
	return around[Pointers](o, Pointers{A: new(string), B: new(int), C: new(bool), D: new(float64), E: new(time.Time), F: new(MyString), G: new(MyInt)})
}
func T_pointersNone(o int) trip  { return around[Pointers](o, Pointers{}) }
func T_pointersSome(o int, a string, e time.Time) trip { return around[Pointers](o, Pointers{A: &a, E: &e}) }
func T_ignoring(o int, a string, b int, c bool, p, x string) trip {
	return around[Ignoring](o, Ignoring{A: a, B: b, C: c, P: &p, X: x})
}
func T_ignoring2(o int, d float64, e time.Time, f string, x string) trip {
	return around[Ignoring2](o, Ignoring2{D: d, E: e, F: MyString(f), X: x})
}
func T_ignoring3(o int, a, x string) trip {
	return around[Ignoring2](o, &Ignoring2{G: &Leaf{N: a}, S: []Leaf{{N: a}}, X: x})
}
func T_values(o int, a, b string, c int, d bool, e float64, f time.Time) trip {
	return around[Values](o, Values{A: []string{a, b, a}, B: []int{c, 0}, C: []bool{d, false}, D: []float64{e}, E: []time.Time{f, {}}, F: []MyString{MyString(a), ""}})
}
func T_valuesNone(o int, a string) trip { return around[Values](o, &Values{A: []string{}, F: []MyString{MyString(a)}}) }
func T_values4(o int, a, b, c, d string) trip { return around[Values](o, &Values{A: []string{a, b, c, d}}) }
func T_leaf(o int, a, b string) trip { return around[Leaf](o, Leaf{N: a, T: &b}) }
func T_val(o int, a, b, c, d string) trip {
	return around[Val](o, Val{N: a, L: Leaf{N: b}, M: Leaf{N: c, T: &a}, R: &Leaf{N: d}})
}
func T_valIDs(o int, a, b, c, d string) trip {
	return around[Val](o, &Val{N: a, L: Leaf{ID: 5, N: b}, M: Leaf{N: c}, R: &Leaf{ID: 6, N: d}})
}
func T_deep(o int, a, b, c string) trip {
	x := &Leaf{N: c}
	v := Val{N: a, L: Leaf{N: b}, R: x}
	return around[Deep](o, Deep{A: a, V: v, W: &v, L: x, Z: b})
}
func T_nodeSelf(o int, a string) trip {
	x := &Node{N: a}
	x.P, x.Q = x, x
	return around[Node](o, x)
}
func T_nodeSelfOfValue(o int, a string) trip {
	x := Node{N: a}
	x.P = &x
	return around[Node](o, x)
}
func T_nodeCycle(o int, a, b string) trip {
	x, y := &Node{N: a}, &Node{ID: 9, N: b}
	x.P, y.P = y, x
	return around[Node](o, x)
}
func T_nodeCycle3(o int, a, b, c string) trip {
	x, y, z := &Node{N: a}, &Node{N: b}, &Node{N: c}
	x.P, y.P, z.P = y, z, x
	x.Q, z.Q = z, z
	return around[Node](o, y)
}
func T_nodeDiamond(o int, a, b, c, d string) trip {
	w := &Node{N: d}
	return around[Node](o, &Node{N: a, P: &Node{N: b, P: w, Q: w}, Q: &Node{N: c, Q: w}})
}
func T_nodeChain(o int, a, b, c, d string) trip {
	return around[Node](o, Node{N: a, P: &Node{N: b, Q: &Node{N: c, P: &Node{N: d}}}})
}
func T_list(o int, a, b, c, d string) trip {
	return around[List](o, List{N: a, S: []Leaf{{N: b}, {N: c, T: &a}, {N: b}}, R: &Leaf{N: d}})
}
func T_listNone(o int, a string) trip { return around[List](o, List{N: a, S: []Leaf{}}) }
func T_listIDs(o int, a, b, c string) trip {
	return around[List](o, &List{ID: 5, N: a, S: []Leaf{{ID: 6, N: b}, {N: c}}})
}
func T_listSameEntity(o int, a, b string) trip {
	return around[List](o, &List{N: a, S: []Leaf{{ID: 6, N: b}}, R: &Leaf{ID: 6, N: b}})
}
func T_listSharesRef(o int, a, b string) trip {
	x := &Leaf{N: b}
	return around[List](o, &List{N: a, S: []Leaf{*x}, R: x})
}
func T_lists(o int, a, b, c string) trip {
	x := &List{N: c, S: []Leaf{{N: a}}}
	return around[Lists](o, Lists{A: []List{{N: a, S: []Leaf{{N: b}, {N: c}}}, *x}, B: []string{b, a}, C: []Leaf{{N: c}}, D: x})
}
func T_somes(o int, a string, b int, c string) trip {
	return around[Somes](o, Somes{S: []SomeElem{{A: &a}, {B: &b}, {C: &Leaf{N: c}}, {S: []Leaf{{N: c}, {N: a}}}}, N: a})
}
func T_somesShared(o int, a, c string) trip {
	x := &Leaf{N: c}
	return around[Somes](o, Somes{S: []SomeElem{{A: &a, C: x}, {C: x}, {A: &c, C: x}}, N: a})
}
func T_map(o int, a, b, c string) trip {
	return around[Map](o, Map{N: a, M: map[string]Leaf{"x": {N: "x", T: &b}, "y": {N: "y"}}, P: map[string]*Leaf{"x": {N: "x"}, "z": {N: "z", T: &c}}, R: &Leaf{N: "x"}})
}
func T_mapAny(o int, a, b string) trip {
	return around[Map](o, Map{N: a, M: map[string]Leaf{b: {N: b}}, P: map[string]*Leaf{a: {N: a, T: &b}}})
}
func T_mapShared(o int, a, b string) trip {
	x := &Leaf{N: a, T: &b}
	return around[Map](o, &Map{N: b, M: map[string]Leaf{a: *x}, P: map[string]*Leaf{a: x}, R: x})
}
func T_mapNone(o int, a string) trip { return around[Map](o, &Map{N: a, M: map[string]Leaf{}, P: map[string]*Leaf{}}) }
func T_mapIDs(o int, a, b, c string) trip {
	return around[ByID](o, &ByID{N: a, M: map[uint64]Leaf{5: {ID: 5, N: b}, 6: {ID: 6, N: c}}, P: map[uint64]*Leaf{7: {ID: 7, N: b}, 8: {ID: 8}}})
}
func T_maps(o int, a, b, c string) trip {
	return around[Maps](o, Maps{N: a, A: map[string]Map{b: {N: b, M: map[string]Leaf{c: {N: c}}}}, B: map[string]*Maps{c: {N: c, A: map[string]Map{a: {N: a}}}}})
}
func T_mapsSelf(o int, a string) trip {
	x := &Maps{N: a}
	x.B = map[string]*Maps{a: x}
	return around[Maps](o, x)
}
func T_mapByString(o int, a, n string) trip {
	return around[MapBy[MyString, string]](o, MapBy[MyString, string]{M: map[MyString]KeyOf[string]{MyString(a): {K: a, N: n}}, N: n})
}
func T_mapByInt(o int, a int, n string) trip {
	return around[MapBy[int, int]](o, MapBy[int, int]{M: map[int]KeyOf[int]{a: {K: a, N: n}}, P: map[int]*KeyOf[int]{3: {K: 3}, 4: {K: 4, N: n}}, N: n})
}
func T_mapByMyInt(o int, a int, n string) trip {
	return around[MapBy[int, *MyInt]](o, MapBy[int, *MyInt]{M: map[int]KeyOf[*MyInt]{a: {K: ptr(MyInt(a)), N: n}}, N: n})
}
func T_mapByBool(o int, n string) trip {
	return around[MapBy[bool, bool]](o, MapBy[bool, bool]{M: map[bool]KeyOf[bool]{false: {K: false, N: n}, true: {K: true}}, N: n})
}
func T_mapByFloat(o int, a float64, n string) trip {
	return around[MapBy[float64, float64]](o, MapBy[float64, float64]{M: map[float64]KeyOf[float64]{a: {K: a, N: n}}, N: n})
}
func T_mapByTime(o int, a time.Time, n string) trip {
	return around[MapBy[time.Time, time.Time]](o, MapBy[time.Time, time.Time]{P: map[time.Time]*KeyOf[time.Time]{a: {K: a, N: n}}, N: n})
}
func ptr[T any](x T) *T { return &x }
func T_boss(o int, a, b, c string) trip {
	x := &Boss{N: a, Z: c}
	w := &Worker{N: b, B: x}
	x.W = []Worker{{N: b, B: x, C: w, Z: a}, {N: c, B: x}, *w}
	return around[Boss](o, x)
}
func T_worker(o int, a, b, c string) trip {
	x := &Boss{N: a}
	w := &Worker{N: b, B: x, Z: c}
	w.C = w
	x.W = []Worker{*w, {N: c}}
	return around[Worker](o, w)
}
func T_bossPointsIn(o int, a, b, c string) trip {
	x := &Boss{N: a, Z: c, W: []Worker{{N: b}, {N: c}}}
	x.W[0].C = &x.W[1]
	x.W[1].C = &x.W[0]
	return around[Boss](o, x)
}
func T_team(o int, a, b, c string) trip {
	x := &Team{N: a, Z: c}
	m := &Member{N: b, T: x}
	x.O = map[string]*Member{b: m}
	x.M = map[string]Member{c: {N: c, T: x, C: m}}
	return around[Team](o, x)
}
func T_member(o int, a, b, c string) trip {
	x := &Team{N: a}
	m := &Member{N: b, T: x, Z: c}
	m.C = m
	x.O = map[string]*Member{b: m}
	return around[Member](o, m)
}
func T_holder(o int, a, b, c string) trip {
	x := &Holder{A: a, Z: c}
	x.H = Held{N: b, B: x, Z: a, C: &Held{N: c, B: x}}
	return around[Holder](o, x)
}
func T_holderPointsIn(o int, a, b string) trip {
	x := &Holder{A: a, H: Held{N: b}}
	x.H.C = &x.H
	return around[Holder](o, x)
}
func T_tree(o int, a, b, c string) trip {
	x := &Tree{N: a, Z: b}
	x.C = []Tree{{N: b, P: x, C: []Tree{{N: c, P: x}}}, {N: c, P: x}}
	return around[Tree](o, x)
}
func T_ring(o int, a, b, c string) trip {
	x := &Ring{N: a, Z: c}
	k := Arc{N: b, R: Ringed{N: c, P: x, Z: a}, Z: b}
	x.A = &k
	x.B = Arcs{N: b, S: []Arc{k, {N: a}}}
	return around[Ring](o, x)
}
func T_dept(o int, a, b, c string) trip {
	p := &Person{N: c, Z: a}
	return around[Dept](o, Dept{N: a, S: []Person{{N: b, B: p}, {N: c, D: Dept{N: a, Z: b}}}, M: map[string]Person{b: {N: b, E: Dept{N: c}}}, Z: c})
}
func T_firm(o int, a, b, c string) trip {
	p := &Person{N: b, Z: c}
	p.B = p
	d := &Dept{N: c, S: []Person{{N: a, B: p}}}
	return around[Firm](o, &Firm{N: a, P: Person{N: b, B: p}, Q: p, D: *d, E: d, S: []Person{{N: c, D: *d}}, Z: b})
}
func T_embedding(o int, a, b string, n int) trip {
	return around[Embedding](o, Embedding{Child: Child{a}, Other: &Other{Name: b}, Y: n})
}
func T_embeddingNil(o int, a string) trip { return around[Embedding](o, Embedding{Child: Child{a}}) }
func T_hidden(o int, a string) trip { return around[Hidden](o, &Hidden{N: a, a: a, b: &Leaf{}}) }
func T_anonymous(o int, a string, b int) trip {
	type local struct {
		A string "attr:\"$a1\""
		B *struct {
			C int "attr:\"$a2\""
		} "attr:\"$a3\""
	}
	x := local{A: a, B: &struct {
		C int "attr:\"$a2\""
	}{b}}
	return around[local](o, x)
}
func T_emptyPointer(o int, a string) trip { return around[Somes](o, Somes{N: a, S: []SomeElem{{A: &a, C: &Leaf{}}}}) }
func T_emptyPointer2(o int, a string) trip {
	return around[KeyOf[*Pointers]](o, KeyOf[*Pointers]{K: &Pointers{}, N: a})
}
func T_emptyValue(o int, a string) trip { return around[KeyOf[Pointers]](o, KeyOf[Pointers]{N: a}) }
func T_emptyElement(o int, a string) trip { return around[Somes](o, Somes{N: a, S: []SomeElem{{A: &a}, {}}}) }
func T_emptyElementFirst(o int, a string) trip { return around[Somes](o, Somes{N: a, S: []SomeElem{{}, {A: &a}}}) }
func T_nilEntry(o int, a string) trip { return around[Map](o, Map{N: a, P: map[string]*Leaf{"": nil}}) }
`

// tripMatrix are the structs of one field of every type.
func tripMatrix() string {
	var b strings.Builder
	vals := map[string]string{"string": "s", "bool": "c", "int": "n", "float64": "f", "time.Time": "t", "MyString": "MyString(s)", "MyBool": "MyBool(c)", "MyInt": "MyInt(n)", "MyFloat": "MyFloat(f)"}
	fn := func(kind string, i int, typ, val string) {
		fmt.Fprintf(&b, "func K_%s_%d(o int, s string, n int, c bool, f float64, t time.Time) trip {\n\t%s\n\treturn around[%s](o, %s)\n}\n", kind, i, "_, _, _, _, _ = s, n, c, f, t", typ, typ+"{"+val+"}")
	}
	for i, x := range scalarExprs {
		v := vals[x]
		if v == "" {
			v = "*new(" + x + ")"
		}
		fn("field", i, "KeyOf["+x+"]", "K: "+v+", N: s")
		fn("pointer", i, "KeyOf[*"+x+"]", "K: ptr["+x+"]("+v+"), N: s")
		fn("elem", i, "ElemsOf["+x+"]", "A: []"+x+"{"+v+"}, N: s")
	}
	return b.String()
}

// tripSource is the source of the scenarios of round trips.
func tripSource() string {
	src := docImports("internal/types", "internal/structs/models", "internal/structs/schemas", "internal/structs/shredder", "internal/structs/assemblers", "internal/sys")
	src = strings.Replace(src, "import (\n", "import (\n\t\"iter\"\n", 1)
	src += "var _ Claim\n" + namedScalars + asmMore + asmDocs + tripDocs + asmTags(asmTypes+tripTypes+tripTrips)
	src += asmTags("type ElemsOf[T any] struct {\n\tA []T \"attr:\\\"$a1,value=$v1\\\"\"\n\tN string \"attr:\\\"$n1\\\"\"\n}\n")
	return src + tripMatrix()
}

const (
	ruleTripEqual  = "what is read back equals what was written"
	ruleTripAccept = "what is recorded is accepted by the schema and the assembler"
	ruleTripTyped  = "what is recorded is of the declared type"
	ruleTripCrash  = "no struct crashes the round trip"
	ruleTripEnds   = "the round trip comes to an end"
)

func init() {
	what := "The schema of a struct, its shredding and the assembly of the facts which its claims become are interpreted abstractly, one after the other, with every scalar unknown, in several orders of the datums and in every order of iteration over maps. The store between is modelled as its own properties specify. "
	register("C29", what+"The rule: for every Go type of a field, pointer or element, what the schema declares is what the shredder records, and what the shredder accepts the schema and the assembler accept, and give back.", func(r *Report) { checkTrips(r, "C29", "K_") })
	register("C33", what+"The rule: in every world, a simultaneous walk over the struct written and the one assembled finds the same values, unless the struct was rejected.", func(r *Report) {
		if os.Getenv("SHAPES") == "" {
			checkTrips(r, "C33", "T_")
		}
		checkWhole(r)
	})
}

// pairSpec compares structs.
type pairSpec struct {
	asmSpec
	seenPairs map[string]bool
	to        map[string]string
}

func (s *pairSpec) same(a, b loc, f *structField, path string) string {
	t := a.t
	if scalarAttrType(t) != "" {
		if f != nil && f.ignore && s.zero(b) && s.isZero(s.get(a), t) {
			return ""
		}
		x, y := s.get(a), s.get(b)
		if isTime(t) && sameInstant(s.st, x, y) {
			return ""
		}
		if !sameVal(s.st, retype(x, t), retype(y, t)) {
			return fmt.Sprintf("%s is %s, not %s", path, shortKey(s.st.normDeep(s.get(b))), shortKey(s.st.normDeep(s.get(a))))
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, y := s.get(a), s.get(b)
		if isNilV(x) || isNilV(y) {
			if isNilV(x) != isNilV(y) {
				if f != nil && f.ignore && !isNilV(x) && scalarAttrType(u.Elem()) != "" && s.isZero(s.deref(x, u.Elem()), u.Elem()) {
					return ""
				}
				return fmt.Sprintf("%s is nil or not", path)
			}
			return ""
		}
		p, ok := x.(*Ptr)
		q, ok2 := y.(*Ptr)
		if !ok || !ok2 {
			s.st.eng.failf("%s is not known", path)
		}
		if scalarAttrType(u.Elem()) == "" {
			key := rtypeOf(u.Elem()).Key() + p.Key()
			if s.to[key] == "" {
				s.to[key] = q.Key()
			}
			if s.to[key] != q.Key() {
				return fmt.Sprintf("%s is another instance", path)
			}
			if s.seenPairs[key] {
				return ""
			}
			s.seenPairs[key] = true
		}
		return s.same(loc{place: p, t: u.Elem()}, loc{place: q, t: u.Elem()}, nil, path)
	case *types.Map:
		xs, ys := s.entries(a), s.entries(b)
		if len(xs) != len(ys) {
			return fmt.Sprintf("%s has %d entries, not %d", path, len(ys), len(xs))
		}
		for _, x := range xs {
			found := false
			for _, y := range ys {
				if !sameVal(s.st, retype(x.Key, u.Key()), retype(y.Key, u.Key())) && !(isTime(u.Key()) && sameInstant(s.st, x.Key, y.Key)) {
					continue
				}
				found = true
				if bad := s.same(loc{v: s.st.norm(x.Val), t: u.Elem()}, loc{v: s.st.norm(y.Val), t: u.Elem()}, nil, path+"[]"); bad != "" {
					return bad
				}
			}
			if !found {
				return fmt.Sprintf("%s has no entry of %s", path, shortKey(s.st.normDeep(x.Key)))
			}
		}
	case *types.Slice:
		xs, ys := eList(s.st, s.get(a)), eList(s.st, s.get(b))
		if len(xs) != len(ys) {
			return fmt.Sprintf("%s has %d elements, not %d", path, len(ys), len(xs))
		}
		for i := range xs {
			if bad := s.same(loc{v: xs[i], t: u.Elem()}, loc{v: ys[i], t: u.Elem()}, nil, fmt.Sprintf("%s[%d]", path, i)); bad != "" {
				return bad
			}
		}
	case *types.Struct:
		fs, ok := s.modelled(t)
		if !ok {
			s.st.eng.failf("%s is not modelled", typKey(t))
		}
		for i := range fs {
			name := path + "." + u.Field(fs[i].index).Name()
			x, y := s.at(a, fs[i].index), s.at(b, fs[i].index)
			if fs[i].isID {
				if s.is(s.st.mkEqV(s.get(x), zeroVal(x.t))) {
					continue
				}
				if !sameVal(s.st, s.get(x), s.get(y)) {
					return name + " is another id"
				}
				continue
			}
			if bad := s.same(x, y, &fs[i], name); bad != "" {
				return bad
			}
		}
	default:
		s.st.eng.failf("%s is a %s", path, typKey(t))
	}
	return ""
}

func (s *pairSpec) entries(l loc) (out []MapEnt) {
	mid := s.st.eng.mapID(s.st, s.get(l), l.t)
	if mid == "" {
		return
	}
	for _, en := range s.st.obj(mid).Ents {
		if en.Present {
			out = append(out, en)
		}
	}
	return
}

func checkTrips(r *Report, id, prefix string) {
	p, err := structProgram(r.p.root, tripSource())
	if err != nil {
		r.attempts++
		r.undecided(ruleTripEqual, "program", "the scenarios do not load: %v", err)
		return
	}
	e := structEngine(p)
	e.anyOrder = true
	e.maxPath = 600000
	for _, rule := range []string{ruleTripEqual, ruleTripAccept, ruleTripTyped, ruleTripCrash, ruleTripEnds} {
		r.rule(rule)
	}
	names := tagNames(tripSource())
	where := asmWhere(p)
	steps, longest := 0, 0
	orders := int64(2)
	if r.tier == "thorough" {
		orders = 6
	}
	for _, name := range docFuncs(p, prefix) {
		fn := p.fn(docsPkg, name)
		for o := int64(0); o < orders; o++ {
			args := []Val{mkInt(o)}
			for i := 1; i < fn.Signature.Params().Len(); i++ {
				v := fn.Signature.Params().At(i)
				args = append(args, &Sym{Name: v.Name(), Typ: v.Type(), Rigid: true})
			}
			subject := fmt.Sprintf("the round trip of %s", strings.TrimPrefix(name, prefix))
			r.ends(e, ruleTripEqual, ruleTripEnds, subject, where, func() {
				st := tagState(e, names...)
				if strings.Contains(name, "mapBy") {
					equalToSelf(st, args)
				}
				e.steps = 0
				for _, out := range e.invoke(st, &FuncV{Fn: fn}, args...) {
					if !r.check(out.panic == "", ruleTripCrash, subject, where, "panics: %s", out.panic) {
						return
					}
					fine := true
					inWorlds(e, out.st, func(st *State) {
						if fine {
							fine = tripCheck(r, p, st, id, subject, where, out.ret)
						}
					})
					if !fine {
						return
					}
				}
			})
			steps += e.steps
			longest = max(longest, e.longest)
		}
	}
	e.steps = steps
	if os.Getenv("DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "longest", longest)
	}
	r.use(e)
}

func tripCheck(r *Report, p *Program, st *State, id, subject, where string, ret Val) bool {
	t, ok := st.norm(ret).(*Struct)
	if !ok {
		st.eng.failf("a trip is not known")
	}
	get := func(n string) Val { return st.norm(t.Fs[fieldIndex(t.Typ, n)]) }
	failed := func(n string) bool { return !isNilError(st, get(n)) }
	shred, schema := failed("shred"), failed("schema")
	if failed("model") {
		return r.check(shred && schema, ruleTripAccept, subject, where, "there is no error though the type is not modelled")
	}
	if !r.check(shred || !schema, ruleTripAccept, subject, where, "the schema is rejected: %s", shortKey(st.normDeep(get("schema")))) {
		return false
	}
	if shred {
		if id == "C29" {
			return r.check(schema, ruleTripAccept, subject, where, "the shredder rejects what the schema accepts: %s", shortKey(st.normDeep(get("shred"))))
		}
		return true
	}
	for _, x := range eList(st, get("typings")) {
		g, ok := st.norm(x).(*Struct)
		if !ok {
			st.eng.failf("a typing is not known")
		}
		valid, ok := constBool(st.norm(g.Fs[3]))
		if !ok {
			st.eng.failf("a typing is not decided")
		}
		if !r.check(valid, ruleTripTyped, subject, where, "the value %s of %s is not of the declared type %s", shortKey(st.normDeep(g.Fs[2])), shortKey(st.normDeep(g.Fs[0])), shortKey(st.normDeep(g.Fs[1]))) {
			return false
		}
	}
	if !r.check(!failed("read"), ruleTripAccept, subject, where, "the assembly fails: %s", shortKey(st.normDeep(get("read")))) {
		return false
	}
	known, ok := constBool(get("known"))
	if !ok {
		st.eng.failf("it is not known whether there are facts")
	}
	bad := compareTrip(p, st, get("original"), get("assembled"), known)
	return r.check(bad == "", ruleTripEqual, subject, where, "%s", bad)
}

// compareTrip compares the struct written with what is assembled.
func compareTrip(p *Program, st *State, original, assembled Val, known bool) (bad string) {
	s := &pairSpec{asmSpec: asmSpec{shredSpec: shredSpec{p: p, st: st}}, seenPairs: map[string]bool{}, to: map[string]string{}}
	x, xt := unbox(original)
	y, yt := unbox(assembled)
	if isNilV(y) {
		if known {
			bad = "nothing is assembled"
		}
	} else {
		a := loc{v: x, t: xt}
		if kindOf(xt) == reflect.Struct {
			py, ok := y.(*Ptr)
			if !ok {
				st.eng.failf("what is assembled is not known")
			}
			bad = s.same(a, loc{place: py, t: yt.Underlying().(*types.Pointer).Elem()}, nil, "it")
		} else {
			bad = s.same(a, loc{v: y, t: yt}, nil, "it")
		}
	}
	return
}

// sameInstant tells whether the second instant is the first to the precision of the store.
func sameInstant(st *State, x, y Val) bool {
	a, ok := stripZone(st.normDeep(y)).(*App)
	if !ok || a.Op != "time.UnixMilli" {
		return false
	}
	return sameVal(st, a.Args[0], st.pure("(time.Time).UnixMilli", types.Typ[types.Int64], stripZone(st.normDeep(x))))
}

// equalToSelf assumes that the numbers are numbers: a map does not find what is not one again.
func equalToSelf(st *State, args []Val) {
	for _, a := range args {
		if isFloat(typeOf(a)) {
			st.addFact(mkEq(a, a), boolV(true))
		}
	}
}
