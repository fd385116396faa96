package main

// shredDocs are the documents which are shredded. Each function is given unknown scalars.
const shredDocs = `
type MyID uint64
type Scalars struct {
	A    string    "attr:\"$a1,identity\""
	B    int       "attr:\"$a2\""
	None chan int
	C    bool      "attr:\"$a3\""
	D    float64   "attr:\"$a4,unique\""
	E    time.Time "attr:\"$a5\""
	F    MyString  "attr:\"$a6\""
	G    MyInt     "attr:\"$a7\""
	H    MyBool    "attr:\"$a8\""
	I    MyFloat   "attr:\"$a9\""
	g    string    "attr:\"$b1\""
	h    int       "attr:\"$b2\""
	none string
	I2   *Bad      "attr:\"$b3\""
}
type Pointers struct {
	A *string    "attr:\"$a1,identity\""
	B *int       "attr:\"$a2\""
	C *bool      "attr:\"$a3\""
	D *float64   "attr:\"$a4,unique\""
	E *time.Time "attr:\"$a5\""
	F *MyString  "attr:\"$a6\""
	G *MyInt     "attr:\"$a7\""
	g *string    "attr:\"$b1\""
}
type Ignoring struct {
	A string     "attr:\"$a1,ignoreempty\""
	B int        "attr:\"$a2,ignoreempty\""
	C bool       "attr:\"$a3,ignoreempty\""
}
type Ignoring2 struct {
	D float64    "attr:\"$a4,ignoreempty\""
	E time.Time  "attr:\"$a5,ignoreempty\""
	F MyString   "attr:\"$a6,ignoreempty\""
}
type Ignoring3 struct {
	A *string    "attr:\"$a1,ignoreempty\""
	B *int       "attr:\"$a2,ignoreempty\""
	E *time.Time "attr:\"$a3,ignoreempty\""
	F []Leaf     "attr:\"$a4,ignoreempty\""
	G *Leaf      "attr:\"$a5,ignoreempty\""
	H string     "attr:\"$a6\""
}
type WithID struct {
	ID uint64  "attr:\"sys/db/id\""
	A  string  "attr:\"$a1\""
	B  *WithID "attr:\"$a2\""
}
type WithMyID struct {
	A  string "attr:\"$a1\""
	ID MyID   "attr:\"sys/db/id\""
}
type TwoIDs struct {
	ID  uint64 "attr:\"sys/db/id\""
	A   string "attr:\"$a1\""
	ID2 uint64 "attr:\"sys/db/id\""
}
type BadID struct {
	A  string "attr:\"$a1,identity\""
	ID string "attr:\"sys/db/id\""
}
type BadID2 struct {
	A  string  "attr:\"$a1,identity\""
	ID *uint64 "attr:\"sys/db/id\""
}
type BadID3 struct {
	ID int    "attr:\"sys/db/id\""
	A  string "attr:\"$a1,identity\""
}
type Bad struct {
	A int64 "attr:\"$a1\""
}
type Leaf struct {
	Name string "attr:\"$c1\""
}
type Empty struct {
	Name string
}
type MaybeEmpty struct {
	A *string "attr:\"$c1\""
	B *Leaf   "attr:\"$c2\""
}
type LeafID struct {
	ID   uint64  "attr:\"sys/db/id\""
	Name *string "attr:\"$c1\""
}
type ByValue struct {
	A Leaf   "attr:\"$d1\""
	B string "attr:\"$d2\""
	C LeafID "attr:\"$d3\""
	D Deep   "attr:\"$d4\""
}
type Deep struct {
	A Leaf     "attr:\"$d5\""
	B *Leaf    "attr:\"$d6\""
	C []string "attr:\"$d7,value=$v1\""
}
type ByPointer struct {
	A *Leaf   "attr:\"$d1\""
	B *Leaf   "attr:\"$d2\""
	C *LeafID "attr:\"$d3\""
	D *Bad    "attr:\"$d4\""
}
type Self struct {
	A string "attr:\"$e1\""
	B *Self  "attr:\"$e2\""
	C *Self  "attr:\"$e3\""
}
type Ping struct {
	A *Pong  "attr:\"$e1\""
	B string "attr:\"$e2\""
}
type Pong struct {
	A []Pung           "attr:\"$f1\""
	B map[string]*Ping "attr:\"$f2,key=$e2\""
	C *Ping            "attr:\"$f3\""
}
type Pung struct {
	A string "attr:\"$g1\""
	B *Ping  "attr:\"$g2\""
	C *Pong  "attr:\"$g3\""
}
type Slices struct {
	A []Leaf       "attr:\"$h1\""
	B string       "attr:\"$h2\""
	C []Ranked     "attr:\"$h3\""
}
type Ranked struct {
	A string   "attr:\"$i1\""
	B []Leaf   "attr:\"$i2\""
	C []string "attr:\"$i3,value=$v1\""
	D *Leaf    "attr:\"$i4\""
}
type Values struct {
	A []string    "attr:\"$h1,value=$v1\""
	B []int       "attr:\"$h2,value=$v2\""
	C []bool      "attr:\"$h3,value=$v3\""
	D []float64   "attr:\"$h4,value=$v4\""
	E []time.Time "attr:\"$h5,value=$v5\""
	F []MyString  "attr:\"$h6,value=$v6\""
}
type BadValues struct {
	A []Leaf "attr:\"$h1,value=$v1\""
}
type BadValues2 struct {
	A []int64 "attr:\"$h1,value=$v1\""
}
type NoValues struct {
	A []string "attr:\"$h1\""
}
type NoValues2 struct {
	A map[string]int "attr:\"$h1\""
}
type SliceOf[T any] struct {
	A []T    "attr:\"$h1\""
	B string "attr:\"$h2\""
}
type MapOf[T any] struct {
	A map[string]T "attr:\"$j1,key=$c1\""
	B string       "attr:\"$j2\""
}
type Hidden struct {
	A string "attr:\"$k1\""
	b *Leaf  "attr:\"$k2\""
}
type Hidden2 struct {
	a []string "attr:\"$k1,value=$v1\""
	b Leaf     "attr:\"$k2\""
}
type Embeds struct {
	Leaf  "attr:\"$l1\""
	*Deep "attr:\"$l2\""
	N     string "attr:\"$l3\""
}
type Uniques struct {
	ID uint64     "attr:\"sys/db/id\""
	A  string     "attr:\"$a1,identity\""
	B  int        "attr:\"$a2\""
	C  *int       "attr:\"$a3,unique\""
	D  *time.Time "attr:\"$a4,identity,ignoreempty\""
	E  string     "attr:\"$a5,unique,ignoreempty\""
	F  *Leaf      "attr:\"$a6,unique\""
	G  Leaf       "attr:\"$a7,identity\""
	H  []string   "attr:\"$a8,unique,value=$v1\""
}
type Uniques2 struct {
	A *string "attr:\"$a1,identity\""
	B *string "attr:\"$a2,unique,ignoreempty\""
	C bool    "attr:\"$a3,identity,ignoreempty\""
	D *MyInt  "attr:\"$a4\""
}
type Uniques3 struct {
	A float64   "attr:\"$a1,identity\""
	B time.Time "attr:\"$a2,unique\""
	C bool      "attr:\"$a3,unique\""
	c string    "attr:\"$a4,unique\""
}
type BadUnique struct {
	A string "attr:\"$a1,identity\""
	B int64  "attr:\"$a2\""
}

func shred(xs ...any) (doc Document, req Request, ids []ERef, err error) {
	doc.Assertions = xs
	req, ids, err = NewShredder(models.BuildCachingAnalyzer()).Shred(doc)
	return
}

func retract(xs ...any) (doc Document, req Request, ids []ERef, err error) {
	doc.Retractions = xs
	req, ids, err = NewShredder(models.BuildCachingAnalyzer()).Shred(doc)
	return
}

func S_scalars(a string, b int, c bool, d float64, e time.Time, g string, h int) (Document, Request, []ERef, error) {
	return shred(Scalars{A: a, B: b, C: c, D: d, E: e, F: MyString(g), G: MyInt(h), H: MyBool(c), I: MyFloat(d), g: a, h: b})
}
func S_scalarsByPointer(a string, b int, c bool, d float64, e time.Time, g string, h int) (Document, Request, []ERef, error) {
	return shred(&Scalars{A: a, B: b, C: c, D: d, E: e, F: MyString(g), G: MyInt(h), H: MyBool(c), I: MyFloat(d), g: a, h: b})
}
func S_scalarsEmpty() (Document, Request, []ERef, error) {
	return shred(Scalars{})
}
func S_scalarsBad() (Document, Request, []ERef, error) {
	return shred(Scalars{I2: &Bad{}})
}
func S_pointers(a string, b int, c bool, d float64, e time.Time, g string, h int) (Document, Request, []ERef, error) {
	x := MyInt(h)
	y := MyString(a)
	return shred(Pointers{A: &a, B: &b, C: &c, D: &d, E: &e, F: &y, G: &x, g: &g})
}
func S_pointersNil() (Document, Request, []ERef, error) {
	return shred(Pointers{})
}
func S_pointersSome(a string, b int) (Document, Request, []ERef, error) {
	return shred(&Pointers{A: &a, B: &b}, Pointers{A: &a, g: &a})
}
func S_pointersZero() (Document, Request, []ERef, error) {
	return shred(Pointers{A: new(string), B: new(int), C: new(bool), D: new(float64), E: new(time.Time)})
}
func S_ignoring(a string, b int, c bool) (Document, Request, []ERef, error) {
	return shred(Ignoring{A: a, B: b, C: c})
}
func S_ignoring2(a string, d float64, e time.Time) (Document, Request, []ERef, error) {
	return shred(Ignoring2{D: d, E: e, F: MyString(a)})
}
func S_ignoring3(a string, b int, e time.Time) (Document, Request, []ERef, error) {
	return shred(&Ignoring3{A: &a, B: &b, E: &e, G: &Leaf{}})
}
func S_ignoringNone(a string) (Document, Request, []ERef, error) {
	return shred(Ignoring3{H: a, F: []Leaf{{}}}, Ignoring3{})
}
func S_id(id uint64, a string) (Document, Request, []ERef, error) {
	return shred(WithID{ID: id, A: a})
}
func S_idByPointer(id uint64, a string) (Document, Request, []ERef, error) {
	x := &WithID{ID: id, A: a}
	return shred(x, WithID{B: x}, x)
}
func S_idsNested(id, id2 uint64, a, b string) (Document, Request, []ERef, error) {
	return shred(WithID{ID: id, A: a, B: &WithID{ID: id2, A: b}})
}
func S_idsSelf(id uint64, a string) (Document, Request, []ERef, error) {
	x := &WithID{ID: id, A: a}
	x.B = x
	return shred(x)
}
func S_idsSame(a, b string) (Document, Request, []ERef, error) {
	return shred(WithID{ID: 5, A: a}, &WithID{ID: 5, A: b}, WithID{ID: 6, A: a})
}
func S_idsTwo(id, id2 uint64, a string) (Document, Request, []ERef, error) {
	return shred(TwoIDs{ID: id, A: a, ID2: id2})
}
func S_idMine(id uint64, a string) (Document, Request, []ERef, error) {
	return shred(WithMyID{ID: MyID(id), A: a})
}
func S_idBad(a string) (Document, Request, []ERef, error)  { return shred(BadID{A: a}) }
func S_idBad2(a string) (Document, Request, []ERef, error) { return shred(BadID2{A: a}) }
func S_idBad3(a string) (Document, Request, []ERef, error) { return shred(&BadID3{A: a}) }
func S_noStructs() (Document, Request, []ERef, error) { return shred() }
func S_nil() (Document, Request, []ERef, error)      { return shred(nil) }
func S_nilPointer() (Document, Request, []ERef, error) {
	var x *Leaf
	return shred(x)
}
func S_pointerPointer() (Document, Request, []ERef, error) {
	x := &Leaf{}
	return shred(&x)
}
func S_notStruct(a int) (Document, Request, []ERef, error)    { return shred(a) }
func S_notStruct2(a int) (Document, Request, []ERef, error)   { return shred(&a) }
func S_notStruct3() (Document, Request, []ERef, error)        { return shred([]Leaf{{}}) }
func S_notStruct4() (Document, Request, []ERef, error)        { return shred(map[string]Leaf{}) }
func S_notStruct5(a string) (Document, Request, []ERef, error) { return shred(Leaf{Name: a}, a) }
func S_badStruct() (Document, Request, []ERef, error)         { return shred(Bad{}) }
func S_badStruct2(a string) (Document, Request, []ERef, error) {
	return shred(Leaf{Name: a}, ByPointer{D: &Bad{}})
}
func S_empty() (Document, Request, []ERef, error) { return shred(Empty{}, &Empty{}) }
func S_values(a string) (Document, Request, []ERef, error) {
	return shred(Leaf{Name: a}, Leaf{Name: a})
}
func S_samePointer(a, b string) (Document, Request, []ERef, error) {
	x, y := &Leaf{Name: a}, &Leaf{Name: b}
	return shred(x, y, x, *x, y)
}
func S_byValue(a, b, c string, id uint64) (Document, Request, []ERef, error) {
	return shred(ByValue{A: Leaf{a}, B: b, C: LeafID{ID: id}, D: Deep{A: Leaf{c}, B: &Leaf{a}, C: []string{b, c}}})
}
func S_byPointer(a, b string, id uint64) (Document, Request, []ERef, error) {
	return shred(ByPointer{A: &Leaf{a}, B: &Leaf{b}, C: &LeafID{ID: id, Name: &a}})
}
func S_byPointerNil() (Document, Request, []ERef, error) { return shred(ByPointer{}, &ByPointer{}) }
func S_shared(a string) (Document, Request, []ERef, error) {
	x := &Leaf{a}
	return shred(ByPointer{A: x, B: x}, &ByPointer{A: x})
}
func S_sharedLater(a, b string) (Document, Request, []ERef, error) {
	x := &Leaf{a}
	return shred(x, ByPointer{A: x, B: &Leaf{b}}, x)
}
func S_sharedEarlier(a string) (Document, Request, []ERef, error) {
	x := &Leaf{a}
	return shred(ByPointer{A: x}, x)
}
func S_sharedEmpty() (Document, Request, []ERef, error) {
	x := &Leaf{}
	y := &LeafID{}
	return shred(ByPointer{A: x, B: x, C: y}, y, ByPointer{C: y})
}
func S_self(a string) (Document, Request, []ERef, error) {
	x := &Self{A: a}
	x.B = x
	return shred(x)
}
func S_selfTwice(a string) (Document, Request, []ERef, error) {
	x := &Self{A: a}
	x.B, x.C = x, x
	return shred(x, x)
}
func S_selfOfValue(a string) (Document, Request, []ERef, error) {
	x := Self{A: a}
	x.B = &x
	return shred(x)
}
func S_cycle(a, b string) (Document, Request, []ERef, error) {
	x, y := &Self{A: a}, &Self{A: b}
	x.B, y.B = y, x
	return shred(x)
}
func S_cycle2(a, b string) (Document, Request, []ERef, error) {
	x, y := &Self{A: a}, &Self{A: b}
	x.B, y.C = y, x
	return shred(y, x, Self{B: x, C: y})
}
func S_cycle3(a, b, c string) (Document, Request, []ERef, error) {
	x, y, z := &Self{A: a}, &Self{A: b}, &Self{A: c}
	x.B, y.B, z.B = y, z, x
	x.C, z.C = z, z
	return shred(y)
}
func S_diamond(a, b, c, d string) (Document, Request, []ERef, error) {
	w := &Self{A: d}
	x, y := &Self{A: a, B: w}, &Self{A: b, C: w}
	return shred(&Self{A: c, B: x, C: y}, y)
}
func S_chain(a, b, c, d, e string) (Document, Request, []ERef, error) {
	return shred(Self{A: a, B: &Self{A: b, B: &Self{A: c, C: &Self{A: d, B: &Self{A: e}}}}})
}
func S_mixed(a, b, c string) (Document, Request, []ERef, error) {
	p := &Ping{B: a}
	q := &Pong{C: p}
	p.A = q
	q.A = []Pung{{A: b, B: p, C: q}, {A: c, B: p}}
	q.B = map[string]*Ping{"x": p}
	return shred(p)
}
func S_mixed2(a, b, c string) (Document, Request, []ERef, error) {
	p, p2 := &Ping{B: a}, &Ping{B: b}
	q := &Pong{}
	p2.A = q
	q.A = []Pung{{A: c, B: p}}
	q.B = map[string]*Ping{"x": p, "y": p2}
	return shred(q, p, *p2)
}
func S_slice0(a string) (Document, Request, []ERef, error) {
	return shred(Slices{B: a}, Slices{B: a, A: []Leaf{}, C: []Ranked{}})
}
func S_slice1(a, b string) (Document, Request, []ERef, error) {
	return shred(Slices{A: []Leaf{{a}}, B: b})
}
func S_slice3(a, b, c string) (Document, Request, []ERef, error) {
	return shred(&Slices{A: []Leaf{{a}, {b}, {c}}}, Slices{A: []Leaf{{a}}})
}
func S_slicesDeep(a, b, c, d string) (Document, Request, []ERef, error) {
	x := &Leaf{d}
	return shred(Slices{C: []Ranked{{A: a, B: []Leaf{{b}, {c}}, C: []string{d, a}, D: x}, {A: b, D: x}, {A: c, B: []Leaf{{a}}}}, A: []Leaf{{d}}})
}
func S_sliceEmptyElement(a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[MaybeEmpty]{A: []MaybeEmpty{{A: &a}, {}}})
}
func S_sliceEmptyElement2() (Document, Request, []ERef, error) {
	return shred(SliceOf[Empty]{A: []Empty{{}}})
}
func S_sliceLaterElement(a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[MaybeEmpty]{A: []MaybeEmpty{{B: &Leaf{a}}, {A: &a}}})
}
func S_sliceIDs(id, id2 uint64, a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[LeafID]{A: []LeafID{{ID: id, Name: &a}, {ID: id2, Name: &a}}})
}
func S_sliceOnlyIDs(id uint64) (Document, Request, []ERef, error) {
	return shred(SliceOf[LeafID]{A: []LeafID{{ID: id}}})
}
func S_sliceIgnoring(a string, b int, c bool) (Document, Request, []ERef, error) {
	return shred(SliceOf[Ignoring]{A: []Ignoring{{A: a, B: b, C: c}}})
}
func S_slicePointers(a, b string) (Document, Request, []ERef, error) {
	return shred(SliceOf[*Leaf]{A: []*Leaf{{a}, {b}}})
}
func S_slicePointersSame(a string) (Document, Request, []ERef, error) {
	x := &Leaf{a}
	return shred(SliceOf[*Leaf]{A: []*Leaf{x, x}})
}
func S_slicePointersNil(a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[*Leaf]{A: []*Leaf{{a}, nil}})
}
func S_sliceValues(a, b string, c int, d bool, e float64, f time.Time) (Document, Request, []ERef, error) {
	return shred(Values{A: []string{a, b, a}, B: []int{c, 0}, C: []bool{d, false}, D: []float64{e}, E: []time.Time{f, {}}, F: []MyString{MyString(a), ""}})
}
func S_sliceValues0(a string) (Document, Request, []ERef, error) {
	return shred(Values{A: []string{}}, &Values{F: []MyString{MyString(a)}})
}
func S_sliceValuesBad() (Document, Request, []ERef, error) { return shred(BadValues{A: []Leaf{{}}}) }
func S_sliceValuesBad2(a int64) (Document, Request, []ERef, error) {
	return shred(BadValues2{A: []int64{a}})
}
func S_sliceNoValues(a string) (Document, Request, []ERef, error) {
	return shred(NoValues{A: []string{a}})
}
func S_mapNoValues(a int) (Document, Request, []ERef, error) {
	return shred(NoValues2{A: map[string]int{"x": a}})
}
func S_map0(a string) (Document, Request, []ERef, error) {
	return shred(MapOf[Leaf]{B: a}, MapOf[Leaf]{A: map[string]Leaf{}, B: a})
}
func S_map2(a, b string) (Document, Request, []ERef, error) {
	return shred(MapOf[Leaf]{A: map[string]Leaf{"x": {a}, "y": {b}}, B: a})
}
func S_map3(a, b, c string) (Document, Request, []ERef, error) {
	return shred(&MapOf[*Leaf]{A: map[string]*Leaf{"x": {a}, "y": {b}, "z": {c}}})
}
func S_mapShared(a, b string) (Document, Request, []ERef, error) {
	x := &Leaf{a}
	return shred(MapOf[*Leaf]{A: map[string]*Leaf{"x": x, "y": x, "z": {b}}, B: a}, ByPointer{A: x}, x)
}
func S_mapSharedEarlier(a string) (Document, Request, []ERef, error) {
	x := &Leaf{a}
	return shred(x, MapOf[*Leaf]{A: map[string]*Leaf{"x": x}})
}
func S_mapSharedEmpty() (Document, Request, []ERef, error) {
	x := &MaybeEmpty{}
	return shred(x, MapOf[*MaybeEmpty]{A: map[string]*MaybeEmpty{"x": x}})
}
func S_mapNilEntry(a string) (Document, Request, []ERef, error) {
	return shred(MapOf[*Leaf]{A: map[string]*Leaf{"x": {a}, "y": nil}})
}
func S_mapEmptyEntry(a string) (Document, Request, []ERef, error) {
	return shred(MapOf[MaybeEmpty]{A: map[string]MaybeEmpty{"x": {}, "y": {A: &a}}})
}
func S_mapEmptyEntry2() (Document, Request, []ERef, error) {
	return shred(MapOf[*Empty]{A: map[string]*Empty{"x": {}}})
}
func S_mapOnlyIDs(id uint64, a string) (Document, Request, []ERef, error) {
	return shred(MapOf[LeafID]{A: map[string]LeafID{"x": {ID: id}, "y": {Name: &a}}})
}
func S_mapPointerIDs(id uint64) (Document, Request, []ERef, error) {
	x := &LeafID{ID: id}
	return shred(MapOf[*LeafID]{A: map[string]*LeafID{"x": x}}, x)
}
func S_mapDeep(a, b string) (Document, Request, []ERef, error) {
	return shred(MapOf[Slices]{A: map[string]Slices{"x": {A: []Leaf{{a}, {b}}, B: b}, "y": {B: a}}})
}
func S_mapSelf(a string) (Document, Request, []ERef, error) {
	x := &MapOf[*Self]{B: a}
	y := &Self{A: a}
	y.B = y
	x.A = map[string]*Self{"x": y}
	return shred(x, y)
}
func S_hidden(a string) (Document, Request, []ERef, error) {
	return shred(Hidden{A: a, b: &Leaf{a}})
}
func S_hiddenNil(a string) (Document, Request, []ERef, error) { return shred(&Hidden{A: a}) }
func S_hidden2(a string) (Document, Request, []ERef, error) {
	return shred(Hidden2{a: []string{a}, b: Leaf{a}})
}
func S_embeds(a, b string) (Document, Request, []ERef, error) {
	return shred(Embeds{Leaf: Leaf{a}, Deep: &Deep{A: Leaf{b}}, N: a}, &Embeds{})
}
func S_anonymous(a string, b int) (Document, Request, []ERef, error) {
	return shred(struct {
		A string "attr:\"$a1\""
		B *struct {
			C int "attr:\"$a2\""
		} "attr:\"$a3\""
	}{A: a, B: &struct {
		C int "attr:\"$a2\""
	}{b}})
}
func S_retractToo(a, b string, id uint64) (doc Document, req Request, ids []ERef, err error) {
	x := &Scalars{A: a}
	doc.Retractions = []any{x, WithID{ID: 7}}
	doc.Assertions = []any{Leaf{b}, x, &WithID{ID: id}}
	req, ids, err = NewShredder(models.BuildCachingAnalyzer()).Shred(doc)
	return
}
func S_again(a, b string) (doc Document, req Request, ids []ERef, err error) {
	s := NewShredder(models.BuildCachingAnalyzer())
	x := &Leaf{a}
	_, _, err = s.Shred(Document{Assertions: []any{ByPointer{A: x}, x, &Bad{}}})
	_, _, err = s.Shred(Document{Assertions: []any{x, LeafID{ID: 5, Name: &b}}})
	if err != nil {
		panic("the first document is not shredded")
	}
	doc.Assertions = []any{x, ByPointer{A: x, B: &Leaf{b}}, LeafID{Name: &a}}
	req, ids, err = s.Shred(doc)
	return
}
func S_badFirst(a string) (Document, Request, []ERef, error) {
	return shred(Leaf{a}, Bad{}, Leaf{a})
}
func S_badNested(a string) (Document, Request, []ERef, error) {
	return shred(Leaf{a}, &ByPointer{A: &Leaf{a}, D: &Bad{}}, Leaf{a}, Empty{})
}
func S_nilFirst(a string) (Document, Request, []ERef, error) {
	return shred(nil, Leaf{a})
}
func S_sliceNilFirst(a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[*Leaf]{A: []*Leaf{nil, {a}}, B: a}, Leaf{a})
}
func S_sliceEmptyFirst(a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[MaybeEmpty]{A: []MaybeEmpty{{}, {A: &a}}, B: a})
}
func S_sliceBadElement(a string) (Document, Request, []ERef, error) {
	return shred(SliceOf[ByPointer]{A: []ByPointer{{D: &Bad{}}, {A: &Leaf{a}}}, B: a})
}
func S_mapBadElement(a string) (Document, Request, []ERef, error) {
	return shred(MapOf[ByPointer]{A: map[string]ByPointer{"x": {D: &Bad{}}, "y": {A: &Leaf{a}}}, B: a})
}
func R_badFirst(a string) (Document, Request, []ERef, error) {
	return retract(BadUnique{A: a}, Scalars{A: a})
}
func R_nilFirst(a string) (Document, Request, []ERef, error) {
	return retract(nil, Scalars{A: a})
}
func S_retractBad(a string) (doc Document, req Request, ids []ERef, err error) {
	doc.Retractions = []any{WithID{}}
	doc.Assertions = []any{Leaf{a}}
	req, ids, err = NewShredder(models.BuildCachingAnalyzer()).Shred(doc)
	return
}
func R_none() (Document, Request, []ERef, error)    { return retract() }
func R_nil() (Document, Request, []ERef, error)     { return retract(nil) }
func R_notStruct(a int) (Document, Request, []ERef, error) { return retract(a) }
func R_notStruct2(a int) (Document, Request, []ERef, error) { return retract(&a) }
func R_notStruct3() (Document, Request, []ERef, error) { return retract([]Uniques{{}}) }
func R_nilPointer() (Document, Request, []ERef, error) {
	var x *Uniques
	return retract(x)
}
func R_id(id uint64, a string) (Document, Request, []ERef, error) { return retract(WithID{ID: id, A: a}) }
func R_idMine(id uint64) (Document, Request, []ERef, error) { return retract(&WithMyID{ID: MyID(id)}) }
func R_idsTwo(id, id2 uint64) (Document, Request, []ERef, error) { return retract(TwoIDs{ID: id, ID2: id2}) }
func R_idBad(a string) (Document, Request, []ERef, error)  { return retract(BadID{A: a}) }
func R_idBad2(a string) (Document, Request, []ERef, error) { return retract(&BadID2{A: a}) }
func R_idBad3(a string) (Document, Request, []ERef, error) { return retract(BadID3{A: a, ID: 7}) }
func R_bad(a string) (Document, Request, []ERef, error)    { return retract(BadUnique{A: a}) }
func R_noUniques(a string) (Document, Request, []ERef, error) { return retract(Leaf{a}) }
func R_uniques(id uint64, a, e string, b int) (Document, Request, []ERef, error) {
	return retract(Uniques{ID: id, A: a, B: b, E: e})
}
func R_uniquesAll(a, e string, b int, d time.Time) (Document, Request, []ERef, error) {
	return retract(&Uniques{ID: 5, A: a, B: b, C: &b, D: &d, E: e, F: &Leaf{a}, G: Leaf{e}, H: []string{a}})
}
func R_uniques2(a, b string, c bool, d int) (Document, Request, []ERef, error) {
	x := MyInt(d)
	return retract(Uniques2{A: &a, B: &b, C: c, D: &x})
}
func R_uniques2None(b string, c bool) (Document, Request, []ERef, error) {
	return retract(&Uniques2{B: &b, C: c})
}
func R_uniques3(a float64, b time.Time, c bool, d string) (Document, Request, []ERef, error) {
	return retract(Uniques3{A: a, B: b, C: c, c: d})
}
func R_several(id uint64, a string, b string) (Document, Request, []ERef, error) {
	return retract(WithID{ID: 5}, &Scalars{A: a}, Uniques2{A: &b})
}
func R_severalBad(a string) (Document, Request, []ERef, error) {
	return retract(Scalars{A: a}, WithID{}, Scalars{A: a})
}
func R_twice(a string) (Document, Request, []ERef, error) {
	x := &Uniques2{A: &a}
	return retract(x, x)
}
func R_self(id uint64, a string) (Document, Request, []ERef, error) {
	x := &WithID{ID: id, A: a}
	x.B = x
	return retract(x)
}
`
