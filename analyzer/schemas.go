package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// The declarations of the schema of a struct are decided for families of types which refer to each other.

const (
	ruleSchemaDecl   = "a schema declares the fields of all reachable structs"
	ruleSchemaReject = "a schema with unsupported types is rejected"
	ruleSchemaEnds   = "the analysis of types comes to an end"
	ruleSchemaCrash  = "no schema crashes"
)

const schemaDocs = `
type Leaf struct {
	Name string "attr:\"$a1\""
}
type Scalars struct {
	ID   uint64    "attr:\"sys/db/id\""
	A    string    "attr:\"$a1,identity\""
	B    int       "attr:\"$a2,unique\""
	C    bool      "attr:\"$a3,ignoreempty\""
	D    float64   "attr:\"$a4\""
	E    time.Time "attr:\"$a5,unique\""
	F    MyString  "attr:\"$a6\""
	None chan int
	none string
	g    string    "attr:\"$a7\""
}
type Pointers struct {
	A *string    "attr:\"$a1,identity\""
	B *int       "attr:\"$a2,unique\""
	C *bool      "attr:\"$a3\""
	D *float64   "attr:\"$a4\""
	E *time.Time "attr:\"$a5,ignoreempty\""
	F *MyFloat   "attr:\"$a6\""
}
type Empty struct{}
type Untagged struct {
	A string
	B *Leaf
}
type OnlyID struct {
	ID string "attr:\"sys/db/id\""
}
type ByValue struct {
	A Leaf "attr:\"$b1,unique\""
	B int  "attr:\"$b2\""
}
type ByPointer struct {
	A *Leaf "attr:\"$b1\""
	B int   "attr:\"$b2\""
}
type BySlice struct {
	A []Leaf "attr:\"$b1\""
	B int    "attr:\"$b2\""
}
type ByMap struct {
	A map[string]Leaf "attr:\"$b1,key=$a1\""
	B int             "attr:\"$b2\""
}
type ByMapPointer struct {
	B int              "attr:\"$b2\""
	A map[uint64]*Leaf "attr:\"$b1,unique\""
}
type MySlice2 []Leaf
type MyMap2 map[int]*Leaf
type MyPtr2 *Leaf
type ByNamed struct {
	A MySlice2 "attr:\"$b1\""
	B MyMap2   "attr:\"$b2,key=$k1\""
	C MyPtr2   "attr:\"$b3\""
	D MyTime2  "attr:\"$b4\""
}
type MyTime2 struct {
	T string "attr:\"$a2\""
}
type Two struct {
	A Leaf    "attr:\"$b1\""
	B *ByMap2 "attr:\"$b2\""
	C []Leaf2 "attr:\"$b3\""
}
type ByMap2 struct {
	A map[string]Leaf3 "attr:\"$c1,key=$k1\""
	B *Leaf            "attr:\"$c2\""
}
type Leaf2 struct {
	Name *string "attr:\"$d1,unique\""
	B    *Leaf   "attr:\"$d2\""
}
type Leaf3 struct {
	Name string "attr:\"$e1\""
	Two  *Two   "attr:\"$e2\""
}
type Chain1 struct {
	Next *Chain2 "attr:\"$a1\""
}
type Chain2 struct {
	Next []Chain3 "attr:\"$b1\""
}
type Chain3 struct {
	Next map[string]Chain4 "attr:\"$c1,key=$k1\""
}
type Chain4 struct {
	Next map[string]*Chain5 "attr:\"$d1,key=$k1\""
}
type Chain5 struct {
	Next Chain6 "attr:\"$e1\""
}
type Chain6 struct {
	Name string "attr:\"$f1\""
}
type SelfPointer struct {
	A string       "attr:\"$a1\""
	B *SelfPointer "attr:\"$a2\""
}
type SelfSlice struct {
	B []SelfSlice "attr:\"$a2\""
	A string      "attr:\"$a1\""
}
type SelfMap struct {
	B map[string]SelfMap  "attr:\"$a2,key=$a1\""
	C map[string]*SelfMap "attr:\"$a3,key=$a1\""
	A string              "attr:\"$a1\""
}
type Ping struct {
	A *Pong  "attr:\"$a1\""
	B string "attr:\"$a2,identity\""
}
type Pong struct {
	A []Ping           "attr:\"$b1\""
	B map[string]*Pung "attr:\"$b2,key=$c2\""
}
type Pung struct {
	A Pong   "attr:\"$c1\""
	B string "attr:\"$c2\""
	C *Ping  "attr:\"$c3\""
}
type Values struct {
	A []string    "attr:\"$a1,value=$v1\""
	B []int       "attr:\"$a2,value=$v2\""
	C []bool      "attr:\"$a3,value=$v3\""
	D []float64   "attr:\"$a4,value=$v4\""
	E []time.Time "attr:\"$a5,value=$v5\""
	F []MyInt     "attr:\"$a6,unique,value=$v6\""
	G string      "attr:\"$a7\""
	H *Leaf2      "attr:\"$a8\""
}
type DeepValues struct {
	A string   "attr:\"$a1\""
	B []Holder "attr:\"$a2\""
	C *Holder  "attr:\"$a3\""
}
type Holder struct {
	A []MyString "attr:\"$b1,value=$v1\""
	B []float64  "attr:\"$b2,value=$v2\""
}
type Same struct {
	A *Left  "attr:\"$a1\""
	B *Right "attr:\"$a2\""
}
type Left struct {
	A string "attr:\"$b1\""
}
type Right struct {
	A string "attr:\"$b2\""
	B *Left  "attr:\"$b3\""
}
type Gen[T any] struct {
	A T  "attr:\"$a1\""
	B *T "attr:\"$a2\""
}
type Generic struct {
	A Gen[int]    "attr:\"$b1\""
	B *Gen[Right] "attr:\"$b2\""
}
type Embeds struct {
	Leaf   "attr:\"$c1\""
	*Right "attr:\"$c2\""
}
type Anonymous struct {
	A struct {
		B string "attr:\"$a1\""
	} "attr:\"$a2\""
	C *struct {
		B int "attr:\"$a3\""
	} "attr:\"$a4\""
}
type Timely struct {
	A []time.Time           "attr:\"$a1\""
	B string                "attr:\"$a2\""
}
type Timely2 struct {
	A map[string]time.Time  "attr:\"$a1\""
	B map[string]*time.Time "attr:\"$a2\""
}
type Timely3 struct {
	A *Timely2 "attr:\"$b1\""
}
type Bad1 struct {
	A string "attr:\"$a1\""
	B int64  "attr:\"$a2\""
}
type Bad2 struct {
	A Leaf  "attr:\"$b1\""
	B *Bad1 "attr:\"$b2\""
}
type Bad3 struct {
	A []string "attr:\"$b1\""
}
type Bad4 struct {
	A []*Leaf "attr:\"$b1\""
}
type Bad5 struct {
	A map[string]string "attr:\"$b1\""
}
type Bad6 struct {
	A map[string][]Leaf "attr:\"$b1\""
}
type Bad7 struct {
	A []int64 "attr:\"$b1,value=$v1\""
}
type Bad8 struct {
	A []Leaf "attr:\"$b1,value=$v1\""
}
type Bad9 struct {
	A []*string "attr:\"$b1,value=$v1\""
}
type Bad10 struct {
	A map[string]**Leaf "attr:\"$b1\""
}
type Bad11 struct {
	A map[string]any "attr:\"$b1\""
}
type Bad12 struct {
	A string    "attr:\"$c1\""
	B map[string]*Bad3 "attr:\"$c2\""
}
type Bad13 struct {
	A *Bad13  "attr:\"$d1\""
	B []Bad12 "attr:\"$d2\""
}
type Bad14 struct {
	A string "attr:\"$a1,identity,unique\""
}
type Bad15 struct {
	A []uint8 "attr:\"$a1,value=$v1\""
}
type Bad16 struct {
	A []any "attr:\"$a1,value=$v1\""
}

type Nested struct {
	A *struct {
		B *struct {
			C int "attr:\"$a1\""
		} "attr:\"$a2\""
	} "attr:\"$a3\""
}

func Local() reflect.Type {
	type Local struct {
		A string "attr:\"$a1\""
	}
	type Middle struct {
		A Local "attr:\"$c2\""
	}
	{
		type Local struct {
			A *Middle "attr:\"$b1\""
			B string "attr:\"$b2,unique\""
		}
		type Local2 struct {
			A []Local "attr:\"$c1\""
		}
		return reflect.TypeFor[Local2]()
	}
}

func Schema(typ reflect.Type) ([]Claim, error) {
	return schemas.Analyze(typ)
}

var _ Claim
`

var schemaRoots = []string{"Leaf", "Scalars", "Pointers", "Empty", "Untagged", "OnlyID", "ByValue", "ByPointer", "BySlice", "ByMap", "ByMapPointer", "ByNamed", "Two", "Leaf2", "Leaf3", "Chain1", "SelfPointer", "SelfSlice", "SelfMap", "Ping", "Pong", "Pung", "Values", "DeepValues", "Same", "Generic", "Embeds", "Anonymous", "Nested", "Timely", "Timely2", "Timely3", "Bad1", "Bad2", "Bad3", "Bad4", "Bad5", "Bad6", "Bad7", "Bad8", "Bad9", "Bad10", "Bad11", "Bad12", "Bad13", "Bad14", "Bad15", "Bad16"}

func init() {
	register("C23", "schemas.Analyze is interpreted abstractly on families of struct types which refer to each other by values, pointers, slices and maps, in chains, in cycles and shared, with slices of scalars at several depths, with unknown idents, iterating over its maps in every order. The rule: on every path the claims are exactly one new entity for each tagged field of each reachable struct type and for each value attribute of slices of scalars, which has its ident, its attribute type, its uniqueness and its cardinality, or there is an error exactly if a reachable type is specified to be unsupported, and the analysis ends.", checkSchemas)
}

// decl is the declaration of an attribute.
type decl struct {
	ident        Val
	attr, unique string
	many         bool
}

// schemaSpec gives the declarations of the struct types reachable from the type.
func schemaSpec(p *Program, root types.Type) (decls []decl, bad, either bool) {
	var done []types.Type
	var visit func(t types.Type)
	visit = func(t types.Type) {
		t = types.Unalias(t)
		for _, d := range done {
			if types.Identical(d, t) {
				return
			}
		}
		done = append(done, t)
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			bad = true
			return
		}
		if isTime(t) {
			either = true
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			tag, ok := reflect.StructTag(s.Tag(i)).Lookup("attr")
			if !ok {
				continue
			}
			ft := s.Field(i).Type()
			f := modelSpec(p, ft, tag, i, tag == "sys/db/id")
			bad = bad || f.err
			if f.attr == "" {
				continue
			}
			k := kindOf(ft)
			decls = append(decls, decl{f.ident, f.attr, f.unique, k == reflect.Map || k == reflect.Slice})
			if f.attr != "AttrTypeRef" {
				continue
			}
			switch u := ft.Underlying().(type) {
			case *types.Pointer:
				visit(u.Elem())
			case *types.Map:
				el := u.Elem()
				if q, ok := el.Underlying().(*types.Pointer); ok {
					el = q.Elem()
				}
				visit(el)
			case *types.Slice:
				if len(f.vals) == 0 {
					visit(u.Elem())
					break
				}
				a := scalarAttrType(u.Elem())
				bad = bad || a == ""
				decls = append(decls, decl{ident: f.val, attr: a})
			default:
				visit(ft)
			}
		}
	}
	visit(root)
	return
}

// tagNames are the names of the unknown pieces of the text.
func tagNames(src string) (out []string) {
	seen := map[string]bool{}
	for i := 0; i < len(src); i++ {
		if src[i] != '$' {
			continue
		}
		n := i + 1
		for n < len(src) && (src[n] >= 'a' && src[n] <= 'z' || src[n] >= '0' && src[n] <= '9') {
			n++
		}
		if s := src[i:n]; !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return
}

// attrName names the attribute of a claim.
func attrName(p *Program, v Val) string {
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	if n, ok := constInt(v); ok {
		for _, k := range []string{"DbIdent", "AttrType", "AttrUnique", "AttrCardinality", "DbRank"} {
			if sysID(p, k) == n {
				return k
			}
		}
	}
	if s, ok := constStr(v); ok {
		k, ok := map[string]string{"sys/db/ident": "DbIdent", "sys/attr/type": "AttrType", "sys/attr/unique": "AttrUnique", "sys/attr/cardinality": "AttrCardinality", "sys/db/rank": "DbRank"}[s]
		if ok {
			return k
		}
	}
	return ""
}

// declKey describes the declaration.
func declKey(ident Val, attr, unique string, many bool) string {
	s := ident.Key() + " of " + attr
	if unique != "" {
		s += " " + unique
	}
	if many {
		s += " many"
	}
	return s
}

// checkDecls compares the claims with the declarations which there should be.
func checkDecls(p *Program, st *State, claims Val, want []decl) string {
	ids := map[int64]string{}
	for _, k := range []string{"AttrTypeRef", "AttrTypeString", "AttrTypeInt", "AttrTypeBool", "AttrTypeInst", "AttrTypeFloat", "AttrUniqueIdentity", "AttrUniqueValue", "AttrCardinalityMany"} {
		ids[sysID(p, k)] = k
	}
	type group struct {
		facts map[string]Val
	}
	groups := map[string]*group{}
	var order []string
	for _, c := range eList(st, claims) {
		s, ok := st.norm(c).(*Struct)
		if !ok {
			st.eng.failf("a claim is not known")
		}
		get := func(n string) Val { return st.normDeep(s.Fs[fieldIndex(s.Typ, n)]) }
		if r, _ := constBool(get("Retract")); r {
			return "a claim is a retraction"
		}
		e, ok := get("E").(*Iface)
		if !ok || typKey(e.Dyn) != "types.TempID" {
			return "a claim's entity is " + shortKey(get("E"))
		}
		a := attrName(p, get("A"))
		if a == "" || a == "DbRank" {
			return "a claim's attribute is " + shortKey(get("A"))
		}
		g := groups[e.V.Key()]
		if g == nil {
			g = &group{map[string]Val{}}
			groups[e.V.Key()] = g
			order = append(order, e.V.Key())
		}
		if w, ok := g.facts[a]; ok && w.Key() != get("V").Key() {
			return fmt.Sprintf("an entity's %s is both %s and %s", a, shortKey(w), shortKey(get("V")))
		}
		g.facts[a] = get("V")
	}
	have := map[string]bool{}
	for _, k := range order {
		g := groups[k]
		id := func(a string) string {
			v, ok := g.facts[a]
			if !ok {
				return ""
			}
			i, ok := v.(*Iface)
			if ok && typKey(i.Dyn) == "types.ID" {
				if n, ok := constInt(i.V); ok && ids[n] != "" {
					return ids[n]
				}
			}
			return shortKey(v)
		}
		i, ok := g.facts["DbIdent"].(*Iface)
		if !ok || typKey(i.Dyn) != "types.String" {
			return "an entity is declared without an ident"
		}
		card := id("AttrCardinality")
		if card != "" && card != "AttrCardinalityMany" {
			return "a cardinality is " + card
		}
		have[declKey(i.V, id("AttrType"), id("AttrUnique"), card != "")] = true
	}
	wanted := map[string]bool{}
	for _, d := range want {
		wanted[declKey(d.ident, d.attr, d.unique, d.many)] = true
	}
	for _, k := range sortedKeys(wanted) {
		if !have[k] {
			return fmt.Sprintf("there is no declaration of %s, but %s", k, strings.Join(sortedKeys(have), "; "))
		}
	}
	for _, k := range sortedKeys(have) {
		if !wanted[k] {
			return "there is a declaration of " + k
		}
	}
	return ""
}

// ends attempts what must come to an end.
func (r *Report) ends(e *Engine, rule, endRule, subject, where string, f func()) {
	if r.endless >= 4 {
		return // Enough has been found not to end.
	}
	r.attempt(rule, subject, func() {
		ended := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					ef, isF := x.(engineFailure)
					if isF && ef.endless || isF && ef.spent && r.endless == 0 && r.endlessOnce(e, f) {
						return
					}
					panic(x)
				}
			}()
			f()
			return true
		}()
		if !r.check(ended, endRule, subject, where, "it does not come to an end") {
			r.endless++
		}
	})
}

// endlessOnce tells whether the way on which maps give their entries in one order does not come to an end.
func (r *Report) endlessOnce(e *Engine, f func()) (endless bool) {
	if !e.anyOrder {
		return
	}
	e.anyOrder = false
	e.steps = 0
	defer func() {
		e.anyOrder = true
		if x := recover(); x != nil {
			ef, isF := x.(engineFailure)
			endless = isF && ef.endless
		}
	}()
	f()
	return
}

func docImports(pkgs ...string) string {
	var b strings.Builder
	b.WriteString("package verifdocs\n\nimport (\n\t\"reflect\"\n\t\"time\"\n")
	for _, k := range pkgs {
		dot := ""
		if strings.HasSuffix(k, "/types") {
			dot = ". "
		}
		b.WriteString("\t" + dot + "\"" + modPath + "/" + k + "\"\n")
	}
	b.WriteString(")\n\nvar _ time.Time\nvar _ reflect.Type\n")
	return b.String()
}

const namedScalars = `
type MyBool bool
type MyInt int
type MyString string
type MyFloat float64
type MyTime time.Time
`

func checkSchemas(r *Report) {
	p, err := structProgram(r.p.root, docImports("internal/types", "internal/structs/schemas")+namedScalars+schemaDocs)
	if err != nil {
		r.attempts++
		r.undecided(ruleSchemaDecl, "program", "the scenarios do not load: %v", err)
		return
	}
	for _, rule := range []string{ruleSchemaDecl, ruleSchemaReject, ruleSchemaEnds, ruleSchemaCrash} {
		r.rule(rule)
	}
	e := structEngine(p)
	e.anyOrder = true
	fn := p.fn(docsPkg, "Schema")
	where := "internal/structs/schemas/schemas.go"
	if f := p.fn("internal/structs/schemas", "Analyze"); f != nil {
		where = p.pos(f.Pos()) + " in " + fnName(f)
	}
	dbid := mkStr(sysText(p, "DbId"))
	steps := 0
	names := tagNames(schemaDocs)
	run := func(subject string, arg Val, want []decl, bad, either bool) {
		r.ends(e, ruleSchemaDecl, ruleSchemaEnds, subject, where, func() {
			st := tagState(e, names...)
			for _, n := range names {
				st.assume(mkEq(placeholder(n[1:]), dbid), false)
			}
			e.steps = 0
			for _, o := range e.invoke(st, &FuncV{Fn: fn}, arg) {
				if !r.check(o.panic == "", ruleSchemaCrash, subject, where, "panics: %s", o.panic) {
					continue
				}
				rs := o.ret.(*Tuple).Vs
				failed := !isNilError(o.st, rs[1])
				switch {
				case bad:
					r.check(failed, ruleSchemaReject, subject, where, "there is no error")
				case failed:
					r.check(either, ruleSchemaDecl, subject, where, "there is an error")
				default:
					d := checkDecls(p, o.st, rs[0], want)
					r.check(d == "", ruleSchemaDecl, subject, where, "%s", d)
				}
			}
		})
		steps += e.steps
	}
	for _, n := range schemaRoots {
		t := p.typ(docsPkg, n)
		want, bad, either := schemaSpec(p, t)
		run("the schema of "+n, rtypeOf(t), want, bad, either)
	}
	for _, o := range e.invoke(e.newState(), &FuncV{Fn: p.fn(docsPkg, "Local")}) {
		if t, ok := typeOfR(o.st.norm(o.ret)); ok {
			want, bad, either := schemaSpec(p, t)
			run("the schema of types of the same name", rtypeOf(t), want, bad, either)
		}
	}
	for _, t := range []types.Type{types.Typ[types.Int], types.NewPointer(p.typ(docsPkg, "Leaf")), types.NewSlice(p.typ(docsPkg, "Leaf"))} {
		run("the schema of "+typKey(t), rtypeOf(t), nil, true, false)
	}
	e.steps = steps
	r.use(e)
}
