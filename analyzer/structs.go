package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// The analysis of struct types, the shredding of structs and their assembly are interpreted over
// scenarios: source of Go which is loaded along with the program, but never run.

const (
	modelsPkg = "internal/structs/models"
	docsPkg   = "internal/verifdocs"
)

// structProgram loads the program with the scenarios.
func structProgram(root, src string) (*Program, error) {
	return loadProgramWith(root, map[string][]byte{root + "/" + docsPkg + "/docs.go": []byte(src)})
}

// structEngine makes an engine for the program in which package reflect is modelled.
func structEngine(p *Program) *Engine {
	e := newEngine(p)
	reflectModels(e)
	textModels(e)
	numModels(e)
	textFolds(e)
	e = initEngineWith(e)
	e.strict = true
	e.unroll = true
	e.nocoarse = true
	e.maxRec = 60
	e.maxStep = 6000000
	e.maxPath = 120000
	return e
}

// goTypeCase is a Go type a field may have, with what the modelling of it should be.
type goTypeCase struct {
	expr string
	attr string // sys constant of the attribute type, or empty if there is none
}

var scalarAttrs = map[reflect.Kind]string{reflect.Bool: "AttrTypeBool", reflect.Int: "AttrTypeInt", reflect.String: "AttrTypeString", reflect.Float64: "AttrTypeFloat"}

func isTime(t types.Type) bool { return types.TypeString(t, nil) == "time.Time" }

// attrTypeFor names the attribute type of fields of the type, or gives nothing if there is none.
func attrTypeFor(t types.Type) string {
	switch k := kindOf(t); k {
	case reflect.Pointer:
		el := t.Underlying().(*types.Pointer).Elem()
		switch kindOf(el) {
		case reflect.Pointer, reflect.Map, reflect.Slice:
			return ""
		}
		return attrTypeFor(el)
	case reflect.Map, reflect.Slice:
		return "AttrTypeRef"
	case reflect.Struct:
		if isTime(t) {
			return "AttrTypeInst"
		}
		return "AttrTypeRef"
	default:
		return scalarAttrs[k]
	}
}

// scalarAttrType names the attribute type of scalars of the type.
func scalarAttrType(t types.Type) string {
	if isTime(t) {
		return "AttrTypeInst"
	}
	return scalarAttrs[kindOf(t)]
}

// sysID gives the named id of package sys.
func sysID(p *Program, name string) int64 {
	sp := p.pkgs["internal/sys"]
	if sp == nil {
		return -1
	}
	c, ok := sp.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return -1
	}
	n, _ := constant.Int64Val(c.Val())
	return n
}

func sysText(p *Program, name string) string {
	sp := p.pkgs["internal/sys"]
	if sp == nil {
		return ""
	}
	c, ok := sp.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return ""
	}
	return constant.StringVal(c.Val())
}

const typeDecls = `
type MyBool bool
type MyInt int
type MyString string
type MyFloat float64
type MyTime time.Time
type MyInt64 int64
type Child struct {
	Name string ` + "`attr:\"child/name\"`" + `
}
type Plain struct {
	Name string
}
type MySlice []Child
type MyMap map[string]Child
type MyPtr *Child
type Stringer interface{ String() string }
`

// scalarExprs are Go types which are not composed of others, one of each kind and some named ones.
var scalarExprs = []string{"bool", "int", "string", "float64", "time.Time", "MyBool", "MyInt", "MyString", "MyFloat",
	"int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "complex64", "complex128",
	"time.Duration", "MyInt64", "MyTime", "Child", "Plain", "struct{}"}

// otherExprs are Go types which no field may have.
var otherExprs = []string{"[2]int", "[0]Child", "chan int", "func()", "any", "error", "Stringer", "unsafe.Pointer"}

func fieldExprs() []string {
	var out []string
	out = append(out, scalarExprs...)
	out = append(out, otherExprs...)
	for _, x := range append(append([]string{}, scalarExprs...), otherExprs...) {
		out = append(out, "*"+x)
	}
	out = append(out, "**int", "**Child", "*[]int", "*[]Child", "*map[string]Child", "*MySlice", "*MyMap", "*MyPtr")
	for _, x := range []string{"string", "int", "time.Time", "Child", "*Child", "[]Child", "int64", "any"} {
		out = append(out, "[]"+x, "map[string]"+x, "map[int]"+x)
	}
	return append(out, "MySlice", "MyMap", "MyPtr", "map[time.Time]Child", "map[uint64]Child")
}

// fieldCase is a struct of a field whose tag and type are given.
type fieldCase struct {
	name string
	expr string
	tag  string
}

// directiveParts are what the directives of the tags considered are taken from.
var directiveParts = []string{"identity", "unique", "ignoreempty", "key=$k", "value=$v", "$o", "keys=$o", "Identity", "key", "ident", "=$o"}

// knownTags are tags of known idents, of the letters of the directives and others.
var knownTags = []string{"value/v,value=value/a,key=key/k", "key/k,key=user/key,value=yet/eulav", "a/value=,key==,value==", "identity", "unique,unique", "identity,identity,key=identity", "ignoreempty/x,key=unique,value=ignoreempty",
	"UPPER/Case,key=Key,value=VALUE", "é/ü,key=ß,value=日本", "a/b/c,value=a/b/c/d,key=sys/db/ident", "sys/db/ident", "sys/db/identity,unique", "sys/db/id2,key=sys/db/id,value=sys/db/rank", ":a/b,key=:k,value=:v", "a.b-c_d,key=k.,value=-v_", "sys/db/ID", "/sys/db/id", "x, key=k", "0,key=1,value=2", ",identity", "$a,key=key=key,value=value=value"}

func fieldCases(tier string) []fieldCase {
	var out []fieldCase
	add := func(expr, tag string) {
		out = append(out, fieldCase{fmt.Sprintf("F%d", len(out)), expr, tag})
	}
	for _, x := range fieldExprs() {
		for _, t := range []string{"$a", "sys/db/id", "$a,key=$k", "$a,value=$v", "$a,identity,ignoreempty"} {
			add(x, t)
		}
	}
	var lists func(prefix string, n int)
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	lists = func(prefix string, n int) {
		if n > 0 {
			add("string", prefix)
		}
		if n >= depth+1 {
			return
		}
		parts := directiveParts
		if n >= 2 {
			parts = parts[:6]
		}
		for _, d := range parts {
			d = strings.NewReplacer("$k", fmt.Sprintf("$k%d", n), "$v", fmt.Sprintf("$v%d", n), "$o", fmt.Sprintf("$o%d", n)).Replace(d)
			lists(prefix+","+d, n+1)
		}
	}
	lists("$a", 0)
	for _, t := range []string{"$a,ignoreempty,key=$k,value=$v,unique", "$a,key=$k,identity,value=$v,ignoreempty", "$a,value=$v,ignoreempty,identity,key=$k", "$a,unique,value=$v,key=$k,ignoreempty", "$a,unique,value=$v,key=$k,ignoreempty,$o", "$a,ignoreempty,key=$k,value=$v,identity,unique", " $a", "$a ", "$a, identity", "$a,identity ", "$a,key= $k", "$a,key=$k ", "$a,value= $v", "$a,value=$v ", "$a,", "$a,,identity", "$a,identity,", "$a,key=", "$a,value=", "$a,identity=$v", "$a,ignoreempty,ignoreempty", "$a,key=$k=$l", "$a,value==$v", "$a,Unique", "$a,IGNOREEMPTY", "$a,omitempty"} {
		add("string", t)
	}
	for _, t := range knownTags {
		add("string", t)
	}
	for _, t := range []string{"$a,identity", "$a,unique", "$a,key=$k,value=$v", "$a,ignoreempty,unique,key=$k"} {
		add("[]string", t)
		add("map[string]Child", t)
		add("*Child", t)
	}
	return out
}

func modelDocs(cases []fieldCase) string {
	var b strings.Builder
	b.WriteString("package verifdocs\n\nimport (\n\t\"reflect\"\n\t\"time\"\n\t\"unsafe\"\n\n\t\"" + modPath + "/" + modelsPkg + "\"\n)\n\nvar _ time.Time\nvar _ unsafe.Pointer\n" + typeDecls)
	for _, c := range cases {
		fmt.Fprintf(&b, "type %s struct {\n\tF %s `attr:\"%s\"`\n}\n", c.name, c.expr, c.tag)
	}
	b.WriteString(`
type Several struct {
	Ignored  chan int
	A        string  ` + "`json:\"a\" attr:\"$a,identity\"`" + `
	Other    []any ` + "`json:\"other\"`" + `
	B        int     ` + "`attr:\"$b\" json:\"b\"`" + `
	private  bool
	C        *Child  ` + "`attr:\"$c,ignoreempty\"`" + `
	id       uint64
	D        uint64  ` + "`attr:\"sys/db/id\"`" + `
	e        float64 ` + "`attr:\"$e\"`" + `
}
type SeveralBad struct {
	A        string  ` + "`attr:\"$a\"`" + `
	B        chan int     ` + "`attr:\"$b\"`" + `
	C        *Child  ` + "`attr:\"$c\"`" + `
}
type None struct {
	A string
	b chan int
}
type NoTags struct{}

func Direct(typ reflect.Type) (models.StructModel, error) {
	return models.Analyze(typ)
}

func Again(typ reflect.Type) (a models.StructModel, aerr error, b models.StructModel, berr error) {
	z := models.BuildCachingAnalyzer()
	a, aerr = z.Analyze(typ)
	b, berr = z.Analyze(typ)
	return
}

func Others(typ, other reflect.Type) (a models.StructModel, aerr error, b models.StructModel, berr error, c models.StructModel, cerr error) {
	z := models.BuildCachingAnalyzer()
	a, aerr = z.Analyze(typ)
	b, berr = z.Analyze(other)
	c, cerr = z.Analyze(typ)
	return
}
`)
	b.WriteString(localDocs)
	return b.String()
}

const localDocs = `
func one() reflect.Type {
	type Local struct {
		A string "attr:\"$a\""
	}
	return reflect.TypeFor[Local]()
}

func two() reflect.Type {
	type Local struct {
		A string "attr:\"$b,identity\""
		B int "attr:\"$c\""
	}
	return reflect.TypeFor[Local]()
}

func three() reflect.Type {
	return reflect.TypeFor[struct {
		B bool "attr:\"$b\""
	}]()
}

func four() reflect.Type {
	return reflect.TypeFor[struct {
		B bool "attr:\"$c\""
	}]()
}

func Locals() (at reflect.Type, a models.StructModel, aerr error, bt reflect.Type, b models.StructModel, berr error, ct reflect.Type, c models.StructModel, cerr error, dt reflect.Type, d models.StructModel, derr error) {
	z := models.BuildCachingAnalyzer()
	at, bt, ct, dt = one(), two(), three(), four()
	a, aerr = z.Analyze(at)
	b, berr = z.Analyze(bt)
	c, cerr = z.Analyze(ct)
	d, derr = z.Analyze(dt)
	return
}
`

const (
	ruleModelField  = "a tagged field is modelled"
	ruleModelReject = "an unsupported field is rejected"
	ruleModelStruct = "a struct's fields are modelled in order"
	ruleModelSame   = "analysing again gives the same model"
	ruleModelCrash  = "no analysis of a type crashes"
)

func init() {
	register("C22", "models.Analyze and the caching analyzer are interpreted abstractly on struct types of one field of each Go kind, composed by pointers, slices and maps, whose tags are lists of known and unknown directives with unknown idents, and on structs of several fields. Package reflect is modelled over the type checker's types and tags are texts with unknown pieces. The rule: on every path, the model has the ident, directives, index and attribute type of each tagged field which are specified for its Go type and tag, or there is an error exactly if the type or tag is specified to be unsupported, and analysing a type again gives the same.", checkModels)
}

type modelField struct {
	ident, key, val Val
	keys, vals      []Val // what these may be
	index           int
	typ             types.Type
	unique          string
	attr            string
	ignore          bool
	err             bool // rejected
	either          bool // may be rejected
	keyGiven        bool
}

// modelSpec says what the field is modelled as, in a world which tells whether it is the entity's id.
func modelSpec(p *Program, t types.Type, tag string, index int, isID bool) modelField {
	parts := strings.Split(tag, ",")
	f := modelField{ident: template(parts[0]), index: index, typ: t, key: mkStr(""), val: mkStr("")}
	if isID {
		f.ident = mkStr(sysText(p, "DbId"))
	}
	for _, d := range parts[1:] {
		switch {
		case d == "identity" || d == "unique":
			name := map[string]string{"identity": "AttrUniqueIdentity", "unique": "AttrUniqueValue"}[d]
			if f.unique == name {
				f.either = true
			} else if f.unique != "" {
				f.err = true
			}
			f.unique = name
		case d == "ignoreempty":
			f.ignore = true
		case strings.HasPrefix(d, "key="):
			f.key = template(d[4:])
			f.keys = append(f.keys, f.key)
			f.keyGiven = true
		case strings.HasPrefix(d, "value="):
			f.val = template(d[6:])
			f.vals = append(f.vals, f.val)
		default:
			f.err = true
		}
	}
	if len(f.keys) > 1 || len(f.vals) > 1 {
		f.either = true
	}
	if isID {
		return f
	}
	f.attr = attrTypeFor(t)
	if f.attr == "" {
		f.err = true
	}
	if kindOf(t) == reflect.Map && !f.keyGiven {
		f.key = mkStr(sysText(p, "DbId"))
	}
	return f
}

// checkFields compares the model with the fields it should have.
func checkFields(r *Report, p *Program, st *State, model Val, t types.Type, want []modelField) string {
	m, ok := model.(*Struct)
	if !ok {
		return "the model is " + shortKey(model)
	}
	if y := m.Fs[fieldIndex(m.Typ, "Type")]; y.Key() != rtypeOf(t).Key() {
		return "the model is of the type " + shortKey(y)
	}
	l := eList(st, m.Fs[fieldIndex(m.Typ, "AttrFields")])
	if len(l) != len(want) {
		return fmt.Sprintf("%d fields are modelled, not %d", len(l), len(want))
	}
	for i, w := range want {
		f, ok := l[i].(*Struct)
		if !ok {
			return "a field's model is not known"
		}
		get := func(n string) Val {
			k := fieldIndex(f.Typ, n)
			if k < 0 {
				st.eng.failf("models of fields have no %s", n)
			}
			return st.norm(f.Fs[k])
		}
		id := func(name string) Val {
			if name == "" {
				return mkInt(0)
			}
			return mkInt(sysID(p, name))
		}
		same := func(n string, v Val) string {
			g := get(n)
			if eq, ok := st.decideEq(g, st.norm(v)); !ok || !eq {
				return fmt.Sprintf("%s of field %d is %s, not %s", n, w.index, shortKey(g), shortKey(v))
			}
			return ""
		}
		oneOf := func(n string, v Val, vs []Val) string {
			if len(vs) < 2 {
				return same(n, v)
			}
			for _, y := range vs {
				if same(n, y) == "" {
					return ""
				}
			}
			return same(n, v)
		}
		for _, bad := range []string{
			same("Ident", w.ident), same("Index", mkInt(int64(w.index))), same("FieldType", rtypeOf(w.typ)), same("Unique", id(w.unique)),
			same("Type", id(w.attr)), same("IgnoreEmpty", boolV(w.ignore)), oneOf("MapKey", w.key, w.keys), oneOf("CollValue", w.val, w.vals),
		} {
			if bad != "" {
				return bad
			}
		}
	}
	return ""
}

// eList gives the elements of the slice.
func eList(st *State, v Val) []Val {
	if isNilV(v) {
		return nil
	}
	l := st.eng.asList(st, v, types.NewInterfaceType(nil, nil))
	if l.Rest {
		st.eng.failf("a list is not known")
	}
	return l.Els
}

// tagState makes a world in which the unknown idents and directives of tags are none of the known directives.
func tagState(e *Engine, tags ...string) *State {
	st := e.newState()
	seen := map[string]*Sym{}
	for _, t := range tags {
		ps, _ := pieces(template(t))
		for _, q := range ps {
			if s, ok := q.(*Sym); ok {
				seen[s.Key()] = s
			}
		}
	}
	for _, k := range sortedKeys(seen) {
		st.mon["tag:"+k] = seen[k]
	}
	return st
}

func isNilError(st *State, v Val) bool {
	r, ok := st.decideEq(v, nilV)
	if !ok {
		st.eng.failf("whether there is an error is not known")
	}
	return r
}

func checkModels(r *Report) {
	cases := fieldCases(r.tier)
	p, err := structProgram(r.p.root, modelDocs(cases))
	if err != nil {
		r.attempts++
		r.undecided(ruleModelField, "program", "the scenarios do not load: %v", err)
		return
	}
	for _, rule := range []string{ruleModelField, ruleModelReject, ruleModelStruct, ruleModelSame, ruleModelCrash} {
		r.rule(rule)
	}
	direct, again, others := p.fn(docsPkg, "Direct"), p.fn(docsPkg, "Again"), p.fn(docsPkg, "Others")
	e := structEngine(p)
	where := "internal/structs/models/models.go"
	if f := p.fn(modelsPkg, "Analyze"); f != nil {
		where = p.pos(f.Pos()) + " in " + fnName(f)
	}
	dbid := mkStr(sysText(p, "DbId"))
	// run interprets the function on the types and gives its results in every world.
	run := func(subject string, st *State, f func(st *State, rs []Val), fn Val, ts ...types.Type) {
		var args []Val
		for _, t := range ts {
			args = append(args, rtypeOf(t))
		}
		e.steps = 0
		for _, o := range e.invoke(st, fn, args...) {
			if !r.check(o.panic == "", ruleModelCrash, subject, where, "panics: %s", o.panic) {
				continue
			}
			f(o.st, o.ret.(*Tuple).Vs)
		}
	}
	steps := 0
	for _, c := range cases {
		t := p.typ(docsPkg, c.name)
		ft := t.Underlying().(*types.Struct).Field(0).Type()
		subject := fmt.Sprintf("a field of type %s with the tag %s", c.expr, c.tag)
		r.attempt(ruleModelField, subject, func() {
			run(subject, tagState(e, c.tag), func(st *State, rs []Val) {
				ident := template(strings.Split(c.tag, ",")[0])
				for _, w := range e.branch(st, st.mkEqV(st.norm(ident), dbid)) {
					spec := modelSpec(p, ft, c.tag, 0, w.r)
					failed := !isNilError(w.st, rs[1])
					switch {
					case spec.err:
						r.check(failed, ruleModelReject, subject, where, "there is no error")
					case failed:
						r.check(spec.either, ruleModelField, subject, where, "there is an error")
					default:
						bad := checkFields(r, p, w.st, rs[0], t, []modelField{spec})
						r.check(bad == "", ruleModelField, subject, where, "%s", bad)
					}
				}
			}, &FuncV{Fn: direct}, t)
		})
		steps += e.steps
	}
	// Structs of several fields, and what is no struct.
	specs := func(t types.Type) (out []modelField, err bool) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			tag, ok := reflect.StructTag(s.Tag(i)).Lookup("attr")
			if !ok {
				continue
			}
			f := modelSpec(p, s.Field(i).Type(), tag, i, tag == "sys/db/id")
			err = err || f.err
			out = append(out, f)
		}
		return
	}
	tagsOf := func(st *State) {
		for _, n := range []string{"a", "b", "c", "e"} {
			st.assume(mkEq(placeholder(n), dbid), false)
		}
	}
	for _, n := range []string{"Several", "SeveralBad", "None", "NoTags", "Child", "Plain"} {
		t := p.typ(docsPkg, n)
		want, bad := specs(t)
		for _, f := range []struct {
			name string
			fn   Val
			ts   []types.Type
		}{{"Direct", &FuncV{Fn: direct}, []types.Type{t}}, {"Again", &FuncV{Fn: again}, []types.Type{t}}, {"Others", &FuncV{Fn: others}, []types.Type{t, p.typ(docsPkg, "None")}}, {"Others", &FuncV{Fn: others}, []types.Type{t, p.typ(docsPkg, "SeveralBad")}}} {
			subject := "a struct of the fields of " + n
			if f.name != "Direct" {
				subject += " analysed again"
			}
			r.attempt(ruleModelStruct, subject, func() {
				st := tagState(e, "$a", "$b", "$c", "$e")
				tagsOf(st)
				run(subject, st, func(st *State, rs []Val) {
					for k := 0; k+1 < len(rs); k += 2 {
						rule := ruleModelStruct
						if k > 0 {
							rule = ruleModelSame
						}
						want, bad, t := want, bad, t
						if len(rs) == 6 && k == 2 {
							t = f.ts[1]
							want, bad = specs(t)
						}
						if failed := !isNilError(st, rs[k+1]); failed || bad {
							r.check(failed == bad, rule, subject, where, "analysis %d: the error is %s", k/2+1, shortKey(rs[k+1]))
							continue
						}
						d := checkFields(r, p, st, rs[k], t, want)
						r.check(d == "", rule, subject, where, "analysis %d: %s", k/2+1, d)
					}
				}, f.fn, f.ts...)
			})
			steps += e.steps
		}
	}
	r.attempt(ruleModelSame, "types of the same name", func() {
		st := tagState(e, "$a", "$b", "$c")
		tagsOf(st)
		run("types of the same name", st, func(st *State, rs []Val) {
			for k := 0; k < len(rs); k += 3 {
				t, ok := typeOfR(st.norm(rs[k]))
				if !ok {
					e.failf("a type is not known")
				}
				want, _ := specs(t)
				if r.check(isNilError(st, rs[k+2]), ruleModelSame, "types of the same name", where, "analysis %d: the error is %s", k/3+1, shortKey(rs[k+2])) {
					d := checkFields(r, p, st, rs[k+1], t, want)
					r.check(d == "", ruleModelSame, "types of the same name", where, "analysis %d: %s", k/3+1, d)
				}
			}
		}, &FuncV{Fn: p.fn(docsPkg, "Locals")})
	})
	for _, t := range []types.Type{types.Typ[types.Int], types.NewPointer(p.typ(docsPkg, "Child")), types.NewSlice(p.typ(docsPkg, "Child")), nil, types.NewPointer(types.Typ[types.Int])} {
		subject := "what is no struct: " + typKey(t)
		r.attempt(ruleModelReject, subject, func() {
			var arg Val = nilV
			if t != nil {
				arg = rtypeOf(t)
			}
			e.steps = 0
			for _, o := range e.invoke(e.newState(), &FuncV{Fn: direct}, arg) {
				if !r.check(o.panic == "", ruleModelCrash, subject, where, "panics: %s", o.panic) {
					continue
				}
				r.check(!isNilError(o.st, o.ret.(*Tuple).Vs[1]), ruleModelReject, subject, where, "there is no error")
			}
		})
	}
	e.steps = steps
	r.use(e)
	sort.Strings(r.notes)
}
