package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register("C10", "The initialisers of the sys package are interpreted to give the contents of its datum list, attribute table and ident table, which are compared entry by entry in every direction; the value predicates are interpreted abstractly for every vocabulary id and for an arbitrary other id, with every value type and with nil. The rule: the tables describe one vocabulary, and each predicate accepts exactly the ids of its part of the vocabulary, by ident.", checkC10)
}

const sysPkg = "internal/sys"
const typesPkg = "internal/types"

// Vocab is the system's vocabulary as the datums have it.
type Vocab struct {
	e       *Engine
	byIdent map[string]int64
	byID    map[int64]string
	first   int64 // the first user id
}

// kinds gives the value type of each attribute type, by the last part of its ident.
var kinds = []struct{ ident, typ string }{
	{"sys/attr/type/ref", "ID"}, {"sys/attr/type/string", "String"}, {"sys/attr/type/int", "Int"},
	{"sys/attr/type/bool", "Bool"}, {"sys/attr/type/inst", "Inst"}, {"sys/attr/type/float", "Float"},
}

type tableDatum struct {
	e, a, t int64
	v       *Iface
}

// tableDatums reads the datums of a concrete list.
func tableDatums(e *Engine, v Val) []tableDatum {
	st := e.newState()
	dt := e.mustType(typesPkg, "Datum")
	ei, ai, vi, ti := fieldIndex(dt, "E"), fieldIndex(dt, "A"), fieldIndex(dt, "V"), fieldIndex(dt, "T")
	o := e.asList(st, v, dt)
	if o.Rest {
		e.failf("the datums are not known")
	}
	var out []tableDatum
	for _, el := range o.Els {
		s, ok := el.(*Struct)
		if !ok {
			e.failf("a datum is not known: %s", shortKey(el))
		}
		var d tableDatum
		var ok1, ok2, ok3, ok4 bool
		d.e, ok1 = constInt(s.Fs[ei])
		d.a, ok2 = constInt(s.Fs[ai])
		d.t, ok3 = constInt(s.Fs[ti])
		d.v, ok4 = s.Fs[vi].(*Iface)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			e.failf("a datum is not known: %s", shortKey(el))
		}
		out = append(out, d)
	}
	return out
}

func (e *Engine) constOf(pkg, name string) constant.Value {
	sp := e.p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return c.Val()
}

// globalOfType finds the one package variable of the type.
func (e *Engine) globalOfType(pkg string, want func(types.Type) bool, what string) Val {
	sp := e.p.spkgs[pkg]
	var found Val
	for _, n := range sp.Pkg.Scope().Names() {
		v, ok := sp.Pkg.Scope().Lookup(n).(*types.Var)
		if !ok || !want(v.Type()) {
			continue
		}
		if found != nil {
			e.failf("several package variables of %s could be the %s", pkg, what)
		}
		found = e.globalVal(pkg, n)
	}
	if found == nil {
		e.failf("no package variable of %s is the %s", pkg, what)
	}
	return found
}

func (e *Engine) sysTables() (datums, attrs, idents Val) {
	dt, at, id, ident := e.mustType(typesPkg, "Datum"), e.mustType(typesPkg, "Attr"), e.mustType(typesPkg, "ID"), e.mustType(typesPkg, "Ident")
	datums = e.globalOfType(sysPkg, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), dt)
	}, "datum list")
	attrs = e.globalOfType(sysPkg, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), id) && types.Identical(m.Elem(), at)
	}, "attribute table")
	idents = e.globalOfType(sysPkg, func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), ident) && types.Identical(m.Elem(), id)
	}, "ident table")
	return
}

// vocab reads the vocabulary from the ident datums, which are those whose attribute has the ident sys/db/ident.
func vocab(e *Engine) *Vocab {
	v := &Vocab{e: e, byIdent: map[string]int64{}, byID: map[int64]string{}}
	datums, _, idents := e.sysTables()
	st := e.newState()
	ids := e.mapEntries(st, idents)
	var identID int64
	for _, en := range ids {
		if s, _ := constStr(en.Key); s == "sys/db/ident" {
			identID, _ = constInt(en.Val)
		}
	}
	if identID == 0 {
		e.failf("the ident table has no sys/db/ident")
	}
	for _, d := range tableDatums(e, datums) {
		if d.a == identID {
			if s, ok := constStr(d.v.V); ok {
				v.byIdent[s] = d.e
				v.byID[d.e] = s
			}
		}
	}
	c := e.constOf(sysPkg, "FirstUserID")
	if c == nil {
		e.failf("no constant sys.FirstUserID")
	}
	v.first, _ = constant.Int64Val(constant.ToInt(c))
	return v
}

func (v *Vocab) id(ident string) int64 {
	n, ok := v.byIdent[ident]
	if !ok {
		v.e.failf("the vocabulary has no %s", ident)
	}
	return n
}

// idConst is the vocabulary's id as a value.
func (v *Vocab) idConst(ident string) Val {
	return &Const{Typ: v.e.mustType(typesPkg, "ID"), V: constant.MakeInt64(v.id(ident))}
}

// mapEntries reads the entries of a map of known contents.
func (e *Engine) mapEntries(st *State, v Val) []MapEnt {
	p, ok := v.(*Ptr)
	if !ok {
		e.failf("not a known map: %s", shortKey(v))
	}
	o := st.obj(p.Obj)
	if o == nil || o.Kind != mapObj || o.Base != nil {
		e.failf("not a map of known contents")
	}
	var out []MapEnt
	for _, en := range o.Ents {
		if en.Many {
			e.failf("not a map of known contents")
		}
		if en.Present {
			out = append(out, en)
		}
	}
	return out
}

func checkC10(r *Report) {
	e := initEngine(r.p)
	defer r.use(e)
	v := vocab(e)
	where := sysPkg + "/sys.go"
	datumsV, attrsV, identsV := e.sysTables()
	datums := tableDatums(e, datumsV)
	st := e.newState()
	const rule = "tables agree"
	r.rule(rule)
	kindOf := map[int64]string{}
	for _, k := range kinds {
		kindOf[v.id(k.ident)] = k.typ
	}
	identA, typeA, uniqueA, cardA, refTypeA := v.id("sys/db/ident"), v.id("sys/attr/type"), v.id("sys/attr/unique"), v.id("sys/attr/cardinality"), v.id("sys/attr/ref/type")
	// The ident table.
	seen := map[string]bool{}
	seenID := map[int64]string{}
	for _, en := range e.mapEntries(st, identsV) {
		k, ok1 := constStr(en.Key)
		id, ok2 := constInt(en.Val)
		if !ok1 || !ok2 {
			e.failf("the ident table is not known")
		}
		seen[k] = true
		r.check(v.byIdent[k] == id, rule, "ident table entry "+k, where, "the ident table has %s for %d, the datums %d", k, id, v.byIdent[k])
		if old, dup := seenID[id]; dup {
			r.check(false, rule, "ident table entry "+k, where, "the ident table has %d for both %s and %s", id, k, old)
		}
		seenID[id] = k
	}
	// The datums.
	nIdent := map[int64]int{}
	nName := map[string]int{}
	type ea struct{ e, a int64 }
	count := map[ea]int{}
	val := map[ea]*Iface{}
	for _, d := range datums {
		count[ea{d.e, d.a}]++
		val[ea{d.e, d.a}] = d.v
		if d.a == identA {
			s, _ := constStr(d.v.V)
			nIdent[d.e]++
			nName[s]++
			r.check(seen[s], rule, "ident datum "+s, where, "the ident table has no %s", s)
			r.check(strings.HasPrefix(s, "sys/"), rule, "ident datum "+s, where, "%s is not in the system's root", s)
		}
		subject := "datum of " + v.byID[d.e] + " " + v.byID[d.a]
		r.check(d.e > 0 && d.e < v.first, rule, subject, where, "entity %d is not a system id", d.e)
		r.check(d.t > 0 && d.t < v.first, rule, subject, where, "transaction %d is not a system id", d.t)
		r.check(d.a > 0 && d.a < v.first, rule, subject, where, "attribute %d is not a system id", d.a)
		if n, ok := constInt(d.v.V); ok && shortTyp(d.v.Dyn) == "ID" {
			r.check(v.byID[n] != "", rule, subject, where, "the value %d has no ident", n)
		}
	}
	for k, n := range count {
		r.check(n == 1, rule, "datums of "+v.byID[k.e]+" "+v.byID[k.a], where, "%d datums have this entity and attribute", n)
	}
	for id, n := range nIdent {
		r.check(n == 1, rule, "ident datums of "+v.byID[id], where, "%d has %d idents", id, n)
	}
	for s, n := range nName {
		r.check(n == 1, rule, "ident datums "+s, where, "%d entities have the ident %s", n, s)
	}
	// The attribute table.
	at := e.mustType(typesPkg, "Attr")
	fi := func(n string) int {
		i := fieldIndex(at, n)
		if i < 0 {
			e.failf("types.Attr has no field %s", n)
		}
		return i
	}
	inAttrs := map[int64]string{}
	for _, en := range e.mapEntries(st, attrsV) {
		id, ok := constInt(en.Key)
		s, ok2 := en.Val.(*Struct)
		if !ok || !ok2 {
			e.failf("the attribute table is not known")
		}
		num := func(n string) int64 { x, _ := constInt(s.Fs[fi(n)]); return x }
		ident, _ := constStr(s.Fs[fi("Ident")])
		subject := "attribute " + v.byID[id]
		inAttrs[id] = kindOf[num("Type")]
		r.check(num("ID") == id, rule, subject, where, "the description of %d has the id %d", id, num("ID"))
		r.check(v.byID[id] == ident && ident != "", rule, subject, where, "the description of %d has the ident %q, the datums %q", id, ident, v.byID[id])
		for _, x := range []struct {
			field string
			attr  int64
		}{{"Type", typeA}, {"Unique", uniqueA}, {"Cardinality", cardA}, {"RefType", refTypeA}} {
			var want int64
			if d := val[ea{id, x.attr}]; d != nil {
				want, _ = constInt(d.V)
			}
			r.check(num(x.field) == want, rule, subject+" "+x.field, where, "the description has %d, the datums %d", num(x.field), want)
		}
		r.check(kindOf[num("Type")] != "", rule, subject, where, "the type %d is none of the attribute types", num("Type"))
	}
	for _, d := range datums {
		subject := "datum of " + v.byID[d.e] + " " + v.byID[d.a]
		if d.a == typeA {
			_, ok := inAttrs[d.e]
			r.check(ok, rule, subject, where, "the entity has a type but no description")
		}
		k, ok := inAttrs[d.a]
		r.check(ok, rule, subject, where, "the attribute has no description")
		if ok {
			r.check(k == shortTyp(d.v.Dyn), rule, subject, where, "the value is a %s, the attribute of %s", shortTyp(d.v.Dyn), k)
		}
	}
	r.check(len(datums) >= 20, rule, "size", where, "only %d datums", len(datums))

	// The predicates.
	const rule2 = "predicates accept their vocabulary"
	r.rule(rule2)
	idT := e.mustType(typesPkg, "ID")
	other := func(st *State) Val {
		x := &Sym{Name: "other", Typ: idT, Rigid: true}
		for id := range v.byID {
			st.assume(mkEq(x, &Const{Typ: idT, V: constant.MakeInt64(id)}), false)
		}
		st.assume(mkEq(x, &Const{Typ: idT, V: constant.MakeInt64(0)}), false)
		return x
	}
	pred := func(name string, args func(st *State) []Val, want bool, subject string) {
		r.attempt(rule2, subject, func() {
			fn := e.mustFn(sysPkg, name)
			st := e.newState()
			as := args(st)
			outs := e.invoke(st, &FuncV{Fn: fn}, as...)
			for _, o := range outs {
				got, ok := o.st.decide(o.ret)
				r.check(o.panic == "" && ok && got == want, rule2, subject, r.p.pos(fn.Pos()), "the result is %s%s, not %v", o.panic, shortKey(o.ret), want)
			}
		})
	}
	for _, pr := range []struct{ name, prefix string }{
		{"ValidAttrType", "sys/attr/type/"}, {"ValidAttrCardinality", "sys/attr/cardinality/"}, {"ValidUnique", "sys/attr/unique/"}, {"ValidAttrRefType", "sys/attr/ref/type/"},
	} {
		for id, ident := range v.byID {
			id := id
			pred(pr.name, func(*State) []Val { return []Val{&Const{Typ: idT, V: constant.MakeInt64(id)}} }, strings.HasPrefix(ident, pr.prefix), pr.name+" of "+ident)
		}
		pred(pr.name, func(*State) []Val { return []Val{&Const{Typ: idT, V: constant.MakeInt64(0)}} }, false, pr.name+" of 0")
		pred(pr.name, func(st *State) []Val { return []Val{other(st)} }, false, pr.name+" of any other id")
	}
	// Values of every type, and none, against every type id.
	vt := e.mustType(typesPkg, "Value")
	values := map[string]Val{"nil": nilV}
	for _, k := range kinds {
		t := e.mustType(typesPkg, k.typ)
		values[k.typ] = &Iface{Dyn: t, V: &Sym{Name: "value", Typ: t, Rigid: true}}
	}
	impls := e.implementations(vt)
	r.check(len(impls) == len(kinds), rule2, "value types", typesPkg, "%d types implement Value, %d attribute types are known", len(impls), len(kinds))
	for vn, val := range values {
		val := val
		for id, ident := range v.byID {
			id := id
			pred("ValidValue", func(*State) []Val { return []Val{&Const{Typ: idT, V: constant.MakeInt64(id)}, val} }, kindOf[id] == vn, "ValidValue of "+ident+" and "+vn)
		}
		pred("ValidValue", func(*State) []Val { return []Val{&Const{Typ: idT, V: constant.MakeInt64(0)}, val} }, false, "ValidValue of 0 and "+vn)
		pred("ValidValue", func(st *State) []Val { return []Val{other(st), val} }, false, "ValidValue of any other id and "+vn)
	}
	sT := e.mustType(typesPkg, "String")
	for s, want := range reservedIdents {
		s := s
		pred("ValidUserIdent", func(*State) []Val { return []Val{&Const{Typ: sT, V: constant.MakeString(s)}} }, want, "ValidUserIdent of "+strconv.Quote(s))
	}
}

// reservedIdents are idents at the boundary of the system's root, and whether they are for users.
var reservedIdents = map[string]bool{"sys/": false, "sys/x": false, "sys/db/ident": false, "sys/db/ident2": false, "sys/x/y/z": false, "sys//": false,
	"": true, "user": true, "sy": true, "system/x": true, "sysx/y": true, "user/sys/x": true, "x/y": true, "asys/x": true}

// implementations gives the module's named types which implement the interface.
func (e *Engine) implementations(it types.Type) []types.Type {
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, rel := range sortedKeys(e.p.spkgs) {
		sc := e.p.spkgs[rel].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if isInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), iface) {
				out = append(out, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), iface) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	return out
}
