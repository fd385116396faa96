package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file makes an abstract database: its indexes are sets of datums of which only those that are
// asked after become known, and its caches are functions of ids and idents. Index operations are
// recorded, so the contents of every index are known relative to the initial contents.

const dbPkg = "internal/database"

// DB is the abstract database.
type DB struct {
	r    *Report
	e    *Engine
	rule string
	subj string

	tID, tIdent, tDatum, tValue, tAttr, tClaim types.Type
	fE, fA, fV, fT                             int
	tags                                       []dbTag // attribute types and the types of their values
	sys                                        map[string]int64
	firstUser                                  int64

	st0      *State // the initial world
	dbPtr    *Ptr
	roles    map[string]string // index type's key -> role
	boot     bool
	bound    int // how many unknown datums a selection may have
	flagged  map[string]bool
	specObj  string // the contents as the rules change them
	nextAt   *Ptr   // the counter of ids
	viols    []dbViol
	nseq     int
	sh       *dbShape
	tally    map[string]int
	paths    map[string]string   // where the caches are -> role
	idxPaths map[string]bool     // where the indexes are
	shared   map[string][]string // what snapshots share with the database
	mutated  map[string]string   // what writes change in place -> where
	initMaps map[string]string   // the caches' objects before the write -> role
	ids      map[string]string   // role -> object
	counting bool                // counts are by enumeration
}

type dbTag struct {
	name string
	id   int64
	typ  types.Type
}

func newDB(r *Report) *DB {
	x := &DB{r: r, e: initEngine(r.p), roles: map[string]string{}, ids: map[string]string{}, tally: map[string]int{}, shared: map[string][]string{}, mutated: map[string]string{}, initMaps: map[string]string{}, flagged: map[string]bool{}, sys: map[string]int64{}, bound: 2}
	e := x.e
	e.nocoarse = true
	e.unroll = true
	x.tID = e.mustType(typesPkg, "ID")
	x.tIdent = e.mustType(typesPkg, "Ident")
	x.tDatum = e.mustType(typesPkg, "Datum")
	x.tValue = e.mustType(typesPkg, "Value")
	x.tAttr = e.mustType(typesPkg, "Attr")
	x.tClaim = e.mustType(typesPkg, "Claim")
	x.fE, x.fA, x.fV, x.fT = fieldIndex(x.tDatum, "E"), fieldIndex(x.tDatum, "A"), fieldIndex(x.tDatum, "V"), fieldIndex(x.tDatum, "T")
	for _, n := range []string{"DbIdent", "AttrType", "AttrCardinality", "AttrUnique", "AttrTypeString", "AttrTypeInt", "AttrTypeRef", "AttrTypeFloat", "AttrTypeBool", "AttrTypeInst", "AttrCardinalityMany", "AttrCardinalityOne", "AttrUniqueIdentity", "AttrUniqueValue", "FirstUserID"} {
		v, ok := x.sysConst(n)
		if !ok {
			e.failf("no constant sys.%s", n)
		}
		x.sys[n] = v
	}
	x.firstUser = x.sys["FirstUserID"]
	for _, p := range [][2]string{{"AttrTypeString", "String"}, {"AttrTypeInt", "Int"}, {"AttrTypeRef", "ID"}, {"AttrTypeFloat", "Float"}, {"AttrTypeBool", "Bool"}, {"AttrTypeInst", "Inst"}} {
		x.tags = append(x.tags, dbTag{p[1], x.sys[p[0]], e.mustType(typesPkg, p[1])})
	}
	for _, p := range []string{"EAV", "AEV", "AVE", "VAE"} {
		if v := e.globalVal(ixPkg, p+"Index"); v != nil {
			x.roles[v.Key()] = strings.ToLower(p)
		}
	}
	e.onCall = x.onCall
	x.models()
	x.construct()
	x.hooks()
	return x
}

func (x *DB) sysConst(n string) (int64, bool) {
	sp := x.e.p.spkgs[sysPkg]
	switch m := sp.Members[n].(type) {
	case *ssa.NamedConst:
		return constInt(&Const{V: m.Value.Value, Typ: m.Type()})
	case *ssa.Global:
		return constInt(x.e.globalVal(sysPkg, n))
	}
	return 0, false
}

func (x *DB) idc(n int64) Val { return &Const{Typ: x.tID, V: constant.MakeInt64(n)} }

func (x *DB) sysID(n string) Val { return x.idc(x.sys[n]) }

// models gives the caches' contents as functions.
func (x *DB) models() {
	fn := func(op string, t types.Type) func(st *State, key Val) Val {
		return func(st *State, key Val) Val { return st.mk(op, t, key) }
	}
	typ, uniq, card := fn("Type", x.tID), fn("Uniq", x.tID), fn("Card", x.tID)
	non0 := func(f func(st *State, key Val) Val) func(st *State, key Val, t types.Type) Val {
		return func(st *State, key Val, t types.Type) Val {
			return st.mk("not", types.Typ[types.Bool], st.mkEqV(f(st, key), x.idc(0)))
		}
	}
	get := func(f func(st *State, key Val) Val) func(st *State, key Val, t types.Type) Val {
		return func(st *State, key Val, t types.Type) Val { return f(st, key) }
	}
	x.e.knownMaps["db.types"] = knownMap{get(typ), non0(typ)}
	x.e.knownMaps["db.uniques"] = knownMap{get(uniq), non0(uniq)}
	x.e.knownMaps["db.cards"] = knownMap{get(card), non0(typ)}
	x.e.knownMaps["db.idents"] = knownMap{get(x.identID), non0(x.identID)}
	x.e.knownMaps["db.manies"] = knownMap{
		func(st *State, key Val, t types.Type) Val {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return st.mkEqV(card(st, key), x.sysID("AttrCardinalityMany"))
			}
			return zeroVal(t)
		},
		func(st *State, key Val, t types.Type) Val {
			return st.mkEqV(card(st, key), x.sysID("AttrCardinalityMany"))
		},
	}
	attr := func(st *State, key Val) Val {
		u := x.tAttr.Underlying().(*types.Struct)
		fs := make([]Val, u.NumFields())
		for i := range fs {
			switch u.Field(i).Name() {
			case "ID":
				fs[i] = st.mk("AttrID", x.tID, key)
			case "Ident":
				fs[i] = st.mk("AIdent", x.tIdent, key)
			case "Type":
				fs[i] = typ(st, key)
			case "Cardinality":
				fs[i] = card(st, key)
			case "Unique":
				fs[i] = uniq(st, key)
			default:
				fs[i] = st.mk("Attr"+u.Field(i).Name(), u.Field(i).Type(), key)
			}
		}
		return &Struct{Typ: x.tAttr, Fs: fs}
	}
	x.e.knownMaps["db.attrs"] = knownMap{get(attr), non0(typ)}
	byIdent := func(st *State, key Val) Val { return st.mk("IdentID", x.tID, key) }
	x.e.knownMaps["db.attrsByIdent"] = knownMap{
		func(st *State, key Val, t types.Type) Val { return attr(st, byIdent(st, key)) },
		func(st *State, key Val, t types.Type) Val {
			return st.mk("not", types.Typ[types.Bool], st.mkEqV(typ(st, byIdent(st, key)), x.idc(0)))
		},
	}
}

// construct interprets the constructor and makes what it makes arbitrary.
func (x *DB) construct() {
	e := x.e
	st := e.newState()
	st.mon["P"], st.mon["N"] = &Tuple{}, &Tuple{}
	fn := e.mustFn(dbPkg, "NewIndexDatabase")
	x.boot = true
	var args []Val
	for i, p := range fn.Params {
		args = append(args, &Sym{Name: fmt.Sprintf("size%d", i), Typ: p.Type(), Rigid: true})
	}
	outs := e.invoke(st, &FuncV{Fn: fn}, args...)
	x.boot = false
	if len(outs) != 1 || outs[0].panic != "" {
		e.failf("the constructor of databases is not straightforward")
	}
	st = outs[0].st
	v := outs[0].ret
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		e.failf("the constructor of databases gives %s", shortKey(v))
	}
	x.dbPtr = p
	x.st0 = st
}

// parts calls f with every part of the object's value and of those it points to, with their paths.
func (x *DB) parts(st *State, root string, f func(path string, obj string, v Val)) {
	seen := map[string]bool{}
	var walk func(path string, v Val)
	walkObj := func(path, id string) {
		if seen[id] || strings.HasPrefix(id, "g:") {
			return
		}
		seen[id] = true
		o := st.obj(id)
		if o == nil {
			return
		}
		f(path, id, nil)
		if o.Kind == cellObj && o.Val != nil && o.attr("role") == nil {
			walk(path, o.Val)
		}
	}
	walk = func(path string, v Val) {
		switch y := v.(type) {
		case *Struct:
			u, _ := under(y.Typ).(*types.Struct)
			for i, w := range y.Fs {
				n := strconv.Itoa(i)
				if u != nil && i < u.NumFields() {
					n = u.Field(i).Name()
				}
				walk(path+"."+n, w)
			}
		case *Iface:
			walk(path, y.V)
		case *Ptr:
			walkObj(path, y.Obj)
		default:
			f(path, "", v)
		}
	}
	walkObj("", root)
}

// generalise makes the database's contents arbitrary: what any history of writes might have made them.
func (x *DB) generalise() *State {
	e := x.e
	st := x.st0.clone()
	next := &Sym{Name: "next", Typ: x.tID, Rigid: true}
	var maps []string
	nexts := 0
	x.parts(st, x.dbPtr.Obj, func(path, id string, v Val) {
		if id == "" {
			return
		}
		o := st.obj(id)
		switch {
		case o.attr("role") != nil:
			role, _ := constStr(o.attr("role"))
			if x.ids[role] != "" && x.ids[role] != id {
				e.failf("two %s indexes", role)
			}
			x.ids[role] = id
			w := st.wobj(id)
			w.Attrs["log"] = &Tuple{}
		case o.Kind == mapObj:
			maps = append(maps, id)
		case o.Kind == cellObj:
			w := st.wobj(id)
			var gen func(v Val, p string) Val
			gen = func(v Val, p string) Val {
				switch y := v.(type) {
				case *Struct:
					fs := make([]Val, len(y.Fs))
					for i := range fs {
						fs[i] = gen(y.Fs[i], p+"."+strconv.Itoa(i))
					}
					return &Struct{Typ: y.Typ, Fs: fs}
				case *Const:
					if n, ok := constInt(y); ok && n == x.firstUser {
						nexts++
						x.nextAt = &Ptr{Obj: id, Path: p}
						return retypeSym(next, y.Typ)
					}
				}
				return v
			}
			w.Val = gen(w.Val, "")
		}
	})
	if nexts != 1 {
		e.failf("%d counters of ids", nexts)
	}
	for _, r := range []string{"eav", "aev", "ave"} {
		if x.ids[r] == "" {
			e.failf("the database has no %s index", r)
		}
	}
	x.nameMaps(st, maps)
	for _, n := range []string{"P", "N"} {
		st.mon[n] = &Tuple{}
	}
	st.mon["next"] = next
	st.assume(&App{Op: "lt", Args: []Val{next, x.idc(x.firstUser)}, Typ: types.Typ[types.Bool]}, false)
	x.sysFacts(st)
	x.specObj = st.newObj(&Obj{Kind: cellObj, Typ: types.Typ[types.Int], Val: mkInt(0), Attrs: map[string]Val{"role": mkStr("eav"), "log": &Tuple{}}})
	st.mon["spec"] = &Ptr{Obj: x.specObj}
	st.mon["db"] = x.dbPtr
	return st
}

func retypeSym(s *Sym, t types.Type) Val { return s }

// nameMaps tells the caches apart by their types and by their initial contents.
func (x *DB) nameMaps(st *State, ids []string) {
	attrs := x.sysAttrs(st)
	idents := x.sysIdents(st)
	for _, id := range ids {
		o := st.obj(id)
		m := mapOf(o.Typ)
		role := ""
		get := func(k Val) Val {
			for _, en := range o.Ents {
				if en.Present && en.Key.Key() == k.Key() {
					return en.Val
				}
			}
			return nil
		}
		agree := func(f func(a map[string]Val) Val, zeroAbsent bool) bool {
			n := 0
			for k, a := range attrs {
				want := f(a)
				got := get(x.idc(mustInt(k)))
				if c, ok := constInt(want); ok && c == 0 && zeroAbsent {
					if got != nil {
						return false
					}
					continue
				}
				n++
				if got == nil || got.Key() != want.Key() {
					return false
				}
			}
			return n == len(o.Ents)
		}
		key, elem := m.Key(), m.Elem()
		_, set := elem.Underlying().(*types.Struct)
		set = set && !types.Identical(elem, x.tAttr)
		if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			set = true
		}
		switch {
		case types.Identical(key, x.tID) && types.Identical(elem, x.tAttr):
			role = "attrs"
		case types.Identical(key, x.tIdent) && types.Identical(elem, x.tAttr):
			role = "attrsByIdent"
		case types.Identical(key, x.tID) && set:
			many := 0
			for _, a := range attrs {
				if n, _ := constInt(a["Cardinality"]); n == x.sys["AttrCardinalityMany"] {
					many++
				}
			}
			if many == len(o.Ents) {
				role = "manies"
			}
		case types.Identical(key, x.tID) && types.Identical(elem, x.tID):
			switch {
			case agree(func(a map[string]Val) Val { return a["Type"] }, false):
				role = "types"
			case agree(func(a map[string]Val) Val { return a["Unique"] }, true):
				role = "uniques"
			case agree(func(a map[string]Val) Val { return a["Cardinality"] }, true):
				role = "cards"
			}
		case types.Identical(key, x.tIdent) && types.Identical(elem, x.tID):
			all := len(o.Ents) == len(idents)
			for k, v := range idents {
				got := get(mkStr(k))
				if got == nil || got.Key() != v.Key() {
					all = false
				}
			}
			if all {
				role = "idents"
			}
		}
		if role == "" {
			x.e.failf("the purpose of a map of the database is not recognised: %s", typKey(o.Typ))
		}
		w := st.wobj(id)
		w.Ents = nil
		w.Base = &Sym{Name: "db." + role, Typ: o.Typ, Rigid: true}
		if x.ids[role] == "" {
			x.ids[role] = id
		}
	}
}

func mustInt(s string) int64 {
	n, _ := strconv.ParseInt(s, 10, 64)
	return n
}

// sysAttrs gives the fields of the system attributes by id.
func (x *DB) sysAttrs(st *State) map[string]map[string]Val {
	out := map[string]map[string]Val{}
	v := x.e.globalVal(sysPkg, "Attrs")
	p, ok := v.(*Ptr)
	if !ok {
		x.e.failf("sys.Attrs is not known")
	}
	u := x.tAttr.Underlying().(*types.Struct)
	for _, en := range st.obj(p.Obj).Ents {
		n, _ := constInt(en.Key)
		m := map[string]Val{}
		s, ok := en.Val.(*Struct)
		if !ok {
			x.e.failf("sys.Attrs is not known")
		}
		for i := 0; i < u.NumFields(); i++ {
			m[u.Field(i).Name()] = s.Fs[i]
		}
		out[strconv.FormatInt(n, 10)] = m
	}
	return out
}

func (x *DB) sysIdents(st *State) map[string]Val {
	out := map[string]Val{}
	p, ok := x.e.globalVal(sysPkg, "Idents").(*Ptr)
	if !ok {
		x.e.failf("sys.Idents is not known")
	}
	for _, en := range st.obj(p.Obj).Ents {
		s, _ := constStr(en.Key)
		out[s] = en.Val
	}
	return out
}

// sysFacts gives the system's own vocabulary, which no write changes.
func (x *DB) sysFacts(st *State) {
	attrs := x.sysAttrs(st)
	for _, k := range sortedKeys(attrs) {
		id := x.idc(mustInt(k))
		a := attrs[k]
		set := func(op string, t types.Type, v Val) {
			st.equate(st.mk(op, t, id), v)
		}
		set("Type", x.tID, a["Type"])
		set("Uniq", x.tID, a["Unique"])
		set("Card", x.tID, a["Cardinality"])
		set("AIdent", x.tIdent, a["Ident"])
	}
	idents := x.sysIdents(st)
	for _, k := range sortedKeys(idents) {
		n, _ := constInt(idents[k])
		st.equate(st.mk("IdentID", x.tID, mkStr(k)), idents[k])
		if attrs[strconv.FormatInt(n, 10)] == nil {
			st.equate(st.mk("Type", x.tID, x.idc(n)), x.idc(0))
		}
	}
	st.equate(st.mk("Type", x.tID, x.idc(0)), x.idc(0))
	st.equate(st.mk("IdentID", x.tID, mkStr("")), x.idc(0))
}

// Worlds.

// dn normalises the value deeply.
func (st *State) dn(v Val) Val {
	if v == nil {
		return nil
	}
	for i := 0; i < 6; i++ {
		w := mapVal(v, func(y Val) Val {
			switch y.(type) {
			case *Sym, *App:
				n := st.norm(y)
				if n != y && n.Key() != y.Key() {
					return n
				}
			}
			return nil
		})
		if w.Key() == v.Key() {
			return w
		}
		v = w
	}
	return v
}

func (x *DB) br(st *State, cond Val, f func(st *State, r bool)) {
	for _, w := range x.e.branch(st, st.dn(cond)) {
		f(w.st, w.r)
	}
}

func (x *DB) mk(E, A, V, T Val) *Struct {
	fs := make([]Val, 4)
	fs[x.fE], fs[x.fA], fs[x.fV], fs[x.fT] = E, A, V, T
	return &Struct{Typ: x.tDatum, Fs: fs}
}

func (x *DB) nd(st *State, d *Struct) *Struct { return st.dn(d).(*Struct) }

// valCond is the condition that two values of known types are stored as equals.
func (x *DB) valCond(st *State, a, b Val) Val {
	a, b = st.dn(a), st.dn(b)
	p, ok1 := a.(*Iface)
	q, ok2 := b.(*Iface)
	if !ok1 || !ok2 {
		if a.Key() == b.Key() {
			return boolV(true)
		}
		return st.mkEqV(a, b)
	}
	if !types.Identical(p.Dyn, q.Dyn) {
		return boolV(false)
	}
	switch shortTyp(p.Dyn) {
	case "Inst":
		i64 := types.Typ[types.Int64]
		return st.mkEqV(st.pure("(time.Time).UnixMilli", i64, p.V), st.pure("(time.Time).UnixMilli", i64, q.V))
	case "Float":
		return cmpEq(st, st.asFloat(p.V), st.asFloat(q.V))
	}
	return st.mkEqV(p.V, q.V)
}

func (st *State) asFloat(v Val) Val { return v }

func (x *DB) conj(st *State, conds []func(st *State) Val, f func(st *State, r bool)) {
	if len(conds) == 0 {
		f(st, true)
		return
	}
	x.br(st, conds[0](st), func(st *State, r bool) {
		if !r {
			f(st, false)
			return
		}
		x.conj(st, conds[1:], f)
	})
}

// matches tells whether the datums agree on the fields of the pattern: a subset of E, A, V in order.
func (x *DB) matches(st *State, pat string, a, b *Struct, f func(st *State, r bool)) {
	var conds []func(st *State) Val
	for _, c := range pat {
		i := x.fE
		switch c {
		case 'A':
			i = x.fA
		case 'V':
			conds = append(conds, func(st *State) Val { return x.valCond(st, a.Fs[x.fV], b.Fs[x.fV]) })
			continue
		}
		conds = append(conds, func(st *State) Val { return st.mkEqV(st.dn(a.Fs[i]), st.dn(b.Fs[i])) })
	}
	x.conj(st, conds, f)
}

func tuple(v Val) []Val {
	if t, ok := v.(*Tuple); ok {
		return t.Vs
	}
	return nil
}

func push(v Val, el Val) *Tuple {
	vs := tuple(v)
	return &Tuple{Vs: append(append([]Val{}, vs...), el)}
}

// anyOf finds the first of the datums which matches.
func (x *DB) anyOf(st *State, pat string, ds []Val, d *Struct, f func(st *State, i int)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(ds) {
			f(st, -1)
			return
		}
		x.matches(st, pat, ds[i].(*Struct), d, func(st *State, r bool) {
			if r {
				f(st, i)
				return
			}
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

// covered tells whether the initial contents are known to have no such datum other than those known.
func (x *DB) covered(st *State, d *Struct, f func(st *State, r bool)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		ns := tuple(st.mon["N"])
		if i >= len(ns) {
			f(st, false)
			return
		}
		n := ns[i].(*Tuple)
		pat, _ := constStr(n.Vs[0])
		x.matches(st, pat, n.Vs[1].(*Struct), d, func(st *State, r bool) {
			if r {
				f(st, true)
				return
			}
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

func (x *DB) isMany(st *State, A Val, f func(st *State, r bool)) {
	x.br(st, st.mkEqV(st.mk("Card", x.tID, st.dn(A)), x.sysID("AttrCardinalityMany")), f)
}

func (x *DB) isUnique(st *State, A Val, f func(st *State, r bool)) {
	x.br(st, st.mkEqV(st.mk("Uniq", x.tID, st.dn(A)), x.idc(0)), func(st *State, r bool) { f(st, !r) })
}

// typed makes the attribute's type known, in the worlds of its possible types; worlds in which it is none are dropped.
func (x *DB) typed(st *State, A Val, f func(st *State, t dbTag)) {
	tt := st.mk("Type", x.tID, st.dn(A))
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(x.tags) {
			return
		}
		x.br(st, st.mkEqV(st.dn(tt), x.idc(x.tags[i].id)), func(st *State, r bool) {
			if r {
				f(st, x.tags[i])
			} else {
				rec(st, i+1)
			}
		})
	}
	rec(st, 0)
}

// addKnown adds the datum to the initial contents if it is consistent with what is known of them.
func (x *DB) addKnown(st *State, d *Struct, f func(st *State, d *Struct)) {
	bool1 := types.Typ[types.Bool]
	lt := func(a Val) Val {
		return st.mk("lt", bool1, st.dn(a), st.mon["next"])
	}
	pos := func(st *State, a Val) bool { return st.assume(st.mkEqV(st.dn(a), x.idc(0)), false) }
	if !pos(st, d.Fs[x.fE]) || !st.assume(lt(d.Fs[x.fE]), true) || !pos(st, d.Fs[x.fA]) || !st.assume(lt(d.Fs[x.fA]), true) {
		return
	}
	if !st.assume(lt(d.Fs[x.fT]), true) || !pos(st, d.Fs[x.fT]) {
		return
	}
	d = x.nd(st, d)
	if i, ok := d.Fs[x.fV].(*Iface); ok {
		// Values are of their attributes' types.
		for _, t := range x.tags {
			if types.Identical(t.typ, i.Dyn) && !st.assume(st.mkEqV(st.mk("Type", x.tID, st.dn(d.Fs[x.fA])), x.idc(t.id)), true) {
				return
			}
		}
		d = x.nd(st, d)
	}
	if i, ok := d.Fs[x.fV].(*Iface); ok && shortTyp(i.Dyn) == "ID" {
		if !pos(st, i.V) || !st.assume(lt(i.V), true) {
			return
		}
	}
	x.asSystem(st, d, func(st *State, holds Val) {
		if holds != nil && !st.assume(st.dn(holds), true) {
			return
		}
		d := x.nd(st, d)
		st.mon["P"] = push(st.mon["P"], d)
		f(st, d)
	})
}

// asSystem gives the condition for the datum to be in the store, if it is of a system attribute whose datums the
// caches describe.
func (x *DB) asSystem(st *State, d *Struct, f func(st *State, holds Val)) {
	i, ok := d.Fs[x.fV].(*Iface)
	if !ok {
		f(st, nil)
		return
	}
	var attrs []string
	switch shortTyp(i.Dyn) {
	case "String":
		attrs = []string{"DbIdent"}
	case "ID":
		attrs = []string{"AttrType", "AttrCardinality", "AttrUnique"}
	}
	var rec func(st *State, k int)
	rec = func(st *State, k int) {
		if k == len(attrs) {
			f(st, nil)
			return
		}
		x.br(st, st.mkEqV(d.Fs[x.fA], x.sysID(attrs[k])), func(st *State, r bool) {
			if !r {
				rec(st, k+1)
				return
			}
			d := x.nd(st, d)
			v := d.Fs[x.fV].(*Iface).V
			E := d.Fs[x.fE]
			switch attrs[k] {
			case "DbIdent":
				// Attributes have the idents they were declared with.
				x.br(st, st.mkEqV(st.mk("Type", x.tID, E), x.idc(0)), func(st *State, no bool) {
					d := x.nd(st, d)
					v, E := d.Fs[x.fV].(*Iface).V, d.Fs[x.fE]
					if !no {
						if !st.assume(st.mkEqV(st.mk("IdentID", x.tID, st.mk("AIdent", x.tIdent, E)), E), true) {
							return
						}
						x.br(st, st.mkEqV(st.mk("AIdent", x.tIdent, E), v), func(st *State, same bool) {
							if !same {
								f(st, boolV(false))
								return
							}
							f(st, boolV(true))
						})
						return
					}
					f(st, st.mkEqV(st.mk("IdentID", x.tID, v), E))
				})
			case "AttrType":
				f(st, st.mkEqV(st.mk("Type", x.tID, E), v))
			case "AttrCardinality":
				f(st, st.mkEqV(st.mk("Card", x.tID, E), v))
			case "AttrUnique":
				f(st, st.mkEqV(st.mk("Uniq", x.tID, E), v))
			}
		})
	}
	rec(st, 0)
}

func (x *DB) note(st *State, pat string, d *Struct) {
	st.mon["N"] = push(st.mon["N"], &Tuple{Vs: []Val{mkStr(pat), x.nd(st, d), mkInt(int64(len(tuple(st.mon["P"]))))}})
}

func (x *DB) freshT(st *State) Val { return x.e.freshSym(x.tID, "T") }

// initially tells whether the datum is among the initial contents.
func (x *DB) initially(st *State, d *Struct, f func(st *State, present bool, T Val)) {
	x.anyOf(st, "EAV", tuple(st.mon["P"]), d, func(st *State, i int) {
		if i >= 0 {
			f(st, true, tuple(st.mon["P"])[i].(*Struct).Fs[x.fT])
			return
		}
		x.covered(st, d, func(st *State, r bool) {
			if r {
				f(st, false, nil)
				return
			}
			d := x.nd(st, d)
			absent := func(st *State) {
				x.note(st, "EAV", x.nd(st, d))
				f(st, false, nil)
			}
			// What the invariants exclude.
			if r, ok := st.decideLt(d.Fs[x.fE], st.mon["next"]); ok && !r {
				absent(st)
				return
			}
			x.excluded(st, d, func(st *State, r bool) {
				if r {
					absent(st)
					return
				}
				x.asSystem(st, x.nd(st, d), func(st *State, holds Val) {
					present := func(st *State) {
						d := x.nd(st, d)
						x.addKnown(st, x.mk(d.Fs[x.fE], d.Fs[x.fA], d.Fs[x.fV], x.freshT(st)), func(st *State, d *Struct) { f(st, true, d.Fs[x.fT]) })
					}
					if holds != nil {
						x.br(st, holds, func(st *State, r bool) {
							if r {
								present(st)
							} else {
								absent(st)
							}
						})
						return
					}
					no := st.clone()
					present(st)
					absent(no)
				})
			})
		})
	})
}

// excluded tells whether a datum not among those known would violate the store's invariants with one of those.
func (x *DB) excluded(st *State, d *Struct, f func(st *State, r bool)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		ps := tuple(st.mon["P"])
		if i >= len(ps) {
			f(st, false)
			return
		}
		p := ps[i].(*Struct)
		x.matches(st, "EA", p, d, func(st *State, r bool) {
			if r {
				x.isMany(st, d.Fs[x.fA], func(st *State, many bool) {
					if !many {
						f(st, true)
						return
					}
					rec(st, i+1)
				})
				return
			}
			x.matches(st, "AV", p, d, func(st *State, r bool) {
				if !r {
					rec(st, i+1)
					return
				}
				x.isUnique(st, d.Fs[x.fA], func(st *State, u bool) {
					if u {
						f(st, true)
						return
					}
					rec(st, i+1)
				})
			})
		})
	}
	rec(st, 0)
}

// Index contents: the initial ones and the changes since.

func (x *DB) log(st *State, idx string) []Val { return tuple(st.obj(idx).attr("log")) }

func (x *DB) role(st *State, idx string) string {
	s, _ := constStr(st.obj(idx).attr("role"))
	return s
}

func (x *DB) record(st *State, idx, op string, d *Struct) {
	w := st.wobj(idx)
	w.Attrs["log"] = push(w.Attrs["log"], &Tuple{Vs: []Val{mkStr(op), d}})
}

// has tells whether the index has the datum after the first n changes, and its transaction.
func (x *DB) has(st *State, idx string, n int, d *Struct, f func(st *State, present bool, T Val)) {
	if n == 0 {
		fin := func(st *State) {
			x.initially(st, x.nd(st, d), f)
		}
		if x.role(st, idx) == "ave" || x.role(st, idx) == "vae" {
			x.isUnique(st, d.Fs[x.fA], func(st *State, u bool) {
				if u {
					fin(st)
				} else {
					f(st, false, nil)
				}
			})
			return
		}
		fin(st)
		return
	}
	en := x.log(st, idx)[n-1].(*Tuple)
	op, _ := constStr(en.Vs[0])
	x.matches(st, "EAV", en.Vs[1].(*Struct), x.nd(st, d), func(st *State, r bool) {
		if !r {
			x.has(st, idx, n-1, d, f)
			return
		}
		if op == "del" {
			f(st, false, nil)
			return
		}
		x.has(st, idx, n-1, d, func(st *State, present bool, T Val) {
			if present {
				f(st, true, T)
				return
			}
			f(st, true, x.log(st, idx)[n-1].(*Tuple).Vs[1].(*Struct).Fs[x.fT])
		})
	})
}

func (x *DB) hasNow(st *State, idx string, d *Struct, f func(st *State, present bool, T Val)) {
	x.has(st, idx, len(x.log(st, idx)), d, f)
}

// first finds a datum of the index which agrees with the one given on the pattern's fields.
func (x *DB) first(st *State, idx, pat string, d *Struct, f func(st *State, hit *Struct)) {
	x.enumerate(st, idx, pat, d, 1, true, func(st *State, hits []Val) {
		if len(hits) == 0 {
			f(st, nil)
			return
		}
		f(st, x.nd(st, hits[0].(*Struct)))
	})
}

// enumerate finds the datums of the index which agree with the one given on the pattern's fields: those
// known, then up to so many which are not. If any will do, it gives but the first found.
func (x *DB) enumerate(st *State, idx, pat string, d *Struct, fresh int, any bool, f func(st *State, hits []Val)) {
	// The hits are kept in the state, to stay current.
	x.nseq++
	tag := fmt.Sprintf("~hits%d", x.nseq)
	st.mon[tag] = &Tuple{}
	fin := func(st *State) {
		h := tuple(st.mon[tag])
		delete(st.mon, tag)
		f(st, h)
	}
	known := func(st *State, i int, sub *Struct, next func(st *State)) {
		x.matches(st, pat, sub, d, func(st *State, r bool) {
			if !r {
				next(st)
				return
			}
			// The same datum may have come up before.
			x.anyOf(st, "EAV", tuple(st.mon[tag]), sub, func(st *State, k int) {
				if k >= 0 {
					next(st)
					return
				}
				x.hasNow(st, idx, sub, func(st *State, present bool, T Val) {
					if present {
						s := x.nd(st, sub)
						st.mon[tag] = push(st.mon[tag], x.mk(s.Fs[x.fE], s.Fs[x.fA], s.Fs[x.fV], st.dn(T)))
						if any {
							fin(st)
							return
						}
					}
					next(st)
				})
			})
		})
	}
	var logs func(st *State, i int)
	var known0 func(st *State, i int)
	logs = func(st *State, i int) {
		l := x.log(st, idx)
		if i >= len(l) {
			known0(st, 0)
			return
		}
		sub := l[i].(*Tuple).Vs[1].(*Struct)
		// Whether it was there to begin with must be known, for then no unknown datum is the same.
		x.matches(st, pat, sub, d, func(st *State, r bool) {
			if !r {
				logs(st, i+1)
				return
			}
			x.has(st, idx, 0, sub, func(st *State, _ bool, _ Val) {
				known(st, i, x.nd(st, sub), func(st *State) { logs(st, i+1) })
			})
		})
	}
	var more func(st *State, n int)
	known0 = func(st *State, i int) {
		ps := tuple(st.mon["P"])
		if i >= len(ps) {
			more(st, fresh)
			return
		}
		known(st, i, ps[i].(*Struct), func(st *State) { known0(st, i+1) })
	}
	more = func(st *State, n int) {
		x.initialFresh(st, idx, pat, x.nd(st, d), func(st *State, hit *Struct) {
			if hit == nil {
				fin(st)
				return
			}
			if n == 0 {
				return // more than are considered
			}
			st.mon[tag] = push(st.mon[tag], hit)
			if any {
				fin(st)
				return
			}
			more(st, n-1)
		})
	}
	logs(st, 0)
}

// initialFresh finds a datum of the initial contents which is not known yet, or that there is none.
func (x *DB) initialFresh(st *State, idx, pat string, d *Struct, f func(st *State, hit *Struct)) {
	none := func(st *State) {
		x.note(st, pat, d)
		f(st, nil)
	}
	role := x.role(st, idx)
	some := func(st *State) {
		has := func(c string) bool { return strings.Contains(pat, c) }
		A := st.dn(d.Fs[x.fA])
		if !has("A") {
			A = x.e.freshSym(x.tID, "A")
		}
		E := st.dn(d.Fs[x.fE])
		if !has("E") {
			E = x.e.freshSym(x.tID, "E")
		}
		// The only datum there may be has perhaps been known, and judged, already.
		only := func(st *State, E, V Val, known func(st *State)) {
			nd := x.mk(st.dn(E), st.dn(A), st.dn(V), x.freshT(st))
			// It is none of those known, and consistent with what is known.
			x.anyOf(st, "EAV", tuple(st.mon["P"]), nd, func(st *State, i int) {
				if i >= 0 {
					if known != nil {
						known(st)
					}
					return
				}
				x.covered(st, x.nd(st, nd), func(st *State, r bool) {
					if r {
						return
					}
					x.excluded(st, x.nd(st, nd), func(st *State, r bool) {
						if r {
							return
						}
						x.addKnown(st, x.nd(st, nd), f)
					})
				})
			})
		}
		make1 := func(st *State, E, V Val) { only(st, E, V, nil) }
		any := func(st *State) {
			no := st.clone()
			if has("V") {
				make1(st, E, d.Fs[x.fV])
			} else {
				x.typed(st, A, func(st *State, t dbTag) {
					make1(st, E, &Iface{Dyn: t.typ, V: x.e.fresh(t.typ, "v")})
				})
			}
			none(no)
		}
		if !has("A") {
			any(st)
			return
		}
		// What the caches describe is known by them.
		var rec func(st *State, k int)
		sysAttrs := []string{"DbIdent", "AttrType", "AttrCardinality", "AttrUnique"}
		rec = func(st *State, k int) {
			if k == len(sysAttrs) {
				any(st)
				return
			}
			x.br(st, st.mkEqV(st.dn(A), x.sysID(sysAttrs[k])), func(st *State, r bool) {
				if !r {
					rec(st, k+1)
					return
				}
				if k == 0 && has("V") {
					v := x.nd(st, d).Fs[x.fV].(*Iface).V
					id := st.mk("IdentID", x.tID, v)
					x.br(st, st.mkEqV(id, x.idc(0)), func(st *State, r bool) {
						if r {
							none(st)
							return
						}
						id := st.norm(id)
						if has("E") {
							x.br(st, st.mkEqV(id, st.dn(E)), func(st *State, r bool) {
								if !r {
									none(st)
									return
								}
								only(st, st.dn(E), d.Fs[x.fV], none)
							})
							return
						}
						only(st, id, d.Fs[x.fV], none)
					})
					return
				}
				if !has("E") {
					any(st)
					return
				}
				if k == 0 {
					x.br(st, st.mkEqV(st.mk("Type", x.tID, st.dn(E)), x.idc(0)), func(st *State, r bool) {
						if r {
							any(st)
							return
						}
						only(st, st.dn(E), &Iface{Dyn: x.e.mustType(typesPkg, "String"), V: st.mk("AIdent", x.tIdent, st.dn(E))}, none)
					})
					return
				}
				fn := []string{"", "Type", "Card", "Uniq"}[k]
				x.br(st, st.mkEqV(st.mk(fn, x.tID, st.dn(E)), x.idc(0)), func(st *State, r bool) {
					if r {
						none(st)
						return
					}
					if !has("V") {
						only(st, st.dn(E), &Iface{Dyn: x.tID, V: st.mk(fn, x.tID, st.dn(E))}, none)
						return
					}
					v, ok := x.nd(st, d).Fs[x.fV].(*Iface)
					if !ok {
						none(st)
						return
					}
					x.br(st, st.mkEqV(st.mk(fn, x.tID, st.dn(E)), v.V), func(st *State, r bool) {
						if !r {
							none(st)
							return
						}
						only(st, st.dn(E), d.Fs[x.fV], none)
					})
				})
			})
		}
		rec(st, 0)
	}
	x.covered(st, d, func(st *State, r bool) {
		if r && strings.Contains(pat, "E") && strings.Contains(pat, "A") && strings.Contains(pat, "V") {
			f(st, nil)
			return
		}
		if x.coveredBy(st, pat, d) {
			f(st, nil)
			return
		}
		if strings.Contains(pat, "E") {
			if r, ok := st.decideLt(st.dn(d.Fs[x.fE]), st.mon["next"]); ok && !r {
				none(st)
				return
			}
		}
		if role == "ave" || role == "vae" {
			x.isUnique(st, d.Fs[x.fA], func(st *State, u bool) {
				if !u {
					f(st, nil)
					return
				}
				some(st)
			})
			return
		}
		some(st)
	})
}

// coveredBy tells whether it is decided that none but the known datums match.
func (x *DB) coveredBy(st *State, pat string, d *Struct) bool {
	for _, n := range tuple(st.mon["N"]) {
		t := n.(*Tuple)
		p, _ := constStr(t.Vs[0])
		nd := t.Vs[1].(*Struct)
		all := true
		for _, c := range p {
			if !strings.ContainsRune(pat, c) {
				all = false
				break
			}
			var r, ok bool
			switch c {
			case 'E':
				r, ok = st.decideEq(st.dn(nd.Fs[x.fE]), st.dn(d.Fs[x.fE]))
			case 'A':
				r, ok = st.decideEq(st.dn(nd.Fs[x.fA]), st.dn(d.Fs[x.fA]))
			case 'V':
				r, ok = st.decide(x.valCond(st, nd.Fs[x.fV], d.Fs[x.fV]))
			}
			if !ok || !r {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}
