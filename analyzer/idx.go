package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Every operation of the composite index is interpreted, for every index type and attribute type, in two arbitrary worlds: where the datum's key is in the tree, and where it is not. The tree is modelled as a set by key. The rules: insertion, deletion and presence touch only the tree and key of the datum, have the effect of a set which retains extant items, and report whether it was present. The clone of an index is interpreted, and every operation on it and on the original must reach trees of their own, cloned from those of the same role, and write to no object of the other.", checkC18)
	register("C17", "The stored form of each attribute type is learnt from the abstract interpretation of insertion; deletion and presence must look up the same stored form, and every access path (every partial of every index type, the selection of an entity and of everything, and first) is interpreted over an arbitrary tree, wherein each stored datum must be given as the datum inserted, of its type, with instants in milliseconds.", checkC17)
	register("C16", "Selection, first and count are interpreted for every index type, supported partial and attribute type over an arbitrary tree whose matching datums are met in order, to a fixpoint. The rules: each scans the tree into which insertion puts the type; its pivot is no greater than any stored matching datum in the tree's own order; selection gives every matching datum and no other; first gives the first matching datum; count gives their number. Selection by entity, and of everything, must scan every tree, give each datum drawn once, and give none before a lesser one drawn from another tree.", checkC16)
	register("C21", "Every function of the module which returns a sequence is interpreted, with a consumer which may stop at any item: no item may be given after it stops, no item drawn may be dropped or given twice, and every suspended sequence must be released on every path out, including panics.", checkC21)
}

const maxAttrKinds = 6

// idxTypes are the index types by the order they are named for.
func (x *IxCtx) idxTypes() map[string]Val {
	e := x.e
	out := map[string]Val{}
	for n, v := range e.globalsOf(ixPkg, e.mustType(ixPkg, "IndexType")) {
		if o := orderOf(n); o != "" {
			out[o] = v
		}
	}
	return out
}

// The partials each index supports and the fields each constrains.
var supported = map[string][]string{"EAV": {"E", "EA"}, "AEV": {"A", "AE"}, "AVE": {"A", "AV"}}

func (x *IxCtx) partial(name string) Val {
	e := x.e
	c := e.constOf(ixPkg, name)
	if c == nil {
		e.failf("no partial %s", name)
	}
	return &Const{Typ: e.mustType(ixPkg, "PartialIndex"), V: c}
}

// attrKind is an attribute type.
type attrKind struct {
	name string     // value type's name
	vt   types.Type // value type
	id   Val
}

func attrKinds(e *Engine) []attrKind {
	v := vocab(e)
	var out []attrKind
	for _, k := range kinds {
		out = append(out, attrKind{k.typ, e.mustType(typesPkg, k.typ), v.idConst(k.ident)})
	}
	return out
}

// alts gives the payloads to consider: an arbitrary one, or each boolean.
func (k attrKind) alts(mk func(t types.Type) Val) []Val {
	if k.name == "Bool" {
		return []Val{&Const{Typ: k.vt, V: constant.MakeBool(false)}, &Const{Typ: k.vt, V: constant.MakeBool(true)}}
	}
	return []Val{mk(k.vt)}
}

func newIx(r *Report) *IxCtx {
	e := initEngine(r.p)
	x := &IxCtx{r: r, e: e}
	x.install()
	return x
}

// datum makes a datum.
func (x *IxCtx) datum(ev, av, v, tv Val) *Struct {
	dt := x.e.mustType(typesPkg, "Datum")
	s := zeroVal(dt).(*Struct)
	s = &Struct{Typ: dt, Fs: append([]Val{}, s.Fs...)}
	s.Fs[fieldIndex(dt, "E")] = ev
	s.Fs[fieldIndex(dt, "A")] = av
	s.Fs[fieldIndex(dt, "V")] = v
	s.Fs[fieldIndex(dt, "T")] = tv
	return s
}

func fieldNamed(s *Struct, name string) Val {
	i := fieldIndex(s.Typ, name)
	if i < 0 {
		return nil
	}
	return s.Fs[i]
}

func (x *IxCtx) ids(prefix string) (ev, av, tv Val) {
	id := x.e.mustType(typesPkg, "ID")
	mk := func(n string) Val { return &Sym{Name: prefix + "." + n, Typ: id, Rigid: true} }
	return mk("E"), mk("A"), mk("T")
}

// typed assumes the attribute has the type, and is one.
func (x *IxCtx) typed(st *State, av Val, k attrKind) {
	id := x.e.mustType(typesPkg, "ID")
	if !st.assume(mkEq(st.mk("Type", id, av), k.id), true) || !st.assume(mkEq(av, &Const{Typ: id, V: constant.MakeInt64(0)}), false) {
		x.e.failf("inconsistent facts")
	}
}

func (x *IxCtx) positive(st *State, v Val) {
	id := x.e.mustType(typesPkg, "ID")
	st.assume(mkEq(v, &Const{Typ: id, V: constant.MakeInt64(0)}), false)
	st.assume(&App{Op: "lt", Args: []Val{&Const{Typ: id, V: constant.MakeInt64(0)}, v}, Typ: types.Typ[types.Bool]}, true)
}

var told = &Sym{Name: "told", Rigid: true}

// setOp runs the operation on the datum where its key is present or not. It gives the tree, key and what is in it after.
type setResult struct {
	st       *State
	tree     string
	treePtr  string
	key      *Struct
	present  bool
	stored   Val
	ret      Val
	touched  int
	panicked string
}

func keyText(d *Struct) string {
	return fieldNamed(d, "E").Key() + " " + fieldNamed(d, "A").Key() + " " + fieldNamed(d, "V").Key()
}

func (x *IxCtx) setOp(st *State, recv Val, op string, d *Struct, present bool, rule, subj string) []setResult {
	e := x.e
	st.mon["present"] = boolV(present)
	delete(st.mon, "tree")
	delete(st.mon, "key")
	delete(st.mon, "stored")
	x.op = func(s *State, op, tree string, td *Struct, c *CallCtx) ([]Outcome, bool) {
		where := e.p.pos(instrPos(c.Site))
		if s.mon["tree"] == nil {
			s.mon["tree"] = &Ptr{Obj: tree}
			s.mon["key"] = td
			// What is there differs from the given datum in its transaction alone.
			o := *td
			o.key = ""
			o.Fs = append([]Val{}, td.Fs...)
			o.Fs[fieldIndex(td.Typ, "T")] = told
			s.mon["stored"] = &o
		} else if s.mon["tree"].(*Ptr).Obj != tree {
			x.r.check(false, rule, subj, where, "one operation reaches both the tree %s and the tree %s", treeName(s, s.mon["tree"].(*Ptr).Obj), treeName(s, tree))
		} else if keyText(s.mon["key"].(*Struct)) != keyText(td) {
			x.r.check(false, rule, subj, where, "one operation reaches both the key %s and the key %s", keyText(s.mon["key"].(*Struct)), keyText(td))
		}
		p, _ := constBool(s.mon["present"])
		dt := td.Typ
		cur := zeroVal(dt)
		if p {
			cur = s.mon["stored"]
		}
		switch op {
		case "Has":
			return ret(s, boolV(p)), true
		case "Get":
			return ret(s, &Tuple{Vs: []Val{cur, boolV(p)}}), true
		case "Delete":
			s.mon["present"] = boolV(false)
			return ret(s, &Tuple{Vs: []Val{cur, boolV(p)}}), true
		case "ReplaceOrInsert":
			s.mon["present"] = boolV(true)
			s.mon["stored"] = td
			return ret(s, &Tuple{Vs: []Val{cur, boolV(p)}}), true
		}
		return nil, false
	}
	defer func() { x.op = nil }()
	var out []setResult
	for _, o := range x.method(st, recv, op, d) {
		sr := setResult{st: o.st, panicked: o.panic, ret: o.ret}
		if t := o.st.mon["tree"]; t != nil {
			sr.treePtr = t.(*Ptr).Obj
			sr.tree = treeName(o.st, sr.treePtr)
			sr.key = o.st.mon["key"].(*Struct)
			sr.stored = o.st.mon["stored"]
		}
		sr.present, _ = constBool(o.st.mon["present"])
		out = append(out, sr)
	}
	return out
}

// enc learns the tree and the stored form of a value from insertion.
type encoded struct {
	tree   string
	stored Val
	dt     types.Type
}

// learn gives how the index stores the value.
func (x *IxCtx) learn(order string, it Val, k attrKind, payload Val, rule string) *encoded {
	st := x.e.newState()
	c := x.newComposite(st, it)
	ev, av, tv := x.ids("d")
	s := c.st
	x.typed(s, av, k)
	x.positive(s, ev)
	subj := order + " of " + k.name
	var en *encoded
	for _, sr := range x.setOp(s, c.ptr, "Insert", x.datum(ev, av, &Iface{Dyn: k.vt, V: payload}, tv), false, rule, subj+": Insert") {
		if sr.panicked != "" || sr.key == nil || !sr.present {
			x.r.check(false, rule, subj+": Insert", "", "the insertion of a datum stores nothing (%s)", sr.panicked)
			return nil
		}
		v := fieldNamed(sr.key, "V")
		n := &encoded{sr.tree, v, sr.key.Typ}
		if en != nil && (en.tree != n.tree || en.stored.Key() != n.stored.Key()) {
			x.r.check(false, rule, subj+": Insert", "", "a value is stored in several ways: %s and %s", shortKey(en.stored), shortKey(v))
		}
		en = n
	}
	return en
}

func payloadSym(t types.Type) Val { return rigidVal(t, "p") }

func checkC18(r *Report) {
	const rule = "set semantics"
	const rule2 = "clones are independent"
	x := newIx(r)
	defer r.use(x.e)
	r.rule(rule)
	its := x.idxTypes()
	r.check(len(its) >= 3, rule, "index types", ixPkg, "expected the index types, found %d", len(its))
	for _, order := range sortedKeys(its) {
		for _, k := range attrKinds(x.e) {
			r.attempt(rule, order+" of "+k.name, func() { x.setSemantics(order, its[order], k, rule, "") })
		}
	}
	r.rule(rule2)
	for _, order := range sortedKeys(its) {
		r.attempt(rule2, order, func() { x.clones(order, its[order], rule2) })
	}
}

// setSemantics checks the point operations; with encRule they are checked only for their stored forms.
func (x *IxCtx) setSemantics(order string, it Val, k attrKind, rule, encRule string) {
	r, e := x.r, x.e
	er := rule
	if er == "" {
		er = encRule
	}
	for ai, payload := range k.alts(payloadSym) {
		en := x.learn(order, it, k, payload, er)
		if en == nil {
			continue
		}
		for _, op := range []string{"Insert", "Delete", "Find"} {
			for _, present := range []bool{true, false} {
				st := e.newState()
				c := x.newComposite(st, it)
				s := c.st
				ev, av, tv := x.ids("d")
				x.typed(s, av, k)
				x.positive(s, ev)
				d := x.datum(ev, av, &Iface{Dyn: k.vt, V: payload}, tv)
				subj := fmt.Sprintf("%s of %s: %s", order, k.name, op)
				if ai > 0 {
					subj += " true"
				}
				where := ixPkg
				if m := e.p.method(types.NewPointer(e.mustType(ixPkg, "CompositeIndex")), op); m != nil {
					where = e.p.pos(m.Pos())
				}
				for _, sr := range x.setOp(s, c.ptr, op, d, present, er, subj) {
					if sr.panicked != "" {
						r.check(false, er, subj, where, "panics: %s", sr.panicked)
						continue
					}
					if sr.key == nil {
						r.check(false, er, subj, where, "no tree is reached")
						continue
					}
					if encRule != "" {
						r.check(sr.tree == en.tree && fieldNamed(sr.key, "V").Key() == en.stored.Key(), encRule, subj, where, "the value is looked for as %s in %s, but stored as %s in %s", shortKey(fieldNamed(sr.key, "V")), sr.tree, shortKey(en.stored), en.tree)
						continue
					}
					r.check(fieldNamed(sr.key, "E").Key() == ev.Key() && fieldNamed(sr.key, "A").Key() == av.Key(), rule, subj, where, "the key %s is not of the datum's entity and attribute", keyText(sr.key))
					b, known := constBool(sr.st.norm(sr.ret))
					r.check(known && b == present, rule, subj, where, "reports %s for a datum which is %s", shortKey(sr.ret), map[bool]string{true: "present", false: "absent"}[present])
					want := map[string]bool{"Insert": true, "Delete": false, "Find": present}[op]
					r.check(sr.present == want, rule, subj, where, "the datum is present afterwards: %t, where it was %t before", sr.present, present)
					if sr.present {
						t := fieldNamed(sr.stored.(*Struct), "T").Key()
						wt := told.Key()
						if !present {
							wt = tv.Key()
						}
						r.check(t == wt, rule, subj, where, "the datum has the transaction %s afterwards, not %s", t, wt)
					}
				}
			}
		}
	}
}

// clones checks that an index and its clone share nothing that either writes.
func (x *IxCtx) clones(order string, it Val, rule string) {
	r, e := x.r, x.e
	for _, k := range attrKinds(e) {
		for _, op := range []string{"Insert", "Delete", "SetAttrTypes"} {
			if op == "SetAttrTypes" && k.name != "ID" {
				continue
			}
			for _, onClone := range []bool{true, false} {
				subj := fmt.Sprintf("%s of %s: %s on the %s", order, k.name, op, map[bool]string{true: "clone", false: "original"}[onClone])
				c := x.newComposite(e.newState(), it)
				ev, av, tv := x.ids("d")
				x.typed(c.st, av, k)
				x.positive(c.st, ev)
				payload := k.alts(payloadSym)[0]
				en := x.learn(order, it, k, payload, rule)
				if en == nil {
					return
				}
				for _, o := range x.method(c.st, c.ptr, "Clone") {
					if o.panic != "" {
						r.check(false, rule, subj, "", "cloning panics: %s", o.panic)
						continue
					}
					cl, ok := o.ret.(*Iface)
					var cp *Ptr
					if ok {
						cp, ok = cl.V.(*Ptr)
					}
					if !ok {
						r.undecided(rule, subj, "the clone is not known: %s", shortKey(o.ret))
						continue
					}
					r.check(cp.Obj != c.ptr.Obj, rule, subj, "", "the clone is the original")
					// The trees each reaches, by insertion.
					d := x.datum(ev, av, &Iface{Dyn: k.vt, V: payload}, tv)
					tree := func(recv Val) string {
						for _, sr := range x.setOp(o.st.clone(), recv, "Find", d, false, rule, subj) {
							return sr.treePtr
						}
						return ""
					}
					t1, t2 := tree(c.ptr), tree(cp)
					if t1 == "" || t2 == "" {
						r.check(false, rule, subj, "", "the index or its clone reaches no tree")
						continue
					}
					co := o.st.obj(t2).attr("cloneOf")
					r.check(t1 != t2 && co != nil && co.(*Ptr).Obj == t1, rule, subj, "", "the clone's tree is not a clone of the original's tree of the same role")
					// Objects of the other which may not be written.
					target, other := c.ptr, cp
					if onClone {
						target, other = cp, c.ptr
					}
					mine, theirs := reachable(o.st, target), reachable(o.st, other)
					_ = mine
					s := o.st.clone()
					saveS, saveM := e.onStore, e.onMap
					e.onStore = func(en *Engine, st *State, p *Ptr, v Val, in ssa.Instruction) {
						if theirs[p.Obj] {
							r.check(false, rule, subj, e.p.pos(instrPos(in)), "changes an object which the other index reaches")
						}
					}
					e.onMap = func(en *Engine, st *State, id, op string, key, val Val, in ssa.Instruction) {
						if theirs[id] && (op == "set" || op == "delete" || op == "clear") {
							r.check(false, rule, subj, e.p.pos(instrPos(in)), "changes a map which the other index reaches")
						}
					}
					var after []*State
					if op == "SetAttrTypes" {
						m := &Sym{Name: "attrTypes2", Typ: attrTypesMap(e).(*Sym).Typ, Rigid: true}
						for _, w := range x.method(s, target, op, m) {
							after = append(after, w.st)
						}
					} else {
						for _, sr := range x.setOp(s, target, op, d, op == "Delete", rule, subj) {
							if sr.treePtr != "" {
								r.check(!theirs[sr.treePtr], rule, subj, "", "the tree reached belongs to the other index")
							}
							after = append(after, sr.st)
						}
					}
					e.onStore, e.onMap = saveS, saveM
					for _, w := range after {
						// The other's contents are as before.
						same := w.obj(other.Obj).Val.Key() == o.st.obj(other.Obj).Val.Key()
						r.check(same, rule, subj, "", "the other index has changed")
					}
				}
			}
		}
	}
}

// reachable gives the objects which may be reached from the value, but for those of function values.
func reachable(st *State, v Val) map[string]bool {
	out := map[string]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		objsOf(v, func(id string) {
			if out[id] {
				return
			}
			out[id] = true
			o := st.obj(id)
			if o == nil {
				return
			}
			attrs := o.Attrs
			n := *o
			if attrs["cloneOf"] != nil {
				n.Attrs = map[string]Val{}
				for k, v := range attrs {
					if k != "cloneOf" {
						n.Attrs[k] = v
					}
				}
			}
			n.vals(walk)
		})
	}
	walk(v)
	return out
}

func checkC17(r *Report) {
	const rule = "operations agree on the stored form"
	const rule2 = "stored values are read as they were written"
	x := newIx(r)
	defer r.use(x.e)
	r.rule(rule)
	its := x.idxTypes()
	for _, order := range sortedKeys(its) {
		for _, k := range attrKinds(x.e) {
			r.attempt(rule, order+" of "+k.name, func() { x.setSemantics(order, its[order], k, "", rule) })
		}
	}
	r.rule(rule2)
	for _, order := range sortedKeys(supported) {
		if its[order] == nil {
			r.undecided(rule2, order, "no such index type")
			continue
		}
		for _, k := range attrKinds(x.e) {
			for _, p := range supported[order] {
				for _, op := range []string{"Select", "First"} {
					r.attempt(rule2, order+" "+p+" "+op+" of "+k.name, func() { x.partialScan(order, its[order], p, op, k, "", rule2) })
				}
			}
			if order == "EAV" {
				r.attempt(rule2, order+" All of "+k.name, func() { x.partialScan(order, its[order], "", "All", k, "", rule2) })
			}
		}
	}
}

func checkC16(r *Report) {
	const rule = "partial lookups"
	const rule2 = "merged lookups"
	x := newIx(r)
	defer r.use(x.e)
	its := x.idxTypes()
	r.rule(rule)
	for _, order := range sortedKeys(supported) {
		if its[order] == nil {
			r.undecided(rule, order, "no such index type")
			continue
		}
		for _, p := range supported[order] {
			r.check(strings.HasPrefix(order, sortLike(p, order)), rule, order+" "+p, "", "the fields of the partial are no prefix of the order")
			for _, k := range attrKinds(x.e) {
				for _, op := range []string{"Select", "First", "Count"} {
					r.attempt(rule, order+" "+p+" "+op+" of "+k.name, func() { x.partialScan(order, its[order], p, op, k, rule, "") })
				}
			}
		}
	}
	r.rule(rule2)
	for _, p := range []string{"E", ""} {
		r.attempt(rule2, "EAV "+p, func() { x.merged(its["EAV"], p, rule2, "") })
	}
}

// sortLike gives the fields in the order they occur in the index order.
func sortLike(p, order string) string {
	out := ""
	for _, c := range order {
		if strings.ContainsRune(p, c) {
			out += string(c)
		}
	}
	return out
}

// element makes an arbitrary stored datum of the typed datum type, where given fields are as given.
func (x *IxCtx) element(dt types.Type, fs map[string]Val) *Struct {
	d := x.e.fresh(dt, "s").(*Struct)
	d = &Struct{Typ: d.Typ, Fs: append([]Val{}, d.Fs...)}
	for k, v := range fs {
		d.Fs[fieldIndex(dt, k)] = v
	}
	return d
}

// same reports whether the value read is the value written.
func (x *IxCtx) sameValue(st *State, got Val, k attrKind, payload Val) bool {
	i, ok := got.(*Iface)
	if !ok || !types.Identical(i.Dyn, k.vt) {
		return false
	}
	v := st.norm(i.V)
	if k.name != "Inst" {
		return v.Key() == payload.Key()
	}
	a, ok := stripZone(v).(*App)
	if !ok || a.Op != "time.UnixMilli" || len(a.Args) != 1 {
		return false
	}
	b, ok := a.Args[0].(*App)
	return ok && b.Op == "(time.Time).UnixMilli" && stripZone(b.Args[0]).Key() == payload.Key()
}

func stripZone(v Val) Val {
	for {
		a, ok := v.(*App)
		if !ok {
			return v
		}
		switch a.Op {
		case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
			v = a.Args[0]
			continue
		}
		return v
	}
}

// encode applies the stored form of the kind to the payload.
func (x *IxCtx) encode(en *encoded, k attrKind, payload Val) Val {
	if k.name == "Bool" {
		return en.stored
	}
	return subst(en.stored, payloadSym(k.vt).Key(), payload)
}

// partialScan checks one lookup. The scan rule is of which datums are given, the value rule of their values.
func (x *IxCtx) partialScan(order string, it Val, p, op string, k attrKind, scanRule, valueRule string) {
	r, e := x.r, x.e
	rule := scanRule
	if rule == "" {
		rule = valueRule
	}
	subj := strings.TrimSpace(order+" "+p) + " " + op + " of " + k.name
	var encs []*encoded
	for _, payload := range k.alts(payloadSym) {
		en := x.learn(order, it, k, payload, rule)
		if en == nil {
			return
		}
		encs = append(encs, en)
	}
	where := ixPkg
	if m := e.p.method(types.NewPointer(e.mustType(ixPkg, "CompositeIndex")), op); m != nil {
		where = e.p.pos(m.Pos())
	}
	byEntity := p == "E" || p == ""
	var queries []Val
	if strings.Contains(p, "V") {
		queries = k.alts(func(t types.Type) Val { return rigidVal(t, "q") })
	} else {
		queries = []Val{nil}
	}
	for qi, q := range queries {
		c := x.newComposite(e.newState(), it)
		st := c.st
		ev, av, tv := x.ids("q")
		if !byEntity {
			x.typed(st, av, k)
		}
		x.positive(st, ev)
		var qv Val = nilV
		if q != nil {
			qv = &Iface{Dyn: k.vt, V: q}
		}
		var qenc Val
		if q != nil {
			if k.name == "Bool" {
				qenc = encs[qi].stored
			} else {
				qenc = x.encode(encs[0], k, q)
			}
		}
		// The elements of the tree.
		gen := func(s *State) []Elem {
			var out []Elem
			id := e.mustType(typesPkg, "ID")
			for i, en := range encs {
				payload := k.alts(func(t types.Type) Val { return e.fresh(t, "sp") })[i]
				stored := x.encode(en, k, payload)
				fs := map[string]Val{"V": stored}
				w := s.clone()
				if strings.Contains(p, "E") {
					fs["E"] = ev
				}
				if strings.Contains(p, "A") {
					fs["A"] = av
				}
				if q != nil {
					if k.name == "Bool" && i != qi {
						continue
					}
					fs["V"] = qenc
					payload = q
				}
				d := x.element(en.dt, fs)
				x.typed(w, fieldNamed(d, "A"), k)
				x.positive(w, fieldNamed(d, "E"))
				out = append(out, Elem{st: w, d: d, match: true, want: &Tuple{Vs: []Val{fieldNamed(d, "E"), fieldNamed(d, "A"), payload, fieldNamed(d, "T")}}})
			}
			if p == "" {
				return out
			}
			// Others differ in the last field of the partial or in those before it.
			fields := sortLike(p, order)
			for n := range fields {
				for i, en := range encs {
					payload := k.alts(func(t types.Type) Val { return e.fresh(t, "sp") })[i]
					w := s.clone()
					fs := map[string]Val{"V": x.encode(en, k, payload)}
					for j := 0; j < n; j++ {
						switch fields[j] {
						case 'E':
							fs["E"] = ev
						case 'A':
							fs["A"] = av
						case 'V':
							fs["V"] = qenc
						}
					}
					d := x.element(en.dt, fs)
					var a, b Val
					switch fields[n] {
					case 'E':
						a, b = fieldNamed(d, "E"), ev
					case 'A':
						a, b = fieldNamed(d, "A"), av
					case 'V':
						a, b = fieldNamed(d, "V"), qenc
						if isFloat(typeOf(a)) {
							// Neither is the other in the order of the tree.
							x1, x2 := a, b
							if x1.Key() > x2.Key() {
								x1, x2 = x2, x1
							}
							if !w.addFact(&App{Op: "cmpeq", Args: []Val{x1, x2}, Typ: types.Typ[types.Bool]}, boolV(false)) {
								continue
							}
						}
					}
					if !w.assume(w.mkEqV(a, b), false) {
						continue
					}
					if fields[n] != 'A' && !byEntity || fields[n] == 'V' {
						if fs["A"] == nil {
							x.typed(w, fieldNamed(d, "A"), k)
						}
					} else {
						w.assume(mkEq(fieldNamed(d, "A"), &Const{Typ: id, V: constant.MakeInt64(0)}), false)
					}
					x.positive(w, fieldNamed(d, "E"))
					out = append(out, Elem{st: w, d: d})
				}
			}
			return out
		}
		x.elems = func(s *State, tree string, pivot *Struct) []Elem {
			if treeName(s, tree) != encs[0].tree {
				return nil
			}
			return gen(s)
		}
		scans := 0
		x.ascend = func(s *State, tree string, pivot, upper *Struct, cc *CallCtx) {
			at := e.p.pos(instrPos(cc.Site))
			if scanRule == "" {
				return
			}
			if op == "Count" && s.mon["scanned"+treeName(s, tree)] != nil {
				r.check(false, scanRule, subj, at, "scans a tree twice")
			}
			s.mon["scanned"+treeName(s, tree)] = boolV(true)
			if treeName(s, tree) == encs[0].tree {
				scans++
			} else if !byEntity {
				r.check(false, scanRule, subj, at, "scans a tree into which insertion does not put this type")
				return
			} else {
				return
			}
			r.check(upper == nil, scanRule, subj, at, "the scan has an upper bound")
			if pivot == nil {
				return
			}
			less := s.obj(tree).attr("less")
			for _, el := range gen(s.clone()) {
				if !el.match {
					continue
				}
				good := true
				for _, o := range e.invoke(el.st, less, el.d, pivot) {
					if o.panic != "" {
						good = false
						continue
					}
					b, known := o.st.decide(o.ret)
					if !known || b {
						good = false
					}
				}
				r.check(good, scanRule, subj, at, "a matching datum may precede the datum where the scan begins, %s", keyText(pivot))
			}
		}
		if byEntity {
			e.keepLists = 4
			defer func() { e.keepLists = 0 }()
		}
		x.rule, x.subj = rule, subj
		consumer := func(s *State, got Val, at string) {
			if x.vague(s, rule, subj, got) {
				return
			}
			d, ok := got.(*Struct)
			w, ok2 := s.mon["want"].(*Tuple)
			if !ok || s.mon["cur"] == nil {
				r.check(false, rule, subj, at, "gives what is not a datum of the tree: %s", shortKey(got))
				return
			}
			m, _ := constBool(s.mon["curMatch"])
			if !m || !ok2 {
				r.check(false, rule, subj, at, "gives a datum which does not match")
				return
			}
			if x.stops != nil {
				seen, _ := constBool(s.mon["curSeen"])
				x.stops.check(!seen, rule, subj, at, "gives a datum twice")
			}
			if scanRule != "" {
				seen, _ := constBool(s.mon["curSeen"])
				r.check(!seen, scanRule, subj, at, "gives a datum twice")
				r.check(fieldNamed(d, "E").Key() == w.Vs[0].Key() && fieldNamed(d, "A").Key() == w.Vs[1].Key() && fieldNamed(d, "T").Key() == w.Vs[3].Key(), scanRule, subj, at, "the datum given differs from that stored")
			}
			if valueRule != "" {
				r.check(x.sameValue(s, fieldNamed(d, "V"), k, w.Vs[2]), valueRule, subj, at, "the value given is %s, where %s was stored", shortKey(fieldNamed(d, "V")), shortKey(w.Vs[2]))
			}
			s.mon["curSeen"] = boolV(true)
		}
		x.yield = func(s *State, v Val, cc *CallCtx) {
			if byEntity {
				// The item was drawn before.
				for _, id := range tracked(s, "pull") {
					s.setAttr(id, "pending", boolV(false))
				}
				w, ok := s.mon["drawn"].(*Tuple)
				d, ok2 := v.(*Struct)
				at := e.p.pos(instrPos(cc.Site))
				if x.vague(s, rule, subj, v) {
					return
				}
				if !ok || !ok2 {
					r.check(false, rule, subj, at, "gives what was not drawn from the tree: %s", shortKey(v))
					return
				}
				if valueRule != "" {
					r.check(x.sameValue(s, fieldNamed(d, "V"), k, w.Vs[2]), valueRule, subj, at, "the value given is %s, where %s was stored", shortKey(fieldNamed(d, "V")), shortKey(w.Vs[2]))
				}
				if scanRule != "" {
					r.check(fieldNamed(d, "E").Key() == w.Vs[0].Key() && fieldNamed(d, "A").Key() == w.Vs[1].Key() && fieldNamed(d, "T").Key() == w.Vs[3].Key(), scanRule, subj, at, "the datum given differs from that stored")
				}
				return
			}
			consumer(s, v, e.p.pos(instrPos(cc.Site)))
		}
		x.capture = func(s *State, pull string, v Val, cc *CallCtx) {
			m, _ := constBool(orFalse(s.mon["curMatch"]))
			at := e.p.pos(instrPos(cc.Site))
			r.check(m, rule, subj, at, "draws a datum which does not match")
			if w := s.mon["want"]; w != nil {
				s.mon["drawn"] = w
			}
			s.mon["curSeen"] = boolV(true)
		}
		x.after = func(s *State, matched, seen, stopped bool) {
			if op == "Select" || op == "All" {
				if scanRule != "" && matched && !seen {
					r.check(false, scanRule, subj, where, "a matching datum is not given")
				}
			}
		}
		if !byEntity || op == "Count" {
			st.mon["n"] = mkInt(0)
		}
		st.mon["first"] = nilV
		st.mon["truncated"] = boolV(false)
		x.counting = op == "Count"
		defer func() { x.counting = false }()
		qd := x.datum(ev, av, qv, tv)
		var outs []Outcome
		switch op {
		case "All":
			outs = x.method(st, c.ptr, op)
		default:
			outs = x.method(st, c.ptr, op, x.partial(p), qd)
		}
		done := 0
		for _, o := range outs {
			if o.panic != "" {
				r.check(false, rule, subj, where, "panics: %s", o.panic)
				continue
			}
			switch op {
			case "Select", "All":
				f, ok := o.ret.(*FuncV)
				if !ok {
					r.undecided(rule, subj, "the sequence is not known: %s", shortKey(o.ret))
					continue
				}
				for _, w := range e.invoke(o.st, f, yieldSym) {
					if w.panic != "" {
						r.check(false, rule, subj, where, "panics: %s", w.panic)
						continue
					}
					done++
					if scanRule != "" {
						t, _ := constBool(w.st.mon["truncated"])
						if byEntity {
							t = false
						}
						r.check(!t, scanRule, subj, where, "the scan ends at a matching datum")
					}
				}
			case "First":
				done++
				t, ok := o.ret.(*Tuple)
				if !ok || len(t.Vs) != 2 {
					r.undecided(rule, subj, "the result is not known")
					continue
				}
				found, known := constBool(o.st.norm(t.Vs[1]))
				if !known {
					r.undecided(rule, subj, "whether a datum was found is not known: %s", shortKey(t.Vs[1]))
					continue
				}
				f := o.st.mon["first"]
				if scanRule != "" {
					r.check(found == !isNilV(f), scanRule, subj, where, "reports %t where there is a matching datum: %t", found, !isNilV(f))
				}
				if w, ok := f.(*Tuple); ok && found {
					d, ok := t.Vs[0].(*Struct)
					if !ok {
						r.undecided(rule, subj, "the datum is not known")
						continue
					}
					if scanRule != "" {
						r.check(o.st.norm(fieldNamed(d, "E")).Key() == w.Vs[0].Key() && o.st.norm(fieldNamed(d, "A")).Key() == w.Vs[1].Key() && fieldNamed(d, "T").Key() == w.Vs[3].Key(), scanRule, subj, where, "the datum given is not the first matching one")
					}
					if valueRule != "" {
						r.check(x.sameValue(o.st, fieldNamed(d, "V"), k, w.Vs[2]), valueRule, subj, where, "the value given is %s, where %s was stored", shortKey(fieldNamed(d, "V")), shortKey(w.Vs[2]))
					}
				}
			case "Count":
				done++
				n := o.st.mon["n"]
				r.check(o.st.norm(o.ret).Key() == o.st.norm(n).Key(), rule, subj, where, "the count is %s where %s datums match", shortKey(o.ret), shortKey(n))
			}
		}
		r.check(done > 0, rule, subj, where, "never finishes")
		if scanRule != "" {
			r.check(scans > 0, scanRule, subj, where, "does not scan the tree into which insertion puts this type")
		}
		x.elems, x.ascend, x.yield, x.capture, x.after = nil, nil, nil, nil, nil
	}
}

// vague reports whether the item given is an unknown element of a list whose elements the analysis has not
// kept apart, of which nothing can be said.
func (x *IxCtx) vague(s *State, rule, subj string, v Val) bool {
	if !strings.Contains(v.Key(), "elem($list") {
		return false
	}
	s.mon["vague"] = boolV(true)
	x.r.undecided(rule, subj, "an item given comes from a list whose elements are not known apart")
	return true
}

// merged checks the merge of the trees' sequences where each tree holds arbitrary datums.
func (x *IxCtx) merged(it Val, p, scanRule, seqRule string) {
	r, e := x.r, x.e
	rule := scanRule
	if rule == "" {
		rule = seqRule
	}
	op := "Select"
	if p == "" {
		op = "All"
	}
	subj := strings.TrimSpace("EAV " + p + " " + op)
	where := e.p.pos(e.p.method(types.NewPointer(e.mustType(ixPkg, "CompositeIndex")), op).Pos())
	type prim struct {
		k  attrKind
		en *encoded
	}
	prims := map[string]prim{}
	for _, k := range attrKinds(e) {
		en := x.learn("EAV", it, k, k.alts(payloadSym)[0], rule)
		if en == nil {
			return
		}
		if q, ok := prims[en.tree]; !ok || q.k.name == "Bool" || q.k.name == "Inst" {
			prims[en.tree] = prim{k, en}
		}
	}
	c := x.newComposite(e.newState(), it)
	st := c.st
	ev, av, tv := x.ids("q")
	x.positive(st, ev)
	scanned := map[string]bool{}
	e.nocoarse = true
	e.keepLists = 4
	defer func() { e.nocoarse, e.keepLists = false, 0 }()
	x.elems = func(s *State, tree string, pivot *Struct) []Elem {
		pr, ok := prims[treeName(s, tree)]
		if !ok {
			return nil
		}
		scanned[treeName(s, tree)] = true
		payload := e.fresh(pr.k.vt, "sp")
		fs := map[string]Val{"V": x.encode(pr.en, pr.k, payload)}
		if p == "E" {
			fs["E"] = ev
		}
		w := s.clone()
		d := x.element(pr.en.dt, fs)
		x.typed(w, fieldNamed(d, "A"), pr.k)
		x.positive(w, fieldNamed(d, "E"))
		return []Elem{{st: w, d: d, match: true, want: &Tuple{Vs: []Val{fieldNamed(d, "E"), fieldNamed(d, "A")}}}}
	}
	x.rule, x.subj = rule, subj
	x.capture = func(s *State, pull string, v Val, cc *CallCtx) { s.mon["curSeen"] = boolV(true) }
	x.yield = func(s *State, v Val, cc *CallCtx) {
		at := e.p.pos(instrPos(cc.Site))
		if x.vague(s, rule, subj, v) {
			return
		}
		d, ok := v.(*Struct)
		if !ok {
			r.check(false, rule, subj, at, "gives what was not drawn: %s", shortKey(v))
			return
		}
		mine := ""
		for _, id := range tracked(s, "pull") {
			o := s.obj(id)
			if pend, _ := constBool(o.attr("pending")); !pend {
				continue
			}
			if h, ok := o.attr("head").(*Struct); ok && keyOfDatum(h) == keyOfDatum(d) {
				mine = id
			}
		}
		if mine == "" {
			if os.Getenv("TRACE2") != "" {
				fmt.Println("YIELD", shortKey(v))
				for _, id := range tracked(s, "pull") {
					fmt.Println("  ", id, s.obj(id).Attrs)
				}
			}
			r.check(false, rule, subj, at, "gives a datum which is not pending: it was given before, or never drawn")
			return
		}
		r.check(true, rule, subj, at, "")
		s.setAttr(mine, "pending", boolV(false))
		if scanRule == "" {
			return
		}
		for _, id := range tracked(s, "pull") {
			o := s.obj(id)
			if b, _ := constBool(o.attr("stopped")); b {
				continue
			}
			dn, _ := constBool(o.attr("done"))
			pend, _ := constBool(o.attr("pending"))
			if !pend {
				if id != mine && !dn {
					r.check(false, scanRule, subj, at, "gives a datum before the next of every tree is known")
				}
				continue
			}
			h := o.attr("head").(*Struct)
			e1, e2 := fieldNamed(h, "E"), fieldNamed(d, "E")
			a1, a2 := fieldNamed(h, "A"), fieldNamed(d, "A")
			bt := types.Typ[types.Bool]
			// Not (h < d) by entity and attribute.
			le, known := s.decide(s.mk("lt", bt, e1, e2))
			eq, known2 := s.decideEq(e1, e2)
			if e1.Key() == e2.Key() {
				le, known, eq, known2 = false, true, true, true
			}
			la, known3 := s.decide(s.mk("lt", bt, a1, a2))
			good := known && !le && (known2 && !eq || known3 && !la)
			r.check(good, scanRule, subj, at, "may give a datum before a lesser one of another tree")
		}
	}
	st.mon["n"] = nil
	delete(st.mon, "n")
	var outs []Outcome
	if op == "All" {
		outs = x.method(st, c.ptr, op)
	} else {
		outs = x.method(st, c.ptr, op, x.partial(p), x.datum(ev, av, nilV, tv))
	}
	done := 0
	for _, o := range outs {
		f, ok := o.ret.(*FuncV)
		if o.panic != "" || !ok {
			r.check(false, rule, subj, where, "gives no sequence: %s %s", o.panic, shortKey(o.ret))
			continue
		}
		for _, w := range e.invoke(o.st, f, yieldSym) {
			if w.panic != "" && seqRule == "" {
				r.check(false, rule, subj, where, "panics: %s", w.panic)
				continue
			}
			done++
			stopped, _ := constBool(orFalse(w.st.mon["consumerStopped"]))
			for _, id := range tracked(w.st, "pull") {
				at := w.st.obj(id).Attrs
				b := func(k string) bool { v, _ := constBool(at[k]); return v }
				if seqRule != "" {
					r.check(b("stopped"), seqRule, subj+": release", where, "a suspended sequence is not released when the consumer %s", map[bool]string{true: "stops", false: "does not stop"}[stopped])
				}
				if scanRule != "" && !stopped && w.st.mon["vague"] == nil {
					r.check(b("done") && !b("pending"), scanRule, subj, where, "ends before every tree is exhausted")
				}
			}
		}
	}
	r.check(done > 0, rule, subj, where, "never finishes")
	if scanRule != "" {
		for t, pr := range prims {
			r.check(scanned[t], scanRule, subj, where, "does not scan the tree of %s", pr.k.name)
		}
	}
	x.elems, x.yield, x.capture = nil, nil, nil
}

func keyOfDatum(d *Struct) string {
	return fieldNamed(d, "E").Key() + " " + fieldNamed(d, "A").Key() + " " + fieldNamed(d, "T").Key()
}

func checkC21(r *Report) {
	runQueries(r).report(r, ruleGivenOnce)
	const rule = "index sequences"
	const rule2 = "combinators of sequences"
	x := newIx(r)
	defer r.use(x.e)
	its := x.idxTypes()
	r.rule(rule)
	for _, p := range []string{"E", ""} {
		r.attempt(rule, "EAV "+p, func() { x.merged(its["EAV"], p, "", rule) })
	}
	for _, order := range sortedKeys(supported) {
		for _, p := range supported[order] {
			for _, k := range attrKinds(x.e) {
				subj := order + " " + p + " Select of " + k.name
				r.attempt(rule, subj, func() {
					x.r, x.stops = &Report{p: r.p, rules: map[string]int{}, seen: map[string]bool{}}, r
					defer func() { x.r, x.stops = r, nil }()
					x.partialScan(order, its[order], p, "Select", k, rule, "")
					r.check(true, rule, subj, "", "")
				})
			}
		}
	}
	r.rule(rule2)
	n := 0
	for _, fn := range r.p.funcs {
		sig := fn.Signature
		if !r.p.inModule(fn) || fn.Parent() != nil || sig.Recv() != nil || sig.Results().Len() != 1 || !isSeq(sig.Results().At(0).Type()) || len(fn.Blocks) == 0 {
			continue
		}
		takes := false
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			takes = takes || isSeq(t)
		}
		if !takes {
			continue
		}
		n++
		r.note("combinator %s", fnName(fn))
		r.attempt(rule2, fnName(fn), func() { x.combinator(fn, rule2) })
	}
	r.check(n >= 1, rule2, "functions", "", "no functions combine sequences")
}

// isSeq reports whether the type is a sequence.
func isSeq(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 || s.Results().Len() != 0 {
		return false
	}
	y, ok := s.Params().At(0).Type().Underlying().(*types.Signature)
	if !ok || y.Params().Len() < 1 || y.Params().Len() > 2 || y.Results().Len() != 1 {
		return false
	}
	b, ok := y.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// combinator checks a function of sequences where they are arbitrary.
func (x *IxCtx) combinator(fn *ssa.Function, rule string) {
	r, e := x.r, x.e
	subj := fnName(fn)
	where := e.p.pos(fn.Pos())
	st := e.newState()
	sig := fn.Signature
	var args []Val
	nseq := 0
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if isSeq(u.Elem()) {
				var els []Val
				for j := 0; j < 3; j++ {
					nseq++
					els = append(els, &Sym{Name: fmt.Sprintf("seq:%d", nseq), Typ: u.Elem(), Rigid: true})
				}
				id := st.newObj(&Obj{Kind: listObj, Typ: u.Elem(), Els: els, Len: mkInt(3)})
				args = append(args, &SliceV{Obj: id})
				continue
			}
		case *types.Signature:
			if isSeq(t) {
				nseq++
				args = append(args, &Sym{Name: fmt.Sprintf("seq:%d", nseq), Typ: t, Rigid: true})
				continue
			}
		}
		args = append(args, rigidVal(t, sig.Params().At(i).Name()))
	}
	x.rule, x.subj = rule, subj
	e.nocoarse = true
	e.keepLists = 4
	defer func() { e.nocoarse, e.keepLists = false, 0 }()
	x.yield = func(s *State, v Val, c *CallCtx) {
		at := e.p.pos(instrPos(c.Site))
		if x.vague(s, rule, subj, v) {
			return
		}
		el := s.mon["seqitem"]
		if el == nil {
			// Drawn by a suspension, rather than given.
			mine := ""
			for _, id := range tracked(s, "pull") {
				o := s.obj(id)
				if pend, _ := constBool(o.attr("pending")); pend && o.attr("head").Key() == v.Key() {
					mine = id
				}
			}
			if r.check(mine != "", rule, subj, at, "gives what is not pending: it was given before, or never drawn") {
				s.setAttr(mine, "pending", boolV(false))
			}
			return
		}
		seen, _ := constBool(orFalse(s.mon["itemSeen"]))
		r.check(!seen, rule, subj, at, "gives an item of a sequence twice")
		s.mon["itemSeen"] = boolV(true)
	}
	done := 0
	for _, o := range e.invoke(st, &FuncV{Fn: fn}, args...) {
		f, ok := o.ret.(*FuncV)
		if o.panic != "" || !ok {
			r.check(false, rule, subj, where, "gives no sequence: %s %s", o.panic, shortKey(o.ret))
			continue
		}
		for _, w := range e.invoke(o.st, f, yieldSym) {
			r.check(w.panic == "", rule, subj, where, "panics: %s", w.panic)
			done++
			for _, id := range tracked(w.st, "pull") {
				b, _ := constBool(w.st.obj(id).attr("stopped"))
				r.check(b, rule, subj+": release", where, "a suspended sequence is not released")
			}
		}
	}
	r.check(done > 0, rule, subj, where, "never finishes")
	x.yield = nil
}
