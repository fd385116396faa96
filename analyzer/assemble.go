package main

import (
	"fmt"
	"go/types"
	"maps"
	"reflect"
	"strconv"
	"strings"
)

// What assembling entities should give is computed over the abstract facts of the snapshot and the types of
// the structs, and compared with the structs by walking both.

type asmFact struct {
	e int64
	a Val
	v Val
	t string // the type of the value
}

type asmSpec struct {
	shredSpec
	facts  []asmFact
	must   string // why there must be an error
	may    string // why there may be one
	loose  bool   // what there is then is not specified
	types  map[int64]types.Type
	seen   map[string]bool
	inst   map[string]string
	walked map[string]bool
}

func newAsmSpec(p *Program, st *State, facts Val) *asmSpec {
	s := &asmSpec{shredSpec: shredSpec{p: p, st: st}, inst: map[string]string{}, types: map[int64]types.Type{}}
	for _, x := range eList(st, facts) {
		f, ok := st.norm(x).(*Struct)
		if !ok {
			st.eng.failf("a fact is not known")
		}
		e, ok := constInt(st.norm(f.Fs[0]))
		if !ok {
			st.eng.failf("the entity of a fact is not known")
		}
		v, ok := st.norm(f.Fs[2]).(*Iface)
		if !ok {
			st.eng.failf("the value of a fact is not known")
		}
		s.facts = append(s.facts, asmFact{e, st.norm(f.Fs[1]), v.V, strings.TrimPrefix(typKey(v.Dyn), "types.")})
	}
	return s
}

func (s *asmSpec) fail(format string, args ...any) {
	if s.must == "" {
		s.must = fmt.Sprintf(format, args...)
	}
}

// free allows what is not specified, and an error.
func (s *asmSpec) free(format string, args ...any) {
	s.loose = true
	s.allow(format, args...)
}

func (s *asmSpec) allow(format string, args ...any) {
	if s.may == "" {
		s.may = fmt.Sprintf(format, args...)
	}
}

// about gives the facts about the entity, or about its attribute.
func (s *asmSpec) about(e int64, a Val) (out []asmFact) {
	for _, f := range s.facts {
		if f.e == e && (a == nil || sameVal(s.st, a, f.a)) {
			out = append(out, f)
		}
	}
	return
}

func (s *asmSpec) rankIdent() Val { return mkStr("sys/db/rank") }

// scalarOf gives the value as one of the type. Values of some types may or may not be represented.
func (s *asmSpec) scalarOf(f asmFact, t types.Type) (v Val, can, may bool) {
	k := kindOf(t)
	switch f.t {
	case "String":
		can = k == reflect.String
	case "Bool":
		can = k == reflect.Bool
	case "Float":
		can = k == reflect.Float64
	case "Inst":
		can = isTime(t)
		may = kindOf(t) == reflect.Struct && types.ConvertibleTo(s.typ("Inst"), t)
	case "ID":
		can = k == reflect.Uint64
	case "Int":
		if isIntKind(k) {
			if !s.is(overflows(s.st, s.st.norm(f.v), k)) {
				return narrow(s.st, s.st.norm(f.v), types.Typ[types.Int64], t), true, k != reflect.Int
			}
		}
	}
	return retype(s.st.norm(f.v), t), can, may
}

func (s *asmSpec) idOf(f asmFact) int64 {
	n, ok := constInt(s.st.norm(f.v))
	if !ok {
		s.st.eng.failf("a reference is not known")
	}
	return n
}

// modelled gives the tagged fields of the struct type.
func (s *asmSpec) modelled(t types.Type) (fs []structField, ok bool) {
	if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
		return nil, false
	}
	fs = s.tagged(t)
	for _, f := range fs {
		if f.err {
			return nil, false
		}
	}
	return fs, true
}

// reach finds what there is to fail or to be represented in any way.
func (s *asmSpec) reach(id int64, t types.Type) {
	fs, ok := s.modelled(t)
	if !ok {
		s.fail("%s is not modelled", typKey(t))
		return
	}
	if isTime(t) {
		s.free("an entity is a time")
	}
	key := strconv.FormatInt(id, 10) + rtypeOf(t).Key()
	if s.seen[key] {
		return
	}
	s.seen[key] = true
	facts := s.about(id, nil)
	if o := s.types[id]; o != nil && !types.Identical(o, t) {
		s.allow("an entity is of different types")
	}
	s.types[id] = t
	if len(facts) == 0 {
		return
	}
	for _, f := range fs {
		if f.isID && (kindOf(f.fieldTyp) != reflect.Uint64 || f.unexp) {
			s.fail("the id is a %s", typKey(f.fieldTyp))
		}
	}
	for _, x := range facts {
		for _, f := range fs {
			if f.isID || !sameVal(s.st, f.ident, x.a) {
				continue
			}
			if f.unexp {
				s.fail("a field is not exported")
				break
			}
			s.reachField(x, f)
			break
		}
	}
}

func (s *asmSpec) reachScalar(x asmFact, t types.Type) {
	_, can, may := s.scalarOf(x, t)
	switch {
	case !can && !may:
		s.fail("a %s is not a %s", x.t, typKey(t))
	case may:
		s.free("a %s may be a %s", x.t, typKey(t))
	}
}

func (s *asmSpec) reachField(x asmFact, f structField) {
	t := f.fieldTyp
	if u, ok := t.Underlying().(*types.Pointer); ok {
		t = u.Elem()
	}
	if scalarAttrType(t) != "" {
		_, can, _ := s.scalarOf(x, t)
		if !can {
			s.fail("a %s is not a %s", x.t, typKey(t))
		}
		return
	}
	if x.t != "ID" {
		s.fail("a %s is not a %s", x.t, typKey(t))
		return
	}
	id := s.idOf(x)
	exists := len(s.about(id, nil)) > 0
	switch u := t.Underlying().(type) {
	case *types.Map:
		if !exists {
			return
		}
		el := u.Elem()
		if p, ok := el.Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
		s.reach(id, el)
		key := asmFact{v: mkInt(id), t: "ID"}
		if k, ok := constStr(f.mapKey()); !ok || k != sysText(s.p, "DbId") {
			ks := s.about(id, f.mapKey())
			if len(ks) == 0 {
				s.fail("the entry of a map has no key")
				return
			}
			key = ks[0]
		}
		s.reachScalar(key, u.Key())
	case *types.Slice:
		if !exists {
			return
		}
		n := int64(len(s.about(x.e, x.a)))
		rs := s.about(id, s.rankIdent())
		if len(f.vals) == 0 {
			if isPointer(u.Elem()) {
				s.free("the elements of a slice are pointers")
			} else {
				s.reach(id, u.Elem())
			}
		} else if vs := s.about(id, f.val); len(vs) == 0 {
			s.fail("the element of a slice has no value")
		} else {
			s.reachScalar(vs[0], u.Elem())
			if vs[0].t == "ID" {
				s.free("the element of a slice is a reference")
			}
		}
		if len(rs) == 0 || rs[0].t != "Int" {
			s.fail("the element of a slice has no rank")
			return
		}
		r := s.st.norm(rs[0].v)
		if s.is(s.st.mk("lt", types.Typ[types.Bool], r, mkInt(0))) || !s.is(s.st.mk("lt", types.Typ[types.Bool], r, mkInt(n))) {
			s.fail("the rank of an element is none")
			return
		}
		for _, o := range s.about(x.e, x.a) {
			if o.t != "ID" || s.idOf(o) == id {
				continue
			}
			if os := s.about(s.idOf(o), s.rankIdent()); len(os) > 0 && os[0].t == "Int" && s.is(s.st.mkEqV(s.st.norm(os[0].v), r)) {
				s.free("elements have the same rank")
			}
		}
	default:
		if _, ok := s.modelled(t); !ok && !exists {
			s.allow("a reference dangles")
		} else {
			s.reach(id, t)
		}
	}
}

func (f structField) mapKey() Val {
	if len(f.keys) > 0 {
		return f.key
	}
	return mkStr("sys/db/id")
}

// loc is where a value is.
type loc struct {
	place *Ptr
	v     Val
	t     types.Type
}

func (s *asmSpec) get(l loc) Val {
	if l.place != nil {
		return s.st.norm(s.st.eng.load(s.st, l.place, l.t, nil))
	}
	return s.st.norm(l.v)
}

func (s *asmSpec) at(l loc, i int) loc {
	t := l.t.Underlying().(*types.Struct).Field(i).Type()
	if l.place != nil {
		return loc{place: &Ptr{Obj: l.place.Obj, Path: l.place.Path + "." + strconv.Itoa(i)}, t: t}
	}
	return loc{v: s.field(l.v, i), t: t}
}

func (s *asmSpec) zero(l loc) bool { return s.is(isZeroTerm(s.st, s.get(l), l.t)) }

// walk compares the struct with the entity. The entities which contain it by value are given.
func (s *asmSpec) walk(l loc, id int64, in map[int64]int, path string) string {
	if in[id] > 2 {
		return "" // a value which contains itself
	}
	now := map[int64]int{}
	for k, n := range in {
		now[k] = n
	}
	now[id]++
	if l.place != nil {
		key := l.place.Key() + strconv.FormatInt(id, 10) + rtypeOf(l.t).Key()
		if s.walked[key] && len(in) == 0 {
			return ""
		}
		if len(in) == 0 {
			s.walked[key] = true
		}
	}
	facts := s.about(id, nil)
	if len(facts) == 0 {
		if !s.zero(l) {
			return path + " is not empty"
		}
		return ""
	}
	u := l.t.Underlying().(*types.Struct)
	if opaqueStruct(u) {
		if !s.zero(l) {
			return path + " is not empty"
		}
		return ""
	}
	fs, _ := s.modelled(l.t)
	for i := 0; i < u.NumFields(); i++ {
		f := s.at(l, i)
		name := path + "." + u.Field(i).Name()
		var sf *structField
		for k := range fs {
			if fs[k].index == i {
				sf = &fs[k]
			}
		}
		if sf == nil {
			if !s.zero(f) {
				return name + " is set to " + shortKey(s.st.normDeep(s.get(f)))
			}
			continue
		}
		if sf.isID {
			if !sameVal(s.st, s.get(f), mkInt(id)) {
				return fmt.Sprintf("%s is %s, not %d", name, shortKey(s.get(f)), id)
			}
			continue
		}
		if bad := s.walkField(f, *sf, id, now, name); bad != "" {
			return bad
		}
	}
	return ""
}

func (s *asmSpec) walkScalar(l loc, fs []asmFact, name string) string {
	if len(fs) == 0 {
		if !s.zero(l) {
			return name + " is set"
		}
		return ""
	}
	have := s.get(l)
	for _, f := range fs {
		if w, can, _ := s.scalarOf(f, l.t); can && sameVal(s.st, have, w) {
			return ""
		}
	}
	return fmt.Sprintf("%s is %s, not %s", name, shortKey(s.st.normDeep(have)), shortKey(s.st.normDeep(fs[0].v)))
}

// walkPtr compares what the pointer points to with the entity, of which there is one instance.
func (s *asmSpec) walkPtr(v Val, t types.Type, id int64, name string) string {
	p, ok := v.(*Ptr)
	if !ok {
		if isNilV(v) {
			return name + " is nil"
		}
		s.st.eng.failf("%s is not known", name)
	}
	key := strconv.FormatInt(id, 10) + rtypeOf(t).Key()
	if o := s.inst[key]; o != "" && o != p.Key() {
		return fmt.Sprintf("%s is another instance of the same entity", name)
	}
	s.inst[key] = p.Key()
	return s.walk(loc{place: p, t: t}, id, nil, name)
}

func (s *asmSpec) walkField(l loc, f structField, id int64, in map[int64]int, name string) string {
	fs := s.about(id, f.ident)
	switch u := l.t.Underlying().(type) {
	case *types.Pointer:
		v := s.get(l)
		if len(fs) == 0 {
			if !isNilV(v) {
				return name + " is not nil"
			}
			return ""
		}
		if scalarAttrType(u.Elem()) != "" {
			if isNilV(v) {
				return name + " is nil"
			}
			p, ok := v.(*Ptr)
			if !ok {
				s.st.eng.failf("%s is not known", name)
			}
			return s.walkScalar(loc{place: p, t: u.Elem()}, fs, name)
		}
		ref := s.idOf(fs[0])
		if len(s.about(ref, nil)) == 0 && isNilV(v) {
			return ""
		}
		return s.walkPtr(v, u.Elem(), ref, name)
	case *types.Map:
		mid := s.st.eng.mapID(s.st, s.get(l), l.t)
		var ents []MapEnt
		if mid != "" {
			for _, en := range s.st.obj(mid).Ents {
				if en.Present {
					ents = append(ents, en)
				}
			}
		}
		if len(fs) == 0 && mid != "" {
			return name + " is not nil"
		}
		n := 0
		for _, x := range fs {
			ref := s.idOf(x)
			if len(s.about(ref, nil)) == 0 {
				continue
			}
			n++
			key := asmFact{v: mkInt(ref), t: "ID"}
			if k, ok := constStr(f.mapKey()); !ok || k != sysText(s.p, "DbId") {
				key = s.about(ref, f.mapKey())[0]
			}
			want, _, _ := s.scalarOf(key, u.Key())
			found := false
			for _, en := range ents {
				if !sameVal(s.st, en.Key, want) {
					continue
				}
				found = true
				at := fmt.Sprintf("%s[%s]", name, shortKey(s.st.normDeep(want)))
				bad := ""
				if p, ok := u.Elem().Underlying().(*types.Pointer); ok {
					bad = s.walkPtr(s.st.norm(en.Val), p.Elem(), ref, at)
				} else {
					bad = s.walk(loc{v: s.st.norm(en.Val), t: u.Elem()}, ref, in, at)
				}
				if bad != "" {
					return bad
				}
			}
			if !found {
				return fmt.Sprintf("%s has no entry of %s", name, shortKey(s.st.normDeep(want)))
			}
		}
		if len(ents) != n {
			return fmt.Sprintf("%s has %d entries, not %d", name, len(ents), n)
		}
	case *types.Slice:
		v := s.get(l)
		if len(fs) == 0 {
			if !isNilV(v) {
				return name + " is not nil"
			}
			return ""
		}
		els := eList(s.st, v)
		taken := map[int64]bool{}
		dangling := 0
		for _, x := range fs {
			ref := s.idOf(x)
			if len(s.about(ref, nil)) == 0 {
				dangling++
				continue
			}
			r := s.st.norm(s.about(ref, s.rankIdent())[0].v)
			i := int64(-1)
			for k := range els {
				if s.is(s.st.mkEqV(r, mkInt(int64(k)))) {
					i = int64(k)
				}
			}
			if i < 0 {
				return fmt.Sprintf("%s has no element %s", name, shortKey(r))
			}
			taken[i] = true
			at := fmt.Sprintf("%s[%d]", name, i)
			bad := ""
			if len(f.vals) > 0 {
				bad = s.walkScalar(loc{v: els[i], t: u.Elem()}, s.about(ref, f.val), at)
			} else {
				bad = s.walk(loc{v: els[i], t: u.Elem()}, ref, in, at)
			}
			if bad != "" {
				return bad
			}
		}
		if len(els) > len(fs) || len(els) < len(fs)-dangling {
			return fmt.Sprintf("%s has %d elements, not %d", name, len(els), len(fs))
		}
		for k := range els {
			if !taken[int64(k)] && !s.zero(loc{v: els[k], t: u.Elem()}) {
				return fmt.Sprintf("%s[%d] is set", name, k)
			}
		}
	default:
		if scalarAttrType(l.t) != "" {
			return s.walkScalar(l, fs, name)
		}
		if len(fs) == 0 {
			if !s.zero(l) {
				return name + " is set"
			}
			return ""
		}
		return s.walk(l, s.idOf(fs[0]), in, name)
	}
	return ""
}

const (
	ruleAsmValue  = "a field has the stored value"
	ruleAsmReject = "values of other types are rejected"
	ruleAsmCrash  = "no assembly crashes"
	ruleAsmGraph  = "what is referred to is complete"
	ruleAsmEnds   = "assembly comes to an end"
)

func init() {
	what := "Assemble is interpreted abstractly, on snapshots of given references and unknown scalars, in several orders of the datums and in every order of iteration over maps. What should result is computed over the same abstract facts and the type checker's struct types. "
	register("C27", what+"The rule: for every Go type of a field, pointer, element or key and every type of stored value, in every world, there is an error exactly if the value is none of the type's, or else the place has exactly the value, and other fields are empty.", checkAssembleValues)
	register("C28", what+"The rule: for every graph, in every world, there is an error exactly if something is specified to fail, or else a simultaneous walk over the graph and the structs finds every entity complete, with one instance for all of the pointers to it.", checkAssembleGraphs)
}

// asmProgram loads the scenarios of assembly.
func asmProgram(r *Report, rule string, size int) (*Program, *Engine) {
	p, err := structProgram(r.p.root, asmSource(size))
	if err != nil {
		r.attempts++
		r.undecided(rule, "program", "the scenarios do not load: %v", err)
		return nil, nil
	}
	e := structEngine(p)
	e.anyOrder = true
	return p, e
}

func asmWhere(p *Program) string {
	if f := p.fn("internal/structs/assemblers", "Assemble"); f != nil {
		return p.pos(f.Pos()) + " in " + fnName(f)
	}
	return "internal/structs/assemblers/assemblers.go"
}

// assembled compares what the function of the scenarios assembles with what it should.
func assembled(r *Report, p *Program, e *Engine, names []string, value, reject, crash, ends, subject, where string, fn *FuncV, args ...Val) {
	r.ends(e, value, ends, subject, where, func() {
		st := tagState(e, names...)
		e.steps = 0
		fine := true
		for _, o := range e.invoke(st, fn, args...) {
			if !fine {
				break
			}
			if !r.check(o.panic == "", crash, subject, where, "panics: %s", o.panic) {
				break
			}
			rs := o.ret.(*Tuple).Vs
			inWorlds(e, o.st, func(st *State) {
				s := newAsmSpec(p, st, rs[0])
				bad, rejects := s.compareAll(rs[1])
				rule := value
				if rejects {
					rule = reject
				}
				fine = r.check(bad == "", rule, subject, where, "%s", bad) && fine
			})
		}
	})
}

func (s *asmSpec) compareAll(results Val) (bad string, rejects bool) {
	type res struct {
		v  Val
		t  types.Type
		id int64
	}
	var ok []res
	for i, x := range eList(s.st, results) {
		g, isG := s.st.norm(x).(*Struct)
		if !isG {
			s.st.eng.failf("a result is not known")
		}
		id, isC := constInt(s.st.norm(g.Fs[0]))
		if !isC {
			s.st.eng.failf("an id is not known")
		}
		v, t := unbox(s.st.norm(g.Fs[1]))
		u, isP := t.(*types.Pointer)
		if !isP {
			s.st.eng.failf("a result is no pointer")
		}
		failed := !isNilError(s.st, g.Fs[2])
		s.must, s.may, s.loose, s.seen = "", "", false, map[string]bool{}
		before := maps.Clone(s.types)
		s.reach(id, u.Elem())
		if failed {
			s.types = before // Nothing remains of what failed.
		}
		if s.must != "" {
			rejects = true
			if !failed {
				return fmt.Sprintf("there is no error of result %d though %s", i, s.must), true
			}
			continue
		}
		if failed {
			if s.may == "" {
				return fmt.Sprintf("there is an error of result %d: %s", i, shortKey(s.st.normDeep(g.Fs[2]))), rejects
			}
			continue
		}
		if s.loose {
			continue
		}
		ok = append(ok, res{v, u.Elem(), id})
	}
	s.walked = map[string]bool{}
	for i, x := range ok {
		if len(s.about(x.id, nil)) == 0 {
			if !isNilV(x.v) {
				return fmt.Sprintf("result %d of no facts is not nil", i), false
			}
			continue
		}
		if bad := s.walkPtr(x.v, x.t, x.id, fmt.Sprintf("result %d", i)); bad != "" {
			return bad, false
		}
	}
	return "", rejects
}

var asmValueTypes = []string{"String", "Int", "Bool", "Float", "Inst", "ID"}

func checkAssembleValues(r *Report) {
	p, e := asmProgram(r, ruleAsmValue, 0)
	if p == nil {
		return
	}
	for _, k := range []string{ruleAsmValue, ruleAsmReject, ruleAsmCrash, ruleAsmEnds} {
		r.rule(k)
	}
	names := tagNames(asmTags(asmTypes + "$o1"))
	where := asmWhere(p)
	steps := 0
	for _, name := range docFuncs(p, "F_") {
		fn := p.fn(docsPkg, name)
		for _, vt := range asmValueTypes {
			t := p.typ("internal/types", vt)
			vals := []Val{&Sym{Name: "v", Typ: t, Rigid: true}}
			if vt == "ID" {
				vals = []Val{mkIntOf(2, t), mkIntOf(9, t), mkIntOf(1, t)}
			}
			for _, v := range vals {
				subject := "the assembly of " + strings.TrimPrefix(name, "F_") + " from " + vt
				if vt == "ID" {
					subject += " " + shortKey(v)
				}
				for o := int64(0); o < 2; o++ {
					assembled(r, p, e, names, ruleAsmValue, ruleAsmReject, ruleAsmCrash, ruleAsmEnds, subject, where, &FuncV{Fn: fn},
						mkInt(o), &Iface{Dyn: t, V: v}, &Sym{Name: "n", Typ: types.Typ[types.Int], Rigid: true}, &Sym{Name: "s", Typ: types.Typ[types.String], Rigid: true})
					steps += e.steps
				}
			}
		}
	}
	e.steps = steps
	r.use(e)
}

func mkIntOf(n int64, t types.Type) Val { return &Const{Typ: t, V: mkInt(n).V} }

func checkAssembleGraphs(r *Report) {
	p, e := asmProgram(r, ruleAsmGraph, 3)
	if p == nil {
		return
	}
	for _, k := range []string{ruleAsmGraph, ruleAsmReject, ruleAsmCrash, ruleAsmEnds} {
		r.rule(k)
	}
	names := tagNames(asmTags(asmTypes + "$o1"))
	where := asmWhere(p)
	steps := 0
	for _, name := range append(docFuncs(p, "G_"), docFuncs(p, "U_")...) {
		fn := p.fn(docsPkg, name)
		orders := int64(4)
		if r.tier == "thorough" {
			orders = 12
		}
		if strings.HasPrefix(name, "U_") {
			orders = orders / 4
		}
		for o := int64(0); o < orders; o++ {
			args := []Val{mkInt(o)}
			for i := 1; i < fn.Signature.Params().Len(); i++ {
				v := fn.Signature.Params().At(i)
				args = append(args, &Sym{Name: v.Name(), Typ: v.Type(), Rigid: true})
			}
			subject := fmt.Sprintf("the graph %s in order %d", name[2:], o)
			assembled(r, p, e, names, ruleAsmGraph, ruleAsmReject, ruleAsmCrash, ruleAsmEnds, subject, where, &FuncV{Fn: fn}, args...)
			steps += e.steps
		}
	}
	e.steps = steps
	r.use(e)
}
