package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// What shredding a document should give is computed over the abstract values of the document, and compared
// with the claims up to the choice of temporary ids.

// node is an entity of a document.
type node struct {
	name string
	id   Val // its id, if it has one which is not zero
}

// wantClaim is a claim there should be.
type wantClaim struct {
	e    *node
	a    Val // the ident, or nil for the rank
	v    Val // the value, as an interface
	ref  *node
	many bool
}

func (c wantClaim) String() string {
	a := "rank"
	if c.a != nil {
		a = shortKey(c.a)
	}
	if c.ref != nil {
		return fmt.Sprintf("(%s %s %s)", c.e.name, a, c.ref.name)
	}
	return fmt.Sprintf("(%s %s %s)", c.e.name, a, shortKey(c.v))
}

// needBranch asks for a world in which the condition is decided.
type needBranch struct{ cond Val }

// inWorlds gives f the worlds which decide whatever it needs to know.
func inWorlds(e *Engine, st *State, f func(st *State)) {
	todo := []*State{st}
	for n := 0; len(todo) > 0; n++ {
		if n > 4000 {
			e.failf("too many worlds")
		}
		w := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		cond := func() (cond Val) {
			defer func() {
				if x := recover(); x != nil {
					b, ok := x.(needBranch)
					if !ok {
						panic(x)
					}
					cond = b.cond
				}
			}()
			f(w.clone())
			return nil
		}()
		if cond == nil {
			continue
		}
		for _, x := range e.branch(w, cond) {
			todo = append(todo, x.st)
		}
	}
}

// shredSpec computes the claims of documents.
type shredSpec struct {
	p      *Program
	st     *State
	nodes  map[string]*node
	claims []wantClaim
	bad    string // why the document is to be rejected
	either string // why the document may be rejected
	count  int
}

func (s *shredSpec) is(cond Val) bool {
	r, ok := s.st.decide(cond)
	if !ok {
		panic(needBranch{s.st.norm(cond)})
	}
	return r
}

func (s *shredSpec) reject(format string, args ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, args...)
	}
}

func (s *shredSpec) newNode(what string) *node {
	s.count++
	return &node{name: fmt.Sprintf("%s#%d", what, s.count)}
}

func (s *shredSpec) typ(name string) types.Type { return s.p.typ("internal/types", name) }

// scalar gives the value which records the scalar of the type, or nil if it is none.
func (s *shredSpec) scalar(v Val, t types.Type) Val {
	name := map[string]string{"AttrTypeBool": "Bool", "AttrTypeInt": "Int", "AttrTypeString": "String", "AttrTypeFloat": "Float", "AttrTypeInst": "Inst"}[scalarAttrType(t)]
	if name == "" {
		return nil
	}
	to := s.typ(name)
	return &Iface{Dyn: to, V: retype(s.st.norm(v), to)}
}

// isZero tells whether the scalar is empty.
func (s *shredSpec) isZero(v Val, t types.Type) bool {
	if isTime(t) {
		return s.is(s.st.pure("(time.Time).IsZero", types.Typ[types.Bool], s.st.norm(v)))
	}
	return s.is(s.st.mkEqV(s.st.norm(v), zeroVal(t)))
}

func (s *shredSpec) deref(v Val, t types.Type) Val {
	q, ok := v.(*Ptr)
	if !ok {
		s.st.eng.failf("a document has an unknown pointer %s", shortKey(v))
	}
	return s.st.norm(s.st.eng.load(s.st, q, t, nil))
}

func (s *shredSpec) field(v Val, i int) Val {
	x, ok := s.st.norm(v).(*Struct)
	if !ok {
		s.st.eng.failf("a document has an unknown struct %s", shortKey(v))
	}
	return s.st.norm(x.Fs[i])
}

// entity gives the node of the struct or of the pointer to one, and whether it is a new one.
func (s *shredSpec) entity(v Val, t types.Type) (n *node, fresh bool) {
	if t == nil {
		s.reject("there is no struct")
		return s.newNode("none"), true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = s.newNode(typKey(t))
		s.fields(n, v, t)
		return n, true
	case *types.Pointer:
		if isNilV(v) {
			s.reject("a pointer is nil")
			return s.newNode("nil"), true
		}
		key := rtypeOf(t).Key() + v.Key()
		if n := s.nodes[key]; n != nil {
			return n, false
		}
		n = s.newNode(typKey(t))
		s.nodes[key] = n
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			s.reject("%s points to no struct", typKey(t))
			return n, true
		}
		s.fields(n, s.deref(v, u.Elem()), u.Elem())
		return n, true
	}
	s.reject("%s is no struct", typKey(t))
	return s.newNode("none"), true
}

type structField struct {
	modelField
	isID     bool
	unexp    bool
	basic    bool // its value is accessible though unexported
	fieldTyp types.Type
}

// tagged gives the tagged fields of the struct.
func (s *shredSpec) tagged(t types.Type) (out []structField) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		tag, ok := reflect.StructTag(st.Tag(i)).Lookup("attr")
		if !ok {
			continue
		}
		isID := tag == "sys/db/id"
		f := structField{modelField: modelSpec(s.p, st.Field(i).Type(), tag, i, isID), isID: isID, unexp: !st.Field(i).Exported(), fieldTyp: st.Field(i).Type()}
		if f.err {
			s.reject("%s has an unsupported field", typKey(t))
		}
		inner := f.fieldTyp
		switch u := inner.Underlying().(type) {
		case *types.Pointer:
			inner = u.Elem()
		case *types.Slice:
			inner = u.Elem()
		case *types.Map:
			inner = u.Elem()
		}
		_, f.basic = inner.Underlying().(*types.Basic)
		out = append(out, f)
	}
	return
}

func (s *shredSpec) claim(e *node, a, v Val, ref *node, many bool) {
	s.claims = append(s.claims, wantClaim{e, a, v, ref, many})
}

func (s *shredSpec) rank(e *node, i int) {
	s.claim(e, nil, &Iface{Dyn: s.typ("Int"), V: &Const{Typ: s.typ("Int"), V: mkInt(int64(i)).V}}, nil, false)
}

// fields claims the fields of the entity.
func (s *shredSpec) fields(n *node, v Val, t types.Type) {
	fs := s.tagged(t)
	for _, f := range fs {
		if !f.isID {
			continue
		}
		if kindOf(f.fieldTyp) != reflect.Uint64 {
			s.reject("an id is a %s", typKey(f.fieldTyp))
			continue
		}
		id := s.field(v, f.index)
		if s.is(s.st.mkEqV(id, zeroVal(f.fieldTyp))) {
			if n.id != nil {
				s.either = "an entity has an id and a zero one"
			}
			continue
		}
		if n.id != nil && !s.is(s.st.mkEqV(n.id, id)) {
			s.reject("an entity has different ids")
		}
		n.id = id
	}
	for _, f := range fs {
		if f.isID || f.err {
			continue
		}
		if f.unexp && !f.basic {
			s.either = "an unexported field is inaccessible"
		}
		x := s.field(v, f.index)
		switch u := f.fieldTyp.Underlying().(type) {
		case *types.Pointer:
			if isNilV(x) {
				continue
			}
			if sv := s.scalar(zeroVal(u.Elem()), u.Elem()); sv != nil {
				y := s.deref(x, u.Elem())
				if f.ignore && s.isZero(y, u.Elem()) {
					continue
				}
				s.claim(n, f.ident, s.scalar(y, u.Elem()), nil, false)
				continue
			}
			m, _ := s.entity(x, f.fieldTyp)
			s.claim(n, f.ident, nil, m, false)
		case *types.Map:
			id := s.st.eng.mapID(s.st, x, f.fieldTyp)
			if id == "" {
				continue
			}
			for _, en := range s.st.obj(id).Ents {
				if !en.Present {
					continue
				}
				if len(f.vals) > 0 {
					s.either = "a map has a value attribute"
				}
				m := s.element(en.Val, u.Elem(), func(m *node, fresh, empty bool) {
					if fresh && empty && m.id == nil {
						s.reject("the entry of a map has nothing")
					}
				})
				s.claim(n, f.ident, nil, m, true)
			}
		case *types.Slice:
			for i, el := range eList(s.st, x) {
				el = s.st.norm(el)
				if len(f.vals) > 0 {
					sv := s.scalar(el, u.Elem())
					if sv == nil {
						s.reject("the element of a slice is no scalar")
						continue
					}
					m := s.newNode("element")
					s.rank(m, i)
					s.claim(m, f.val, sv, nil, false)
					s.claim(n, f.ident, nil, m, true)
					continue
				}
				m := s.element(el, u.Elem(), func(m *node, fresh, empty bool) {
					switch {
					case isPointer(u.Elem()):
						s.either = "the elements of a slice are pointers"
					case empty && m.id == nil:
						s.reject("the element of a slice has nothing")
					case empty:
						s.either = "the element of a slice has but an id"
					}
				})
				s.rank(m, i)
				s.claim(n, f.ident, nil, m, true)
			}
		default:
			if sv := s.scalar(x, f.fieldTyp); sv != nil {
				if f.ignore && s.isZero(x, f.fieldTyp) {
					continue
				}
				s.claim(n, f.ident, sv, nil, false)
				continue
			}
			m, _ := s.entity(x, f.fieldTyp)
			s.claim(n, f.ident, nil, m, false)
		}
	}
}

// element gives the entity of the element of a slice or map.
func (s *shredSpec) element(v Val, t types.Type, done func(m *node, fresh, empty bool)) *node {
	before := len(s.claims)
	v = s.st.norm(v)
	if i, ok := v.(*Iface); ok && isInterface(t) {
		v, t = i.V, i.Dyn
	}
	if isInterface(t) {
		s.reject("the element of a collection is no struct")
		return s.newNode("none")
	}
	if isTime(t) {
		s.either = "the element of a collection is a time"
	}
	m, fresh := s.entity(v, t)
	done(m, fresh, fresh && len(s.claims) == before)
	return m
}

// retraction gives the constraints of the retraction.
func (s *shredSpec) retraction(v Val, t types.Type) (id Val, idents, vals []Val) {
	if t == nil {
		s.reject("there is no struct")
		return
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		if isNilV(v) {
			s.reject("a pointer is nil")
			return
		}
		t = u.Elem()
		v = s.deref(v, t)
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		s.reject("%s is no struct", typKey(t))
		return
	}
	for _, f := range s.tagged(t) {
		x := s.field(v, f.index)
		if f.isID {
			switch {
			case kindOf(f.fieldTyp) != reflect.Uint64:
				s.reject("an id is a %s", typKey(f.fieldTyp))
			case s.is(s.st.mkEqV(x, zeroVal(f.fieldTyp))):
			case id != nil && !s.is(s.st.mkEqV(id, x)):
				s.reject("an entity has different ids")
			default:
				id = x
			}
			continue
		}
		if f.unique == "" || f.err {
			continue
		}
		if f.unexp && !f.basic {
			s.either = "an unexported field is inaccessible"
		}
		ft := f.fieldTyp
		if u, ok := ft.Underlying().(*types.Pointer); ok {
			if isNilV(x) {
				continue
			}
			ft = u.Elem()
			if scalarAttrType(ft) == "" {
				continue
			}
			x = s.deref(x, ft)
		}
		if scalarAttrType(ft) == "" || f.ignore && s.isZero(x, ft) {
			continue
		}
		idents = append(idents, f.ident)
		vals = append(vals, s.scalar(x, ft))
	}
	if id == nil && len(idents) == 0 {
		s.reject("there is nothing which identifies an entity")
	}
	return
}

// document computes the claims, and gives the entities of the assertions in their order.
func (s *shredSpec) document(doc Val) (roots []*node) {
	d, ok := s.st.norm(doc).(*Struct)
	if !ok {
		s.st.eng.failf("a document is not known")
	}
	for _, x := range eList(s.st, d.Fs[fieldIndex(d.Typ, "Assertions")]) {
		v, t := unbox(s.st.norm(x))
		n, _ := s.entity(v, t)
		roots = append(roots, n)
	}
	return
}

// unbox gives the value and the type of the interface.
func unbox(v Val) (Val, types.Type) {
	if i, ok := v.(*Iface); ok {
		return i.V, i.Dyn
	}
	return v, nil
}

// sameVal tells whether the values are the same.
func sameVal(st *State, a, b Val) bool {
	a, b = st.normDeep(a), st.normDeep(b)
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(*Iface); ok {
		y, ok := b.(*Iface)
		return ok && types.Identical(x.Dyn, y.Dyn) && sameVal(st, x.V, y.V)
	}
	if a.Key() == b.Key() {
		return true
	}
	eq, ok := st.decideEq(a, b)
	return ok && eq
}

type haveClaim struct{ e, a, v Val }

// matcher looks for the temporary ids under which the claims are those there should be.
type matcher struct {
	st    *State
	p     *Program
	want  []wantClaim
	have  []haveClaim
	ids   map[*node]string
	used  map[string]bool
	taken []bool
	tries int
	best  int
	alike map[*node]map[string]bool
}

// mayBe tells whether the claims about the reference are those about the node, but for what they refer to.
func (m *matcher) mayBe(n *node, key string) bool {
	if r, ok := m.alike[n][key]; ok {
		return r
	}
	var have []haveClaim
	for _, h := range m.have {
		if k, _, _ := m.refOf(h.e); k == key {
			have = append(have, h)
		}
	}
	r := true
	for _, w := range m.want {
		if w.e != n {
			continue
		}
		found := false
		for i, h := range have {
			if !m.isAttr(w, h) {
				continue
			}
			_, temp, id := m.refOf(h.v)
			if w.ref != nil && (temp || id != nil) || w.ref == nil && sameVal(m.st, h.v, w.v) {
				have = append(append([]haveClaim{}, have[:i]...), have[i+1:]...)
				found = true
				break
			}
		}
		r = r && found
	}
	r = r && len(have) == 0
	if m.alike == nil {
		m.alike = map[*node]map[string]bool{}
	}
	if m.alike[n] == nil {
		m.alike[n] = map[string]bool{}
	}
	m.alike[n][key] = r
	return r
}

func (m *matcher) isAttr(w wantClaim, h haveClaim) bool {
	if w.a == nil {
		return attrName(m.p, h.a) == "DbRank"
	}
	x, ok := h.a.(*Iface)
	return ok && typKey(x.Dyn) == "types.Ident" && sameVal(m.st, x.V, w.a)
}

// refOf gives the key of the reference to an entity: a TempID or an ID.
func (m *matcher) refOf(v Val) (key string, temp bool, id Val) {
	i, ok := v.(*Iface)
	if !ok {
		return "", false, nil
	}
	switch typKey(i.Dyn) {
	case "types.TempID":
		return "temp " + i.V.Key(), true, nil
	case "types.ID":
		return "id " + i.V.Key(), false, i.V
	}
	return "", false, nil
}

// bind takes the reference to be to the node, if it may.
func (m *matcher) bind(n *node, v Val) (undo func(), ok bool) {
	key, temp, id := m.refOf(v)
	if n.id != nil {
		return func() {}, id != nil && sameVal(m.st, id, n.id)
	}
	if !temp {
		return nil, false
	}
	if k, known := m.ids[n]; known {
		return func() {}, k == key
	}
	if m.used[key] || !m.mayBe(n, key) {
		return nil, false
	}
	m.ids[n], m.used[key] = key, true
	return func() { delete(m.ids, n); delete(m.used, key) }, true
}

func (m *matcher) solve(i int) bool {
	m.tries++
	if m.tries > 20000 {
		m.st.eng.failf("too many ways to match the claims")
	}
	m.best = max(m.best, i)
	if i == len(m.want) {
		return true
	}
	w := m.want[i]
	for k, h := range m.have {
		if m.taken[k] {
			continue
		}
		if !m.isAttr(w, h) {
			continue
		}
		u1, ok := m.bind(w.e, h.e)
		if !ok {
			continue
		}
		var u2 func()
		if w.ref != nil {
			u2, ok = m.bind(w.ref, h.v)
		} else {
			ok = sameVal(m.st, h.v, w.v)
		}
		if ok {
			m.taken[k] = true
			if m.solve(i + 1) {
				return true
			}
			m.taken[k] = false
			if u2 != nil {
				u2()
			}
		}
		u1()
	}
	return false
}

// matchClaims compares the claims and ids with those there should be.
func matchClaims(p *Program, st *State, want []wantClaim, roots []*node, claims, ids Val) string {
	m := &matcher{st: st, p: p, ids: map[*node]string{}, used: map[string]bool{}}
	// Claims about entities which are known come first.
	seen := map[*node]bool{}
	for _, n := range roots {
		seen[n] = true
	}
	rest := append([]wantClaim{}, want...)
	for len(rest) > 0 {
		var later []wantClaim
		n := len(rest)
		for _, many := range []bool{false, true} {
			later = nil
			for _, c := range rest {
				if seen[c.e] && (!c.many || many) {
					m.want = append(m.want, c)
					if c.ref != nil {
						seen[c.ref] = true
					}
				} else {
					later = append(later, c)
				}
			}
			rest = later
		}
		if len(rest) == n {
			m.want = append(m.want, rest...)
			break
		}
	}
	// A set of claims: those of entities with ids may be the same.
	for i := 0; i < len(m.want); i++ {
		for k := 0; k < i; k++ {
			a, b := m.want[i], m.want[k]
			same := func(x, y *node) bool {
				return x == y || x != nil && y != nil && x.id != nil && y.id != nil && sameVal(st, x.id, y.id)
			}
			if same(a.e, b.e) && same(a.ref, b.ref) && (a.a == nil) == (b.a == nil) && (a.a == nil || sameVal(st, a.a, b.a)) && (a.ref != nil || sameVal(st, a.v, b.v)) {
				m.want = append(m.want[:i], m.want[i+1:]...)
				i--
				break
			}
		}
	}
	for _, c := range eList(st, claims) {
		s, ok := st.norm(c).(*Struct)
		if !ok {
			st.eng.failf("a claim is not known")
		}
		get := func(n string) Val { return st.normDeep(s.Fs[fieldIndex(s.Typ, n)]) }
		if r, _ := constBool(get("Retract")); r {
			return "a claim is a retraction"
		}
		h := haveClaim{get("E"), get("A"), get("V")}
		dup := false
		for _, o := range m.have {
			dup = dup || sameVal(st, o.e, h.e) && sameVal(st, o.a, h.a) && sameVal(st, o.v, h.v)
		}
		if !dup {
			m.have = append(m.have, h)
		}
	}
	refs := eList(st, ids)
	if len(refs) != len(roots) {
		return fmt.Sprintf("there are %d ids of %d assertions", len(refs), len(roots))
	}
	for i, n := range roots {
		if _, ok := m.bind(n, st.normDeep(refs[i])); !ok {
			return fmt.Sprintf("the id of assertion %d is %s", i, shortKey(st.normDeep(refs[i])))
		}
	}
	m.taken = make([]bool, len(m.have))
	show := func() string {
		var l []string
		for _, h := range m.have {
			l = append(l, fmt.Sprintf("(%s %s %s)", shortKey(h.e), shortKey(h.a), shortKey(h.v)))
		}
		return strings.Join(l, " ")
	}
	if !m.solve(0) {
		return fmt.Sprintf("there is no claim %s among %s", m.want[min(m.best, len(m.want)-1)], show())
	}
	for k, h := range m.have {
		if !m.taken[k] {
			return fmt.Sprintf("there is a claim (%s %s %s)", shortKey(h.e), shortKey(h.a), shortKey(h.v))
		}
	}
	return ""
}

const (
	ruleShredClaims  = "the claims are those of the fields which have values"
	ruleShredReject  = "what cannot be recorded is rejected"
	ruleShredShared  = "a pointer is shredded once and names one entity"
	ruleShredEnds    = "shredding comes to an end"
	ruleShredCrash   = "no document crashes the shredder"
	ruleRetractIDs   = "a retraction is constrained by the id and the unique fields"
	ruleRetractBad   = "what identifies no entity is rejected"
	ruleRetractCrash = "no retraction crashes the shredder"
)

func init() {
	what := "Shred is interpreted abstractly, in the order of every iteration over maps, on documents of unknown scalars, whose structs are nested by values, pointers, slices and maps, shared and cyclic. What should result is computed over the same abstract values. "
	register("C24", what+"The rule: in every world, the request has exactly the claims of the fields which have values, up to the choice of distinct temporary ids, with ids in the order of the assertions, or there is an error exactly if something is specified to be rejected.", func(r *Report) { checkShred(r, "C24") })
	register("C25", what+"The rule for the documents in which pointers occur: their claims are those of one entity for each pointer and of different ones for different pointers and values, and shredding ends.", func(r *Report) { checkShred(r, "C25") })
	register("C26", what+"The rule for retractions: each is constrained by exactly the entity's id and the values of its unique fields, or there is an error exactly if there are none, if ids contradict each other or if the type is unsupported.", func(r *Report) { checkShred(r, "C26") })
}

// sharing tells whether the function makes pointers to structs.
func sharing(name string) bool {
	for _, k := range []string{"Pointer", "hared", "self", "cycle", "diamond", "mixed", "Self", "again", "chain", "values", "byPointer", "map", "Deep", "embeds", "anonymous", "ids", "Ids"} {
		if strings.Contains(name, k) {
			return true
		}
	}
	return false
}

func checkShred(r *Report, id string) {
	p, err := structProgram(r.p.root, docImports("internal/types", "internal/structs/models", "internal/structs/shredder")+"var _ Claim\n\n"+namedScalars+strings.ReplaceAll(strings.ReplaceAll(shredDocs, "NewShredder(", "shredder.NewShredder("), "Document", "shredder.Document"))
	if err != nil {
		r.attempts++
		r.undecided(ruleShredClaims, "program", "the scenarios do not load: %v", err)
		return
	}
	rules := map[string][]string{"C24": {ruleShredClaims, ruleShredReject, ruleShredEnds, ruleShredCrash}, "C25": {ruleShredShared, ruleShredEnds}, "C26": {ruleRetractIDs, ruleRetractBad, ruleRetractCrash}}[id]
	for _, rule := range rules {
		r.rule(rule)
	}
	e := structEngine(p)
	e.anyOrder = true
	where := "internal/structs/shredder/shredder.go"
	if f := p.method(p.typ("internal/structs/shredder", "shredder"), "Shred"); f != nil {
		where = p.pos(f.Pos()) + " in " + fnName(f)
	}
	dbid := mkStr(sysText(p, "DbId"))
	names := tagNames(shredDocs)
	steps := 0
	for _, name := range docFuncs(p, "S_", "R_") {
		retracts := strings.HasPrefix(name, "R_")
		if retracts != (id == "C26") && name != "S_retractToo" || id == "C25" && !sharing(name) {
			continue
		}
		fn := p.fn(docsPkg, name)
		subject := "the document of " + strings.TrimPrefix(strings.TrimPrefix(name, "S_"), "R_")
		claims, reject, crash := ruleShredClaims, ruleShredReject, ruleShredCrash
		if id == "C25" {
			claims, reject, crash = ruleShredShared, ruleShredShared, ruleShredShared
		}
		ends := ruleShredEnds
		if id == "C26" {
			claims, reject, crash, ends = ruleRetractIDs, ruleRetractBad, ruleRetractCrash, ruleRetractCrash
		}
		r.ends(e, claims, ends, subject, where, func() {
			st := tagState(e, names...)
			for _, n := range names {
				st.assume(mkEq(placeholder(n[1:]), dbid), false)
			}
			var args []Val
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				v := fn.Signature.Params().At(i)
				args = append(args, &Sym{Name: v.Name(), Typ: v.Type(), Rigid: true})
			}
			e.steps = 0
			outs := e.invoke(st, &FuncV{Fn: fn}, args...)
			fine := true
			for _, o := range outs {
				if !fine {
					break
				}
				if !r.check(o.panic == "", crash, subject, where, "panics: %s", o.panic) {
					continue
				}
				rs := o.ret.(*Tuple).Vs
				inWorlds(e, o.st, func(st *State) {
					s := &shredSpec{p: p, st: st, nodes: map[string]*node{}}
					bad, rule := s.compare(rs, id)
					switch {
					case rule == "reject":
						fine = r.check(bad == "", reject, subject, where, "%s", bad) && fine
					default:
						fine = r.check(bad == "", claims, subject, where, "%s", bad) && fine
					}
				})
			}
		})
		steps += e.steps
	}
	e.steps = steps
	r.use(e)
}

// docFuncs lists the functions of the scenarios.
func docFuncs(p *Program, prefixes ...string) (out []string) {
	sc := p.pkgs[docsPkg].Types.Scope()
	for _, n := range sc.Names() {
		if _, ok := sc.Lookup(n).(*types.Func); !ok {
			continue
		}
		for _, k := range prefixes {
			if strings.HasPrefix(n, k) {
				out = append(out, n)
			}
		}
	}
	return
}

// compare compares the results of shredding with those there should be.
func (s *shredSpec) compare(rs []Val, id string) (bad, rule string) {
	doc, ok := s.st.norm(rs[0]).(*Struct)
	if !ok {
		s.st.eng.failf("a document is not known")
	}
	req, ok := s.st.norm(rs[1]).(*Struct)
	if !ok {
		s.st.eng.failf("a request is not known")
	}
	type retraction struct {
		id           Val
		idents, vals []Val
	}
	var want []retraction
	for _, x := range eList(s.st, doc.Fs[fieldIndex(doc.Typ, "Retractions")]) {
		v, t := unbox(s.st.norm(x))
		i, as, vs := s.retraction(v, t)
		want = append(want, retraction{i, as, vs})
	}
	roots := s.document(doc)
	failed := !isNilError(s.st, rs[3])
	switch {
	case s.bad != "":
		if !failed {
			return "there is no error though " + s.bad, "reject"
		}
		return "", "reject"
	case failed:
		if s.either != "" {
			return "", ""
		}
		return "there is an error: " + shortKey(s.st.normDeep(rs[3])), ""
	}
	if id != "C26" {
		if bad := matchClaims(s.p, s.st, s.claims, roots, req.Fs[fieldIndex(req.Typ, "Claims")], rs[2]); bad != "" {
			return bad, ""
		}
	}
	have := eList(s.st, req.Fs[fieldIndex(req.Typ, "Retractions")])
	if len(have) != len(want) {
		return fmt.Sprintf("there are %d retractions, not %d", len(have), len(want)), ""
	}
	for i, w := range want {
		h, ok := s.st.norm(have[i]).(*Struct)
		if !ok {
			s.st.eng.failf("a retraction is not known")
		}
		f := fieldIndex(h.Typ, "Constraints")
		mid := s.st.eng.mapID(s.st, s.st.norm(h.Fs[f]), h.Typ.Underlying().(*types.Struct).Field(f).Type())
		var keys []Val
		if mid != "" {
			for _, en := range s.st.obj(mid).Ents {
				if en.Present {
					keys = append(keys, s.st.normDeep(en.Key))
				}
			}
		}
		left := map[int]bool{}
		for k := range keys {
			left[k] = true
		}
		take := func(what string, is func(i *Iface) bool) string {
			for k, v := range keys {
				if x, ok := v.(*Iface); ok && left[k] && is(x) {
					delete(left, k)
					return ""
				}
			}
			return fmt.Sprintf("retraction %d is not constrained by %s", i, what)
		}
		if w.id != nil {
			if bad := take("the id", func(x *Iface) bool { return typKey(x.Dyn) == "types.ID" && sameVal(s.st, x.V, w.id) }); bad != "" {
				return bad, ""
			}
		}
		for j := range w.idents {
			bad := take(shortKey(w.idents[j])+" "+shortKey(w.vals[j]), func(x *Iface) bool {
				l, ok := x.V.(*Struct)
				if !ok || typKey(x.Dyn) != "types.LookupRef" {
					return false
				}
				a, ok := s.st.normDeep(l.Fs[fieldIndex(l.Typ, "A")]).(*Iface)
				return ok && typKey(a.Dyn) == "types.Ident" && sameVal(s.st, a.V, w.idents[j]) && sameVal(s.st, l.Fs[fieldIndex(l.Typ, "V")], w.vals[j])
			})
			if bad != "" {
				return bad, ""
			}
		}
		for k := range left {
			return fmt.Sprintf("retraction %d is constrained by %s", i, shortKey(keys[k])), ""
		}
	}
	return "", ""
}
