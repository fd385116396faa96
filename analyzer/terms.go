package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
)

// This file holds the term constructors, which fold constants, and the procedures which decide
// atoms from the facts collected along the branches taken.

func boolV(b bool) Val { return mkBool(b) }

func constBool(v Val) (b bool, ok bool) {
	c, ok := v.(*Const)
	if !ok || c.V.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.V), true
}

func constInt(v Val) (n int64, ok bool) {
	c, ok := v.(*Const)
	if !ok {
		return 0, false
	}
	k := constant.ToInt(c.V)
	if c.V.Kind() == constant.Float || k.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k)
}

func constStr(v Val) (s string, ok bool) {
	c, ok := v.(*Const)
	if !ok || c.V.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.V), true
}

func isIntTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// splitAdd splits an integer term into a base, nil if constant, and an offset.
func splitAdd(v Val) (base Val, off int64, ok bool) {
	if n, isC := constInt(v); isC {
		return nil, n, true
	}
	if a, isA := v.(*App); isA && a.Op == "add" {
		if n, isC := constInt(a.Args[1]); isC {
			return a.Args[0], n, true
		}
	}
	return v, 0, true
}

func mkAdd(base Val, off int64, t types.Type) Val {
	if base == nil {
		return typedConst(t, constant.MakeInt64(off))
	}
	b2, o2, _ := splitAdd(base)
	off += o2
	if b2 == nil {
		return typedConst(t, constant.MakeInt64(off))
	}
	if off == 0 {
		return b2
	}
	return &App{Op: "add", Args: []Val{b2, typedConst(t, constant.MakeInt64(off))}, Typ: t}
}

// simp folds the application if its arguments allow.
func simp(a *App) Val {
	switch a.Op {
	case "eq":
		if r, ok := eqStatic(a.Args[0], a.Args[1]); ok {
			return boolV(r)
		}
		return mkEq(a.Args[0], a.Args[1])
	case "lt":
		if r, ok := ltStatic(a.Args[0], a.Args[1]); ok {
			return boolV(r)
		}
	case "not":
		if b, ok := constBool(a.Args[0]); ok {
			return boolV(!b)
		}
		if n, ok := a.Args[0].(*App); ok && n.Op == "not" {
			return n.Args[0]
		}
	case "add":
		if n, ok := constInt(a.Args[1]); ok && isIntTyp(a.Typ) {
			return mkAdd(a.Args[0], n, a.Typ)
		}
		if n, ok := constInt(a.Args[0]); ok && isIntTyp(a.Typ) {
			return mkAdd(a.Args[1], n, a.Typ)
		}
	case "and", "or":
	case "min", "max":
		x, ok1 := constInt(a.Args[0])
		y, ok2 := constInt(a.Args[1])
		if ok1 && ok2 {
			if (a.Op == "min") == (x < y) {
				return a.Args[0]
			}
			return a.Args[1]
		}
	}
	if strings.HasPrefix(a.Op, "is:") {
		if i, ok := a.Args[0].(*Iface); ok {
			if t := isAtomType(a.Op); t != nil {
				return boolV(dynIs(i.Dyn, t))
			}
		}
		if isNilV(a.Args[0]) {
			return boolV(false)
		}
	}
	if f := pureFolds[a.Op]; f != nil {
		if v := f(a); v != nil {
			return v
		}
	}
	return a
}

var pureFolds = map[string]func(a *App) Val{
	"(time.Time).UnixMilli": func(a *App) Val {
		t := stripZone(a.Args[0])
		if x, ok := t.(*App); ok && x.Op == "time.UnixMilli" {
			return x.Args[0]
		}
		if t.Key() != a.Args[0].Key() {
			return &App{Op: a.Op, Args: []Val{t}, Typ: a.Typ}
		}
		return nil
	},
	"strings.HasPrefix": func(a *App) Val {
		s, ok1 := constStr(a.Args[0])
		p, ok2 := constStr(a.Args[1])
		if ok1 && ok2 {
			return boolV(strings.HasPrefix(s, p))
		}
		return nil
	},
	"strings.ToLower": func(a *App) Val {
		if s, ok := constStr(a.Args[0]); ok {
			return mkStr(strings.ToLower(s))
		}
		return nil
	},
	"strlen": func(a *App) Val {
		if s, ok := constStr(a.Args[0]); ok {
			return mkInt(int64(len(s)))
		}
		return nil
	},
}

// isAtomTypes gives the types of the is: operators.
var isAtoms sync.Map

func isAtomType(op string) types.Type {
	if t, ok := isAtoms.Load(op); ok {
		return t.(types.Type)
	}
	return nil
}

func isOp(t types.Type) string {
	op := "is:" + typKey(t)
	isAtoms.Store(op, t)
	return op
}

// dynIs reports whether a value of the dynamic type satisfies an assertion to the type.
func dynIs(dyn, t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, t)
}

func isFreshObj(name string) bool { return !strings.HasPrefix(name, "@") }

// eqStatic decides equality from the values' forms alone.
func eqStatic(a, b Val) (r bool, ok bool) {
	if a.Key() == b.Key() {
		if mayBeNaN(a) {
			return false, false
		}
		return true, true
	}
	if isNilV(b) {
		if x, isA := a.(*App); isA && strings.HasPrefix(x.Op, "rtype:") {
			return false, true
		}
	}
	if r, ok := eqText(a, b); ok {
		return r, true
	}
	switch x := a.(type) {
	case *Const:
		if y, isC := b.(*Const); isC {
			if x.V.Kind() == y.V.Kind() || (x.V.Kind() != constant.String && y.V.Kind() != constant.String && x.V.Kind() != constant.Bool && y.V.Kind() != constant.Bool) {
				return constant.Compare(x.V, token.EQL, y.V), true
			}
			return false, true
		}
	case NilV:
		if y, isA := b.(*App); isA && strings.HasPrefix(y.Op, "rtype:") {
			return false, true
		}
		switch b.(type) {
		case *Iface, *Ptr, *FuncV, *SliceV, *Struct:
			return false, true
		}
	case *Iface:
		switch y := b.(type) {
		case NilV:
			return false, true
		case *Iface:
			if !types.Identical(x.Dyn, y.Dyn) {
				return false, true
			}
			return eqStatic(x.V, y.V)
		}
	case *Ptr:
		switch y := b.(type) {
		case NilV:
			return false, true
		case *Ptr:
			if x.Obj != y.Obj && (isFreshObj(x.Obj) || isFreshObj(y.Obj)) {
				return false, true
			}
			if x.Obj == y.Obj && x.Path != y.Path {
				return false, true
			}
		}
	case *FuncV, *SliceV:
		if isNilV(b) {
			return false, true
		}
	case *Struct:
		if y, isS := b.(*Struct); isS && len(x.Fs) == len(y.Fs) {
			all := true
			for i := range x.Fs {
				r, ok := eqStatic(x.Fs[i], y.Fs[i])
				if ok && !r {
					return false, true
				}
				all = all && ok
			}
			return true, all
		}
	case *App:
		if strings.HasPrefix(x.Op, "rtype:") {
			if y, isA := b.(*App); isA && strings.HasPrefix(y.Op, "rtype:") {
				return x.Op == y.Op, true
			}
			if isNilV(b) {
				return false, true
			}
		}
		if y, isA := b.(*App); isA {
			rx, ry := isRVOp(x.Op), isRVOp(y.Op)
			if rx && strings.HasPrefix(y.Op, "zero:") || ry && strings.HasPrefix(x.Op, "zero:") {
				return false, true
			}
			if rx && ry {
				if x.Op != y.Op || x.Args[0].Key() != y.Args[0].Key() {
					return false, true
				}
				if r, ok := eqStatic(x.Args[1], y.Args[1]); ok && !r {
					return false, true
				}
			}
		}
	}
	if ba, o1, _ := splitAdd(a); isIntTyp(typeOf(a)) {
		bb, o2, _ := splitAdd(b)
		if ba != nil && bb != nil && ba.Key() == bb.Key() {
			return o1 == o2, true
		}
	}
	return false, false
}

func mayBeNaN(v Val) bool {
	switch v := v.(type) {
	case *Const:
		return false
	case *Iface:
		return mayBeNaN(v.V)
	case *Struct:
		for _, f := range v.Fs {
			if mayBeNaN(f) {
				return true
			}
		}
		return false
	}
	return isFloat(typeOf(v))
}

func ltStatic(a, b Val) (r bool, ok bool) {
	x, ok1 := a.(*Const)
	y, ok2 := b.(*Const)
	if ok1 && ok2 {
		return constant.Compare(x.V, token.LSS, y.V), true
	}
	if a.Key() == b.Key() {
		return false, true
	}
	// Nothing is less than the least of its type, nor is the greatest less than anything.
	if ok2 && isLeast(y) || ok1 && isGreatest(x) {
		return false, true
	}
	if isIntTyp(typeOf(a)) {
		ba, o1, _ := splitAdd(a)
		bb, o2, _ := splitAdd(b)
		if ba != nil && bb != nil && ba.Key() == bb.Key() {
			return o1 < o2, true
		}
	}
	return false, false
}

func isLeast(c *Const) bool {
	b, ok := under(c.Typ).(*types.Basic)
	if !ok {
		return false
	}
	switch {
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.V) == ""
	case b.Info()&types.IsUnsigned != 0:
		return constant.Sign(constant.ToInt(c.V)) == 0
	case b.Kind() == types.Int64 || b.Kind() == types.Int:
		n, exact := constant.Int64Val(constant.ToInt(c.V))
		return exact && n == -1<<63
	}
	return false
}

func isGreatest(c *Const) bool {
	b, ok := under(c.Typ).(*types.Basic)
	if !ok || b.Kind() != types.Int64 && b.Kind() != types.Int {
		return false
	}
	n, exact := constant.Int64Val(constant.ToInt(c.V))
	return exact && n == 1<<63-1
}

// mk makes the application, folded and rewritten by the state's facts.
func (st *State) mk(op string, t types.Type, args ...Val) Val {
	a := &App{Op: op, Args: args, Typ: t}
	if op == "eq" {
		a = mkEq(args[0], args[1]).(*App)
	}
	v := simp(a)
	return st.norm(v)
}

func (st *State) norm(v Val) Val {
	for i := 0; i < 8; i++ {
		if _, isC := v.(*Const); isC {
			return v
		}
		f, ok := st.rew[v.Key()]
		if !ok {
			break
		}
		st.usedFacts = true
		v = f.Val
	}
	if a, ok := v.(*App); ok {
		switch a.Op {
		case "Uniq", "Card", "AIdent", "RefType":
			// An entity without a type is no attribute, so has no description.
			if f, ok := st.rew["Type("+a.Args[0].Key()+")"]; ok {
				if n, ok := constInt(f.Val); ok && n == 0 {
					if a.Op == "AIdent" {
						return mkStr("")
					}
					return mkInt(0)
				}
			}
		}
		if strings.HasPrefix(a.Op, "is:") && len(st.rew) > 0 {
			t := isAtomType(a.Op)
			x := a.Args[0].Key()
			for _, f := range st.rew {
				fa, ok := f.Term.(*App)
				if !ok || !strings.HasPrefix(fa.Op, "is:") || fa.Args[0].Key() != x {
					continue
				}
				b, _ := constBool(f.Val)
				ft := isAtomType(fa.Op)
				// Not implementing an interface excludes the types which do.
				if !b && isInterface(ft) && !isInterface(t) && types.Implements(t, ft.Underlying().(*types.Interface)) {
					st.usedFacts = true
					return boolV(false)
				}
				if b && isInterface(ft) && !isInterface(t) && !types.Implements(t, ft.Underlying().(*types.Interface)) {
					st.usedFacts = true
					return boolV(false)
				}
				if b && isInterface(ft) && isInterface(t) && types.Implements(ft, t.Underlying().(*types.Interface)) {
					return boolV(true)
				}
			}
		}
	}
	return v
}

// decide decides a boolean term.
func (st *State) decide(v Val) (r bool, ok bool) {
	v = st.norm(v)
	if b, isC := constBool(v); isC {
		return b, true
	}
	a, isA := v.(*App)
	if !isA {
		return false, false
	}
	switch a.Op {
	case "not":
		r, ok = st.decide(a.Args[0])
		return !r, ok
	case "eq":
		return st.decideEq(a.Args[0], a.Args[1])
	case "lt":
		return st.decideLt(a.Args[0], a.Args[1])
	case "cmpeq", "cmplt":
		if f, ok := st.rew[a.Key()]; ok {
			st.usedFacts = true
			r, _ := constBool(f.Val)
			return r, true
		}
		le, lt := st.ordered("cmplt", a.Args[0], a.Args[1])
		ge, gt := st.ordered("cmplt", a.Args[1], a.Args[0])
		switch {
		case a.Op == "cmplt" && lt, a.Op == "cmpeq" && le && ge:
			st.usedFacts = true
			return true, true
		case a.Op == "cmplt" && ge, a.Op == "cmpeq" && (lt || gt):
			st.usedFacts = true
			return false, true
		}
		return false, false
	case "and":
		all := true
		for _, x := range a.Args {
			r, ok := st.decide(x)
			if ok && !r {
				return false, true
			}
			all = all && ok
		}
		return true, all
	case "or":
		all := true
		for _, x := range a.Args {
			r, ok := st.decide(x)
			if ok && r {
				return true, true
			}
			all = all && ok
		}
		return false, all
	}
	return false, false
}

func (st *State) decideEq(a, b Val) (bool, bool) {
	a, b = st.norm(a), st.norm(b)
	if r, ok := eqStatic(a, b); ok {
		return r, true
	}
	if f, ok := st.rew[mkEq(a, b).Key()]; ok {
		st.usedFacts = true
		r, _ := constBool(f.Val)
		return r, true
	}
	if x, ok := a.(*Struct); ok {
		if y, ok := b.(*Struct); ok && len(x.Fs) == len(y.Fs) {
			all := true
			for i := range x.Fs {
				r, ok := st.decideEq(x.Fs[i], y.Fs[i])
				if ok && !r {
					return false, true
				}
				all = all && ok
			}
			return true, all
		}
	}
	if x, ok := a.(*Iface); ok {
		if y, ok := b.(*Iface); ok && types.Identical(x.Dyn, y.Dyn) {
			return st.decideEq(x.V, y.V)
		}
	}
	for _, p := range [][2]Val{{a, b}, {b, a}} {
		// An interface of unknown dynamic type which has been told not to be of this one.
		if i, ok := p[0].(*Iface); ok {
			if f, ok := st.rew[isOp(i.Dyn)+"("+p[1].Key()+")"]; ok {
				if r, isB := constBool(f.Val); isB && !r {
					st.usedFacts = true
					return false, true
				}
			}
		}
	}
	ta := typeOf(a)
	if ta == nil {
		ta = typeOf(b)
	}
	if isIntTyp(ta) {
		le1, lt1 := st.leq(a, b)
		if lt1 {
			st.usedFacts = true
			return false, true
		}
		le2, lt2 := st.leq(b, a)
		if lt2 {
			st.usedFacts = true
			return false, true
		}
		if le1 && le2 {
			st.usedFacts = true
			return true, true
		}
	}
	if isStringTyp(ta) {
		le, lt := st.ordered("lt", a, b)
		ge, gt := st.ordered("lt", b, a)
		if lt || gt || le && ge {
			st.usedFacts = true
			return !lt && !gt, true
		}
	}
	if mayBeNaN(a) && mayBeNaN(b) {
		return st.decideFloatEq(a, b)
	}
	return false, false
}

// decideFloatEq decides whether floats are equal of which it is known that they are in the same place of the
// total order: they are if either is a number.
func (st *State) decideFloatEq(a, b Val) (bool, bool) {
	same := func(x, y Val) bool {
		le, _ := st.ordered("cmplt", x, y)
		ge, _ := st.ordered("cmplt", y, x)
		return le && ge
	}
	known := func(x, y Val) (r, ok bool) {
		f, ok := st.rew[mkEq(x, y).Key()]
		if ok {
			r, ok = constBool(f.Val)
		}
		return
	}
	if a.Key() != b.Key() {
		if same(a, b) {
			for _, x := range []Val{a, b} {
				if r, ok := known(x, x); ok {
					st.usedFacts = true
					return r, true
				}
			}
		}
		return false, false
	}
	for _, f := range st.rew {
		t, ok := f.Term.(*App)
		if !ok || t.Op != "eq" {
			continue
		}
		for i, x := range t.Args {
			y := t.Args[1-i]
			if x.Key() != a.Key() || y.Key() == a.Key() {
				continue
			}
			if r, ok := constBool(f.Val); ok && (r || same(x, y)) {
				st.usedFacts = true
				return r, true
			}
		}
	}
	return false, false
}

// ordered decides, from the facts on the total order of strings or floats, whether a is no more, or less, than b.
func (st *State) ordered(op string, a, b Val) (le bool, lt bool) {
	type edge struct {
		to     string
		strict bool
	} // from is no more, or less, than to
	edges := map[string][]edge{}
	differ := map[[2]string]bool{}
	add := func(x, y Val, strict bool) { edges[x.Key()] = append(edges[x.Key()], edge{y.Key(), strict}) }
	for _, f := range st.rew {
		t, ok := f.Term.(*App)
		if !ok || len(t.Args) != 2 || t.Op != op && !(op == "cmplt" && t.Op == "cmpeq") && !(op == "lt" && t.Op == "eq") {
			continue
		}
		r, isB := constBool(f.Val)
		if !isB || op == "lt" && !isStringTyp(typeOf(t.Args[0])) {
			continue
		}
		x, y := t.Args[0], t.Args[1]
		switch {
		case t.Op == op && r:
			add(x, y, true)
		case t.Op == op:
			add(y, x, false)
		case r:
			add(x, y, false)
			add(y, x, false)
		default:
			differ[[2]string{x.Key(), y.Key()}] = true
			differ[[2]string{y.Key(), x.Key()}] = true
		}
	}
	if len(edges) == 0 {
		return false, false
	}
	type node struct {
		key    string
		strict bool
	}
	seen := map[node]bool{}
	todo := []node{{a.Key(), false}}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		for _, e := range edges[n.key] {
			todo = append(todo, node{e.to, n.strict || e.strict || differ[[2]string{n.key, e.to}]})
		}
	}
	lt = seen[node{b.Key(), true}] || seen[node{b.Key(), false}] && differ[[2]string{a.Key(), b.Key()}]
	return lt || seen[node{b.Key(), false}], lt
}

func isStringTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (st *State) decideLt(a, b Val) (bool, bool) {
	a, b = st.norm(a), st.norm(b)
	if r, ok := ltStatic(a, b); ok {
		return r, true
	}
	if f, ok := st.rew["lt("+a.Key()+","+b.Key()+")"]; ok {
		st.usedFacts = true
		r, _ := constBool(f.Val)
		return r, true
	}
	if f, ok := st.rew["lt("+b.Key()+","+a.Key()+")"]; ok {
		if r, _ := constBool(f.Val); r {
			st.usedFacts = true
			return false, true
		}
	}
	ta := typeOf(a)
	if ta == nil {
		ta = typeOf(b)
	}
	if isIntTyp(ta) {
		le, lt := st.leq(a, b)
		if lt {
			st.usedFacts = true
			return true, true
		}
		if le {
			if f, ok := st.rew[mkEq(a, b).Key()]; ok {
				if r, _ := constBool(f.Val); !r {
					st.usedFacts = true
					return true, true
				}
			}
		}
		ge, _ := st.leq(b, a)
		if ge {
			st.usedFacts = true
			return false, true
		}
	}
	if isStringTyp(ta) {
		_, lt := st.ordered("lt", a, b)
		ge, _ := st.ordered("lt", b, a)
		if lt || ge {
			st.usedFacts = true
			return lt, true
		}
	}
	return false, false
}

// leq decides, from the difference bounds among the facts, whether a is no more, or less, than b.
func (st *State) leq(a, b Val) (le bool, lt bool) {
	ba, oa, _ := splitAdd(a)
	bb, ob, _ := splitAdd(b)
	key := func(v Val) string {
		if v == nil {
			return "0"
		}
		return v.Key()
	}
	type edge struct {
		from, to string
		w        int64
	} // to - from <= w
	var edges []edge
	nodes := map[string]bool{"0": true}
	terms := map[string]Val{}
	note := func(v Val) {
		if v != nil {
			terms[key(v)] = v
			nodes[key(v)] = true
		}
	}
	note(ba)
	note(bb)
	for _, f := range st.rew {
		t, ok := f.Term.(*App)
		if !ok || t.Op != "lt" {
			continue
		}
		if !isIntTyp(typeOf(t.Args[0])) && !isIntTyp(typeOf(t.Args[1])) {
			continue
		}
		r, isB := constBool(f.Val)
		if !isB {
			continue
		}
		x, ox, _ := splitAdd(t.Args[0])
		y, oy, _ := splitAdd(t.Args[1])
		note(x)
		note(y)
		if r { // x+ox < y+oy : x - y <= oy-ox-1
			edges = append(edges, edge{key(y), key(x), oy - ox - 1})
		} else { // y+oy <= x+ox : y - x <= ox-oy
			edges = append(edges, edge{key(x), key(y), ox - oy})
		}
	}
	for k, v := range terms {
		nonneg := isUnsigned(typeOf(v))
		if x, ok := v.(*App); ok && (x.Op == "len" || x.Op == "strlen") {
			nonneg = true
		}
		if nonneg { // 0 - v <= 0
			edges = append(edges, edge{k, "0", 0})
		}
	}
	// The shortest path from b's base to a's base bounds base(a) - base(b).
	const inf = int64(1) << 60
	dist := map[string]int64{}
	for n := range nodes {
		dist[n] = inf
	}
	dist[key(bb)] = 0
	for i := 0; i < len(nodes); i++ {
		changed := false
		for _, e := range edges {
			if dist[e.from] == inf {
				continue
			}
			if d := dist[e.from] + e.w; d < dist[e.to] {
				dist[e.to] = d
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	d := dist[key(ba)]
	if d == inf {
		return false, false
	}
	d += oa - ob // a - b <= d
	return d <= 0, d < 0
}

// assume adds the boolean term to the state's facts, or reports that it cannot hold.
func (st *State) assume(v Val, want bool) bool {
	v = st.norm(v)
	if r, ok := st.decide(v); ok {
		return r == want
	}
	a, isA := v.(*App)
	if isA {
		switch a.Op {
		case "not":
			return st.assume(a.Args[0], !want)
		case "and":
			if want {
				for _, x := range a.Args {
					if !st.assume(x, true) {
						return false
					}
				}
				return true
			}
		case "or":
			if !want {
				for _, x := range a.Args {
					if !st.assume(x, false) {
						return false
					}
				}
				return true
			}
		case "eq":
			if want {
				return st.equate(a.Args[0], a.Args[1])
			}
			x, ok1 := a.Args[0].(*Iface)
			y, ok2 := a.Args[1].(*Iface)
			if ok1 && ok2 {
				return st.assume(mkEq(x.V, y.V), false)
			}
		}
		if strings.HasPrefix(a.Op, "is:") && want {
			x := a.Args[0]
			t := isAtomType(a.Op)
			if !isInterface(t) {
				if _, bad := st.decideEq(x, nilV); bad {
					if r, _ := st.decideEq(x, nilV); r {
						return false
					}
				}
				pay := st.eng.fresh(t, strings.TrimLeft(x.Key(), "$")+"."+shortTyp(t))
				return st.replace(x, &Iface{Dyn: t, V: pay})
			}
			if !st.addFact(a, boolV(true)) {
				return false
			}
			return st.assume(mkEq(x, nilV), false)
		}
	}
	return st.replace(v, boolV(want))
}

func shortTyp(t types.Type) string {
	s := typKey(t)
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (st *State) addFact(t Val, v Val) bool {
	if old, ok := st.rew[t.Key()]; ok {
		return old.Val.Key() == v.Key()
	}
	st.rew[t.Key()] = Fact{t, v}
	return true
}

// equate makes the two terms equal.
func (st *State) equate(a, b Val) bool {
	a, b = st.norm(a), st.norm(b)
	if r, ok := st.decideEq(a, b); ok {
		if !r {
			return false
		}
		if _, isInt := constInt(a); !isInt {
			if _, isInt = constInt(b); !isInt {
				return true
			}
		}
		if a.Key() == b.Key() {
			return true
		}
	}
	switch x := a.(type) {
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.Fs) == len(y.Fs) {
			for i := range x.Fs {
				if !st.equate(x.Fs[i], y.Fs[i]) {
					return false
				}
			}
			return true
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if !types.Identical(x.Dyn, y.Dyn) {
				return false
			}
			return st.equate(x.V, y.V)
		}
	}
	if mayBeNaN(a) || mayBeNaN(b) {
		return st.addFact(mkEq(a, b), boolV(true))
	}
	// Keep the simpler term: constants, then rigid symbols, then symbols, then applications.
	if rank(a) > rank(b) {
		a, b = b, a
	}
	if ba, o, _ := splitAdd(b); ba != nil && o != 0 && isIntTyp(typeOf(b)) {
		// base+o = a, hence base = a-o
		t := typeOf(b)
		a = mkAdd(a, -o, t)
		b = ba
		if rank(a) > rank(b) && contains(a, b) {
			return false
		}
	}
	if i, ok := a.(*Iface); ok {
		if r, ok := st.decide(&App{Op: isOp(i.Dyn), Args: []Val{b}, Typ: types.Typ[types.Bool]}); ok && !r {
			return false
		}
	}
	if contains(a, b) {
		return st.addFact(mkEq(a, b), boolV(true))
	}
	return st.replace(b, a)
}

func rank(v Val) int {
	switch v := v.(type) {
	case *Const, NilV:
		return 0
	case *Iface, *Ptr, *Struct, *FuncV, *SliceV:
		return 1
	case *Sym:
		if v.Rigid {
			return 2
		}
		return 3
	case *App:
		if v.Op == "add" {
			return 3 + rank(v.Args[0])
		}
		return 8 + depth(v)
	}
	return 100
}

func contains(v, sub Val) bool {
	return strings.Contains(v.Key(), sub.Key())
}
