package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists, maps and iteration.

func mapOf(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

// mapID resolves the map value to an object, "" for nil.
func (e *Engine) mapID(st *State, v Val, t types.Type) string {
	switch x := v.(type) {
	case *Ptr:
		return x.Obj
	case NilV:
		return ""
	case *Sym, *App:
		if r, ok := st.decideEq(x, nilV); ok && r {
			return ""
		}
		id := "@" + x.Key()
		if st.obj(id) == nil {
			st.mem[id] = &Obj{owner: st, Kind: mapObj, Typ: t, Base: x, Attrs: map[string]Val{}}
		}
		return id
	}
	e.failf("not a map: %s", v.Key())
	return ""
}

// Known maps have contents which are functions of their keys.
type knownMap struct {
	get func(st *State, key Val, t types.Type) Val
	has func(st *State, key Val, t types.Type) Val
}

func baseGet(st *State, base, key Val, t types.Type) Val {
	if s, ok := base.(*Sym); ok {
		if k, ok := st.eng.knownMaps[s.Name]; ok {
			return k.get(st, key, t)
		}
	}
	return st.pure("mapget", t, base, key)
}

func baseHas(st *State, base, key Val, t types.Type) Val {
	if s, ok := base.(*Sym); ok {
		if k, ok := st.eng.knownMaps[s.Name]; ok {
			return k.has(st, key, t)
		}
	}
	return st.mk("mapin", types.Typ[types.Bool], base, key)
}

type found struct {
	st  *State
	val Val
	has Val // boolean term
}

// mapGet looks the key up.
func (e *Engine) mapGet(st *State, id string, key Val, et types.Type) []found {
	if id == "" {
		return []found{{st, zeroVal(et), boolV(false)}}
	}
	o := st.obj(id)
	if o == nil || o.Kind != mapObj {
		e.failf("not a map object: %s", id)
	}
	var out []found
	for i := len(o.Ents) - 1; i >= 0; i-- {
		ent := o.Ents[i]
		if ent.Many {
			return append(out, found{st, e.fresh(et, "mapval"), e.fresh(types.Typ[types.Bool], "mapin")})
		}
		r, ok := st.decideEq(key, ent.Key)
		if ok && !r {
			continue
		}
		if ok && r {
			if ent.Present {
				return append(out, found{st, ent.Val, boolV(true)})
			}
			return append(out, found{st, zeroVal(et), boolV(false)})
		}
		// Either.
		y := st.clone()
		if y.assume(mkEq(key, ent.Key), true) {
			yo := y.obj(id)
			ye := yo.Ents[i]
			if ent.Present {
				out = append(out, found{y, ye.Val, boolV(true)})
			} else {
				out = append(out, found{y, zeroVal(et), boolV(false)})
			}
		}
		if !st.assume(mkEq(key, ent.Key), false) {
			return out
		}
		o = st.obj(id)
	}
	if o.Base == nil {
		return append(out, found{st, zeroVal(et), boolV(false)})
	}
	return append(out, found{st, baseGet(st, o.Base, key, et), baseHas(st, o.Base, key, et)})
}

func (e *Engine) lookup(st *State, x *ssa.Lookup) []Outcome {
	m := mapOf(x.X.Type())
	if m == nil { // string index
		e.set(st, x, st.mk("strindex", x.Type(), e.get(st, x.X), e.get(st, x.Index)))
		return one(st)
	}
	id := e.mapID(st, e.get(st, x.X), x.X.Type())
	if e.onMap != nil && id != "" {
		e.onMap(e, st, id, "get", e.get(st, x.Index), nil, x)
	}
	var outs []Outcome
	for _, f := range e.mapGet(st, id, e.get(st, x.Index), m.Elem()) {
		if !x.CommaOk {
			e.set(f.st, x, f.val)
			outs = append(outs, Outcome{st: f.st})
			continue
		}
		// Present or absent.
		for _, w := range e.branchKeep(f.st, f.has, f.val) {
			v := w.val
			if !w.r {
				// An absent entry has the zero value.
				if !w.st.equateZero(v, m.Elem()) {
					continue
				}
				v = zeroVal(m.Elem())
			}
			e.set(w.st, x, &Tuple{Vs: []Val{v, boolV(w.r)}})
			outs = append(outs, Outcome{st: w.st})
		}
	}
	return outs
}

func (st *State) equateZero(v Val, t types.Type) bool {
	z := zeroVal(t)
	switch x := v.(type) {
	case *Sym, *App:
		return st.equate(x, z)
	case *Struct:
		zs, ok := z.(*Struct)
		if !ok {
			return true
		}
		for i := range x.Fs {
			switch x.Fs[i].(type) {
			case *Sym, *App:
				if !st.equate(x.Fs[i], zs.Fs[i]) {
					return false
				}
			}
		}
	}
	return true
}

type worldVal struct {
	st  *State
	r   bool
	val Val
}

// branchKeep branches while keeping a value up to date with what the branches learn.
func (e *Engine) branchKeep(st *State, cond Val, v Val) []worldVal {
	st.mon["~keep"] = v
	var out []worldVal
	for _, w := range e.branch(st, cond) {
		k := w.st.mon["~keep"]
		delete(w.st.mon, "~keep")
		out = append(out, worldVal{w.st, w.r, k})
	}
	return out
}

func (e *Engine) mapUpdate(st *State, mv, key, val Val, x *ssa.MapUpdate) []Outcome {
	id := e.mapID(st, mv, x.Map.Type())
	if id == "" {
		return []Outcome{{st: st, panic: "assignment to nil map"}}
	}
	if e.onMap != nil {
		e.onMap(e, st, id, "set", key, val, x)
	}
	if e.unroll {
		return e.mapSetApart(st, id, key, val, true)
	}
	e.mapSet(st, id, key, val, true)
	return one(st)
}

// mapSetApart changes the map in the worlds in which the key is known to be, or not to be, each written before.
func (e *Engine) mapSetApart(st *State, id string, key, val Val, present bool) []Outcome {
	if val == nil {
		val = boolV(false)
	}
	st.mon["~key"], st.mon["~val"] = key, val
	var outs []Outcome
	fin := func(st *State) {
		k, v := st.mon["~key"], st.mon["~val"]
		delete(st.mon, "~key")
		delete(st.mon, "~val")
		e.mapSet(st, id, k, v, present)
		outs = append(outs, Outcome{st: st, ret: &Tuple{}})
	}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		o := st.obj(id)
		if i >= len(o.Ents) {
			fin(st)
			return
		}
		if o.Ents[i].Many {
			rec(st, i+1)
			return
		}
		for _, w := range e.branch(st, mkEq(st.norm(st.mon["~key"]), o.Ents[i].Key)) {
			if w.r {
				fin(w.st)
			} else {
				rec(w.st, i+1)
			}
		}
	}
	rec(st, 0)
	return outs
}

func (e *Engine) mapSet(st *State, id string, key, val Val, present bool) {
	o := st.wobj(id)
	var ents []MapEnt
	for _, en := range o.Ents {
		if en.Many {
			ents = append(ents, en)
			continue
		}
		if r, ok := st.decideEq(en.Key, key); ok && r {
			continue
		}
		ents = append(ents, en)
	}
	if val == nil {
		val = boolV(false)
	}
	if !present && o.Base == nil {
		// Deleting from known contents: forget the entry, unless others may be equal.
		maybe := false
		for _, en := range ents {
			if en.Many {
				maybe = true
			} else if _, ok := st.decideEq(en.Key, key); !ok {
				maybe = true
			}
		}
		if !maybe {
			o.Ents = ents
			return
		}
	}
	o.Ents = append(ents, MapEnt{Key: key, Val: val, Present: present})
	if len(o.Ents) > 400 {
		e.endless("map grows without bound")
	}
}

func (e *Engine) mapLen(st *State, id string) Val {
	if id == "" {
		return mkInt(0)
	}
	o := st.obj(id)
	n := 0
	exact := o.Base == nil
	some := false
	for i, en := range o.Ents {
		if en.Many {
			exact = false
			continue
		}
		if en.Present {
			n++
		}
		sure := true
		for k, other := range o.Ents {
			if k == i {
				continue
			}
			if r, ok := st.decideEq(en.Key, other.Key); !ok || r {
				exact = false
				if k > i {
					sure = false
				}
			}
		}
		if en.Present && sure {
			some = true
		}
	}
	if exact {
		return mkInt(int64(n))
	}
	l := st.eng.freshSym(types.Typ[types.Int], "maplen")
	if some {
		st.assume(&App{Op: "lt", Args: []Val{mkInt(0), l}, Typ: types.Typ[types.Bool]}, true)
	} else {
		st.assume(&App{Op: "lt", Args: []Val{l, mkInt(0)}, Typ: types.Typ[types.Bool]}, false)
	}
	return l
}

func (e *Engine) rangeInstr(st *State, x *ssa.Range) []Outcome {
	m := mapOf(x.X.Type())
	if m == nil {
		id := st.newObj(&Obj{Kind: cellObj, Typ: x.X.Type(), Val: e.get(st, x.X)})
		e.set(st, x, &Ptr{Obj: id})
		return one(st)
	}
	id := e.mapID(st, e.get(st, x.X), x.X.Type())
	it := &Obj{Kind: mapObj, Typ: x.X.Type(), Attrs: map[string]Val{"iter": boolV(true)}}
	if id != "" {
		o := st.obj(id)
		it.Base = o.Base
		conc := o.Base == nil
		for _, en := range o.Ents {
			if en.Many {
				it.Base = e.fresh(nil, "many")
				conc = false
				continue
			}
			if en.Present {
				it.Ents = append(it.Ents, en)
			}
			if !isConstLike(en.Key) {
				conc = false
			}
		}
		if conc {
			it.Attrs["concrete"] = boolV(true)
		}
		it.Attrs["map"] = &Ptr{Obj: id}
		if e.onMap != nil {
			e.onMap(e, st, id, "range", nil, nil, x)
		}
	}
	e.set(st, x, &Ptr{Obj: st.newObj(it)})
	return one(st)
}

func (e *Engine) next(st *State, x *ssa.Next) []Outcome {
	it := e.get(st, x.Iter).(*Ptr)
	if x.IsString {
		e.set(st, x, &Tuple{Vs: []Val{e.fresh(types.Typ[types.Bool], "ok"), e.fresh(types.Typ[types.Int], "i"), e.fresh(types.Typ[types.Rune], "r")}})
		return one(st)
	}
	o := st.obj(it.Obj)
	m := mapOf(o.Typ)
	done := func(s *State) Outcome {
		e.set(s, x, &Tuple{Vs: []Val{boolV(false), zeroVal(m.Key()), zeroVal(m.Elem())}})
		return Outcome{st: s}
	}
	mp, ok := o.attr("map").(*Ptr)
	if !ok {
		return []Outcome{done(st)}
	}
	var outs []Outcome
	if o.Base != nil {
		if up := copyLoop(x); up != nil {
			if outs := e.copyRest(st, mp, up, done); outs != nil {
				return outs
			}
		}
		s := st
		if len(o.Ents) > 0 || true {
			s = st.clone()
		}
		key := e.fresh(m.Key(), "key")
		feasible := true
		mo := s.obj(mp.Obj)
		if mo != nil {
			for _, en := range mo.Ents {
				if !en.Many && !s.assume(mkEq(key, en.Key), false) {
					feasible = false
				}
			}
		}
		if feasible {
			val := baseGet(s, o.Base, key, m.Elem())
			if s.assume(baseHas(s, o.Base, key, m.Elem()), true) {
				e.set(s, x, &Tuple{Vs: []Val{boolV(true), s.normDeep(key), s.normDeep(val)}})
				outs = append(outs, Outcome{st: s})
			}
		}
	}
	if n := len(st.obj(it.Obj).Ents); e.anyOrder && o.Base == nil && n > 1 {
		// Any of the entries may come next.
		for i := 0; i < n; i++ {
			s := st.clone()
			w := s.wobj(it.Obj)
			en := w.Ents[i]
			w.Ents = append(append([]MapEnt{}, w.Ents[:i]...), w.Ents[i+1:]...)
			for _, cur := range e.mapGet(s, mp.Obj, en.Key, m.Elem()) {
				present, known := cur.st.decide(cur.has)
				if known && !present {
					outs = append(outs, e.next(cur.st, x)...)
					continue
				}
				e.set(cur.st, x, &Tuple{Vs: []Val{boolV(true), en.Key, cur.val}})
				outs = append(outs, Outcome{st: cur.st})
			}
		}
		return outs
	}
	for len(st.obj(it.Obj).Ents) > 0 {
		w := st.wobj(it.Obj)
		en := w.Ents[0]
		w.Ents = append([]MapEnt{}, w.Ents[1:]...)
		// The entry as it is by now.
		res := e.mapGet(st, mp.Obj, en.Key, m.Elem())
		cur := res[0]
		present, known := cur.st.decide(cur.has)
		if known && !present {
			st = cur.st
			continue
		}
		e.set(cur.st, x, &Tuple{Vs: []Val{boolV(true), en.Key, cur.val}})
		return append(outs, Outcome{st: cur.st})
	}
	return append(outs, done(st))
}

// copyLoop recognises loops over a map which do nothing but copy its entries to another.
func copyLoop(x *ssa.Next) *ssa.MapUpdate {
	b := x.Block()
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || len(b.Succs) != 2 {
		return nil
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Next, *ssa.If, *ssa.DebugRef:
		case *ssa.Extract:
			if in.Tuple != ssa.Value(x) {
				return nil
			}
		default:
			return nil
		}
	}
	if ex, ok := iff.Cond.(*ssa.Extract); !ok || ex.Tuple != ssa.Value(x) || ex.Index != 0 {
		return nil
	}
	body := b.Succs[0]
	if len(body.Succs) != 1 || body.Succs[0] != b || len(body.Preds) != 1 {
		return nil
	}
	var up *ssa.MapUpdate
	for _, in := range body.Instrs {
		switch in := in.(type) {
		case *ssa.Extract, *ssa.DebugRef, *ssa.Jump:
		case *ssa.FieldAddr:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return nil
			}
		case *ssa.MapUpdate:
			k, ok1 := in.Key.(*ssa.Extract)
			v, ok2 := in.Value.(*ssa.Extract)
			if up != nil || !ok1 || !ok2 || k.Tuple != ssa.Value(x) || v.Tuple != ssa.Value(x) || k.Index != 1 || v.Index != 2 {
				return nil
			}
			up = in
		default:
			return nil
		}
	}
	return up
}

// copyRest copies every entry at once.
func (e *Engine) copyRest(st *State, mp *Ptr, up *ssa.MapUpdate, done func(*State) Outcome) []Outcome {
	s := st.clone()
	for _, in := range up.Block().Instrs {
		switch in.(type) {
		case *ssa.FieldAddr, *ssa.UnOp:
			os := e.instr(s, in)
			if len(os) != 1 || os[0].panic != "" {
				return nil
			}
			s = os[0].st
		}
	}
	outs := e.mapCopy(s, e.get(s, up.Map), mp, up.Map.Type(), up)
	for i := range outs {
		if outs[i].panic == "" {
			outs[i] = done(outs[i].st)
		}
	}
	return outs
}

// list resolves the slice value to elements.
func (e *Engine) listID(st *State, v Val, elem types.Type) string {
	switch x := v.(type) {
	case *SliceV:
		return x.Obj
	case *Sym, *App:
		id := "@" + x.Key()
		if st.obj(id) == nil {
			st.mem[id] = &Obj{owner: st, Kind: listObj, Typ: elem, Rest: true, Len: st.mk("len", types.Typ[types.Int], x), Id: x, Attrs: map[string]Val{}}
		}
		return id
	}
	return ""
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func (e *Engine) length(st *State, v Val, t types.Type) Val {
	switch x := v.(type) {
	case NilV:
		return mkInt(0)
	case *SliceV:
		if x.Concrete {
			return mkInt(int64(x.Hi - x.Lo))
		}
		return st.obj(x.Obj).Len
	case *Ptr:
		if o := st.obj(x.Obj); o != nil && o.Kind == mapObj {
			return e.mapLen(st, x.Obj)
		}
	case *Const:
		if s, ok := constStr(v); ok {
			return mkInt(int64(len(s)))
		}
	case *Struct:
		return mkInt(int64(len(x.Fs)))
	case *Sym, *App:
		if mapOf(t) != nil {
			return e.mapLen(st, e.mapID(st, v, t))
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return st.mk("strlen", types.Typ[types.Int], v)
		}
		id := e.listID(st, v, elemType(t))
		return st.obj(id).Len
	}
	return st.mk("len", types.Typ[types.Int], v)
}

func (e *Engine) makeSlice(st *State, x *ssa.MakeSlice) []Outcome {
	n := e.get(st, x.Len)
	et := elemType(x.Type())
	o := &Obj{Kind: listObj, Typ: et, Len: n, Attrs: map[string]Val{}}
	if c, ok := constInt(n); ok && e.strict && c >= 0 && c <= 1000 {
		vs := make([]Val, c)
		for i := range vs {
			vs[i] = zeroVal(et)
		}
		e.set(st, x, concreteSlice(st, et, vs))
		return one(st)
	}
	if c, ok := constInt(n); ok && c <= 64 {
		for i := int64(0); i < c; i++ {
			o.Els = append(o.Els, zeroVal(et))
		}
	} else {
		o.Rest = true
		o.Id = e.fresh(nil, "made")
		if k := st.mon["K"]; k != nil {
			if st.phase(n, k) == ">" {
				o.Wit = zeroVal(et)
			}
		}
	}
	e.set(st, x, &SliceV{Obj: st.newObj(o)})
	return one(st)
}

// elemPtr gives pointers to the element of the list in the worlds of its possible positions.
func (e *Engine) elemPtr(st *State, v Val, idx Val, et types.Type, f func(*State, *Ptr)) []Outcome {
	if s, ok := v.(*SliceV); ok && s.Concrete {
		if n, ok := constInt(idx); ok {
			if n < 0 || int(n) >= s.Hi-s.Lo {
				return []Outcome{{st: st, panic: "index out of range"}}
			}
			f(st, &Ptr{Obj: s.Obj, Path: s.Path + "." + strconv.Itoa(s.Lo+int(n))})
			return one(st)
		}
		if e.strict {
			// A position which is not known is one of those there are.
			var outs []Outcome
			cur := st
			cur.mon["~at"] = &Tuple{Vs: []Val{idx, v}}
			for k := 0; k < s.Hi-s.Lo && cur != nil; k++ {
				ws := e.branch(cur, mkEq(cur.norm(cur.mon["~at"].(*Tuple).Vs[0]), mkInt(int64(k))))
				cur = nil
				for _, w := range ws {
					if !w.r {
						cur = w.st
						continue
					}
					y := w.st.mon["~at"].(*Tuple).Vs[1].(*SliceV)
					delete(w.st.mon, "~at")
					f(w.st, &Ptr{Obj: y.Obj, Path: y.Path + "." + strconv.Itoa(y.Lo+k)})
					outs = append(outs, Outcome{st: w.st})
				}
			}
			if cur != nil {
				delete(cur.mon, "~at")
				outs = append(outs, Outcome{st: cur, panic: "index out of range"})
			}
			return outs
		}
		return e.otherElem(st, &Sym{Name: s.Obj + s.Path, Rigid: true}, idx, et, f)
	}
	if isNilV(v) {
		return []Outcome{{st: st, panic: "index out of range"}}
	}
	id := e.listID(st, v, et)
	if id == "" {
		e.failf("index of %s", v.Key())
	}
	o := st.obj(id)
	if n, ok := constInt(idx); ok && n >= 0 && int(n) < len(o.Els) && o.Wit == nil {
		f(st, &Ptr{Obj: id, Path: "[" + strconv.Itoa(int(n)) + "]"})
		return one(st)
	}
	if k := st.mon["K"]; k != nil && o.Wit != nil {
		var outs []Outcome
		st.mon["~keep"] = idx
		for _, w := range e.branch(st, mkEq(idx, k)) {
			ix := w.st.mon["~keep"]
			delete(w.st.mon, "~keep")
			if w.r {
				f(w.st, &Ptr{Obj: id, Path: "[K]"})
				outs = append(outs, Outcome{st: w.st})
				continue
			}
			outs = append(outs, e.otherElem(w.st, w.st.obj(id).Id, ix, et, f)...)
		}
		return outs
	}
	if n, ok := constInt(idx); ok && !o.Rest && (n < 0 || int(n) >= len(o.Els)) {
		return []Outcome{{st: st, panic: "index out of range"}}
	}
	lid := o.Id
	if lid == nil {
		lid = &Sym{Name: "list:" + id, Rigid: true}
	}
	return e.otherElem(st, lid, idx, et, f)
}

func (e *Engine) otherElem(st *State, lid, idx Val, et types.Type, f func(*State, *Ptr)) []Outcome {
	if lid == nil {
		lid = e.fresh(nil, "list")
	}
	el := &App{Op: "elem", Args: []Val{lid, idx}, Typ: et}
	id := "@cell:" + el.Key()
	if st.obj(id) == nil {
		st.mem[id] = &Obj{owner: st, Kind: cellObj, Typ: et, Val: st.normDeep(expand(el, et)), Attrs: map[string]Val{"other": boolV(true)}}
	}
	f(st, &Ptr{Obj: id})
	return one(st)
}

func isOther(v Val) bool { return strings.Contains(v.Key(), "elem(") }

func (e *Engine) indexAddr(st *State, x *ssa.IndexAddr) []Outcome {
	v := e.get(st, x.X)
	idx := e.get(st, x.Index)
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		_ = p
		return e.withPtr(st, v, x.X.Type(), x, func(s *State, p *Ptr) {
			if n, ok := constInt(idx); ok {
				e.set(s, x, &Ptr{Obj: p.Obj, Path: p.Path + "." + strconv.Itoa(int(n))})
				return
			}
			e.otherElem(s, &Sym{Name: p.Obj + p.Path, Rigid: true}, idx, elemType(x.X.Type()), func(s *State, q *Ptr) { e.set(s, x, q) })
		})
	}
	return e.elemPtr(st, v, idx, elemType(x.X.Type()), func(s *State, p *Ptr) { e.set(s, x, p) })
}

func (e *Engine) index(st *State, x *ssa.Index) []Outcome {
	v, idx := e.get(st, x.X), e.get(st, x.Index)
	if s, ok := v.(*Struct); ok {
		if n, ok := constInt(idx); ok && int(n) < len(s.Fs) && n >= 0 {
			e.set(st, x, s.Fs[n])
			return one(st)
		}
	}
	if s, ok := constStr(v); ok {
		if n, ok := constInt(idx); ok && int(n) < len(s) && n >= 0 {
			e.set(st, x, typedConst(x.Type(), constant.MakeInt64(int64(s[n]))))
			return one(st)
		}
	}
	e.set(st, x, st.pure("index", x.Type(), v, idx))
	return one(st)
}

func (e *Engine) slice(st *State, x *ssa.Slice) []Outcome {
	v := e.get(st, x.X)
	bound := func(b ssa.Value) (int, bool, Val) {
		if b == nil {
			return -1, true, nil
		}
		y := e.get(st, b)
		n, ok := constInt(y)
		return int(n), ok, y
	}
	lo, ok1, lov := bound(x.Low)
	hi, ok2, hiv := bound(x.High)
	max, ok3, _ := bound(x.Max)
	if lo < 0 && ok1 {
		lo = 0
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		if hi < 0 {
			hi = int(arr.Len())
		}
		p, isP := v.(*Ptr)
		if isP && ok1 && ok2 {
			e.set(st, x, &SliceV{Obj: p.Obj, Path: p.Path, Lo: lo, Hi: hi, Concrete: true})
			return one(st)
		}
		e.set(st, x, e.fresh(x.Type(), "slice"))
		return one(st)
	case *types.Basic:
		if s, ok := constStr(v); ok && ok1 && ok2 {
			if hi < 0 {
				hi = len(s)
			}
			if lo <= hi && hi <= len(s) {
				e.set(st, x, mkStr(s[lo:hi]))
				return one(st)
			}
		}
		if lov == nil {
			lov = mkInt(0)
		}
		if r := substr(v, lov, hiv); r != nil {
			e.set(st, x, r)
			return one(st)
		}
		if hiv == nil {
			hiv = st.mk("strlen", types.Typ[types.Int], v)
		}
		e.set(st, x, st.mk("substr", x.Type(), v, lov, hiv))
		return one(st)
	}
	if isNilV(v) {
		e.set(st, x, nilV)
		return one(st)
	}
	if s, ok := v.(*SliceV); ok && s.Concrete && ok1 && ok2 {
		if hi < 0 {
			hi = s.Hi - s.Lo
		}
		if e.strict && lo > hi {
			return []Outcome{{st: st, panic: "slice bounds out of range"}}
		}
		if e.strict && hi > s.Hi-s.Lo && (s.Clipped || s.Lo+hi > extent(st, s)) {
			e.failf("a slice is extended")
		}
		clipped := s.Clipped && hi == s.Hi-s.Lo || x.Max != nil && ok3 && max == hi
		e.set(st, x, &SliceV{Obj: s.Obj, Path: s.Path, Lo: s.Lo + lo, Hi: s.Lo + hi, Concrete: true, Clipped: clipped})
		return one(st)
	}
	id := e.listID(st, v, elemType(x.X.Type()))
	o := st.obj(id)
	whole := lo == 0 && ok1 && (x.High == nil || hiv != nil && hiv.Key() == o.Len.Key())
	if whole {
		clipped := x.Max != nil
		if clipped && ok3 {
			clipped = true
		}
		e.set(st, x, &SliceV{Obj: id, Clipped: clipped})
		return one(st)
	}
	n := &Obj{Kind: listObj, Typ: o.Typ, Attrs: map[string]Val{}}
	for k, v := range o.Attrs {
		n.Attrs[k] = v
	}
	switch {
	case ok1 && ok2 && hi >= 0 && hi <= len(o.Els):
		n.Els = append([]Val{}, o.Els[lo:hi]...)
		n.Len = mkInt(int64(hi - lo))
	case ok1 && x.High == nil && lo <= len(o.Els):
		n.Els = append([]Val{}, o.Els[lo:]...)
		n.Len = st.norm(mkAdd(o.Len, -int64(lo), types.Typ[types.Int]))
		n.Rest = o.Rest
		n.Id = e.fresh(nil, "sub")
	default:
		n.Rest = true
		n.Len = e.fresh(types.Typ[types.Int], "sublen")
		st.assume(&App{Op: "lt", Args: []Val{n.Len, mkInt(0)}, Typ: types.Typ[types.Bool]}, false)
		n.Id = e.fresh(nil, "sub")
	}
	e.set(st, x, &SliceV{Obj: st.newObj(n)})
	return one(st)
}

// extent gives the known end of the array the slice is of.
func extent(st *State, s *SliceV) int {
	if o := st.obj(s.Obj); o != nil && s.Path == "" && o.Typ != nil {
		if a, ok := o.Typ.Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	return s.Hi
}

// asList gives a new list object of the slice's elements.
func (e *Engine) asList(st *State, v Val, et types.Type) *Obj {
	switch x := v.(type) {
	case NilV:
		return &Obj{Kind: listObj, Typ: et, Len: mkInt(0), Attrs: map[string]Val{}}
	case *SliceV:
		if x.Concrete {
			o := &Obj{Kind: listObj, Typ: et, Len: mkInt(int64(x.Hi - x.Lo)), Attrs: map[string]Val{}}
			for i := x.Lo; i < x.Hi; i++ {
				o.Els = append(o.Els, e.load(st, &Ptr{Obj: x.Obj, Path: x.Path + "." + strconv.Itoa(i)}, et, nil))
			}
			return o
		}
	}
	id := e.listID(st, v, et)
	if id == "" {
		e.failf("not a slice: %s", v.Key())
	}
	src := st.obj(id)
	n := *src
	n.owner = nil
	n.Els = append([]Val{}, src.Els...)
	n.Attrs = map[string]Val{}
	return &n
}

func (e *Engine) appendTo(st *State, s, t Val, et types.Type, site ssa.Instruction) []Outcome {
	if sv, ok := s.(*SliceV); ok && !sv.Clipped && e.onApp != nil {
		e.onApp(e, st, sv.Obj, site)
	} else if e.onApp != nil {
		switch s.(type) {
		case *Sym, *App:
			e.onApp(e, st, e.listID(st, s, et), site)
		}
	}
	dst := e.asList(st, s, et)
	src := e.asList(st, t, et)
	if e.strict && !dst.Rest && !src.Rest && e.onPush == nil {
		if isNilV(s) && len(src.Els) == 0 {
			return []Outcome{{st: st, ret: s}}
		}
		if len(dst.Els)+len(src.Els) > 2000 {
			e.endless("list grows without bound")
		}
		if d, ok := s.(*SliceV); ok && d.Concrete && !d.Clipped && d.Hi+len(src.Els) <= extent(st, d) {
			for i, v := range src.Els {
				e.store(st, &Ptr{Obj: d.Obj, Path: d.Path + "." + strconv.Itoa(d.Hi+i)}, v, site)
			}
			return []Outcome{{st: st, ret: &SliceV{Obj: d.Obj, Path: d.Path, Lo: d.Lo, Hi: d.Hi + len(src.Els), Concrete: true}}}
		}
		return []Outcome{{st: st, ret: concreteSlice(st, et, append(append([]Val{}, dst.Els...), src.Els...))}}
	}
	if n, ok := constInt(dst.Len); ok && n == 0 && !dst.Rest {
		id := st.newObj(src)
		r := &SliceV{Obj: id}
		if src.Rest || len(src.Els) == 0 {
			return []Outcome{{st: st, ret: r}}
		}
		// Fall through to push the elements one by one, for the witness's sake.
	}
	if src.Rest {
		if n, ok := constInt(src.Len); ok && n == 0 {
			return []Outcome{{st: st, ret: &SliceV{Obj: st.newObj(dst)}}}
		}
		n := &Obj{Kind: listObj, Typ: et, Rest: true, Attrs: map[string]Val{}, Els: dst.Els}
		if dst.Rest && len(dst.Els) > 0 {
			n.Els = dst.Els
		}
		n.Id = e.fresh(nil, "cat")
		n.Len = st.mk("catlen", types.Typ[types.Int], dst.Len, src.Len)
		st.assume(&App{Op: "lt", Args: []Val{n.Len, dst.Len}, Typ: types.Typ[types.Bool]}, false)
		st.assume(&App{Op: "lt", Args: []Val{n.Len, src.Len}, Typ: types.Typ[types.Bool]}, false)
		n.Wit = dst.Wit
		return []Outcome{{st: st, ret: &SliceV{Obj: st.newObj(n)}}}
	}
	id := st.newObj(dst)
	sid := st.newObj(src)
	worlds := []*State{st}
	for i := range src.Els {
		var next []*State
		for _, w := range worlds {
			o := w.wobj(id)
			el := w.obj(sid).Els[i]
			old := o.Len
			if o.Rest {
				if e.onPush != nil {
					e.onPush(e, w, id, el, site)
				}
			} else {
				o.Els = append(o.Els, el)
				if len(o.Els) > 2000 {
					e.endless("list grows without bound")
				}
			}
			if k := w.mon["K"]; k != nil {
				if r, ok := w.decideEq(old, k); ok && r {
					o.Wit = el
					if o.Id == nil {
						o.Id = e.fresh(nil, "list")
					}
				}
			}
			o.Len = w.mk("add", types.Typ[types.Int], old, mkInt(1))
			w.mon["~keep"] = o.Len
			for _, out := range e.splitAt(w, old, o.Len) {
				delete(out.st.mon, "~keep")
				next = append(next, out.st)
			}
		}
		worlds = next
	}
	var outs []Outcome
	for _, w := range worlds {
		delete(w.mem, sid)
		outs = append(outs, Outcome{st: w, ret: &SliceV{Obj: id}})
	}
	return outs
}

func (e *Engine) builtin(st *State, name string, args []Val, site ssa.Instruction, sig *types.Signature, call *ssa.Call) []Outcome {
	argType := func(i int) types.Type {
		switch x := site.(type) {
		case *ssa.Call:
			return x.Call.Args[i].Type()
		case *ssa.Defer:
			return x.Call.Args[i].Type()
		}
		return nil
	}
	ret := func(v Val) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch name {
	case "len":
		return ret(e.length(st, args[0], argType(0)))
	case "cap":
		return ret(e.fresh(types.Typ[types.Int], "cap"))
	case "append":
		if len(args) == 1 {
			return ret(args[0])
		}
		et := elemType(argType(0))
		if b, ok := argType(1).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ret(e.fresh(argType(0), "bytes"))
		}
		return e.appendTo(st, args[0], args[1], et, site)
	case "copy":
		if b, ok := argType(1).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ret(e.fresh(types.Typ[types.Int], "n"))
		}
		et := elemType(argType(0))
		n := e.length(st, args[0], argType(0))
		m := e.length(st, args[1], argType(1))
		if isNilV(args[0]) {
			return ret(mkInt(0))
		}
		if d, ok := args[0].(*SliceV); ok && d.Concrete {
			src := e.asList(st, args[1], et)
			if src.Rest {
				if e.strict {
					e.failf("copy of an unknown slice")
				}
				return ret(m)
			}
			k := min(d.Hi-d.Lo, len(src.Els))
			for i := 0; i < k; i++ {
				e.store(st, &Ptr{Obj: d.Obj, Path: d.Path + "." + strconv.Itoa(d.Lo+i)}, src.Els[i], site)
			}
			return ret(mkInt(int64(k)))
		}
		if d, ok := args[0].(*SliceV); ok && !d.Concrete {
			src := e.asList(st, args[1], et)
			w := st.wobj(d.Obj)
			if e.onApp != nil {
				e.onApp(e, st, d.Obj, site)
			}
			if r, ok := st.decideEq(n, m); ok && r {
				w.Els, w.Rest, w.Wit, w.Id = src.Els, src.Rest, src.Wit, src.Id
			} else {
				w.Els, w.Rest, w.Id = nil, true, e.fresh(nil, "copied")
			}
		}
		if r, ok := st.decideLt(n, m); ok && r {
			return ret(n)
		}
		return ret(m)
	case "delete":
		id := e.mapID(st, args[0], argType(0))
		if id != "" {
			if e.onMap != nil {
				e.onMap(e, st, id, "delete", args[1], nil, site)
			}
			if e.unroll {
				return e.mapSetApart(st, id, args[1], nil, false)
			}
			e.mapSet(st, id, args[1], nil, false)
		}
		return ret(&Tuple{})
	case "clear":
		if mapOf(argType(0)) != nil {
			if id := e.mapID(st, args[0], argType(0)); id != "" {
				if e.onMap != nil {
					e.onMap(e, st, id, "clear", nil, nil, site)
				}
				o := st.wobj(id)
				o.Base, o.Ents = nil, nil
			}
			return ret(&Tuple{})
		}
		if et := elemType(argType(0)); et != nil {
			switch s := args[0].(type) {
			case *SliceV:
				if s.Concrete {
					for i := s.Lo; i < s.Hi; i++ {
						e.store(st, &Ptr{Obj: s.Obj, Path: s.Path + "." + strconv.Itoa(i)}, zeroVal(et), site)
					}
					break
				}
				o := st.wobj(s.Obj)
				els := make([]Val, len(o.Els))
				for i := range els {
					els[i] = zeroVal(et)
				}
				o.Els = els
				if o.Rest {
					o.Wit, o.Id = nil, e.fresh(nil, "cleared")
				}
			case *Sym, *App:
				if e.strict {
					e.failf("an unknown slice is cleared")
				}
			}
		}
		return ret(&Tuple{})
	case "min", "max":
		if len(args) == 2 {
			return ret(st.mk(name, argType(0), args...))
		}
		return ret(e.fresh(argType(0), name))
	case "print", "println":
		return ret(&Tuple{})
	case "recover":
		return ret(nilV)
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "close":
		return ret(&Tuple{})
	}
	var rt types.Type
	if sig != nil && sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	e.unknown["builtin:"+name]++
	return ret(e.fresh(rt, name))
}
