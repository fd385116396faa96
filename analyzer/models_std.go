package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
)

func ret(st *State, v Val) []Outcome { return []Outcome{{st: st, ret: v}} }

func stdModels(e *Engine) {
	m := e.models
	m["cmp.Compare"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		a, b := c.Args[0], c.Args[1]
		it := types.Typ[types.Int]
		// An order total on every value: cmpeq is equality in that order, which NaN satisfies.
		eq := cmpEq(st, a, b)
		var outs []Outcome
		for _, w := range e.branch(st, eq) {
			if w.r {
				outs = append(outs, Outcome{st: w.st, ret: mkInt(0)})
				continue
			}
			for _, w2 := range e.branch(w.st, cmpLt(w.st, a, b)) {
				if w2.r {
					outs = append(outs, Outcome{st: w2.st, ret: typedNeg1(it)})
				} else {
					outs = append(outs, Outcome{st: w2.st, ret: mkInt(1)})
				}
			}
		}
		return outs, true
	}
	m["cmp.Less"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return ret(st, cmpLt(st, c.Args[0], c.Args[1])), true
	}
	m["slices.Clip"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		switch x := c.Args[0].(type) {
		case *SliceV:
			n := *x
			n.Clipped = true
			return ret(st, &n), true
		case *Sym, *App:
			return ret(st, &SliceV{Obj: e.listID(st, x, elemType(c.Sig.Params().At(0).Type())), Clipped: true}), true
		}
		return ret(st, c.Args[0]), true
	}
	m["slices.Clone"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		if isNilV(c.Args[0]) {
			return ret(st, nilV), true
		}
		return ret(st, &SliceV{Obj: st.newObj(e.asList(st, c.Args[0], elemType(c.Sig.Params().At(0).Type())))}), true
	}
	m["slices.Grow"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		if isNilV(c.Args[0]) {
			return ret(st, nilV), true
		}
		return ret(st, &SliceV{Obj: st.newObj(e.asList(st, c.Args[0], elemType(c.Sig.Params().At(0).Type())))}), true
	}
	m["maps.Clone"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t := c.Sig.Params().At(0).Type()
		id := e.mapID(st, c.Args[0], t)
		if id == "" {
			return ret(st, nilV), true
		}
		if e.onMap != nil {
			e.onMap(e, st, id, "range", nil, nil, c.Site)
		}
		src := st.obj(id)
		n := &Obj{Kind: mapObj, Typ: t, Base: src.Base, Ents: append([]MapEnt{}, src.Ents...)}
		if r := src.attr("role"); r != nil {
			n.Attrs = map[string]Val{"role": r}
		}
		return ret(st, &Ptr{Obj: st.newObj(n)}), true
	}
	m["maps.Copy"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return e.mapCopy(st, c.Args[0], c.Args[1], c.Sig.Params().At(0).Type(), c.Site), true
	}
	m[modPath+"/internal/types.NewError"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		// What errors say is of no concern, only that they are: of pairs of a name and a value.
		if len(c.Args) == 2 {
			if l := e.asList(st, c.Args[1], types.NewInterfaceType(nil, nil)); !l.Rest {
				bad := len(l.Els)%2 != 0
				for i := 0; i < len(l.Els) && !bad; i += 2 {
					if k, ok := l.Els[i].(*Iface); ok && !types.Identical(k.Dyn, types.Typ[types.String]) {
						bad = true
					}
				}
				if bad {
					return []Outcome{{st: st, panic: "invalid error context"}}, true
				}
			}
		}
		return ret(st, e.fresh(c.Sig.Results().At(0).Type(), "err")), true
	}
	for _, n := range []string{"errors.New", "fmt.Errorf"} {
		m[n] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			pkg := e.p.prog.ImportedPackage("errors")
			if pkg == nil || pkg.Type("errorString") == nil {
				return nil, false
			}
			t := pkg.Type("errorString").Type()
			text := &Struct{Typ: t, Fs: []Val{e.fresh(types.Typ[types.String], "text")}}
			id := st.newObj(&Obj{Kind: cellObj, Typ: t, Val: text})
			return ret(st, &Iface{Dyn: types.NewPointer(t), V: &Ptr{Obj: id}}), true
		}
	}
	m["reflect.TypeFor"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		if c.Fn != nil && len(c.Fn.TypeArgs()) == 1 {
			return ret(st, rtypeOf(c.Fn.TypeArgs()[0])), true
		}
		return nil, false
	}
	m["(*sync.WaitGroup).Go"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return e.callValue(st, c.Args[1], nil, c.Site, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil), true
	}
	nop := func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) { return ret(st, &Tuple{}), true }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		m[n] = nop
	}
}

// mapCopy copies every entry of the source to the destination.
func (e *Engine) mapCopy(st *State, dst, from Val, t types.Type, site ssa.Instruction) []Outcome {
	did := e.mapID(st, dst, t)
	sid := e.mapID(st, from, t)
	if sid == "" {
		return ret(st, &Tuple{})
	}
	if did == "" {
		return []Outcome{{st: st, panic: "assignment to nil map"}}
	}
	if e.onMap != nil {
		e.onMap(e, st, sid, "range", nil, nil, site)
		e.onMap(e, st, did, "set", nil, nil, site)
	}
	src := st.obj(sid)
	if src.Base == nil {
		for _, en := range src.Ents {
			if en.Present {
				e.mapSet(st, did, en.Key, en.Val, true)
			}
		}
		return ret(st, &Tuple{})
	}
	d := st.wobj(did)
	if d.Base == nil && len(d.Ents) == 0 {
		d.Base = src.Base
		d.Ents = append([]MapEnt{}, src.Ents...)
		if r := src.attr("role"); r != nil {
			if d.Attrs == nil {
				d.Attrs = map[string]Val{}
			}
			if d.Attrs["role"] == nil {
				d.Attrs["role"] = r
			}
		}
		return ret(st, &Tuple{})
	}
	// The source's unknown entries, then its known ones.
	d.Ents = append(d.Ents, MapEnt{Key: e.fresh(nil, "anykey"), Val: e.fresh(nil, "anyval"), Present: true, Many: true})
	for _, en := range src.Ents {
		if en.Present && !en.Many {
			e.mapSet(st, did, en.Key, en.Val, true)
		}
	}
	return ret(st, &Tuple{})
}

func typedNeg1(t types.Type) Val { return mkInt(-1) }

func cmpEq(st *State, a, b Val) Val {
	if isFloat(typeOf(a)) || isFloat(typeOf(b)) {
		if a.Key() == b.Key() {
			return boolV(true)
		}
		x, y := a, b
		if x.Key() > y.Key() {
			x, y = y, x
		}
		return st.mk("cmpeq", types.Typ[types.Bool], x, y)
	}
	return st.mkEqV(a, b)
}

func cmpLt(st *State, a, b Val) Val {
	if isFloat(typeOf(a)) || isFloat(typeOf(b)) {
		if a.Key() == b.Key() || isNaNApp(b) {
			return boolV(false)
		}
		return st.mk("cmplt", types.Typ[types.Bool], a, b)
	}
	return st.mk("lt", types.Typ[types.Bool], a, b)
}

// isNaNApp reports whether the value is the one which is not a number, which is ordered before all others.
func isNaNApp(v Val) bool {
	a, ok := v.(*App)
	return ok && a.Op == "math.NaN"
}
