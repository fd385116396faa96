package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// This file models the balanced trees and the pull iterators, for the analyses of the index package.

const ixPkg = "internal/index"

// Elem is an arbitrary stored datum presented to a scan.
type Elem struct {
	st    *State
	d     *Struct // the typed datum
	match bool
	want  Val // the datum the scan should give for it, nil if any
}

// IxCtx is what an analysis of the index package observes and supplies.
type IxCtx struct {
	r    *Report
	e    *Engine
	rule string
	subj string
	nth  int // trees made
	// counting tells that the items are counted, which the suspension of sequences keeps no track of.
	counting bool
	// stops is told of items given to a consumer which has stopped, instead of r.
	stops *Report
	// elems gives arbitrary datums a scan of the tree meets, in worlds of their own.
	elems func(st *State, tree string, pivot *Struct) []Elem
	// ascend is told of each scan.
	ascend func(st *State, tree string, pivot, upper *Struct, c *CallCtx)
	// op is told of each point operation: Has, Get, Delete, ReplaceOrInsert.
	op func(st *State, op, tree string, d *Struct, c *CallCtx) ([]Outcome, bool)
	// after is told of what became of an item of a scan.
	after func(st *State, matched, seen, stopped bool)
	// item is told of what became of an item of an opaque sequence.
	item func(st *State, seq string, seen bool)
	// yield is told of what is yielded to the consumer.
	yield func(st *State, v Val, c *CallCtx)
	// capture is told of what is yielded to a pull iterator.
	capture func(st *State, pull string, v Val, c *CallCtx)
}

const btreePkg = "github.com/google/btree"

func btreeName(m string) string { return "(*" + btreePkg + ".BTreeG[T])." + m }

var yieldSym = &Sym{Name: "yield", Rigid: true}

// install registers the models with the engine.
func (x *IxCtx) install() {
	e := x.e
	m := e.models
	m[btreePkg+".NewG"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		x.nth++
		nth := x.nth
		id := st.newObj(&Obj{Kind: cellObj, Typ: c.Sig.Results().At(0).Type().(*types.Pointer).Elem(), Val: &Sym{Name: fmt.Sprintf("tree%d", nth), Rigid: true}, Attrs: map[string]Val{"tree": mkStr(fmt.Sprintf("tree%d", nth)), "less": c.Args[1], "gen": mkInt(0)}})
		return ret(st, &Ptr{Obj: id}), true
	}
	ngen := 0
	m[btreeName("Clone")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t := x.tree(st, c.Args[0])
		o := st.obj(t)
		at := map[string]Val{}
		for k, v := range o.Attrs {
			at[k] = v
		}
		ngen++
		at["gen"] = mkInt(int64(ngen))
		at["cloneOf"] = &Ptr{Obj: t}
		id := st.newObj(&Obj{Kind: cellObj, Typ: o.Typ, Val: o.Val, Attrs: at})
		return ret(st, &Ptr{Obj: id}), true
	}
	for _, op := range []string{"Has", "Get", "Delete", "ReplaceOrInsert"} {
		op := op
		m[btreeName(op)] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			t := x.tree(st, c.Args[0])
			d, ok := c.Args[1].(*Struct)
			if !ok {
				e.failf("%s of an unknown datum", op)
			}
			if x.op != nil {
				if outs, ok := x.op(st, op, t, d, c); ok {
					return outs, true
				}
			}
			return ret(st, e.freshResults(c.Sig, "tree")), true
		}
	}
	scan := func(pivot, upper, iter int) Model {
		return func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			t := x.tree(st, c.Args[0])
			var p, u *Struct
			if pivot > 0 {
				p, _ = c.Args[pivot].(*Struct)
			}
			if upper > 0 {
				u, _ = c.Args[upper].(*Struct)
			}
			if x.ascend != nil {
				x.ascend(st, t, p, u, c)
			}
			return x.scan(st, t, p, c.Args[iter], c), true
		}
	}
	m[btreeName("AscendGreaterOrEqual")] = scan(1, 0, 2)
	m[btreeName("AscendRange")] = scan(1, 2, 3)
	m[btreeName("AscendLessThan")] = scan(0, 1, 2)
	m[btreeName("Ascend")] = scan(0, 0, 1)
	m["iter.Pull"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		if x.counting {
			e.failf("the items of suspended sequences are counted")
		}
		et := types.Type(nil)
		if tu, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Signature); ok {
			et = tu.Results().At(0).Type()
		}
		id := st.newObj(&Obj{Kind: cellObj, Typ: et, Val: nilV, Attrs: map[string]Val{"pull": c.Args[0], "head": nilV, "pending": boolV(false), "done": boolV(false), "stopped": boolV(false)}})
		p := &Ptr{Obj: id}
		x.track(st, "pull", p)
		return ret(st, &Tuple{Vs: []Val{&App{Op: "pullnext", Args: []Val{p}}, &App{Op: "pullstop", Args: []Val{p}}}}), true
	}
	m["value"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		if c.Recv.Key() == yieldSym.Key() {
			return x.yielded(st, c), true
		}
		if s, ok := c.Recv.(*Sym); ok && strings.HasPrefix(s.Name, "seq:") {
			return x.opaqueSeq(st, s, c), true
		}
		a, ok := c.Recv.(*App)
		if !ok {
			return nil, false
		}
		switch a.Op {
		case "pullnext":
			return x.pullNext(st, a.Args[0].(*Ptr), c), true
		case "pullstop":
			id := a.Args[0].(*Ptr).Obj
			st.setAttr(id, "stopped", boolV(true))
			return ret(st, &Tuple{}), true
		case "capture":
			id := a.Args[0].(*Ptr).Obj
			if x.capture != nil {
				x.capture(st, id, c.Args[0], c)
			}
			st.setAttr(id, "head", c.Args[0])
			st.mon["stop"] = boolV(true)
			return ret(st, boolV(false)), true
		}
		return nil, false
	}
}

// track remembers the object under the kind.
func (x *IxCtx) track(st *State, kind string, p Val) {
	for i := 0; ; i++ {
		k := fmt.Sprintf("%s%d", kind, i)
		if st.mon[k] == nil {
			st.mon[k] = p
			return
		}
	}
}

func tracked(st *State, kind string) []string {
	var out []string
	for i := 0; ; i++ {
		v := st.mon[fmt.Sprintf("%s%d", kind, i)]
		if v == nil {
			return out
		}
		out = append(out, v.(*Ptr).Obj)
	}
}

func (x *IxCtx) tree(st *State, v Val) string {
	p, ok := v.(*Ptr)
	if !ok || st.obj(p.Obj) == nil || st.obj(p.Obj).attr("tree") == nil {
		x.e.failf("not a known tree: %s", shortKey(v))
	}
	return p.Obj
}

// treeName is the tree's name, which its clones share.
func treeName(st *State, id string) string {
	s, _ := constStr(st.obj(id).attr("tree"))
	return s
}

func (x *IxCtx) yielded(st *State, c *CallCtx) []Outcome {
	if b, ok := constBool(orFalse(st.mon["consumerStopped"])); ok && b {
		rp := x.r
		if x.stops != nil {
			rp = x.stops
		}
		rp.check(false, x.rule, x.subj+": yield after stop", x.e.p.pos(instrPos(c.Site)), "the consumer is given an item after it has stopped")
	}
	if x.yield != nil {
		x.yield(st, c.Args[0], c)
	}
	y := st.clone()
	st.mon["stop"] = boolV(true)
	st.mon["consumerStopped"] = boolV(true)
	return []Outcome{{st: y, ret: boolV(true)}, {st: st, ret: boolV(false)}}
}

func orFalse(v Val) Val {
	if v == nil {
		return boolV(false)
	}
	return v
}

// pullNext advances the pull iterator: the first item its sequence yields stands for any item of it.
func (x *IxCtx) pullNext(st *State, p *Ptr, c *CallCtx) []Outcome {
	o := st.obj(p.Obj)
	if b, _ := constBool(o.attr("pending")); b {
		x.r.check(false, x.rule, x.subj+": item skipped", x.e.p.pos(instrPos(c.Site)), "an item drawn from a sequence is dropped without being yielded")
	}
	exhausted := func(s *State) Outcome {
		s.setAttr(p.Obj, "done", boolV(true))
		s.setAttr(p.Obj, "pending", boolV(false))
		s.setAttr(p.Obj, "head", nilV)
		return Outcome{st: s, ret: &Tuple{Vs: []Val{zeroVal(o.Typ), boolV(false)}}}
	}
	d, _ := constBool(o.attr("done"))
	s, _ := constBool(o.attr("stopped"))
	if d || s {
		return []Outcome{exhausted(st)}
	}
	st.setAttr(p.Obj, "head", nilV)
	save := st.mon["stop"]
	var outs []Outcome
	for _, w := range x.e.callValue(st, o.attr("pull"), []Val{&App{Op: "capture", Args: []Val{p}}}, c.Site, c.Sig, nil) {
		if w.panic != "" {
			outs = append(outs, w)
			continue
		}
		if save == nil {
			delete(w.st.mon, "stop")
		} else {
			w.st.mon["stop"] = save
		}
		h := w.st.obj(p.Obj).attr("head")
		if isNilV(h) {
			outs = append(outs, exhausted(w.st))
			continue
		}
		w.st.setAttr(p.Obj, "pending", boolV(true))
		outs = append(outs, Outcome{st: w.st, ret: &Tuple{Vs: []Val{h, boolV(true)}}})
	}
	return outs
}

// opaqueSeq yields any number of arbitrary items.
func (x *IxCtx) opaqueSeq(st *State, s *Sym, c *CallCtx) []Outcome {
	return x.e.loop(st, []Val{c.Args[0]}, func(w *State, vars []Val) (cont, stop []Outcome) {
		sig := s.Typ.Underlying().(*types.Signature).Params().At(0).Type().Underlying().(*types.Signature)
		el := x.e.fresh(sig.Params().At(0).Type(), "item")
		w.mon["seqitem"] = el
		w.mon["seqname"] = mkStr(s.Name)
		w.mon["itemSeen"] = boolV(false)
		for _, o := range x.e.callValue(w, vars[0], []Val{el}, c.Site, sig, nil) {
			if o.panic != "" {
				stop = append(stop, o)
				continue
			}
			if x.item != nil {
				seen, _ := constBool(orFalse(o.st.mon["itemSeen"]))
				x.item(o.st, s.Name, seen)
			}
			delete(o.st.mon, "seqitem")
			delete(o.st.mon, "seqname")
			delete(o.st.mon, "itemSeen")
			for _, b := range x.e.branch(o.st, o.ret) {
				if b.r {
					cont = append(cont, Outcome{st: b.st})
				} else {
					stop = append(stop, Outcome{st: b.st, ret: &Tuple{}})
				}
			}
		}
		return
	}, &Tuple{})
}

// loop interprets a body any number of times, to a fixpoint. The values given are kept up to date for the body.
func (e *Engine) loop(st *State, vars []Val, body func(st *State, vars []Val) (cont, stop []Outcome), result Val) []Outcome {
	e.nloop++
	tag := fmt.Sprintf("~loop%d.", len(e.loopStack))
	e.loopStack = append(e.loopStack, tag)
	defer func() { e.loopStack = e.loopStack[:len(e.loopStack)-1] }()
	for i, v := range vars {
		st.mon[fmt.Sprintf("%s%d", tag, i)] = v
	}
	groups := map[string]*group{}
	pending := []*State{st}
	var ends []Outcome
	// The accumulated worlds of every group leave when the fixpoint is reached.
	for len(pending) > 0 {
		s := pending[0]
		pending = pending[1:]
		text, p := s.print(true)
		s.gc(p)
		full, _ := s.print(false)
		g := groups[text]
		run := s
		if g == nil {
			if len(groups) > 200 {
				e.failf("too many kinds of worlds in a modelled loop")
			}
			groups[text] = &group{acc: s.clone(), text: full}
		} else {
			if full == g.text {
				continue
			}
			j := join(g.acc, s)
			if j == nil {
				k := "!" + full
				if groups[k] != nil {
					continue
				}
				if len(groups) > 200 {
					e.failf("too many unmergeable worlds in a modelled loop")
				}
				groups[k] = &group{acc: s.clone(), text: full}
			} else {
				jt, jp := j.print(false)
				j.gc(jp)
				if jt == g.text {
					continue
				}
				g.n++
				if g.n > 60 {
					e.failf("no fixpoint in a modelled loop")
				}
				g.acc, g.text = j.clone(), jt
				run = j
			}
		}
		b := run.clone()
		vs := make([]Val, len(vars))
		for i := range vars {
			vs[i] = b.mon[fmt.Sprintf("%s%d", tag, i)]
		}
		cont, stop := body(b, vs)
		for _, o := range cont {
			pending = append(pending, o.st)
		}
		for _, o := range stop {
			for i := range vars {
				delete(o.st.mon, fmt.Sprintf("%s%d", tag, i))
			}
			ends = append(ends, o)
		}
	}
	for _, k := range sortedKeys(groups) {
		s := groups[k].acc.clone()
		for i := range vars {
			delete(s.mon, fmt.Sprintf("%s%d", tag, i))
		}
		ends = append(ends, Outcome{st: s, ret: result})
	}
	// Worlds which are the same go on as one.
	seen := map[string]bool{}
	var out []Outcome
	for _, o := range ends {
		t, _ := o.st.print(false)
		k := t + "|" + o.panic
		if o.ret != nil {
			k += o.ret.Key()
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, o)
	}
	return out
}

// scan presents arbitrary datums to the iterator: those which match, then those which do not.
func (x *IxCtx) scan(st *State, tree string, pivot *Struct, iter Val, c *CallCtx) []Outcome {
	delete(st.mon, "stop")
	st.mon["past"] = boolV(false)
	vars := []Val{iter, &Ptr{Obj: tree}}
	if pivot != nil {
		vars = append(vars, pivot)
	}
	outs := x.e.loop(st, vars, func(w *State, vars []Val) (cont, stop []Outcome) {
		var pv *Struct
		if len(vars) > 2 {
			pv = vars[2].(*Struct)
		}
		for _, el := range x.elems(w, vars[1].(*Ptr).Obj, pv) {
			s := el.st
			if past, _ := constBool(s.mon["past"]); past && el.match {
				continue
			}
			s.mon["past"] = boolV(!el.match)
			s.mon["cur"] = el.d
			s.mon["curMatch"] = boolV(el.match)
			s.mon["curSeen"] = boolV(false)
			if el.want != nil {
				s.mon["want"] = el.want
			} else {
				delete(s.mon, "want")
			}
			if el.match {
				if n := s.mon["n"]; n != nil {
					s.mon["n"] = s.mk("add", types.Typ[types.Int], n, mkInt(1))
				}
				if f := s.mon["first"]; f != nil && isNilV(f) && el.want != nil {
					s.mon["first"] = el.want
				}
			}
			for _, o := range x.e.callValue(s, s.mon[x.e.loopTag()+"0"], []Val{s.mon["cur"]}, c.Site, c.Sig, nil) {
				if o.panic != "" {
					stop = append(stop, o)
					continue
				}
				for _, b := range x.e.branch(o.st, o.ret) {
					t := b.st
					matched, _ := constBool(t.mon["curMatch"])
					stopped, _ := constBool(orFalse(t.mon["stop"]))
					seen, _ := constBool(orFalse(t.mon["curSeen"]))
					if x.after != nil {
						x.after(t, matched, seen, stopped)
					}
					for _, k := range []string{"cur", "curMatch", "curSeen", "want"} {
						delete(t.mon, k)
					}
					if b.r {
						cont = append(cont, Outcome{st: t})
						continue
					}
					if matched && !stopped {
						t.mon["truncated"] = boolV(true)
					}
					stop = append(stop, Outcome{st: t, ret: &Tuple{}})
				}
			}
		}
		return
	}, &Tuple{})
	for _, o := range outs {
		delete(o.st.mon, "past")
	}
	return outs
}

func (e *Engine) loopTag() string { return e.loopStack[len(e.loopStack)-1] }

// Composite is an index made for an analysis.
type Composite struct {
	st    *State
	ptr   *Ptr
	iface *Iface
}

// attrTypesSym is the map of attribute types: Type(k) gives the type of the attribute k, 0 if none.
func attrTypesMap(e *Engine) Val {
	id := e.mustType(typesPkg, "ID")
	e.knownMaps["attrTypes"] = knownMap{
		get: func(st *State, key Val, t types.Type) Val { return st.mk("Type", id, key) },
		has: func(st *State, key Val, t types.Type) Val {
			return st.mk("not", types.Typ[types.Bool], st.mkEqV(st.mk("Type", id, key), &Const{Typ: id, V: constant.MakeInt64(0)}))
		},
	}
	return &Sym{Name: "attrTypes", Typ: types.NewMap(id, id), Rigid: true}
}

// newComposite makes a composite index of the type, by interpreting its constructor.
func (x *IxCtx) newComposite(st *State, indexType Val) *Composite {
	e := x.e
	fn := e.mustFn(ixPkg, "NewCompositeIndex")
	x.nth = 0
	outs := e.invoke(st, &FuncV{Fn: fn}, &Sym{Name: "degree", Typ: types.Typ[types.Int], Rigid: true}, indexType, attrTypesMap(e))
	if len(outs) != 1 || outs[0].panic != "" {
		e.failf("the constructor of composite indexes is not straightforward")
	}
	v := outs[0].ret
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		e.failf("the constructor of composite indexes gives %s", shortKey(v))
	}
	return &Composite{st: outs[0].st, ptr: p}
}

// method calls the method of the index.
func (x *IxCtx) method(st *State, recv Val, name string, args ...Val) []Outcome {
	e := x.e
	t := types.NewPointer(e.mustType(ixPkg, "CompositeIndex"))
	m := e.p.method(t, name)
	if m == nil {
		e.failf("composite indexes have no method %s", name)
	}
	if i, ok := recv.(*Iface); ok {
		recv = i.V
	}
	return e.invoke(st, &FuncV{Fn: m}, append([]Val{recv}, args...)...)
}
