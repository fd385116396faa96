package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The operations of indexes on the abstract database.

// viol records a violation seen in the midst of the interpretation.
type dbViol struct {
	props             []string
	rule, subj, where string
	what              string
}

func (x *DB) flag(props, rule, subj, where, what string) {
	k := rule + "|" + subj
	if x.flagged[k] {
		return
	}
	x.flagged[k] = true
	x.viols = append(x.viols, dbViol{strings.Fields(props), rule, subj, where, what})
}

func (x *DB) where(site ssa.Instruction) string {
	if site == nil {
		return dbPkg
	}
	return x.e.p.pos(instrPos(site)) + " in " + fnName(site.Parent())
}

// partialName names the partial by the constant's value: the fields it constrains.
func (x *DB) partialName(v Val) string {
	n, ok := constInt(v)
	if !ok {
		return ""
	}
	for _, p := range []string{"EA", "E", "AE", "A", "AV", "VA"} {
		c := x.e.constOf(ixPkg, p)
		if c == nil {
			continue
		}
		if m, ok := constInt(&Const{V: c}); ok && m == n {
			switch p {
			case "AE":
				return "EA"
			case "VA":
				return "AV"
			}
			return p
		}
	}
	return ""
}

var supportedBy = map[string]string{"eav": "E EA", "aev": "A EA", "ave": "A AV", "vae": "V AV"}

func (x *DB) onCall(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
	if c.Name == "value" {
		if a, ok := c.Recv.(*App); ok && a.Op == "dbseq" {
			return x.iterate(st, a, c), true
		}
		if y, ok := c.Recv.(*Sym); ok && st.mon["consumer"] != nil && y.Key() == st.mon["consumer"].Key() {
			return x.consume(st, c), true
		}
		return nil, false
	}
	if c.Fn == nil {
		return nil, false
	}
	if outs, ok := x.inductive(st, c); ok {
		return outs, true
	}
	if c.Fn.Pkg == nil || !strings.HasSuffix(c.Fn.Pkg.Pkg.Path(), ixPkg) {
		return nil, false
	}
	if c.Fn.Signature.Recv() == nil {
		if res := c.Sig.Results(); res.Len() == 1 && c.Fn.Name() == "NewCompositeIndex" {
			return ret(st, x.newIndex(st, c)), true
		}
		return nil, false
	}
	p, ok := c.Recv.(*Ptr)
	if !ok || st.obj(p.Obj) == nil || st.obj(p.Obj).attr("role") == nil {
		return nil, false
	}
	return x.indexOp(st, p, c), true
}

// lookupID gives the id to which the lookup ref within another resolves, which if any was issued.
func (x *DB) lookupID(st *State, ref Val) Val {
	id := st.mk("LookupID", x.tID, st.dn(ref))
	if n := st.mon["next"]; n != nil {
		st.assume(st.mk("lt", types.Typ[types.Bool], id, n), true)
	}
	return id
}

// inductive gives what a function which resolves lookup refs gives for the lookup ref within another: by induction
// on their depth, what the rules give. What it gives for the outer is checked, whatever the inner may be.
func (x *DB) inductive(st *State, c *CallCtx) ([]Outcome, bool) {
	tl := x.e.mustType(typesPkg, "LookupRef")
	arg := -1
	for i, p := range c.Fn.Params {
		if types.Identical(p.Type(), tl) {
			arg = i
		}
	}
	if arg < 0 || arg >= len(c.Args) || x.sh == nil {
		return nil, false
	}
	again := false
	for _, f := range st.frames {
		again = again || f.fn == c.Fn
	}
	if !again {
		return nil, false
	}
	res := c.Fn.Signature.Results()
	ok := res.Len() > 0 && res.Len() <= 2 && types.Identical(res.At(0).Type(), x.tID)
	if ok && res.Len() == 2 {
		b, isB := res.At(1).Type().Underlying().(*types.Basic)
		ok = isB && b.Info()&types.IsBoolean != 0
	}
	if !ok {
		return nil, false
	}
	id := x.lookupID(st, c.Args[arg])
	if res.Len() == 1 {
		return ret(st, id), true
	}
	return ret(st, &Tuple{Vs: []Val{id, st.mk("not", types.Typ[types.Bool], st.mkEqV(id, x.idc(0)))}}), true
}

func (x *DB) newIndex(st *State, c *CallCtx) Val {
	var role string
	var types1 Val
	for _, a := range c.Args {
		if r, ok := x.roles[a.Key()]; ok {
			role = r
		}
		if p, ok := a.(*Ptr); ok && st.obj(p.Obj) != nil && st.obj(p.Obj).Kind == mapObj {
			types1 = a
		}
	}
	if role == "" || types1 == nil {
		x.e.failf("an index of unknown type at %s", x.where(c.Site))
	}
	t := c.Sig.Results().At(0).Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	id := st.newObj(&Obj{Kind: cellObj, Typ: t, Attrs: map[string]Val{"role": mkStr(role), "log": &Tuple{}, "attrTypes": types1}})
	return &Ptr{Obj: id}
}

func (x *DB) indexOp(st *State, p *Ptr, c *CallCtx) []Outcome {
	e := x.e
	id := p.Obj
	role := x.role(st, id)
	done := func(st *State, v Val) []Outcome { return []Outcome{{st: st, ret: v}} }
	datum := func(i int) *Struct {
		d, ok := st.dn(c.Args[i]).(*Struct)
		if !ok {
			e.failf("an index operation on an unknown datum at %s", x.where(c.Site))
		}
		return d
	}
	used := true
	if call, ok := c.Site.(*ssa.Call); ok {
		refs := call.Referrers()
		used = refs == nil || len(*refs) > 0
	}
	switch name := c.Fn.Name(); name {
	case "Clone":
		o := st.obj(id)
		n := &Obj{Kind: cellObj, Typ: o.Typ, Attrs: map[string]Val{}}
		for k, v := range o.Attrs {
			n.Attrs[k] = v
		}
		cp := &Ptr{Obj: st.newObj(n)}
		var v Val = cp
		if isInterface(c.Sig.Results().At(0).Type()) {
			v = &Iface{Dyn: types.NewPointer(o.Typ), V: cp}
		}
		return done(st, v)
	case "SetAttrTypes":
		x.touch(st, id, c)
		st.setAttr(id, "attrTypes", c.Args[1])
		return done(st, &Tuple{})
	case "Insert", "Delete", "Find":
		d := datum(1)
		if x.boot {
			if name != "Insert" {
				e.failf("the constructor of databases does not only insert")
			}
			x.record(st, id, "ins", d)
			return done(st, boolV(false))
		}
		var outs []Outcome
		x.wellTyped(st, id, d, c, func(st *State, panics string) {
			if panics != "" {
				outs = append(outs, Outcome{st: st, panic: panics})
				return
			}
			d := x.nd(st, d)
			fin := func(st *State, r Val) {
				d := x.nd(st, d)
				switch name {
				case "Insert":
					x.touch(st, id, c)
					x.record(st, id, "ins", d)
				case "Delete":
					x.touch(st, id, c)
					x.record(st, id, "del", d)
				}
				outs = append(outs, Outcome{st: st, ret: r})
			}
			if !used {
				fin(st, boolV(false))
				return
			}
			x.hasNow(st, id, d, func(st *State, present bool, _ Val) { fin(st, boolV(present)) })
		})
		return outs
	case "First":
		pat := x.partialName(c.Args[1])
		if !x.supports(role, pat) {
			return done(st, &Tuple{Vs: []Val{zeroVal(x.tDatum), boolV(false)}})
		}
		d := datum(2)
		var outs []Outcome
		run := func(st *State) {
			x.first(st, id, pat, d, func(st *State, hit *Struct) {
				if hit == nil {
					outs = append(outs, Outcome{st: st, ret: &Tuple{Vs: []Val{zeroVal(x.tDatum), boolV(false)}}})
				} else {
					outs = append(outs, Outcome{st: st, ret: &Tuple{Vs: []Val{hit, boolV(true)}}})
				}
			})
		}
		if strings.Contains(pat, "V") {
			x.wellTyped(st, id, d, c, func(st *State, panics string) {
				if panics != "" {
					outs = append(outs, Outcome{st: st, panic: panics})
					return
				}
				run(st)
			})
		} else {
			run(st)
		}
		return outs
	case "Select", "All", "Count":
		var pat Val = mkStr("")
		var d Val = zeroVal(x.tDatum)
		if name != "All" {
			pn := x.partialName(c.Args[1])
			if !x.supports(role, pn) {
				pn = "none"
			}
			pat = mkStr(pn)
			d = datum(2)
		}
		if name == "Count" {
			if x.counting {
				var outs []Outcome
				count := func(st *State) {
					if pn, _ := constStr(pat); pn == "none" {
						outs = append(outs, Outcome{st: st, ret: mkInt(0)})
						return
					}
					pn, _ := constStr(pat)
					x.enumerate(st, id, pn, st.dn(d).(*Struct), x.bound, false, func(st *State, hits []Val) {
						outs = append(outs, Outcome{st: st, ret: mkInt(int64(len(hits)))})
					})
				}
				if pn, _ := constStr(pat); strings.Contains(pn, "V") {
					x.wellTyped(st, id, d.(*Struct), c, func(st *State, panics string) {
						if panics != "" {
							outs = append(outs, Outcome{st: st, panic: panics})
							return
						}
						count(st)
					})
					return outs
				}
				count(st)
				return outs
			}
			return done(st, &App{Op: "dbcount", Args: []Val{p, pat, d}, Typ: types.Typ[types.Int]})
		}
		seq := &App{Op: "dbseq", Args: []Val{p, pat, d}, Typ: c.Sig.Results().At(0).Type()}
		if pn, _ := constStr(pat); strings.Contains(pn, "V") {
			var outs []Outcome
			x.wellTyped(st, id, d.(*Struct), c, func(st *State, panics string) {
				if panics != "" {
					outs = append(outs, Outcome{st: st, panic: panics})
					return
				}
				outs = append(outs, Outcome{st: st, ret: st.dn(seq)})
			})
			return outs
		}
		return done(st, seq)
	}
	e.failf("an unknown index operation %s at %s", c.Fn.Name(), x.where(c.Site))
	return nil
}

func (x *DB) supports(role, pat string) bool {
	for _, s := range strings.Fields(supportedBy[role]) {
		if s == pat {
			return true
		}
	}
	return false
}

// touch notes that an index of the database as it was before the write is changed in place.
func (x *DB) touch(st *State, id string, c *CallCtx) {
	for _, v := range tuple(st.mon["frozen"]) {
		if p, ok := v.(*Ptr); ok && p.Obj == id {
			x.mutated[x.role(st, id)+" index"] = c.Fn.Name() + " at " + x.where(c.Site)
		}
	}
}

// hooks watch what writes change in place.
func (x *DB) hooks() {
	caller := func(st *State, id string, site ssa.Instruction, what string) {
		if o := st.obj(id); o != nil && o.attr("caller") != nil {
			x.obligation(ruleCaller)
			x.suspect(st, "C13 C01", ruleCaller, what, x.where(site), "the caller's "+what+" are changed")
		}
	}
	x.e.onMap = func(e *Engine, st *State, id, op string, key, val Val, site ssa.Instruction) {
		if op == "get" || op == "range" || x.sh == nil {
			return
		}
		if r := x.initMaps[id]; r != "" {
			x.mutated[r] = x.where(site)
		}
		caller(st, id, site, "retractions")
	}
	x.e.onStore = func(e *Engine, st *State, p *Ptr, v Val, site ssa.Instruction) {
		if x.sh != nil {
			caller(st, p.Obj, site, "claims")
		}
	}
	x.e.onApp = func(e *Engine, st *State, id string, site ssa.Instruction) {
		if x.sh != nil {
			caller(st, id, site, "claims")
		}
	}
}

// wellTyped checks that the value is of the type the index has for the attribute.
func (x *DB) wellTyped(st *State, id string, d *Struct, c *CallCtx, f func(st *State, panics string)) {
	o := st.obj(id)
	mp, ok := o.attr("attrTypes").(*Ptr)
	if !ok {
		x.e.failf("an index without attribute types at %s", x.where(c.Site))
	}
	st.mon["~d"] = d
	for _, fd := range x.e.mapGet(st, mp.Obj, st.dn(d.Fs[x.fA]), x.tID) {
		d := x.nd(fd.st, fd.st.mon["~d"].(*Struct))
		delete(fd.st.mon, "~d")
		val := fd.val
		if _, isNil := d.Fs[x.fV].(NilV); isNil {
			f(fd.st, "the value of the datum given to "+c.Fn.Name()+" is nil at "+x.where(c.Site))
			continue
		}
		i, ok := d.Fs[x.fV].(*Iface)
		if !ok {
			// The value's type is unknown.
			i = nil
		}
		var rec func(st *State, k int)
		rec = func(st *State, k int) {
			if k == len(x.tags) {
				f(st, "the attribute of the datum given to "+c.Fn.Name()+" is not known to have a type at "+x.where(c.Site))
				return
			}
			x.br(st, st.mkEqV(val, x.idc(x.tags[k].id)), func(st *State, r bool) {
				if !r {
					rec(st, k+1)
					return
				}
				if i != nil && types.Identical(i.Dyn, x.tags[k].typ) {
					f(st, "")
					return
				}
				f(st, "the value of the datum given to "+c.Fn.Name()+" may not be of its attribute's type at "+x.where(c.Site))
			})
		}
		rec(fd.st, 0)
	}
}

// iterate calls the consumer with the datums of the sequence.
func (x *DB) iterate(st *State, seq *App, c *CallCtx) []Outcome {
	p := seq.Args[0].(*Ptr)
	pat, _ := constStr(seq.Args[1])
	d := st.dn(seq.Args[2]).(*Struct)
	if pat == "none" {
		return ret(st, &Tuple{})
	}
	yield := c.Args[0]
	var outs []Outcome
	x.nseq++
	tag := "~seq" + itoa(x.nseq)
	ytag := tag + "y"
	st.mon[ytag] = yield
	x.enumerate(st, p.Obj, pat, d, x.bound, false, func(st *State, hits []Val) {
		st.mon[tag] = &Tuple{Vs: hits}
		fin := func(st *State) {
			delete(st.mon, tag)
			delete(st.mon, ytag)
			outs = append(outs, Outcome{st: st, ret: &Tuple{}})
		}
		var rec func(st *State, k int)
		rec = func(st *State, k int) {
			hs := tuple(st.mon[tag])
			if k >= len(hs) {
				fin(st)
				return
			}
			y := st.mon[ytag]
			for _, o := range x.e.callValue(st, y, []Val{st.dn(hs[k])}, c.Site, sigOf(y), nil) {
				if o.panic != "" {
					delete(o.st.mon, tag)
					delete(o.st.mon, ytag)
					outs = append(outs, o)
					continue
				}
				for _, w := range x.e.branch(o.st, o.ret) {
					if w.r {
						rec(w.st, k+1)
					} else {
						fin(w.st)
					}
				}
			}
		}
		rec(st, 0)
	})
	return outs
}

func itoa(n int) string { return strconv.Itoa(n) }

func sigOf(v Val) *types.Signature {
	if f, ok := v.(*FuncV); ok {
		return f.Fn.Signature
	}
	if t := typeOf(v); t != nil {
		if s, ok := t.Underlying().(*types.Signature); ok {
			return s
		}
	}
	return nil
}
