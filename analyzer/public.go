package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The public database composes the analysis of schemas, the shredder and the store. Its operations are
// interpreted with each of those replaced by its contract, failing or succeeding at every step.

const pubPkg = "pkg/database"

const (
	rulePubCrash   = "no public operation crashes"
	rulePubError   = "the failing step's error is reported"
	rulePubOK      = "a successful write reports no error"
	rulePubIDs     = "ids are given in the order of the assertions"
	rulePubSnap    = "the response has the snapshot which resulted"
	rulePubRead    = "reads give the store's snapshot"
	rulePubOne     = "a request is one write of the store"
	rulePubNothing = "a rejected request changes nothing"
	rulePubStop    = "nothing is written once a step has failed"
	rulePubSchema  = "the types of all assertions are declared"
	rulePubData    = "all assertions and retractions are written"
	rulePubTxn     = "the transaction entity is asserted"
	rulePubTxnRes  = "the response has the transaction entity"
	rulePubIDField = "the ids of asserted entities are populated"
)

func init() {
	register("C30", "The public Write is interpreted abstractly for every number of assertions up to the bound, with the analysis of each type, the shredder and each write of the store failing or succeeding on every path. The rule: the response has the error of the step which failed or none, the ids which the shredder and the store gave for the assertions in their order, and the snapshot of the write which decided the request.", resting(func(r *Report) {
		checkPublic(r, rulePubCrash, rulePubError, rulePubOK, rulePubIDs, rulePubSnap, rulePubRead)
	}, "again|together|both|retractTwo|fails|unique"))
	register("C31", "The public Write is interpreted as for C30. The rule: a request is given to the store in one write, and no path on which the request is rejected has an earlier write which succeeded or writes after the rejection.", resting(func(r *Report) {
		checkPublic(r, rulePubOne, rulePubNothing, rulePubStop)
	}, "fails|unissued|conflict|twoIdentities|takenIdentity|unique"))
	register("C32", "The public Write is interpreted as for C30. The rule: on every path on which a request succeeds, the declarations of the type of each assertion and the claims and retractions shredded from all of the request are written, and the transaction entity is asserted and given back.", resting(func(r *Report) {
		checkPublic(r, rulePubSchema, rulePubData, rulePubTxn, rulePubTxnRes, rulePubIDField)
	}, "retractTwo|both|types|together|relink|zeros|reads"))
}

type pub struct {
	r          *Report
	e          *Engine
	n          int
	req        *Struct
	asserts    []Val
	retracts   []Val
	txn        Val
	db, anz    Val
	interested map[string]bool
	tClaim     types.Type
	tID, tTemp types.Type
	where      string
}

func (x *pub) check(ok bool, rule, subject, format string, args ...any) {
	if x.interested[rule] {
		x.r.check(ok, rule, subject, x.where, format, args...)
	}
}

func event(st *State, kind string, vs ...Val) {
	st.mon["ev"] = push(st.mon["ev"], &Tuple{Vs: append([]Val{mkStr(kind)}, vs...)})
}

type ev struct {
	kind string
	vs   []Val
}

func events(st *State) []ev {
	var out []ev
	for _, v := range tuple(st.mon["ev"]) {
		t := v.(*Tuple)
		k, _ := constStr(t.Vs[0])
		out = append(out, ev{k, t.Vs[1:]})
	}
	return out
}

// failure makes an error which is not nil.
func (x *pub) failure(st *State, t types.Type, name string) Val {
	v := &Sym{Name: name, Typ: t, Rigid: true}
	st.assume(mkEq(v, nilV), false)
	return v
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (x *pub) list(st *State, et types.Type, vs []Val) Val {
	return &SliceV{Obj: st.newObj(&Obj{Kind: listObj, Typ: et, Els: vs, Len: mkInt(int64(len(vs))), Attrs: map[string]Val{}})}
}

func (x *pub) onCall(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
	if c.Sig == nil {
		return nil, false
	}
	rts := resultTypes(c.Sig)
	pkg := ""
	if c.Fn != nil && c.Fn.Pkg != nil {
		pkg = strings.TrimPrefix(c.Fn.Pkg.Pkg.Path(), modPath+"/")
	} else if c.Fn != nil && c.Fn.Origin() != nil && c.Fn.Origin().Pkg != nil {
		pkg = strings.TrimPrefix(c.Fn.Origin().Pkg.Pkg.Path(), modPath+"/")
	}
	n := len(tuple(st.mon["ev"]))
	tReq, tRes := e.mustType(typesPkg, "Request"), e.mustType(typesPkg, "Response")
	switch {
	case pkg == "internal/database" && len(rts) >= 1:
		// The store is made.
		event(st, "store")
		return ret(st, x.db), true
	case strings.HasPrefix(pkg, "internal/structs/models") && len(rts) == 1 && isInterface(rts[0]):
		return ret(st, x.anz), true
	case pkg == "internal/structs/schemas" && len(rts) == 2 && isErrorType(rts[1]):
		// Declarations, or not.
		var typ Val = nilV
		for _, a := range c.Args {
			typ = a
		}
		ok, no := st, st.clone()
		cl := rigidVal(x.tClaim, fmt.Sprintf("schema%d", n))
		event(ok, "analyze", typ, boolV(true), cl)
		lst := x.list(ok, x.tClaim, []Val{cl})
		err := x.failure(no, rts[1], fmt.Sprintf("analyze error %d", n))
		event(no, "analyze", typ, boolV(false), err)
		outs := []Outcome{{st: no, ret: &Tuple{Vs: []Val{nilV, err}}}}
		// There are no declarations for what is no type.
		if r, known := ok.decideEq(typ, nilV); !known || !r {
			outs = append(outs, Outcome{st: ok, ret: &Tuple{Vs: []Val{lst, nilV}}})
		}
		return outs, true
	case strings.HasPrefix(pkg, "internal/structs/shredder") && len(rts) == 1 && isInterface(rts[0]):
		return ret(st, &Sym{Name: "shredder", Typ: rts[0], Rigid: true}), true
	case len(rts) == 3 && types.Identical(rts[0], tReq) && isErrorType(rts[2]):
		doc := c.Args[len(c.Args)-1]
		ok, no := st, st.clone()
		err := x.failure(no, rts[2], fmt.Sprintf("shred error %d", n))
		event(no, "shred", x.docParts(no, doc), boolV(false), err, nilV, &Tuple{})
		outs := []Outcome{{st: no.clone(), ret: &Tuple{Vs: []Val{zeroVal(tReq), nilV, err}}}}
		// It may have got some way.
		part := zeroVal(tReq).(*Struct)
		fs := append([]Val{}, part.Fs...)
		for i := range fs {
			if sl, ok := tReq.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice); ok {
				fs[i] = x.list(no, sl.Elem(), []Val{rigidVal(sl.Elem(), fmt.Sprintf("partial%d.%d", n, i))})
			}
		}
		outs = append(outs, Outcome{st: no, ret: &Tuple{Vs: []Val{&Struct{Typ: tReq, Fs: fs}, nilV, err}}})
		outs = append(outs, x.shredded(ok, doc, rts, n)...)
		return outs, true
	case strings.HasPrefix(c.Name, "invoke:types.Database."), x.isStore(st, c.Recv) && strings.HasPrefix(c.Name, "invoke:"):
		switch {
		case len(rts) == 1 && types.Identical(rts[0], tRes):
			return x.wrote(st, c.Args[len(c.Args)-1], n), true
		case len(rts) == 1 && isInterface(rts[0]):
			s := &Sym{Name: fmt.Sprintf("read snapshot %d", n), Typ: rts[0], Rigid: true}
			st.assume(mkEq(s, nilV), false)
			event(st, "read", s)
			return ret(st, s), true
		}
	}
	if strings.HasPrefix(c.Name, "reflect.") || strings.HasPrefix(c.Name, "(reflect.") {
		if strings.Contains(c.Name, ".Set") {
			event(st, "set", append([]Val{mkStr(c.Name)}, c.Args...)...)
			return ret(st, &Tuple{}), true
		}
	}
	return nil, false
}

func (x *pub) isStore(st *State, v Val) bool {
	return v != nil && st.dn(v).Key() == x.db.Key()
}

// docParts gives the elements of the document's lists.
func (x *pub) docParts(st *State, doc Val) Val {
	t := &Tuple{}
	s, ok := st.dn(doc).(*Struct)
	if !ok {
		x.e.failf("the document is %s", shortKey(doc))
	}
	for _, f := range s.Fs {
		part := &Tuple{}
		switch f.(type) {
		case *SliceV, NilV:
			o := x.e.asList(st, f, types.NewInterfaceType(nil, nil))
			if o.Rest {
				x.e.failf("the document has %s", shortKey(f))
			}
			part.Vs = append(part.Vs, o.Els...)
		default:
			part.Vs = append(part.Vs, f)
		}
		t.Vs = append(t.Vs, part)
	}
	return t
}

// shredded gives the request and the references of the assertions, each an id or a temporary id.
func (x *pub) shredded(st *State, doc Val, rts []types.Type, n int) []Outcome {
	e := x.e
	tReq := rts[0]
	parts := x.docParts(st, doc)
	s, _ := st.dn(doc).(*Struct)
	refs := 0
	if i := fieldIndex(s.Typ, "Assertions"); i >= 0 {
		refs = len(parts.(*Tuple).Vs[i].(*Tuple).Vs)
	}
	et := elemType(rts[1])
	worlds := []struct {
		st  *State
		ids []Val
	}{{st, nil}}
	for i := 0; i < refs; i++ {
		var next []struct {
			st  *State
			ids []Val
		}
		for _, w := range worlds {
			for _, t := range []types.Type{x.tID, x.tTemp} {
				v := &Iface{Dyn: t, V: &Sym{Name: fmt.Sprintf("ref%d", i), Typ: t, Rigid: true}}
				next = append(next, struct {
					st  *State
					ids []Val
				}{w.st.clone(), append(append([]Val{}, w.ids...), v)})
			}
		}
		worlds = next
	}
	var outs []Outcome
	for _, w := range worlds {
		req := zeroVal(tReq).(*Struct)
		fs := append([]Val{}, req.Fs...)
		var marks []Val
		u := tReq.Underlying().(*types.Struct)
		for i := range fs {
			if sl, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
				m := rigidVal(sl.Elem(), fmt.Sprintf("data%d.%s", n, u.Field(i).Name()))
				marks = append(marks, m)
				fs[i] = x.list(w.st, sl.Elem(), []Val{m})
			}
		}
		event(w.st, "shred", parts, boolV(true), &Tuple{Vs: marks}, nilV, &Tuple{Vs: w.ids})
		outs = append(outs, Outcome{st: w.st, ret: &Tuple{Vs: []Val{&Struct{Typ: tReq, Fs: fs}, x.list(w.st, et, w.ids), nilV}}})
	}
	_ = e
	return outs
}

// wrote gives the store's response.
func (x *pub) wrote(st *State, req Val, n int) []Outcome {
	e := x.e
	tRes := e.mustType(typesPkg, "Response")
	s, ok := st.dn(req).(*Struct)
	if !ok {
		e.failf("the request is %s", shortKey(req))
	}
	parts := &Tuple{}
	for _, f := range s.Fs {
		switch f.(type) {
		case *SliceV, NilV:
			o := e.asList(st, f, x.tClaim)
			if o.Rest {
				e.failf("the request has %s", shortKey(f))
			}
			parts.Vs = append(parts.Vs, o.Els...)
		default:
			parts.Vs = append(parts.Vs, f)
		}
	}
	var outs []Outcome
	for _, ok := range []bool{true, false} {
		w := st.clone()
		res := rigidVal(tRes, fmt.Sprintf("write%d", n)).(*Struct)
		fs := append([]Val{}, res.Fs...)
		ei, si := fieldIndex(tRes, "Error"), fieldIndex(tRes, "Snapshot")
		w.assume(mkEq(fs[si], nilV), false)
		if ok {
			fs[ei] = nilV
		} else {
			w.assume(mkEq(fs[ei], nilV), false)
			for _, f := range []string{"ID", "TempIDs"} {
				i := fieldIndex(tRes, f)
				fs[i] = zeroVal(tRes.Underlying().(*types.Struct).Field(i).Type())
			}
		}
		event(w, "write", parts, boolV(ok), fs[ei], fs[si], fs[fieldIndex(tRes, "TempIDs")])
		outs = append(outs, Outcome{st: w, ret: &Struct{Typ: tRes, Fs: fs}})
	}
	return outs
}

// open makes a database.
func (x *pub) open() (*State, *Iface) {
	e := x.e
	st := e.newState()
	st.mon["ev"] = &Tuple{}
	fn := x.r.p.fn(pubPkg, "NewDatabase")
	if fn == nil {
		e.failf("no function NewDatabase")
	}
	var args []Val
	for i, p := range fn.Params {
		args = append(args, rigidVal(p.Type(), fmt.Sprintf("config%d", i)))
	}
	outs := e.invoke(st, &FuncV{Fn: fn}, args...)
	for _, o := range outs {
		if o.panic != "" {
			e.failf("NewDatabase panics: %s", o.panic)
		}
	}
	if len(outs) == 0 {
		e.failf("NewDatabase does not return")
	}
	o := outs[0]
	i, ok := o.st.dn(o.ret).(*Iface)
	if !ok {
		e.failf("the database is %s", shortKey(o.ret))
	}
	o.st.mon["ev"] = &Tuple{}
	return o.st, i
}

func newPub(r *Report, interested map[string]bool) *pub {
	e := initEngine(r.p)
	x := &pub{r: r, e: e, interested: interested}
	x.tClaim = e.mustType(typesPkg, "Claim")
	x.tID, x.tTemp = e.mustType(typesPkg, "ID"), e.mustType(typesPkg, "TempID")
	x.db = &Sym{Name: "store", Typ: e.mustType(typesPkg, "Database"), Rigid: true}
	x.anz = &Sym{Name: "analyzer", Typ: e.mustType("internal/structs/models", "Analyzer"), Rigid: true}
	e.onCall = x.onCall
	return x
}

func checkPublic(r *Report, rules ...string) {
	interested := map[string]bool{}
	for _, rule := range rules {
		interested[rule] = true
		r.rule(rule)
	}
	bound := 2
	if r.tier == "thorough" {
		bound = 3
	}
	for n := 0; n <= bound; n++ {
		for _, retractions := range []int{0, 1, 2} {
			for _, txn := range []bool{false, true} {
				name := fmt.Sprintf("Write of %d assertions and %d retractions", n, retractions)
				if txn {
					name += " and a transaction"
				}
				r.attempt(rules[0], name, func() {
					x := newPub(r, interested)
					defer r.use(x.e)
					x.write(n, retractions, txn)
				})
			}
		}
	}
	if interested[rulePubRead] {
		r.attempt(rulePubRead, "Read", func() {
			x := newPub(r, interested)
			defer r.use(x.e)
			x.read()
		})
	}
}

func (x *pub) read() {
	st, db := x.open()
	fn := x.r.p.method(db.Dyn, "Read")
	if fn == nil {
		x.e.failf("no method Read")
	}
	x.where = x.e.p.pos(fn.Pos()) + " in " + fnName(fn)
	for _, o := range x.e.invoke(st, &FuncV{Fn: fn}, db.V) {
		x.check(o.panic == "", rulePubCrash, "Read", "%s", o.panic)
		if o.panic != "" {
			continue
		}
		evs := events(o.st)
		ok := len(evs) == 1 && evs[0].kind == "read"
		snap, anz := x.wrapped(o.st, o.ret)
		x.check(ok && snap != nil && o.st.dn(snap).Key() == evs[0].vs[0].Key(), rulePubRead, "Read", "the snapshot is %s", shortKey(o.ret))
		x.check(anz != nil && o.st.dn(anz).Key() == x.anz.Key(), rulePubRead, "analyzer", "the snapshot's analyzer is not the database's")
	}
}

// wrapped gives the parts of the public snapshot.
func (x *pub) wrapped(st *State, v Val) (snap, anz Val) {
	p, ok := st.dn(v).(*Ptr)
	if !ok {
		return nil, nil
	}
	s, ok := st.dn(x.e.load(st, p, x.e.mustType(pubPkg, "Snapshot"), nil)).(*Struct)
	if !ok {
		return nil, nil
	}
	for _, f := range s.Fs {
		t := typeOf(f)
		switch {
		case t != nil && types.Identical(t, x.e.mustType(typesPkg, "Snapshot")):
			snap = f
		case t != nil && types.Identical(t, x.anz.(*Sym).Typ):
			anz = f
		}
	}
	return
}

func (x *pub) write(n, retractions int, txn bool) {
	e := x.e
	st, db := x.open()
	fn := x.r.p.method(db.Dyn, "Write")
	if fn == nil || len(fn.Params) != 2 {
		e.failf("no method Write")
	}
	x.where = e.p.pos(fn.Pos()) + " in " + fnName(fn)
	tReq := fn.Params[1].Type()
	any := types.NewInterfaceType(nil, nil)
	for i := 0; i < n; i++ {
		x.asserts = append(x.asserts, rigidVal(any, fmt.Sprintf("assertion%d", i)))
	}
	for i := 0; i < retractions; i++ {
		x.retracts = append(x.retracts, rigidVal(any, fmt.Sprintf("retraction%d", i)))
	}
	x.txn = nilV
	if txn {
		x.txn = rigidVal(any, "transaction")
		st.assume(mkEq(x.txn, nilV), false)
	}
	// What is known of the assertions' types is of interest to the end.
	ts := &Tuple{}
	for _, a := range x.asserts {
		t := st.pure("reflect.TypeOf", x.typeT(), a)
		ts.Vs = append(ts.Vs, t, st.pure("invoke:reflect.Type.Elem", x.typeT(), t), st.pure("invoke:reflect.Type.Kind", x.kindT(), t))
	}
	st.mon["types"] = ts
	req := zeroVal(tReq).(*Struct)
	fs := append([]Val{}, req.Fs...)
	put := func(f string, v Val) {
		i := fieldIndex(tReq, f)
		if i < 0 {
			e.failf("requests have no %s", f)
		}
		fs[i] = v
	}
	put("Assertions", x.list(st, any, x.asserts))
	put("Retractions", x.list(st, any, x.retracts))
	put("Transaction", x.txn)
	for _, o := range e.invoke(st, &FuncV{Fn: fn}, db.V, &Struct{Typ: tReq, Fs: fs}) {
		x.judge(o)
	}
}

func (x *pub) judge(o Outcome) {
	st := o.st
	x.check(o.panic == "", rulePubCrash, "Write", "%s", o.panic)
	if o.panic != "" {
		return
	}
	res, ok := st.dn(o.ret).(*Struct)
	if !ok {
		x.e.failf("the response is %s", shortKey(o.ret))
	}
	evs := events(st)
	failed := -1
	var failure Val
	last, lastShred := -1, -1
	for i, v := range evs {
		isErr := false
		switch v.kind {
		case "analyze", "shred":
			ok, _ := constBool(v.vs[1])
			isErr = !ok
			if v.kind == "shred" {
				lastShred = i
			}
		case "write":
			ok, _ := constBool(v.vs[1])
			isErr = !ok
			last = i
		}
		if isErr && failed < 0 {
			failed, failure = i, v.vs[2]
		}
	}
	errV := fieldNamed(res, "Error")
	isNil, known := st.decideEq(errV, nilV)
	if failed >= 0 {
		step := map[string]string{"analyze": "the analysis of a type", "shred": "the shredder", "write": "a write"}[evs[failed].kind]
		bad := known && isNil
		if !bad {
			// The error of another step is not the failing step's.
			for i, v := range evs {
				if i != failed && (v.kind == "analyze" || v.kind == "shred" || v.kind == "write") {
					if ok, _ := constBool(v.vs[1]); !ok && contains(st.dn(errV), st.dn(v.vs[2])) && !contains(st.dn(errV), st.dn(failure)) {
						bad = true
					}
				}
			}
		}
		x.check(!bad, rulePubError, "the error of "+step, "the error of %s is lost", step)
	} else {
		x.check(known && isNil, rulePubOK, "a request of which no step fails", "the error is %s", shortKey(errV))
	}
	x.judgeSnap(st, res, evs, failed, last)
	if failed < 0 {
		x.judgeIDs(st, res, evs, last, lastShred)
	}
	x.judgeAtomic(st, evs, failed, !(known && isNil))
	if failed < 0 && known && isNil {
		x.judgeParts(st, res, evs)
	}
}

func (x *pub) judgeSnap(st *State, res *Struct, evs []ev, failed, last int) {
	snap, anz := x.wrapped(st, fieldNamed(res, "Snap"))
	if snap == nil {
		kind := "success"
		if failed >= 0 {
			kind = "a failure of " + evs[failed].kind
		}
		x.check(false, rulePubSnap, "the snapshot after "+kind, "there is none")
		return
	}
	got := st.dn(snap).Key()
	decider := -1
	if failed >= 0 && evs[failed].kind == "write" {
		decider = failed
	} else if failed < 0 {
		decider = last
	}
	var want []string
	if decider >= 0 {
		want = append(want, st.dn(evs[decider].vs[3]).Key())
	} else {
		for i, v := range evs {
			switch {
			case v.kind == "write" && i == last:
				want = append(want, st.dn(v.vs[3]).Key())
			case v.kind == "read" && i > last:
				want = append(want, st.dn(v.vs[0]).Key())
			}
		}
	}
	ok := false
	for _, w := range want {
		ok = ok || w == got
	}
	what := "success"
	if failed >= 0 {
		what = "a failure of " + evs[failed].kind
	}
	x.check(ok, rulePubSnap, "the snapshot after "+what, "the snapshot is %s, not of the write which decided the request", got)
	x.check(anz != nil && st.dn(anz).Key() == x.anz.Key(), rulePubSnap, "the snapshot's analyzer", "the analyzer of the snapshot is not the database's")
}

func (x *pub) judgeIDs(st *State, res *Struct, evs []ev, last, shred int) {
	if shred < 0 || last < 0 {
		if len(x.asserts) > 0 {
			x.check(false, rulePubIDs, "the assertions", "they are not shredded and written")
		}
		return
	}
	ids := fieldNamed(res, "IDs")
	lst := x.e.asList(st, ids, types.Typ[types.Uint64])
	refs := evs[shred].vs[4].(*Tuple).Vs
	x.check(!lst.Rest && len(lst.Els) == len(x.asserts), rulePubIDs, "the number of ids", "%d ids for %d assertions", len(lst.Els), len(x.asserts))
	if lst.Rest || len(lst.Els) != len(x.asserts) || len(refs) < len(x.asserts) {
		return
	}
	// The write which had the shredded claims knows their temporary ids.
	temps := evs[last].vs[4]
	for i := range x.asserts {
		ref := refs[i].(*Iface)
		want := ref.V
		if types.Identical(ref.Dyn, x.tTemp) {
			want = baseGet(st, temps, ref.V, x.tID)
		}
		got := st.dn(lst.Els[i])
		ok := sameNumber(got, st.dn(want))
		x.check(ok, rulePubIDs, fmt.Sprintf("the id of an assertion referred to by %s", shortTyp(ref.Dyn)), "the id of assertion %d is %s, not %s", i, shortKey(got), shortKey(want))
	}
}

// sameNumber tells whether the values are the same but for conversions between integers.
func sameNumber(a, b Val) bool {
	strip := func(v Val) Val {
		for {
			p, ok := v.(*App)
			if !ok || len(p.Args) != 1 || !strings.HasPrefix(p.Op, "conv") {
				return v
			}
			v = p.Args[0]
		}
	}
	return strip(a).Key() == strip(b).Key()
}

func (x *pub) judgeAtomic(st *State, evs []ev, failed int, rejected bool) {
	schema := map[string]bool{}
	data := map[string]bool{}
	var writes []int
	for i, v := range evs {
		switch v.kind {
		case "analyze":
			if ok, _ := constBool(v.vs[1]); ok {
				schema[st.dn(v.vs[2]).Key()] = true
			}
		case "shred":
			if ok, _ := constBool(v.vs[1]); ok {
				for _, m := range v.vs[2].(*Tuple).Vs {
					data[st.dn(m).Key()] = true
				}
			}
		case "write":
			writes = append(writes, i)
		}
	}
	what := func(i int) string {
		s := "schema"
		for _, m := range evs[i].vs[0].(*Tuple).Vs {
			if data[st.dn(m).Key()] || !schema[st.dn(m).Key()] {
				s = "data"
			}
		}
		return s
	}
	if len(writes) > 1 {
		apart := "the declarations of the schema"
		for _, i := range writes[:len(writes)-1] {
			if what(i) != "schema" {
				apart = "the claims and retractions of the data"
			}
		}
		x.check(false, rulePubOne, apart, "%s are given to the store in a write of their own, so readers see them apart from the rest", apart)
	} else {
		x.check(true, rulePubOne, "", "")
	}
	for _, i := range writes {
		if ok, _ := constBool(evs[i].vs[1]); !ok {
			continue
		}
		if rejected && (failed > i || failed < 0) {
			s := "the declarations of the schema"
			if what(i) != "schema" {
				s = "the claims and retractions of the data"
			}
			why := "without cause"
			if failed >= 0 {
				why = "by a failure of " + evs[failed].kind
			}
			x.check(false, rulePubNothing, s, "%s are written, though the request is then rejected %s", s, why)
		} else {
			x.check(true, rulePubNothing, "", "")
		}
	}
	for _, i := range writes {
		x.check(failed < 0 || i <= failed, rulePubStop, "a write after a failure", "the store is written after a failure of %s", func() string {
			if failed >= 0 {
				return evs[failed].kind
			}
			return "nothing"
		}())
	}
}

func (x *pub) judgeParts(st *State, res *Struct, evs []ev) {
	// What was written in all.
	written := map[string]bool{}
	for _, v := range evs {
		if v.kind == "write" {
			for _, m := range v.vs[0].(*Tuple).Vs {
				written[st.dn(m).Key()] = true
			}
		}
	}
	// The type of each assertion.
	for i := range x.asserts {
		ts := tuple(st.mon["types"])[3*i : 3*i+3]
		// Pointers' elements are the types of the entities.
		want := []Val{st.dn(ts[0]), st.dn(ts[1])}
		kind := st.dn(ts[2])
		if isPtr, known := st.decideEq(kind, x.pointerKind()); known && isPtr {
			want = want[1:]
		} else if known {
			want = want[:1]
		}
		found := false
		for _, v := range evs {
			if v.kind != "analyze" || found {
				continue
			}
			for _, w := range want {
				if r, ok := st.decideEq(st.dn(v.vs[0]), w); ok && r {
					found = true
				}
			}
			if found {
				x.check(written[st.dn(v.vs[2]).Key()], rulePubSchema, "the declarations of a type", "the declarations of assertion %d's type are not written", i)
			}
		}
		x.check(found, rulePubSchema, "the type of an assertion", "the type of assertion %d's entity is not analysed", i)
	}
	// The document has all of the request, and all of it is written.
	docs := map[string]bool{}
	all := ""
	for _, v := range evs {
		switch v.kind {
		case "shred":
			for i, part := range v.vs[0].(*Tuple).Vs {
				for _, d := range part.(*Tuple).Vs {
					docs[fmt.Sprint(i)+" "+st.dn(d).Key()] = true
					all += " " + st.dn(d).Key()
				}
			}
			for _, m := range v.vs[2].(*Tuple).Vs {
				x.check(written[st.dn(m).Key()], rulePubData, "what was shredded", "%s is not written", shortKey(m))
			}
		}
	}
	ai, ri := x.docField("Assertions"), x.docField("Retractions")
	for i, a := range x.asserts {
		x.check(docs[fmt.Sprint(ai)+" "+st.dn(a).Key()], rulePubData, "assertions", "assertion %d is not shredded", i)
	}
	for i, a := range x.retracts {
		x.check(docs[fmt.Sprint(ri)+" "+st.dn(a).Key()], rulePubData, "retractions", "retraction %d is not shredded", i)
	}
	if !isNilV(x.txn) {
		key := x.txn.Key()
		x.check(strings.Contains(all, key), rulePubTxn, "the transaction entity", "the entity given for the transaction is not part of what is written")
		tv := st.dn(fieldNamed(res, "Transaction"))
		x.check(!isNilV(tv), rulePubTxnRes, "the response's transaction", "the response has no transaction entity")
	}
	for _, a := range x.asserts {
		set := false
		for _, v := range evs {
			if v.kind == "set" {
				for _, y := range v.vs {
					set = set || contains(st.dn(y), st.dn(a))
				}
			}
		}
		x.check(set, rulePubIDField, "the id fields of the entities", "no path populates the id of an asserted entity")
	}
}

func (x *pub) docField(f string) int {
	return fieldIndex(x.e.mustType("internal/structs/shredder", "Document"), f)
}

// The types of the reflect package, as the module uses them.
func (x *pub) reflectType(name string) types.Type {
	for _, p := range x.e.p.prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	x.e.failf("no reflect.%s", name)
	return nil
}

func (x *pub) typeT() types.Type { return x.reflectType("Type") }
func (x *pub) kindT() types.Type { return x.reflectType("Kind") }
func (x *pub) pointerKind() Val {
	for _, p := range x.e.p.prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			if c, ok := p.Pkg.Scope().Lookup("Pointer").(*types.Const); ok {
				return typedConst(c.Type(), c.Val())
			}
		}
	}
	x.e.failf("no reflect.Pointer")
	return nil
}
