package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dbShape is an abstract calling context of Write: what is known of the request.
type dbShape struct {
	name        string
	bound       int // how many datums a selection may have besides those known
	build       func(x *DB, st *State, s *dbReq) bool
	accept      string // the properties which say that it is accepted
	content     string // the properties which say what it changes
	rejectProps string // the further properties by which its rejection changes nothing
}

// dbReq is a request under construction.
type dbReq struct {
	claims []Val
	retr   [][]Val
	nilC   bool
}

// iface makes a value of the type, of the interface.
func (x *DB) iface(name string, v Val) Val {
	return &Iface{Dyn: x.e.mustType(typesPkg, name), V: v}
}

func (x *DB) symOf(name, typ string) Val { return rigidVal(x.e.mustType(typesPkg, typ), name) }

// ref makes an arbitrary reference or value of the kind.
func (x *DB) ref(name, kind string) Val {
	switch kind {
	case "nil":
		return nilV
	case "any":
		return nil
	}
	return x.iface(kind, x.symOf(name+"."+kind, kind))
}

// claimOf makes a claim of the parts, which are symbols of the interface types where nil.
func (x *DB) claimOf(name string, E, A, V, retract Val) Val {
	u := x.tClaim.Underlying().(*types.Struct)
	fs := make([]Val, u.NumFields())
	for i := range fs {
		f := u.Field(i)
		switch f.Name() {
		case "E":
			fs[i] = E
		case "A":
			fs[i] = A
		case "V":
			fs[i] = V
		case "Retract":
			fs[i] = retract
		}
		if fs[i] == nil {
			fs[i] = rigidVal(f.Type(), name+"."+f.Name())
		}
	}
	return &Struct{Typ: x.tClaim, Fs: fs}
}

func (x *DB) request(st *State, s *dbReq) Val {
	tr := x.e.mustType(typesPkg, "Request")
	tret := x.e.mustType(typesPkg, "Retraction")
	tref := x.e.mustType(typesPkg, "IDRef")
	req := zeroVal(tr).(*Struct)
	fs := append([]Val{}, req.Fs...)
	if len(s.claims) > 0 {
		id := st.newObj(&Obj{Kind: listObj, Typ: x.tClaim, Els: append([]Val{}, s.claims...), Len: mkInt(int64(len(s.claims))), Attrs: map[string]Val{"caller": boolV(true)}})
		fs[fieldIndex(tr, "Claims")] = &SliceV{Obj: id}
	}
	rs := &Tuple{}
	if len(s.retr) > 0 {
		ci := fieldIndex(tret, "Constraints")
		mt := tret.Underlying().(*types.Struct).Field(ci).Type()
		var els []Val
		for _, keys := range s.retr {
			o := &Obj{Kind: mapObj, Typ: mt, Attrs: map[string]Val{"caller": boolV(true)}}
			for _, k := range keys {
				o.Ents = append(o.Ents, MapEnt{Key: k, Val: zeroVal(mapOf(mt).Elem()), Present: true})
			}
			r := zeroVal(tret).(*Struct)
			rf := append([]Val{}, r.Fs...)
			rf[ci] = &Ptr{Obj: st.newObj(o)}
			els = append(els, &Struct{Typ: tret, Fs: rf})
			rs.Vs = append(rs.Vs, &Tuple{Vs: append([]Val{}, keys...)})
			for i, a := range keys {
				for _, b := range keys[i+1:] {
					if !st.assume(mkEq(a, b), false) {
						x.e.failf("equal constraints")
					}
				}
			}
			_ = tref
		}
		id := st.newObj(&Obj{Kind: listObj, Typ: tret, Els: els, Len: mkInt(int64(len(els))), Attrs: map[string]Val{"caller": boolV(true)}})
		fs[fieldIndex(tr, "Retractions")] = &SliceV{Obj: id}
	}
	st.mon["c"] = &Tuple{Vs: append([]Val{}, s.claims...)}
	st.mon["r"] = rs
	return &Struct{Typ: tr, Fs: fs}
}

// frozen notes the database's indexes, which no write may change.
func (x *DB) freeze(st *State) {
	var ps []Val
	x.parts(st, x.dbPtr.Obj, func(path, id string, v Val) {
		if id != "" && st.obj(id).attr("role") != nil {
			ps = append(ps, &Ptr{Obj: id})
		}
	})
	st.mon["frozen"] = &Tuple{Vs: ps}
}

func (x *DB) writeFn() *ssa.Function {
	o := x.st0.obj(x.dbPtr.Obj)
	fn := x.r.p.method(o.Typ, "Write")
	if fn == nil {
		x.e.failf("the database has no method Write")
	}
	return fn
}

// write interprets a write of the shape and judges every way it may end.
func (x *DB) write(sh *dbShape) {
	t0 := time.Now()
	x.sh = sh
	x.e.maxStep = x.e.steps + 3000000
	x.bound = sh.bound
	st := x.generalise()
	rq := &dbReq{}
	if !sh.build(x, st, rq) {
		x.e.failf("the request of %s is inconsistent", sh.name)
	}
	req := x.request(st, rq)
	x.freeze(st)
	st.mon["any.ident"] = x.symOf("anyident", "Ident")
	st.mon["any.attr"] = x.symOf("anyattr", "ID")
	x.rolePaths(st)
	fn := x.writeFn()
	outs := x.e.invoke(st, &FuncV{Fn: fn}, x.dbPtr, req)
	steps := x.e.steps
	n := map[string]int{}
	where := x.e.p.pos(fn.Pos()) + " in " + fnName(fn)
	for _, o := range outs {
		n["outcomes"]++
		x.obligation(ruleCaller)
		x.judge(o, where, n)
	}
	x.tally["outcomes"] += n["outcomes"]
	if os.Getenv("DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %v, %d steps, %v\n", sh.name, n, steps, time.Since(t0))
	}
}

// obligation counts an obligation met by the rule in the shape.
func (x *DB) obligation(rule string) { x.tally[rule]++ }

// suspect flags a violation if the world in which it was seen is consistent with the store's invariants.
func (x *DB) suspect(st *State, props, rule, subj, where, what string) {
	if x.flagged[rule+"|"+x.sh.name+": "+subj] {
		return
	}
	found := false
	x.settle(st.clone(), 0, 0, func(st *State) bool {
		found = true
		if os.Getenv("WORLD") != "" {
			t, _ := st.print(false)
			fmt.Fprintf(os.Stderr, "WORLD of %s: %s\n%s\nP %v\nN %v\n----\n", rule, subj, t, st.mon["P"].Key(), st.mon["N"].Key())
		}
		return true
	})
	if found {
		x.flag(props, rule, x.sh.name+": "+subj, where, what)
	}
}

// settle gives the worlds which are consistent with the invariants of the store's initial contents, until one will do.
func (x *DB) settle(st *State, i, j int, f func(st *State) bool) bool {
	ps := tuple(st.mon["P"])
	if j >= len(ps) {
		return x.settleNotes(st, 0, 0, f)
	}
	if i >= j {
		return x.settle(st, 0, j+1, f)
	}
	done := false
	next := func(st *State) {
		if !done {
			done = x.settle(st, i+1, j, f)
		}
	}
	p, q := ps[i].(*Struct), ps[j].(*Struct)
	same := func(st *State) {
		ps := tuple(st.mon["P"])
		if st.equate(st.dn(ps[i].(*Struct).Fs[x.fT]), st.dn(ps[j].(*Struct).Fs[x.fT])) {
			next(st)
		}
	}
	x.br(st, st.mkEqV(p.Fs[x.fA], q.Fs[x.fA]), func(st *State, r bool) {
		if !r {
			next(st)
			return
		}
		ps := tuple(st.mon["P"])
		p, q := ps[i].(*Struct), ps[j].(*Struct)
		x.br(st, st.mkEqV(p.Fs[x.fE], q.Fs[x.fE]), func(st *State, sameE bool) {
			ps := tuple(st.mon["P"])
			p, q := ps[i].(*Struct), ps[j].(*Struct)
			x.br(st, x.valCond(st, p.Fs[x.fV], q.Fs[x.fV]), func(st *State, sameV bool) {
				A := st.dn(tuple(st.mon["P"])[i].(*Struct).Fs[x.fA])
				switch {
				case sameE && sameV:
					same(st)
				case sameE:
					x.isMany(st, A, func(st *State, many bool) {
						if many {
							next(st)
						}
					})
				case sameV:
					x.isUnique(st, A, func(st *State, u bool) {
						if !u {
							next(st)
						}
					})
				default:
					next(st)
				}
			})
		})
	})
	return done
}

func (x *DB) settleNotes(st *State, k, j int, f func(st *State) bool) bool {
	ns := tuple(st.mon["N"])
	if k >= len(ns) {
		return x.settleAttrs(st, f)
	}
	ps := tuple(st.mon["P"])
	n := ns[k].(*Tuple)
	cnt, _ := constInt(n.Vs[2])
	if j < int(cnt) {
		j = int(cnt)
	}
	if j >= len(ps) {
		return x.settleNotes(st, k+1, 0, f)
	}
	pat, _ := constStr(n.Vs[0])
	done := false
	x.matches(st, pat, n.Vs[1].(*Struct), ps[j].(*Struct), func(st *State, r bool) {
		if !r && !done {
			done = x.settleNotes(st, k, j+1, f)
		}
	})
	return done
}

// settleAttrs makes every attribute's declaration whole.
func (x *DB) settleAttrs(st *State, f func(st *State) bool) bool {
	seen := map[string]bool{}
	var keys []Val
	for _, fact := range st.rew {
		for _, v := range []Val{fact.Term, fact.Val} {
			mapVal(v, func(y Val) Val {
				if a, ok := y.(*App); ok && (a.Op == "Type" || a.Op == "Uniq" || a.Op == "Card") && len(a.Args) == 1 && !seen[a.Args[0].Key()] {
					seen[a.Args[0].Key()] = true
					keys = append(keys, a.Args[0])
				}
				return nil
			})
		}
	}
	done := false
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if done {
			return
		}
		if i == len(keys) {
			done = f(st)
			return
		}
		k := st.dn(keys[i])
		x.br(st, st.mkEqV(st.mk("Type", x.tID, k), x.idc(0)), func(st *State, none bool) {
			k := st.dn(k)
			if none {
				if st.assume(st.mkEqV(st.mk("Uniq", x.tID, k), x.idc(0)), true) && st.assume(st.mkEqV(st.mk("Card", x.tID, k), x.idc(0)), true) {
					rec(st, i+1)
				}
				return
			}
			if !st.assume(st.mk("lt", types.Typ[types.Bool], k, st.mon["next"]), true) {
				return
			}
			x.typed(st, k, func(st *State, _ dbTag) { rec(st, i+1) })
		})
	}
	rec(st, 0)
	return done
}

// rolePaths notes where the database keeps its caches.
func (x *DB) rolePaths(st *State) {
	if x.paths != nil {
		return
	}
	x.paths, x.idxPaths = map[string]string{}, map[string]bool{}
	x.parts(st, x.dbPtr.Obj, func(path, id string, v Val) {
		if id == "" {
			return
		}
		o := st.obj(id)
		if o.attr("role") != nil {
			x.idxPaths[path] = true
		}
		if o.Kind == mapObj {
			if s, ok := o.Base.(*Sym); ok {
				x.paths[path] = strings.TrimPrefix(s.Name, "db.")
				x.initMaps[id] = x.paths[path]
			}
		}
	})
}

// held gives the objects of the part: its indexes by role and its maps by path.
func (x *DB) held(st *State, root string) (idx map[string]string, maps map[string]string) {
	idx, maps = map[string]string{}, map[string]string{}
	x.parts(st, root, func(path, id string, v Val) {
		if id == "" {
			return
		}
		o := st.obj(id)
		if root == x.dbPtr.Obj && x.paths != nil && x.paths[path] == "" && !x.idxPaths[path] {
			return // of a snapshot which the database keeps
		}
		switch {
		case o.attr("role") != nil:
			idx[x.role(st, id)] = id
		case o.Kind == mapObj:
			maps[path] = id
		}
	})
	return
}

const (
	ruleCrash   = "no write crashes"
	ruleReject  = "a write which breaks the rules is rejected"
	ruleAccept  = "a write which follows the rules is accepted"
	ruleNothing = "a rejected write changes nothing"
	ruleAgree   = "the indexes hold the same datums"
	ruleAfter   = "the contents after are those the rules give"
	ruleIdents  = "idents resolve as the ident datums say"
	ruleAttrs   = "attributes are as declared"
	ruleIDs     = "ids are issued once and reported"
	ruleSnap    = "the response has the snapshot after the write"
	ruleShare   = "snapshots share nothing which writes change"
	ruleCaller  = "the request is not changed"
)

// resField gives the response's field in the world.
func (x *DB) resField(st *State, f string) Val {
	v := st.dn(st.mon["res"])
	s, ok := v.(*Struct)
	if !ok {
		x.e.failf("the response is %s", shortKey(v))
	}
	return st.dn(fieldNamed(s, f))
}

func (x *DB) judge(o Outcome, where string, n map[string]int) {
	x.obligation(ruleCrash)
	if o.panic != "" {
		n["panics"]++
		x.suspect(o.st.clone(), "C07", ruleCrash, "panics", where, o.panic)
		// So the properties which say what should have become of it do not hold.
		(&dbSpec{x: x}).run(o.st, func(st *State, v verdict) {
			props := v.props
			if v.ok {
				props = x.sh.accept
			}
			x.suspect(st, props, ruleCrash, "panics instead", where, o.panic)
		})
		return
	}
	st := o.st
	st.mon["res"] = o.ret
	x.br(st, mkEq(x.resField(st, "Error"), nilV), func(st *State, accepted bool) {
		s := &dbSpec{x: x}
		if accepted {
			s.bind = func(st *State, f func(st *State)) { x.temps(st, 0, where, f) }
		}
		s.run(st, func(st *State, v verdict) {
			n["worlds"]++
			switch {
			case accepted && !v.ok:
				x.obligation(ruleReject)
				x.suspect(st, v.props, ruleReject, v.why, where, "the write is accepted, despite "+v.why)
			case !accepted && v.ok:
				x.obligation(ruleAccept)
				x.suspect(st, x.sh.accept, ruleAccept, "rejected", where, "the write is rejected, though every rule is followed")
			case accepted:
				n["accepted"]++
				x.obligation(ruleAccept)
				x.accepted(st, where)
			default:
				n["rejected"]++
				x.obligation(ruleReject)
				x.rejected(st, where)
			}
		})
	})
}

// nextID gives the next id to be issued.
func (x *DB) nextID(st *State) Val {
	return st.dn(x.e.load(st, x.nextAt, x.tID, nil))
}

func (x *DB) lt(st *State, a, b Val) Val {
	return st.mk("lt", types.Typ[types.Bool], st.dn(a), st.dn(b))
}

// must flags the violation in the worlds in which the condition does not hold, and goes on in those in which it does.
func (x *DB) must(st *State, cond Val, props, rule, subj, where, what string, f func(st *State)) {
	x.obligation(rule)
	x.br(st, cond, func(st *State, r bool) {
		if r {
			f(st)
			return
		}
		x.suspect(st, props, rule, subj, where, what)
	})
}

func (x *DB) snapshotObj(st *State) string {
	v := x.resField(st, "Snapshot")
	if i, ok := v.(*Iface); ok {
		v = i.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		return ""
	}
	return p.Obj
}

func (x *DB) rejected(st *State, where string) {
	props := "C03"
	if x.sh.rejectProps != "" {
		props += " " + x.sh.rejectProps
	}
	x.must(st, st.mkEqV(x.nextID(st), st.mon["next"]), "C11 C03", ruleNothing, "counter of ids", where, "a rejected write leaves the counter of ids changed", func(st *State) {
		x.must(st, st.mkEqV(x.resField(st, "ID"), x.idc(0)), "C03", ruleNothing, "transaction", where, "a rejected write reports a transaction", func(st *State) {
			idx, maps := x.held(st, x.dbPtr.Obj)
			for _, r := range sortedKeys(idx) {
				x.obligation(ruleNothing)
				if len(x.log(st, idx[r])) != 0 {
					x.suspect(st, props, ruleNothing, r, where, "a rejected write changes the "+r+" index")
					return
				}
			}
			for _, p := range sortedKeys(maps) {
				x.obligation(ruleNothing)
				o := st.obj(maps[p])
				b, ok := o.Base.(*Sym)
				if !ok || b.Name != "db."+x.paths[p] || len(o.Ents) != 0 {
					x.suspect(st, props, ruleNothing, x.paths[p], where, "a rejected write changes the database's "+x.paths[p])
					return
				}
			}
			x.response(st, where)
		})
	})
}

func (x *DB) accepted(st *State, where string) {
	x.must(st, st.mkEqV(x.resField(st, "ID"), st.mon["next"]), "C11 C12 C03", ruleIDs, "transaction", where, "the transaction's id is not a new one", func(st *State) {
		x.must(st, x.lt(st, x.resField(st, "ID"), x.nextID(st)), "C11", ruleIDs, "transaction issued again", where, "the transaction's id will be issued again", func(st *State) {
			x.contents(st, where)
		})
	})
}

// temps checks the ids of the temporary ids, and makes those of the rules the same.
func (x *DB) temps(st *State, i int, where string, f func(st *State)) {
	ts := tuple(st.mon["s.temps"])
	if i >= len(ts) {
		f(st)
		return
	}
	t := ts[i].(*Tuple)
	mv := x.resField(st, "TempIDs")
	mp, ok := mv.(*Ptr)
	if !ok {
		x.suspect(st, "C12", ruleIDs, "temporary id", where, "a temporary id's id is not reported")
		return
	}
	for _, fd := range x.e.mapGet(st, mp.Obj, st.dn(t.Vs[0]), x.tID) {
		fd := fd
		fd.st.mon["~got"] = fd.val
		x.must(fd.st, fd.has, "C12", ruleIDs, "temporary id", where, "a temporary id's id is not reported", func(st *State) {
			got := st.dn(st.mon["~got"])
			delete(st.mon, "~got")
			id := st.dn(tuple(st.mon["s.temps"])[i].(*Tuple).Vs[1])
			if !isTempSym(id) {
				x.must(st, st.mkEqV(got, id), "C12", ruleIDs, "temporary id of a known entity", where, "a temporary id does not resolve to the entity whose identity it claims", func(st *State) { x.temps(st, i+1, where, f) })
				return
			}
			st.mon["~got"] = got
			x.must(st, x.lt(st, st.mon["next"], got), "C11 C12", ruleIDs, "new entity", where, "a new entity is not given a new id", func(st *State) {
				x.must(st, x.lt(st, st.mon["~got"], x.nextID(st)), "C11", ruleIDs, "entity issued again", where, "a new entity's id will be issued again", func(st *State) {
					got := st.dn(st.mon["~got"])
					delete(st.mon, "~got")
					id := st.dn(tuple(st.mon["s.temps"])[i].(*Tuple).Vs[1])
					x.obligation(ruleIDs)
					was := st.clone()
					if !st.replace(id, got) {
						x.suspect(was, "C12 C11", ruleIDs, "distinct entities", where, "different new entities are given the same id")
						return
					}
					x.temps(st, i+1, where, f)
				})
			})
		})
	}
}

// contents compares the indexes after the write with the rules' contents.
func (x *DB) contents(st *State, where string) {
	idx, _ := x.held(st, x.dbPtr.Obj)
	for _, r := range []string{"eav", "aev", "ave"} {
		if idx[r] == "" {
			x.suspect(st, "C04", ruleAgree, r, where, "the database has no "+r+" index after a write")
			return
		}
		st.mon["final."+r] = &Ptr{Obj: idx[r]}
	}
	// Every datum changed anywhere.
	var cands []Val
	seen := map[string]bool{}
	for _, id := range []string{x.specObj, idx["eav"], idx["aev"], idx["ave"]} {
		for _, l := range x.log(st, id) {
			d := x.nd(st, l.(*Tuple).Vs[1].(*Struct))
			k := x.mk(d.Fs[x.fE], d.Fs[x.fA], d.Fs[x.fV], x.idc(0)).Key()
			if !seen[k] {
				seen[k] = true
				cands = append(cands, d)
			}
		}
	}
	st.mon["cands"] = &Tuple{Vs: cands}
	x.content(st, 0, where)
}

func (x *DB) final(st *State, r string) string { return st.mon["final."+r].(*Ptr).Obj }

func (x *DB) content(st *State, i int, where string) {
	cs := tuple(st.mon["cands"])
	if i >= len(cs) {
		x.identsAfter(st, where)
		return
	}
	d := func(st *State) *Struct { return x.nd(st, tuple(st.mon["cands"])[i].(*Struct)) }
	what := func(st *State) string { return shortKey(d(st)) }
	x.obligation(ruleAfter)
	x.obligation(ruleAgree)
	x.hasNow(st, x.specObj, d(st), func(st *State, want bool, T Val) {
		st.mon["~T"] = T
		if T == nil {
			delete(st.mon, "~T")
		}
		x.hasNow(st, x.final(st, "eav"), d(st), func(st *State, got bool, T Val) {
			if got != want {
				props := x.sh.content
				if got {
					x.suspect(st, props, ruleAfter, "datum too many", where, "the store has a datum it should not: "+what(st))
				} else {
					x.suspect(st, props, ruleAfter, "datum missing", where, "the store lacks a datum it should have: "+what(st))
				}
				return
			}
			x.hasNow(st, x.final(st, "aev"), d(st), func(st *State, aev bool, T2 Val) {
				if aev != got {
					x.suspect(st, "C04 "+x.sh.content, ruleAgree, "eav and aev", where, "the entity-first and attribute-first indexes differ in "+what(st))
					return
				}
				x.isUnique(st, x.attrAt(st, d(st).Fs[x.fA]), func(st *State, u bool) {
					x.hasNow(st, x.final(st, "ave"), d(st), func(st *State, ave bool, T3 Val) {
						if ave != (got && u) {
							w := "lacks"
							if ave {
								w = "has"
							}
							x.suspect(st, "C04 "+x.sh.content, ruleAgree, "ave "+w, where, "the value index wrongly "+w+" "+what(st))
							return
						}
						if !got {
							x.content(st, i+1, where)
							return
						}
						T0 := st.mon["~T"]
						cond := []Val{st.mkEqV(st.dn(T), st.dn(T0)), st.mkEqV(st.dn(T2), st.dn(T0))}
						if ave {
							cond = append(cond, st.mkEqV(st.dn(T3), st.dn(T0)))
						}
						x.must(st, x.all(st, cond), "C12 C06", ruleAfter, "transaction", where, "the datum's transaction is not that which asserted it: "+what(st), func(st *State) {
							delete(st.mon, "~T")
							x.content(st, i+1, where)
						})
					})
				})
			})
		})
	})
}

// attrAt is the attribute; those the write declares have no datums yet.
func (x *DB) attrAt(st *State, a Val) Val { return st.dn(a) }

func (x *DB) all(st *State, cs []Val) Val {
	var out []Val
	for _, c := range cs {
		if r, ok := st.decide(c); ok {
			if !r {
				return boolV(false)
			}
			continue
		}
		out = append(out, c)
	}
	switch len(out) {
	case 0:
		return boolV(true)
	case 1:
		return out[0]
	}
	return &App{Op: "and", Args: out, Typ: types.Typ[types.Bool]}
}

// identsAfter compares the resolution of idents with the ident datums.
func (x *DB) identsAfter(st *State, where string) {
	_, maps := x.held(st, x.dbPtr.Obj)
	id := ""
	for p, r := range x.paths {
		if r == "idents" {
			id = maps[p]
		}
	}
	if id == "" {
		x.suspect(st, "C14", ruleIdents, "idents", where, "the database has no idents after a write")
		return
	}
	keys := []Val{st.dn(st.mon["any.ident"])}
	seen := map[string]bool{}
	add := func(v Val) {
		v = st.dn(v)
		if !seen[v.Key()] {
			seen[v.Key()] = true
			keys = append(keys, v)
		}
	}
	for _, en := range st.obj(id).Ents {
		add(en.Key)
	}
	for _, l := range x.log(st, x.specObj) {
		d := x.nd(st, l.(*Tuple).Vs[1].(*Struct))
		if r, ok := st.decideEq(d.Fs[x.fA], x.sysID("DbIdent")); ok && !r {
			continue
		}
		if i, ok := d.Fs[x.fV].(*Iface); ok && shortTyp(i.Dyn) == "String" {
			add(i.V)
		}
	}
	st.mon["keys"] = &Tuple{Vs: keys}
	x.identAfter(st, id, 0, where)
}

func (x *DB) identAfter(st *State, id string, i int, where string) {
	ks := tuple(st.mon["keys"])
	if i >= len(ks) {
		x.attrsAfter(st, where)
		return
	}
	for _, fd := range x.e.mapGet(st, id, st.dn(ks[i]), x.tID) {
		st := fd.st
		st.mon["~id"] = fd.val
		k := st.dn(tuple(st.mon["keys"])[i])
		x.first(st, x.specObj, "AV", x.mk(x.idc(0), x.sysID("DbIdent"), &Iface{Dyn: x.e.mustType(typesPkg, "String"), V: k}, x.idc(0)), func(st *State, hit *Struct) {
			want := x.idc(0)
			if hit != nil {
				want = hit.Fs[x.fE]
			}
			got := st.dn(st.mon["~id"])
			delete(st.mon, "~id")
			x.must(st, st.mkEqV(got, want), "C14", ruleIdents, "ident", where, "after the write an ident resolves to "+shortKey(got)+", but its datum is of "+shortKey(want), func(st *State) {
				x.identAfter(st, id, i+1, where)
			})
		})
	}
}

// expected gives the attribute's declaration after the write.
func (x *DB) expected(st *State, key func(st *State) Val, f func(st *State, decl int)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		ds := tuple(st.mon["s.decls"])
		if i >= len(ds) {
			f(st, -1)
			return
		}
		x.br(st, st.mkEqV(st.dn(ds[i].(*Tuple).Vs[0]), st.dn(key(st))), func(st *State, r bool) {
			if r {
				f(st, i)
				return
			}
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

// attrsAfter compares the caches of the attributes with their declarations.
func (x *DB) attrsAfter(st *State, where string) {
	keys := []Val{st.dn(st.mon["any.attr"])}
	for _, d := range tuple(st.mon["s.decls"]) {
		keys = append(keys, st.dn(d.(*Tuple).Vs[0]))
	}
	st.mon["keys"] = &Tuple{Vs: keys}
	x.attrAfter(st, 0, where)
}

type declared struct{ typ, card, uniq, ident Val }

func (x *DB) declaredAt(st *State, key Val, decl int) declared {
	if decl < 0 {
		return declared{st.mk("Type", x.tID, key), st.mk("Card", x.tID, key), st.mk("Uniq", x.tID, key), st.mk("AIdent", x.tIdent, key)}
	}
	d := tuple(st.mon["s.decls"])[decl].(*Tuple)
	return declared{st.dn(d.Vs[1]), st.dn(d.Vs[2]), st.dn(d.Vs[3]), st.dn(st.mon["s.ident"+itoa(decl)])}
}

func (x *DB) attrAfter(st *State, i int, where string) {
	ks := tuple(st.mon["keys"])
	if i >= len(ks) {
		x.response(st, where)
		return
	}
	key := func(st *State) Val { return st.dn(tuple(st.mon["keys"])[i]) }
	x.expected(st, key, func(st *State, decl int) {
		_, maps := x.held(st, x.dbPtr.Obj)
		idx, _ := x.held(st, x.dbPtr.Obj)
		type job struct{ id, role, what string }
		var jobs []job
		for _, p := range sortedKeys(x.paths) {
			if r := x.paths[p]; r != "idents" && r != "attrsByIdent" {
				if maps[p] == "" {
					x.suspect(st, "C08", ruleAttrs, r, where, "the database has no "+r+" after a write")
					return
				}
				jobs = append(jobs, job{maps[p], r, "the database's " + r})
			}
		}
		for _, r := range sortedKeys(idx) {
			if p, ok := st.obj(idx[r]).attr("attrTypes").(*Ptr); ok {
				jobs = append(jobs, job{p.Obj, "types", "the types of the " + r + " index"})
			}
		}
		var rec func(st *State, k int)
		rec = func(st *State, k int) {
			if k == len(jobs) {
				x.attrAfter(st, i+1, where)
				return
			}
			j := jobs[k]
			m := mapOf(st.obj(j.id).Typ)
			for _, fd := range x.e.mapGet(st, j.id, key(st), m.Elem()) {
				st := fd.st
				x.must(st, x.asDeclared(st, j.role, key(st), decl, fd.val, fd.has), attrProps[j.role], ruleAttrs, j.what, where, "after the write "+j.what+" are not as declared", func(st *State) { rec(st, k+1) })
			}
		}
		rec(st, 0)
	})
}

// attrProps are the properties which do not hold if the cache is not as declared.
var attrProps = map[string]string{"types": "C08 C07", "uniques": "C08 C05", "cards": "C08 C06", "manies": "C08 C06", "attrs": "C08"}

// asDeclared is the condition for the cache's entry to be as declared.
func (x *DB) asDeclared(st *State, role string, key Val, decl int, val, has Val) Val {
	d := x.declaredAt(st, key, decl)
	many := st.mkEqV(d.card, x.sysID("AttrCardinalityMany"))
	iff := func(a, b Val) Val {
		p, ok1 := st.decide(a)
		q, ok2 := st.decide(b)
		switch {
		case ok1 && ok2:
			return boolV(p == q)
		case ok1 && p:
			return b
		case ok1:
			return st.mk("not", types.Typ[types.Bool], b)
		case ok2 && q:
			return a
		case ok2:
			return st.mk("not", types.Typ[types.Bool], a)
		}
		return boolV(st.dn(a).Key() == st.dn(b).Key())
	}
	nonzero := func(v Val) Val { return st.mk("not", types.Typ[types.Bool], st.mkEqV(v, x.idc(0))) }
	switch role {
	case "types":
		return st.mkEqV(st.dn(val), d.typ)
	case "uniques":
		return st.mkEqV(st.dn(val), d.uniq)
	case "cards":
		return st.mkEqV(st.dn(val), d.card)
	case "manies":
		if b, ok := typeOf(val).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return iff(val, many)
		}
		return iff(has, many)
	case "attrs":
		c := []Val{iff(has, nonzero(d.typ))}
		for _, p := range []struct {
			f string
			v Val
		}{{"Type", d.typ}, {"Cardinality", d.card}, {"Unique", d.uniq}, {"Ident", d.ident}} {
			s, ok := val.(*Struct)
			if !ok {
				return boolV(false)
			}
			c = append(c, st.mkEqV(st.dn(fieldNamed(s, p.f)), st.dn(p.v)))
		}
		return x.all(st, c)
	}
	return boolV(true)
}

// response checks the snapshot of the response: that it has the contents of the database.
func (x *DB) response(st *State, where string) {
	root := x.snapshotObj(st)
	x.obligation(ruleSnap)
	if root == "" {
		x.suspect(st, "C30 C03", ruleSnap, "none", where, "the response has no snapshot")
		return
	}
	x.snapshotOf(st, root, where)
}

// snapshotOf checks that the snapshot has the database's contents and shares nothing with it that writes change.
func (x *DB) snapshotOf(st *State, root, where string) {
	idx, maps := x.held(st, x.dbPtr.Obj)
	sidx, smaps := x.held(st, root)
	props := "C01 C03 C30 C34"
	for _, r := range []string{"eav", "aev", "ave"} {
		x.obligation(ruleSnap)
		if sidx[r] == "" {
			x.suspect(st, props, ruleSnap, r, where, "the snapshot has no "+r+" index")
			return
		}
		if !x.sameLog(st, idx[r], sidx[r]) {
			x.suspect(st, props, ruleSnap, r, where, "the snapshot's "+r+" index is not the database's after the write")
			return
		}
		if !x.sameTypes(st, idx[r], sidx[r]) {
			x.suspect(st, props+" C08", ruleSnap, "types of "+r, where, "the snapshot's "+r+" index does not have the database's attribute types")
			return
		}
	}
	byRole := map[string]string{}
	for p, id := range maps {
		byRole[x.paths[p]] = id
	}
	for _, p := range sortedKeys(smaps) {
		x.obligation(ruleSnap)
		m := mapOf(st.obj(smaps[p]).Typ)
		same := false
		for _, r := range sortedKeys(byRole) {
			o := st.obj(byRole[r])
			if types.Identical(mapOf(o.Typ), m) && sameMap(st.obj(smaps[p]), o) {
				same = true
			}
		}
		if !same {
			x.suspect(st, props+" C14 C08", ruleSnap, "snapshot"+p, where, "the snapshot's "+strings.TrimPrefix(p, ".")+" are not the database's after the write")
			return
		}
	}
	// What the two share.
	owned := map[string]string{}
	for p, id := range maps {
		owned[id] = x.paths[p]
	}
	for r, id := range idx {
		owned[id] = r + " index"
	}
	seen := map[string]bool{}
	share := func(id, path string) {
		if w := owned[id]; w != "" && !seen[id] {
			seen[id] = true
			x.shared[w] = append(x.shared[w], path+" of a snapshot made in "+x.sh.name)
		}
	}
	for p, id := range smaps {
		share(id, strings.TrimPrefix(p, "."))
	}
	for r, id := range sidx {
		share(id, r+" index")
		if tp, ok := st.obj(id).attr("attrTypes").(*Ptr); ok {
			share(tp.Obj, "attribute types of the "+r+" index")
		}
	}
}

func (x *DB) sameLog(st *State, a, b string) bool {
	p, q := st.obj(a), st.obj(b)
	return st.dn(p.attr("log")).Key() == st.dn(q.attr("log")).Key()
}

func (x *DB) sameTypes(st *State, a, b string) bool {
	p, ok1 := st.obj(a).attr("attrTypes").(*Ptr)
	q, ok2 := st.obj(b).attr("attrTypes").(*Ptr)
	return ok1 && ok2 && sameMap(st.obj(p.Obj), st.obj(q.Obj))
}

// sameMap tells whether the maps are known to have the same contents.
func sameMap(a, b *Obj) bool {
	if a == b {
		return true
	}
	if (a.Base == nil) != (b.Base == nil) || a.Base != nil && a.Base.Key() != b.Base.Key() || len(a.Ents) != len(b.Ents) {
		return false
	}
	for i := range a.Ents {
		p, q := a.Ents[i], b.Ents[i]
		if p.Present != q.Present || p.Key.Key() != q.Key.Key() || p.Present && p.Val.Key() != q.Val.Key() {
			return false
		}
	}
	return true
}
