package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"
)

// Queries of snapshots of the abstract database: each is interpreted for claims of every combination of kinds of
// entity, attribute and value, and judged by the rules for what it is to give.

const (
	ruleAnswer    = "a query gives exactly the datums which match"
	ruleNoMatch   = "a query which does not resolve or is mistyped matches nothing"
	ruleQCrash    = "no query crashes"
	ruleGivenOnce = "a query gives each datum once, and none once its consumer has stopped"
	ruleQSame     = "queries change nothing"
	ruleResolve   = "snapshots resolve idents as the datums say"
)

// dbQuery is an abstract calling context of a method of snapshots.
type dbQuery struct {
	method  string
	e, a, v string // the kinds of the claim's parts; v may be a class of kinds
}

func (q *dbQuery) name() string {
	return fmt.Sprintf("%s of entity %s, attribute %s and value %s", q.method, q.e, q.a, q.v)
}

var valueClasses = map[string][]string{
	"scalar": {"String", "Int", "Bool", "Inst", "Float"},
}

// dbQueries gives the contexts. In the quick tier, those with several lookup refs are left out.
func dbQueries(tier string) []*dbQuery {
	var out []*dbQuery
	for _, m := range []string{"Select", "Count", "Has"} {
		for _, e := range []string{"nil", "ID", "Ident", "LookupRef", "TempID", "TxnID"} {
			for _, a := range []string{"nil", "ID", "Ident", "LookupRef"} {
				for _, v := range []string{"nil", "ID", "scalar", "Ident", "LookupRef", "TempID"} {
					n := 0
					for _, k := range []string{e, a, v} {
						if k == "LookupRef" {
							n++
						}
					}
					if n > 1 && tier != "thorough" {
						continue
					}
					out = append(out, &dbQuery{m, e, a, v})
				}
			}
		}
	}
	return out
}

// snapshot reads a snapshot of the database.
func (x *DB) snapshot(st *State, f func(st *State, p *Ptr)) {
	fn := x.r.p.method(st.obj(x.dbPtr.Obj).Typ, "Read")
	if fn == nil {
		x.e.failf("the database has no method Read")
	}
	for _, o := range x.e.invoke(st, &FuncV{Fn: fn}, x.dbPtr) {
		if o.panic != "" {
			x.e.failf("the read panics: %s", o.panic)
		}
		v := o.ret
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		p, ok := v.(*Ptr)
		if !ok {
			x.e.failf("the read gives %s", shortKey(v))
		}
		f(o.st, p)
	}
}

// query interprets the method for the claims of the kinds and judges what it gives.
func (x *DB) query(q *dbQuery) {
	t0 := time.Now()
	x.sh = &dbShape{name: q.name()}
	x.e.maxStep = x.e.steps + 3000000
	x.bound = 1
	if x.r.tier == "thorough" {
		x.bound = 2
	}
	x.rolePaths(x.generalise())
	st := x.generalise()
	st.mon["any.ident"] = x.symOf("anyident", "Ident")
	var v Val
	if valueClasses[q.v] == nil {
		v = x.ref("v", q.v)
	}
	c := x.claimOf("q", x.ref("e", q.e), x.ref("a", q.a), v, nil).(*Struct)
	vt := x.tClaim.Underlying().(*types.Struct).Field(fieldIndex(x.tClaim, "V")).Type()
	n := map[string]int{}
	run := func(st *State, c Val) {
		st.mon["c"] = &Tuple{Vs: []Val{c}}
		x.snapshot(st, func(st *State, p *Ptr) {
			x.queried(st, q, p, c, n)
		})
	}
	if ks := valueClasses[q.v]; ks != nil {
		for _, k := range ks {
			if !types.Implements(x.e.mustType(typesPkg, k), vt.Underlying().(*types.Interface)) {
				x.e.failf("%s is no value", k)
			}
			fs := append([]Val{}, c.Fs...)
			fs[fieldIndex(x.tClaim, "V")] = x.ref("v", k)
			run(st.clone(), &Struct{Typ: c.Typ, Fs: fs})
		}
	} else {
		run(st, c)
	}
	if os.Getenv("DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %v, %v\n", q.name(), n, time.Since(t0))
	}
}

// heldIdx is an index held by a snapshot and what was done to it.
type heldIdx struct {
	id  string
	log Val
}

// unchanged notes the snapshot's parts as they are.
func (x *DB) unchanged(st *State, root string) (map[string]heldIdx, map[string]*Obj) {
	idx, maps := x.held(st, root)
	lens := map[string]heldIdx{}
	objs := map[string]*Obj{}
	for r, id := range idx {
		lens[r] = heldIdx{id, st.obj(id).attr("log")}
	}
	for p, id := range maps {
		objs[p] = st.obj(id)
	}
	return lens, objs
}

func (x *DB) queried(st *State, q *dbQuery, p *Ptr, claim Val, n map[string]int) {
	fn := x.r.p.method(st.obj(p.Obj).Typ, q.method)
	if fn == nil {
		x.e.failf("snapshots have no method %s", q.method)
	}
	where := x.e.p.pos(fn.Pos()) + " in " + fnName(fn)
	lens, objs := x.unchanged(st, p.Obj)
	roles := sortedKeys(lens)
	same := func(st *State) {
		x.obligation(ruleQSame)
		l2, o2 := x.unchanged(st, p.Obj)
		was := tuple(st.mon["logs"])
		for i, r := range roles {
			if l2[r].log == nil || l2[r].id != lens[r].id || st.dn(l2[r].log).Key() != st.dn(was[i]).Key() {
				x.suspect(st, "C01 C02", ruleQSame, r, where, "a query changes the snapshot's "+r+" index")
				return
			}
		}
		for _, m := range sortedKeys(objs) {
			if o2[m] == nil || !sameMap(o2[m], objs[m]) {
				x.suspect(st, "C01 C02", ruleQSame, m, where, "a query changes the snapshot's "+strings.TrimPrefix(m, "."))
				return
			}
		}
	}
	x.counting = true
	defer func() { x.counting = false }()
	st.mon["yielded"] = &Tuple{}
	logs := &Tuple{}
	for _, r := range roles {
		logs.Vs = append(logs.Vs, lens[r].log)
	}
	st.mon["snap"], st.mon["logs"] = p, logs
	for _, o := range x.e.invoke(st, &FuncV{Fn: fn}, p, claim) {
		n["outcomes"]++
		x.obligation(ruleQCrash)
		if o.panic != "" {
			x.suspect(o.st, "C19 C20", ruleQCrash, "panics", where, o.panic)
			continue
		}
		if q.method != "Select" {
			same(o.st)
			x.answer(o.st, q, o.ret, where, n)
			continue
		}
		yt := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()
		o.st.mon["consumer"] = &Sym{Name: "consumer", Typ: yt, Rigid: true}
		for _, o := range x.e.callValue(o.st, o.ret, []Val{o.st.mon["consumer"]}, nil, sigOf(o.ret), nil) {
			x.obligation(ruleQCrash)
			if o.panic != "" {
				x.suspect(o.st, "C19 C20 C21", ruleQCrash, "panics", where, o.panic)
				continue
			}
			same(o.st)
			x.obligation(ruleGivenOnce)
			if o.st.mon["late"] != nil {
				x.suspect(o.st, "C21", ruleGivenOnce, "stopped", where, "the sequence goes on once its consumer has stopped")
				continue
			}
			if o.st.mon["stopped"] != nil {
				continue
			}
			x.answer(o.st, q, nil, where, n)
		}
	}
}

// consume is the consumer of a query's sequence, which may stop at any datum.
func (x *DB) consume(st *State, c *CallCtx) []Outcome {
	if st.mon["stopped"] != nil {
		st.mon["late"] = boolV(true)
		return ret(st, boolV(false))
	}
	d, ok := st.dn(c.Args[0]).(*Struct)
	if !ok {
		x.e.failf("a sequence gives %s", shortKey(c.Args[0]))
	}
	st.mon["yielded"] = push(st.mon["yielded"], d)
	stop := st.clone()
	stop.mon["stopped"] = boolV(true)
	return []Outcome{{st: st, ret: boolV(true)}, {st: stop, ret: boolV(false)}}
}

// asked resolves the claim by the rules, to the fields which are given and the datum which has them, or to neither.
func (s *dbSpec) asked(st *State, f func(st *State, pat string, d *Struct, why string)) {
	x := s.x
	st.mon["ask"] = x.mk(x.idc(0), x.idc(0), nilV, x.idc(0))
	none := func(st *State, why string) { f(st, "", nil, why) }
	set := func(st *State, i int, v Val) {
		d := st.mon["ask"].(*Struct)
		fs := append([]Val{}, d.Fs...)
		fs[i] = st.dn(v)
		st.mon["ask"] = &Struct{Typ: d.Typ, Fs: fs}
	}
	fieldT := func(n string) types.Type {
		return x.tClaim.Underlying().(*types.Struct).Field(fieldIndex(x.tClaim, n)).Type()
	}
	get := func(n string) func(st *State) Val { return func(st *State) Val { return s.claim(st, 0, n) } }
	pay := func(n string) func(st *State) Val {
		return func(st *State) Val {
			if y, ok := s.claim(st, 0, n).(*Iface); ok {
				return y.V
			}
			return nilV
		}
	}
	ref := func(st *State, n, kind string, f func(st *State, id Val)) {
		switch kind {
		case "ID":
			f(st, st.dn(pay(n)(st)))
		case "Ident":
			s.ident(st, pay(n)(st), f)
		case "LookupRef":
			s.lookup(st, pay(n), f)
		default:
			f(st, nil)
		}
	}
	value := func(st *State, pat string) {
		fin := func(st *State, kind string, v Val) {
			set(st, x.fV, v)
			d := func(st *State) *Struct { return x.nd(st, st.mon["ask"].(*Struct)) }
			if !strings.Contains(pat, "A") {
				f(st, pat+"V", d(st), "")
				return
			}
			s.typeIs(st, d(st).Fs[x.fA], kind, func(st *State, r bool) {
				if !r {
					none(st, "a value which is not of the attribute's type")
					return
				}
				f(st, pat+"V", d(st), "")
			})
		}
		s.kind(st, get("V"), fieldT("V"), func(st *State, kind string, v Val) {
			switch kind {
			case "nil":
				f(st, pat, x.nd(st, st.mon["ask"].(*Struct)), "")
			case "Ident", "LookupRef":
				ref(st, "V", kind, func(st *State, id Val) {
					if id == nil {
						none(st, "a value reference which does not resolve ("+kind+")")
						return
					}
					fin(st, "ID", &Iface{Dyn: x.tID, V: id})
				})
			case "TempID":
				none(st, "a temporary id")
			default:
				fin(st, kind, get("V")(st))
			}
		})
	}
	part := func(st *State, n string, i int, pat string, next func(st *State, pat string)) {
		s.kind(st, get(n), fieldT(n), func(st *State, kind string, v Val) {
			if kind == "nil" {
				next(st, pat)
				return
			}
			ref(st, n, kind, func(st *State, id Val) {
				if id == nil {
					none(st, "a reference which does not resolve ("+kind+")")
					return
				}
				set(st, i, id)
				if kind != "ID" {
					next(st, pat+n)
					return
				}
				// The zero id is an empty value.
				s.zero(st, id, func(st *State, z bool) {
					if z {
						next(st, pat)
						return
					}
					next(st, pat+n)
				})
			})
		})
	}
	part(st, "E", x.fE, "", func(st *State, pat string) {
		part(st, "A", x.fA, pat, func(st *State, pat string) { value(st, pat) })
	})
}

// answer judges what the query gave: the result, or if none the datums it yielded.
func (x *DB) answer(st *State, q *dbQuery, res Val, where string, n map[string]int) {
	if res != nil {
		st.mon["result"] = res
	}
	s := &dbSpec{x: x}
	s.asked(st, func(st *State, pat string, d *Struct, why string) {
		n["worlds"]++
		rule, props := ruleAnswer, "C19"
		judge := func(st *State, hits []Val) {
			x.obligation(rule)
			if res != nil {
				got := st.dn(st.mon["result"])
				want := Val(mkInt(int64(len(hits))))
				if q.method == "Has" {
					want = boolV(len(hits) > 0)
				}
				x.br(st, st.mkEqV(got, want), func(st *State, r bool) {
					if !r {
						x.suspect(st, props, rule, "wrong", where, fmt.Sprintf("%s gives %s, but should give %s%s", q.method, shortKey(got), shortKey(want), because(why)))
					}
				})
				return
			}
			st.mon["want"] = &Tuple{Vs: hits}
			x.yieldedAll(st, 0, props, rule, where, because(why))
		}
		if d == nil {
			rule, props = ruleNoMatch, "C20"
			judge(st, nil)
			return
		}
		x.enumerate(st, x.specObj, pat, d, x.bound, false, judge)
	})
}

func because(why string) string {
	if why == "" {
		return ""
	}
	return ", the claim having " + why
}

// yieldedAll compares what was yielded from the i-th on with what should be.
func (x *DB) yieldedAll(st *State, i int, props, rule, where, why string) {
	ys := tuple(st.mon["yielded"])
	if i >= len(ys) {
		if len(ys) < len(tuple(st.mon["want"])) {
			x.suspect(st, props, rule, "datum missing", where, "the query does not give a datum which matches: "+shortKey(st.dn(st.mon["want"])))
		}
		return
	}
	y := x.nd(st, ys[i].(*Struct))
	x.obligation(ruleGivenOnce)
	x.anyOf(st, "EAV", ys[:i], y, func(st *State, k int) {
		if k >= 0 {
			x.suspect(st, "C19 C21", ruleGivenOnce, "datum twice", where, "the query gives a datum twice")
			return
		}
		y := x.nd(st, tuple(st.mon["yielded"])[i].(*Struct))
		x.anyOf(st, "EAV", tuple(st.mon["want"]), y, func(st *State, k int) {
			if k < 0 {
				x.suspect(st, props, rule, "datum too many", where, "the query gives a datum which does not match: "+shortKey(y)+why)
				return
			}
			y := x.nd(st, tuple(st.mon["yielded"])[i].(*Struct))
			w := x.nd(st, tuple(st.mon["want"])[k].(*Struct))
			x.must(st, st.mkEqV(y.Fs[x.fT], w.Fs[x.fT]), "C19 C17", rule, "transaction", where, "the query gives a datum with another transaction", func(st *State) {
				x.yieldedAll(st, i+1, props, rule, where, why)
			})
		})
	})
}

// resolves judges the resolution of idents and of attributes' ids by snapshots.
func (x *DB) resolves() {
	x.sh = &dbShape{name: "a resolution"}
	x.bound = 1
	x.rolePaths(x.generalise())
	one := func(method, arg string, want func(st *State, v Val, f func(st *State, want Val)), props string) {
		st := x.generalise()
		v := x.symOf("given", arg)
		x.snapshot(st, func(st *State, p *Ptr) {
			fn := x.r.p.method(st.obj(p.Obj).Typ, method)
			if fn == nil {
				x.e.failf("snapshots have no method %s", method)
			}
			where := x.e.p.pos(fn.Pos()) + " in " + fnName(fn)
			for _, o := range x.e.invoke(st, &FuncV{Fn: fn}, p, v) {
				x.obligation(ruleQCrash)
				if o.panic != "" {
					x.suspect(o.st, "C20 "+props, ruleQCrash, method+" panics", where, o.panic)
					continue
				}
				o.st.mon["result"] = o.ret
				want(o.st, v, func(st *State, want Val) {
					got := st.dn(st.mon["result"])
					x.must(st, st.mkEqV(got, want), props, ruleResolve, method, where, method+" gives "+shortKey(got)+", but should give "+shortKey(want), func(*State) {})
				})
			}
		})
	}
	one("ResolveIdent", "Ident", func(st *State, v Val, f func(st *State, want Val)) {
		x.first(st, x.specObj, "AV", x.mk(x.idc(0), x.sysID("DbIdent"), &Iface{Dyn: x.e.mustType(typesPkg, "String"), V: v}, x.idc(0)), func(st *State, hit *Struct) {
			if hit == nil {
				f(st, x.idc(0))
				return
			}
			f(st, hit.Fs[x.fE])
		})
	}, "C14")
	one("ResolveAttrIdent", "ID", func(st *State, v Val, f func(st *State, want Val)) {
		x.br(st, st.mkEqV(st.mk("Type", x.tID, v), x.idc(0)), func(st *State, none bool) {
			if none {
				f(st, mkStr(""))
				return
			}
			f(st, st.mk("AIdent", x.tIdent, st.dn(v)))
		})
	}, "C08")
}
