package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
)

// The public database is interpreted as a whole, from a request to the assembled entity, on shapes of
// requests. The balanced trees are models of sorted lists, kept by the orders which the indexes give them.

// pinned makes the call with the values kept, whatever its frames no longer refer to.
func (e *Engine) pinned(st *State, vs []Val, call func() []Outcome, then func(o Outcome, vs []Val) []Outcome) (outs []Outcome) {
	n := 0
	for k := range st.mon {
		if strings.HasPrefix(k, "pin:") {
			n++
		}
	}
	key := fmt.Sprintf("pin:%d", n)
	st.mon[key] = &Tuple{Vs: vs}
	for _, o := range call() {
		t := tuple(o.st.mon[key])
		delete(o.st.mon, key)
		if o.panic != "" {
			outs = append(outs, o)
			continue
		}
		outs = append(outs, then(o, t)...)
	}
	return
}

// treeModels models the trees and the pull iterators by lists.
func treeModels(e *Engine) {
	m := e.models
	for k := range m {
		if strings.HasSuffix(k, "types.NewError") {
			delete(m, k)
		}
	}
	tree := func(v Val) string {
		p, ok := v.(*Ptr)
		if !ok {
			e.failf("not a known tree: %s", shortKey(v))
		}
		return p.Obj
	}
	m[btreePkg+".NewG"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
		id := st.newObj(&Obj{Kind: listObj, Typ: t, Len: mkInt(0), Attrs: map[string]Val{"less": c.Args[1]}})
		return ret(st, &Ptr{Obj: id}), true
	}
	m[btreeName("Clone")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		o := st.obj(tree(c.Args[0]))
		id := st.newObj(&Obj{Kind: listObj, Typ: o.Typ, Len: o.Len, Els: append([]Val{}, o.Els...), Attrs: map[string]Val{"less": o.attr("less")}})
		return ret(st, &Ptr{Obj: id}), true
	}
	// less gives the worlds in which one item is before the other or not. The arguments of the operation may be
	// known by other terms afterwards.
	less := func(st *State, id string, a, b Val, c *CallCtx, f func(*State, bool, *CallCtx) []Outcome) []Outcome {
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
		return e.pinned(st, c.Args, func() []Outcome {
			// An order which need not have looked at the values has learnt nothing of them.
			was := st.clone()
			outs := e.callValue(st, st.obj(id).attr("less"), []Val{a, b}, c.Site, sig, nil)
			if len(outs) < 2 {
				return outs
			}
			first, ok := constBool(outs[0].ret)
			for _, o := range outs {
				r, isConst := constBool(o.ret)
				ok = ok && o.panic == "" && isConst && r == first
			}
			if ok {
				return ret(was, boolV(first))
			}
			return outs
		}, func(o Outcome, vs []Val) (outs []Outcome) {
			for _, w := range e.branch(o.st, o.ret) {
				n := *c
				n.Args = nil
				for _, v := range vs {
					n.Args = append(n.Args, w.st.normDeep(v))
				}
				outs = append(outs, f(w.st, w.r, &n)...)
			}
			return
		})
	}
	// find gives the position of the first item which is not before the k-th argument.
	var find func(st *State, id string, k, lo, hi int, c *CallCtx, f func(*State, int, *CallCtx) []Outcome) []Outcome
	find = func(st *State, id string, k, lo, hi int, c *CallCtx, f func(*State, int, *CallCtx) []Outcome) []Outcome {
		if lo == hi {
			return f(st, lo, c)
		}
		mid := (lo + hi) / 2
		return less(st, id, st.obj(id).Els[mid], c.Args[k], c, func(st *State, before bool, c *CallCtx) []Outcome {
			if before {
				return find(st, id, k, mid+1, hi, c, f)
			}
			return find(st, id, k, lo, mid, c, f)
		})
	}
	// locate also tells whether the item at the position equals the given one.
	locate := func(st *State, c *CallCtx, f func(st *State, id string, at int, found bool, c *CallCtx) []Outcome) []Outcome {
		id := tree(c.Args[0])
		return find(st, id, 1, 0, len(st.obj(id).Els), c, func(st *State, at int, c *CallCtx) []Outcome {
			els := st.obj(id).Els
			if at == len(els) {
				return f(st, id, at, false, c)
			}
			return less(st, id, c.Args[1], els[at], c, func(st *State, before bool, c *CallCtx) []Outcome {
				return f(st, id, at, !before, c)
			})
		})
	}
	item := func(c *CallCtx) types.Type { return c.Sig.Params().At(0).Type() }
	m[btreeName("Has")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return locate(st, c, func(st *State, id string, at int, found bool, c *CallCtx) []Outcome { return ret(st, boolV(found)) }), true
	}
	m[btreeName("Get")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return locate(st, c, func(st *State, id string, at int, found bool, c *CallCtx) []Outcome {
			if !found {
				return ret(st, &Tuple{Vs: []Val{zeroVal(item(c)), boolV(false)}})
			}
			return ret(st, &Tuple{Vs: []Val{st.obj(id).Els[at], boolV(true)}})
		}), true
	}
	m[btreeName("Delete")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return locate(st, c, func(st *State, id string, at int, found bool, c *CallCtx) []Outcome {
			if !found {
				return ret(st, &Tuple{Vs: []Val{zeroVal(item(c)), boolV(false)}})
			}
			o := st.wobj(id)
			old := o.Els[at]
			o.Els = append(append([]Val{}, o.Els[:at]...), o.Els[at+1:]...)
			o.Len = mkInt(int64(len(o.Els)))
			return ret(st, &Tuple{Vs: []Val{old, boolV(true)}})
		}), true
	}
	m[btreeName("ReplaceOrInsert")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return locate(st, c, func(st *State, id string, at int, found bool, c *CallCtx) []Outcome {
			o := st.wobj(id)
			if found {
				old := o.Els[at]
				o.Els = append([]Val{}, o.Els...)
				o.Els[at] = c.Args[1]
				return ret(st, &Tuple{Vs: []Val{old, boolV(true)}})
			}
			els := append([]Val{}, o.Els[:at]...)
			els = append(append(els, c.Args[1]), o.Els[at:]...)
			o.Els = els
			o.Len = mkInt(int64(len(els)))
			return ret(st, &Tuple{Vs: []Val{zeroVal(item(c)), boolV(false)}})
		}), true
	}
	m[btreeName("Len")] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return ret(st, mkInt(int64(len(st.obj(tree(c.Args[0])).Els)))), true
	}
	// each gives the consumer the items until it stops.
	var each func(st *State, items []Val, f Val, c *CallCtx) []Outcome
	each = func(st *State, items []Val, f Val, c *CallCtx) []Outcome {
		if len(items) == 0 {
			return ret(st, &Tuple{})
		}
		sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
		return e.pinned(st, append([]Val{f}, items[1:]...), func() []Outcome {
			return e.callValue(st, f, []Val{st.normDeep(items[0])}, c.Site, sig, nil)
		}, func(o Outcome, vs []Val) (outs []Outcome) {
			for _, w := range e.branch(o.st, o.ret) {
				if w.r {
					outs = append(outs, each(w.st, vs[1:], vs[0], c)...)
				} else {
					outs = append(outs, Outcome{st: w.st, ret: &Tuple{}})
				}
			}
			return
		})
	}
	scan := func(pivot, upper, iter int) Model {
		return func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			id := tree(c.Args[0])
			bound := func(st *State, k, none int, c *CallCtx, f func(*State, int, *CallCtx) []Outcome) []Outcome {
				if k == 0 {
					return f(st, none, c)
				}
				return find(st, id, k, 0, len(st.obj(id).Els), c, f)
			}
			return bound(st, pivot, 0, c, func(st *State, lo int, c *CallCtx) []Outcome {
				return bound(st, upper, len(st.obj(id).Els), c, func(st *State, hi int, c *CallCtx) []Outcome {
					if hi < lo {
						hi = lo
					}
					return each(st, append([]Val{}, st.obj(id).Els[lo:hi]...), c.Args[iter], c)
				})
			}), true
		}
	}
	m[btreeName("AscendGreaterOrEqual")] = scan(1, 0, 2)
	m[btreeName("AscendRange")] = scan(1, 2, 3)
	m[btreeName("AscendLessThan")] = scan(0, 1, 2)
	m[btreeName("Ascend")] = scan(0, 0, 1)
	// A pull iterator is given everything at once: the sequences of immutable trees have no effects.
	m["iter.Pull"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		et := c.Sig.Results().At(0).Type().Underlying().(*types.Signature).Results().At(0).Type()
		id := st.newObj(&Obj{Kind: listObj, Typ: et, Len: mkInt(0), Attrs: map[string]Val{"at": mkInt(0)}})
		p := &Ptr{Obj: id}
		sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
		return e.pinned(st, []Val{p}, func() []Outcome {
			return e.callValue(st, c.Args[0], []Val{&App{Op: "pullall", Args: []Val{p}}}, c.Site, sig, nil)
		}, func(o Outcome, vs []Val) []Outcome {
			o.ret = &Tuple{Vs: []Val{&App{Op: "pullone", Args: []Val{vs[0]}}, &App{Op: "pullend", Args: []Val{vs[0]}}}}
			return []Outcome{o}
		}), true
	}
	before := m["value"]
	m["value"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		a, ok := c.Recv.(*App)
		if ok && len(a.Args) == 1 {
			if p, ok := a.Args[0].(*Ptr); ok {
				switch a.Op {
				case "pullall":
					o := st.wobj(p.Obj)
					o.Els = append(append([]Val{}, o.Els...), c.Args[0])
					o.Len = mkInt(int64(len(o.Els)))
					return ret(st, boolV(true)), true
				case "pullone":
					o := st.wobj(p.Obj)
					n, _ := constInt(o.attr("at"))
					if int(n) >= len(o.Els) {
						return ret(st, &Tuple{Vs: []Val{zeroVal(o.Typ), boolV(false)}}), true
					}
					o.Attrs["at"] = mkInt(n + 1)
					return ret(st, &Tuple{Vs: []Val{o.Els[n], boolV(true)}}), true
				case "pullend":
					o := st.wobj(p.Obj)
					o.Attrs["at"] = mkInt(int64(len(o.Els)))
					return ret(st, &Tuple{}), true
				}
			}
		}
		if before != nil {
			return before(e, st, c)
		}
		return nil, false
	}
}

const wholeDocs = `
type whole struct {
	original  any
	assembled any
	shred     error
	write     error
}

func ptr[T any](x T) *T { return &x }

// around writes the struct in one of several surroundings, and reads it.
func around[T any](o int, x any) (t whole) {
	t.original = x
	_, _, t.shred = shredder.NewShredder(models.BuildCachingAnalyzer()).Shred(shredder.Document{Assertions: []any{x}})
	db := database.NewDatabase(database.Config{})
	for range 12 {
		db.Write(database.Request{})
	}
	if o == 1 {
		db.Write(database.Request{Assertions: []any{before{A: "before", B: []beforeElem{{"one"}, {"two"}}, C: []int{3, 4}}}})
	}
	res := db.Write(database.Request{Assertions: []any{x}})
	t.write = res.Error
	if res.Error != nil {
		return
	}
	snap := res.Snap
	if o == 1 {
		db.Write(database.Request{Assertions: []any{before{A: "after", B: []beforeElem{{"three"}}, C: []int{5}}}})
		snap = db.Read()
	}
	ts, err := database.BuildTypedSnapshot[T](snap)
	if err != nil {
		t.write = err
		return
	}
	t.assembled = ts.Find(res.IDs[0])
	return
}

type before struct {
	A string       "attr:\"t/n1\""
	B []beforeElem "attr:\"u/b\""
	C []int        "attr:\"u/c,value=u/d\""
}
type beforeElem struct {
	A string "attr:\"u/a\""
}
`

// wholeSource is the source of the scenarios of the public database.
func wholeSource() string {
	src := docImports("internal/types", "internal/structs/models", "internal/structs/shredder", "pkg/database")
	src += "var _ Claim\n" + namedScalars + asmMore + wholeDocs
	docs := asmTypes + tripTypes + tripTrips
	docs = strings.ReplaceAll(docs, "func ptr[T any](x T) *T { return &x }\n", "")
	docs = regexp.MustCompile(`\) trip\b`).ReplaceAllString(docs, ") whole")
	docs = regexp.MustCompile(`\b(ID: |uint64[A-Za-z*]*\{|, )([5-9])\b`).ReplaceAllString(docs, "${1}0x10000${2}")
	docs = regexp.MustCompile(`\b([5-9]): \{`).ReplaceAllString(docs, "0x10000$1: {")
	return src + strings.ReplaceAll(docs, "$", "t/")
}

const (
	ruleWholeEqual = "what is found in the database equals what was written to it"
	ruleWholeTakes = "what can be shredded can be written"
	ruleWholeCrash = "no struct crashes the database"
)

func checkWhole(r *Report) {
	p, err := structProgram(r.p.root, wholeSource())
	if err != nil {
		r.attempts++
		r.undecided(ruleWholeEqual, "program", "the scenarios do not load: %v", err)
		return
	}
	e := structEngine(p)
	treeModels(e)
	e.maxPath = 600000
	for _, rule := range []string{ruleWholeEqual, ruleWholeTakes, ruleWholeCrash} {
		r.rule(rule)
	}
	where := "pkg/database/impl.go"
	if f := p.method(p.typ("pkg/database", "localDatabase"), "Write"); f != nil {
		where = p.pos(f.Pos()) + " in " + fnName(f)
	}
	steps, longest := 0, 0
	only := os.Getenv("SHAPES")
	for _, name := range docFuncs(p, "T_") {
		if only != "" && !regexp.MustCompile(only).MatchString(name) {
			continue
		}
		fn := p.fn(docsPkg, name)
		for o := int64(0); o < 2; o++ {
			args := []Val{mkInt(o)}
			for i := 1; i < fn.Signature.Params().Len(); i++ {
				v := fn.Signature.Params().At(i)
				args = append(args, &Sym{Name: v.Name(), Typ: v.Type(), Rigid: true})
			}
			subject := fmt.Sprintf("the round trip of %s", strings.TrimPrefix(name, "T_"))
			r.ends(e, ruleWholeEqual, ruleWholeCrash, subject, where, func() {
				e.steps, e.longest = 0, 0
				st := e.newState()
				if strings.Contains(name, "mapBy") {
					equalToSelf(st, args)
				}
				for _, out := range e.invoke(st, &FuncV{Fn: fn}, args...) {
					if !r.check(out.panic == "", ruleWholeCrash, subject, where, "panics: %s", out.panic) {
						return
					}
					fine := true
					inWorlds(e, out.st, func(st *State) {
						if fine {
							fine = wholeCheck(r, p, st, subject, where, out.ret)
						}
					})
					if !fine {
						return
					}
				}
			})
			if os.Getenv("DEBUG") != "" {
				fmt.Fprintln(os.Stderr, name, o, e.steps, e.longest)
			}
			steps += e.steps
			longest = max(longest, e.longest)
		}
	}
	e.steps = steps
	r.use(e)
}

// unrecorded are the round trips of structs of which no field is recorded: they are no entities.
var unrecorded = map[string]bool{"the round trip of pointersNone": true}

func wholeCheck(r *Report, p *Program, st *State, subject, where string, ret Val) bool {
	t, ok := st.norm(ret).(*Struct)
	if !ok {
		st.eng.failf("a trip is not known")
	}
	get := func(n string) Val { return st.norm(t.Fs[fieldIndex(t.Typ, n)]) }
	if !isNilError(st, get("shred")) {
		return r.check(!isNilError(st, get("write")), ruleWholeTakes, subject, where, "what cannot be shredded is written")
	}
	if !r.check(isNilError(st, get("write")), ruleWholeTakes, subject, where, "it is rejected: %s", shortKey(st.normDeep(get("write")))) {
		return false
	}
	bad := compareTrip(p, st, get("original"), get("assembled"), !unrecorded[subject])
	return r.check(bad == "", ruleWholeEqual, subject, where, "%s", bad)
}
