package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "Every comparison function of the index package (every function value in a package variable of an index type, and every package function named Less*/Compare* of that shape, in every instantiation in the program) is interpreted abstractly for each of the 27 possible orders of the two datums' entity, attribute and value (and, for floats, the NaN classes), with nothing else known of the datums. The rule: the result is the lexicographic order of the fields in the function's name, or that of the index variable's name, on every path. All cases are finite and enumerated, so the orders are total and strict on every value.", checkC15)
}

type relation struct {
	name  string
	facts func(st *State, a, b Val) bool
	sign  int
}

func relT(op string, a, b Val) *App {
	return &App{Op: op, Args: []Val{a, b}, Typ: types.Typ[types.Bool]}
}

// relations are the possible orders of two values of the type.
func relations(t types.Type) []relation {
	if !isFloat(t) {
		return []relation{
			{"<", func(st *State, a, b Val) bool {
				return st.assume(relT("lt", a, b), true) && st.assume(mkEq(a, b), false) && st.assume(relT("lt", b, a), false)
			}, -1},
			{"=", func(st *State, a, b Val) bool { return st.assume(mkEq(a, b), true) }, 0},
			{">", func(st *State, a, b Val) bool {
				return st.assume(relT("lt", b, a), true) && st.assume(mkEq(a, b), false) && st.assume(relT("lt", a, b), false)
			}, 1},
		}
	}
	put := func(st *State, t Val, b bool) bool { return st.addFact(t, boolV(b)) }
	self := func(st *State, v Val, num bool) bool {
		return put(st, mkEq(v, v), num) && put(st, &App{Op: "math.IsNaN", Args: []Val{v}}, !num)
	}
	cmpeq := func(st *State, a, b Val, r bool) bool {
		if a.Key() > b.Key() {
			a, b = b, a
		}
		return put(st, relT("cmpeq", a, b), r)
	}
	all := func(st *State, a, b Val, raw bool, sign int) bool {
		return put(st, relT("cmplt", a, b), sign < 0) && put(st, relT("cmplt", b, a), sign > 0) && cmpeq(st, a, b, sign == 0) &&
			put(st, relT("lt", a, b), raw && sign < 0) && put(st, relT("lt", b, a), raw && sign > 0) && put(st, mkEq(a, b), raw && sign == 0)
	}
	return []relation{
		{"<", func(st *State, a, b Val) bool {
			return self(st, a, true) && self(st, b, true) && all(st, a, b, true, -1)
		}, -1},
		{"=", func(st *State, a, b Val) bool {
			return self(st, a, true) && self(st, b, true) && all(st, a, b, true, 0)
		}, 0},
		{">", func(st *State, a, b Val) bool {
			return self(st, a, true) && self(st, b, true) && all(st, a, b, true, 1)
		}, 1},
		{"NaN,number", func(st *State, a, b Val) bool {
			return self(st, a, false) && self(st, b, true) && all(st, a, b, false, -1)
		}, -1},
		{"number,NaN", func(st *State, a, b Val) bool {
			return self(st, a, true) && self(st, b, false) && all(st, a, b, false, 1)
		}, 1},
		{"NaN,NaN", func(st *State, a, b Val) bool {
			return self(st, a, false) && self(st, b, false) && all(st, a, b, false, 0)
		}, 0},
	}
}

// orderOf extracts the field order from a name, e.g. LessEAV or EAVIndex.
func orderOf(name string) string {
	name = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(name, "Less"), "Compare"), "Index")
	if name == "All" {
		return "-"
	}
	if name == "" || strings.Trim(name, "EAV") != "" {
		return ""
	}
	return name
}

func checkC15(r *Report) {
	e := initEngine(r.p)
	defer r.use(e)
	const rule = "index orders"
	it := e.mustType("internal/index", "IndexType")
	r.rule(rule)
	globals := e.globalsOf("internal/index", it)
	for _, name := range sortedKeys(globals) {
		order := orderOf(name)
		if order == "" {
			r.undecided(rule, name, "the name of the index type does not give its order")
			continue
		}
		s, ok := globals[name].(*Struct)
		if !ok {
			r.undecided(rule, name, "the index type has no known contents")
			continue
		}
		for i, f := range s.Fs {
			subject := name + "." + it.Underlying().(*types.Struct).Field(i).Name()
			r.attempt(rule, subject, func() { compareOrder(r, e, rule, subject, f, order) })
		}
	}
	if len(globals) < 4 {
		r.undecided(rule, "index types", "expected at least 4 index types, found %d", len(globals))
	}
	// The partial comparisons, in every instantiation in use.
	const rule2 = "partial comparisons"
	r.rule(rule2)
	n := 0
	for _, fn := range r.p.funcs {
		if fnPkg(fn) != modPath+"/internal/index" || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		base := fn.Name()
		if o := fn.Origin(); o != nil {
			base = o.Name()
		} else if fn.TypeParams().Len() > 0 {
			continue
		}
		if !strings.HasPrefix(base, "Compare") && !strings.HasPrefix(base, "Less") {
			continue
		}
		order := orderOf(base)
		if order == "" {
			continue
		}
		n++
		subject := fnName(fn)
		r.attempt(rule2, subject, func() { compareOrder(r, e, rule2, subject, &FuncV{Fn: fn}, order) })
	}
	if n == 0 {
		r.undecided(rule2, "functions", "no comparison functions found")
	}
}

// compareOrder interprets the comparison for every order of the fields.
func compareOrder(r *Report, e *Engine, rule, subject string, f Val, order string) {
	fv, ok := f.(*FuncV)
	if !ok {
		r.undecided(rule, subject, "not a known function: %s", shortKey(f))
		return
	}
	dt := fv.Fn.Signature.Params().At(0).Type()
	ei, ai, vi := fieldIndex(dt, "E"), fieldIndex(dt, "A"), fieldIndex(dt, "V")
	if ei < 0 || ai < 0 || vi < 0 {
		r.undecided(rule, subject, "the datum type has no fields E, A and V")
		return
	}
	ft := func(i int) types.Type { return dt.Underlying().(*types.Struct).Field(i).Type() }
	for _, re := range relations(ft(ei)) {
		for _, ra := range relations(ft(ai)) {
			for _, rv := range relations(ft(vi)) {
				st := e.newState()
				d1, d2 := rigidVal(dt, "d1").(*Struct), rigidVal(dt, "d2").(*Struct)
				if !re.facts(st, d1.Fs[ei], d2.Fs[ei]) || !ra.facts(st, d1.Fs[ai], d2.Fs[ai]) || !rv.facts(st, d1.Fs[vi], d2.Fs[vi]) {
					e.failf("inconsistent facts")
				}
				want := 0
				for _, c := range order {
					s := map[rune]int{'E': re.sign, 'A': ra.sign, 'V': rv.sign}[c]
					if want == 0 {
						want = s
					}
				}
				// The arguments are as the facts have it.
				a1, a2 := st.normDeep(d1), st.normDeep(d2)
				outs := e.invoke(st, f, a1, a2)
				desc := fmt.Sprintf("E %s, A %s, V %s", re.name, ra.name, rv.name)
				good := len(outs) > 0
				got := ""
				for _, o := range outs {
					if o.panic != "" {
						good, got = false, o.panic
						continue
					}
					if b, isB := constBool(o.ret); isB {
						if b != (want < 0) {
							good, got = false, fmt.Sprint(b)
						}
						continue
					}
					if x, known := o.st.decide(o.ret); known {
						if x != (want < 0) {
							good, got = false, fmt.Sprint(x)
						}
						continue
					}
					if n, isI := constInt(o.st.norm(o.ret)); isI {
						if (n < 0) != (want < 0) || (n > 0) != (want > 0) {
							good, got = false, fmt.Sprint(n)
						} else if n < -1 || n > 1 {
							good, got = false, fmt.Sprintf("%d, which is none of -1, 0 and 1", n)
						}
						continue
					}
					good, got = false, "depends on more than the order of the fields: "+shortKey(o.ret)
				}
				r.check(good, rule, subject, r.p.pos(fv.Fn.Pos()), "for datums of which %s, the result %s is not the order by %s", desc, got, order)
			}
		}
	}
}

var _ *ssa.Function
