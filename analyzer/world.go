package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initEngine interprets the package initialisers, so the package variables have their initial contents.
func initEngine(p *Program) *Engine {
	return initEngineWith(newEngine(p))
}

func initEngineWith(e *Engine) *Engine {
	p := e.p
	st := e.newState()
	for _, rel := range sortedKeys(p.spkgs) {
		fn := p.spkgs[rel].Func("init")
		if fn == nil {
			continue
		}
		outs := e.call(st, fn, nil, nil, nil)
		if len(outs) != 1 || outs[0].panic != "" {
			e.failf("initialisation of %s is not straightforward", rel)
		}
		st = outs[0].st
	}
	for id, o := range st.mem {
		o.owner = nil
		e.base[id] = o
	}
	return e
}

// globalVal gives the value of the package variable after initialisation.
func (e *Engine) globalVal(pkg, name string) Val {
	sp := e.p.spkgs[pkg]
	if sp == nil {
		return nil
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	st := e.newState()
	ptr := e.global(st, g).(*Ptr)
	o := st.obj(ptr.Obj)
	return o.Val
}

// globalsOf gives the package variables of the type, by name.
func (e *Engine) globalsOf(pkg string, t types.Type) map[string]Val {
	out := map[string]Val{}
	sp := e.p.spkgs[pkg]
	if sp == nil || t == nil {
		return out
	}
	for n, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem(), t) {
			out[n] = e.globalVal(pkg, n)
		}
	}
	return out
}

func (e *Engine) mustType(pkg, name string) types.Type {
	t := e.p.typ(pkg, name)
	if t == nil {
		e.failf("no type %s.%s", pkg, name)
	}
	return t
}

func (e *Engine) mustFn(pkg, name string) *ssa.Function {
	f := e.p.fn(pkg, name)
	if f == nil {
		e.failf("no function %s.%s", pkg, name)
	}
	return f
}

// invoke calls the function value on fresh arguments at no site.
func (e *Engine) invoke(st *State, fn Val, args ...Val) []Outcome {
	f, ok := fn.(*FuncV)
	if !ok {
		e.failf("not a known function: %v", fn)
	}
	if f.Fn == nil || len(f.Fn.Blocks) == 0 {
		e.failf("no body of %s", f.Fn)
	}
	return e.callValue(st, fn, args, nil, f.Fn.Signature, nil)
}

func fieldIndex(t types.Type, name string) int {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func shortKey(v Val) string {
	if v == nil {
		return "<none>"
	}
	s := v.Key()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != "" && strings.Contains(fn.Synthetic, "initializer")
}

var _ = fmt.Sprint
