package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable; two values with the same key denote the same
// concrete value within one abstract state.
type Val interface {
	Key() string
}

// Const is a basic constant, of a possibly named type.
type Const struct {
	Typ types.Type
	V   constant.Value
	key string
}

// NilV is the nil value of any type.
type NilV struct{}

// Sym is an unknown value.
type Sym struct {
	Name  string
	Typ   types.Type
	Rigid bool // an input of the scenario, never renamed
	key   string
}

// App is an uninterpreted application of a pure operation.
type App struct {
	Op   string
	Args []Val
	Typ  types.Type
	key  string
	dep  int
}

// Struct is a struct or a small array value.
type Struct struct {
	Typ types.Type
	Fs  []Val
	key string
}

// Iface is a non-nil interface value of a known dynamic type.
type Iface struct {
	Dyn types.Type
	V   Val
	key string
}

// Ptr is a pointer to an abstract object, or to a field or element of it.
type Ptr struct {
	Obj  string
	Path string // ".0.1" field or element indexes
}

// SliceV is a slice. If concrete, its elements are those of the array object from Lo to Hi.
type SliceV struct {
	Obj      string
	Path     string
	Lo, Hi   int // concrete bounds
	Concrete bool
	Clipped  bool // capacity is length
}

// FuncV is a function value.
type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
	key   string
}

// Tuple is a tuple of results.
type Tuple struct {
	Vs []Val
}

// Builtin is a builtin function value.
type BuiltinV struct{ Name string }

func typKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *Const) Key() string {
	if c.key == "" {
		c.key = c.V.ExactString()
		if c.V.Kind() == constant.Float {
			c.key = "f" + c.key
		}
	}
	return c.key
}
func (NilV) Key() string { return "nil" }
func (s *Sym) Key() string {
	if s.key == "" {
		s.key = "$" + s.Name + "~"
	}
	return s.key
}
func (a *App) Key() string {
	if a.key == "" {
		var b strings.Builder
		b.WriteString(a.Op)
		b.WriteByte('(')
		for i, x := range a.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.Key())
		}
		b.WriteByte(')')
		a.key = b.String()
	}
	return a.key
}
func (s *Struct) Key() string {
	if s.key == "" {
		var b strings.Builder
		b.WriteByte('{')
		for i, x := range s.Fs {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.Key())
		}
		b.WriteByte('}')
		s.key = b.String()
	}
	return s.key
}
func (i *Iface) Key() string {
	if i.key == "" {
		i.key = "<" + typKey(i.Dyn) + ":" + i.V.Key() + ">"
	}
	return i.key
}
func (p *Ptr) Key() string { return "&" + p.Obj + p.Path }
func (s *SliceV) Key() string {
	c := ""
	if s.Clipped {
		c = "!"
	}
	if s.Concrete {
		return fmt.Sprintf("[%s%s:%d:%d]%s", s.Obj, s.Path, s.Lo, s.Hi, c)
	}
	return "[" + s.Obj + "]" + c
}
func (f *FuncV) Key() string {
	if f.key == "" {
		var b strings.Builder
		b.WriteString("fn:" + f.Fn.String())
		if len(f.Binds) > 0 {
			b.WriteByte('(')
			for _, x := range f.Binds {
				b.WriteString(x.Key())
				b.WriteByte(',')
			}
			b.WriteByte(')')
		}
		f.key = b.String()
	}
	return f.key
}
func (t *Tuple) Key() string {
	var b strings.Builder
	b.WriteString("(")
	for _, x := range t.Vs {
		b.WriteString(x.Key())
		b.WriteByte(';')
	}
	b.WriteString(")")
	return b.String()
}
func (b BuiltinV) Key() string { return "builtin:" + b.Name }

func depth(v Val) int {
	switch v := v.(type) {
	case *App:
		if v.dep == 0 {
			d := 0
			for _, a := range v.Args {
				if x := depth(a); x > d {
					d = x
				}
			}
			v.dep = d + 1
		}
		return v.dep
	case *Struct:
		d := 0
		for _, a := range v.Fs {
			if x := depth(a); x > d {
				d = x
			}
		}
		return d
	case *Iface:
		return depth(v.V)
	}
	return 0
}

func app(op string, t types.Type, args ...Val) Val {
	return &App{Op: op, Args: args, Typ: t}
}

func mkInt(n int64) *Const                             { return &Const{Typ: types.Typ[types.Int], V: constant.MakeInt64(n)} }
func mkBool(b bool) *Const                             { return &Const{Typ: types.Typ[types.Bool], V: constant.MakeBool(b)} }
func mkStr(s string) *Const                            { return &Const{Typ: types.Typ[types.String], V: constant.MakeString(s)} }
func typedConst(t types.Type, v constant.Value) *Const { return &Const{Typ: t, V: v} }

var nilV = NilV{}

func isNilV(v Val) bool { _, ok := v.(NilV); return ok }

func typeOf(v Val) types.Type {
	switch v := v.(type) {
	case *Const:
		return v.Typ
	case *Sym:
		return v.Typ
	case *App:
		return v.Typ
	case *Struct:
		return v.Typ
	}
	return nil
}

// symsOf calls f with every symbol occurring in the value.
func symsOf(v Val, f func(*Sym)) {
	switch v := v.(type) {
	case *Sym:
		f(v)
	case *App:
		for _, a := range v.Args {
			symsOf(a, f)
		}
	case *Struct:
		for _, a := range v.Fs {
			symsOf(a, f)
		}
	case *Iface:
		symsOf(v.V, f)
	case *FuncV:
		for _, a := range v.Binds {
			symsOf(a, f)
		}
	case *Tuple:
		for _, a := range v.Vs {
			symsOf(a, f)
		}
	}
}

// objsOf calls f with every object the value refers to.
func objsOf(v Val, f func(string)) {
	switch v := v.(type) {
	case *Ptr:
		f(v.Obj)
	case *SliceV:
		f(v.Obj)
	case *App:
		for _, a := range v.Args {
			objsOf(a, f)
		}
	case *Struct:
		for _, a := range v.Fs {
			objsOf(a, f)
		}
	case *Iface:
		objsOf(v.V, f)
	case *FuncV:
		for _, a := range v.Binds {
			objsOf(a, f)
		}
	case *Tuple:
		for _, a := range v.Vs {
			objsOf(a, f)
		}
	}
}

// subst rewrites the value, replacing the subterm of the key.
func subst(v Val, from string, to Val) Val {
	if !strings.Contains(v.Key(), from) {
		return v
	}
	return mapVal(v, func(x Val) Val {
		if x.Key() == from {
			return to
		}
		return nil
	})
}

// mapVal rewrites the value bottom up, where f gives replacements for whole subterms or nil.
func mapVal(v Val, f func(Val) Val) Val {
	if r := f(v); r != nil {
		return r
	}
	sub := func(xs []Val) ([]Val, bool) {
		var out []Val
		for i, x := range xs {
			y := mapVal(x, f)
			if y != x && out == nil {
				out = append([]Val{}, xs...)
			}
			if out != nil {
				out[i] = y
			}
		}
		return out, out != nil
	}
	switch x := v.(type) {
	case *App:
		if ys, ok := sub(x.Args); ok {
			return simp(&App{Op: x.Op, Args: ys, Typ: x.Typ})
		}
	case *Struct:
		if ys, ok := sub(x.Fs); ok {
			return &Struct{Typ: x.Typ, Fs: ys}
		}
	case *Iface:
		y := mapVal(x.V, f)
		if y != x.V {
			return &Iface{Dyn: x.Dyn, V: y}
		}
	case *FuncV:
		if ys, ok := sub(x.Binds); ok {
			return &FuncV{Fn: x.Fn, Binds: ys}
		}
	case *Tuple:
		if ys, ok := sub(x.Vs); ok {
			return &Tuple{Vs: ys}
		}
	}
	return v
}

func mkEq(a, b Val) Val {
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return &App{Op: "eq", Args: []Val{a, b}, Typ: types.Typ[types.Bool]}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isInterface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isPointer(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// zeroVal is the zero value of the type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Const{Typ: t, V: constant.MakeBool(false)}
		case u.Info()&types.IsString != 0:
			return &Const{Typ: t, V: constant.MakeString("")}
		case u.Info()&types.IsInteger != 0:
			return &Const{Typ: t, V: constant.MakeInt64(0)}
		case u.Info()&types.IsFloat != 0:
			return &Const{Typ: t, V: constant.ToFloat(constant.MakeInt64(0))}
		case u.Info()&types.IsComplex != 0:
			return &Const{Typ: t, V: constant.ToComplex(constant.MakeInt64(0))}
		}
		return nilV
	case *types.Struct:
		if opaqueStruct(u) {
			return &App{Op: "zero:" + typKey(t.Underlying()), Typ: t}
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = zeroVal(u.Field(i).Type())
		}
		return &Struct{Typ: t, Fs: fs}
	case *types.Array:
		if u.Len() <= 256 {
			fs := make([]Val, u.Len())
			for i := range fs {
				fs[i] = zeroVal(u.Elem())
			}
			return &Struct{Typ: t, Fs: fs}
		}
		return &Sym{Name: "bigarray", Typ: t}
	case *types.Tuple:
		vs := make([]Val, u.Len())
		for i := range vs {
			vs[i] = zeroVal(u.At(i).Type())
		}
		return &Tuple{Vs: vs}
	case *types.TypeParam:
		return &Sym{Name: "zero:" + typKey(t), Typ: t}
	}
	return nilV
}

// opaqueStruct reports whether the struct is declared outside the module, so its fields are not ours to see.
func opaqueStruct(u *types.Struct) bool {
	for i := 0; i < u.NumFields(); i++ {
		p := u.Field(i).Pkg()
		if p != nil && !strings.HasPrefix(p.Path(), modPath) && !u.Field(i).Exported() {
			return true
		}
	}
	return false
}
