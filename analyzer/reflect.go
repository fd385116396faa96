package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Package reflect is modelled over the type checker's types: a reflect.Type is the term of a type, and a
// reflect.Value is the term of a value or of the place which holds it, which may be read only.

var rtypes sync.Map // by op

func rtypeOf(t types.Type) Val {
	t = types.Unalias(t)
	name := "rtype:" + types.TypeString(t, nil)
	op := name
	for n := 1; ; n++ {
		// Types of the same name may be declared in different scopes, or be of different programs.
		known, _ := rtypes.LoadOrStore(op, t)
		if types.Identical(known.(types.Type), t) {
			return &App{Op: op}
		}
		op = fmt.Sprintf("%s#%d", name, n)
	}
}

// typeOfR gives the type which the reflect.Type is of.
func typeOfR(v Val) (types.Type, bool) {
	a, ok := v.(*App)
	if !ok {
		return nil, false
	}
	t, ok := rtypes.Load(a.Op)
	if !ok {
		return nil, false
	}
	return t.(types.Type), true
}

type rval struct {
	t     types.Type
	place *Ptr // if addressable
	v     Val  // if not
	ro    bool
}

func isRVOp(op string) bool { return op == "rv" || op == "rv!" || op == "rvp" || op == "rvp!" }

func (x rval) val() Val {
	op, payload := "rv", x.v
	if x.place != nil {
		op, payload = "rvp", x.place
	}
	if x.ro {
		op += "!"
	}
	return &App{Op: op, Args: []Val{rtypeOf(x.t), payload}}
}

// asRV gives the parts of the reflect.Value, which is not valid if it is the zero one.
func asRV(v Val) (x rval, valid, known bool) {
	a, ok := v.(*App)
	if !ok {
		return x, false, false
	}
	if strings.HasPrefix(a.Op, "zero:") {
		return x, false, true
	}
	if !isRVOp(a.Op) {
		return x, false, false
	}
	t, ok := typeOfR(a.Args[0])
	if !ok {
		return x, false, false
	}
	x.t = t
	x.ro = strings.HasSuffix(a.Op, "!")
	if strings.HasPrefix(a.Op, "rvp") {
		x.place = a.Args[1].(*Ptr)
	} else {
		x.v = a.Args[1]
	}
	return x, true, true
}

func (x rval) get(e *Engine, st *State) Val {
	if x.place != nil {
		return st.norm(e.load(st, x.place, x.t, nil))
	}
	return x.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func isIntKind(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Int64 }
func isUintKind(k reflect.Kind) bool  { return k >= reflect.Uint && k <= reflect.Uintptr }
func isFloatKind(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }

func kindBits(k reflect.Kind) int {
	switch k {
	case reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	}
	return 64
}

// reflectTypes are the named types of the package.
type reflectPkg struct {
	e *Engine
	p *types.Package
}

func (x reflectPkg) typ(name string) types.Type {
	o := x.p.Scope().Lookup(name)
	if o == nil {
		x.e.failf("no type reflect.%s", name)
	}
	return o.Type()
}

func isExported(f *types.Var) bool { return f.Exported() }

func isROField(s *types.Struct, i int) bool { return !s.Field(i).Exported() }

// structField makes the description of the field.
func (x reflectPkg) structField(st *State, t types.Type, i int) Val {
	s := t.Underlying().(*types.Struct)
	f := s.Field(i)
	ft := x.typ("StructField")
	v := zeroVal(ft).(*Struct)
	fs := append([]Val{}, v.Fs...)
	set := func(n string, y Val) { fs[fieldIndex(ft, n)] = y }
	set("Name", mkStr(f.Name()))
	if !f.Exported() && f.Pkg() != nil {
		set("PkgPath", mkStr(f.Pkg().Path()))
	}
	set("Type", rtypeOf(f.Type()))
	set("Tag", &Const{Typ: x.typ("StructTag"), V: constant.MakeString(s.Tag(i))})
	set("Index", x.ints(st, i))
	set("Anonymous", boolV(f.Embedded()))
	return &Struct{Typ: ft, Fs: fs}
}

func (x reflectPkg) ints(st *State, ns ...int) Val {
	var vs []Val
	for _, n := range ns {
		vs = append(vs, mkInt(int64(n)))
	}
	return concreteSlice(st, types.Typ[types.Int], vs)
}

// concreteSlice makes a slice of an array of its own.
func concreteSlice(st *State, et types.Type, vs []Val) Val {
	at := types.NewArray(et, int64(len(vs)))
	id := st.newObj(&Obj{Kind: cellObj, Typ: at, Val: &Struct{Typ: at, Fs: vs}})
	return &SliceV{Obj: id, Lo: 0, Hi: len(vs), Concrete: true}
}

func (x reflectPkg) zero() Val { return zeroVal(x.typ("Value")) }

func reflectModels(e *Engine) {
	rp := e.p.prog.ImportedPackage("reflect")
	if rp == nil {
		return
	}
	x := reflectPkg{e, rp.Pkg}
	m := e.models
	boom := func(st *State, c *CallCtx, format string, args ...any) []Outcome {
		where := ""
		if c.Site != nil {
			where = " at " + e.p.pos(instrPos(c.Site)) + " in " + fnName(c.Site.Parent())
		}
		return []Outcome{{st: st, panic: "reflect: " + fmt.Sprintf(format, args...) + where}}
	}
	kind := func(k reflect.Kind) Val { return &Const{Typ: x.typ("Kind"), V: constant.MakeInt64(int64(k))} }

	// Functions of types.
	m["reflect.TypeOf"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		switch v := st.norm(c.Args[0]).(type) {
		case NilV:
			return ret(st, nilV), true
		case *Iface:
			return ret(st, rtypeOf(v.Dyn)), true
		}
		return nil, false
	}
	type typeFn func(st *State, c *CallCtx, t types.Type) []Outcome
	onType := func(name string, f typeFn) {
		m["invoke:reflect.Type."+name] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			t, ok := typeOfR(st.norm(c.Args[0]))
			if !ok {
				return nil, false
			}
			return f(st, c, t), true
		}
	}
	onType("Kind", func(st *State, c *CallCtx, t types.Type) []Outcome { return ret(st, kind(kindOf(t))) })
	onType("Elem", func(st *State, c *CallCtx, t types.Type) []Outcome {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return ret(st, rtypeOf(u.Elem()))
		case *types.Slice:
			return ret(st, rtypeOf(u.Elem()))
		case *types.Array:
			return ret(st, rtypeOf(u.Elem()))
		case *types.Map:
			return ret(st, rtypeOf(u.Elem()))
		case *types.Chan:
			return ret(st, rtypeOf(u.Elem()))
		}
		return boom(st, c, "Elem of invalid type %s", typKey(t))
	})
	onType("Key", func(st *State, c *CallCtx, t types.Type) []Outcome {
		if u, ok := t.Underlying().(*types.Map); ok {
			return ret(st, rtypeOf(u.Key()))
		}
		return boom(st, c, "Key of non-map type %s", typKey(t))
	})
	onType("NumField", func(st *State, c *CallCtx, t types.Type) []Outcome {
		if u, ok := t.Underlying().(*types.Struct); ok {
			return ret(st, mkInt(int64(u.NumFields())))
		}
		return boom(st, c, "NumField of non-struct type %s", typKey(t))
	})
	onType("Field", func(st *State, c *CallCtx, t types.Type) []Outcome {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return boom(st, c, "Field of non-struct type %s", typKey(t))
		}
		i, ok := constInt(st.norm(c.Args[1]))
		if !ok {
			e.failf("reflect.Type.Field of an unknown index")
		}
		if i < 0 || int(i) >= u.NumFields() {
			return boom(st, c, "Field index out of bounds")
		}
		return ret(st, x.structField(st, t, int(i)))
	})
	onType("FieldByName", func(st *State, c *CallCtx, t types.Type) []Outcome {
		n, ok := constStr(c.Args[1])
		if !ok {
			e.failf("reflect.Type.FieldByName of an unknown name")
		}
		if i := fieldIndex(t, n); i >= 0 {
			return ret(st, &Tuple{Vs: []Val{x.structField(st, t, i), boolV(true)}})
		}
		return ret(st, &Tuple{Vs: []Val{zeroVal(x.typ("StructField")), boolV(false)}})
	})
	onType("Name", func(st *State, c *CallCtx, t types.Type) []Outcome {
		switch u := t.(type) {
		case *types.Named:
			return ret(st, mkStr(u.Obj().Name()))
		case *types.Basic:
			return ret(st, mkStr(u.Name()))
		}
		return ret(st, mkStr(""))
	})
	onType("PkgPath", func(st *State, c *CallCtx, t types.Type) []Outcome {
		if u, ok := t.(*types.Named); ok && u.Obj().Pkg() != nil {
			return ret(st, mkStr(u.Obj().Pkg().Path()))
		}
		return ret(st, mkStr(""))
	})
	onType("String", func(st *State, c *CallCtx, t types.Type) []Outcome { return ret(st, mkStr(typKey(t))) })
	onType("Bits", func(st *State, c *CallCtx, t types.Type) []Outcome {
		k := kindOf(t)
		if k < reflect.Int || k > reflect.Complex128 {
			return boom(st, c, "Bits of non-arithmetic type %s", typKey(t))
		}
		if k == reflect.Complex128 {
			return ret(st, mkInt(128))
		}
		return ret(st, mkInt(int64(kindBits(k))))
	})
	onType("Comparable", func(st *State, c *CallCtx, t types.Type) []Outcome { return ret(st, boolV(types.Comparable(t))) })
	for _, n := range []string{"AssignableTo", "ConvertibleTo", "Implements"} {
		onType(n, func(st *State, c *CallCtx, t types.Type) []Outcome {
			u, ok := typeOfR(st.norm(c.Args[1]))
			if !ok {
				e.failf("reflect.Type.%s of an unknown type", n)
			}
			switch n {
			case "AssignableTo":
				return ret(st, boolV(types.AssignableTo(t, u)))
			case "ConvertibleTo":
				return ret(st, boolV(types.ConvertibleTo(t, u)))
			}
			it, ok := u.Underlying().(*types.Interface)
			if !ok {
				return boom(st, c, "Implements of non-interface type")
			}
			return ret(st, boolV(types.Implements(t, it)))
		})
	}
	typeMaker := func(name string, f func(ts []types.Type) types.Type) {
		m["reflect."+name] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			var ts []types.Type
			for _, a := range c.Args {
				t, ok := typeOfR(st.norm(a))
				if !ok {
					return nil, false
				}
				ts = append(ts, t)
			}
			return ret(st, rtypeOf(f(ts))), true
		}
	}
	typeMaker("PointerTo", func(ts []types.Type) types.Type { return types.NewPointer(ts[0]) })
	typeMaker("PtrTo", func(ts []types.Type) types.Type { return types.NewPointer(ts[0]) })
	typeMaker("SliceOf", func(ts []types.Type) types.Type { return types.NewSlice(ts[0]) })
	typeMaker("MapOf", func(ts []types.Type) types.Type { return types.NewMap(ts[0], ts[1]) })

	// Fields' descriptions.
	m["(reflect.StructField).IsExported"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := c.Args[0].(*Struct)
		if !ok {
			return nil, false
		}
		return ret(st, st.mkEqV(s.Fs[fieldIndex(x.typ("StructField"), "PkgPath")], mkStr(""))), true
	}
	lookup := func(st *State, c *CallCtx) (Val, bool) {
		tag, ok1 := constStr(c.Args[0])
		key, ok2 := constStr(c.Args[1])
		if !ok1 || !ok2 {
			e.failf("lookup of an unknown tag")
		}
		s, ok := reflect.StructTag(tag).Lookup(key)
		return template(s), ok
	}
	m["(reflect.StructTag).Lookup"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := lookup(st, c)
		return ret(st, &Tuple{Vs: []Val{s, boolV(ok)}}), true
	}
	m["(reflect.StructTag).Get"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, _ := lookup(st, c)
		return ret(st, s), true
	}
	m["reflect.VisibleFields"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t, ok := typeOfR(st.norm(c.Args[0]))
		if !ok {
			return nil, false
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return boom(st, c, "VisibleFields of non-struct type"), true
		}
		var vs []Val
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Embedded() {
				e.failf("visible fields of embedded structs")
			}
			vs = append(vs, x.structField(st, t, i))
		}
		return ret(st, concreteSlice(st, x.typ("StructField"), vs)), true
	}

	// Making values.
	m["reflect.ValueOf"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		switch v := st.norm(c.Args[0]).(type) {
		case NilV:
			return ret(st, x.zero()), true
		case *Iface:
			return ret(st, rval{t: v.Dyn, v: v.V}.val()), true
		}
		return nil, false
	}
	m["reflect.New"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t, ok := typeOfR(st.norm(c.Args[0]))
		if !ok {
			return nil, false
		}
		id := st.newObj(&Obj{Kind: cellObj, Typ: t, Val: zeroVal(t)})
		return ret(st, rval{t: types.NewPointer(t), v: &Ptr{Obj: id}}.val()), true
	}
	m["reflect.Zero"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t, ok := typeOfR(st.norm(c.Args[0]))
		if !ok {
			return nil, false
		}
		return ret(st, rval{t: t, v: zeroVal(t)}.val()), true
	}
	makeMap := func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t, ok := typeOfR(st.norm(c.Args[0]))
		if !ok {
			return nil, false
		}
		if kindOf(t) != reflect.Map {
			return boom(st, c, "MakeMap of non-map type"), true
		}
		id := st.newObj(&Obj{Kind: mapObj, Typ: t, Attrs: map[string]Val{}})
		return ret(st, rval{t: t, v: &Ptr{Obj: id}}.val()), true
	}
	m["reflect.MakeMap"] = makeMap
	m["reflect.MakeMapWithSize"] = makeMap
	m["reflect.MakeSlice"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		t, ok := typeOfR(st.norm(c.Args[0]))
		if !ok {
			return nil, false
		}
		if kindOf(t) != reflect.Slice {
			return boom(st, c, "MakeSlice of non-slice type"), true
		}
		n, ok1 := constInt(st.norm(c.Args[1]))
		k, ok2 := constInt(st.norm(c.Args[2]))
		if !ok1 || !ok2 {
			e.failf("MakeSlice of an unknown length")
		}
		if n < 0 || k < n {
			return boom(st, c, "MakeSlice of bad length"), true
		}
		if k > n {
			e.failf("MakeSlice with spare capacity")
		}
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = zeroVal(elemType(t))
		}
		return ret(st, rval{t: t, v: concreteSlice(st, elemType(t), vs)}.val()), true
	}

	// Methods of values.
	type valFn func(st *State, c *CallCtx, v rval) []Outcome
	onVal := func(name string, f valFn) {
		m["(reflect.Value)."+name] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			v, valid, known := asRV(st.norm(c.Args[0]))
			if !known {
				return nil, false
			}
			if !valid {
				return boom(st, c, "call of reflect.Value.%s on zero Value", name), true
			}
			return f(st, c, v), true
		}
	}
	m["(reflect.Value).IsValid"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		_, valid, known := asRV(st.norm(c.Args[0]))
		return ret(st, boolV(valid)), known
	}
	m["(reflect.Value).Kind"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		v, valid, known := asRV(st.norm(c.Args[0]))
		if !known {
			return nil, false
		}
		if !valid {
			return ret(st, kind(reflect.Invalid)), true
		}
		return ret(st, kind(kindOf(v.t))), true
	}
	for _, n := range []string{"CanInt", "CanUint", "CanFloat", "CanSet", "CanAddr"} {
		m["(reflect.Value)."+n] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			v, valid, known := asRV(st.norm(c.Args[0]))
			if !known {
				return nil, false
			}
			r := false
			if valid {
				k := kindOf(v.t)
				switch n {
				case "CanInt":
					r = isIntKind(k)
				case "CanUint":
					r = isUintKind(k)
				case "CanFloat":
					r = isFloatKind(k)
				case "CanSet":
					r = v.place != nil && !v.ro
				case "CanAddr":
					r = v.place != nil
				}
			}
			return ret(st, boolV(r)), true
		}
	}
	onVal("CanInterface", func(st *State, c *CallCtx, v rval) []Outcome { return ret(st, boolV(!v.ro)) })
	onVal("Type", func(st *State, c *CallCtx, v rval) []Outcome { return ret(st, rtypeOf(v.t)) })
	elem := func(st *State, c *CallCtx, v rval) []Outcome {
		switch u := v.t.Underlying().(type) {
		case *types.Pointer:
			switch p := v.get(e, st).(type) {
			case NilV:
				return ret(st, x.zero())
			case *Ptr:
				return ret(st, rval{t: u.Elem(), place: p, ro: v.ro}.val())
			default:
				e.failf("Elem of the unknown pointer %s", p.Key())
			}
		case *types.Interface:
			switch i := v.get(e, st).(type) {
			case NilV:
				return ret(st, x.zero())
			case *Iface:
				return ret(st, rval{t: i.Dyn, v: i.V, ro: v.ro}.val())
			default:
				e.failf("Elem of the unknown interface %s", i.Key())
			}
		}
		return boom(st, c, "Elem of %s Value", kindOf(v.t))
	}
	onVal("Elem", elem)
	m["reflect.Indirect"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		v, valid, known := asRV(st.norm(c.Args[0]))
		if !known {
			return nil, false
		}
		if !valid || kindOf(v.t) != reflect.Pointer {
			return ret(st, c.Args[0]), true
		}
		return elem(st, c, v), true
	}
	field := func(st *State, c *CallCtx, v rval, i int) (rval, []Outcome) {
		u, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			return v, boom(st, c, "Field of %s Value", kindOf(v.t))
		}
		if i < 0 || i >= u.NumFields() {
			return v, boom(st, c, "Field index out of range")
		}
		f := rval{t: u.Field(i).Type(), ro: v.ro || !u.Field(i).Exported()}
		if v.place != nil {
			f.place = &Ptr{Obj: v.place.Obj, Path: v.place.Path + "." + strconv.Itoa(i)}
		} else {
			f.v = st.norm(fieldOf(st, v.v, i, f.t, v.t))
		}
		return f, nil
	}
	onVal("Field", func(st *State, c *CallCtx, v rval) []Outcome {
		i, ok := constInt(st.norm(c.Args[1]))
		if !ok {
			e.failf("reflect.Value.Field of an unknown index")
		}
		f, bad := field(st, c, v, int(i))
		if bad != nil {
			return bad
		}
		return ret(st, f.val())
	})
	onVal("FieldByIndex", func(st *State, c *CallCtx, v rval) []Outcome {
		l := e.asList(st, c.Args[1], types.Typ[types.Int])
		if l.Rest || len(l.Els) != 1 {
			e.failf("reflect.Value.FieldByIndex of nested fields")
		}
		i, ok := constInt(st.norm(l.Els[0]))
		if !ok {
			e.failf("reflect.Value.FieldByIndex of an unknown index")
		}
		f, bad := field(st, c, v, int(i))
		if bad != nil {
			return bad
		}
		return ret(st, f.val())
	})
	onVal("FieldByName", func(st *State, c *CallCtx, v rval) []Outcome {
		n, ok := constStr(c.Args[1])
		if !ok {
			e.failf("reflect.Value.FieldByName of an unknown name")
		}
		if kindOf(v.t) != reflect.Struct {
			return boom(st, c, "FieldByName of %s Value", kindOf(v.t))
		}
		i := fieldIndex(v.t, n)
		if i < 0 {
			return ret(st, x.zero())
		}
		f, bad := field(st, c, v, i)
		if bad != nil {
			return bad
		}
		return ret(st, f.val())
	})
	onVal("NumField", func(st *State, c *CallCtx, v rval) []Outcome {
		if u, ok := v.t.Underlying().(*types.Struct); ok {
			return ret(st, mkInt(int64(u.NumFields())))
		}
		return boom(st, c, "NumField of %s Value", kindOf(v.t))
	})
	onVal("Len", func(st *State, c *CallCtx, v rval) []Outcome {
		switch kindOf(v.t) {
		case reflect.Slice, reflect.Map, reflect.String, reflect.Array:
			return ret(st, st.norm(e.length(st, v.get(e, st), v.t)))
		}
		return boom(st, c, "Len of %s Value", kindOf(v.t))
	})
	onVal("Cap", func(st *State, c *CallCtx, v rval) []Outcome {
		e.failf("reflect.Value.Cap")
		return nil
	})
	onVal("Index", func(st *State, c *CallCtx, v rval) []Outcome {
		i := st.norm(c.Args[1])
		switch kindOf(v.t) {
		case reflect.Slice:
			s := v.get(e, st)
			if _, ok := constInt(i); !ok {
				// A position which is not known is one of those there are.
				n, ok := constInt(st.norm(e.length(st, s, v.t)))
				if !ok {
					e.failf("reflect.Value.Index of an unknown slice")
				}
				neg, okN := st.decideLt(i, mkInt(0))
				less, okL := st.decideLt(i, mkInt(n))
				inside := okN && !neg && okL && less
				st.mon["~ix"] = i
				st.mon["~c0"] = c.Args[0]
				var outs []Outcome
				cur := st
				for k := int64(0); k < n; k++ {
					ws := e.branch(cur, mkEq(cur.norm(cur.mon["~ix"]), mkInt(k)))
					cur = nil
					for _, w := range ws {
						if !w.r {
							cur = w.st
							continue
						}
						y, _, _ := asRV(w.st.norm(w.st.mon["~c0"]))
						delete(w.st.mon, "~ix")
						delete(w.st.mon, "~c0")
						outs = append(outs, e.elemPtr(w.st, y.get(e, w.st), mkInt(k), elemType(y.t), func(s2 *State, p *Ptr) {
							s2.mon["~el"] = rval{t: elemType(y.t), place: p, ro: y.ro}.val()
						})...)
						last := &outs[len(outs)-1]
						last.ret = last.st.mon["~el"]
						delete(last.st.mon, "~el")
					}
					if cur == nil {
						return outs
					}
				}
				if inside {
					return outs
				}
				delete(cur.mon, "~ix")
				delete(cur.mon, "~c0")
				return append(outs, boom(cur, c, "slice index out of range")...)
			}
			var el Val
			outs := e.elemPtr(st, s, i, elemType(v.t), func(s2 *State, p *Ptr) {
				el = rval{t: elemType(v.t), place: p, ro: v.ro}.val()
			})
			if len(outs) == 1 && outs[0].panic != "" {
				return boom(st, c, "slice index out of range")
			}
			outs[0].ret = el
			return outs
		}
		e.failf("reflect.Value.Index of %s", typKey(v.t))
		return nil
	})
	onVal("Addr", func(st *State, c *CallCtx, v rval) []Outcome {
		if v.place == nil {
			return boom(st, c, "reflect.Value.Addr of unaddressable value")
		}
		return ret(st, rval{t: types.NewPointer(v.t), v: v.place, ro: v.ro}.val())
	})
	onVal("IsNil", func(st *State, c *CallCtx, v rval) []Outcome {
		switch kindOf(v.t) {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
			return ret(st, st.mkEqV(v.get(e, st), nilV))
		}
		return boom(st, c, "IsNil of %s Value", kindOf(v.t))
	})
	onVal("IsZero", func(st *State, c *CallCtx, v rval) []Outcome {
		return ret(st, isZeroTerm(st, v.get(e, st), v.t))
	})
	onVal("Interface", func(st *State, c *CallCtx, v rval) []Outcome {
		if v.ro {
			return boom(st, c, "cannot return value obtained from unexported field or method")
		}
		y := v.get(e, st)
		if isInterface(v.t) {
			return ret(st, y)
		}
		return ret(st, &Iface{Dyn: v.t, V: y})
	})
	basic := func(name string, to types.BasicKind, ok func(reflect.Kind) bool) {
		onVal(name, func(st *State, c *CallCtx, v rval) []Outcome {
			if !ok(kindOf(v.t)) {
				if name == "String" {
					return ret(st, mkStr("<"+typKey(v.t)+" Value>"))
				}
				return boom(st, c, "call of reflect.Value.%s on %s Value", name, kindOf(v.t))
			}
			return ret(st, st.convert(v.get(e, st), v.t, types.Typ[to]))
		})
	}
	basic("Bool", types.Bool, func(k reflect.Kind) bool { return k == reflect.Bool })
	basic("Int", types.Int64, isIntKind)
	basic("Uint", types.Uint64, isUintKind)
	basic("Float", types.Float64, isFloatKind)
	basic("String", types.String, func(k reflect.Kind) bool { return k == reflect.String })
	settable := func(st *State, c *CallCtx, v rval, name string) []Outcome {
		if v.ro {
			return boom(st, c, "reflect.Value.%s using value obtained using unexported field", name)
		}
		if v.place == nil {
			return boom(st, c, "reflect.Value.%s using unaddressable value", name)
		}
		return nil
	}
	setter := func(name string, from types.BasicKind, ok func(reflect.Kind) bool) {
		onVal(name, func(st *State, c *CallCtx, v rval) []Outcome {
			if bad := settable(st, c, v, name); bad != nil {
				return bad
			}
			if !ok(kindOf(v.t)) {
				return boom(st, c, "call of reflect.Value.%s on %s Value", name, kindOf(v.t))
			}
			e.store(st, v.place, narrow(st, c.Args[1], types.Typ[from], v.t), c.Site)
			return ret(st, &Tuple{})
		})
	}
	setter("SetBool", types.Bool, func(k reflect.Kind) bool { return k == reflect.Bool })
	setter("SetInt", types.Int64, isIntKind)
	setter("SetUint", types.Uint64, isUintKind)
	setter("SetFloat", types.Float64, isFloatKind)
	setter("SetString", types.String, func(k reflect.Kind) bool { return k == reflect.String })
	overflow := func(name string, from types.BasicKind, ok func(reflect.Kind) bool) {
		onVal(name, func(st *State, c *CallCtx, v rval) []Outcome {
			k := kindOf(v.t)
			if !ok(k) {
				return boom(st, c, "call of reflect.Value.%s on %s Value", name, k)
			}
			return ret(st, overflows(st, c.Args[1], k))
		})
		// The same of types.
		onType(name, func(st *State, c *CallCtx, t types.Type) []Outcome {
			if !ok(kindOf(t)) {
				return boom(st, c, "%s of %s", name, typKey(t))
			}
			return ret(st, overflows(st, c.Args[1], kindOf(t)))
		})
	}
	overflow("OverflowInt", types.Int64, isIntKind)
	overflow("OverflowUint", types.Uint64, isUintKind)
	overflow("OverflowFloat", types.Float64, isFloatKind)
	// assign gives the value as one of the type.
	assign := func(st *State, v rval, t types.Type) (Val, bool) {
		if v.ro || !types.AssignableTo(v.t, t) {
			return nil, false
		}
		y := v.get(e, st)
		if isInterface(t) && !isInterface(v.t) {
			return &Iface{Dyn: v.t, V: y}, true
		}
		return retype(y, t), true
	}
	onVal("Set", func(st *State, c *CallCtx, v rval) []Outcome {
		if bad := settable(st, c, v, "Set"); bad != nil {
			return bad
		}
		w, valid, known := asRV(st.norm(c.Args[1]))
		if !known {
			e.failf("reflect.Value.Set to an unknown value")
		}
		if !valid {
			return boom(st, c, "reflect.Set to the zero Value")
		}
		y, ok := assign(st, w, v.t)
		if !ok {
			return boom(st, c, "reflect.Set: value of type %s is not assignable to type %s", typKey(w.t), typKey(v.t))
		}
		e.store(st, v.place, y, c.Site)
		return ret(st, &Tuple{})
	})
	onVal("SetZero", func(st *State, c *CallCtx, v rval) []Outcome {
		if bad := settable(st, c, v, "SetZero"); bad != nil {
			return bad
		}
		e.store(st, v.place, zeroVal(v.t), c.Site)
		return ret(st, &Tuple{})
	})
	onVal("SetMapIndex", func(st *State, c *CallCtx, v rval) []Outcome {
		mt, ok := v.t.Underlying().(*types.Map)
		if !ok {
			return boom(st, c, "SetMapIndex of %s Value", kindOf(v.t))
		}
		if v.ro {
			return boom(st, c, "SetMapIndex using value obtained using unexported field")
		}
		k, valid, known := asRV(st.norm(c.Args[1]))
		if !known {
			e.failf("SetMapIndex of an unknown key")
		}
		if !valid {
			return boom(st, c, "SetMapIndex with the zero Value as key")
		}
		key, ok := assign(st, k, mt.Key())
		if !ok {
			return boom(st, c, "reflect.Value.SetMapIndex: key of type %s is not assignable to type %s", typKey(k.t), typKey(mt.Key()))
		}
		id := e.mapID(st, v.get(e, st), v.t)
		y, valid, known := asRV(st.norm(c.Args[2]))
		if !known {
			e.failf("SetMapIndex of an unknown value")
		}
		if !valid {
			if id == "" {
				return ret(st, &Tuple{})
			}
			return e.mapSetApart(st, id, key, nil, false)
		}
		val, ok := assign(st, y, mt.Elem())
		if !ok {
			return boom(st, c, "reflect.Value.SetMapIndex: value of type %s is not assignable to type %s", typKey(y.t), typKey(mt.Elem()))
		}
		if id == "" {
			return boom(st, c, "assignment to entry in nil map")
		}
		return e.mapSetApart(st, id, key, val, true)
	})
	onVal("MapIndex", func(st *State, c *CallCtx, v rval) []Outcome {
		mt, ok := v.t.Underlying().(*types.Map)
		if !ok {
			return boom(st, c, "MapIndex of %s Value", kindOf(v.t))
		}
		k, valid, known := asRV(st.norm(c.Args[1]))
		if !known || !valid {
			e.failf("MapIndex of an unknown key")
		}
		ro := v.ro || k.ro
		k.ro = false
		key, ok := assign(st, k, mt.Key())
		if !ok {
			return boom(st, c, "MapIndex: key not assignable")
		}
		var outs []Outcome
		for _, f := range e.mapGet(st, e.mapID(st, v.get(e, st), v.t), key, mt.Elem()) {
			has, ok := f.st.decide(f.has)
			if !ok {
				e.failf("MapIndex of an unknown map")
			}
			if has {
				outs = append(outs, Outcome{st: f.st, ret: rval{t: mt.Elem(), v: f.val, ro: ro}.val()})
			} else {
				outs = append(outs, Outcome{st: f.st, ret: x.zero()})
			}
		}
		return outs
	})
	// entries gives the entries of the map in every order which is considered.
	entries := func(st *State, v rval) (ents []MapEnt) {
		id := e.mapID(st, v.get(e, st), v.t)
		if id == "" {
			return nil
		}
		o := st.obj(id)
		if o.Base != nil {
			e.failf("iteration over an unknown map")
		}
		for _, en := range o.Ents {
			if en.Many {
				e.failf("iteration over an unknown map")
			}
			if en.Present {
				ents = append(ents, en)
			}
		}
		return ents
	}
	onVal("MapRange", func(st *State, c *CallCtx, v rval) []Outcome {
		if kindOf(v.t) != reflect.Map {
			return boom(st, c, "MapRange of %s Value", kindOf(v.t))
		}
		var rest []Val
		for _, en := range entries(st, v) {
			rest = append(rest, &Tuple{Vs: []Val{en.Key, en.Val}})
		}
		id := st.newObj(&Obj{Kind: cellObj, Typ: x.typ("MapIter"), Val: &Tuple{Vs: []Val{v.val(), &Tuple{Vs: rest}, &Tuple{}}}})
		return ret(st, &Ptr{Obj: id})
	})
	onVal("MapKeys", func(st *State, c *CallCtx, v rval) []Outcome {
		mt, ok := v.t.Underlying().(*types.Map)
		if !ok {
			return boom(st, c, "MapKeys of %s Value", kindOf(v.t))
		}
		var ks []Val
		for _, en := range entries(st, v) {
			ks = append(ks, rval{t: mt.Key(), v: en.Key, ro: v.ro}.val())
		}
		var outs []Outcome
		for _, p := range e.orders(len(ks)) {
			s := st
			if len(outs) > 0 {
				s = st.clone()
			}
			_ = s
			outs = append(outs, Outcome{st: s, ret: &Tuple{Vs: permute(ks, p)}})
		}
		for i := range outs {
			outs[i].ret = concreteSlice(outs[i].st, x.typ("Value"), outs[i].ret.(*Tuple).Vs)
		}
		return outs
	})
	iterAt := func(st *State, c *CallCtx) (*Ptr, *Tuple) {
		p, ok := st.norm(c.Args[0]).(*Ptr)
		if !ok || st.obj(p.Obj) == nil {
			e.failf("an unknown iterator")
		}
		t, ok := st.obj(p.Obj).Val.(*Tuple)
		if !ok {
			e.failf("an unknown iterator")
		}
		return p, t
	}
	m["(*reflect.MapIter).Next"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		p, t := iterAt(st, c)
		rest := t.Vs[1].(*Tuple).Vs
		if len(rest) == 0 {
			st.wobj(p.Obj).Val = &Tuple{Vs: []Val{t.Vs[0], t.Vs[1], &Tuple{}}}
			return ret(st, boolV(false)), true
		}
		n := 1
		if e.anyOrder {
			n = len(rest)
		}
		var outs []Outcome
		for i := 0; i < n; i++ {
			s := st
			if i < n-1 {
				s = st.clone()
			}
			var left []Val
			left = append(append(left, rest[:i]...), rest[i+1:]...)
			s.wobj(p.Obj).Val = &Tuple{Vs: []Val{t.Vs[0], &Tuple{Vs: left}, rest[i]}}
			outs = append(outs, Outcome{st: s, ret: boolV(true)})
		}
		return outs, true
	}
	for _, n := range []string{"Key", "Value"} {
		m["(*reflect.MapIter)."+n] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			_, t := iterAt(st, c)
			cur := t.Vs[2].(*Tuple).Vs
			if len(cur) == 0 {
				return boom(st, c, "MapIter.%s called before Next or past the end", n), true
			}
			v, _, _ := asRV(t.Vs[0])
			mt := v.t.Underlying().(*types.Map)
			if n == "Key" {
				return ret(st, rval{t: mt.Key(), v: cur[0], ro: v.ro}.val()), true
			}
			return ret(st, rval{t: mt.Elem(), v: cur[1], ro: v.ro}.val()), true
		}
	}
	onVal("Comparable", func(st *State, c *CallCtx, v rval) []Outcome { return ret(st, boolV(types.Comparable(v.t))) })
	onVal("CanConvert", func(st *State, c *CallCtx, v rval) []Outcome {
		t, ok := typeOfR(st.norm(c.Args[1]))
		if !ok {
			e.failf("conversion to an unknown type")
		}
		return ret(st, boolV(types.ConvertibleTo(v.t, t)))
	})
	onVal("Convert", func(st *State, c *CallCtx, v rval) []Outcome {
		t, ok := typeOfR(st.norm(c.Args[1]))
		if !ok {
			e.failf("conversion to an unknown type")
		}
		if !types.ConvertibleTo(v.t, t) {
			return boom(st, c, "Convert of %s to %s", typKey(v.t), typKey(t))
		}
		if isInterface(t) {
			y := v.get(e, st)
			if !isInterface(v.t) {
				y = &Iface{Dyn: v.t, V: y}
			}
			return ret(st, rval{t: t, v: y, ro: v.ro}.val())
		}
		return ret(st, rval{t: t, v: retype(st.convert(v.get(e, st), v.t, t), t), ro: v.ro}.val())
	})
	onVal("Equal", func(st *State, c *CallCtx, v rval) []Outcome {
		w, valid, known := asRV(st.norm(c.Args[1]))
		if !known {
			e.failf("comparison with an unknown value")
		}
		if !valid || !types.Identical(v.t, w.t) {
			return ret(st, boolV(false))
		}
		return ret(st, st.mkEqV(v.get(e, st), w.get(e, st)))
	})
	for _, n := range []string{"Pointer", "UnsafePointer", "UnsafeAddr"} {
		onVal(n, func(st *State, c *CallCtx, v rval) []Outcome {
			y := v.get(e, st)
			if n == "UnsafeAddr" {
				if v.place == nil {
					return boom(st, c, "UnsafeAddr of unaddressable value")
				}
				y = v.place
			}
			switch p := y.(type) {
			case NilV:
				if n == "UnsafePointer" {
					return ret(st, nilV)
				}
				return ret(st, mkInt(0))
			case *Ptr:
				return ret(st, &App{Op: "addr", Args: []Val{p}, Typ: types.Typ[types.Uintptr]})
			}
			e.failf("the address of %s", y.Key())
			return nil
		})
	}
}

// orders gives the orders in which so many entries of a map are considered.
func (e *Engine) orders(n int) [][]int {
	first := make([]int, n)
	for i := range first {
		first[i] = i
	}
	if !e.anyOrder {
		return [][]int{first}
	}
	return permutations(n)
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func permute[T any](xs []T, p []int) []T {
	out := make([]T, len(p))
	for i, k := range p {
		out[i] = xs[k]
	}
	return out
}

// isZeroTerm is whether the value is the zero one of its type.
func isZeroTerm(st *State, v Val, t types.Type) Val {
	if strings.HasPrefix(v.Key(), "zero:") || v.Key() == zeroVal(t).Key() {
		return boolV(true)
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		if opaqueStruct(u) {
			return st.mk("iszero", types.Typ[types.Bool], v)
		}
		var all []Val
		for i := 0; i < u.NumFields(); i++ {
			z := isZeroTerm(st, fieldOf(st, v, i, u.Field(i).Type(), t), u.Field(i).Type())
			if b, ok := constBool(z); ok {
				if !b {
					return boolV(false)
				}
				continue
			}
			all = append(all, z)
		}
		if len(all) == 0 {
			return boolV(true)
		}
		return &App{Op: "and", Args: all, Typ: types.Typ[types.Bool]}
	}
	return st.mkEqV(v, zeroVal(t))
}

// narrow is the value stored in a place of the type, which may not hold all of those of the other.
func narrow(st *State, v Val, from, to types.Type) Val {
	kf, kt := kindOf(from), kindOf(to)
	if kindBits(kf) == kindBits(kt) {
		return retype(v, to)
	}
	return st.convert(v, from, to)
}

// overflows is whether the number is one which the kind cannot represent.
func overflows(st *State, v Val, k reflect.Kind) Val {
	if kindBits(k) == 64 {
		return boolV(false)
	}
	if c, ok := v.(*Const); ok {
		if n, exact := constant.Int64Val(constant.ToInt(c.V)); exact && isIntKind(k) {
			lim := int64(1) << (kindBits(k) - 1)
			return boolV(n < -lim || n >= lim)
		}
	}
	return st.mk("overflows:"+k.String(), types.Typ[types.Bool], v)
}

var _ ssa.Value
