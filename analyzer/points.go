package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A points-to analysis, insensitive to flow and calling context but sensitive to fields,
// of everything reachable from the entry points of one root.

type pKind int

const (
	pFresh  pKind = iota // allocated by the code analysed
	pShared              // reachable by other goroutines from the receiver
	pCaller              // given by the caller
	pGlobal              // reachable from a package's variable
	pFunc                // a function or closure
)

// pObj is an abstract object.
type pObj struct {
	kind  pKind
	key   string
	dyn   types.Type // the dynamic type of what is boxed, if it is an interface's contents
	fn    *ssa.Function
	binds []ssa.Value
	from  *ssa.Function // where the bindings are
	typ   types.Type    // what is allocated, if it is known
}

// pLoc is a place within an object.
type pLoc struct {
	obj  *pObj
	path string
}

// clipped ends the paths of slices without room to append.
const clipped = "[:]"

// arrayPath is the path of a slice's array.
func arrayPath(path string) string {
	return strings.TrimSuffix(strings.TrimSuffix(path, clipped), "[]")
}

func (l pLoc) key() string { return l.obj.key + l.path }

func (l pLoc) outer() bool { return l.obj.kind == pShared || l.obj.kind == pGlobal }

type pSet map[pLoc]bool

// Points is the analysis.
type Points struct {
	p     *Program
	objs  map[string]*pObj
	vals  map[ssa.Value]pSet
	cells map[pLoc]pSet
	lazy  map[string]bool // cells whose initial contents are known
	fns   map[*ssa.Function]bool
	queue []*ssa.Function
	dirty bool
	rets  map[*ssa.Function][]pSet
	impls map[string][]types.Type
	ext   map[*ssa.Function]bool
}

func newPoints(p *Program) *Points {
	return &Points{p: p, objs: map[string]*pObj{}, vals: map[ssa.Value]pSet{}, cells: map[pLoc]pSet{}, lazy: map[string]bool{}, fns: map[*ssa.Function]bool{}, rets: map[*ssa.Function][]pSet{}, impls: map[string][]types.Type{}}
}

func (pt *Points) obj(kind pKind, key string) *pObj {
	o := pt.objs[key]
	if o == nil {
		o = &pObj{kind: kind, key: key}
		pt.objs[key] = o
	}
	return o
}

func (pt *Points) add(to pSet, from pSet) {
	for l := range from {
		if !to[l] {
			to[l] = true
			pt.dirty = true
		}
	}
}

func (pt *Points) addLoc(to pSet, l pLoc) {
	if !to[l] {
		to[l] = true
		pt.dirty = true
	}
}

// val gives the places the value refers to, or, of structs, from which it is copied.
func (pt *Points) val(v ssa.Value) pSet {
	s := pt.vals[v]
	if s != nil {
		return s
	}
	s = pSet{}
	pt.vals[v] = s
	switch v := v.(type) {
	case *ssa.Function:
		o := pt.obj(pFunc, "func "+v.String())
		o.fn = v
		pt.addLoc(s, pLoc{o, ""})
	case *ssa.Global:
		pt.addLoc(s, pLoc{pt.obj(pGlobal, "global "+v.String()), ""})
	}
	return s
}

// pointerLike tells whether values of the type may refer to anything.
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerLike(u.Elem())
	}
	return true
}

// implementers are the module's concrete types which implement the module's interface.
func (pt *Points) implementers(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	key := types.TypeString(t, nil)
	if out, ok := pt.impls[key]; ok {
		return out
	}
	var out []types.Type
	for _, rel := range sortedKeys(pt.p.spkgs) {
		scope := pt.p.spkgs[rel].Pkg.Scope()
		for _, name := range scope.Names() {
			tn, ok := scope.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			ct := tn.Type()
			if _, ok := ct.Underlying().(*types.Interface); ok {
				continue
			}
			if nn, ok := ct.(*types.Named); ok && nn.TypeParams().Len() > 0 {
				// Generic types are instantiated as the interface is.
				if n.TypeArgs().Len() != nn.TypeParams().Len() {
					if types.Implements(types.NewPointer(ct), it) {
						out = append(out, types.NewPointer(ct))
					}
					continue
				}
				var args []types.Type
				for i := 0; i < n.TypeArgs().Len(); i++ {
					args = append(args, n.TypeArgs().At(i))
				}
				inst, err := types.Instantiate(nil, nn, args, true)
				if err != nil {
					continue
				}
				ct = inst
			}
			switch {
			case types.Implements(ct, it):
				out = append(out, ct)
			case types.Implements(types.NewPointer(ct), it):
				out = append(out, types.NewPointer(ct))
			}
		}
	}
	pt.impls[key] = out
	return out
}

// child is the object to which the place in the lazy object initially refers.
func (pt *Points) child(l pLoc, dyn types.Type) pLoc {
	key := l.key() + "*"
	if dyn != nil {
		key = l.key() + "(" + types.TypeString(dyn, func(*types.Package) string { return "" }) + ")"
	}
	if strings.Count(key, "*")+strings.Count(key, "(") > 8 {
		return pLoc{l.obj, ""}
	}
	o := pt.obj(l.obj.kind, key)
	o.dyn = dyn
	return pLoc{o, ""}
}

// cell gives what the place, of the type, refers to.
func (pt *Points) cell(l pLoc, t types.Type) pSet {
	s := pt.cells[l]
	if s == nil {
		s = pSet{}
		pt.cells[l] = s
	}
	if l.obj.kind == pFresh || l.obj.kind == pFunc || t == nil || pt.lazy[l.key()] || !pointerLike(t) {
		return s
	}
	pt.lazy[l.key()] = true
	switch t.Underlying().(type) {
	case *types.Interface:
		impls := pt.implementers(t)
		for _, it := range impls {
			pt.addLoc(s, pt.child(l, it))
		}
		if len(impls) == 0 {
			pt.addLoc(s, pt.child(l, nil))
		}
	case *types.Struct, *types.Array:
		pt.lazy[l.key()] = false
	case *types.Signature:
		pt.addLoc(s, pt.child(l, nil))
		if i := strings.LastIndex(l.path, "."); i >= 0 {
			pt.fieldFuncs(s, l, l.path[i+1:], t.Underlying().(*types.Signature))
		}
	default:
		pt.addLoc(s, pt.child(l, nil))
	}
	return s
}

// fieldFuncs adds the functions which the module puts in fields of the name: whatever they
// captured is shared as the field is.
func (pt *Points) fieldFuncs(s pSet, l pLoc, field string, sig *types.Signature) {
	if pt.p.fieldFns == nil {
		pt.p.fieldFns = map[string][]ssa.Value{}
		for _, fn := range pt.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					name := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
					v := st.Val
					for {
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
							continue
						}
						break
					}
					switch v.(type) {
					case *ssa.Function, *ssa.MakeClosure:
						pt.p.fieldFns[name] = append(pt.p.fieldFns[name], v)
					}
				}
			}
		}
	}
	for _, v := range pt.p.fieldFns[field] {
		vs, ok := v.Type().Underlying().(*types.Signature)
		if !ok || vs.Params().Len() != sig.Params().Len() || vs.Results().Len() != sig.Results().Len() {
			continue
		}
		if f, ok := v.(*ssa.Function); ok {
			pt.add(s, pt.val(f))
			continue
		}
		mc := v.(*ssa.MakeClosure)
		fn := mc.Fn.(*ssa.Function)
		o := pt.obj(pFunc, l.key()+" "+site(mc))
		o.fn = fn
		pt.addLoc(s, pLoc{o, ""})
		for _, fv := range fn.FreeVars {
			pt.param(fv, l.obj.kind, l.key()+"'s "+fv.Name())
		}
	}
}

// load reads the value of the type at the place.
func (pt *Points) load(to pSet, l pLoc, t types.Type) {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		pt.addLoc(to, l)
	default:
		if pointerLike(t) {
			pt.add(to, pt.cell(l, t))
		}
	}
}

// store writes the value of the type to the place.
func (pt *Points) store(l pLoc, from pSet, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for src := range from {
			if src == l {
				continue
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if pointerLike(f.Type()) {
					tmp := pSet{}
					d := pt.dirty
					pt.load(tmp, pLoc{src.obj, src.path + "." + f.Name()}, f.Type())
					pt.dirty = d
					pt.store(pLoc{l.obj, l.path + "." + f.Name()}, tmp, f.Type())
				}
			}
		}
	case *types.Array:
		for src := range from {
			if src != l && pointerLike(u.Elem()) {
				tmp := pSet{}
				d := pt.dirty
				pt.load(tmp, pLoc{src.obj, src.path + "[]"}, u.Elem())
				pt.dirty = d
				pt.store(pLoc{l.obj, l.path + "[]"}, tmp, u.Elem())
			}
		}
	default:
		if pointerLike(t) {
			pt.add(pt.cell(l, t), from)
		}
	}
}

func (pt *Points) enter(fn *ssa.Function) {
	if fn == nil || pt.fns[fn] {
		return
	}
	pt.fns[fn] = true
	pt.queue = append(pt.queue, fn)
	pt.dirty = true
}

// solve runs the analysis to its fixpoint.
func (pt *Points) solve() {
	for round := 0; ; round++ {
		pt.dirty = false
		for i := 0; i < len(pt.queue); i++ {
			fn := pt.queue[i]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					pt.instr(fn, in)
				}
			}
		}
		if !pt.dirty {
			return
		}
		if round > 300 {
			panic(engineFailure{msg: "the points-to analysis does not converge"})
		}
	}
}

func site(in ssa.Instruction) string {
	fn := in.Parent()
	for i, b := range fn.Blocks {
		for j, x := range b.Instrs {
			if x == in {
				return fmt.Sprintf("%s#%d.%d", fn.String(), i, j)
			}
		}
	}
	return fn.String() + "#?"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (pt *Points) instr(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := pt.obj(pFresh, site(in))
		o.typ = deref(in.Type())
		pt.addLoc(pt.val(in), pLoc{o, ""})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		pt.addLoc(pt.val(in.(ssa.Value)), pLoc{pt.obj(pFresh, site(in)), ""})
	case *ssa.MakeClosure:
		o := pt.obj(pFunc, site(in))
		o.fn = in.Fn.(*ssa.Function)
		pt.addLoc(pt.val(in), pLoc{o, ""})
		for i, fv := range o.fn.FreeVars {
			pt.add(pt.val(fv), pt.val(in.Bindings[i]))
		}
	case *ssa.MakeInterface:
		o := pt.obj(pFresh, site(in))
		o.dyn = in.X.Type()
		if pointerLike(in.X.Type()) {
			pt.add(pt.cell(pLoc{o, "*"}, nil), pt.val(in.X))
		}
		pt.addLoc(pt.val(in), pLoc{o, ""})
	case *ssa.ChangeInterface:
		pt.add(pt.val(in), pt.val(in.X))
	case *ssa.ChangeType:
		pt.add(pt.val(in), pt.val(in.X))
	case *ssa.Convert:
		if pointerLike(in.Type()) {
			pt.add(pt.val(in), pt.val(in.X))
		}
	case *ssa.MultiConvert:
		pt.add(pt.val(in), pt.val(in.X))
	case *ssa.SliceToArrayPointer:
		pt.add(pt.val(in), pt.val(in.X))
	case *ssa.Slice:
		for l := range pt.val(in.X) {
			switch {
			case in.Max != nil:
				pt.addLoc(pt.val(in), pLoc{l.obj, arrayPath(l.path) + clipped})
			case in.High != nil:
				pt.addLoc(pt.val(in), pLoc{l.obj, arrayPath(l.path)})
			default:
				pt.addLoc(pt.val(in), l)
			}
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			pt.add(pt.val(in), pt.val(e))
		}
	case *ssa.FieldAddr:
		f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
		for l := range pt.val(in.X) {
			pt.addLoc(pt.val(in), pLoc{l.obj, l.path + "." + f.Name()})
		}
	case *ssa.Field:
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		for l := range pt.val(in.X) {
			pt.load(pt.val(in), pLoc{l.obj, l.path + "." + f.Name()}, in.Type())
		}
	case *ssa.IndexAddr:
		for l := range pt.val(in.X) {
			pt.addLoc(pt.val(in), pLoc{l.obj, arrayPath(l.path) + "[]"})
		}
	case *ssa.Index:
		for l := range pt.val(in.X) {
			pt.load(pt.val(in), pLoc{l.obj, l.path + "[]"}, in.Type())
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			for l := range pt.val(in.X) {
				pt.load(pt.val(in), l, in.Type())
			}
		}
		if in.Op == token.ARROW {
			t := in.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			for l := range pt.val(in.X) {
				pt.load(pt.val(in), pLoc{l.obj, l.path + "<v>"}, t)
			}
		}
	case *ssa.Send:
		for l := range pt.val(in.Chan) {
			pt.store(pLoc{l.obj, l.path + "<v>"}, pt.val(in.X), in.X.Type())
		}
	case *ssa.Store:
		for l := range pt.val(in.Addr) {
			pt.store(l, pt.val(in.Val), in.Val.Type())
		}
	case *ssa.MapUpdate:
		for l := range pt.val(in.Map) {
			pt.store(pLoc{l.obj, l.path + "<k>"}, pt.val(in.Key), in.Key.Type())
			pt.store(pLoc{l.obj, l.path + "<v>"}, pt.val(in.Value), in.Value.Type())
		}
	case *ssa.Lookup:
		m, ok := in.X.Type().Underlying().(*types.Map)
		if ok {
			for l := range pt.val(in.X) {
				pt.load(pt.val(in), pLoc{l.obj, l.path + "<v>"}, m.Elem())
			}
		}
	case *ssa.Range:
		pt.add(pt.val(in), pt.val(in.X))
	case *ssa.Next:
		// Extract reads the keys and values.
		pt.add(pt.val(in), pt.val(in.Iter))
	case *ssa.Extract:
		switch t := in.Tuple.(type) {
		case *ssa.Next:
			if t.IsString {
				return
			}
			m, ok := t.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			if !ok || in.Index == 0 {
				return
			}
			part, et := "<k>", m.Key()
			if in.Index == 2 {
				part, et = "<v>", m.Elem()
			}
			for l := range pt.val(t) {
				pt.load(pt.val(in), pLoc{l.obj, l.path + part}, et)
			}
		case *ssa.Call:
			pt.results(&t.Call, t, func(i int, s pSet) {
				if i == in.Index {
					pt.add(pt.val(in), s)
				}
			})
		default:
			if in.Index == 0 || pointerLike(in.Type()) {
				pt.add(pt.val(in), pt.val(in.Tuple))
			}
		}
	case *ssa.TypeAssert:
		pt.assert(in)
	case *ssa.Call:
		pt.call(&in.Call, in)
		if _, ok := in.Type().(*types.Tuple); !ok {
			pt.results(&in.Call, in, func(i int, s pSet) { pt.add(pt.val(in), s) })
		}
	case *ssa.Defer:
		pt.call(&in.Call, in)
	case *ssa.Go:
		pt.call(&in.Call, in)
	case *ssa.Return:
		rs := pt.rets[fn]
		if rs == nil {
			for range in.Results {
				rs = append(rs, pSet{})
			}
			pt.rets[fn] = rs
		}
		for i, r := range in.Results {
			if pointerLike(r.Type()) {
				pt.add(rs[i], pt.val(r))
			}
		}
	}
}

func (pt *Points) assert(in *ssa.TypeAssert) {
	to := pt.val(in)
	_, iface := in.AssertedType.Underlying().(*types.Interface)
	for l := range pt.val(in.X) {
		d := l.obj.dyn
		switch {
		case d == nil:
			pt.addLoc(to, l)
		case iface:
			if types.Implements(d, in.AssertedType.Underlying().(*types.Interface)) {
				pt.addLoc(to, l)
			}
		case types.Identical(d, in.AssertedType):
			pt.load(to, pLoc{l.obj, l.path + "*"}, d)
		}
	}
}

// target is a function the call may reach.
type target struct {
	fn    *ssa.Function
	recv  pSet // the receiver, of calls of interfaces' methods
	recvT types.Type
}

// targets gives the functions with bodies a call may reach, and whether it may reach others.
func (pt *Points) targets(c *ssa.CallCommon) (out []target, ext *ssa.Function, unknown bool) {
	if c.IsInvoke() {
		seen := map[*ssa.Function]int{}
		locs := pt.val(c.Value)
		if len(locs) == 0 {
			unknown = true
		}
		var ls []pLoc
		for l := range locs {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].key() < ls[j].key() })
		for _, l := range ls {
			d := l.obj.dyn
			if d == nil {
				unknown = true
				continue
			}
			sel := pt.p.prog.MethodSets.MethodSet(d).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			m := pt.p.prog.MethodValue(sel)
			if m == nil {
				if f, ok := sel.Obj().(*types.Func); ok {
					m = pt.p.prog.FuncValue(f)
				}
			}
			if m == nil || !pt.body(m) {
				unknown = true
				continue
			}
			r := pSet{}
			dirty := pt.dirty
			pt.load(r, pLoc{l.obj, l.path + "*"}, d)
			pt.dirty = dirty
			i, ok := seen[m]
			if !ok {
				seen[m] = len(out)
				out = append(out, target{m, r, d})
				continue
			}
			for x := range r {
				out[i].recv[x] = true
			}
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		_ = b
		return nil, nil, false
	}
	if f := c.StaticCallee(); f != nil {
		if pt.body(f) {
			return []target{{fn: f}}, nil, false
		}
		return nil, f, false
	}
	found := false
	var fs []*ssa.Function
	for l := range pt.val(c.Value) {
		if l.obj.kind == pFunc && l.obj.fn != nil {
			fs = append(fs, l.obj.fn)
			found = true
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for i, f := range fs {
		if i > 0 && fs[i-1] == f {
			continue
		}
		if pt.body(f) {
			out = append(out, target{fn: f})
		} else {
			unknown = true
		}
	}
	return out, nil, unknown || !found
}

func (pt *Points) body(f *ssa.Function) bool {
	return pt.p.interpreted(f) && len(f.Blocks) > 0
}

// call passes the call's arguments.
func (pt *Points) call(c *ssa.CallCommon, in ssa.Instruction) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, _ := in.(ssa.Value)
		switch b.Name() {
		case "append":
			o := pLoc{pt.obj(pFresh, site(in)), ""}
			pt.addLoc(pt.val(v), o)
			pt.add(pt.val(v), pt.val(c.Args[0]))
			el, ok := v.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			for _, a := range c.Args {
				for l := range pt.val(a) {
					tmp := pSet{}
					d := pt.dirty
					pt.load(tmp, pLoc{l.obj, arrayPath(l.path) + "[]"}, el.Elem())
					pt.dirty = d
					for t := range pt.val(v) {
						pt.store(pLoc{t.obj, arrayPath(t.path) + "[]"}, tmp, el.Elem())
					}
				}
			}
		case "copy":
			el, ok := c.Args[0].Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			for l := range pt.val(c.Args[1]) {
				tmp := pSet{}
				d := pt.dirty
				pt.load(tmp, pLoc{l.obj, arrayPath(l.path) + "[]"}, el.Elem())
				pt.dirty = d
				for t := range pt.val(c.Args[0]) {
					pt.store(pLoc{t.obj, arrayPath(t.path) + "[]"}, tmp, el.Elem())
				}
			}
		case "max", "min", "ssa:wrapnilchk":
			if v != nil {
				pt.add(pt.val(v), pt.val(c.Args[0]))
			}
		}
		return
	}
	ts, ext, unknown := pt.targets(c)
	for _, t := range ts {
		pt.enter(t.fn)
		ps := t.fn.Params
		if t.recv != nil {
			pt.add(pt.val(ps[0]), t.recv)
			ps = ps[1:]
		}
		for i, a := range c.Args {
			if i < len(ps) && pointerLike(a.Type()) {
				pt.add(pt.val(ps[i]), pt.val(a))
			}
		}
	}
	if ext != nil || unknown {
		// Functions given to unknown functions may be called.
		for _, a := range c.Args {
			for l := range pt.val(a) {
				if l.obj.kind == pFunc && l.obj.fn != nil && pt.body(l.obj.fn) {
					pt.enter(l.obj.fn)
				}
			}
		}
	}
}

// results gives what the call's results refer to.
func (pt *Points) results(c *ssa.CallCommon, in *ssa.Call, each func(i int, s pSet)) {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	ts, ext, unknown := pt.targets(c)
	for _, t := range ts {
		for i, s := range pt.rets[t.fn] {
			each(i, s)
		}
	}
	if ext == nil && !unknown {
		return
	}
	rs := c.Signature().Results()
	name := ""
	pkg := ""
	if ext != nil {
		name = ext.Name()
		pkg = fnPkg(ext)
	} else if c.IsInvoke() {
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
	}
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if !pointerLike(t) {
			continue
		}
		s := pSet{pLoc{pt.obj(pFresh, fmt.Sprintf("%s/%d", site(in), i)), ""}: true}
		passes := pkg == "reflect" || pkg == "sync" || pkg == "sync/atomic"
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for j, a := range args {
			for l := range pt.val(a) {
				switch {
				case passes && pkg == "reflect":
					s[l] = true
				case passes || j == 0 && l.obj.kind != pFresh && l.obj.kind != pFunc && c.Signature().Recv() != nil && !strings.HasPrefix(name, "Clone") && !strings.HasPrefix(name, "Copy"):
					x := pt.obj(l.obj.kind, l.key()+"."+name+"()")
					if strings.Count(x.key, "()") < 3 {
						s[pLoc{x, ""}] = true
					}
				}
			}
		}
		each(i, s)
	}
}

// param makes the parameter of an entry refer to something of the kind.
func (pt *Points) param(v ssa.Value, kind pKind, key string) {
	t := v.Type()
	if !pointerLike(t) {
		return
	}
	o := pt.obj(kind, key)
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		pt.addLoc(pt.val(v), pLoc{o, ""})
	case *types.Interface:
		pt.load(pt.val(v), pLoc{o, ""}, t)
	}
}
