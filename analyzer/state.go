package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is a term and its value.
type Fact struct {
	Term Val
	Val  Val
}

type objKind int

const (
	cellObj objKind = iota
	mapObj
	listObj
)

// MapEnt is an entry written to a map: the key has the value, or none if deleted.
type MapEnt struct {
	Key, Val Val
	Present  bool
	Many     bool // stands for any number of entries with unknown keys, so is never looked up
}

// Obj is an abstract object.
type Obj struct {
	owner *State
	Kind  objKind
	Typ   types.Type // content, element or map type
	Val   Val        // cells
	// maps: entries since, and the unknown contents before, nil if none
	Base Val
	Ents []MapEnt
	// lists: the first elements, the length and the witness element if any
	Els  []Val
	Rest bool // elements after Els are unknown
	Len  Val
	Wit  Val
	Id   Val // identity of the unknown contents
	// attributes of interest to the monitors
	Attrs map[string]Val
}

func (o *Obj) attr(k string) Val { return o.Attrs[k] }

func (o *Obj) vals(f func(Val)) {
	if o.Val != nil {
		f(o.Val)
	}
	if o.Base != nil {
		f(o.Base)
	}
	for _, e := range o.Ents {
		f(e.Key)
		f(e.Val)
	}
	for _, e := range o.Els {
		f(e)
	}
	if o.Len != nil {
		f(o.Len)
	}
	if o.Wit != nil {
		f(o.Wit)
	}
	if o.Id != nil {
		f(o.Id)
	}
	for _, k := range sortedKeys(o.Attrs) {
		f(o.Attrs[k])
	}
}

// mapped copies the object with every value mapped, or returns it if nothing changes.
func (o *Obj) mapped(f func(Val) Val) *Obj {
	changed := false
	o.vals(func(v Val) {
		if !changed && f(v) != v {
			changed = true
		}
	})
	if !changed {
		return o
	}
	g := func(v Val) Val {
		if v == nil {
			return nil
		}
		return f(v)
	}
	n := *o
	n.owner = nil
	n.Val, n.Base, n.Len, n.Wit, n.Id = g(o.Val), g(o.Base), g(o.Len), g(o.Wit), g(o.Id)
	n.Ents = make([]MapEnt, len(o.Ents))
	for i, e := range o.Ents {
		n.Ents[i] = MapEnt{g(e.Key), g(e.Val), e.Present, e.Many}
	}
	n.Els = make([]Val, len(o.Els))
	for i, e := range o.Els {
		n.Els[i] = g(e)
	}
	n.Attrs = make(map[string]Val, len(o.Attrs))
	for k, v := range o.Attrs {
		n.Attrs[k] = g(v)
	}
	return &n
}

// Deferred is a deferred call.
type Deferred struct {
	Instr *ssa.Defer
	Fn    Val
	Args  []Val
}

// Frame is an activation.
type Frame struct {
	owner  *State
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []Deferred
	site   ssa.Instruction
	binds  []Val
	block  *ssa.BasicBlock // where the frame stands, for the liveness of its registers
	idx    int
}

// State is an abstract state: one world.
type State struct {
	eng       *Engine
	base      map[string]*Obj
	mem       map[string]*Obj
	frames    []*Frame
	rew       map[string]Fact
	mon       map[string]Val
	usedFacts bool
	dead      bool
	depthCap  int
	path      int // the instructions interpreted on the longest way here
}

func (st *State) clone() *State {
	n := &State{eng: st.eng, base: st.base, usedFacts: st.usedFacts, path: st.path}
	n.mem = make(map[string]*Obj, len(st.mem)+4)
	for k, o := range st.mem {
		o.owner = nil
		n.mem[k] = o
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		f.owner = nil
		n.frames[i] = f
	}
	n.rew = make(map[string]Fact, len(st.rew)+4)
	for k, f := range st.rew {
		n.rew[k] = f
	}
	n.mon = make(map[string]Val, len(st.mon))
	for k, v := range st.mon {
		n.mon[k] = v
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// frame gives the writable top frame.
func (st *State) frame() *Frame { return st.frameAt(len(st.frames) - 1) }

func (st *State) frameAt(i int) *Frame {
	f := st.frames[i]
	if f.owner != st {
		n := *f
		n.owner = st
		n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
		for k, v := range f.regs {
			n.regs[k] = v
		}
		n.defers = append([]Deferred{}, f.defers...)
		st.frames[i] = &n
		f = &n
	}
	return f
}

func (st *State) obj(id string) *Obj {
	if o, ok := st.mem[id]; ok {
		return o
	}
	return st.base[id]
}

// wobj gives the writable object.
func (st *State) wobj(id string) *Obj {
	o := st.obj(id)
	if o == nil {
		return nil
	}
	if o.owner != st || st.mem[id] != o {
		n := *o
		n.owner = st
		n.Ents = append([]MapEnt{}, o.Ents...)
		n.Els = append([]Val{}, o.Els...)
		n.Attrs = make(map[string]Val, len(o.Attrs))
		for k, v := range o.Attrs {
			n.Attrs[k] = v
		}
		st.mem[id] = &n
		o = &n
	}
	return o
}

func (st *State) newObj(o *Obj) string {
	st.eng.nobj++
	id := "o" + strconv.Itoa(st.eng.nobj)
	o.owner = st
	if o.Attrs == nil {
		o.Attrs = map[string]Val{}
	}
	st.mem[id] = o
	return id
}

func (st *State) setAttr(id, k string, v Val) {
	if st.obj(id) == nil {
		return
	}
	st.wobj(id).Attrs[k] = v
}

// replace rewrites every occurrence of the term in the state, and remembers it as a fact.
func (st *State) replace(from, to Val) bool {
	fk := from.Key()
	switch from.(type) {
	case *Sym, *App:
	default:
		return st.addFact(mkEq(from, to), boolV(true))
	}
	if a, ok := from.(*App); ok && (a.Op == "eq" || a.Op == "lt" || strings.HasPrefix(a.Op, "is:")) {
		// Atoms seldom occur outside the facts, but may.
		_ = a
	}
	f := func(v Val) Val { return subst(v, fk, to) }
	st.mapAll(f, func(id string) string {
		if id == "@"+fk {
			switch to.(type) {
			case *Sym, *App:
				return "@" + to.Key()
			}
		}
		if strings.HasPrefix(id, "@") && strings.Contains(id, fk) {
			// The object of a term in which the replaced term occurs.
			return strings.ReplaceAll(id, fk, to.Key())
		}
		return id
	})
	// Rewrite the facts.
	var keys []string
	for k, x := range st.rew {
		if strings.Contains(k, fk) || strings.Contains(x.Val.Key(), fk) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var pend []Fact
	for _, k := range keys {
		x := st.rew[k]
		delete(st.rew, k)
		pend = append(pend, Fact{f(x.Term), f(x.Val)})
	}
	if old, ok := st.rew[fk]; ok {
		return st.equate(old.Val, to)
	}
	st.rew[fk] = Fact{from, to}
	for _, x := range pend {
		switch x.Term.(type) {
		case *Const, NilV:
			if x.Term.Key() != x.Val.Key() {
				return false
			}
			continue
		case *Sym, *App:
		default:
			// e.g. an interface term that became known
			if !st.equate(x.Term, x.Val) {
				return false
			}
			continue
		}
		if x.Term.Key() == x.Val.Key() {
			continue
		}
		if b, ok := constBool(x.Val); ok {
			if r, known := st.decide(x.Term); known {
				if r != b {
					return false
				}
				// Order facts may be implied by others yet, keep them.
				if a, isA := x.Term.(*App); !isA || a.Op != "lt" {
					continue
				}
			}
			st.rew[x.Term.Key()] = x
			continue
		}
		if old, ok := st.rew[x.Term.Key()]; ok {
			if !st.equate(old.Val, x.Val) {
				return false
			}
			continue
		}
		if contains(x.Val, x.Term) {
			st.rew[x.Term.Key()] = x
			continue
		}
		// Other facts may mention the term.
		if !st.replace(x.Term, x.Val) {
			return false
		}
	}
	// Facts about whether the replaced interface term is of some type.
	if i, ok := to.(*Iface); ok {
		for k, x := range st.rew {
			a, isA := x.Term.(*App)
			if isA && strings.HasPrefix(a.Op, "is:") {
				if y, isI := a.Args[0].(*Iface); isI && y.Key() == i.Key() {
					b, _ := constBool(x.Val)
					if dynIs(y.Dyn, isAtomType(a.Op)) != b {
						return false
					}
					delete(st.rew, k)
				}
			}
		}
	}
	return true
}

func (st *State) mapAll(f func(Val) Val, ren func(string) string) {
	for i := range st.frames {
		fr := st.frames[i]
		changed := false
		for _, v := range fr.regs {
			if f(v) != v {
				changed = true
				break
			}
		}
		if !changed {
			for _, v := range fr.binds {
				if f(v) != v {
					changed = true
				}
			}
			for _, d := range fr.defers {
				if f(d.Fn) != d.Fn {
					changed = true
				}
				for _, v := range d.Args {
					if f(v) != v {
						changed = true
					}
				}
			}
		}
		if !changed {
			continue
		}
		w := st.frameAt(i)
		for k, v := range w.regs {
			w.regs[k] = f(v)
		}
		nb := make([]Val, len(w.binds))
		for j, v := range w.binds {
			nb[j] = f(v)
		}
		w.binds = nb
		for j := range w.defers {
			d := &w.defers[j]
			d.Fn = f(d.Fn)
			na := make([]Val, len(d.Args))
			for k, v := range d.Args {
				na[k] = f(v)
			}
			d.Args = na
		}
	}
	for id, o := range st.mem {
		n := o.mapped(f)
		nid := ren(id)
		if nid != id {
			delete(st.mem, id)
			if st.mem[nid] == nil {
				st.mem[nid] = n
			}
			continue
		}
		if n != o {
			st.mem[id] = n
		}
	}
	for k, v := range st.mon {
		st.mon[k] = f(v)
	}
}

// roots calls f with every root value of the state, with a stable name.
func (st *State) roots(f func(name string, v Val)) {
	for i, fr := range st.frames {
		info := st.eng.info(fr.fn)
		for _, r := range info.order {
			v, ok := fr.regs[r]
			if !ok {
				continue
			}
			f(fmt.Sprintf("%d.%d", i, info.index[r]), v)
		}
		for j, b := range fr.binds {
			f(fmt.Sprintf("%d.b%d", i, j), b)
		}
		for j, d := range fr.defers {
			f(fmt.Sprintf("%d.d%d.%d", i, j, d.Instr.Pos()), d.Fn)
			for k, a := range d.Args {
				f(fmt.Sprintf("%d.d%d.a%d", i, j, k), a)
			}
		}
	}
	for _, k := range sortedKeys(st.mon) {
		f("m:"+k, st.mon[k])
	}
	var gs []string
	for id := range st.mem {
		if strings.HasPrefix(id, "g:") {
			gs = append(gs, id)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		f("g", &Ptr{Obj: g})
	}
}

// printer prints the state's reachable part with canonical names.
type printer struct {
	st     *State
	syms   map[string]int
	objs   map[string]int
	queue  []string
	shape  bool
	b      strings.Builder
	notes  map[string]bool // keys of the live pointer-like terms
	keepIn map[string]bool // object attributes and monitors whose values are printed whole
}

func (p *printer) sym(s *Sym) {
	p.name(s)
}

func (p *printer) name(s *Sym) {
	if s.Rigid {
		p.b.WriteString(s.Key())
		return
	}
	n, ok := p.syms[s.Name]
	if !ok {
		n = len(p.syms)
		p.syms[s.Name] = n
	}
	p.b.WriteByte('$')
	p.b.WriteString(strconv.Itoa(n))
}

func (p *printer) obj(id string) {
	if strings.HasPrefix(id, "g:") {
		p.b.WriteString(id)
	} else {
		if _, isBase := p.st.base[id]; isBase && p.st.mem[id] == nil {
			p.b.WriteString(id)
			return
		}
	}
	n, ok := p.objs[id]
	if !ok {
		n = len(p.objs)
		p.objs[id] = n
		p.queue = append(p.queue, id)
	}
	p.b.WriteByte('#')
	p.b.WriteString(strconv.Itoa(n))
}

func rigid(v Val) bool {
	ok := true
	symsOf(v, func(s *Sym) {
		if !s.Rigid {
			ok = false
		}
	})
	return ok
}

func (p *printer) val(v Val) {
	switch x := v.(type) {
	case *Const:
		if p.shape && x.V.Kind().String() != "Bool" {
			p.star(v)
			return
		}
		p.b.WriteString(x.Key())
	case *Sym:
		if p.st.obj("@"+x.Key()) != nil {
			p.obj("@" + x.Key())
		}
		if p.shape {
			if x.Rigid {
				p.b.WriteString(x.Key())
				return
			}
			// Visit it for liveness.
			save := p.b
			p.b = strings.Builder{}
			p.name(x)
			p.b = save
			p.star(v)
			return
		}
		p.name(x)
	case *App:
		if p.st.obj("@"+x.Key()) != nil {
			p.obj("@" + x.Key())
		}
		if p.shape {
			if x.Op != "add" && x.Op != "len" && rigid(x) && depth(x) < 6 && !isIntTyp(x.Typ) {
				p.b.WriteString(x.Key())
				return
			}
			save := p.b
			p.b = strings.Builder{}
			for _, a := range x.Args {
				p.val(a)
			}
			p.b = save
			p.star(v)
			return
		}
		p.b.WriteString(x.Op)
		p.b.WriteByte('(')
		for _, a := range x.Args {
			p.val(a)
			p.b.WriteByte(',')
		}
		p.b.WriteByte(')')
	case *Struct:
		p.b.WriteByte('{')
		for _, a := range x.Fs {
			p.val(a)
			p.b.WriteByte(',')
		}
		p.b.WriteByte('}')
	case *Iface:
		p.b.WriteString("<" + typKey(x.Dyn) + ":")
		p.val(x.V)
		p.b.WriteByte('>')
	case *Ptr:
		p.b.WriteByte('&')
		p.obj(x.Obj)
		if p.shape {
			p.b.WriteString(shapePath(x.Path))
		} else {
			p.b.WriteString(x.Path)
		}
	case *SliceV:
		p.b.WriteByte('[')
		p.obj(x.Obj)
		fmt.Fprintf(&p.b, "%s:%d:%d:%v%v]", x.Path, x.Lo, x.Hi, x.Concrete, x.Clipped)
	case *FuncV:
		p.b.WriteString(x.Fn.String())
		p.b.WriteByte('(')
		for _, a := range x.Binds {
			p.val(a)
			p.b.WriteByte(',')
		}
		p.b.WriteByte(')')
	case *Tuple:
		p.b.WriteByte('(')
		for _, a := range x.Vs {
			p.val(a)
			p.b.WriteByte(';')
		}
		p.b.WriteByte(')')
	default:
		p.b.WriteString(v.Key())
	}
}

func shapePath(path string) string { return path }

// star prints what a merge may not confuse about a term: its relation to the witness position, and
// whether it is known not to be nil.
func (p *printer) star(v Val) {
	k := p.st.mon["K"]
	t := typeOf(v)
	if k != nil && (isIntTyp(t) || t == nil) {
		p.b.WriteString("*" + p.st.phase(v, k))
		return
	}
	if t != nil {
		if isInterface(t) {
			if r, ok := p.st.decideEq(v, nilV); ok && !r {
				p.b.WriteString("*!")
				return
			}
			p.b.WriteString("*i")
			return
		}
		if _, isB := t.Underlying().(*types.Basic); !isB {
			p.b.WriteString("*" + typKey(t))
			return
		}
	}
	p.b.WriteByte('*')
}

// phase relates the position to that of the witness.
func (st *State) phase(v, k Val) string {
	if r, ok := st.decideEq(v, k); ok && r {
		return "="
	}
	if r, ok := st.decideLt(v, k); ok && r {
		return "<"
	}
	if r, ok := st.decideLt(k, v); ok && r {
		return ">"
	}
	return "?"
}

func (p *printer) objBody(id string) {
	o := p.st.obj(id)
	if o == nil {
		p.b.WriteString("none")
		return
	}
	fmt.Fprintf(&p.b, "\n%d:k%d:", p.objs[id], o.Kind)
	if o.Typ != nil {
		p.b.WriteString(typKey(o.Typ))
	}
	opt := func(tag string, v Val) {
		if v != nil {
			p.b.WriteString(" " + tag)
			p.val(v)
		}
	}
	opt("v", o.Val)
	switch o.Kind {
	case mapObj:
		if p.shape {
			// How many entries were written does not keep worlds apart, but which rigid keys were does.
			// Entries of unknown keys are merged into the base.
			for _, e := range o.Ents {
				if p.keepEnt(e) {
					fmt.Fprintf(&p.b, " E%v", e.Present)
					p.val(e.Key)
					p.b.WriteByte('=')
					p.val(e.Val)
				} else {
					save := p.b
					p.b = strings.Builder{}
					p.val(e.Key)
					p.val(e.Val)
					p.b = save
				}
			}
			if o.Base != nil {
				save := p.b
				p.b = strings.Builder{}
				p.val(o.Base)
				p.b = save
				if s, ok := o.Base.(*Sym); ok && s.Rigid {
					p.b.WriteString(" B" + s.Key())
				}
			}
		} else {
			opt("B", o.Base)
			for _, e := range o.Ents {
				fmt.Fprintf(&p.b, " E%v%v", e.Present, e.Many)
				p.val(e.Key)
				p.b.WriteByte('=')
				p.val(e.Val)
			}
		}
	case listObj:
		if p.shape {
			for _, e := range o.Els {
				if !o.Rest && len(o.Els) <= p.st.eng.keepLists {
					p.b.WriteString(" L")
					p.val(e)
					continue
				}
				save := p.b
				p.b = strings.Builder{}
				p.val(e)
				p.b = save
			}
		} else {
			for _, e := range o.Els {
				p.b.WriteString(" L")
				p.val(e)
			}
			fmt.Fprintf(&p.b, " R%v", o.Rest)
			opt("i", o.Id)
		}
		opt("n", o.Len)
		opt("w", o.Wit)
	}
	for _, k := range sortedKeys(o.Attrs) {
		opt("@"+k+"=", o.Attrs[k])
	}
}

// keepEnt reports whether a merge must keep the map entry apart from the unknown contents.
func (p *printer) keepEnt(e MapEnt) bool {
	return !e.Many && p.st.keepTag(e.Key) != ""
}

func (st *State) keepTag(k Val) string {
	if keepKey(k) {
		return k.Key()
	}
	for _, n := range sortedKeys(st.mon) {
		if strings.HasPrefix(n, "keep:") && st.mon[n].Key() == k.Key() {
			return n
		}
	}
	return ""
}

func keepKey(k Val) bool {
	if isConstLike(k) {
		return true
	}
	some := false
	symsOf(k, func(s *Sym) {
		if s.Rigid {
			some = true
		}
	})
	return some && rigid(k)
}

func isConstLike(v Val) bool {
	switch x := v.(type) {
	case *Const:
		return true
	case *Iface:
		return isConstLike(x.V)
	case *App:
		return strings.HasPrefix(x.Op, "rtype:")
	}
	return false
}

// print gives the canonical text of the state: equal texts are equal worlds up to names.
func (st *State) print(shape bool) (string, *printer) {
	p := &printer{st: st, syms: map[string]int{}, objs: map[string]int{}, shape: shape}
	st.roots(func(name string, v Val) {
		p.b.WriteString("\n" + name + "=")
		p.val(v)
	})
	for i := 0; i < len(p.queue); i++ {
		p.objBody(p.queue[i])
	}
	if !shape {
		// The facts about live terms.
		var fs []string
		for _, k := range sortedKeys(st.rew) {
			f := st.rew[k]
			if !p.liveTerm(f.Term) || !p.liveTerm(f.Val) {
				continue
			}
			save := p.b
			p.b = strings.Builder{}
			p.val(f.Term)
			p.b.WriteString("->")
			p.val(f.Val)
			fs = append(fs, p.b.String())
			p.b = save
		}
		sort.Strings(fs)
		p.b.WriteString("\nF:" + strings.Join(fs, ";"))
	}
	return p.b.String(), p
}

func (p *printer) liveTerm(v Val) bool {
	ok := true
	symsOf(v, func(s *Sym) {
		if s.Rigid {
			return
		}
		if _, live := p.syms[s.Name]; !live {
			ok = false
		}
	})
	return ok
}

// gc drops facts about dead terms and unreachable objects.
func (st *State) gc(p *printer) {
	for k, f := range st.rew {
		if !p.liveTerm(f.Term) || !p.liveTerm(f.Val) {
			delete(st.rew, k)
		}
	}
	for id := range st.mem {
		if _, ok := p.objs[id]; !ok && !strings.HasPrefix(id, "g:") {
			delete(st.mem, id)
		}
	}
}

// join merges two worlds of the same shape.
type joiner struct {
	a, b   *State
	out    *State
	pairs  map[string]Val // key(a)|key(b) -> joint
	plist  []jpair
	objs   map[string]string // id(a)|id(b) -> joint
	queue  [][3]string
	failed bool
}

type jpair struct{ a, b, j Val }

func (j *joiner) val(a, b Val) Val {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return nil
		}
		j.failed = true
		return a
	}
	switch x := a.(type) {
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.Fs) == len(y.Fs) {
			fs := make([]Val, len(x.Fs))
			for i := range fs {
				fs[i] = j.val(x.Fs[i], y.Fs[i])
			}
			return &Struct{Typ: x.Typ, Fs: fs}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && types.Identical(x.Dyn, y.Dyn) {
			return &Iface{Dyn: x.Dyn, V: j.val(x.V, y.V)}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.Fn == y.Fn && len(x.Binds) == len(y.Binds) {
			bs := make([]Val, len(x.Binds))
			for i := range bs {
				bs[i] = j.val(x.Binds[i], y.Binds[i])
			}
			return &FuncV{Fn: x.Fn, Binds: bs}
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.Vs) == len(y.Vs) {
			bs := make([]Val, len(x.Vs))
			for i := range bs {
				bs[i] = j.val(x.Vs[i], y.Vs[i])
			}
			return &Tuple{Vs: bs}
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok && x.Path == y.Path {
			return &Ptr{Obj: j.obj(x.Obj, y.Obj), Path: x.Path}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.Path == y.Path && x.Lo == y.Lo && x.Hi == y.Hi && x.Clipped == y.Clipped && x.Concrete == y.Concrete {
			n := *x
			n.Obj = j.obj(x.Obj, y.Obj)
			return &n
		}
	case *Const:
		if a.Key() == b.Key() {
			return a
		}
	case NilV, BuiltinV:
		if a.Key() == b.Key() {
			return a
		}
		j.failed = true
		return a
	}
	switch b.(type) {
	case *Const, *Sym, *App:
	default:
		j.failed = true
		return a
	}
	switch a.(type) {
	case *Const, *Sym, *App:
	default:
		j.failed = true
		return a
	}
	// Atoms of the same name.
	ka, kb := a.Key(), b.Key()
	if r, ok := j.pairs[ka+"|"+kb]; ok {
		return r
	}
	var r Val
	if ka == kb {
		r = a
	} else {
		t := typeOf(a)
		if t == nil {
			t = typeOf(b)
		}
		xa, okA := a.(*App)
		xb, okB := b.(*App)
		if okA && okB && xa.Op == xb.Op && len(xa.Args) == len(xb.Args) && xa.Op != "add" && depth(a) < 8 && depth(b) < 8 && j.structural(xa, xb) {
			as := make([]Val, len(xa.Args))
			for i := range as {
				as[i] = j.val(xa.Args[i], xb.Args[i])
			}
			r = &App{Op: xa.Op, Args: as, Typ: t}
		} else {
			r = j.offset(a, b, t)
			if r == nil {
				r = j.out.eng.fresh(t, "j")
			}
		}
	}
	j.pairs[ka+"|"+kb] = r
	j.plist = append(j.plist, jpair{a, b, r})
	oa, ob := j.a.obj("@"+ka), j.b.obj("@"+kb)
	if oa != nil && ob != nil {
		switch r.(type) {
		case *Sym, *App:
			j.objs["@"+ka+"|@"+kb] = "@" + r.Key()
			j.queue = append(j.queue, [3]string{"@" + ka, "@" + kb, "@" + r.Key()})
		}
	}
	return r
}

// offset finds an integer which is always as far from this one, so that the distance is not lost.
func (j *joiner) offset(a, b Val, t types.Type) Val {
	if !isIntTyp(t) {
		return nil
	}
	ba, oa, _ := splitAdd(a)
	bb, ob, _ := splitAdd(b)
	same := func(x, y Val) bool {
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return x.Key() == y.Key()
	}
	for _, p := range j.plist {
		s, ok := p.j.(*Sym)
		if !ok || s.Rigid || p.a.Key() == p.b.Key() || !isIntTyp(s.Typ) {
			continue
		}
		pa, qa, _ := splitAdd(p.a)
		pb, qb, _ := splitAdd(p.b)
		if same(ba, pa) && same(bb, pb) && oa-qa == ob-qb {
			return mkAdd(p.j, oa-qa, t)
		}
	}
	return nil
}

// structural reports whether joining the applications argument by argument is worthwhile.
func (j *joiner) structural(a, b *App) bool {
	for i := range a.Args {
		x, y := a.Args[i], b.Args[i]
		if x.Key() == y.Key() {
			continue
		}
		switch x.(type) {
		case *Const, *Sym, *App:
		default:
			return false
		}
		switch y.(type) {
		case *Const, *Sym, *App:
		default:
			return false
		}
	}
	return true
}

func (j *joiner) obj(a, b string) string {
	if r, ok := j.objs[a+"|"+b]; ok {
		return r
	}
	r := a
	if a != b {
		j.out.eng.nobj++
		r = "o" + strconv.Itoa(j.out.eng.nobj)
		if strings.HasPrefix(a, "@") || strings.HasPrefix(b, "@") {
			j.failed = true
		}
	}
	j.objs[a+"|"+b] = r
	if _, isBase := j.a.base[a]; isBase && a == b && j.a.mem[a] == nil && j.b.mem[a] == nil {
		return r
	}
	j.queue = append(j.queue, [3]string{a, b, r})
	return r
}

func (j *joiner) object(a, b *Obj) *Obj {
	if a == nil || b == nil {
		if a != nil || b != nil {
			j.failed = true
		}
		return nil
	}
	if a.Kind != b.Kind {
		j.failed = true
		return a
	}
	n := &Obj{Kind: a.Kind, Typ: a.Typ, Attrs: map[string]Val{}, Rest: a.Rest || b.Rest}
	n.Val = j.val(a.Val, b.Val)
	switch a.Kind {
	case mapObj:
		j.joinMap(a, b, n)
	case listObj:
		m := len(a.Els)
		if len(b.Els) < m {
			m = len(b.Els)
		}
		if len(a.Els) != len(b.Els) {
			n.Rest = true
		}
		for i := 0; i < m; i++ {
			if !j.joinable(a.Els[i], b.Els[i]) {
				n.Rest = true
				break
			}
			n.Els = append(n.Els, j.val(a.Els[i], b.Els[i]))
		}
		n.Len = j.val(a.Len, b.Len)
		if a.Wit != nil && b.Wit != nil {
			n.Wit = j.val(a.Wit, b.Wit)
		} else if a.Wit != nil || b.Wit != nil {
			j.failed = true
		}
		if n.Rest {
			if a.Id != nil && b.Id != nil && a.Id.Key() == b.Id.Key() {
				n.Id = a.Id
			} else {
				n.Id = j.out.eng.fresh(nil, "elems")
			}
		}
	}
	for k, v := range a.Attrs {
		if w, ok := b.Attrs[k]; ok {
			n.Attrs[k] = j.val(v, w)
		} else {
			j.failed = true
		}
	}
	return n
}

func (j *joiner) joinable(a, b Val) bool {
	pa := &printer{st: j.a, syms: map[string]int{}, objs: map[string]int{}, shape: true}
	pb := &printer{st: j.b, syms: map[string]int{}, objs: map[string]int{}, shape: true}
	pa.val(a)
	pb.val(b)
	return pa.b.String() == pb.b.String()
}

func (j *joiner) joinMap(a, b, n *Obj) {
	ba, bb := "", ""
	if a.Base != nil {
		ba = a.Base.Key()
	}
	if b.Base != nil {
		bb = b.Base.Key()
	}
	same := len(a.Ents) == len(b.Ents) && ba == bb
	if same {
		for i := range a.Ents {
			ea, eb := a.Ents[i], b.Ents[i]
			if ea.Present != eb.Present || ea.Many != eb.Many || j.a.keepTag(ea.Key) != j.b.keepTag(eb.Key) || !j.joinable(ea.Key, eb.Key) || !j.joinable(ea.Val, eb.Val) {
				same = false
			}
		}
	}
	if same {
		n.Base = a.Base
		for i := range a.Ents {
			ea, eb := a.Ents[i], b.Ents[i]
			n.Ents = append(n.Ents, MapEnt{j.val(ea.Key, eb.Key), j.val(ea.Val, eb.Val), ea.Present, ea.Many})
		}
		return
	}
	// Forget the entries of unknown keys. Those of inputs and of keys being watched survive.
	if sa, ok := a.Base.(*Sym); ok && sa.Rigid && ba == bb {
		n.Base = a.Base // a known map with unknown changes
		n.Ents = append(n.Ents, MapEnt{Key: j.out.eng.fresh(nil, "anykey"), Val: j.out.eng.fresh(nil, "anyval"), Present: true, Many: true})
	} else {
		n.Base = j.out.eng.fresh(nil, "map")
	}
	for _, ea := range a.Ents {
		tag := ""
		if !ea.Many {
			tag = j.a.keepTag(ea.Key)
		}
		if tag == "" {
			continue
		}
		for _, eb := range b.Ents {
			if !eb.Many && j.b.keepTag(eb.Key) == tag && eb.Present == ea.Present {
				n.Ents = append(n.Ents, MapEnt{j.val(ea.Key, eb.Key), j.val(ea.Val, eb.Val), ea.Present, false})
				break
			}
		}
	}
}

// join merges the worlds, which are at the same point, or reports that it cannot.
func join(a, b *State) *State {
	out := &State{eng: a.eng, base: a.base, mem: map[string]*Obj{}, rew: map[string]Fact{}, mon: map[string]Val{}, path: max(a.path, b.path)}
	j := &joiner{a: a, b: b, out: out, pairs: map[string]Val{}, objs: map[string]string{}}
	if len(a.frames) != len(b.frames) {
		return nil
	}
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa.fn != fb.fn || len(fa.defers) != len(fb.defers) {
			return nil
		}
		nf := &Frame{owner: out, fn: fa.fn, regs: map[ssa.Value]Val{}, site: fa.site, block: fa.block, idx: fa.idx}
		for _, r := range a.eng.info(fa.fn).order {
			va, oka := fa.regs[r]
			vb, okb := fb.regs[r]
			if oka && okb {
				nf.regs[r] = j.val(va, vb)
			}
		}
		for k := range fa.binds {
			nf.binds = append(nf.binds, j.val(fa.binds[k], fb.binds[k]))
		}
		for k := range fa.defers {
			da, db := fa.defers[k], fb.defers[k]
			if da.Instr != db.Instr || len(da.Args) != len(db.Args) {
				return nil
			}
			d := Deferred{Instr: da.Instr, Fn: j.val(da.Fn, db.Fn)}
			for m := range da.Args {
				d.Args = append(d.Args, j.val(da.Args[m], db.Args[m]))
			}
			nf.defers = append(nf.defers, d)
		}
		out.frames = append(out.frames, nf)
	}
	for _, k := range sortedKeys(a.mon) {
		w, ok := b.mon[k]
		if !ok {
			return nil
		}
		out.mon[k] = j.val(a.mon[k], w)
	}
	for k := range b.mon {
		if _, ok := a.mon[k]; !ok {
			return nil
		}
	}
	gs := map[string]bool{}
	for id := range a.mem {
		if strings.HasPrefix(id, "g:") {
			gs[id] = true
		}
	}
	for id := range b.mem {
		if strings.HasPrefix(id, "g:") {
			gs[id] = true
		}
	}
	for _, id := range sortedKeys(gs) {
		j.obj(id, id)
	}
	for i := 0; i < len(j.queue) && !j.failed; i++ {
		q := j.queue[i]
		o := j.object(a.obj(q[0]), b.obj(q[1]))
		if o != nil {
			o.owner = out
			out.mem[q[2]] = o
		}
	}
	if j.failed {
		return nil
	}
	j.facts()
	return out
}

// facts keeps the facts which hold in both worlds.
func (j *joiner) facts() {
	// images of terms of either side
	img := [2]map[string][]Val{{}, {}}
	inv := [2]map[string]Val{{}, {}} // joint key -> side term
	for _, p := range j.plist {
		img[0][p.a.Key()] = append(img[0][p.a.Key()], p.j)
		img[1][p.b.Key()] = append(img[1][p.b.Key()], p.j)
		inv[0][p.j.Key()] = p.a
		inv[1][p.j.Key()] = p.b
	}
	sides := [2]*State{j.a, j.b}
	for s := 0; s < 2; s++ {
		me, other := sides[s], sides[1-s]
		var facts []Fact
		for _, k := range sortedKeys(me.rew) {
			facts = append(facts, me.rew[k])
		}
		// Bounds which hold by form alone.
		for _, p := range j.plist {
			t := p.a
			if s == 1 {
				t = p.b
			}
			if base, off, _ := splitAdd(t); base != nil && off != 0 && isIntTyp(typeOf(t)) && p.a.Key() != p.b.Key() {
				if off > 0 {
					facts = append(facts, Fact{&App{Op: "lt", Args: []Val{base, t}, Typ: types.Typ[types.Bool]}, boolV(true)})
					facts = append(facts, Fact{&App{Op: "lt", Args: []Val{t, base}, Typ: types.Typ[types.Bool]}, boolV(false)})
				}
			}
			if p.a.Key() != p.b.Key() && isIntTyp(typeOf(p.j)) {
				facts = append(facts, Fact{&App{Op: "lt", Args: []Val{t, mkInt(0)}, Typ: types.Typ[types.Bool]}, boolV(false)})
			}
		}
		for _, f := range facts {
			for _, tv := range j.images(f.Term, img[s], 0) {
				vv := f.Val
				if len(img[s][vv.Key()]) == 1 {
					vv = img[s][vv.Key()][0]
				} else if !isConstLike(vv) {
					vs := j.images(vv, img[s], 0)
					if len(vs) != 1 {
						continue
					}
					vv = vs[0]
				}
				back := func(side int, v Val) Val {
					return mapVal(v, func(x Val) Val {
						if y, ok := inv[side][x.Key()]; ok {
							return y
						}
						return nil
					})
				}
				if !j.holds(me, back(s, tv), back(s, vv)) {
					continue
				}
				if j.holds(other, back(1-s, tv), back(1-s, vv)) {
					switch tv.(type) {
					case *Sym, *App:
						if tv.Key() != vv.Key() {
							j.out.rew[tv.Key()] = Fact{tv, vv}
						}
					}
				}
			}
		}
	}
}

func (j *joiner) holds(st *State, t, v Val) bool {
	if b, ok := constBool(v); ok {
		r, known := st.decide(t)
		return known && r == b
	}
	return st.norm(t).Key() == st.norm(v).Key()
}

// images gives the joint forms of a term of one side.
func (j *joiner) images(t Val, img map[string][]Val, d int) []Val {
	if is, ok := img[t.Key()]; ok && d > 0 {
		if len(is) > 3 {
			is = is[:3]
		}
		out := append([]Val{}, is...)
		if c, isC := t.(*Const); isC {
			out = append(out, c)
		}
		return out
	}
	switch x := t.(type) {
	case *Const, NilV:
		return []Val{t}
	case *Sym:
		if x.Rigid {
			return []Val{t}
		}
		if is, ok := img[t.Key()]; ok {
			return is
		}
		return nil
	case *App:
		outs := [][]Val{{}}
		for _, a := range x.Args {
			is := j.images(a, img, d+1)
			var next [][]Val
			for _, o := range outs {
				for _, i := range is {
					next = append(next, append(append([]Val{}, o...), i))
				}
			}
			outs = next
			if len(outs) > 12 {
				outs = outs[:12]
			}
		}
		var r []Val
		for _, o := range outs {
			if x.Op == "eq" {
				r = append(r, mkEq(o[0], o[1]))
			} else {
				r = append(r, &App{Op: x.Op, Args: o, Typ: x.Typ})
			}
		}
		return r
	case *Iface:
		var r []Val
		for _, i := range j.images(x.V, img, d+1) {
			r = append(r, &Iface{Dyn: x.Dyn, V: i})
		}
		return r
	case *Struct:
		outs := [][]Val{{}}
		for _, a := range x.Fs {
			is := j.images(a, img, d+1)
			var next [][]Val
			for _, o := range outs {
				for _, i := range is {
					next = append(next, append(append([]Val{}, o...), i))
				}
			}
			outs = next
			if len(outs) > 4 {
				outs = outs[:4]
			}
		}
		var r []Val
		for _, o := range outs {
			r = append(r, &Struct{Typ: x.Typ, Fs: o})
		}
		return r
	}
	return []Val{t}
}
