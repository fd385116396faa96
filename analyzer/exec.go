package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is how an activation ends in one world.
type Outcome struct {
	st    *State
	ret   Val
	panic string // what panics, if it does
}

// CallCtx describes a call to a model.
type CallCtx struct {
	Name  string
	Fn    *ssa.Function
	Recv  Val
	Args  []Val // including the receiver
	Sig   *types.Signature
	Site  ssa.Instruction
	Binds []Val
}

// Model gives the outcomes of a call, or says that it does not apply.
type Model func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool)

// Engine interprets the program abstractly.
type Engine struct {
	p         *Program
	base      map[string]*Obj
	infos     map[*ssa.Function]*fnInfo
	models    map[string]Model
	onCall    func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) // consulted first
	onStore   func(e *Engine, st *State, p *Ptr, v Val, site ssa.Instruction)
	onLoad    func(e *Engine, st *State, p *Ptr, site ssa.Instruction)
	onMap     func(e *Engine, st *State, id string, op string, key, val Val, site ssa.Instruction)
	onApp     func(e *Engine, st *State, id string, site ssa.Instruction)
	onPush    func(e *Engine, st *State, id string, el Val, site ssa.Instruction)
	onYield   func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool)
	nsym      int
	nobj      int
	steps     int
	maxStep   int
	ticks     int
	maxPath   int // the longest way of one world which may end, or zero
	longest   int
	nworlds   int
	maxRec    int
	unknown   map[string]int // what was not modelled
	visited   map[*ssa.Function]bool
	instrs    map[ssa.Instruction]bool
	trace     bool
	fail      string
	nocoarse  bool
	keepLists int  // lists of no more elements are not merged with others
	unroll    bool // loops are not joined: those of the scenarios are over known items
	nloop     int
	loopStack []string
	knownMaps map[string]knownMap
	anyOrder  bool // maps are iterated over in every order
	strict    bool // nothing of package reflect is left to the imagination
}

func newEngine(p *Program) *Engine {
	e := &Engine{p: p, base: map[string]*Obj{}, infos: map[*ssa.Function]*fnInfo{}, knownMaps: map[string]knownMap{}, models: map[string]Model{}, maxStep: 4000000, maxRec: 3, unknown: map[string]int{}, visited: map[*ssa.Function]bool{}, instrs: map[ssa.Instruction]bool{}}
	e.trace = os.Getenv("TRACE") != ""
	stdModels(e)
	return e
}

type engineFailure struct {
	msg     string
	endless bool // one world goes on for longer than any that ends
	spent   bool // the budget of steps was spent
}

func (e *Engine) failf(format string, args ...any) {
	panic(engineFailure{msg: fmt.Sprintf(format, args...)})
}

func (e *Engine) endless(format string, args ...any) {
	panic(engineFailure{msg: fmt.Sprintf(format, args...), endless: true})
}

func (e *Engine) spent(format string, args ...any) {
	panic(engineFailure{msg: fmt.Sprintf(format, args...), spent: true})
}

func (e *Engine) newState() *State {
	return &State{eng: e, base: e.base, mem: map[string]*Obj{}, rew: map[string]Fact{}, mon: map[string]Val{}}
}

func (e *Engine) freshSym(t types.Type, hint string) *Sym {
	e.nsym++
	if i := strings.IndexAny(hint, "$~("); i >= 0 {
		hint = "x"
	}
	if len(hint) > 24 {
		hint = hint[:24]
	}
	return &Sym{Name: hint + "_" + strconv.Itoa(e.nsym), Typ: t}
}

// fresh makes an unknown value of the type: structs of ours have their fields unknown.
func (e *Engine) fresh(t types.Type, hint string) Val {
	if t != nil {
		if tt, ok := t.(*types.Tuple); ok {
			vs := make([]Val, tt.Len())
			for i := range vs {
				vs[i] = e.fresh(tt.At(i).Type(), hint+"."+strconv.Itoa(i))
			}
			return &Tuple{Vs: vs}
		}
		if u, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(u) {
			fs := make([]Val, u.NumFields())
			for i := range fs {
				fs[i] = e.fresh(u.Field(i).Type(), hint+"."+u.Field(i).Name())
			}
			return &Struct{Typ: t, Fs: fs}
		}
	}
	return e.freshSym(t, hint)
}

// rigidVal makes an input of a scenario.
func rigidVal(t types.Type, name string) Val {
	if t != nil {
		if u, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(u) {
			fs := make([]Val, u.NumFields())
			for i := range fs {
				fs[i] = rigidVal(u.Field(i).Type(), name+"."+u.Field(i).Name())
			}
			return &Struct{Typ: t, Fs: fs}
		}
	}
	return &Sym{Name: name, Typ: t, Rigid: true}
}

// expand gives the application its structure if it is a struct of ours.
func expand(v Val, t types.Type) Val {
	if t == nil {
		return v
	}
	if tt, ok := t.(*types.Tuple); ok {
		vs := make([]Val, tt.Len())
		for i := range vs {
			vs[i] = expand(&App{Op: "res" + strconv.Itoa(i), Args: []Val{v}, Typ: tt.At(i).Type()}, tt.At(i).Type())
		}
		return &Tuple{Vs: vs}
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !opaqueStruct(u) {
		fs := make([]Val, u.NumFields())
		for i := range fs {
			ft := u.Field(i).Type()
			fs[i] = expand(&App{Op: "fld:" + u.Field(i).Name(), Args: []Val{v}, Typ: ft}, ft)
		}
		return &Struct{Typ: t, Fs: fs}
	}
	return v
}

// pure makes the application of a pure function of results of the type, normalised.
func (st *State) pure(op string, t types.Type, args ...Val) Val {
	if t != nil {
		_, isTuple := t.(*types.Tuple)
		u, isStruct := t.Underlying().(*types.Struct)
		if isTuple || isStruct && !opaqueStruct(u) {
			v := expand(&App{Op: op, Args: args, Typ: t}, t)
			return st.normDeep(v)
		}
	}
	return st.mk(op, t, args...)
}

func (st *State) normDeep(v Val) Val {
	switch x := v.(type) {
	case *Struct:
		fs := make([]Val, len(x.Fs))
		for i := range fs {
			fs[i] = st.normDeep(x.Fs[i])
		}
		return &Struct{Typ: x.Typ, Fs: fs}
	case *Tuple:
		fs := make([]Val, len(x.Vs))
		for i := range fs {
			fs[i] = st.normDeep(x.Vs[i])
		}
		return &Tuple{Vs: fs}
	case *App:
		return st.norm(x)
	}
	return v
}

type fnInfo struct {
	fn        *ssa.Function
	rpo       map[*ssa.BasicBlock]int
	header    map[*ssa.BasicBlock]bool
	order     []ssa.Value
	index     map[ssa.Value]int
	liveIn    map[*ssa.BasicBlock]map[ssa.Value]bool
	lastUse   map[*ssa.BasicBlock]map[int][]ssa.Value
	liveOut   map[*ssa.BasicBlock]map[ssa.Value]bool
	liveAfter map[ssa.Instruction]map[ssa.Value]bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, rpo: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]bool{}, index: map[ssa.Value]int{}}
	e.infos[fn] = i
	add := func(v ssa.Value) {
		i.index[v] = len(i.order)
		i.order = append(i.order, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// Reverse postorder in which loops' bodies precede what follows the loops.
	reach := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		r := map[*ssa.BasicBlock]bool{}
		stack := []*ssa.BasicBlock{b}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for _, s := range x.Succs {
				if !r[s] {
					r[s] = true
					stack = append(stack, s)
				}
			}
		}
		reach[b] = r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		succs := append([]*ssa.BasicBlock{}, b.Succs...)
		// Successors from which b is not reachable leave the loop: visit them first, so they come last.
		sort.SliceStable(succs, func(x, y int) bool {
			return !reach[succs[x]][b] && reach[succs[y]][b]
		})
		for _, s := range succs {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	for k := range post {
		i.rpo[post[len(post)-1-k]] = k
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if i.rpo[s] <= i.rpo[b] && reach[s][b] {
				i.header[s] = true
			}
		}
	}
	// Liveness at block entries.
	i.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	i.liveOut = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for changed := true; changed; {
		changed = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.liveIn[s] {
					live[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
					for x, pr := range s.Preds {
						if pr == b {
							live[phi.Edges[x]] = true
						}
					}
					_ = pi
				}
			}
			// phis of successors are defined at their entry
			out := map[ssa.Value]bool{}
			for v := range live {
				out[v] = true
			}
			i.liveOut[b] = out
			for x := len(b.Instrs) - 1; x >= 0; x-- {
				in := b.Instrs[x]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			if len(live) != len(i.liveIn[b]) {
				i.liveIn[b] = live
				changed = true
			}
		}
	}
	return i
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (e *Engine) global(st *State, g *ssa.Global) Val {
	id := "g:" + g.String()
	if st.obj(id) == nil {
		t := g.Type().(*types.Pointer).Elem()
		o := &Obj{Kind: cellObj, Typ: t, Attrs: map[string]Val{}}
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			o.Val = zeroVal(t)
		} else {
			o.Val = &App{Op: "global:" + g.String(), Typ: t}
		}
		st.base[id] = o
	}
	return &Ptr{Obj: id}
}

func (e *Engine) get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		if isFloat(x.Type()) {
			return &Const{Typ: x.Type(), V: constant.ToFloat(x.Value)}
		}
		return &Const{Typ: x.Type(), V: x.Value}
	case *ssa.Global:
		return e.global(st, x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return BuiltinV{x.Name()}
	case *ssa.FreeVar:
		f := st.top()
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				if i < len(f.binds) {
					return f.binds[i]
				}
			}
		}
		e.failf("unbound free variable %s of %s", x.Name(), f.fn)
	}
	r, ok := st.top().regs[v]
	if !ok {
		e.failf("no value for %s (%s) in %s", v.Name(), v, st.top().fn)
	}
	return r
}

func (e *Engine) set(st *State, v ssa.Value, x Val) {
	st.frame().regs[v] = x
}

// call interprets the function in the world.
func (e *Engine) call(st *State, fn *ssa.Function, args []Val, binds []Val, site ssa.Instruction) []Outcome {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > e.maxRec {
		if e.strict {
			e.endless("%s calls itself without end", fn)
		}
		e.unknown["recursion:"+fn.String()]++
		return []Outcome{{st: st, ret: e.freshResults(fn.Signature, "rec")}}
	}
	if len(st.frames) > 60 && !e.strict || len(st.frames) > 400 {
		e.failf("call depth at %s", fn)
	}
	e.visited[fn] = true
	f := &Frame{owner: st, fn: fn, regs: map[ssa.Value]Val{}, site: site, binds: binds, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[p] = args[i]
		} else {
			e.failf("missing argument of %s", fn)
		}
	}
	e.pruneCaller(st, site)
	st.frames = append(st.frames, f)
	outs := e.run(st, fn)
	for i := range outs {
		outs[i].st.frames = outs[i].st.frames[:len(outs[i].st.frames)-1]
	}
	return outs
}

// pruneCaller forgets the caller's registers which are dead after the call.
func (e *Engine) pruneCaller(st *State, site ssa.Instruction) {
	if len(st.frames) == 0 || site == nil {
		return
	}
	if _, ok := site.(*ssa.Call); !ok {
		return
	}
	f := st.top()
	b := site.Block()
	if f.fn != b.Parent() {
		return
	}
	info := e.info(f.fn)
	live := info.liveAfter[site]
	if live == nil {
		live = map[ssa.Value]bool{}
		for v := range info.liveOut[b] {
			live[v] = true
		}
		for i := len(b.Instrs) - 1; i >= 0 && b.Instrs[i] != site; i-- {
			for _, op := range b.Instrs[i].Operands(nil) {
				if *op != nil {
					live[*op] = true
				}
			}
		}
		if info.liveAfter == nil {
			info.liveAfter = map[ssa.Instruction]map[ssa.Value]bool{}
		}
		info.liveAfter[site] = live
	}
	w := st.frame()
	for v := range w.regs {
		if !live[v] {
			delete(w.regs, v)
		}
	}
}

func (e *Engine) freshResults(sig *types.Signature, hint string) Val {
	switch sig.Results().Len() {
	case 0:
		return &Tuple{}
	case 1:
		return e.fresh(sig.Results().At(0).Type(), hint)
	}
	return e.fresh(sig.Results(), hint)
}

type arrival struct {
	st   *State
	pred *ssa.BasicBlock
}

type group struct {
	acc  *State
	text string
	n    int
}

func (e *Engine) run(st *State, fn *ssa.Function) []Outcome {
	info := e.info(fn)
	pending := map[*ssa.BasicBlock][]arrival{fn.Blocks[0]: {{st, nil}}}
	groups := map[*ssa.BasicBlock]map[string]*group{}
	concrete := map[*ssa.BasicBlock]int{}
	visits := map[*ssa.BasicBlock]int{}
	var outs []Outcome
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || info.rpo[c] < info.rpo[b] {
				b = c
			}
		}
		arrivals := pending[b]
		delete(pending, b)
		var states []*State
		for _, a := range arrivals {
			e.enter(a.st, b, a.pred, info)
			states = append(states, a.st)
		}
		if info.header[b] {
			var todo []*State
			for _, s := range states {
				if concrete[b] < 3000 && (e.keepLists == 0 || e.counts(s, b)) && e.concreteHeader(s, b) {
					concrete[b]++
					todo = append(todo, s)
					continue
				}
				if e.unroll {
					// The first rounds of a world alone are not compared.
					if visits[b]++; len(states) == 1 && visits[b] <= 40 {
						todo = append(todo, s)
						continue
					}
					full, p := s.print(false)
					if groups[b] == nil {
						groups[b] = map[string]*group{}
					}
					if groups[b][full] != nil {
						continue
					}
					if len(groups[b]) > 20000 {
						e.failf("too many worlds at the loop in %s", fn)
					}
					s.gc(p)
					groups[b][full] = &group{text: full}
					todo = append(todo, s)
					continue
				}
				text, p := s.print(true)
				s.gc(p)
				if groups[b] == nil {
					groups[b] = map[string]*group{}
				}
				g := groups[b][text]
				if g == nil {
					if len(groups[b]) > 300 {
						e.failf("too many kinds of worlds at the loop in %s", fn)
					}
					full, _ := s.print(false)
					g = &group{acc: s.clone(), text: full}
					groups[b][text] = g
					todo = append(todo, s)
					if e.trace {
						fmt.Fprintf(os.Stderr, "NEW GROUP %s b%d\n%s\n----\n", fn, b.Index, full)
					}
					continue
				}
				full, _ := s.print(false)
				if full == g.text {
					continue
				}
				j := join(g.acc, s)
				if j == nil {
					// Not mergeable: keep apart by full text.
					if groups[b]["!"+full] == nil {
						if len(groups[b]) > 300 {
							e.failf("too many unmergeable worlds at the loop in %s", fn)
						}
						groups[b]["!"+full] = &group{acc: s.clone(), text: full}
						todo = append(todo, s)
					}
					continue
				}
				jt, jp := j.print(false)
				j.gc(jp)
				if e.trace {
					fmt.Fprintf(os.Stderr, "JOIN %s b%d n=%d same=%v\n%s\n<<<< with\n%s\n====\n%s\n----\n", fn, b.Index, g.n, jt == g.text, g.text, full, jt)
				}
				if jt == g.text {
					continue
				}
				g.n++
				if g.n > 60 {
					e.failf("no fixpoint at the loop in %s", fn)
				}
				g.acc, g.text = j.clone(), jt
				todo = append(todo, j)
			}
			states = dedupeLast(todo)
		} else if len(states) > 1 {
			seen := map[string]*State{}
			var uniq []*State
			for _, s := range states {
				text, p := s.print(false)
				if seen[text] != nil {
					continue
				}
				s.gc(p)
				seen[text] = s
				uniq = append(uniq, s)
			}
			states = uniq
			if len(states) > 24 && !e.nocoarse {
				states = e.coarsen(states)
			}
		}
		for _, s := range states {
			e.block(s, b, 0, func(n *State, to *ssa.BasicBlock) {
				pending[to] = append(pending[to], arrival{n, b})
			}, &outs)
		}
		if e.steps > e.maxStep {
			e.spent("step budget exhausted in %s", fn)
		}
	}
	return outs
}

func dedupeLast(s []*State) []*State { return s }

// coarsen merges the worlds of the same shape.
func (e *Engine) coarsen(states []*State) []*State {
	by := map[string]*State{}
	var order []string
	var extra []*State
	for _, s := range states {
		text, _ := s.print(true)
		if by[text] == nil {
			by[text] = s
			order = append(order, text)
			continue
		}
		j := join(by[text], s)
		if j == nil {
			extra = append(extra, s)
			continue
		}
		by[text] = j
	}
	var out []*State
	for _, k := range order {
		out = append(out, by[k])
	}
	return append(out, extra...)
}

// enter moves the world into the block: phis are assigned and dead registers forgotten.
func (e *Engine) enter(st *State, b, pred *ssa.BasicBlock, info *fnInfo) {
	f := st.frame()
	if pred != nil {
		pi := predIndex(b, pred)
		vals := map[ssa.Value]Val{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = e.get(st, phi.Edges[pi])
		}
		for v, x := range vals {
			f.regs[v] = x
		}
	}
	live := info.liveIn[b]
	for v := range f.regs {
		if live[v] {
			continue
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
			continue
		}
		delete(f.regs, v)
	}
	f.block = b
}

// concreteLatch reports whether the block heads a loop over a range of integers known to be so many.
func (e *Engine) concreteLatch(st *State, b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		last, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := last.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			continue
		}
		inc, ok := cmp.X.(*ssa.BinOp)
		if !ok || inc.Op != token.ADD {
			continue
		}
		phi, ok := inc.X.(*ssa.Phi)
		if !ok || phi.Block() != b {
			continue
		}
		if _, ok := constInt(e.get(st, phi)); !ok {
			continue
		}
		if c, ok := cmp.Y.(*ssa.Const); ok && c.Value != nil {
			return true
		}
		if v, ok := st.frame().regs[cmp.Y]; ok {
			if _, ok := constInt(v); ok {
				return true
			}
		}
	}
	return false
}

// counts reports whether the block has a known position which goes on.
func (e *Engine) counts(st *State, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			if _, ok := constInt(e.get(st, x)); ok && isIntTyp(x.Type()) {
				return true
			}
		case *ssa.Next:
			return true
		}
	}
	return false
}

// concreteHeader reports whether the loop's condition has a constant value here, not by way of any fact.
func (e *Engine) concreteHeader(st *State, b *ssa.BasicBlock) bool {
	if e.concreteLatch(st, b) {
		return true
	}
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.BinOp, *ssa.Extract, *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field:
		case *ssa.Next:
			it, ok := e.get(st, x.Iter).(*Ptr)
			if !ok {
				return false
			}
			o := st.obj(it.Obj)
			if o == nil || o.attr("concrete") == nil {
				return false
			}
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	t := st.clone()
	t.usedFacts = false
	res := ""
	n := 0
	var outs []Outcome
	e.block(t, b, 0, func(s *State, to *ssa.BasicBlock) {
		n++
		res = strconv.Itoa(to.Index)
		if s.usedFacts {
			n += 10
		}
	}, &outs)
	_ = last
	return n == 1 && len(outs) == 0 && res != ""
}

// deadline is when a check gives up what it has not yet decided, if ever.
var deadline time.Time

// tick gives up if it is too late.
func (e *Engine) tick() {
	e.ticks++
	if e.ticks&1023 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		e.failf("out of time")
	}
}

// block interprets the block's instructions from the index on.
func (e *Engine) block(st *State, b *ssa.BasicBlock, from int, emit func(*State, *ssa.BasicBlock), outs *[]Outcome) {
	for i := from; i < len(b.Instrs); i++ {
		e.steps++
		e.tick()
		if e.steps > e.maxStep {
			e.spent("step budget exhausted in %s", b.Parent())
		}
		st.path++
		if e.maxPath > 0 && st.path > e.maxPath {
			e.endless("one world goes on without end in %s", b.Parent())
		}
		if st.path > e.longest {
			e.longest = st.path
		}
		in := b.Instrs[i]
		e.instrs[in] = true
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			emit(st, b.Succs[0])
			return
		case *ssa.If:
			cond := e.get(st, x.Cond)
			for _, w := range e.branch(st, cond) {
				to := b.Succs[1]
				if w.r {
					to = b.Succs[0]
				}
				emit(w.st, to)
			}
			return
		case *ssa.Return:
			var ret Val
			switch len(x.Results) {
			case 0:
				ret = &Tuple{}
			case 1:
				ret = e.get(st, x.Results[0])
			default:
				vs := make([]Val, len(x.Results))
				for k, r := range x.Results {
					vs[k] = e.get(st, r)
				}
				ret = &Tuple{Vs: vs}
			}
			*outs = append(*outs, Outcome{st: st, ret: ret})
			return
		case *ssa.Panic:
			e.unwind(st, b, "panic: "+describe(e.get(st, x.X)), x, outs, emit)
			return
		}
		// Calls see where their frame stands.
		conts := e.instr(st, in)
		if len(conts) == 1 && conts[0].panic == "" {
			st = conts[0].st
			continue
		}
		for _, c := range conts {
			if c.panic != "" {
				e.unwind(c.st, b, c.panic, in, outs, emit)
				continue
			}
			e.block(c.st, b, i+1, emit, outs)
		}
		return
	}
}

func describe(v Val) string {
	if s, ok := constStr(v); ok {
		return s
	}
	if i, ok := v.(*Iface); ok {
		return describe(i.V)
	}
	return v.Key()
}

// unwind runs the deferred calls and ends the activation with the panic.
func (e *Engine) unwind(st *State, b *ssa.BasicBlock, what string, in ssa.Instruction, outs *[]Outcome, emit func(*State, *ssa.BasicBlock)) {
	what2 := what
	if !strings.Contains(what, " at ") {
		what2 = what + " at " + e.p.pos(instrPos(in)) + " in " + fnName(in.Parent())
	}
	for _, s := range e.runDefers(st) {
		if s.panic != "" {
			*outs = append(*outs, Outcome{st: s.st, panic: s.panic})
			continue
		}
		*outs = append(*outs, Outcome{st: s.st, panic: what2})
	}
}

func (e *Engine) runDefers(st *State) []Outcome {
	states := []Outcome{{st: st}}
	for {
		var next []Outcome
		more := false
		for _, s := range states {
			if s.panic != "" || len(s.st.top().defers) == 0 {
				next = append(next, s)
				continue
			}
			more = true
			f := s.st.frame()
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			for _, o := range e.callValue(s.st, d.Fn, d.Args, d.Instr, d.Instr.Call.Signature(), nil) {
				next = append(next, o)
			}
		}
		states = next
		if !more {
			return states
		}
	}
}

type world struct {
	st *State
	r  bool
}

// branch splits the world by the condition.
func (e *Engine) branch(st *State, cond Val) []world {
	e.tick()
	if r, ok := st.decide(cond); ok {
		return []world{{st, r}}
	}
	f := st.clone()
	var ws []world
	if st.assume(cond, true) {
		ws = append(ws, world{st, true})
	}
	if f.assume(cond, false) {
		ws = append(ws, world{f, false})
	}
	e.nworlds += len(ws)
	return ws
}

func one(st *State) []Outcome { return []Outcome{{st: st}} }

func (e *Engine) instr(st *State, in ssa.Instruction) []Outcome {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := st.newObj(&Obj{Kind: cellObj, Typ: t, Val: zeroVal(t)})
		e.set(st, x, &Ptr{Obj: id})
	case *ssa.BinOp:
		return e.binop(st, x)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.Call:
		return e.callInstr(st, x)
	case *ssa.ChangeInterface:
		e.set(st, x, e.get(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, retype(e.get(st, x.X), x.Type()))
	case *ssa.Convert:
		e.set(st, x, st.convert(e.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		e.set(st, x, st.convert(e.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.Defer:
		e.deferInstr(st, x)
	case *ssa.Extract:
		t := e.get(st, x.Tuple)
		if tu, ok := t.(*Tuple); ok {
			e.set(st, x, tu.Vs[x.Index])
		} else {
			e.set(st, x, st.pure("res"+strconv.Itoa(x.Index), x.Type(), t))
		}
	case *ssa.Field:
		e.set(st, x, fieldOf(st, e.get(st, x.X), x.Field, x.Type(), x.X.Type()))
	case *ssa.FieldAddr:
		return e.withPtr(st, e.get(st, x.X), x.X.Type(), in, func(s *State, p *Ptr) {
			e.set(s, x, &Ptr{Obj: p.Obj, Path: p.Path + "." + strconv.Itoa(x.Field)})
		})
	case *ssa.Go:
		// A goroutine is taken to run at once: whether it may race is another matter.
		e.unknown["go"]++
		fn, args := e.callee(st, &x.Call)
		return e.callValue(st, fn, args, x, x.Call.Signature(), nil)
	case *ssa.Index:
		return e.index(st, x)
	case *ssa.IndexAddr:
		return e.indexAddr(st, x)
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MakeChan:
		e.set(st, x, e.fresh(x.Type(), "chan"))
	case *ssa.MakeClosure:
		bs := make([]Val, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = e.get(st, b)
		}
		e.set(st, x, &FuncV{Fn: x.Fn.(*ssa.Function), Binds: bs})
	case *ssa.MakeInterface:
		e.set(st, x, &Iface{Dyn: x.X.Type(), V: e.get(st, x.X)})
	case *ssa.MakeMap:
		e.set(st, x, &Ptr{Obj: st.newObj(&Obj{Kind: mapObj, Typ: x.Type()})})
	case *ssa.MakeSlice:
		return e.makeSlice(st, x)
	case *ssa.MapUpdate:
		return e.mapUpdate(st, e.get(st, x.Map), e.get(st, x.Key), e.get(st, x.Value), x)
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.Range:
		return e.rangeInstr(st, x)
	case *ssa.RunDefers:
		outs := e.runDefers(st)
		return outs
	case *ssa.Select, *ssa.Send:
		e.unknown["channel"]++
		if v, ok := in.(ssa.Value); ok {
			e.set(st, v, e.fresh(v.Type(), "sel"))
		}
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.SliceToArrayPointer:
		e.set(st, x, e.fresh(x.Type(), "arr"))
	case *ssa.Store:
		v := e.get(st, x.Val)
		return e.withPtr(st, e.get(st, x.Addr), x.Addr.Type(), in, func(s *State, p *Ptr) {
			e.store(s, p, v, in)
		})
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	default:
		e.failf("unsupported instruction %T in %s", in, in.Parent())
	}
	return one(st)
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *Struct:
		if u, ok := t.Underlying().(*types.Struct); ok && u.NumFields() == len(x.Fs) {
			return &Struct{Typ: t, Fs: x.Fs}
		}
	case *Const:
		return &Const{Typ: t, V: x.V}
	}
	return v
}

func (st *State) convert(v Val, from, to types.Type) Val {
	if c, ok := v.(*Const); ok {
		b, isB := to.Underlying().(*types.Basic)
		if isB {
			switch {
			case b.Info()&types.IsInteger != 0:
				if k := constant.ToInt(c.V); k.Kind() == constant.Int {
					return &Const{Typ: to, V: k}
				}
			case b.Info()&types.IsFloat != 0:
				if k := constant.ToFloat(c.V); k.Kind() != constant.Unknown {
					return &Const{Typ: to, V: k}
				}
			case b.Info()&types.IsString != 0 && c.V.Kind() == constant.String:
				return &Const{Typ: to, V: c.V}
			}
		}
	}
	if types.IdenticalIgnoreTags(from.Underlying(), to.Underlying()) {
		return retype(v, to)
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Kind() == tb.Kind() {
			return v
		}
		size := func(b *types.Basic) int {
			switch b.Kind() {
			case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
				return 8
			case types.Int32, types.Uint32:
				return 4
			case types.Int16, types.Uint16:
				return 2
			}
			return 1
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && (fb.Info()&types.IsUnsigned) == (tb.Info()&types.IsUnsigned) && size(tb) >= size(fb) {
			return v
		}
	}
	return st.mk("conv:"+typKey(from.Underlying())+":"+typKey(to.Underlying()), to, v)
}

func fieldOf(st *State, v Val, i int, t types.Type, st2 types.Type) Val {
	if s, ok := v.(*Struct); ok && i < len(s.Fs) {
		return s.Fs[i]
	}
	name := strconv.Itoa(i)
	if u, ok := st2.Underlying().(*types.Struct); ok {
		name = u.Field(i).Name()
	}
	return st.pure("fld:"+name, t, v)
}

// withPtr resolves the pointer to an object, which is made up if the pointer is unknown.
func (e *Engine) withPtr(st *State, v Val, t types.Type, in ssa.Instruction, f func(*State, *Ptr)) []Outcome {
	switch x := v.(type) {
	case *Ptr:
		f(st, x)
		return one(st)
	case NilV:
		return []Outcome{{st: st, panic: "nil dereference at " + e.p.pos(instrPos(in)) + " in " + fnName(in.Parent())}}
	case *Sym, *App:
		if r, ok := st.decideEq(x, nilV); ok && r {
			return []Outcome{{st: st, panic: "nil dereference at " + e.p.pos(instrPos(in)) + " in " + fnName(in.Parent())}}
		}
		id := "@" + x.Key()
		if st.obj(id) == nil {
			et := t.Underlying().(*types.Pointer).Elem()
			o := &Obj{Kind: cellObj, Typ: et, Attrs: map[string]Val{}, owner: st}
			o.Val = expand(&App{Op: "deref", Args: []Val{x}, Typ: et}, et)
			st.mem[id] = o
		}
		f(st, &Ptr{Obj: id})
		return one(st)
	}
	e.failf("dereference of %s at %s", v.Key(), e.p.pos(instrPos(in)))
	return nil
}

func parsePath(path string) []string {
	if path == "" {
		return nil
	}
	var out []string
	cur := ""
	depth := 0
	for _, r := range path {
		switch {
		case r == '[':
			depth++
			if depth == 1 {
				if cur != "" {
					out = append(out, cur)
				}
				cur = "["
				continue
			}
		case r == ']':
			depth--
			if depth == 0 {
				out = append(out, cur)
				cur = ""
				continue
			}
		case r == '.' && depth == 0:
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(r)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func (e *Engine) load(st *State, p *Ptr, t types.Type, in ssa.Instruction) Val {
	if e.onLoad != nil {
		e.onLoad(e, st, p, in)
	}
	o := st.obj(p.Obj)
	if o == nil {
		e.failf("load from unknown object %s at %s", p.Obj, e.p.pos(instrPos(in)))
	}
	path := parsePath(p.Path)
	var v Val
	if o.Kind == listObj {
		if len(path) == 0 {
			e.failf("load of a whole list at %s", e.p.pos(instrPos(in)))
		}
		v = o.elem(path[0])
		path = path[1:]
	} else {
		v = o.Val
		if o.Kind == mapObj {
			e.failf("load of a map object at %s", e.p.pos(instrPos(in)))
		}
	}
	tt := o.Typ
	for _, s := range path {
		i, _ := strconv.Atoi(s)
		v, tt = subField(st, v, i, tt)
	}
	return v
}

func subField(st *State, v Val, i int, t types.Type) (Val, types.Type) {
	var ft types.Type
	name := strconv.Itoa(i)
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if i < u.NumFields() {
				ft = u.Field(i).Type()
				name = u.Field(i).Name()
			}
		case *types.Array:
			ft = u.Elem()
		}
	}
	if s, ok := v.(*Struct); ok && i < len(s.Fs) {
		return s.Fs[i], ft
	}
	return st.pure("fld:"+name, ft, v), ft
}

func (o *Obj) elem(step string) Val {
	switch {
	case step == "[K":
		return o.Wit
	default:
		n, _ := strconv.Atoi(step[1:])
		return o.Els[n]
	}
}

func (e *Engine) store(st *State, p *Ptr, v Val, in ssa.Instruction) {
	if e.onStore != nil {
		e.onStore(e, st, p, v, in)
	}
	if st.obj(p.Obj) == nil {
		e.failf("store to unknown object %s at %s", p.Obj, e.p.pos(instrPos(in)))
	}
	o := st.wobj(p.Obj)
	path := parsePath(p.Path)
	if o.Kind == listObj {
		step := path[0]
		if step == "[K" {
			o.Wit = setPath(st, o.Wit, path[1:], v, o.Typ)
		} else {
			n, _ := strconv.Atoi(step[1:])
			o.Els[n] = setPath(st, o.Els[n], path[1:], v, o.Typ)
		}
		return
	}
	o.Val = setPath(st, o.Val, path, v, o.Typ)
}

func setPath(st *State, v Val, path []string, x Val, t types.Type) Val {
	if len(path) == 0 {
		return x
	}
	i, _ := strconv.Atoi(path[0])
	s, ok := v.(*Struct)
	if !ok {
		// Give the value its fields.
		if u, isS := t.Underlying().(*types.Struct); isS {
			fs := make([]Val, u.NumFields())
			for k := range fs {
				fs[k], _ = subField(st, v, k, t)
			}
			s = &Struct{Typ: t, Fs: fs}
		} else {
			return &App{Op: "upd", Args: []Val{v, x}, Typ: t}
		}
	}
	var ft types.Type
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ft = u.Field(i).Type()
	case *types.Array:
		ft = u.Elem()
	}
	n := &Struct{Typ: s.Typ, Fs: append([]Val{}, s.Fs...)}
	n.Fs[i] = setPath(st, s.Fs[i], path[1:], x, ft)
	return n
}

func (e *Engine) binop(st *State, x *ssa.BinOp) []Outcome {
	a, b := e.get(st, x.X), e.get(st, x.Y)
	t := x.Type()
	if v := foldInts(x.Op, a, b, t); v != nil {
		e.set(st, x, v)
		return one(st)
	}
	switch x.Op {
	case token.EQL:
		e.set(st, x, st.mkEqV(a, b))
	case token.NEQ:
		e.set(st, x, st.mk("not", t, st.mkEqV(a, b)))
	case token.LSS:
		return e.ltOp(st, x, a, b, false)
	case token.GTR:
		return e.ltOp(st, x, b, a, false)
	case token.GEQ:
		return e.ltOp(st, x, a, b, true)
	case token.LEQ:
		return e.ltOp(st, x, b, a, true)
	case token.ADD:
		ca, ok1 := a.(*Const)
		cb, ok2 := b.(*Const)
		if ok1 && ok2 {
			e.set(st, x, &Const{Typ: t, V: constant.BinaryOp(ca.V, token.ADD, cb.V)})
			return one(st)
		}
		if isIntTyp(t) {
			return e.add(st, x, a, b, t)
		}
		e.set(st, x, st.mk("concat", t, a, b))
	case token.SUB:
		ca, ok1 := a.(*Const)
		cb, ok2 := b.(*Const)
		if ok1 && ok2 {
			e.set(st, x, &Const{Typ: t, V: constant.BinaryOp(ca.V, token.SUB, cb.V)})
			return one(st)
		}
		if n, ok := constInt(b); ok && isIntTyp(t) {
			e.set(st, x, st.norm(mkAdd(a, -n, t)))
			return one(st)
		}
		e.set(st, x, st.mk("sub", t, a, b))
	case token.MUL:
		ca, ok1 := a.(*Const)
		cb, ok2 := b.(*Const)
		if ok1 && ok2 {
			e.set(st, x, &Const{Typ: t, V: constant.BinaryOp(ca.V, token.MUL, cb.V)})
			return one(st)
		}
		e.set(st, x, st.mk("mul", t, a, b))
	case token.REM, token.QUO:
		ca, ok1 := constInt(a)
		cb, ok2 := constInt(b)
		if ok1 && ok2 && cb != 0 {
			r := ca / cb
			if x.Op == token.REM {
				r = ca % cb
			}
			e.set(st, x, &Const{Typ: t, V: constant.MakeInt64(r)})
			return one(st)
		}
		e.set(st, x, st.mk("op"+x.Op.String(), t, a, b))
	default:
		ca, ok1 := a.(*Const)
		cb, ok2 := b.(*Const)
		if ok1 && ok2 && (x.Op == token.AND || x.Op == token.OR || x.Op == token.XOR) {
			e.set(st, x, &Const{Typ: t, V: constant.BinaryOp(ca.V, x.Op, cb.V)})
			return one(st)
		}
		e.set(st, x, st.mk("op"+x.Op.String(), t, a, b))
	}
	return one(st)
}

// foldInts computes the operation on constant integers, in the arithmetic of their type, or gives nil.
func foldInts(op token.Token, a, b Val, t types.Type) Val {
	ca, ok1 := a.(*Const)
	cb, ok2 := b.(*Const)
	basic, ok := t.Underlying().(*types.Basic)
	if !ok1 || !ok2 || !ok || basic.Info()&types.IsInteger == 0 || ca.V == nil || cb.V == nil {
		return nil
	}
	x, y := constant.ToInt(ca.V), constant.ToInt(cb.V)
	if x.Kind() != constant.Int || y.Kind() != constant.Int {
		return nil
	}
	var r constant.Value
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		r = constant.BinaryOp(x, op, y)
	case token.QUO, token.REM:
		if constant.Sign(y) == 0 {
			return nil
		}
		if op == token.QUO {
			op = token.QUO_ASSIGN // of integers
		}
		r = constant.BinaryOp(x, op, y)
	case token.SHL, token.SHR:
		n, exact := constant.Uint64Val(y)
		if !exact || n > 64 {
			return nil
		}
		r = constant.Shift(x, op, uint(n))
	default:
		return nil
	}
	bits := uint(types.SizesFor("gc", "amd64").Sizeof(basic) * 8)
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	r = constant.BinaryOp(r, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if basic.Info()&types.IsUnsigned == 0 {
		if half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1); constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return &Const{Typ: t, V: r}
}

func (st *State) mkEqV(a, b Val) Val {
	if r, ok := st.decideEq(a, b); ok {
		return boolV(r)
	}
	// Comparison of booleans with constants.
	if c, ok := constBool(b); ok {
		if c {
			return a
		}
		return st.mk("not", types.Typ[types.Bool], a)
	}
	if c, ok := constBool(a); ok {
		if c {
			return b
		}
		return st.mk("not", types.Typ[types.Bool], b)
	}
	return mkEq(a, b)
}

// add adds, and tells whether a position just before the witness reaches it.
func (e *Engine) add(st *State, x ssa.Value, a, b Val, t types.Type) []Outcome {
	r := st.mk("add", t, a, b)
	e.set(st, x, r)
	n, ok := constInt(b)
	if ok && n == 1 {
		return e.splitAt(st, a, r)
	}
	return one(st)
}

func (e *Engine) splitAt(st *State, before, after Val) []Outcome {
	k := st.mon["K"]
	if k == nil {
		return one(st)
	}
	if lt, ok := st.decideLt(before, k); !ok || !lt {
		return one(st)
	}
	var outs []Outcome
	for _, w := range e.branch(st, mkEq(after, k)) {
		outs = append(outs, Outcome{st: w.st})
	}
	return outs
}

func (e *Engine) ltOp(st *State, x ssa.Value, a, b Val, neg bool) []Outcome {
	finish := func(s *State) {
		var r Val
		if v, ok := s.decideLt(a, b); ok {
			r = boolV(v)
		} else {
			r = s.mk("lt", types.Typ[types.Bool], a, b)
		}
		if neg {
			r = s.mk("not", types.Typ[types.Bool], r)
		}
		e.set(s, x, r)
	}
	k := st.mon["K"]
	if k != nil && isIntTyp(typeOf(a)) && st.phase(a, k) == "?" && st.phase(b, k) == ">" && !mentions(a, k) {
		if _, ok := st.decideLt(a, b); !ok {
			var outs []Outcome
			for _, w := range e.branch(st, &App{Op: "lt", Args: []Val{a, k}, Typ: types.Typ[types.Bool]}) {
				if w.r {
					finish(w.st)
					outs = append(outs, Outcome{st: w.st})
					continue
				}
				for _, w2 := range e.branch(w.st, mkEq(a, w.st.mon["K"])) {
					finish(w2.st)
					outs = append(outs, Outcome{st: w2.st})
				}
			}
			return outs
		}
	}
	finish(st)
	return one(st)
}

func mentions(v, k Val) bool { return strings.Contains(v.Key(), k.Key()) }

func (e *Engine) unop(st *State, x *ssa.UnOp) []Outcome {
	v := e.get(st, x.X)
	switch x.Op {
	case token.MUL:
		return e.withPtr(st, v, x.X.Type(), x, func(s *State, p *Ptr) {
			e.set(s, x, e.load(s, p, x.Type(), x))
		})
	case token.NOT:
		e.set(st, x, st.mk("not", x.Type(), v))
	case token.SUB:
		if c, ok := v.(*Const); ok {
			e.set(st, x, &Const{Typ: x.Type(), V: constant.UnaryOp(token.SUB, c.V, 0)})
		} else {
			e.set(st, x, st.mk("neg", x.Type(), v))
		}
	case token.ARROW:
		e.unknown["channel"]++
		e.set(st, x, e.fresh(x.Type(), "recv"))
	default:
		e.set(st, x, st.mk("op"+x.Op.String(), x.Type(), v))
	}
	return one(st)
}

func (e *Engine) deferInstr(st *State, x *ssa.Defer) {
	fn, args := e.callee(st, &x.Call)
	f := st.frame()
	d := Deferred{Instr: x, Fn: fn, Args: args}
	// A call deferred by each round of a loop stands for those of all the rounds.
	// Few are kept apart, as the rounds may be those of a loop over known items.
	n, first := 0, -1
	for i := range f.defers {
		if f.defers[i].Instr == x {
			n++
			if first < 0 {
				first = i
			}
		}
	}
	if n >= 8 {
		f.defers = append(f.defers[:first:first], f.defers[first+1:]...)
	}
	f.defers = append(f.defers, d)
}

// callee resolves the call to a function value and its arguments, the receiver first.
func (e *Engine) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := e.get(st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.get(st, a))
		}
		if i, ok := recv.(*Iface); ok {
			m := e.p.prog.LookupMethod(i.Dyn, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return &FuncV{Fn: m}, append([]Val{i.V}, args...)
			}
		}
		return &App{Op: "method:" + typKey(c.Value.Type()) + "." + c.Method.Name(), Args: []Val{recv}}, append([]Val{recv}, args...)
	}
	fn := e.get(st, c.Value)
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	return fn, args
}

func (e *Engine) callInstr(st *State, x *ssa.Call) []Outcome {
	fn, args := e.callee(st, &x.Call)
	st.frame().idx = blockIndex(x)
	outs := e.callValue(st, fn, args, x, x.Call.Signature(), x)
	for i := range outs {
		if outs[i].panic == "" {
			e.set(outs[i].st, x, outs[i].ret)
		}
	}
	return outs
}

func blockIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// modelName names the function for the models: instances by their origins.
func modelName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// callValue calls the function value.
func (e *Engine) callValue(st *State, fn Val, args []Val, site ssa.Instruction, sig *types.Signature, call *ssa.Call) []Outcome {
	c := &CallCtx{Args: args, Sig: sig, Site: site}
	switch f := fn.(type) {
	case *FuncV:
		c.Fn = f.Fn
		c.Binds = f.Binds
		c.Name = modelName(f.Fn)
		c.Sig = f.Fn.Signature
		if len(args) > 0 {
			c.Recv = args[0]
		}
		if e.onCall != nil {
			if outs, ok := e.onCall(e, st, c); ok {
				return outs
			}
		}
		if isInit(f.Fn) && !e.p.inModule(f.Fn) {
			return []Outcome{{st: st, ret: &Tuple{}}}
		}
		if m := e.models[c.Name]; m != nil {
			if outs, ok := m(e, st, c); ok {
				return outs
			}
		}
		if f.Fn.Synthetic != "" && strings.HasPrefix(f.Fn.Synthetic, "bound method wrapper") && len(f.Fn.Blocks) > 0 {
			return e.call(st, f.Fn, args, f.Binds, site)
		}
		if e.p.interpreted(f.Fn) && len(f.Fn.Blocks) > 0 {
			return e.call(st, f.Fn, args, f.Binds, site)
		}
		return e.external(st, c)
	case BuiltinV:
		return e.builtin(st, f.Name, args, site, sig, call)
	case *App:
		if strings.HasPrefix(f.Op, "method:") {
			c.Name = "invoke:" + strings.TrimPrefix(f.Op, "method:")
			c.Recv = f.Args[0]
			if _, isNil := c.Recv.(NilV); isNil {
				return []Outcome{{st: st, panic: "nil interface call at " + e.p.pos(instrPos(site)) + " in " + fnName(site.Parent())}}
			}
		} else {
			c.Name = "value"
			c.Recv = fn
		}
	case NilV:
		return []Outcome{{st: st, panic: "nil function call at " + e.p.pos(instrPos(site)) + " in " + fnName(site.Parent())}}
	default:
		c.Name = "value"
		c.Recv = fn
	}
	if e.onCall != nil {
		if outs, ok := e.onCall(e, st, c); ok {
			return outs
		}
	}
	if m := e.models[c.Name]; m != nil {
		if outs, ok := m(e, st, c); ok {
			return outs
		}
	}
	return e.external(st, c)
}

var purePkgs = []string{"time.", "(time.", "(*time.", "strings.", "strconv.", "math.", "cmp.", "reflect.", "(reflect.", "(*reflect.", "fmt.Sprint", "fmt.Errorf", "errors.", "unicode", "sort.Search", "math/", "invoke:reflect.Type.", "invoke:error.Error", "invoke:types.Value.", "invoke:fmt.", "(time.Time)", "invoke:types.ERef.", "invoke:types.VRef", "invoke:types.IDRef", "log.Default", "slices.Contains", "slices.Index", "slices.Equal", "bytes.", "slices.Max", "slices.Min"}

// external gives the results of a function we do not have: a term if it is known to be pure.
func (e *Engine) external(st *State, c *CallCtx) []Outcome {
	var rt types.Type
	if c.Sig != nil {
		switch c.Sig.Results().Len() {
		case 0:
		case 1:
			rt = c.Sig.Results().At(0).Type()
		default:
			rt = c.Sig.Results()
		}
	}
	if e.strict {
		n := strings.TrimPrefix(strings.TrimLeft(c.Name, "(*"), "invoke:")
		known := false
		for _, p := range []string{"fmt.", "errors.", "time.", "error.", "sync.", "log.", "math.", "types."} {
			known = known || strings.HasPrefix(n, p)
		}
		if !known {
			e.failf("%s is not modelled", c.Name)
		}
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(c.Name, p) {
			if rt == nil {
				return []Outcome{{st: st, ret: &Tuple{}}}
			}
			return []Outcome{{st: st, ret: st.pure(c.Name, rt, c.Args...)}}
		}
	}
	e.unknown[c.Name]++
	if rt == nil {
		return []Outcome{{st: st, ret: &Tuple{}}}
	}
	return []Outcome{{st: st, ret: e.fresh(rt, "ext")}}
}

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert) []Outcome {
	v := e.get(st, x.X)
	t := x.AssertedType
	ok := func(s *State) Val {
		w := e.get(s, x.X)
		w = s.norm(w)
		if i, isI := w.(*Iface); isI && !isInterface(t) {
			return i.V
		}
		return w
	}
	atom := st.mk(isOp(t), types.Typ[types.Bool], v)
	if _, isNil := v.(NilV); isNil {
		atom = boolV(false)
	}
	if i, isI := v.(*Iface); isI {
		atom = boolV(dynIs(i.Dyn, t))
	}
	// An interface of unknown dynamic type may be one of those which implement its type.
	if !isInterface(t) {
		if it, isI := x.X.Type().Underlying().(*types.Interface); isI && !types.Implements(t, it) {
			atom = boolV(false)
		}
	}
	var outs []Outcome
	for _, w := range e.branch(st, atom) {
		switch {
		case w.r && x.CommaOk:
			e.set(w.st, x, &Tuple{Vs: []Val{ok(w.st), boolV(true)}})
			outs = append(outs, Outcome{st: w.st})
		case w.r:
			e.set(w.st, x, ok(w.st))
			outs = append(outs, Outcome{st: w.st})
		case x.CommaOk:
			e.set(w.st, x, &Tuple{Vs: []Val{zeroVal(t), boolV(false)}})
			outs = append(outs, Outcome{st: w.st})
		default:
			outs = append(outs, Outcome{st: w.st, panic: fmt.Sprintf("type assertion of %s to %s at %s in %s", v.Key(), typKey(t), e.p.pos(x.Pos()), fnName(x.Parent()))})
		}
	}
	return outs
}
