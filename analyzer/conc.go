package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The locking discipline: which locks are held wherever shared memory is touched.

const (
	ruleGuard   = "shared memory which changes is only touched holding its lock"
	ruleRelease = "locks are released on every way out"
	ruleRelock  = "locks are not acquired by their holders, nor released by others"
	ruleOrder   = "locks are acquired in one order"
	ruleCopy    = "locks are not copied"
	ruleOwn     = "a database's memory is its own"
	ruleOnce    = "a read or write of a database is one critical section"
)

// held is a set of locks held, each exclusively (x) or shared (r).
type held string

func (h held) locks() map[string]byte {
	out := map[string]byte{}
	for _, s := range strings.Split(string(h), "\n") {
		if s != "" {
			out[s[1:]] = s[0]
		}
	}
	return out
}

// taken is those of the locks which must be released.
func (h held) taken() held {
	m := h.locks()
	for k := range m {
		if strings.HasPrefix(k, "once ") || strings.HasPrefix(k, "did ") {
			delete(m, k)
		}
	}
	return mkHeld(m)
}

func mkHeld(m map[string]byte) held {
	var ks []string
	for k, mode := range m {
		ks = append(ks, string(mode)+k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][1:] < ks[j][1:] })
	return held(strings.Join(ks, "\n"))
}

// touch1 is an access to shared memory.
type touch1 struct {
	key   string
	write bool
	held  held
	where string
	entry string
	loose bool // only if one of several functions is called, perhaps with other locks
}

// lockCtx is a function analysed with locks held.
type lockCtx struct {
	fn    *ssa.Function
	in    held
	loose bool
}

type lockState struct {
	held   held
	defers string // the indices of the deferred calls, the last first
}

// lockWalk follows the locks held through the functions reached from the entries of a root.
type lockWalk struct {
	pt      *Points
	r       *Report
	entry   string
	exits   map[lockCtx]map[held]bool
	doing   map[lockCtx]bool
	changed bool
	touches map[string]*touch1
	faults  map[string][3]string // rule, subject: where, what
	edges   map[string]map[string]string
	oks     map[string]bool // obligations seen, by rule
	pending []lockCtx       // closures which are called later, with no locks
	ndefer  map[*ssa.Function][]*ssa.Defer
	loose   bool
	whole1  func(key string) bool // tells whether an operation must not release and reacquire the lock
}

func newLockWalk(pt *Points, r *Report) *lockWalk {
	return &lockWalk{pt: pt, r: r, exits: map[lockCtx]map[held]bool{}, doing: map[lockCtx]bool{}, touches: map[string]*touch1{}, faults: map[string][3]string{}, edges: map[string]map[string]string{}, oks: map[string]bool{}, ndefer: map[*ssa.Function][]*ssa.Defer{}, whole1: func(string) bool { return false }}
}

func (w *lockWalk) fault(rule, subj, where, what string) {
	k := rule + ": " + subj
	if _, ok := w.faults[k]; !ok {
		w.faults[k] = [3]string{rule + "\x00" + subj, where, what}
	}
}

func (w *lockWalk) where(in ssa.Instruction) string {
	return w.pt.p.pos(instrPos(in)) + " in " + fnName(in.Parent())
}

// run analyses the entry, to a fixpoint.
func (w *lockWalk) run(entry *ssa.Function) {
	w.entry = fnName(entry)
	for i := 0; i < 50; i++ {
		w.changed = false
		w.doing = map[lockCtx]bool{}
		w.pending = nil
		outs := w.fn(lockCtx{entry, "", false})
		// What the entry gives back may be called later.
		seen := map[lockCtx]bool{}
		for _, rs := range w.pt.rets[entry] {
			for l := range w.reach(rs) {
				if l.fn != nil {
					w.pending = append(w.pending, lockCtx{l.fn, "", false})
				}
			}
		}
		for len(w.pending) > 0 {
			c := w.pending[0]
			w.pending = w.pending[1:]
			if !seen[c] && w.pt.body(c.fn) {
				seen[c] = true
				w.fn(c)
			}
		}
		if !w.changed {
			for o := range outs {
				w.oks[ruleRelease+" "+w.entry] = true
				if o = o.taken(); o != "" {
					w.fault(ruleRelease, w.entry, w.pt.p.pos(entry.Pos())+" in "+w.entry, "returns holding "+holding(o))
				}
			}
			return
		}
	}
	panic(engineFailure{msg: "the analysis of locks does not converge"})
}

func holding(h held) string {
	var out []string
	for _, k := range sortedKeys(h.locks()) {
		if !strings.HasPrefix(k, "did ") {
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		return "no lock"
	}
	return strings.Join(out, ", ")
}

// reach gives the objects reachable from the places, of those allocated here.
func (w *lockWalk) reach(from pSet) map[*pObj]bool {
	out := map[*pObj]bool{}
	var todo []*pObj
	for l := range from {
		if !out[l.obj] {
			out[l.obj] = true
			todo = append(todo, l.obj)
		}
	}
	for len(todo) > 0 {
		o := todo[0]
		todo = todo[1:]
		if o.kind != pFresh {
			continue
		}
		for l, s := range w.pt.cells {
			if l.obj == o {
				for t := range s {
					if !out[t.obj] {
						out[t.obj] = true
						todo = append(todo, t.obj)
					}
				}
			}
		}
	}
	return out
}

// fn gives the locks held when the function returns.
func (w *lockWalk) fn(c lockCtx) map[held]bool {
	if w.doing[c] {
		return w.exits[c]
	}
	w.doing[c] = true
	loose := w.loose
	w.loose = c.loose
	defer func() { w.loose = loose }()
	w.r.funcs[fnName(c.fn)] = true
	outs := w.exits[c]
	if outs == nil {
		outs = map[held]bool{}
		w.exits[c] = outs
	}
	fn := c.fn
	in := map[*ssa.BasicBlock]map[lockState]bool{}
	type item struct {
		b *ssa.BasicBlock
		s lockState
	}
	var work []item
	push := func(b *ssa.BasicBlock, s lockState) {
		if in[b] == nil {
			in[b] = map[lockState]bool{}
		}
		if !in[b][s] {
			in[b][s] = true
			work = append(work, item{b, s})
		}
	}
	push(fn.Blocks[0], lockState{c.in, ""})
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := map[lockState]bool{it.s: true}
		for _, instr := range it.b.Instrs {
			w.r.steps++
			next := map[lockState]bool{}
			for s := range states {
				switch x := instr.(type) {
				case *ssa.Call:
					for _, h := range w.call(fn, &x.Call, x, s.held, false) {
						next[lockState{h, s.defers}] = true
					}
				case *ssa.Go:
					w.call(fn, &x.Call, x, "", true)
					next[s] = true
				case *ssa.Defer:
					i := -1
					for k, d := range w.ndefer[fn] {
						if d == x {
							i = k
						}
					}
					if i < 0 {
						i = len(w.ndefer[fn])
						w.ndefer[fn] = append(w.ndefer[fn], x)
					}
					d := fmt.Sprintf("%d,", i)
					if !strings.HasPrefix(s.defers, d) && !strings.Contains(s.defers, ","+d) {
						next[lockState{s.held, d + s.defers}] = true
					} else {
						next[s] = true
					}
				case *ssa.RunDefers:
					hs := []held{s.held}
					for _, d := range strings.Split(strings.TrimSuffix(s.defers, ","), ",") {
						if d == "" {
							continue
						}
						i := 0
						fmt.Sscan(d, &i)
						def := w.ndefer[fn][i]
						seen := map[held]bool{}
						var hs2 []held
						for _, h := range hs {
							for _, h2 := range w.call(fn, &def.Call, def, h, false) {
								if !seen[h2] {
									seen[h2] = true
									hs2 = append(hs2, h2)
								}
							}
						}
						hs = hs2
					}
					for _, h := range hs {
						next[lockState{h, ""}] = true
					}
				case *ssa.Return:
					if !outs[s.held] {
						outs[s.held] = true
						w.changed = true
					}
				default:
					w.instr(instr, s.held)
					next[s] = true
				}
			}
			states = next
		}
		// A lock which was tried is held if that succeeded.
		if iff, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
			if call, ok := iff.Cond.(*ssa.Call); ok {
				if name, key := w.lockOp(&call.Call); key != "" && (name == "TryLock" || name == "TryRLock") {
					for s := range states {
						m := s.held.locks()
						mode := byte('x')
						if name == "TryRLock" {
							mode = 'r'
						}
						m[key] = mode
						push(it.b.Succs[0], lockState{mkHeld(m), s.defers})
						push(it.b.Succs[1], s)
					}
					continue
				}
			}
		}
		for _, succ := range it.b.Succs {
			for s := range states {
				push(succ, s)
			}
		}
		if len(it.b.Succs) > 1 && len(in) > 100000 {
			panic(engineFailure{msg: "too many states of locks"})
		}
	}
	return outs
}

// lockOp tells whether the call is of a lock's method, of which lock.
func (w *lockWalk) lockOp(c *ssa.CallCommon) (name, key string) {
	f := c.StaticCallee()
	if f == nil || fnPkg(f) != "sync" || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return
	}
	rt := types.TypeString(deref(f.Signature.Recv().Type()), nil)
	if rt != "sync.Mutex" && rt != "sync.RWMutex" {
		return
	}
	var ks []string
	for l := range w.pt.val(c.Args[0]) {
		ks = append(ks, l.key())
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		ks = []string{"an unknown lock"}
	}
	return f.Name(), strings.Join(ks, "|")
}

// call gives the locks held after the call.
func (w *lockWalk) call(fn *ssa.Function, c *ssa.CallCommon, in ssa.Instruction, h held, spawned bool) []held {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		w.builtin(b, c, in, h)
		return []held{h}
	}
	if name, key := w.lockOp(c); key != "" {
		m := h.locks()
		mode, has := m[key]
		subj := key
		w.oks[ruleRelock+" "+w.where(in)] = true
		switch name {
		case "Lock", "RLock":
			if has {
				w.fault(ruleRelock, subj, w.where(in), "acquires "+key+", which it holds already, on a way from "+w.entry)
				return []held{h}
			}
			if _, did := m["did "+key]; did {
				w.fault(ruleOnce, w.entry, w.where(in), "acquires "+key+" again, having released it, on a way from "+w.entry)
			}
			for k := range m {
				if strings.HasPrefix(k, "did ") || strings.HasPrefix(k, "once ") {
					continue
				}
				if w.edges[k] == nil {
					w.edges[k] = map[string]string{}
				}
				w.edges[k][key] = w.where(in)
			}
			m[key] = 'x'
			if name == "RLock" {
				m[key] = 'r'
			}
		case "Unlock", "RUnlock":
			want := byte('x')
			if name == "RUnlock" {
				want = 'r'
			}
			if !has || mode != want {
				w.fault(ruleRelock, subj, w.where(in), "releases "+key+", which it does not hold that way, on a way from "+w.entry)
				return []held{h}
			}
			delete(m, key)
			if w.whole1(key) {
				m["did "+key] = 'r'
			}
		}
		return []held{mkHeld(m)}
	}
	ts, ext, unknown := w.pt.targets(c)
	if spawned {
		for _, t := range ts {
			w.fn(lockCtx{t.fn, "", w.loose})
		}
		return []held{h}
	}
	outs := map[held]bool{}
	for _, t := range ts {
		w.enter(c, t)
		for o := range w.fn(lockCtx{t.fn, h, w.loose || len(ts) > 1 && !c.IsInvoke()}) {
			outs[o] = true
		}
	}
	if ext != nil || unknown {
		w.external(c, ext, in, h)
		cb, after := h, h
		if ext != nil && fnPkg(ext) == "sync" && ext.Name() == "Do" {
			// What is done once is done before anyone goes on.
			var ks []string
			for l := range w.pt.val(c.Args[0]) {
				ks = append(ks, "once "+l.key())
			}
			sort.Strings(ks)
			m := h.locks()
			m[strings.Join(ks, "|")] = 'x'
			cb = mkHeld(m)
			m[strings.Join(ks, "|")] = 'r'
			after = mkHeld(m)
		}
		for _, a := range c.Args {
			for l := range w.pt.val(a) {
				if l.obj.kind == pFunc && l.obj.fn != nil && w.pt.body(l.obj.fn) {
					w.fn(lockCtx{l.obj.fn, cb, w.loose})
				}
			}
		}
		outs[after] = true
	}
	var res []held
	for o := range outs {
		res = append(res, o)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func (w *lockWalk) enter(c *ssa.CallCommon, t target) {}

// touch records the access to the places.
func (w *lockWalk) touch(ls pSet, suffix string, write bool, in ssa.Instruction, h held) {
	for l := range ls {
		if !l.outer() || l.obj.kind == pFunc {
			continue
		}
		key := l.key() + suffix
		id := fmt.Sprint(key, write, h, w.where(in))
		if t := w.touches[id]; t == nil {
			w.touches[id] = &touch1{key, write, h, w.where(in), w.entry, w.loose}
		} else if !w.loose {
			t.loose = false
		}
	}
}

func (w *lockWalk) instr(in ssa.Instruction, h held) {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			w.whole(w.pt.val(in.X), in.Type(), false, in, h)
		}
	case *ssa.Store:
		w.whole(w.pt.val(in.Addr), in.Val.Type(), true, in, h)
	case *ssa.MapUpdate:
		w.touch(w.pt.val(in.Map), "{}", true, in, h)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			w.touch(w.pt.val(in.X), "{}", false, in, h)
		}
	case *ssa.Next:
		if !in.IsString {
			w.touch(w.pt.val(in.Iter), "{}", false, in, h)
		}
	case *ssa.Field, *ssa.Index:
	}
}

// whole touches every field of a value read or written at once.
func (w *lockWalk) whole(ls pSet, t types.Type, write bool, in ssa.Instruction, h held) {
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			sub := pSet{}
			for l := range ls {
				sub[pLoc{l.obj, l.path + "." + st.Field(i).Name()}] = true
			}
			w.whole(sub, st.Field(i).Type(), write, in, h)
		}
		return
	}
	w.touch(ls, "", write, in, h)
}

func (w *lockWalk) builtin(b *ssa.Builtin, c *ssa.CallCommon, in ssa.Instruction, h held) {
	isMap := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Map)
		return ok
	}
	elems := func(v ssa.Value) pSet {
		s := pSet{}
		for l := range w.pt.val(v) {
			s[pLoc{l.obj, arrayPath(l.path)}] = true
		}
		return s
	}
	switch b.Name() {
	case "delete":
		w.touch(w.pt.val(c.Args[0]), "{}", true, in, h)
	case "clear":
		if isMap(c.Args[0]) {
			w.touch(w.pt.val(c.Args[0]), "{}", true, in, h)
		} else {
			w.touch(elems(c.Args[0]), "[]", true, in, h)
		}
	case "len":
		if isMap(c.Args[0]) {
			w.touch(w.pt.val(c.Args[0]), "{}", false, in, h)
		}
	case "append":
		// There may be room in the array, unless it was clipped.
		room := pSet{}
		for l := range w.pt.val(c.Args[0]) {
			if !strings.HasSuffix(l.path, clipped) {
				room[pLoc{l.obj, arrayPath(l.path)}] = true
			}
		}
		w.touch(room, "[]+", true, in, h)
		w.touch(elems(c.Args[1]), "[]", false, in, h)
	case "copy":
		w.touch(elems(c.Args[0]), "[]", true, in, h)
		w.touch(elems(c.Args[1]), "[]", false, in, h)
	}
}

// external tells what functions without bodies do to their arguments.
func (w *lockWalk) external(c *ssa.CallCommon, ext *ssa.Function, in ssa.Instruction, h held) {
	name, pkg := "", ""
	recv := false
	args := c.Args
	switch {
	case ext != nil:
		name, pkg = ext.Name(), fnPkg(ext)
		if o := ext.Origin(); o != nil {
			name = o.Name()
		}
		recv = ext.Signature.Recv() != nil
	case c.IsInvoke():
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		recv = true
		args = append([]ssa.Value{c.Value}, args...)
	}
	switch pkg {
	case "sync", "sync/atomic", "log", "log/slog", "context", "fmt", "strings", "strconv", "time", "math", "errors":
		return
	}
	starts := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	for i, a := range args {
		if !pointerLike(a.Type()) {
			continue
		}
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			continue
		}
		write := false
		switch {
		case strings.HasSuffix(pkg, "google/btree"):
			write = recv && i == 0 && !starts("Get", "Has", "Len", "Min", "Max", "Ascend", "Descend")
		case pkg == "reflect":
			write = recv && i == 0 && starts("Set", "Clear", "Grow")
		case pkg == "sort":
			write = true
		case pkg == "maps" || pkg == "slices":
			write = i == 0 && starts("Copy", "Delete", "Sort", "Reverse", "Insert", "Replace", "Compact")
		default:
			write = recv && i == 0 && starts("Set", "Add", "Push", "Insert", "Delete", "Remove", "Clear", "Write", "Reset", "Put", "Move", "Init", "Replace", "Pop", "Store", "Update")
		}
		w.touch(w.pt.val(a), ".contents", write, in, h)
	}
}

// concRoot is what goroutines share: the receiver of the entries.
type concRoot struct {
	name    string
	typ     types.Type
	entries []*ssa.Function
}

// concRoots finds the types which goroutines may share.
func concRoots(r *Report) []concRoot {
	p := r.p
	var ifaces []types.Type
	for _, s := range [][2]string{{typesPkg, "Database"}, {typesPkg, "Snapshot"}, {"internal/structs/models", "Analyzer"}, {"pkg/database", "Database"}, {"pkg/database", "TypedSnapshot"}} {
		t := p.typ(s[0], s[1])
		if t == nil {
			r.undecided(ruleGuard, s[0]+"."+s[1], "no such type")
			continue
		}
		ifaces = append(ifaces, t)
	}
	var out []concRoot
	for _, rel := range sortedKeys(p.spkgs) {
		scope := p.spkgs[rel].Pkg.Scope()
		for _, name := range scope.Names() {
			tn, ok := scope.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			shared := hasLock(t) || rel == "pkg/database" && name == "Snapshot"
			for _, it := range ifaces {
				i := it.Underlying().(*types.Interface)
				shared = shared || sharedMethods(p, t, it, i)
			}
			if !shared {
				continue
			}
			root := concRoot{name: fnName2(rel, name), typ: t}
			ms := p.prog.MethodSets.MethodSet(types.NewPointer(t))
			for i := 0; i < ms.Len(); i++ {
				f, ok := ms.At(i).Obj().(*types.Func)
				if !ok || !f.Exported() {
					continue
				}
				m := p.prog.FuncValue(f)
				if m == nil || len(m.Blocks) == 0 {
					m = p.prog.MethodValue(ms.At(i))
				}
				if m != nil && len(m.Blocks) > 0 {
					root.entries = append(root.entries, m)
				}
			}
			out = append(out, root)
		}
	}
	return out
}

func fnName2(rel, name string) string { return rel + "." + name }

// sharedMethods tells whether the type, or, if it is generic, its instances, implement the interface.
func sharedMethods(p *Program, t, named types.Type, it *types.Interface) bool {
	if types.Implements(types.NewPointer(t), it) {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.TypeParams().Len() == 0 || typePkg(t) != typePkg(named) {
		return false
	}
	ms := p.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < it.NumMethods(); i++ {
		if ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name()) == nil {
			return false
		}
	}
	return it.NumMethods() > 0
}

// hasLock tells whether the struct has a lock in it.
func hasLock(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		n, ok := types.Unalias(s.Field(i).Type()).(*types.Named)
		if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") {
			return true
		}
	}
	return false
}

func checkC02(r *Report) {
	runDB(r).report(r, ruleShare)
	roots := concRoots(r)
	// Every exported function may be called at any time.
	var fns concRoot
	fns.name = "functions"
	for _, fn := range r.p.funcs {
		if fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Synthetic == "" {
			fns.entries = append(fns.entries, fn)
		}
	}
	roots = append(roots, fns)
	all := map[string]*touch1{}
	type owned struct{ root, path, of, where string }
	var owns []owned
	locked := map[string]string{}
	for _, root := range roots {
		if root.typ != nil && hasLock(root.typ) {
			locked[types.TypeString(root.typ, nil)] = root.name
		}
	}
	edges := map[string]map[string]string{}
	for _, rule := range []string{ruleGuard, ruleRelease, ruleRelock, ruleOrder, ruleCopy, ruleOwn} {
		r.rule(rule)
	}
	for _, root := range roots {
		r.attempt(ruleGuard, root.name, func() {
			pt := newPoints(r.p)
			for _, en := range root.entries {
				pt.enter(en)
				for i, prm := range en.Params {
					switch {
					case i == 0 && en.Signature.Recv() != nil:
						o := pt.obj(pShared, root.name)
						pt.addLoc(pt.val(prm), pLoc{o, ""})
					default:
						pt.param(prm, pCaller, fmt.Sprintf("%s's %s", fnName(en), prm.Name()))
					}
				}
			}
			pt.solve()
			// Functions given back may be called.
			w := newLockWalk(pt, r)
			for more := true; more; {
				more = false
				for _, en := range root.entries {
					for _, rs := range pt.rets[en] {
						for o := range w.reach(rs) {
							if o.fn == nil || !pt.body(o.fn) || pt.fns[o.fn] {
								continue
							}
							more = true
							pt.enter(o.fn)
							for _, prm := range o.fn.Params {
								pt.param(prm, pCaller, fmt.Sprintf("%s's %s", fnName(o.fn), prm.Name()))
							}
						}
					}
				}
				pt.solve()
			}
			for _, k := range sortedKeys(pt.objs) {
				o := pt.objs[k]
				if o.kind != pFresh || o.typ == nil || locked[types.TypeString(o.typ, nil)] == "" {
					continue
				}
				for l, s := range pt.cells {
					if l.obj != o {
						continue
					}
					for to := range s {
						if to.obj.kind == pGlobal {
							owns = append(owns, owned{locked[types.TypeString(o.typ, nil)], l.path, to.key(), strings.TrimPrefix(k, modPath+"/")})
						}
					}
				}
				n := len(locked)
				r.rules[ruleOwn] += n
				r.ok += n
			}
			for _, en := range root.entries {
				w.run(en)
			}
			for k, t := range w.touches {
				all[root.name+" "+k] = t
			}
			for a, m := range w.edges {
				for b, at := range m {
					if edges[a] == nil {
						edges[a] = map[string]string{}
					}
					edges[a][b] = at
				}
			}
			for k := range w.oks {
				rule := k[:strings.Index(k, " ")]
				for _, x := range []string{ruleRelease, ruleRelock} {
					if strings.HasPrefix(k, x+" ") {
						rule = x
					}
				}
				r.rules[rule]++
				r.ok++
			}
			for _, k := range sortedKeys(w.faults) {
				f := w.faults[k]
				rule, subj, _ := strings.Cut(f[0], "\x00")
				r.check(false, rule, subj, f[1], "%s", f[2])
			}
		})
	}
	// Which locks do all accesses of memory which changes hold?
	byKey := map[string][]*touch1{}
	for _, id := range sortedKeys(all) {
		t := all[id]
		byKey[t.key] = append(byKey[t.key], t)
	}
	for _, key := range sortedKeys(byKey) {
		ts := byKey[key]
		written := false
		for _, t := range ts {
			written = written || t.write
		}
		if os.Getenv("TRACE") != "" {
			for _, t := range ts {
				fmt.Println(key, t.write, t.held, t.where, t.entry)
			}
		}
		if !written {
			for range ts {
				r.check(true, ruleGuard, key, "", "")
			}
			continue
		}
		// The lock most of them hold.
		votes := map[string]int{}
		for _, t := range ts {
			for k, mode := range t.held.locks() {
				if strings.HasPrefix(k, "did ") {
					continue
				}
				if mode == 'x' || !t.write {
					votes[k]++
				}
			}
		}
		lock := ""
		for _, k := range sortedKeys(votes) {
			if lock == "" || votes[k] > votes[lock] {
				lock = k
			}
		}
		for _, t := range ts {
			mode, ok := t.held.locks()[lock]
			good := ok && lock != "" && (mode == 'x' || !t.write)
			what := "reads"
			if t.write {
				what = "changes"
			}
			need := "any lock"
			if lock != "" {
				need = lock
			}
			h := "holding " + holding(t.held)
			if ok && !good {
				h = "holding it only shared"
			}
			if !good && t.loose {
				// Is it known to be touched there with the lock?
				strict := false
				for _, t2 := range ts {
					m2, ok := t2.held.locks()[lock]
					strict = strict || t2.where == t.where && t2.entry == t.entry && ok && lock != "" && (m2 == 'x' || !t2.write)
				}
				if strict {
					r.note("%s: may not hold %s at %s, if it is called from elsewhere", key, lock, t.where)
					continue
				}
			}
			r.check(good, ruleGuard, key, t.where, "%s %s, on a way from %s, without holding %s exclusively as needed (%s)", what, key, t.entry, need, h)
		}
	}
	// The memory which an object's methods change must be its own: another's lock is another.
	sort.Slice(owns, func(i, j int) bool { return fmt.Sprint(owns[i]) < fmt.Sprint(owns[j]) })
	for _, o := range owns {
		at := ""
		for _, id := range sortedKeys(all) {
			t := all[id]
			rest, ok := strings.CutPrefix(t.key, o.root+o.path)
			if ok && t.write && rest != "" && !strings.HasPrefix(rest, ".") {
				at = t.where
				break
			}
		}
		r.check(at == "", ruleOwn, o.root+o.path, at, "%s%s is changed, but is also %s (since %s)", o.root, o.path, o.of, o.where)
	}
	// Cycles of locks.
	for _, a := range sortedKeys(edges) {
		for _, b := range sortedKeys(edges[a]) {
			seen := map[string]bool{}
			todo := []string{b}
			cyc := false
			for len(todo) > 0 {
				x := todo[0]
				todo = todo[1:]
				cyc = cyc || x == a
				for y := range edges[x] {
					if !seen[y] {
						seen[y] = true
						todo = append(todo, y)
					}
				}
			}
			r.check(!cyc, ruleOrder, a+" and "+b, edges[a][b], "%s is acquired holding %s, and elsewhere the other way round", b, a)
		}
	}
	if len(edges) == 0 {
		r.check(true, ruleOrder, "none", "", "")
	}
	// Copies of locks.
	n := 0
	for _, fn := range r.p.funcs {
		for _, prm := range fn.Params {
			n++
			if hasLock(prm.Type()) {
				r.check(false, ruleCopy, fnName(fn), r.p.pos(fn.Pos()), "%s has a copy of a lock as its parameter %s", fnName(fn), prm.Name())
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if ok && u.Op == token.MUL && hasLock(u.Type()) && strings.HasPrefix(typePkg(u.Type()), modPath) {
					r.check(false, ruleCopy, fnName(fn), r.p.pos(instrPos(in)), "%s copies a lock", fnName(fn))
				}
			}
		}
	}
	r.rules[ruleCopy] += n
	r.ok += n
}

func checkC34(r *Report) {
	runDB(r).report(r, ruleSnap, ruleHist)
	r.rule(ruleOnce)
	r.rule(ruleRelease)
	r.rule(ruleRelock)
	var dbs []string
	var roots []concRoot
	for _, root := range concRoots(r) {
		for _, s := range [][2]string{{typesPkg, "Database"}} {
			t := r.p.typ(s[0], s[1])
			if t == nil || root.typ == nil || !sharedMethods(r.p, root.typ, t, t.Underlying().(*types.Interface)) {
				continue
			}
			roots = append(roots, root)
			dbs = append(dbs, root.name[strings.LastIndex(root.name, ".")+1:])
		}
	}
	for _, root := range roots {
		r.attempt(ruleOnce, root.name, func() {
			pt := newPoints(r.p)
			for _, en := range root.entries {
				pt.enter(en)
				for i, prm := range en.Params {
					if i == 0 {
						pt.addLoc(pt.val(prm), pLoc{pt.obj(pShared, root.name), ""})
						continue
					}
					pt.param(prm, pCaller, fmt.Sprintf("%s's %s", fnName(en), prm.Name()))
				}
			}
			pt.solve()
			w := newLockWalk(pt, r)
			w.whole1 = func(key string) bool {
				owner := key
				if i := strings.LastIndex(key, "."); i >= 0 {
					owner = key[:i]
				}
				for _, d := range dbs {
					if owner == d || strings.HasSuffix(owner, "."+d) || strings.HasSuffix(owner, "(*"+d+")**") {
						return true
					}
				}
				return false
			}
			for _, en := range root.entries {
				w.run(en)
				r.check(true, ruleOnce, fnName(en), "", "")
			}
			for k := range w.oks {
				for _, x := range []string{ruleRelease, ruleRelock} {
					if strings.HasPrefix(k, x+" ") {
						r.rules[x]++
						r.ok++
					}
				}
			}
			for _, k := range sortedKeys(w.faults) {
				f := w.faults[k]
				rule, subj, _ := strings.Cut(f[0], "\x00")
				r.check(false, rule, subj, f[1], "%s", f[2])
			}
		})
	}
}

func typePkg(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func init() {
	register("C02", "For every type which goroutines share (databases, snapshots, analyzers, and any type with a lock) the memory reachable from it is found by a field-sensitive points-to analysis, and the locks held are followed along every path of every function reachable from its exported methods, including closures which they give back and deferred calls; package variables are shared by every exported function. The rule: memory which any of them changes is only read holding one same lock, and only changed holding it exclusively; locks are released on every way out, not acquired twice, acquired in one order, and not copied. Changing includes calls of the tree's methods which change it, cloning among them.", checkC02)
	register("C34", "The locks held are followed along every path of the reads and writes of every database. The rule: each is a single critical section, which acquires the database's lock once and releases it on every way out, so operations take effect one by one between their calls and their returns; and the snapshots given have, in every abstract calling context, what the database had in that section, as have those of reads after writes after reads. With the guarding of memory (C02), that makes histories linearizable. That loops end is not decided.", checkC34)
}
