package main

// Histories of a read, a write and a read: what the database keeps from one operation to the next must not show.

const ruleHist = "a read shows every write which ended before it"

// histShapes are the requests of the writes between reads.
var histShapes = map[string]bool{
	"a claim with entity nil":       true,
	"a claim with entity TempID":    true,
	"a claim of any value":          true,
	"a retraction by id":            true,
	"a retraction and a claim":      true,
	"an ident and a claim by ident": true,
	"a declaration of DbIdent, AttrType, AttrCardinality, AttrUnique": true,
}

// history interprets a read, a write of the shape and a read, of an arbitrary store.
func (x *DB) history(sh *dbShape) {
	x.sh = &dbShape{name: "a read, " + sh.name + ", a read", accept: sh.accept, content: sh.content, rejectProps: sh.rejectProps}
	x.e.maxStep = x.e.steps + 3000000
	x.bound = sh.bound
	st := x.generalise()
	rq := &dbReq{}
	if !sh.build(x, st, rq) {
		x.e.failf("the request of %s is inconsistent", sh.name)
	}
	req := x.request(st, rq)
	st.mon["any.ident"] = x.symOf("anyident", "Ident")
	st.mon["any.attr"] = x.symOf("anyattr", "ID")
	x.rolePaths(st)
	read := x.r.p.method(st.obj(x.dbPtr.Obj).Typ, "Read")
	if read == nil {
		x.e.failf("the database has no method Read")
	}
	write := x.writeFn()
	where := x.e.p.pos(read.Pos()) + " in " + fnName(read)
	for _, o := range x.e.invoke(st, &FuncV{Fn: read}, x.dbPtr) {
		if o.panic != "" {
			continue // Judged as a read.
		}
		x.freeze(o.st)
		for _, o := range x.e.invoke(o.st, &FuncV{Fn: write}, x.dbPtr, req) {
			if o.panic != "" {
				continue // Judged as a write.
			}
			st := o.st
			st.mon["res"] = o.ret
			if root := x.snapshotObj(st); root != "" {
				x.histSnap(st, root, x.e.p.pos(write.Pos())+" in "+fnName(write))
			}
			for _, o := range x.e.invoke(st, &FuncV{Fn: read}, x.dbPtr) {
				x.obligation(ruleHist)
				if o.panic != "" {
					x.suspect(o.st, "C34 C07", ruleHist, "read panics", where, o.panic)
					continue
				}
				v := o.ret
				if i, ok := v.(*Iface); ok {
					v = i.V
				}
				p, ok := v.(*Ptr)
				if !ok {
					x.suspect(o.st, "C34", ruleHist, "none", where, "a read gives no snapshot")
					continue
				}
				x.histSnap(o.st, p.Obj, where)
			}
		}
	}
}

// histSnap checks that the snapshot has what the database has.
func (x *DB) histSnap(st *State, root, where string) {
	n := len(x.viols)
	x.snapshotOf(st, root, where)
	x.tally[ruleHist]++
	for i := n; i < len(x.viols); i++ {
		x.viols[i].rule = ruleHist
	}
}
