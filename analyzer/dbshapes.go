package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// The abstract calling contexts of Write.

// dbShapes gives the shapes of requests, with the properties they bear on.
func dbShapes(x *DB) []*dbShape {
	var out []*dbShape
	bound := 1
	add := func(name, accept, content string, build func(q *dbReq, st *State) bool) {
		out = append(out, &dbShape{name: name, bound: bound, accept: accept, content: content, build: func(x *DB, st *State, q *dbReq) bool { return build(q, st) }})
	}
	claims := func(name, accept, content string, cs func() []Val) {
		add(name, accept, content, func(q *dbReq, st *State) bool {
			q.claims = cs()
			return true
		})
	}
	yes, no := boolV(true), boolV(false)
	sys := func(n string) Val { return x.iface("ID", x.sysID(n)) }
	ref, c := x.ref, x.claimOf

	// One claim, about any entity, by every kind of reference.
	for _, k := range []string{"nil", "Ident", "LookupRef", "TempID", "TxnID"} {
		claims("a claim with entity "+k, "C11 C12", "C12 C13", func() []Val {
			return []Val{c("c", ref("e", k), ref("a", "ID"), ref("v", "Int"), nil)}
		})
	}
	for _, k := range []string{"nil", "Ident", "LookupRef"} {
		claims("a claim with attribute "+k, "C11", "C12", func() []Val {
			return []Val{c("c", ref("e", "ID"), ref("a", k), ref("v", "String"), nil)}
		})
	}
	claims("a claim of any value", "C07 C11 C09", "C06 C12 C13", func() []Val {
		return []Val{c("c", ref("e", "ID"), ref("a", "ID"), nil, nil)}
	})
	// Two claims of the same attribute.
	for _, k := range []string{"String", "Inst", "Float", "ID"} {
		claims("two claims of an attribute with values "+k, "C05 C06", "C05 C06 C13", func() []Val {
			return []Val{c("c", ref("e", "ID"), ref("a", "ID"), ref("v", k), nil), c("d", ref("f", "ID"), ref("a", "ID"), ref("w", k), nil)}
		})
	}
	// Temporary ids.
	claims("two claims of temporary entities", "C12 C05", "C12 C05", func() []Val {
		return []Val{c("c", ref("t", "TempID"), ref("a", "ID"), ref("v", "String"), no), c("d", ref("u", "TempID"), ref("a", "ID"), ref("w", "String"), no)}
	})
	claims("claims of a temporary entity and of another", "C12 C05", "C12 C05", func() []Val {
		return []Val{c("c", ref("t", "TempID"), ref("a", "ID"), ref("v", "String"), no), c("d", ref("e", "ID"), ref("a", "ID"), ref("w", "String"), no)}
	})
	claims("claims of another and of a temporary entity", "C12 C05", "C12 C05", func() []Val {
		return []Val{c("d", ref("e", "ID"), ref("a", "ID"), ref("w", "String"), no), c("c", ref("t", "TempID"), ref("a", "ID"), ref("v", "String"), no)}
	})
	claims("a temporary value and a temporary entity", "C12", "C12", func() []Val {
		return []Val{c("c", ref("e", "ID"), ref("a", "ID"), ref("t", "TempID"), no), c("d", ref("u", "TempID"), ref("b", "ID"), ref("w", "Int"), no)}
	})
	// Idents.
	for _, k := range []string{"ID", "TempID"} {
		claims("two idents of entities "+k, "C14 C09", "C14 C06", func() []Val {
			return []Val{c("c", ref("e", k), sys("DbIdent"), ref("v", "String"), nil), c("d", ref("f", k), sys("DbIdent"), ref("w", "String"), nil)}
		})
	}
	// Declarations.
	for _, p := range [][2]string{{"DbIdent", "AttrType"}, {"AttrType", "DbIdent"}, {"AttrType", "AttrType"}, {"AttrCardinality", "AttrCardinality"}, {"AttrUnique", "AttrUnique"}} {
		val := func(n, a string) Val {
			if a == "DbIdent" {
				return ref(n, "String")
			}
			return ref(n, "ID")
		}
		for _, k := range []string{"ID", "TempID"} {
			claims(fmt.Sprintf("declarations of %s and %s of entities %s", p[0], p[1], k), "C08", "C08", func() []Val {
				return []Val{c("c", ref("e", k), sys(p[0]), val("v", p[0]), no), c("d", ref("f", k), sys(p[1]), val("w", p[1]), no)}
			})
		}
	}
	for _, a := range []string{"AttrCardinality", "AttrUnique", "DbIdent", "AttrType"} {
		val := func(a string) Val {
			if a == "DbIdent" {
				return ref("x", "String")
			}
			return ref("x", "ID")
		}
		for _, r := range []Val{no, yes} {
			n := "assertion"
			if r == yes {
				n = "retraction"
			}
			claims(fmt.Sprintf("a declaration with %s of %s", n, a), "C08", "C08", func() []Val {
				return []Val{c("c", ref("e", "ID"), sys("DbIdent"), ref("v", "String"), no), c("d", ref("e", "ID"), sys("AttrType"), ref("w", "ID"), no), c("f", ref("e", "ID"), sys(a), val(a), r)}
			})
		}
	}
	// A whole or a partial declaration.
	declare := func(names ...string) {
		claims("a declaration of "+strings.Join(names, ", "), "C08", "C08", func() []Val {
			var cs []Val
			for i, a := range names {
				v := ref(fmt.Sprint("v", i), "ID")
				if a == "DbIdent" {
					v = ref(fmt.Sprint("v", i), "String")
				}
				cs = append(cs, c(fmt.Sprint("c", i), ref("e", "TempID"), sys(a), v, no))
			}
			return cs
		})
	}
	declare("DbIdent", "AttrCardinality")
	declare("DbIdent", "AttrUnique")
	declare("DbIdent", "AttrType", "AttrCardinality", "AttrUnique")
	// Three claims of one attribute of one entity.
	claims("three claims of an attribute of an entity", "C06", "C06 C13", func() []Val {
		return []Val{c("c", ref("e", "ID"), ref("a", "ID"), ref("v", "Int"), no), c("d", ref("e", "ID"), ref("a", "ID"), ref("w", "Int"), no), c("f", ref("e", "ID"), ref("a", "ID"), ref("x", "Int"), nil)}
	})
	// Chains of identities.
	claims("two claims of a temporary entity", "C12 C05", "C12 C05", func() []Val {
		return []Val{c("c", ref("t", "TempID"), ref("a", "ID"), ref("v", "String"), no), c("d", ref("t", "TempID"), ref("b", "ID"), ref("w", "String"), no)}
	})
	claims("a chain of identities of temporary entities", "C12 C05", "C12 C05", func() []Val {
		return []Val{c("c", ref("t", "TempID"), ref("a", "ID"), ref("v", "String"), no), c("d", ref("u", "TempID"), ref("a", "ID"), ref("v", "String"), no), c("f", ref("u", "TempID"), ref("b", "ID"), ref("w", "String"), no)}
	})
	claims("the transaction twice", "C11", "C12", func() []Val {
		return []Val{c("c", ref("x", "TxnID"), ref("a", "ID"), ref("v", "Int"), no), c("d", ref("y", "TxnID"), ref("b", "ID"), ref("w", "Int"), no)}
	})
	// References in requests which change what they refer to.
	claims("an ident and a claim by ident", "C14 C11", "C14 C12", func() []Val {
		return []Val{c("c", ref("e", "ID"), sys("DbIdent"), ref("v", "String"), nil), c("d", ref("f", "Ident"), ref("a", "ID"), ref("w", "Int"), no)}
	})
	claims("a declaration and a claim of its attribute", "C08 C07", "C08 C07", func() []Val {
		return []Val{c("c", ref("e", "ID"), sys("DbIdent"), ref("v", "String"), no), c("d", ref("e", "ID"), sys("AttrType"), ref("w", "ID"), no), c("f", ref("g", "ID"), ref("a", "ID"), ref("x", "Int"), no)}
	})
	// Retractions of entities.
	retr := func(name string, keys ...[]string) {
		add("a retraction by "+name, "C13", "C13", func(q *dbReq, st *State) bool {
			for i, ks := range keys {
				var vs []Val
				for j, k := range ks {
					vs = append(vs, ref(fmt.Sprintf("r%d%d", i, j), k))
				}
				q.retr = append(q.retr, vs)
			}
			return true
		})
	}
	retr("nothing", []string{})
	bound = 2
	retr("id", []string{"ID"})
	bound = 1
	retr("ident", []string{"Ident"})
	retr("lookup ref", []string{"LookupRef"})
	retr("nil", []string{"nil"})
	retr("id and ident", []string{"ID", "Ident"})
	retr("ident and id", []string{"Ident", "ID"})
	retr("two ids in turn", []string{"ID"}, []string{"ID"})
	add("a retraction and a claim", "C13", "C13", func(q *dbReq, st *State) bool {
		q.claims = []Val{c("c", ref("e", "ID"), ref("a", "ID"), ref("v", "String"), no)}
		q.retr = [][]Val{{ref("r", "ID")}}
		return true
	})
	return out
}

// dbRun is the analysis of every shape.
type dbRun struct {
	what    string
	shapes  int
	gaps    [][2]string // shapes which could not be analysed, and why
	viols   []dbViol
	tally   map[string]int
	shared  map[string][]string
	mutated map[string]string
	funcs   map[string]bool
	worlds  int
	steps   int
	unknown map[string]int
}

// dbDone is the analysis, which is that of every property when one run decides several.
var dbDone *dbRun

// runDB interprets writes of every shape, and reads, and judges them by the rules.
func runDB(r *Report) *dbRun {
	if dbDone != nil {
		return dbDone
	}
	d := newRun("requests")
	dbDone = d
	x := newDB(r)
	re := regexp.MustCompile(os.Getenv("SHAPES"))
	var names []string
	for _, sh := range dbShapes(x) {
		if re.MatchString(sh.name) {
			names = append(names, sh.name)
		}
		if histShapes[sh.name] && re.MatchString("history: "+sh.name) {
			names = append(names, "history: "+sh.name)
		}
	}
	d.pool(r, names, func(x *DB, name string) {
		for _, sh := range dbShapes(x) {
			switch name {
			case sh.name:
				x.write(sh)
			case "history: " + sh.name:
				x.history(sh)
			}
		}
	})
	why := catch(func() { x.readShape() })
	if why != "" {
		d.gaps = append(d.gaps, [2]string{"read", why})
	}
	if why := catch(func() { x.resolves() }); why != "" {
		d.gaps = append(d.gaps, [2]string{"resolution", why})
	}
	d.merge(x)
	d.sort()
	for _, role := range sortedKeys(d.shared) {
		d.tally[ruleShare]++
		if at := d.mutated[role]; at != "" {
			w := d.shared[role]
			sort.Strings(w)
			d.viols = append(d.viols, dbViol{[]string{"C01", "C02"}, ruleShare, role, at, "the database's " + role + " is changed in place, but is also the " + w[0]})
		}
	}
	d.tally[ruleShare] += len(d.mutated)
	return d
}

// pool runs the function for every name, each of the workers on its own abstract database.
func (d *dbRun) pool(r *Report, names []string, f func(x *DB, name string)) {
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var x *DB
			for {
				mu.Lock()
				if next >= len(names) {
					mu.Unlock()
					break
				}
				name := names[next]
				next++
				mu.Unlock()
				why := catch(func() {
					if x == nil {
						x = newDB(r)
					}
					f(x, name)
				})
				mu.Lock()
				d.shapes++
				if why != "" {
					d.gaps = append(d.gaps, [2]string{name, why})
				}
				mu.Unlock()
			}
			mu.Lock()
			defer mu.Unlock()
			if x != nil {
				d.merge(x)
			}
		}()
	}
	wg.Wait()
}

func newRun(what string) *dbRun {
	return &dbRun{what: what, tally: map[string]int{}, shared: map[string][]string{}, mutated: map[string]string{}, funcs: map[string]bool{}, unknown: map[string]int{}}
}

// queriesDone is the analysis of the queries, when one run decides several properties.
var queriesDone *dbRun

// runQueries interprets queries of every shape and judges what they give.
func runQueries(r *Report) *dbRun {
	if queriesDone != nil {
		return queriesDone
	}
	d := newRun("queries")
	queriesDone = d
	re := regexp.MustCompile(os.Getenv("SHAPES"))
	byName := map[string]*dbQuery{}
	var names []string
	for _, q := range dbQueries(r.tier) {
		if re.MatchString(q.name()) {
			byName[q.name()] = q
			names = append(names, q.name())
		}
	}
	d.pool(r, names, func(x *DB, name string) { x.query(byName[name]) })
	d.sort()
	return d
}

func (d *dbRun) sort() {
	sort.Slice(d.viols, func(i, j int) bool {
		a, b := d.viols[i], d.viols[j]
		return a.rule+a.subj < b.rule+b.subj
	})
	sort.Slice(d.gaps, func(i, j int) bool { return d.gaps[i][0] < d.gaps[j][0] })
}

// catch runs the function and tells why it gave up, if it did.
func catch(f func()) (why string) {
	defer func() {
		if x := recover(); x != nil {
			if ef, ok := x.(engineFailure); ok {
				why = ef.msg
				return
			}
			if os.Getenv("DEBUG") != "" {
				debug.PrintStack()
			}
			why = fmt.Sprint("analysis failed: ", x)
		}
	}()
	f()
	return
}

func (d *dbRun) merge(x *DB) {
	d.viols = append(d.viols, x.viols...)
	for k, n := range x.tally {
		d.tally[k] += n
	}
	for k, v := range x.shared {
		d.shared[k] = append(d.shared[k], v...)
	}
	for k, v := range x.mutated {
		d.mutated[k] = v
	}
	for fn := range x.e.visited {
		if x.e.p.inModule(fn) {
			d.funcs[fnName(fn)] = true
		}
	}
	d.worlds += x.e.nworlds
	d.steps += x.e.steps
	for k, n := range x.e.unknown {
		d.unknown[k] += n
	}
}

// report reports what the run found of the property, under the rules which bear on it.
func (d *dbRun) report(r *Report, rules ...string) {
	for fn := range d.funcs {
		r.funcs[fn] = true
	}
	r.worlds += d.worlds
	r.steps += d.steps
	for k, n := range d.unknown {
		r.unknown[k] += n
	}
	r.note("%d shapes of %s", d.shapes, d.what)
	r.attempts += d.shapes
	for _, g := range d.gaps {
		r.undecided("analysis", g[0], "%s", g[1])
	}
	for _, rule := range rules {
		r.rule(rule)
		r.rules[rule] += d.tally[rule]
		r.ok += d.tally[rule]
	}
	for _, v := range d.viols {
		mine := v.props == nil
		for _, p := range v.props {
			mine = mine || p == r.id
		}
		if mine {
			r.check(false, v.rule, v.subj, v.where, "%s", v.what)
		}
	}
}

// readShape judges what reading gives.
func (x *DB) readShape() {
	x.sh = &dbShape{name: "a read"}
	x.rolePaths(x.generalise())
	st := x.generalise()
	x.freeze(st)
	fn := x.r.p.method(st.obj(x.dbPtr.Obj).Typ, "Read")
	if fn == nil {
		x.e.failf("the database has no method Read")
	}
	where := x.e.p.pos(fn.Pos()) + " in " + fnName(fn)
	for _, o := range x.e.invoke(st, &FuncV{Fn: fn}, x.dbPtr) {
		if o.panic != "" {
			x.suspect(o.st, "C01 C07", ruleCrash, "read panics", where, o.panic)
			continue
		}
		v := o.ret
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		p, ok := v.(*Ptr)
		if !ok {
			x.suspect(o.st, "C01", ruleSnap, "none", where, "a read gives no snapshot")
			continue
		}
		x.snapshotOf(o.st, p.Obj, where)
		x.must(o.st, o.st.mkEqV(x.nextID(o.st), o.st.mon["next"]), "C01 C11", ruleSnap, "counter of ids", where, "a read changes the counter of ids", func(st *State) {})
	}
}

// bootShape checks the initial contents of the indexes.
func (x *DB) bootShape(r *Report) {
	st := x.st0
	const rule = "the indexes have the system's datums"
	fn := x.e.mustFn(dbPkg, "NewIndexDatabase")
	where := x.e.p.pos(fn.Pos()) + " in " + fnName(fn)
	o := x.e.asList(st, x.e.globalVal(sysPkg, "Datums"), x.tDatum)
	if len(o.Els) == 0 {
		x.e.failf("sys.Datums are not known")
	}
	attrs := x.sysAttrs(st)
	idx, _ := x.held(st, x.dbPtr.Obj)
	for _, role := range []string{"eav", "aev", "ave"} {
		if idx[role] == "" {
			x.e.failf("the database has no %s index", role)
		}
		got := map[string]int{}
		for _, l := range x.log(st, idx[role]) {
			got[l.(*Tuple).Vs[1].Key()]++
		}
		want := 0
		for i, d := range o.Els {
			a, _ := constInt(d.(*Struct).Fs[x.fA])
			at := attrs[itoa(int(a))]
			in := at != nil
			if in && role == "ave" {
				u, _ := constInt(at["Unique"])
				in = u != 0
			}
			if in {
				want++
			}
			r.check((got[d.Key()] > 0) == in, rule, fmt.Sprintf("datum %d in %s", i, role), where, "the %s index wrongly has, or lacks, the system's datum %s", role, shortKey(d))
		}
		r.check(len(got) == want, rule, "number in "+role, where, "the %s index has %d datums initially, not %d", role, len(got), want)
	}
}

// bootIdents checks that idents resolve initially as the system's datums say.
func (x *DB) bootIdents(r *Report) {
	const rule = "the system's idents resolve as its datums say"
	st := x.st0
	idents := x.sysIdents(st)
	n := 0
	for _, d := range x.e.asList(st, x.e.globalVal(sysPkg, "Datums"), x.tDatum).Els {
		s := d.(*Struct)
		if a, ok := constInt(s.Fs[x.fA]); !ok || a != x.sys["DbIdent"] {
			continue
		}
		n++
		v := s.Fs[x.fV]
		if i, ok := v.(*Iface); ok {
			v = i.V
		}
		k, _ := constStr(v)
		got := idents[k]
		a, _ := constInt(s.Fs[x.fE])
		b := int64(0)
		if got != nil {
			b, _ = constInt(got)
		}
		r.check(got != nil && a == b, rule, k, sysPkg, "%s resolves to %d, but is the ident of %d", k, b, a)
	}
	r.check(n == len(idents), rule, "number", sysPkg, "%d idents resolve, but %d entities have idents", len(idents), n)
}

// restText tells of them.
const restText = " The operations of indexes on which the property rests are decided as well, by the rules of C15 to C18."

// rests are the analyses of the operations of indexes on which the properties rest.
var rests = map[string][]func(r *Report){
	"C01": {checkC18},
	"C03": {checkC18},
	"C04": {checkC15, checkC18},
	"C05": {checkC15, checkC16, checkC18},
	"C06": {checkC15, checkC16, checkC18},
	"C12": {checkC16},
	"C13": {checkC15, checkC16, checkC18},
	"C19": {checkC15, checkC16, checkC17, checkC18},
	"C20": {checkC16},
}

func init() {
	text := "Write is interpreted abstractly, with its helpers, in each of a fixed family of abstract calling contexts (shapes of requests: which kinds of references and values the claims and retractions have), for an arbitrary store: the indexes' contents, the caches and the counter of ids are unknown, known only to agree with one another. Every path and every alias of the unknown ids, idents and values is considered. Each world in which a write may end is judged by the rules for requests, which are applied to the same unknown store. "
	reg := func(id, more string, rules ...string) {
		if rests[id] != nil {
			more += restText
		}
		register(id, text+more, func(r *Report) {
			if id == "C14" {
				r.attempt("analysis", "initial idents", func() { newDB(r).bootIdents(r) })
			}
			if id == "C04" {
				r.attempt("analysis", "initial contents", func() { newDB(r).bootShape(r) })
			}
			runDB(r).report(r, rules...)
			for _, f := range rests[id] {
				f(r)
			}
			if id == "C01" {
				runQueries(r).report(r, ruleQSame)
			}
		})
	}
	reg("C01", "The rule: whatever a write changes in place is not reachable from the snapshot of any response or read, and that snapshot has what the database had at that moment.", ruleShare, ruleSnap, ruleNothing, ruleHist)
	reg("C03", "The rule: a write which reports an error leaves every index, cache and the counter of ids with their contents, and reports no transaction; one which does not has all the contents the rules give.", ruleNothing, ruleAccept, ruleReject, ruleSnap, ruleHist)
	reg("C04", "The rule: after every write each datum any index was told of is in the entity-first and attribute-first indexes alike, and in the value index exactly if its attribute is unique.", ruleAgree)
	reg("C05", "The rule: a request after which two entities would have a unique attribute's value is rejected, and others are not rejected for that.", ruleReject, ruleAccept, ruleAfter, ruleAttrs)
	reg("C06", "The rule: an accepted claim of an attribute of one value replaces the different value there was, and leaves the datum with an equal value there was.", ruleAfter, ruleAttrs)
	reg("C07", "The rule: no datum reaches an index whose value is not of its attribute's type; nothing panics.", ruleCrash, ruleReject, ruleAttrs)
	reg("C08", "The rule: a request which changes or retracts part of a declaration, or declares incompletely or invalidly, is rejected; after others every cache of attributes, and the types each index has, are as declared.", ruleAttrs, ruleReject, ruleAccept, ruleResolve)
	reg("C09", "The rule: requests with claims about system entities, or of idents in the system's namespace, are rejected.", ruleReject)
	reg("C11", "The rule: references to ids not issued, or which do not resolve, are rejected; the ids of the transaction and of new entities are new, distinct, and below the next id to be issued.", ruleIDs, ruleReject, ruleAccept, ruleNothing)
	reg("C12", "The rule: each temporary id's reported id is the one its datums have: that of the entity whose identity it claims, or a new one shared with those which claim the same identity; every datum added has the transaction's id.", ruleIDs, ruleAfter, ruleReject)
	reg("C13", "The rule: retractions whose constraints are absent or do not resolve to one entity are rejected; others remove the entity's datums and no others. The request's own claims and retractions are not changed.", ruleAfter, ruleReject, ruleAccept, ruleCaller)
	reg("C14", "The rule: after every write each ident, of those mentioned and any other, resolves to the entity which has its datum in the contents after, or to none.", ruleIdents, ruleAccept, ruleResolve)
	qtext := "Select, Count and Has of a snapshot read from an arbitrary store are interpreted abstractly, with their helpers, for claims of every combination of kinds of entity, attribute and value, the sequence by a consumer which may stop at any datum. Every path and every alias of the unknown ids, idents and values is considered. The rules for claims are applied to the same unknown store in each world in which a query may end. "
	register("C19", qtext+"The rule: the datums given are exactly those which agree with every given field, their number is the count, and there are any exactly if the presence is reported."+restText, func(r *Report) {
		runQueries(r).report(r, ruleAnswer, ruleQCrash)
		for _, f := range rests["C19"] {
			f(r)
		}
	})
	register("C20", qtext+"The rule: claims with a reference which does not resolve, with a reference queries cannot have, or with a value not of the attribute's type match nothing; nothing panics, and no value reaches an index whose attribute has another type."+restText, func(r *Report) {
		runQueries(r).report(r, ruleNoMatch, ruleQCrash)
		for _, f := range rests["C20"] {
			f(r)
		}
	})
}
