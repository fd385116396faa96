package main

import (
	"fmt"
	"regexp"
	"strings"
)

// asmDocs are a snapshot of given facts, whose datums are in any of several orders, and scenarios of assembly.
const asmDocs = `
type fact struct {
	e ID
	a Ident
	v Value
}

type snap struct {
	facts []fact
}

var _ Snapshot = snap{}

// tagged gives the text of the tag.
func tagged(string) string

// notModelled has no body: a claim of an unexpected kind is not decided.
func notModelled(any)

func arrange(order int, facts []fact) (s snap) {
	n := len(facts)
	for i := range facts {
		switch order {
		case 0:
			s.facts = append(s.facts, facts[i])
		case 1:
			s.facts = append(s.facts, facts[n-1-i])
		default:
			s.facts = append(s.facts, facts[(i+order-1)%n])
		}
	}
	return
}

// attrID gives the id of the attribute, which is the position of its first fact, past those of entities.
func (s snap) attrID(a Ident) ID {
	for i, f := range s.facts {
		if f.a == a {
			return ID(1000 + i)
		}
	}
	return 0
}

func (s snap) matches(f fact, claim Claim) bool {
	if claim.Retract {
		notModelled(claim)
	}
	switch e := claim.E.(type) {
	case nil:
	case ID:
		if e != 0 && e != f.e {
			return false
		}
	default:
		notModelled(e)
	}
	switch a := claim.A.(type) {
	case nil:
	case ID:
		if a != 0 && a != s.attrID(f.a) {
			return false
		}
	case Ident:
		if a != f.a {
			return false
		}
	default:
		notModelled(a)
	}
	if claim.V != nil {
		v, ok := claim.V.(Value)
		if !ok {
			notModelled(claim.V)
		}
		if v != f.v {
			return false
		}
	}
	return true
}

func (s snap) Select(claim Claim) iter.Seq[Datum] {
	return func(yield func(Datum) bool) {
		for _, f := range s.facts {
			if s.matches(f, claim) && !yield(Datum{E: f.e, A: s.attrID(f.a), V: f.v, T: 7}) {
				return
			}
		}
	}
}

func (s snap) Count(claim Claim) (n int) {
	for _, f := range s.facts {
		if s.matches(f, claim) {
			n++
		}
	}
	return
}

func (s snap) Has(claim Claim) bool {
	for _, f := range s.facts {
		if s.matches(f, claim) {
			return true
		}
	}
	return false
}

func (s snap) ResolveIdent(ident Ident) ID { return s.attrID(ident) }

func (s snap) ResolveAttrIdent(id ID) (ident Ident) {
	for i, f := range s.facts {
		if ID(1000+i) == id {
			return f.a
		}
	}
	return
}

const rank = Ident("sys/db/rank")

// got is what was assembled.
type got struct {
	id     ID
	entity any
	err    error
}

func get[T any](s Snapshot, id ID) []got {
	entity, err := assemblers.Assemble[T](assemblers.NewAssembler(models.BuildCachingAnalyzer(), s), id)
	return []got{{id, entity, err}}
}
`

// asmTypes are the structs which are assembled.
const asmTypes = `
type MyID uint64
type Field[T any] struct {
	X string "attr:\"$x1\""
	A T      "attr:\"$a1\""
	None T
	Y int    "attr:\"$y1\""
}
type Elems[T any] struct {
	A []T    "attr:\"$a1,value=$v1\""
	Y int    "attr:\"$y1\""
}
type Keys[T comparable] struct {
	A map[T]Child "attr:\"$a1,key=$k1\""
	B map[T]*Other "attr:\"$b1,key=$k1\""
	Y int         "attr:\"$y1\""
}
type IDKeys[T comparable] struct {
	A map[T]Child "attr:\"$a1\""
	B map[T]*Other "attr:\"$b1,key=sys/db/id\""
	Y int         "attr:\"$y1\""
}
type IDField[T any] struct {
	A  string "attr:\"$a1\""
	ID T      "attr:\"sys/db/id\""
	Y  int    "attr:\"$y1\""
}
type Child struct {
	Name string "attr:\"$c1\""
}
type Other struct {
	ID   uint64 "attr:\"sys/db/id\""
	Name string "attr:\"$c1\""
}
type unexported struct {
	a string "attr:\"$a1\""
	Y int    "attr:\"$y1\""
}
type unexportedID struct {
	id uint64 "attr:\"sys/db/id\""
	Y  int    "attr:\"$y1\""
}
type Embedding struct {
	Child  "attr:\"$d1\""
	*Other "attr:\"$d2\""
	Y int  "attr:\"$y1\""
}
type Node struct {
	ID uint64 "attr:\"sys/db/id\""
	N  string "attr:\"$n1\""
	P  *Node  "attr:\"$p1\""
	Q  *Node  "attr:\"$q1\""
}
type Val struct {
	N string "attr:\"$n1\""
	L Leaf   "attr:\"$l1\""
	M Leaf   "attr:\"$l2\""
	R *Leaf  "attr:\"$r1\""
}
type Leaf struct {
	ID uint64  "attr:\"sys/db/id\""
	N  string  "attr:\"$n1\""
	T  *string "attr:\"$t1\""
}
type Deep struct {
	A string "attr:\"$d1\""
	V Val    "attr:\"$d2\""
	W *Val   "attr:\"$d3\""
	L *Leaf  "attr:\"$d4\""
	Z string "attr:\"$d5\""
}
type List struct {
	ID uint64  "attr:\"sys/db/id\""
	N  string  "attr:\"$n1\""
	S  []Leaf  "attr:\"$s1\""
	R  *Leaf   "attr:\"$r1\""
}
type Lists struct {
	A []List   "attr:\"$a1\""
	B []string "attr:\"$b1,value=$v1\""
	C []Leaf   "attr:\"$e1\""
	D *List    "attr:\"$e2\""
}
type Map struct {
	N string           "attr:\"$n1\""
	M map[string]Leaf  "attr:\"$m1,key=$n1\""
	P map[string]*Leaf "attr:\"$m2,key=$n1\""
	I map[uint64]Leaf  "attr:\"$m3\""
	R *Leaf            "attr:\"$r1\""
}
type Maps struct {
	A map[string]Map   "attr:\"$a1,key=$n1\""
	B map[string]*Maps "attr:\"$b1,key=$n1\""
	N string           "attr:\"$n1\""
}
type Boss struct {
	N string   "attr:\"$n1\""
	W []Worker "attr:\"$w1\""
	Z string   "attr:\"$z1\""
}
type Worker struct {
	N string  "attr:\"$n1\""
	B *Boss   "attr:\"$b1\""
	C *Worker "attr:\"$c1\""
	Z string  "attr:\"$z1\""
}
type Team struct {
	N string             "attr:\"$n1\""
	M map[string]Member  "attr:\"$m1,key=$n1\""
	O map[string]*Member "attr:\"$m2,key=$n1\""
	Z string             "attr:\"$z1\""
}
type Member struct {
	N string  "attr:\"$n1\""
	T *Team   "attr:\"$t1\""
	C *Member "attr:\"$c1\""
	Z string  "attr:\"$z1\""
}
type Holder struct {
	A string "attr:\"$a1\""
	H Held   "attr:\"$h1\""
	Z string "attr:\"$z1\""
}
type Held struct {
	N string  "attr:\"$n1\""
	B *Holder "attr:\"$b1\""
	C *Held   "attr:\"$c1\""
	Z string  "attr:\"$z1\""
}
type Tree struct {
	N string  "attr:\"$n1\""
	C []Tree  "attr:\"$c1\""
	P *Tree   "attr:\"$p1\""
	Z string  "attr:\"$z1\""
}
type Ring struct {
	N string "attr:\"$n1\""
	A *Arc   "attr:\"$a1\""
	B Arcs   "attr:\"$b1\""
	Z string "attr:\"$z1\""
}
type Arcs struct {
	N string "attr:\"$n1\""
	S []Arc  "attr:\"$s1\""
	Z string "attr:\"$z1\""
}
type Arc struct {
	N string "attr:\"$n1\""
	R Ringed "attr:\"$r1\""
	Z string "attr:\"$z1\""
}
type Ringed struct {
	N string "attr:\"$n1\""
	P *Ring  "attr:\"$p1\""
	Z string "attr:\"$z1\""
}
type Dept struct {
	N string            "attr:\"$n1\""
	S []Person          "attr:\"$s1\""
	M map[string]Person "attr:\"$m1,key=$n1\""
	Z string            "attr:\"$z1\""
}
type Person struct {
	ID uint64 "attr:\"sys/db/id\""
	N string  "attr:\"$n1\""
	D Dept    "attr:\"$d1\""
	E Dept    "attr:\"$e1\""
	B *Person "attr:\"$b1\""
	Z string  "attr:\"$z1\""
}
type Mixed struct {
	L *Leaf "attr:\"$l1\""
	D Dept  "attr:\"$d1\""
}
type Firm struct {
	N string    "attr:\"$n1\""
	P Person    "attr:\"$p1\""
	Q *Person   "attr:\"$q1\""
	D Dept      "attr:\"$d1\""
	E *Dept     "attr:\"$e1\""
	S []Person  "attr:\"$s1\""
	Z string    "attr:\"$z1\""
}
type Twin struct {
	N string "attr:\"$n1\""
	A *Leaf  "attr:\"$a1\""
	B *Child "attr:\"$b1\""
}
type PSlice struct {
	A []*Leaf "attr:\"$a1\""
}
type Dates struct {
	A []time.Time          "attr:\"$a1\""
	B map[string]time.Time "attr:\"$b1,key=$n1\""
}
`

// asmGraphs are the graphs which are assembled. The facts are given the tags' idents by the names of functions.
const asmGraphs = `
func G_none(o int, a string) ([]fact, []got) {
	fs := []fact{{2, i_n1, String(a)}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_one(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_o1, String("other")}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_onlyOther(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_o1, String(a)}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_self(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(1)}, {1, i_q1, ID(1)}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_pair(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(2)}, {2, i_n1, String(b)}, {2, i_p1, ID(1)}, {2, i_q1, ID(2)}}
	return fs, get[Node](arrange(o, fs), 2)
}
func G_diamond(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(2)}, {1, i_q1, ID(3)}, {2, i_n1, String(b)}, {2, i_p1, ID(4)}, {3, i_n1, String(c)}, {3, i_q1, ID(4)}, {4, i_n1, String(d)}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_chain(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_p1, ID(2)}, {2, i_p1, ID(3)}, {3, i_p1, ID(4)}, {4, i_q1, ID(5)}, {5, i_n1, String(a)}, {4, i_n1, String(b)}, {3, i_n1, String(c)}, {2, i_n1, String(d)}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_dangling(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(9)}, {1, i_q1, ID(9)}}
	return fs, get[Node](arrange(o, fs), 1)
}
func G_values(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_l1, ID(2)}, {1, i_l2, ID(3)}, {1, i_r1, ID(4)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {3, i_t1, String(a)}, {4, i_t1, String(b)}}
	return fs, get[Val](arrange(o, fs), 1)
}
func G_valuesSame(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_l1, ID(2)}, {1, i_l2, ID(2)}, {1, i_r1, ID(2)}, {2, i_n1, String(b)}, {2, i_t1, String(a)}}
	return fs, get[Val](arrange(o, fs), 1)
}
func G_valuesDangling(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_l1, ID(2)}, {1, i_r1, ID(2)}}
	return fs, get[Val](arrange(o, fs), 1)
}
func G_deep(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_d1, String(a)}, {1, i_d2, ID(2)}, {1, i_d3, ID(3)}, {1, i_d4, ID(4)}, {1, i_d5, String(d)},
		{2, i_n1, String(b)}, {2, i_l1, ID(4)}, {2, i_r1, ID(4)}, {3, i_n1, String(c)}, {3, i_l1, ID(5)}, {3, i_l2, ID(4)}, {3, i_r1, ID(5)},
		{4, i_n1, String(d)}, {4, i_t1, String(a)}, {5, i_n1, String(b)}}
	return fs, get[Deep](arrange(o, fs), 1)
}
func G_deepSame(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_d1, String(a)}, {1, i_d2, ID(2)}, {1, i_d3, ID(2)}, {1, i_d4, ID(4)},
		{2, i_n1, String(b)}, {2, i_l1, ID(4)}, {2, i_r1, ID(4)}, {2, i_l2, ID(4)}, {4, i_n1, String(c)}, {1, i_d5, String(c)}}
	return fs, get[Deep](arrange(o, fs), 1)
}
func G_slice(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_s1, ID(4)}, {2, rank, Int(2)}, {3, rank, Int(0)}, {4, rank, Int(1)},
		{2, i_n1, String(a)}, {3, i_n1, String(b)}, {4, i_n1, String(c)}, {1, i_r1, ID(3)}}
	return fs, get[List](arrange(o, fs), 1)
}
func G_sliceDangling(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {2, rank, Int(1)}, {2, i_n1, String(b)}}
	return fs, get[List](arrange(o, fs), 1)
}
func G_sliceNoRank(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {2, i_n1, String(a)}}
	return fs, get[List](arrange(o, fs), 1)
}
func G_sliceRank(o int, n int, a string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {2, i_n1, String(a)}, {2, rank, Int(n)}, {3, i_n1, String(a)}, {3, rank, Int(1)}}
	return fs, get[List](arrange(o, fs), 1)
}
func G_sliceBadRank(o int, n string, a string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {2, i_n1, String(a)}, {2, rank, String(n)}}
	return fs, get[List](arrange(o, fs), 1)
}
func G_lists(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_a1, ID(2)}, {1, i_a1, ID(3)}, {2, rank, Int(1)}, {3, rank, Int(0)}, {2, i_n1, String(a)}, {2, i_s1, ID(4)}, {2, i_r1, ID(4)}, {4, rank, Int(0)}, {4, i_n1, String(b)},
		{3, i_r1, ID(4)}, {1, i_b1, ID(5)}, {5, i_v1, String(c)}, {5, rank, Int(0)}, {1, i_b1, ID(6)}, {6, rank, Int(1)}, {6, i_v1, String(a)}}
	return fs, get[Lists](arrange(o, fs), 1)
}
func G_listsShared(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_a1, ID(2)}, {2, rank, Int(0)}, {2, i_n1, String(a)}, {2, i_s1, ID(4)}, {4, rank, Int(0)}, {4, i_n1, String(b)}, {1, i_e1, ID(4)}, {1, i_e2, ID(2)}, {2, i_r1, ID(4)}}
	return fs, get[Lists](arrange(o, fs), 1)
}
func G_map(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_m1, ID(2)}, {1, i_m1, ID(3)}, {1, i_m2, ID(2)}, {1, i_m2, ID(4)}, {1, i_m3, ID(3)}, {1, i_r1, ID(4)}, {1, i_n1, String(a)},
		{2, i_n1, String("x")}, {3, i_n1, String("y")}, {4, i_n1, String("z")}, {2, i_t1, String(b)}, {4, i_t1, String(c)}, {3, i_t1, String(a)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_mapKey(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_m1, ID(2)}, {1, i_m2, ID(2)}, {2, i_n1, String(a)}, {2, i_t1, String(b)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_mapDangling(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_m1, ID(2)}, {1, i_m2, ID(2)}, {1, i_m3, ID(3)}, {1, i_n1, String(a)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_mapNoKey(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_m1, ID(2)}, {2, i_t1, String(a)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_mapPointerNoKey(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_m2, ID(2)}, {2, i_t1, String(a)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_mapIDNoKey(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_m3, ID(2)}, {2, i_t1, String(a)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_maps(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_a1, ID(2)}, {1, i_n1, String("k")}, {2, i_n1, String("x")}, {2, i_m1, ID(3)}, {3, i_n1, String("y")}, {3, i_t1, String(a)}, {1, i_b1, ID(1)}, {1, i_b1, ID(4)}, {4, i_n1, String("l")}, {4, i_b1, ID(1)}}
	return fs, get[Maps](arrange(o, fs), 1)
}
func G_boss(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_w1, ID(2)}, {1, i_w1, ID(3)}, {1, i_z1, String(c)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(b)}, {2, i_b1, ID(1)}, {2, i_z1, String(a)}, {3, i_n1, String(c)}, {3, i_b1, ID(1)}, {3, i_c1, ID(2)}, {3, i_z1, String(b)}}
	return fs, get[Boss](arrange(o, fs), 1)
}
func G_worker(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_w1, ID(2)}, {1, i_w1, ID(3)}, {1, i_z1, String(c)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(b)}, {2, i_b1, ID(1)}, {2, i_z1, String(a)}, {3, i_n1, String(c)}, {3, i_c1, ID(2)}, {3, i_z1, String(b)}}
	return fs, get[Worker](arrange(o, fs), 2)
}
func G_colleagues(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_w1, ID(2)}, {1, i_z1, String(c)}, {2, rank, Int(0)}, {2, i_n1, String(b)}, {2, i_c1, ID(3)}, {2, i_z1, String(a)}, {3, i_n1, String(c)}, {3, i_c1, ID(2)}, {3, i_b1, ID(1)}, {3, i_z1, String(b)}}
	return fs, get[Worker](arrange(o, fs), 3)
}
func G_team(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m2, ID(3)}, {1, i_z1, String(c)}, {2, i_n1, String("x")}, {2, i_t1, ID(1)}, {2, i_z1, String(a)}, {3, i_n1, String("y")}, {3, i_t1, ID(1)}, {3, i_c1, ID(2)}, {3, i_z1, String(b)}}
	return fs, get[Team](arrange(o, fs), 1)
}
func G_member(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m2, ID(2)}, {1, i_m2, ID(3)}, {1, i_z1, String(c)}, {2, i_n1, String("x")}, {2, i_t1, ID(1)}, {2, i_z1, String(a)}, {3, i_n1, String("y")}, {3, i_c1, ID(2)}, {3, i_z1, String(b)}}
	return fs, get[Member](arrange(o, fs), 2)
}
func G_holder(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_a1, String(a)}, {1, i_h1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String(c)}, {2, i_b1, ID(1)}, {2, i_c1, ID(2)}, {2, i_z1, String(a)}}
	return fs, get[Holder](arrange(o, fs), 1)
}
func G_held(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_a1, String(a)}, {1, i_h1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String(c)}, {2, i_b1, ID(1)}, {2, i_c1, ID(2)}, {2, i_z1, String(a)}}
	return fs, get[Held](arrange(o, fs), 2)
}
func G_heldOther(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_a1, String(a)}, {1, i_h1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String(c)}, {2, i_z1, String(a)}, {3, i_n1, String(a)}, {3, i_b1, ID(1)}, {3, i_c1, ID(2)}, {2, i_c1, ID(3)}, {3, i_z1, String(c)}}
	return fs, get[Held](arrange(o, fs), 3)
}
func G_tree(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_c1, ID(2)}, {1, i_c1, ID(3)}, {2, i_c1, ID(4)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {4, rank, Int(0)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {4, i_n1, String(d)}, {1, i_z1, String(a)}, {2, i_z1, String(b)}, {4, i_z1, String(c)}}
	return fs, get[Tree](arrange(o, fs), 1)
}
func G_treeParents(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_c1, ID(2)}, {2, i_c1, ID(3)}, {2, rank, Int(0)}, {3, rank, Int(0)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {2, i_p1, ID(1)}, {3, i_p1, ID(2)}, {1, i_z1, String(a)}, {2, i_z1, String(b)}}
	return fs, get[Tree](arrange(o, fs), 1)
}
func G_treeChild(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_c1, ID(2)}, {2, i_c1, ID(3)}, {2, rank, Int(0)}, {3, rank, Int(0)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {2, i_p1, ID(1)}, {3, i_p1, ID(2)}, {1, i_z1, String(a)}, {2, i_z1, String(b)}}
	return fs, get[Tree](arrange(o, fs), 2)
}
func G_treeLeaf(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_c1, ID(2)}, {2, i_c1, ID(3)}, {2, rank, Int(0)}, {3, rank, Int(0)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {2, i_p1, ID(1)}, {3, i_p1, ID(2)}, {1, i_z1, String(a)}, {2, i_z1, String(b)}}
	return fs, get[Tree](arrange(o, fs), 3)
}
func G_treeLoop(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_c1, ID(2)}, {2, i_c1, ID(1)}, {2, rank, Int(0)}, {1, rank, Int(0)}, {2, i_n1, String(b)}}
	return fs, get[Tree](arrange(o, fs), 1)
}
func G_ring(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_a1, ID(3)}, {1, i_b1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String(b)}, {2, i_s1, ID(3)}, {2, i_z1, String(c)}, {3, rank, Int(0)}, {3, i_n1, String(c)}, {3, i_r1, ID(4)}, {3, i_z1, String(d)}, {4, i_n1, String(d)}, {4, i_p1, ID(1)}, {4, i_z1, String(a)}}
	return fs, get[Ring](arrange(o, fs), 1)
}
func G_arc(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_a1, ID(3)}, {1, i_b1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String(b)}, {2, i_s1, ID(3)}, {2, i_z1, String(c)}, {3, rank, Int(0)}, {3, i_n1, String(c)}, {3, i_r1, ID(4)}, {3, i_z1, String(d)}, {4, i_n1, String(d)}, {4, i_p1, ID(1)}, {4, i_z1, String(a)}}
	return fs, get[Arc](arrange(o, fs), 3)
}
func G_arcs(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_a1, ID(3)}, {1, i_b1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String(b)}, {2, i_s1, ID(3)}, {2, i_z1, String(c)}, {3, rank, Int(0)}, {3, i_n1, String(c)}, {3, i_r1, ID(4)}, {3, i_z1, String(d)}, {4, i_n1, String(d)}, {4, i_p1, ID(1)}, {4, i_z1, String(a)}}
	return fs, get[Arcs](arrange(o, fs), 2)
}
func G_twin(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_a1, ID(2)}, {1, i_b1, ID(2)}, {2, i_n1, String(b)}, {2, i_c1, String(a)}}
	return fs, get[Twin](arrange(o, fs), 1)
}
func G_embedding(o int, a, b string, n int) ([]fact, []got) {
	fs := []fact{{1, i_d1, ID(2)}, {1, i_d2, ID(3)}, {2, i_c1, String(a)}, {3, i_c1, String(b)}, {1, i_y1, Int(n)}}
	return fs, get[Embedding](arrange(o, fs), 1)
}
func G_pointerSlice(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_a1, ID(2)}, {2, rank, Int(0)}, {2, i_n1, String(a)}}
	return fs, get[PSlice](arrange(o, fs), 1)
}
func G_dates(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_a1, ID(2)}, {2, rank, Int(0)}, {2, i_n1, String(a)}}
	return fs, get[Dates](arrange(o, fs), 1)
}
func G_dates2(o int, a string) ([]fact, []got) {
	fs := []fact{{1, i_b1, ID(2)}, {2, rank, Int(0)}, {2, i_n1, String(a)}}
	return fs, get[Dates](arrange(o, fs), 1)
}
func G_dept(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}}
	return fs, get[Dept](arrange(o, fs), 1)
}
func G_deptPerson(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}}
	return fs, get[Person](arrange(o, fs), 2)
}
func G_deptFirm(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {5, i_n1, String(d)}, {5, i_p1, ID(2)}, {5, i_q1, ID(2)}, {5, i_d1, ID(1)}, {5, i_e1, ID(1)}, {5, i_s1, ID(2)}, {5, i_z1, String(a)}}
	return fs, get[Firm](arrange(o, fs), 5)
}
func G_deptMap(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String("k")}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}}
	return fs, get[Dept](arrange(o, fs), 1)
}
func G_deptMapPerson(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_z1, String(b)}, {2, i_n1, String("k")}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}}
	return fs, get[Person](arrange(o, fs), 2)
}
func G_depts1(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String(b)}, {3, i_d1, ID(4)}, {3, i_z1, String(c)}, {4, i_n1, String(d)}, {4, i_z1, String(a)}, {4, i_s1, ID(2)}, {4, i_m1, ID(6)}, {6, i_n1, String("k")}, {6, i_d1, ID(1)}, {6, i_b1, ID(2)}, {2, i_b1, ID(6)}}
	return fs, get[Dept](arrange(o, fs), 1)
}
func G_depts2(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String(b)}, {3, i_d1, ID(4)}, {3, i_z1, String(c)}, {4, i_n1, String(d)}, {4, i_z1, String(a)}, {4, i_s1, ID(2)}, {4, i_m1, ID(6)}, {6, i_n1, String("k")}, {6, i_d1, ID(1)}, {6, i_b1, ID(2)}, {2, i_b1, ID(6)}}
	return fs, get[Person](arrange(o, fs), 2)
}
func G_depts3(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String(b)}, {3, i_d1, ID(4)}, {3, i_z1, String(c)}, {4, i_n1, String(d)}, {4, i_z1, String(a)}, {4, i_s1, ID(2)}, {4, i_m1, ID(6)}, {6, i_n1, String("k")}, {6, i_d1, ID(1)}, {6, i_b1, ID(2)}, {2, i_b1, ID(6)}}
	return fs, get[Person](arrange(o, fs), 3)
}
func G_depts4(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String(b)}, {3, i_d1, ID(4)}, {3, i_z1, String(c)}, {4, i_n1, String(d)}, {4, i_z1, String(a)}, {4, i_s1, ID(2)}, {4, i_m1, ID(6)}, {6, i_n1, String("k")}, {6, i_d1, ID(1)}, {6, i_b1, ID(2)}, {2, i_b1, ID(6)}}
	return fs, get[Dept](arrange(o, fs), 4)
}
func G_depts6(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String(b)}, {3, i_d1, ID(4)}, {3, i_z1, String(c)}, {4, i_n1, String(d)}, {4, i_z1, String(a)}, {4, i_s1, ID(2)}, {4, i_m1, ID(6)}, {6, i_n1, String("k")}, {6, i_d1, ID(1)}, {6, i_b1, ID(2)}, {2, i_b1, ID(6)}}
	return fs, get[Person](arrange(o, fs), 6)
}
func G_deptsFirm(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, String(b)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String(b)}, {3, i_d1, ID(4)}, {3, i_z1, String(c)}, {4, i_n1, String(d)}, {4, i_z1, String(a)}, {4, i_s1, ID(2)}, {4, i_m1, ID(6)}, {6, i_n1, String("k")}, {6, i_d1, ID(1)}, {6, i_b1, ID(2)}, {5, i_n1, String(d)}, {5, i_p1, ID(3)}, {5, i_q1, ID(2)}, {5, i_d1, ID(4)}, {5, i_e1, ID(1)}, {5, i_s1, ID(2)}, {2, i_b1, ID(6)}}
	return fs, get[Firm](arrange(o, fs), 5)
}
func G_mapMany(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m1, ID(3)}, {1, i_m1, ID(4)}, {1, i_m2, ID(2)}, {1, i_m2, ID(3)}, {1, i_m2, ID(4)}, {1, i_m2, ID(5)}, {1, i_m2, ID(6)}, {1, i_m3, ID(3)}, {1, i_m3, ID(5)}, {1, i_m3, ID(6)}, {1, i_r1, ID(4)}, {2, i_n1, String("x")}, {3, i_n1, String("y")}, {4, i_n1, String("z")}, {5, i_n1, String("u")}, {6, i_n1, String("v")}, {2, i_t1, String(b)}, {4, i_t1, String(c)}, {3, i_t1, String(a)}, {5, i_t1, String(d)}}
	return fs, get[Map](arrange(o, fs), 1)
}
func G_sliceMany(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_s1, ID(4)}, {1, i_s1, ID(5)}, {2, rank, Int(3)}, {3, rank, Int(1)}, {4, rank, Int(0)}, {5, rank, Int(2)}, {2, i_n1, String(b)}, {3, i_t1, String(c)}, {4, i_n1, String(d)}, {5, i_n1, String(a)}, {1, i_r1, ID(5)}}
	return fs, get[List](arrange(o, fs), 1)
}
func G_twice(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(2)}, {2, i_n1, String(b)}, {2, i_q1, ID(1)}, {3, i_n1, String(a)}, {3, i_p1, ID(1)}, {3, i_q1, ID(2)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Node](as, 1)
	x2, err2 := assemblers.Assemble[Node](as, 2)
	x3, err3 := assemblers.Assemble[Node](as, 3)
	x4, err4 := assemblers.Assemble[Node](as, 1)
	x5, err5 := assemblers.Assemble[Node](as, 9)
	x6, err6 := assemblers.Assemble[Node](as, 9)
	return fs, []got{{1, x1, err1}, {2, x2, err2}, {3, x3, err3}, {1, x4, err4}, {9, x5, err5}, {9, x6, err6}}
}
func G_twiceValues(o int, a, b, c string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_l1, ID(2)}, {1, i_l2, ID(3)}, {1, i_r1, ID(2)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {3, i_t1, String(a)}, {4, i_n1, String(b)}, {4, i_l1, ID(3)}, {4, i_r1, ID(2)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Leaf](as, 3)
	x2, err2 := assemblers.Assemble[Val](as, 1)
	x3, err3 := assemblers.Assemble[Leaf](as, 2)
	x4, err4 := assemblers.Assemble[Val](as, 4)
	return fs, []got{{3, x1, err1}, {1, x2, err2}, {2, x3, err3}, {4, x4, err4}}
}
func G_otherType(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_a1, ID(2)}, {2, i_n1, String(b)}, {2, i_c1, String(a)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Twin](as, 1)
	x2, err2 := assemblers.Assemble[Child](as, 2)
	x3, err3 := assemblers.Assemble[Leaf](as, 2)
	return fs, []got{{1, x1, err1}, {2, x2, err2}, {2, x3, err3}}
}
func G_afterError(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(2)}, {2, i_n1, Int(5)}, {3, i_n1, String(b)}, {3, i_q1, ID(1)}, {2, i_p1, ID(4)}, {4, i_n1, String(b)}, {5, i_p1, ID(4)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Node](as, 2)
	x2, err2 := assemblers.Assemble[Node](as, 3)
	x3, err3 := assemblers.Assemble[Node](as, 1)
	x4, err4 := assemblers.Assemble[Node](as, 5)
	return fs, []got{{2, x1, err1}, {3, x2, err2}, {1, x3, err3}, {5, x4, err4}}
}
func G_afterErrorDept(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_z1, Int(6)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_n1, String(c)}, {2, i_d1, ID(1)}, {2, i_b1, ID(3)}, {3, i_n1, String(d)}, {3, i_d1, ID(4)}, {4, i_n1, String(d)}, {4, i_m1, ID(3)}, {4, i_s1, ID(3)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Dept](as, 1)
	x2, err2 := assemblers.Assemble[Person](as, 3)
	x3, err3 := assemblers.Assemble[Person](as, 2)
	x4, err4 := assemblers.Assemble[Dept](as, 4)
	return fs, []got{{1, x1, err1}, {3, x2, err2}, {2, x3, err3}, {4, x4, err4}}
}
func G_afterErrorKey(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m2, ID(3)}, {1, i_r1, ID(4)}, {2, i_n1, String("x")}, {3, i_t1, String(b)}, {4, i_n1, String(c)}, {5, i_n1, String(d)}, {5, i_m1, ID(4)}, {5, i_r1, ID(3)}, {5, i_m2, ID(2)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Map](as, 1)
	x2, err2 := assemblers.Assemble[Leaf](as, 3)
	x3, err3 := assemblers.Assemble[Map](as, 5)
	x4, err4 := assemblers.Assemble[Map](as, 1)
	x5, err5 := assemblers.Assemble[Leaf](as, 4)
	return fs, []got{{1, x1, err1}, {3, x2, err2}, {5, x3, err3}, {1, x4, err4}, {4, x5, err5}}
}
func G_mapsRanked(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m2, ID(2)}, {1, i_m2, ID(3)}, {1, i_m2, ID(4)}, {1, i_r1, ID(3)}, {2, i_n1, String("x")}, {3, i_n1, String("y")}, {4, i_n1, String("z")}, {2, i_t1, String(b)}, {4, i_t1, String(c)}, {3, i_t1, String(d)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Leaf](as, 2)
	x2, err2 := assemblers.Assemble[Map](as, 1)
	return fs, []got{{2, x1, err1}, {1, x2, err2}}
}
func G_deptMapTwo2(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m1, ID(3)}, {2, i_n1, String("k")}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String("l")}, {3, i_d1, ID(4)}, {4, i_n1, String(b)}, {4, i_m1, ID(2)}, {4, i_m1, ID(3)}}
	return fs, get[Person](arrange(o, fs), 2)
}
func G_deptMapTwo1(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m1, ID(3)}, {2, i_n1, String("k")}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String("l")}, {3, i_d1, ID(4)}, {4, i_n1, String(b)}, {4, i_m1, ID(2)}, {4, i_m1, ID(3)}}
	return fs, get[Dept](arrange(o, fs), 1)
}
func G_deptMapTwo4(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_m1, ID(2)}, {1, i_m1, ID(3)}, {2, i_n1, String("k")}, {2, i_d1, ID(1)}, {2, i_z1, String(d)}, {3, i_n1, String("l")}, {3, i_d1, ID(4)}, {4, i_n1, String(b)}, {4, i_m1, ID(2)}, {4, i_m1, ID(3)}}
	return fs, get[Dept](arrange(o, fs), 4)
}
func G_deptBoth2(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {1, i_n1, String(a)}, {2, rank, Int(0)}, {2, i_d1, ID(4)}, {2, i_n1, String(b)}, {4, i_s1, ID(3)}, {4, i_n1, String(c)}, {3, rank, Int(0)}, {3, i_d1, ID(4)}, {3, i_e1, ID(1)}, {3, i_n1, String(d)}}
	return fs, get[Person](arrange(o, fs), 2)
}
func G_deptBoth3(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {1, i_n1, String(a)}, {2, rank, Int(0)}, {2, i_d1, ID(4)}, {2, i_n1, String(b)}, {4, i_s1, ID(3)}, {4, i_n1, String(c)}, {3, rank, Int(0)}, {3, i_d1, ID(4)}, {3, i_e1, ID(1)}, {3, i_n1, String(d)}}
	return fs, get[Person](arrange(o, fs), 3)
}
func G_deptBoth1(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {1, i_n1, String(a)}, {2, rank, Int(0)}, {2, i_d1, ID(4)}, {2, i_n1, String(b)}, {4, i_s1, ID(3)}, {4, i_n1, String(c)}, {3, rank, Int(0)}, {3, i_d1, ID(4)}, {3, i_e1, ID(1)}, {3, i_n1, String(d)}}
	return fs, get[Dept](arrange(o, fs), 1)
}
func G_deptBoth4(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{1, i_s1, ID(2)}, {1, i_n1, String(a)}, {2, rank, Int(0)}, {2, i_d1, ID(4)}, {2, i_n1, String(b)}, {4, i_s1, ID(3)}, {4, i_n1, String(c)}, {3, rank, Int(0)}, {3, i_d1, ID(4)}, {3, i_e1, ID(1)}, {3, i_n1, String(d)}}
	return fs, get[Dept](arrange(o, fs), 4)
}
func G_afterErrorTwo(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_p1, ID(2)}, {1, i_q1, ID(3)}, {2, i_n1, Int(5)}, {3, i_n1, Int(6)}, {4, i_n1, String(b)}, {4, i_p1, ID(5)}, {5, i_n1, String(a)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Node](as, 1)
	x2, err2 := assemblers.Assemble[Node](as, 4)
	return fs, []got{{1, x1, err1}, {4, x2, err2}}
}
func G_afterErrorMixed(o int, a, b, c, d string) ([]fact, []got) {
	fs := []fact{{5, i_l1, ID(3)}, {5, i_d1, ID(1)}, {1, i_s1, ID(2)}, {1, i_s1, ID(3)}, {1, i_m1, ID(2)}, {1, i_n1, String(a)}, {2, rank, Int(0)}, {3, rank, Int(1)}, {2, i_d1, ID(1)}, {2, i_n1, String(b)}, {3, i_n1, String(c)}, {3, i_d1, ID(1)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Mixed](as, 5)
	x2, err2 := assemblers.Assemble[Dept](as, 1)
	x3, err3 := assemblers.Assemble[Person](as, 2)
	x4, err4 := assemblers.Assemble[Person](as, 3)
	return fs, []got{{5, x1, err1}, {1, x2, err2}, {2, x3, err3}, {3, x4, err4}}
}
func G_afterErrorValues(o int, a, b string) ([]fact, []got) {
	fs := []fact{{1, i_n1, String(a)}, {1, i_l1, ID(2)}, {1, i_l2, ID(3)}, {2, i_n1, Int(5)}, {3, i_n1, String(b)}, {4, i_r1, ID(3)}, {5, i_r1, ID(2)}}
	as := assemblers.NewAssembler(models.BuildCachingAnalyzer(), arrange(o, fs))
	x1, err1 := assemblers.Assemble[Val](as, 1)
	x2, err2 := assemblers.Assemble[Val](as, 4)
	x3, err3 := assemblers.Assemble[Val](as, 5)
	return fs, []got{{1, x1, err1}, {4, x2, err2}, {5, x3, err3}}
}
`

// asmMatrix gives the functions which assemble a value of each type into each field, and their sources.
func asmMatrix() string {
	var b strings.Builder
	fn := func(kind string, i int, typ, facts string) {
		fmt.Fprintf(&b, "func F_%s_%d(o int, v Value, n int, s string) ([]fact, []got) {\n\tfs := []fact{%s, {1, i_y1, Int(n)}, {2, i_c1, String(s)}}\n\treturn fs, get[%s](arrange(o, fs), 1)\n}\n", kind, i, facts, typ)
	}
	for i, x := range scalarExprs {
		fn("field", i, "Field["+x+"]", "{1, i_a1, v}")
		fn("pointer", i, "Field[*"+x+"]", "{1, i_a1, v}")
		fn("elem", i, "Elems["+x+"]", "{1, i_a1, ID(3)}, {3, rank, Int(1)}, {3, i_v1, v}, {1, i_a1, ID(4)}, {4, rank, Int(0)}, {4, i_v1, v}")
		fn("id", i, "IDField["+x+"]", "{1, i_a1, v}")
		fn("key", i, "Keys["+x+"]", "{1, i_a1, ID(3)}, {3, i_k1, v}, {3, i_c1, String(s)}, {1, i_b1, ID(4)}, {4, i_k1, v}, {4, i_c1, String(s)}")
		fn("idkey", i, "IDKeys["+x+"]", "{1, i_a1, ID(3)}, {3, i_c1, String(s)}, {1, i_b1, ID(4)}, {4, i_k1, v}, {4, i_c1, String(s)}")
	}
	for i, x := range []string{"[]Child", "map[string]Child", "map[int]*Child", "MySlice", "MyMap", "*Child", "[]string", "[][]string", "map[string]string", "map[string]int", "[]int64", "[2]int", "any", "chan int", "func()", "**int", "*[]Child"} {
		fn("more", i, "Field["+x+"]", "{1, i_a1, v}")
	}
	for i, x := range []string{"[2]string", "any", "*int", "struct{ A int }", "Stringer"} {
		fn("morekey", i, "Keys["+x+"]", "{1, i_a1, ID(3)}, {3, i_k1, v}, {3, i_c1, String(s)}")
		fn("moreelem", i, "Elems["+x+"]", "{1, i_a1, ID(3)}, {3, i_v1, v}, {3, rank, Int(0)}")
	}
	fn("noelem", 0, "Elems[string]", "{1, i_a1, ID(3)}, {3, i_k1, v}, {3, rank, Int(0)}")
	fn("noelem", 1, "Elems[int]", "{1, i_a1, ID(3)}, {3, i_v1, v}")
	fn("noelem", 2, "Elems[bool]", "{1, i_a1, ID(3)}, {3, i_v1, v}, {3, rank, Int(1)}")
	fn("noelem", 3, "Elems[int]", "{1, i_a1, ID(3)}, {3, i_v1, v}, {3, rank, v}")
	fn("unexported", 0, "unexported", "{1, i_a1, v}")
	fn("unexported", 1, "unexportedID", "{1, i_a1, v}")
	fn("unexported", 2, "unexported", "{2, i_a1, v}")
	fn("nostruct", 0, "int", "{1, i_a1, v}")
	fn("nostruct", 1, "*Child", "{1, i_a1, v}")
	fn("nostruct", 2, "any", "{1, i_a1, v}")
	fn("nostruct", 3, "[]Child", "{1, i_a1, v}")
	return b.String()
}

// asmSource is the source of the scenarios of assembly.
func asmSource(size int) string {
	src := docImports("internal/types", "internal/structs/models", "internal/structs/assemblers")
	src = strings.Replace(src, "import (\n", "import (\n\t\"iter\"\n", 1)
	src += "var _ Claim\n" + namedScalars + asmMore + asmDocs + asmTags(asmTypes) + asmGraphs + asmMatrix() + asmTags(universe(size))
	// The idents are those of the tags.
	src = regexp.MustCompile(`\bi_([a-z][0-9])\b`).ReplaceAllString(src, "Ident(tagged(\"$$0$1\"))")
	return src
}

// asmTags renames the unknown texts, so that none is an ident of the system's.
func asmTags(src string) string { return strings.ReplaceAll(src, "$", "$0") }

const asmMore = `
type MyInt64 int64
type Plain struct {
	Name string
}
type Stringer interface{ String() string }
type MySlice []Child
type MyMap map[string]Child
`
