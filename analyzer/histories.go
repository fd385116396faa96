package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strings"
)

// Histories of the public database: writes, retractions and rejected requests, one after another, with
// arbitrary values, as a whole, from requests to the entities found.

const histDocs = `
// claim is what should hold of a history.
type claim struct {
	what  string
	holds bool
}

type Link struct {
	ID   uint64  "attr:\"sys/db/id\""
	Name *string "attr:\"h/name\""
	Age  *int    "attr:\"h/age\""
	Next *Link   "attr:\"h/next\""
}
type Named struct {
	ID   uint64 "attr:\"sys/db/id\""
	Name string "attr:\"h/name\""
}
type Titled struct {
	ID    uint64  "attr:\"sys/db/id\""
	Title string  "attr:\"h/title\""
	Name  *string "attr:\"h/name\""
}
type Misnamed struct {
	ID   uint64 "attr:\"sys/db/id\""
	Name int    "attr:\"h/name\""
}
type User struct {
	ID    uint64 "attr:\"sys/db/id\""
	Email string "attr:\"h/email,identity\""
	Age   *int   "attr:\"h/uage\""
}
type Badge struct {
	ID     uint64  "attr:\"sys/db/id\""
	Number int     "attr:\"h/number,unique\""
	Color  *string "attr:\"h/color\""
}
type Item struct {
	N int "attr:\"h/n\""
}
type List struct {
	ID    uint64 "attr:\"sys/db/id\""
	Items []Item "attr:\"h/items\""
	Sizes []int  "attr:\"h/sizes,value=h/size\""
}
type Optional struct {
	ID   uint64 "attr:\"sys/db/id\""
	Text string "attr:\"h/text,ignoreempty\""
	N    int    "attr:\"h/on\""
}

type Account struct {
	ID     uint64 "attr:\"sys/db/id\""
	Email  string "attr:\"h/aemail,identity\""
	Handle string "attr:\"h/handle,identity\""
	Plan   *int   "attr:\"h/plan\""
}
type Sample struct {
	ID uint64     "attr:\"sys/db/id\""
	F  *float64   "attr:\"h/float\""
	B  *bool      "attr:\"h/bool\""
	T  *time.Time "attr:\"h/time\""
}
type Entry struct {
	ID    uint64 "attr:\"sys/db/id\""
	Key   string "attr:\"h/key\""
	Count *int   "attr:\"h/count\""
}
type Index struct {
	ID      uint64            "attr:\"sys/db/id\""
	Entries map[string]*Entry "attr:\"h/entries,key=h/key\""
}
type Owner struct {
	ID   uint64 "attr:\"sys/db/id\""
	Name string "attr:\"h/name\""
	User User   "attr:\"h/user\""
}
type Holder struct {
	ID   uint64 "attr:\"sys/db/id\""
	Name string "attr:\"h/name\""
	User *User  "attr:\"h/user\""
}

func find[T any](snap *database.Snapshot, id uint64) *T {
	ts, err := database.BuildTypedSnapshot[T](snap)
	if err != nil {
		return nil
	}
	return ts.Find(id)
}

func put(db database.Database, xs ...any) database.Response {
	return db.Write(database.Request{Assertions: xs})
}

func drop(db database.Database, xs ...any) database.Response {
	return db.Write(database.Request{Retractions: xs})
}

func begin() (db database.Database) { return database.NewDatabase(database.Config{}) }

// isLink tells whether the entity has exactly the name and the age.
func isLink(l *Link, id uint64, name *string, age *int) bool {
	if l == nil || l.ID != id {
		return false
	}
	if (l.Name == nil) != (name == nil) || l.Name != nil && *l.Name != *name {
		return false
	}
	return (l.Age == nil) == (age == nil) && (l.Age == nil || *l.Age == *age)
}

func H_update(a, b string, n int) (cs []claim) {
	db := begin()
	r := put(db, Link{Name: &a, Age: &n}, Link{Name: &b})
	id, other := r.IDs[0], r.IDs[1]
	s := put(db, Link{ID: id, Name: &b})
	return []claim{
		{"the writes are accepted", r.Error == nil && s.Error == nil},
		{"the id is that of the entity", s.IDs[0] == id && other != id},
		{"fields given are replaced and others kept", isLink(find[Link](s.Snap, id), id, &b, &n)},
		{"reads agree with the response", isLink(find[Link](db.Read(), id), id, &b, &n)},
		{"other entities are as they were", isLink(find[Link](s.Snap, other), other, &b, nil)},
		{"earlier snapshots are as they were", isLink(find[Link](r.Snap, id), id, &a, &n)},
	}
}

func H_backAndForth(a, b string) (cs []claim) {
	db := begin()
	id := put(db, Named{Name: a}).IDs[0]
	put(db, Named{ID: id, Name: b})
	r := put(db, Named{ID: id, Name: a})
	x := find[Named](r.Snap, id)
	drop(db, Named{ID: id, Name: a})
	return []claim{
		{"the last write is what is found", x != nil && x.Name == a},
		{"nothing is found of what was retracted", find[Named](db.Read(), id) == nil},
	}
}

func H_identity(e, f string, m, n int) (cs []claim) {
	db := begin()
	r := put(db, User{Email: e, Age: &m})
	s := put(db, User{Email: f, Age: &n})
	if r.Error != nil || s.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	x, y := find[User](s.Snap, r.IDs[0]), find[User](s.Snap, s.IDs[0])
	if x == nil || y == nil || x.Age == nil || y.Age == nil {
		return []claim{{"the entities are found", false}}
	}
	if e == f {
		return []claim{
			{"an identity names its entity", r.IDs[0] == s.IDs[0]},
			{"fields given are replaced", *x.Age == n && x.Email == e},
		}
	}
	return []claim{
		{"entities with other identities are new", r.IDs[0] != s.IDs[0]},
		{"each has what it was given", *x.Age == m && x.Email == e && *y.Age == n && y.Email == f},
	}
}

func H_identityByID(e, f string, n int) (cs []claim) {
	db := begin()
	r := put(db, User{Email: e})
	id := r.IDs[0]
	s := put(db, User{ID: id, Email: f})
	u := put(db, User{Email: e, Age: &n})
	if r.Error != nil || s.Error != nil || u.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	x := find[User](u.Snap, id)
	return []claim{
		{"an identity given up names another entity", (u.IDs[0] == id) == (e == f)},
		{"the entity has its last identity", x != nil && x.Email == f},
	}
}

func H_unique(m, n int, a, b string) (cs []claim) {
	db := begin()
	r := put(db, Badge{Number: m, Color: &a})
	id := r.IDs[0]
	s := put(db, Badge{Number: n, Color: &b})
	now := db.Read()
	x := find[Badge](now, id)
	if x == nil || x.Color == nil || x.Number != m || *x.Color != a {
		return []claim{{"the entity is as it was", false}}
	}
	if m == n {
		return []claim{
			{"a value in use is rejected", s.Error != nil},
			{"a rejected write gives no ids", len(s.IDs) == 0},
			{"the value may be used once it is given up", drop(db, Badge{ID: id, Number: m}).Error == nil && put(db, Badge{Number: n, Color: &b}).Error == nil},
		}
	}
	return []claim{
		{"other values are accepted", s.Error == nil && s.IDs[0] != id},
		{"the entity's own value is accepted", put(db, Badge{ID: id, Number: m}).Error == nil},
		{"a value may not be taken over", put(db, Badge{ID: id, Number: n}).Error != nil},
	}
}

func H_retract(a, b string) (cs []claim) {
	db := begin()
	r := put(db, Named{Name: a}, Named{Name: b})
	id, other := r.IDs[0], r.IDs[1]
	s := drop(db, Named{ID: id})
	x, y := find[Named](s.Snap, other), find[Named](r.Snap, id)
	again := drop(db, Named{ID: id})
	return []claim{
		{"the retraction is accepted", s.Error == nil && again.Error == nil},
		{"nothing is found of it", find[Named](s.Snap, id) == nil && find[Named](db.Read(), id) == nil},
		{"other entities are as they were", x != nil && x.Name == b},
		{"earlier snapshots are as they were", y != nil && y.Name == a},
		{"its id is not given to another", put(db, Named{Name: a}).IDs[0] != id},
	}
}

func H_retractIdentity(e, f string) (cs []claim) {
	db := begin()
	id := put(db, User{Email: e}).IDs[0]
	s := drop(db, User{Email: f})
	x := find[User](db.Read(), id)
	if e != f {
		return []claim{
			{"no entity has the identity", s.Error != nil},
			{"the entity is as it was", x != nil && x.Email == e},
		}
	}
	return []claim{
		{"the retraction is accepted", s.Error == nil},
		{"nothing is found of it", x == nil},
		{"the identity names a new entity", put(db, User{Email: e}).IDs[0] != id},
	}
}

func H_both(a, b string, n int) (cs []claim) {
	db := begin()
	r := put(db, Link{Name: &a}, Named{Name: b})
	id, other := r.IDs[0], r.IDs[1]
	s := db.Write(database.Request{Assertions: []any{&Link{ID: id, Age: &n}}, Retractions: []any{Named{ID: other}}})
	return []claim{
		{"the write is accepted", s.Error == nil},
		{"the assertion takes effect", isLink(find[Link](s.Snap, id), id, &a, &n)},
		{"the retraction takes effect", find[Named](s.Snap, other) == nil},
	}
}

func H_relink(a, b, c string) (cs []claim) {
	db := begin()
	y, z := &Link{Name: &b}, &Link{Name: &c}
	r := put(db, &Link{Name: &a, Next: y}, y, z)
	if r.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	x := find[Link](r.Snap, r.IDs[0])
	s := put(db, Link{ID: r.IDs[0], Next: &Link{ID: r.IDs[2]}})
	if s.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	w := find[Link](s.Snap, r.IDs[0])
	return []claim{
		{"the entity refers to the other", isLink(x, r.IDs[0], &a, nil) && isLink(x.Next, r.IDs[1], &b, nil) && x.Next.Next == nil},
		{"the reference is replaced", isLink(w, r.IDs[0], &a, nil) && isLink(w.Next, r.IDs[2], &c, nil) && w.Next.Next == nil},
		{"the entity it referred to is as it was", isLink(find[Link](s.Snap, r.IDs[1]), r.IDs[1], &b, nil)},
	}
}

func H_cycle(a, b, c string) (cs []claim) {
	db := begin()
	x, y := &Link{Name: &a}, &Link{Name: &b}
	x.Next, y.Next = y, x
	r := put(db, x, y)
	s := put(db, Link{ID: r.IDs[0], Name: &c})
	w := find[Link](s.Snap, r.IDs[1])
	return []claim{
		{"the writes are accepted", r.Error == nil && s.Error == nil},
		{"both are found", isLink(w, r.IDs[1], &b, nil) && isLink(w.Next, r.IDs[0], &c, nil)},
		{"the cycle is kept", w != nil && w.Next != nil && w.Next.Next == w},
	}
}

func H_again(a string) (cs []claim) {
	db := begin()
	r := put(db, Named{Name: a}, Named{Name: a})
	s := put(db, Named{Name: a})
	x, y, z := find[Named](s.Snap, r.IDs[0]), find[Named](s.Snap, r.IDs[1]), find[Named](s.Snap, s.IDs[0])
	return []claim{
		{"equal structs are different entities", r.IDs[0] != r.IDs[1] && s.IDs[0] != r.IDs[0] && s.IDs[0] != r.IDs[1]},
		{"each is found", x != nil && y != nil && z != nil && x.Name == a && y.Name == a && z.Name == a},
	}
}

func H_types(a, b string) (cs []claim) {
	db := begin()
	id := put(db, Named{Name: a}).IDs[0]
	s := put(db, Titled{ID: id, Title: b})
	if s.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	x, y := find[Titled](s.Snap, id), find[Named](s.Snap, id)
	return []claim{
		{"entities have the fields of every type", x != nil && x.Title == b && x.Name != nil && *x.Name == a},
		{"the other type finds its fields", y != nil && y.Name == a},
	}
}

func H_conflict(a string, n int) (cs []claim) {
	db := begin()
	id := put(db, Named{Name: a}).IDs[0]
	s := put(db, Misnamed{Name: n})
	t := put(db, Misnamed{ID: id, Name: n})
	x := find[Named](db.Read(), id)
	return []claim{
		{"an attribute keeps its type", s.Error != nil && t.Error != nil},
		{"the entity is as it was", x != nil && x.Name == a},
		{"other writes are accepted", put(db, Named{Name: a}).Error == nil},
	}
}

func H_unissued(a, b string) (cs []claim) {
	db := begin()
	r := put(db, Named{Name: a})
	s := put(db, Named{ID: r.IDs[0], Name: b}, Named{ID: r.IDs[0] + 1000, Name: b})
	x := find[Named](s.Snap, r.IDs[0])
	return []claim{
		{"an id which was not issued is rejected", s.Error != nil && len(s.IDs) == 0},
		{"a rejected write changes nothing", x != nil && x.Name == a && find[Named](db.Read(), r.IDs[0]+1000) == nil},
	}
}

func H_lists(m, n, o int) (cs []claim) {
	db := begin()
	r := put(db, List{Items: []Item{{m}, {n}}, Sizes: []int{o}})
	s := put(db, List{Items: []Item{{o}}, Sizes: []int{n, m}})
	if r.Error != nil || s.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	x, y := find[List](s.Snap, r.IDs[0]), find[List](s.Snap, s.IDs[0])
	return []claim{
		{"the first list is as it was", x != nil && len(x.Items) == 2 && x.Items[0].N == m && x.Items[1].N == n && len(x.Sizes) == 1 && x.Sizes[0] == o},
		{"the second is what was given", y != nil && len(y.Items) == 1 && y.Items[0].N == o && len(y.Sizes) == 2 && y.Sizes[0] == n && y.Sizes[1] == m},
	}
}

func H_optional(a, b string, m, n int) (cs []claim) {
	if b == "" {
		return nil
	}
	db := begin()
	id := put(db, Optional{Text: b, N: m}).IDs[0]
	s := put(db, Optional{ID: id, N: n})
	x := find[Optional](s.Snap, id)
	t := put(db, Optional{ID: id, Text: a, N: m})
	y := find[Optional](t.Snap, id)
	return []claim{
		{"an empty value which is ignored is kept as it was", x != nil && x.Text == b && x.N == n},
		{"a value which is not empty replaces it", y != nil && y.N == m && (y.Text == a || a == "" && y.Text == b)},
	}
}

func H_replacedList(m, n, o int) (cs []claim) {
	db := begin()
	id := put(db, List{Items: []Item{{m}, {n}}, Sizes: []int{o}}).IDs[0]
	s := put(db, List{ID: id, Items: []Item{{o}}, Sizes: []int{n}})
	if s.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	x := find[List](s.Snap, id)
	return []claim{
		{"the entries which are not given are gone", x != nil && len(x.Items) == 1 && x.Items[0].N == o && len(x.Sizes) == 1 && x.Sizes[0] == n},
	}
}

func H_twoIdentities(e, f, g, h string, n int) (cs []claim) {
	if e == f || g == h {
		return nil
	}
	db := begin()
	r := put(db, Account{Email: e, Handle: g}, Account{Email: f, Handle: h})
	if r.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	id, other := r.IDs[0], r.IDs[1]
	s := put(db, Account{Email: e, Handle: h, Plan: &n})
	now := db.Read()
	x, y := find[Account](now, id), find[Account](now, other)
	u := put(db, Account{Email: e, Handle: g, Plan: &n})
	z := find[Account](u.Snap, id)
	return []claim{
		{"the entities are different", id != other},
		{"identities of different entities are rejected", s.Error != nil && len(s.IDs) == 0},
		{"a rejected write changes nothing", x != nil && y != nil && x.Email == e && x.Handle == g && y.Email == f && y.Handle == h && x.Plan == nil && y.Plan == nil},
		{"identities of an entity name it", u.Error == nil && u.IDs[0] == id && z != nil && z.Email == e && z.Handle == g && z.Plan != nil && *z.Plan == n},
	}
}

func H_newIdentity(e, g, h string) (cs []claim) {
	if g == h {
		return nil
	}
	db := begin()
	id := put(db, Account{Email: e, Handle: g}).IDs[0]
	s := put(db, Account{Email: e, Handle: h})
	u := put(db, Account{Email: e, Handle: h})
	if s.Error != nil || u.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	x := find[Account](u.Snap, id)
	return []claim{
		{"an identity names its entity", s.IDs[0] == id && u.IDs[0] == id},
		{"the other is replaced", x != nil && x.Email == e && x.Handle == h},
		{"an identity replaced names no entity", drop(db, Account{ID: id, Email: e, Handle: g}).Error != nil},
	}
}

func H_takenIdentity(e, f string, n int) (cs []claim) {
	if e == f {
		return nil
	}
	db := begin()
	r := put(db, User{Email: e}, User{Email: f})
	s := put(db, User{ID: r.IDs[0], Email: f, Age: &n})
	now := db.Read()
	x, y := find[User](now, r.IDs[0]), find[User](now, r.IDs[1])
	return []claim{
		{"another entity's identity may not be taken over", s.Error != nil},
		{"a rejected write changes nothing", x != nil && y != nil && x.Email == e && y.Email == f && x.Age == nil && y.Age == nil},
	}
}

func H_together(e, f string, m int) (cs []claim) {
	db := begin()
	r := put(db, User{Email: e, Age: &m}, User{Email: f})
	if r.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	x, y := find[User](r.Snap, r.IDs[0]), find[User](r.Snap, r.IDs[1])
	return []claim{
		{"equal identities in a request name one entity", (r.IDs[0] == r.IDs[1]) == (e == f)},
		{"the entities are found", x != nil && y != nil && x.Email == e && y.Email == f && x.Age != nil && *x.Age == m},
	}
}

func H_retractAll(a, b string, n int) (cs []claim) {
	db := begin()
	r := put(db, &Link{Name: &a, Age: &n, Next: &Link{Name: &b}})
	id := r.IDs[0]
	x := find[Link](r.Snap, id)
	if x == nil || x.Next == nil {
		return []claim{{"the entities are found", false}}
	}
	next := x.Next.ID
	s := drop(db, Named{ID: id})
	return []claim{
		{"the retraction is accepted", s.Error == nil},
		{"what the struct does not have is retracted too", find[Link](s.Snap, id) == nil},
		{"what the entity refers to is as it was", isLink(find[Link](s.Snap, next), next, &b, nil)},
	}
}

func H_reassert(a, b string, n int) (cs []claim) {
	db := begin()
	id := put(db, Link{Name: &a, Age: &n}).IDs[0]
	drop(db, Link{ID: id})
	s := put(db, Link{ID: id, Name: &b})
	return []claim{
		{"a retracted entity may be asserted again", s.Error == nil && s.IDs[0] == id},
		{"it has what it was given alone", isLink(find[Link](s.Snap, id), id, &b, nil)},
	}
}

func H_scalars(f, g float64, b, c bool, t, u time.Time) (cs []claim) {
	db := begin()
	id := put(db, Sample{F: &f, B: &b, T: &t}).IDs[0]
	s := put(db, Sample{ID: id, F: &g})
	v := put(db, Sample{ID: id, B: &c})
	w := put(db, Sample{ID: id, T: &u})
	if s.Error != nil || v.Error != nil || w.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	x, y, z := find[Sample](s.Snap, id), find[Sample](v.Snap, id), find[Sample](w.Snap, id)
	full := func(x *Sample) bool { return x != nil && x.F != nil && x.B != nil && x.T != nil }
	if !full(x) || !full(y) || !full(z) {
		return []claim{{"every field is found", false}}
	}
	same := func(a, b float64) bool { return a == b || a != a && b != b }
	return []claim{
		{"a number is replaced", same(*x.F, g)},
		{"others are as they were", *x.B == b && x.T.UnixMilli() == t.UnixMilli()},
		{"a truth value is replaced", *y.B == c},
		{"others are as they were", same(*y.F, g) && y.T.UnixMilli() == t.UnixMilli()},
		{"an instant is replaced", z.T.UnixMilli() == u.UnixMilli()},
		{"others are as they were", same(*z.F, g) && *z.B == c},
	}
}

func H_entries(k, l string, m, n int) (cs []claim) {
	if k == l {
		return nil
	}
	db := begin()
	r := put(db, Index{Entries: map[string]*Entry{k: {Key: k, Count: &m}, l: {Key: l}}})
	if r.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	x := find[Index](r.Snap, r.IDs[0])
	if x == nil || len(x.Entries) != 2 || x.Entries[k] == nil || x.Entries[l] == nil {
		return []claim{{"the entries are found", false}}
	}
	s := put(db, Entry{ID: x.Entries[l].ID, Key: l, Count: &n})
	y, z := find[Index](s.Snap, r.IDs[0]), find[Index](r.Snap, r.IDs[0])
	if y == nil || len(y.Entries) != 2 || y.Entries[k] == nil || y.Entries[l] == nil || z == nil || len(z.Entries) != 2 || z.Entries[l] == nil {
		return []claim{{"the entries are found after an update", false}}
	}
	p, q := y.Entries[k], y.Entries[l]
	return []claim{
		{"the entry is updated", q.ID == s.IDs[0] && q.Count != nil && *q.Count == n && q.Key == l},
		{"the other entry is as it was", p.Count != nil && *p.Count == m && p.Key == k},
		{"earlier snapshots are as they were", z.Entries[l].Count == nil},
	}
}

func H_through(a, e string, m, n int) (cs []claim) {
	db := begin()
	r := put(db, User{Email: e, Age: &m})
	s := put(db, Owner{Name: a, User: User{Email: e}})
	if r.Error != nil || s.Error != nil {
		return []claim{{"the writes are accepted", false}}
	}
	x := find[Holder](s.Snap, s.IDs[0])
	u := put(db, User{Email: e, Age: &n})
	y := find[Owner](u.Snap, s.IDs[0])
	return []claim{
		{"a struct held is the entity its identity names", x != nil && x.Name == a && x.User != nil && x.User.ID == r.IDs[0] && x.User.Email == e && x.User.Age != nil && *x.User.Age == m},
		{"it is found with later writes", y != nil && y.User.ID == r.IDs[0] && y.User.Age != nil && *y.User.Age == n},
	}
}

func H_snapshots(a, b, c string) (cs []claim) {
	db := begin()
	none := db.Read()
	id := put(db, Named{Name: a}).IDs[0]
	first := db.Read()
	second := put(db, Named{ID: id, Name: b}).Snap
	drop(db, Named{ID: id})
	third := db.Read()
	fourth := put(db, Named{ID: id, Name: c}).Snap
	x, y, z := find[Named](first, id), find[Named](second, id), find[Named](fourth, id)
	return []claim{
		{"nothing is found before the first write", find[Named](none, id) == nil},
		{"each snapshot has what was written before it", x != nil && y != nil && z != nil && x.Name == a && y.Name == b && z.Name == c},
		{"nothing is found after a retraction", find[Named](third, id) == nil},
	}
}

func H_databases(a, b string) (cs []claim) {
	db, other := begin(), begin()
	id, jd := put(db, Named{Name: a}).IDs[0], put(other, Named{Name: b}).IDs[0]
	x, y := find[Named](db.Read(), id), find[Named](other.Read(), jd)
	drop(other, Named{ID: jd})
	z := find[Named](db.Read(), id)
	return []claim{{"databases are independent", x != nil && y != nil && z != nil && x.Name == a && y.Name == b && z.Name == a}}
}

func H_fails(a, b string, n int) (cs []claim) {
	db := begin()
	r := put(db, Named{Name: a})
	id := r.IDs[0]
	bad := []database.Response{
		db.Write(database.Request{Assertions: []any{Named{ID: id, Name: b}, n}}),
		db.Write(database.Request{Assertions: []any{Named{ID: id, Name: b}}, Retractions: []any{Named{Name: a}}}),
		db.Write(database.Request{Assertions: []any{Named{ID: id, Name: b}, nil}}),
	}
	for _, t := range bad {
		x := find[Named](t.Snap, id)
		if t.Error == nil || len(t.IDs) != 0 || x == nil || x.Name != a {
			return []claim{{"a request which cannot be recorded changes nothing", false}}
		}
	}
	x := find[Named](db.Read(), id)
	return []claim{{"the entity is as it was", x != nil && x.Name == a}}
}

func H_reads(a, b, e string) (cs []claim) {
	db := begin()
	id := put(db, Named{Name: a}).IDs[0]
	x := find[Named](db.Read(), id)
	put(db, Named{ID: id, Name: b})
	y := find[Named](db.Read(), id)
	put(db, User{Email: e})
	z := find[Named](db.Read(), id)
	drop(db, User{Email: e})
	w := find[Named](db.Read(), id)
	drop(db, Named{ID: id})
	return []claim{
		{"each read has the last write", x != nil && y != nil && z != nil && w != nil && x.Name == a && y.Name == b && z.Name == b && w.Name == b},
		{"each read has the last retraction", find[Named](db.Read(), id) == nil},
	}
}

func H_finds(a, b string) (cs []claim) {
	db := begin()
	r := put(db, Link{Name: &a, Next: &Link{Name: &b}})
	id := r.IDs[0]
	ts, err := database.BuildTypedSnapshot[Link](r.Snap)
	if err != nil {
		return []claim{{"the type is accepted", false}}
	}
	x := ts.Find(id)
	if !isLink(x, id, &a, nil) || x.Next == nil {
		return []claim{{"the entity is found", false}}
	}
	next := x.Next.ID
	put(db, Link{ID: next, Name: &a})
	fine := true
	for _, other := range []uint64{id + 1000, id + 1<<20, id - 1<<20, id + 1<<32, id + 1<<63, 0, ^uint64(0), 1} {
		x := ts.Find(other)
		fine = fine && (x == nil || other == 1 || other == id-1<<20)
	}
	y := ts.Find(next)
	z := ts.Find(id)
	return []claim{
		{"nothing is found of other ids", fine},
		{"each entity is found", isLink(y, next, &b, nil) && y.Next == nil && isLink(z, id, &a, nil) && isLink(z.Next, next, &b, nil)},
	}
}

func H_retractLists(m, n, o int) (cs []claim) {
	db := begin()
	id := put(db, List{Items: []Item{{m}, {n}}, Sizes: []int{o, m}}).IDs[0]
	s := drop(db, List{ID: id})
	return []claim{
		{"the retraction is accepted", s.Error == nil},
		{"every value is retracted", find[List](s.Snap, id) == nil && find[Named](s.Snap, id) == nil && find[Named](db.Read(), id) == nil},
	}
}

func H_retractTwo(a, b, c string, e string) (cs []claim) {
	db := begin()
	r := put(db, Named{Name: a}, Named{Name: b}, User{Email: e}, Named{Name: c})
	s := drop(db, Named{ID: r.IDs[1]}, &User{Email: e})
	x, y := find[Named](s.Snap, r.IDs[0]), find[Named](s.Snap, r.IDs[3])
	return []claim{
		{"the retractions are accepted", s.Error == nil},
		{"both take effect", find[Named](s.Snap, r.IDs[1]) == nil && find[User](s.Snap, r.IDs[2]) == nil},
		{"others are as they were", x != nil && y != nil && x.Name == a && y.Name == c},
	}
}

func H_zeros() (cs []claim) {
	db := begin()
	s, n := "", 0
	r := put(db, Named{}, Link{Name: &s, Age: &n}, User{Email: ""}, Badge{}, Link{Name: &s})
	if r.Error != nil {
		return []claim{{"the write is accepted", false}}
	}
	x, y := find[Named](r.Snap, r.IDs[0]), find[User](r.Snap, r.IDs[2])
	z := find[Badge](r.Snap, r.IDs[3])
	return []claim{
		{"empty values are values", x != nil && x.ID == r.IDs[0] && y != nil && y.ID == r.IDs[2] && z != nil && z.ID == r.IDs[3]},
		{"pointers to empty values are values", isLink(find[Link](r.Snap, r.IDs[1]), r.IDs[1], &s, &n) && isLink(find[Link](r.Snap, r.IDs[4]), r.IDs[4], &s, nil)},
		{"empty identities are identities", put(db, User{Email: ""}).IDs[0] == r.IDs[2]},
		{"empty unique values are unique", put(db, Badge{}).Error != nil},
	}
}

type Rec struct {
	ID   uint64  "attr:\"sys/db/id\""
	Key  string  "attr:\"h/key,identity\""
	Name *string "attr:\"h/name\""
	Age  *int    "attr:\"h/age\""
}

// rec is what should be found of an entity.
type rec struct {
	id   uint64
	live bool
	key  string
	name *string
	age  *int
}

type moment struct {
	snap *database.Snapshot
	recs []rec
}

func isRec(x *Rec, r rec) bool {
	if !r.live {
		return x == nil
	}
	if x == nil || x.ID != r.id || x.Key != r.key || (x.Name == nil) != (r.name == nil) || (x.Age == nil) != (r.age == nil) {
		return false
	}
	return (x.Name == nil || *x.Name == *r.name) && (x.Age == nil || *x.Age == *r.age)
}

// keyed gives the position of the entity with the key, or -1.
func keyed(recs []rec, key string) int {
	for i, r := range recs {
		if r.live && r.key == key {
			return i
		}
	}
	return -1
}

type step struct {
	key, name string
	age       int
}

func S_steps(ops []int, steps []step) (cs []claim) {
	db := begin()
	moments := []moment{{db.Read(), nil}}
	var recs []rec
	for n, op := range ops {
		recs = append([]rec{}, recs...)
		s := &steps[n]
		at := keyed(recs, s.key)
		var res database.Response
		switch op {
		case 0: // assert by key
			res = put(db, Rec{Key: s.key, Name: &s.name})
			if res.Error != nil || len(res.IDs) != 1 {
				return []claim{{"assertions by identity are accepted", false}}
			}
			id := res.IDs[0]
			if at >= 0 {
				if recs[at].id != id {
					return []claim{{"an identity names its entity", false}}
				}
				recs[at].name = &s.name
				break
			}
			for _, r := range recs {
				if r.id == id {
					return []claim{{"entities of new identities are new", false}}
				}
			}
			recs = append(recs, rec{id: id, live: true, key: s.key, name: &s.name})
		case 1: // assert by id
			if len(recs) == 0 {
				return nil
			}
			r := &recs[0]
			res = put(db, &Rec{ID: r.id, Key: s.key, Age: &s.age})
			if at > 0 {
				if res.Error == nil {
					return []claim{{"identities may not be taken over", false}}
				}
				break
			}
			if res.Error != nil || len(res.IDs) != 1 || res.IDs[0] != r.id {
				return []claim{{"assertions by id are accepted", false}}
			}
			if !r.live {
				*r = rec{id: r.id, live: true}
			}
			r.key, r.age = s.key, &s.age
		case 2: // retract by id
			if len(recs) == 0 {
				return nil
			}
			res = drop(db, Named{ID: recs[0].id})
			if res.Error != nil {
				return []claim{{"retractions by id are accepted", false}}
			}
			recs[0].live = false
		case 3: // retract by key
			res = drop(db, Rec{Key: s.key})
			if (res.Error == nil) != (at >= 0) {
				return []claim{{"retractions are accepted of identities which name entities", false}}
			}
			if at >= 0 {
				recs[at].live = false
			}
		case 4: // a rejected request
			res = put(db, Rec{Key: s.key, Name: &s.name}, Rec{ID: 1 << 40, Key: s.name})
			if res.Error == nil || len(res.IDs) != 0 {
				return []claim{{"ids which were not issued are rejected", false}}
			}
		case 5: // an entity of another type, which has no key
			res = put(db, Named{Name: s.name}, Rec{Key: s.key, Age: &s.age})
			if res.Error != nil || len(res.IDs) != 2 {
				return []claim{{"assertions of several entities are accepted", false}}
			}
			if at >= 0 {
				if recs[at].id != res.IDs[1] {
					return []claim{{"an identity names its entity", false}}
				}
				recs[at].age = &s.age
			} else {
				recs = append(recs, rec{id: res.IDs[1], live: true, key: s.key, age: &s.age})
			}
			x := find[Link](res.Snap, res.IDs[0])
			if !isLink(x, res.IDs[0], &s.name, nil) {
				return []claim{{"every entity is found", false}}
			}
		case 6: // retract by id and key
			if len(recs) == 0 {
				return nil
			}
			res = drop(db, Rec{ID: recs[0].id, Key: s.key})
			if (res.Error == nil) != (at == 0) {
				return []claim{{"retractions are accepted if the id and the identity agree", false}}
			}
			if at == 0 {
				recs[0].live = false
			}
		}
		moments = append(moments, moment{res.Snap, recs}, moment{db.Read(), recs})
	}
	for n, m := range moments {
		if n > 0 && n%2 == 0 && n != len(moments)-1 {
			continue
		}
		for _, r := range m.recs {
			if !isRec(find[Rec](m.snap, r.id), r) {
				return []claim{{"each snapshot has the entities which its writes give", false}}
			}
		}
		for _, r := range recs[len(m.recs):] {
			if find[Rec](m.snap, r.id) != nil {
				return []claim{{"no snapshot has entities which are written later", false}}
			}
		}
	}
	return []claim{{"the history is as its writes give", true}}
}

func U_1(o0 int, a step) (cs []claim) { return S_steps([]int{o0}, []step{a}) }

func U_2(o0, o1 int, a, b step) (cs []claim) { return S_steps([]int{o0, o1}, []step{a, b}) }

func U_3(o0, o1, o2 int, a, b, c step) (cs []claim) {
	return S_steps([]int{o0, o1, o2}, []step{a, b, c})
}

func U_4(o0, o1, o2, o3 int, a, b, c, d step) (cs []claim) {
	return S_steps([]int{o0, o1, o2, o3}, []step{a, b, c, d})
}

func H_empty(a string) (cs []claim) {
	db := begin()
	id := put(db, Named{Name: a}).IDs[0]
	r := db.Write(database.Request{})
	x := find[Named](r.Snap, id)
	return []claim{
		{"an empty request is accepted", r.Error == nil && len(r.IDs) == 0},
		{"it changes nothing", x != nil && x.Name == a},
	}
}
`

const (
	ruleHistory      = "histories of writes have the effects of their writes in turn"
	ruleHistoryCrash = "no history crashes the database"
)

func checkHistories(r *Report) { historiesOf(r, "") }

// resting runs the check, and then the histories on which its property rests.
func resting(check func(r *Report), histories string) func(r *Report) {
	return func(r *Report) {
		check(r)
		historiesOf(r, "^H_("+histories+")$")
	}
}

// historiesOf checks the histories whose names match, or all of them.
func historiesOf(r *Report, these string) {
	src := docImports("internal/types", "pkg/database") + "var _ Claim\n" + histDocs
	p, err := structProgram(r.p.root, src)
	r.rule(ruleHistory)
	r.rule(ruleHistoryCrash)
	if err != nil {
		r.attempts++
		r.undecided(ruleHistory, "program", "the histories do not load: %v", err)
		return
	}
	e := structEngine(p)
	treeModels(e)
	e.maxPath = 1200000
	where := "pkg/database/impl.go"
	if f := p.method(p.typ("pkg/database", "localDatabase"), "Write"); f != nil {
		where = p.pos(f.Pos()) + " in " + fnName(f)
	}
	steps := 0
	only := os.Getenv("SHAPES")
	if these != "" {
		only = these
	}
	history := func(name, subject string, consts ...int64) {
		fn := p.fn(docsPkg, name)
		var args []Val
		for _, n := range consts {
			args = append(args, mkInt(n))
		}
		for i := len(consts); i < fn.Signature.Params().Len(); i++ {
			v := fn.Signature.Params().At(i)
			args = append(args, arbitrary(v.Name(), v.Type()))
		}
		r.ends(e, ruleHistory, ruleHistoryCrash, subject, where, func() {
			e.steps, e.longest = 0, 0
			for _, out := range e.invoke(e.newState(), &FuncV{Fn: fn}, args...) {
				if !r.check(out.panic == "", ruleHistoryCrash, subject, where, "panics: %s", out.panic) {
					return
				}
				fine := true
				inWorlds(e, out.st, func(st *State) {
					if fine {
						fine = historyClaims(r, st, subject, where, out.ret)
					}
				})
				if !fine {
					return
				}
			}
		})
		steps += e.steps
	}
	for _, name := range docFuncs(p, "H_") {
		if only == "" || regexp.MustCompile(only).MatchString(name) {
			history(name, "the history "+strings.TrimPrefix(name, "H_"))
		}
	}
	// Every history of a few kinds of requests, the first of which writes an entity.
	longest := 3
	if r.tier == "thorough" {
		longest = 4
	}
	kinds := []string{"assert by identity", "assert by id", "retract by id", "retract by identity", "a rejected request", "assert several", "retract by id and identity"}
	var all func(ops []int64)
	all = func(ops []int64) {
		if len(ops) > 0 {
			var names []string
			for _, o := range ops {
				names = append(names, kinds[o])
			}
			name := fmt.Sprintf("U_%d", len(ops))
			subject := "the history " + strings.Join(names, ", ")
			if only == "" || regexp.MustCompile(only).MatchString(name+" "+subject) {
				history(name, subject, ops...)
			}
		}
		if len(ops) == longest {
			return
		}
		for o := range kinds {
			if len(ops) == 0 && o != 0 && o != 5 {
				continue
			}
			if len(ops) == 2 && ops[0] != 0 && r.tier != "thorough" {
				continue
			}
			all(append(append([]int64{}, ops...), int64(o)))
		}
	}
	all(nil)
	e.steps = steps
	r.use(e)
}

// arbitrary gives an arbitrary value of the type, the fields of which are arbitrary if it is a struct here.
func arbitrary(name string, t types.Type) Val {
	u, ok := t.Underlying().(*types.Struct)
	if n, isNamed := t.(*types.Named); !ok || !isNamed || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "verifdocs" {
		return &Sym{Name: name, Typ: t, Rigid: true}
	}
	s := &Struct{Typ: t}
	for i := range u.NumFields() {
		s.Fs = append(s.Fs, arbitrary(name+"."+u.Field(i).Name(), u.Field(i).Type()))
	}
	return s
}

// historyClaims checks that what should hold of the history does.
func historyClaims(r *Report, st *State, subject, where string, ret Val) bool {
	if isNilV(st.norm(ret)) {
		return true
	}
	for _, el := range eList(st, st.norm(ret)) {
		c, ok := st.normDeep(el).(*Struct)
		if !ok {
			st.eng.failf("the claims of a history are not known")
		}
		what, _ := constStr(c.Fs[0])
		holds, ok := st.decide(c.Fs[1])
		if !ok {
			panic(needBranch{c.Fs[1]})
		}
		if !holds && os.Getenv("DEBUG") != "" {
			for _, k := range sortedKeys(st.rew) {
				println(shortKey(st.rew[k].Term), "=", shortKey(st.rew[k].Val))
			}
			println(shortKey(c.Fs[1]))
		}
		if !r.check(holds, ruleHistory, subject, where, "it does not hold that %s", what) {
			return false
		}
	}
	return true
}

func init() {
	register("C37", "Histories of requests of the public database (writes, updates by id and by identity, retractions, rejected requests, reads in between) are interpreted with all of the module's code, from the request to the entities found, with arbitrary values, the trees being lists kept in the order which the indexes give them. The rule: in every world in which a history may end, what is found is what its requests give in turn; fields not given are kept, other entities and earlier snapshots are as they were, and rejected requests change nothing.", checkHistories)
}
