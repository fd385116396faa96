package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The rules for writes: which requests are accepted, and what an accepted request changes. They are applied to the
// abstract database's initial contents in every world in which the interpretation of a write ended.

type dbSpec struct {
	x *DB
	// bind is given the worlds in which it is known which temporary ids are of new entities.
	bind func(st *State, f func(st *State))
}

// n is the number of claims.
func (s *dbSpec) n(st *State) int { return len(tuple(st.mon["c"])) }

type verdict struct {
	ok    bool
	why   string
	props string // which properties say so
}

func (s *dbSpec) claim(st *State, i int, f string) Val {
	c := tuple(st.mon["c"])[i].(*Struct)
	return st.dn(fieldNamed(c, f))
}

func (s *dbSpec) setv(st *State, k string, i int, v Val) { st.mon["s."+k+itoa(i)] = v }
func (s *dbSpec) val(st *State, k string, i int) Val     { return st.dn(st.mon["s."+k+itoa(i)]) }

func (s *dbSpec) datum(st *State, i int) *Struct {
	return s.x.mk(s.val(st, "E", i), s.val(st, "A", i), s.val(st, "V", i), st.mon["next"])
}

func (s *dbSpec) retract(st *State, i int, f func(st *State, r bool)) {
	s.x.br(st, s.claim(st, i, "Retract"), f)
}

var refKinds = []string{"ID", "Ident", "LookupRef", "TempID", "TxnID", "String", "Int", "Bool", "Inst", "Float"}

// kind tells the kind of the reference or value: the name of its type, or "nil".
func (s *dbSpec) kind(st *State, get func(st *State) Val, it types.Type, f func(st *State, kind string, v Val)) {
	var rec func(st *State, k int)
	rec = func(st *State, k int) {
		v := st.dn(get(st))
		switch y := v.(type) {
		case *Iface:
			f(st, shortTyp(y.Dyn), y.V)
			return
		case NilV:
			f(st, "nil", nil)
			return
		}
		if k == len(refKinds) {
			if st.assume(st.mkEqV(v, nilV), true) {
				f(st, "nil", nil)
			}
			return
		}
		t := s.x.e.mustType(typesPkg, refKinds[k])
		if !types.Implements(t, it.Underlying().(*types.Interface)) {
			rec(st, k+1)
			return
		}
		s.x.br(st, st.mk(isOp(t), types.Typ[types.Bool], v), func(st *State, r bool) { rec(st, k+1) })
	}
	rec(st, 0)
}

func (s *dbSpec) zero(st *State, v Val, f func(st *State, r bool)) {
	s.x.br(st, st.mkEqV(st.dn(v), s.x.idc(0)), f)
}

// issued tells whether the id has been issued before the request.
func (s *dbSpec) issued(st *State, get func(st *State) Val, f func(st *State, r bool)) {
	s.zero(st, get(st), func(st *State, z bool) {
		if z {
			f(st, false)
			return
		}
		s.x.br(st, st.mk("lt", types.Typ[types.Bool], st.dn(get(st)), st.mon["next"]), f)
	})
}

// ident resolves the ident, to nil if it does not resolve.
func (s *dbSpec) ident(st *State, ident Val, f func(st *State, id Val)) {
	id := s.x.identID(st, st.dn(ident))
	s.zero(st, id, func(st *State, z bool) {
		if z {
			f(st, nil)
			return
		}
		f(st, st.dn(id))
	})
}

// identID gives the id to which the ident resolves, which if any was issued.
func (x *DB) identID(st *State, ident Val) Val {
	id := st.mk("IdentID", x.tID, ident)
	if n := st.mon["next"]; n != nil {
		st.assume(st.mk("lt", types.Typ[types.Bool], id, n), true)
	}
	return id
}

// lookup resolves the lookup ref, to nil if it does not resolve.
func (s *dbSpec) lookup(st *State, get func(st *State) Val, f func(st *State, id Val)) {
	x := s.x
	tl := x.e.mustType(typesPkg, "LookupRef")
	field := func(n string) func(st *State) Val {
		return func(st *State) Val {
			v := st.dn(get(st))
			if y, ok := v.(*Struct); ok {
				return fieldNamed(y, n)
			}
			return st.dn(fieldNamed(expand(v, tl).(*Struct), n))
		}
	}
	u := tl.Underlying().(*types.Struct)
	ft := func(n string) types.Type { return u.Field(fieldIndex(tl, n)).Type() }
	byAttr := func(st *State, a Val) {
		st.mon["~la"] = a
		x.isUnique(st, a, func(st *State, uniq bool) {
			if !uniq {
				delete(st.mon, "~la")
				f(st, nil)
				return
			}
			s.kind(st, field("V"), ft("V"), func(st *State, kind string, v Val) {
				s.typeIs(st, st.mon["~la"], kind, func(st *State, r bool) {
					a := st.dn(st.mon["~la"])
					delete(st.mon, "~la")
					if !r {
						f(st, nil)
						return
					}
					x.first(st, x.specObj, "AV", x.mk(x.idc(0), a, st.dn(field("V")(st)), x.idc(0)), func(st *State, hit *Struct) {
						if hit == nil {
							f(st, nil)
							return
						}
						f(st, hit.Fs[x.fE])
					})
				})
			})
		})
	}
	s.kind(st, field("A"), ft("A"), func(st *State, kind string, v Val) {
		switch kind {
		case "ID":
			byAttr(st, v)
		case "Ident":
			s.ident(st, v, func(st *State, id Val) {
				if id == nil {
					f(st, nil)
					return
				}
				byAttr(st, id)
			})
		case "LookupRef":
			id := x.lookupID(st, v)
			s.zero(st, id, func(st *State, z bool) {
				if z {
					f(st, nil)
					return
				}
				byAttr(st, st.dn(id))
			})
		default:
			f(st, nil)
		}
	})
}

// typeIs tells whether the attribute's declared type is that of values of the kind.
func (s *dbSpec) typeIs(st *State, a Val, kind string, f func(st *State, r bool)) {
	for _, t := range s.x.tags {
		if t.name == kind {
			s.x.br(st, st.mkEqV(st.mk("Type", s.x.tID, st.dn(a)), s.x.idc(t.id)), f)
			return
		}
	}
	f(st, false)
}

// temp gives the id of the temporary id: a symbol of its own until it is known.
func (s *dbSpec) temp(st *State, tid Val, f func(st *State, id Val)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		ts := tuple(st.mon["s.temps"])
		if i >= len(ts) {
			id := s.x.e.freshSym(s.x.tID, "temp")
			st.mon["s.temps"] = push(st.mon["s.temps"], &Tuple{Vs: []Val{st.dn(tid), id}})
			f(st, id)
			return
		}
		s.x.br(st, st.mkEqV(st.dn(tid), ts[i].(*Tuple).Vs[0]), func(st *State, r bool) {
			if r {
				f(st, tuple(st.mon["s.temps"])[i].(*Tuple).Vs[1])
				return
			}
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

func (s *dbSpec) resolve(st *State, i int, f func(st *State), rej func(st *State, v verdict)) {
	x := s.x
	no := func(st *State, what, props string) {
		rej(st, verdict{why: fmt.Sprintf("claim %d's %s", i+1, what), props: props})
	}
	fieldT := func(n string) types.Type {
		return x.tClaim.Underlying().(*types.Struct).Field(fieldIndex(x.tClaim, n)).Type()
	}
	get := func(n string) func(st *State) Val { return func(st *State) Val { return s.claim(st, i, n) } }
	pay := func(n string) func(st *State) Val {
		return func(st *State) Val {
			if y, ok := s.claim(st, i, n).(*Iface); ok {
				return y.V
			}
			return nilV
		}
	}
	// ref resolves a reference of any kind to an id.
	ref := func(st *State, n, kind string, f func(st *State, id Val)) {
		switch kind {
		case "ID":
			s.issued(st, pay(n), func(st *State, r bool) {
				if !r {
					f(st, nil)
					return
				}
				f(st, st.dn(pay(n)(st)))
			})
		case "Ident":
			s.ident(st, pay(n)(st), f)
		case "LookupRef":
			s.lookup(st, pay(n), f)
		case "TempID":
			s.temp(st, pay(n)(st), f)
		case "TxnID":
			f(st, st.mon["next"])
		default:
			f(st, nil)
		}
	}
	value := func(st *State) {
		s.kind(st, get("V"), fieldT("V"), func(st *State, kind string, v Val) {
			fin := func(st *State, kind string, v Val) {
				s.setv(st, "V", i, v)
				s.typeIs(st, s.val(st, "A", i), kind, func(st *State, r bool) {
					if !r {
						no(st, "value of a type which is not its attribute's", "C07")
						return
					}
					f(st)
				})
			}
			switch kind {
			case "nil":
				no(st, "absent value", "C07")
			case "ID", "Ident", "LookupRef", "TempID":
				ref(st, "V", kind, func(st *State, id Val) {
					if id == nil {
						no(st, "value reference which does not resolve ("+kind+")", "C11")
						return
					}
					fin(st, "ID", &Iface{Dyn: x.tID, V: id})
				})
			default:
				fin(st, kind, get("V")(st))
			}
		})
	}
	attr := func(st *State) {
		s.kind(st, get("A"), fieldT("A"), func(st *State, kind string, v Val) {
			ref(st, "A", kind, func(st *State, id Val) {
				if id == nil {
					no(st, "attribute reference which does not resolve ("+kind+")", "C11 C07")
					return
				}
				s.setv(st, "A", i, id)
				value(st)
			})
		})
	}
	s.kind(st, get("E"), fieldT("E"), func(st *State, kind string, v Val) {
		if kind == "TempID" {
			st.mon["s.etemp"+itoa(i)] = boolV(true)
		}
		ref(st, "E", kind, func(st *State, id Val) {
			if id == nil {
				no(st, "entity reference which does not resolve ("+kind+")", "C11")
				return
			}
			s.setv(st, "E", i, id)
			attr(st)
		})
	})
}

func isTempSym(v Val) bool {
	y, ok := v.(*Sym)
	return ok && strings.HasPrefix(y.Name, "temp_")
}

// isIdentity tells whether the claim asserts a value of an identity unique attribute.
func (s *dbSpec) isIdentity(st *State, i int, f func(st *State, r bool)) {
	s.retract(st, i, func(st *State, r bool) {
		if r {
			f(st, false)
			return
		}
		s.x.br(st, st.mkEqV(st.mk("Uniq", s.x.tID, s.val(st, "A", i)), s.x.sysID("AttrUniqueIdentity")), f)
	})
}

// identities unifies the temporary ids which claim the identities of other entities.
func (s *dbSpec) identities(st *State, f func(st *State), rej func(st *State, v verdict), skip func(st *State)) {
	x := s.x
	conflict := verdict{why: "temporary id which claims the identities of different entities", props: "C12 C05"}
	link := func(st *State, i, j int, a, b Val, f func(st *State)) {
		a, b = st.dn(a), st.dn(b)
		switch {
		case a.Key() == b.Key():
			f(st)
		case isTempSym(a):
			if st.replace(a, b) {
				f(st)
			}
		case isTempSym(b):
			if st.replace(b, a) {
				f(st)
			}
		default:
			x.br(st, st.mkEqV(a, b), func(st *State, r bool) {
				if !r && (st.mon["s.etemp"+itoa(i)] != nil || j >= 0 && st.mon["s.etemp"+itoa(j)] != nil) {
					rej(st, conflict)
					return
				}
				f(st)
			})
		}
	}
	var claim func(st *State, i int)
	var pairs func(st *State, i, j int)
	claim = func(st *State, i int) {
		if i == s.n(st) {
			f(st)
			return
		}
		s.isIdentity(st, i, func(st *State, r bool) {
			if !r {
				claim(st, i+1)
				return
			}
			if v, ok := s.val(st, "V", i).(*Iface); ok && isTempSym(v.V) {
				skip(st) // identities of references to new entities are not considered
				return
			}
			x.first(st, x.specObj, "AV", s.datum(st, i), func(st *State, hit *Struct) {
				if hit == nil {
					pairs(st, i, 0)
					return
				}
				link(st, i, -1, s.val(st, "E", i), hit.Fs[x.fE], func(st *State) { pairs(st, i, 0) })
			})
		})
	}
	pairs = func(st *State, i, j int) {
		if j == i {
			claim(st, i+1)
			return
		}
		s.isIdentity(st, j, func(st *State, r bool) {
			if !r {
				pairs(st, i, j+1)
				return
			}
			x.matches(st, "AV", s.datum(st, i), s.datum(st, j), func(st *State, r bool) {
				if !r {
					pairs(st, i, j+1)
					return
				}
				link(st, i, j, s.val(st, "E", i), s.val(st, "E", j), func(st *State) { pairs(st, i, j+1) })
			})
		})
	}
	claim(st, 0)
}

// news makes the temporary ids which remain those of new entities.
func (s *dbSpec) news(st *State) bool {
	var seen []Val
	for _, t := range tuple(st.mon["s.temps"]) {
		id := st.dn(t.(*Tuple).Vs[1])
		if !isTempSym(id) {
			continue
		}
		if !st.assume(st.mk("lt", types.Typ[types.Bool], st.mon["next"], id), true) {
			return false
		}
		for _, o := range seen {
			if o.Key() != id.Key() && !st.assume(st.mkEqV(o, id), false) {
				return false
			}
		}
		seen = append(seen, id)
	}
	return true
}

// sysAttr tells which of the system attributes of interest the claim's attribute is.
func (s *dbSpec) sysAttr(st *State, i int, f func(st *State, name string)) {
	names := []string{"DbIdent", "AttrType", "AttrCardinality", "AttrUnique"}
	var rec func(st *State, k int)
	rec = func(st *State, k int) {
		if k == len(names) {
			f(st, "")
			return
		}
		s.x.br(st, st.mkEqV(s.val(st, "A", i), s.x.sysID(names[k])), func(st *State, r bool) {
			if r {
				f(st, names[k])
				return
			}
			rec(st, k+1)
		})
	}
	rec(st, 0)
}

// rules applies what each claim must obey, and gathers the attributes declared.
func (s *dbSpec) rules(st *State, i int, f func(st *State), rej func(st *State, v verdict)) {
	x := s.x
	if i == s.n(st) {
		f(st)
		return
	}
	next := func(st *State) { s.rules(st, i+1, f, rej) }
	no := func(st *State, what, props string) {
		rej(st, verdict{why: fmt.Sprintf("claim %d, %s", i+1, what), props: props})
	}
	s.x.br(st, st.mk("lt", types.Typ[types.Bool], s.val(st, "E", i), x.idc(x.firstUser)), func(st *State, r bool) {
		if r {
			no(st, "which is about a system entity", "C09")
			return
		}
		s.sysAttr(st, i, func(st *State, name string) {
			if name == "" {
				next(st)
				return
			}
			s.retract(st, i, func(st *State, retract bool) {
				E := s.val(st, "E", i)
				v := s.val(st, "V", i).(*Iface).V
				x.br(st, st.mkEqV(st.mk("Type", x.tID, E), x.idc(0)), func(st *State, none bool) {
					E, v := s.val(st, "E", i), st.dn(v)
					if name == "DbIdent" {
						switch {
						case !none && retract:
							no(st, "which retracts the ident of an attribute", "C08")
						case !none:
							x.br(st, st.mkEqV(st.mk("AIdent", x.tIdent, E), v), func(st *State, same bool) {
								if !same {
									no(st, "which changes the ident of an attribute", "C08")
									return
								}
								next(st)
							})
						default:
							x.userIdent(st, v, func(st *State, ok bool) {
								if !ok {
									no(st, "of an ident in the system's namespace", "C09")
									return
								}
								next(st)
							})
						}
						return
					}
					if retract {
						no(st, "which retracts part of an attribute's declaration", "C08")
						return
					}
					fn := map[string]string{"AttrType": "Type", "AttrCardinality": "Card", "AttrUnique": "Uniq"}[name]
					if !none {
						x.br(st, st.mkEqV(st.mk(fn, x.tID, E), v), func(st *State, same bool) {
							if !same {
								no(st, "which changes an attribute's declaration", "C08")
								return
							}
							next(st)
						})
						return
					}
					s.declare(st, E, name, v, func(st *State, ok bool) {
						if !ok {
							no(st, "which declares an attribute otherwise than another", "C08")
							return
						}
						next(st)
					})
				})
			})
		})
	})
}

var declFields = map[string]int{"AttrType": 1, "AttrCardinality": 2, "AttrUnique": 3}

// declare notes part of the declaration of a new attribute.
func (s *dbSpec) declare(st *State, E Val, name string, v Val, f func(st *State, ok bool)) {
	x := s.x
	k := declFields[name]
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		ds := tuple(st.mon["s.decls"])
		if i >= len(ds) {
			d := &Tuple{Vs: []Val{st.dn(E), x.idc(0), x.idc(0), x.idc(0)}}
			d.Vs[k] = st.dn(v)
			st.mon["s.decls"] = push(st.mon["s.decls"], d)
			f(st, true)
			return
		}
		x.br(st, st.mkEqV(ds[i].(*Tuple).Vs[0], st.dn(E)), func(st *State, r bool) {
			if !r {
				rec(st, i+1)
				return
			}
			ds := tuple(st.mon["s.decls"])
			d := ds[i].(*Tuple)
			set := func(st *State) {
				ds := tuple(st.mon["s.decls"])
				d := ds[i].(*Tuple)
				nd := &Tuple{Vs: append([]Val{}, d.Vs...)}
				nd.Vs[k] = st.dn(v)
				nds := append([]Val{}, ds...)
				nds[i] = nd
				st.mon["s.decls"] = &Tuple{Vs: nds}
				f(st, true)
			}
			s.zero(st, d.Vs[k], func(st *State, z bool) {
				if z {
					set(st)
					return
				}
				d := tuple(st.mon["s.decls"])[i].(*Tuple)
				x.br(st, st.mkEqV(st.dn(d.Vs[k]), st.dn(v)), func(st *State, same bool) { f(st, same) })
			})
		})
	}
	rec(st, 0)
}

// userIdent tells whether the ident is one users may give.
func (x *DB) userIdent(st *State, v Val, f func(st *State, ok bool)) {
	fn := x.e.p.fn(sysPkg, "ValidUserIdent")
	if fn == nil {
		x.br(st, st.pure("strings.HasPrefix", types.Typ[types.Bool], v, mkStr("sys/")), func(st *State, r bool) { f(st, !r) })
		return
	}
	for _, o := range x.e.invoke(st, &FuncV{Fn: fn}, v) {
		if o.panic != "" {
			x.e.failf("ValidUserIdent panics")
		}
		x.br(o.st, o.ret, f)
	}
}

// apply changes the contents as the claims say.
func (s *dbSpec) apply(st *State, i int, f func(st *State), rej func(st *State, v verdict)) {
	x := s.x
	if i == s.n(st) {
		f(st)
		return
	}
	next := func(st *State) { s.apply(st, i+1, f, rej) }
	s.retract(st, i, func(st *State, r bool) {
		if r {
			x.record(st, x.specObj, "del", s.datum(st, i))
			next(st)
			return
		}
		insert := func(st *State) {
			x.record(st, x.specObj, "ins", s.datum(st, i))
			next(st)
		}
		card := func(st *State) {
			x.isMany(st, s.val(st, "A", i), func(st *State, many bool) {
				if many {
					insert(st)
					return
				}
				x.first(st, x.specObj, "EA", s.datum(st, i), func(st *State, hit *Struct) {
					if hit == nil {
						insert(st)
						return
					}
					st.mon["s.hit"] = hit
					x.br(st, x.valCond(st, hit.Fs[x.fV], s.val(st, "V", i)), func(st *State, same bool) {
						hit := x.nd(st, st.mon["s.hit"].(*Struct))
						delete(st.mon, "s.hit")
						if same {
							next(st)
							return
						}
						x.record(st, x.specObj, "del", hit)
						insert(st)
					})
				})
			})
		}
		x.isUnique(st, s.val(st, "A", i), func(st *State, uniq bool) {
			if !uniq {
				card(st)
				return
			}
			x.first(st, x.specObj, "AV", s.datum(st, i), func(st *State, hit *Struct) {
				if hit == nil {
					card(st)
					return
				}
				x.br(st, st.mkEqV(hit.Fs[x.fE], s.val(st, "E", i)), func(st *State, same bool) {
					if !same {
						rej(st, verdict{why: fmt.Sprintf("claim %d, of a unique value another entity has", i+1), props: "C05"})
						return
					}
					card(st)
				})
			})
		})
	})
}

// complete checks the declarations of the new attributes.
func (s *dbSpec) complete(st *State, k int, f func(st *State), rej func(st *State, v verdict)) {
	x := s.x
	ds := tuple(st.mon["s.decls"])
	if k >= len(ds) {
		f(st)
		return
	}
	no := func(st *State, what string) {
		rej(st, verdict{why: "an attribute declared with " + what, props: "C08"})
	}
	oneOf := func(st *State, v Val, names []string, f func(st *State, ok bool)) {
		var rec func(st *State, n int)
		rec = func(st *State, n int) {
			if n == len(names) {
				f(st, false)
				return
			}
			x.br(st, st.mkEqV(st.dn(v), x.sysID(names[n])), func(st *State, r bool) {
				if r {
					f(st, true)
					return
				}
				rec(st, n+1)
			})
		}
		rec(st, 0)
	}
	fld := func(st *State, i int) Val { return st.dn(tuple(st.mon["s.decls"])[k].(*Tuple).Vs[i]) }
	optional := func(st *State, i int, names []string, f func(st *State, ok bool)) {
		s.zero(st, fld(st, i), func(st *State, z bool) {
			if z {
				f(st, true)
				return
			}
			oneOf(st, fld(st, i), names, f)
		})
	}
	types1 := func(st *State) {
		oneOf(st, fld(st, 1), []string{"AttrTypeString", "AttrTypeInt", "AttrTypeRef", "AttrTypeFloat", "AttrTypeBool", "AttrTypeInst"}, func(st *State, ok bool) {
			if !ok {
				no(st, "an invalid type")
				return
			}
			optional(st, 2, []string{"AttrCardinalityOne", "AttrCardinalityMany"}, func(st *State, ok bool) {
				if !ok {
					no(st, "an invalid cardinality")
					return
				}
				optional(st, 3, []string{"AttrUniqueIdentity", "AttrUniqueValue"}, func(st *State, ok bool) {
					if !ok {
						no(st, "an invalid uniqueness")
						return
					}
					s.complete(st, k+1, f, rej)
				})
			})
		})
	}
	// Its ident must be claimed by the request.
	x.first(st, x.specObj, "EA", x.mk(fld(st, 0), x.sysID("DbIdent"), nilV, x.idc(0)), func(st *State, hit *Struct) {
		if hit == nil {
			no(st, "no ident")
			return
		}
		st.mon["s.ident"+itoa(k)] = hit.Fs[x.fV].(*Iface).V
		var claimed func(st *State, i int)
		claimed = func(st *State, i int) {
			if i == s.n(st) {
				no(st, "no ident")
				return
			}
			s.retract(st, i, func(st *State, r bool) {
				if r {
					claimed(st, i+1)
					return
				}
				hit := x.mk(fld(st, 0), x.sysID("DbIdent"), &Iface{Dyn: x.e.mustType(typesPkg, "String"), V: st.dn(st.mon["s.ident"+itoa(k)])}, x.idc(0))
				x.matches(st, "EAV", s.datum(st, i), hit, func(st *State, r bool) {
					if r {
						types1(st)
						return
					}
					claimed(st, i+1)
				})
			})
		}
		claimed(st, 0)
	})
}

// run applies the rules to the request and gives the verdict in every world.
func (s *dbSpec) run(st *State, f func(st *State, v verdict)) {
	skip := func(st *State) {}
	var res func(st *State, i int)
	res = func(st *State, i int) {
		if i < s.n(st) {
			s.resolve(st, i, func(st *State) { res(st, i+1) }, f)
			return
		}
		s.identities(st, func(st *State) {
			if !s.news(st) {
				return
			}
			fin := func(st *State) {
				s.rules(st, 0, func(st *State) {
					s.apply(st, 0, func(st *State) {
						s.complete(st, 0, func(st *State) { f(st, verdict{ok: true}) }, f)
					}, f)
				}, f)
			}
			if s.bind != nil {
				s.bind(st, fin)
			} else {
				fin(st)
			}
		}, f, skip)
	}
	s.entities(st, func(st *State) { res(st, 0) }, f)
}

// entities gives the claims by which the retractions retract their entities' datums.
func (s *dbSpec) entities(st *State, f func(st *State), rej func(st *State, v verdict)) {
	x := s.x
	bad := func(st *State, k int, what string) {
		rej(st, verdict{why: fmt.Sprintf("retraction %d's %s", k+1, what), props: "C13"})
	}
	it := x.e.mustType(typesPkg, "IDRef")
	list := func(st *State, k int) []Val { return tuple(tuple(st.mon["r"])[k]) }
	var ent func(st *State, k int)
	var con func(st *State, k, j int)
	var claims func(st *State, ids []Val, k int)
	ent = func(st *State, k int) {
		if k == len(tuple(st.mon["r"])) {
			claims(st, nil, 0)
			return
		}
		con(st, k, 0)
	}
	con = func(st *State, k, j int) {
		key := "s.ret" + itoa(k)
		if j == len(list(st, k)) {
			if st.mon[key] == nil {
				bad(st, k, "lack of constraints")
				return
			}
			ent(st, k+1)
			return
		}
		get := func(st *State) Val { return st.dn(list(st, k)[j]) }
		pay := func(st *State) Val {
			if y, ok := get(st).(*Iface); ok {
				return y.V
			}
			return nilV
		}
		have := func(st *State, id Val) {
			if id == nil {
				bad(st, k, "constraint which does not resolve")
				return
			}
			if st.mon[key] == nil {
				st.mon[key] = st.dn(id)
				con(st, k, j+1)
				return
			}
			x.br(st, st.mkEqV(st.dn(st.mon[key]), st.dn(id)), func(st *State, r bool) {
				if !r {
					bad(st, k, "constraints which resolve to different entities")
					return
				}
				con(st, k, j+1)
			})
		}
		s.kind(st, get, it, func(st *State, kind string, v Val) {
			switch kind {
			case "ID":
				s.zero(st, pay(st), func(st *State, z bool) {
					if z {
						have(st, nil)
						return
					}
					have(st, pay(st))
				})
			case "Ident":
				s.ident(st, pay(st), have)
			case "LookupRef":
				s.lookup(st, pay, have)
			default:
				have(st, nil)
			}
		})
	}
	claims = func(st *State, ids []Val, k int) {
		if k == len(tuple(st.mon["r"])) {
			f(st)
			return
		}
		id := st.dn(st.mon["s.ret"+itoa(k)])
		x.enumerate(st, x.specObj, "E", x.mk(id, x.idc(0), nilV, x.idc(0)), x.bound, false, func(st *State, hits []Val) {
			for _, h := range hits {
				d := x.nd(st, h.(*Struct))
				c := zeroVal(x.tClaim).(*Struct)
				fs := append([]Val{}, c.Fs...)
				fs[fieldIndex(x.tClaim, "E")] = &Iface{Dyn: x.tID, V: d.Fs[x.fE]}
				fs[fieldIndex(x.tClaim, "A")] = &Iface{Dyn: x.tID, V: d.Fs[x.fA]}
				fs[fieldIndex(x.tClaim, "V")] = d.Fs[x.fV]
				fs[fieldIndex(x.tClaim, "Retract")] = boolV(true)
				st.mon["c"] = push(st.mon["c"], &Struct{Typ: x.tClaim, Fs: fs})
			}
			claims(st, nil, k+1)
		})
	}
	ent(st, 0)
}
