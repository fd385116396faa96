package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Tags have parts which are not known: $name in a tag of a scenario stands for any text free of the
// characters which have a meaning in tags. Such texts are concatenations of known and unknown pieces.

const tagMeta = ",=\"`: \t"

// template makes the text of its pieces.
func template(s string) Val {
	var ps []Val
	for s != "" {
		i := strings.IndexByte(s, '$')
		if i < 0 {
			ps = append(ps, mkStr(s))
			break
		}
		if i > 0 {
			ps = append(ps, mkStr(s[:i]))
		}
		s = s[i+1:]
		n := 0
		for n < len(s) && (s[n] >= 'a' && s[n] <= 'z' || s[n] >= '0' && s[n] <= '9') {
			n++
		}
		ps = append(ps, placeholder(s[:n]))
		s = s[n:]
	}
	return concat(ps...)
}

func placeholder(name string) *Sym {
	return &Sym{Name: "tag." + name, Typ: types.Typ[types.String], Rigid: true}
}

func pieces(v Val) ([]Val, bool) {
	switch x := v.(type) {
	case *Const:
		if s, ok := constStr(x); ok {
			if s == "" {
				return nil, true
			}
			return []Val{mkStr(s)}, true
		}
	case *Sym:
		if strings.HasPrefix(x.Name, "tag.") {
			return []Val{x}, true
		}
	case *App:
		if x.Op == "cat" {
			return x.Args, true
		}
	}
	return nil, false
}

func concat(ps ...Val) Val {
	var out []Val
	for _, p := range ps {
		if s, ok := constStr(p); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if t, ok := constStr(out[len(out)-1]); ok {
					out[len(out)-1] = mkStr(t + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return &App{Op: "cat", Args: out, Typ: types.Typ[types.String]}
}

// cut cuts the text around the first of the separators.
func cut(v Val, sep string) (before, after Val, found, known bool) {
	ps, ok := pieces(v)
	if !ok || sep == "" || !strings.ContainsAny(sep, tagMeta) && len(ps) != 0 && !isConst(v) {
		return nil, nil, false, false
	}
	for i, p := range ps {
		s, ok := constStr(p)
		if !ok {
			continue
		}
		m := strings.IndexAny(sep, tagMeta)
		if m < 0 {
			// The text is all known.
			if a, b, ok := strings.Cut(s, sep); ok {
				return mkStr(a), mkStr(b), true, true
			}
			continue
		}
		// An occurrence has its character with a meaning in a known piece, but may reach into unknown ones.
		for at := 0; at < len(s); at++ {
			if s[at] != sep[m] {
				continue
			}
			lo, hi := at-m, at-m+len(sep)
			a, b := max(lo, 0), min(hi, len(s))
			if s[a:b] != sep[a-lo:b-lo] {
				continue
			}
			if lo < 0 && i > 0 || hi > len(s) && i < len(ps)-1 {
				return nil, nil, false, false
			}
			if lo < 0 || hi > len(s) {
				continue
			}
			return concat(append(append([]Val{}, ps[:i]...), mkStr(s[:lo]))...), concat(append([]Val{mkStr(s[hi:])}, ps[i+1:]...)...), true, true
		}
	}
	return v, mkStr(""), false, true
}

func isConst(v Val) bool { _, ok := v.(*Const); return ok }

// hasPrefix tells whether the text begins so.
func hasPrefix(v Val, prefix string) (rest Val, has, known bool) {
	ps, ok := pieces(v)
	if !ok {
		return nil, false, false
	}
	if prefix == "" {
		return v, true, true
	}
	if len(ps) == 0 {
		return nil, false, true
	}
	if s, ok := constStr(ps[0]); ok {
		if len(s) >= len(prefix) || len(ps) == 1 {
			if !strings.HasPrefix(s, prefix) {
				return nil, false, true
			}
			return concat(append([]Val{mkStr(s[len(prefix):])}, ps[1:]...)...), true, true
		}
		if !strings.HasPrefix(prefix, s) {
			return nil, false, true
		}
		prefix = prefix[len(s):]
		ps = ps[1:]
	}
	// An unknown piece has no character with a meaning.
	if len(ps) == 1 && strings.ContainsAny(prefix, tagMeta) {
		return nil, false, true
	}
	return nil, false, false
}

func hasSuffix(v Val, suffix string) (rest Val, has, known bool) {
	ps, ok := pieces(v)
	if !ok {
		return nil, false, false
	}
	if suffix == "" {
		return v, true, true
	}
	if len(ps) == 0 {
		return nil, false, true
	}
	if s, ok := constStr(ps[len(ps)-1]); ok && (len(s) >= len(suffix) || len(ps) == 1) {
		if !strings.HasSuffix(s, suffix) {
			return nil, false, true
		}
		return concat(append(append([]Val{}, ps[:len(ps)-1]...), mkStr(s[:len(s)-len(suffix)]))...), true, true
	}
	if strings.ContainsAny(suffix[len(suffix)-1:], tagMeta) {
		if _, ok := constStr(ps[len(ps)-1]); !ok {
			return nil, false, true
		}
	}
	return nil, false, false
}

// eqText decides whether the texts are equal by their forms.
func eqText(a, b Val) (r, ok bool) {
	if isConst(a) && isConst(b) {
		return false, false
	}
	if x, isT := unknownPiece(a); isT {
		// The idents of different fields differ, and none is a word which has a meaning in tags.
		if y, isT := unknownPiece(b); isT {
			return false, x != y
		}
	}
	if s, isC := constStr(b); isC {
		ps, known := pieces(a)
		if x, isT := unknownPiece(a); isT {
			switch s {
			case "", "identity", "unique", "ignoreempty":
				return false, true
			case "sys/db/id", "sys/db/rank":
				return false, strings.HasPrefix(x, "0")
			}
			return false, false
		}
		if !known || len(ps) < 2 {
			return false, false
		}
		n := 0
		for _, q := range ps {
			if p, isC := constStr(q); isC {
				n += len(p)
			}
		}
		if n > len(s) {
			return false, true
		}
		if p, isC := constStr(ps[0]); isC && !strings.HasPrefix(s, p) {
			return false, true
		}
		if p, isC := constStr(ps[len(ps)-1]); isC && !strings.HasSuffix(s, p) {
			return false, true
		}
		return false, false
	}
	if isConst(a) {
		return eqText(b, a)
	}
	return false, false
}

func unknownPiece(v Val) (name string, ok bool) {
	if s, isS := v.(*Sym); isS {
		return strings.CutPrefix(s.Name, "tag.")
	}
	return
}

func textModels(e *Engine) {
	m := e.models
	sep := func(c *CallCtx, i int) (string, bool) {
		if i >= len(c.Args) {
			return "", false
		}
		return constStr(c.Args[i])
	}
	m["github.com/dball/destructive/"+docsPkg+".tagged"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := constStr(c.Args[0])
		return ret(st, template(s)), ok
	}
	str := types.Typ[types.String]
	split := func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := sep(c, 1)
		if !ok {
			return nil, false
		}
		n := int64(-1)
		if len(c.Args) > 2 {
			if n, ok = constInt(c.Args[2]); !ok {
				return nil, false
			}
		}
		if n == 0 {
			return ret(st, nilV), true
		}
		v := st.norm(c.Args[0])
		var parts []Val
		for n < 0 || int64(len(parts)) < n-1 {
			a, b, found, known := cut(v, s)
			if !known {
				return nil, false
			}
			if !found {
				break
			}
			parts = append(parts, a)
			v = b
		}
		parts = append(parts, v)
		return ret(st, concreteSlice(st, str, parts)), true
	}
	m["strings.Split"] = split
	m["strings.SplitN"] = split
	m["strings.Cut"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := sep(c, 1)
		if !ok {
			return nil, false
		}
		a, b, found, known := cut(st.norm(c.Args[0]), s)
		return ret(st, &Tuple{Vs: []Val{a, b, boolV(found)}}), known
	}
	affix := func(f func(Val, string) (Val, bool, bool), what string) func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		return func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			s, ok := sep(c, 1)
			if !ok {
				return nil, false
			}
			v := st.norm(c.Args[0])
			rest, has, known := f(v, s)
			if !known {
				return nil, false
			}
			if !has {
				rest = v
			}
			switch what {
			case "has":
				return ret(st, boolV(has)), true
			case "trim":
				return ret(st, rest), true
			}
			return ret(st, &Tuple{Vs: []Val{rest, boolV(has)}}), true
		}
	}
	m["strings.HasPrefix"] = affix(hasPrefix, "has")
	m["strings.HasSuffix"] = affix(hasSuffix, "has")
	m["strings.TrimPrefix"] = affix(hasPrefix, "trim")
	m["strings.TrimSuffix"] = affix(hasSuffix, "trim")
	m["strings.CutPrefix"] = affix(hasPrefix, "cut")
	m["strings.CutSuffix"] = affix(hasSuffix, "cut")
	m["strings.Contains"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := sep(c, 1)
		if !ok {
			return nil, false
		}
		_, _, found, known := cut(st.norm(c.Args[0]), s)
		return ret(st, boolV(found)), known
	}
	m["strings.Index"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		s, ok := sep(c, 1)
		if !ok {
			return nil, false
		}
		v := st.norm(c.Args[0])
		a, _, found, known := cut(v, s)
		if !known {
			return nil, false
		}
		if !found {
			return ret(st, mkInt(-1)), true
		}
		if b, ok := constStr(a); ok {
			return ret(st, mkInt(int64(len(b)))), true
		}
		return ret(st, st.mk("strlen", types.Typ[types.Int], a)), true
	}
	m["strings.TrimSpace"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		v := st.norm(c.Args[0])
		ps, ok := pieces(v)
		if !ok {
			return nil, false
		}
		for i, p := range ps {
			if s, ok := constStr(p); ok {
				if i == 0 {
					s = strings.TrimLeft(s, " \t\n")
				}
				if i == len(ps)-1 {
					s = strings.TrimRight(s, " \t\n")
				}
				ps = append(append(append([]Val{}, ps[:i]...), mkStr(s)), ps[i+1:]...)
			}
		}
		return ret(st, concat(ps...)), true
	}
}

// textFolds give the results of other functions of texts which are known.
func textFolds(e *Engine) {
	boolT := func(b bool) Val { return boolV(b) }
	str, num := func(s string) Val { return mkStr(s) }, func(n int) Val { return mkInt(int64(n)) }
	one := map[string]func(a string) Val{
		"ToLower":   func(a string) Val { return str(strings.ToLower(a)) },
		"ToUpper":   func(a string) Val { return str(strings.ToUpper(a)) },
		"TrimSpace": func(a string) Val { return str(strings.TrimSpace(a)) },
		"Clone":     str,
	}
	two := map[string]func(a, b string) Val{
		"TrimLeft":     func(a, b string) Val { return str(strings.TrimLeft(a, b)) },
		"TrimRight":    func(a, b string) Val { return str(strings.TrimRight(a, b)) },
		"Trim":         func(a, b string) Val { return str(strings.Trim(a, b)) },
		"TrimPrefix":   func(a, b string) Val { return str(strings.TrimPrefix(a, b)) },
		"TrimSuffix":   func(a, b string) Val { return str(strings.TrimSuffix(a, b)) },
		"EqualFold":    func(a, b string) Val { return boolT(strings.EqualFold(a, b)) },
		"Contains":     func(a, b string) Val { return boolT(strings.Contains(a, b)) },
		"ContainsAny":  func(a, b string) Val { return boolT(strings.ContainsAny(a, b)) },
		"HasPrefix":    func(a, b string) Val { return boolT(strings.HasPrefix(a, b)) },
		"HasSuffix":    func(a, b string) Val { return boolT(strings.HasSuffix(a, b)) },
		"Index":        func(a, b string) Val { return num(strings.Index(a, b)) },
		"IndexAny":     func(a, b string) Val { return num(strings.IndexAny(a, b)) },
		"LastIndex":    func(a, b string) Val { return num(strings.LastIndex(a, b)) },
		"LastIndexAny": func(a, b string) Val { return num(strings.LastIndexAny(a, b)) },
		"Count":        func(a, b string) Val { return num(strings.Count(a, b)) },
		"Compare":      func(a, b string) Val { return num(strings.Compare(a, b)) },
	}
	fold := func(name string, n int, f func(as []string) Val) {
		before := e.models["strings."+name]
		e.models["strings."+name] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			var as []string
			for _, a := range c.Args {
				s, ok := constStr(st.norm(a))
				if !ok {
					break
				}
				as = append(as, s)
			}
			if len(as) == n {
				return ret(st, f(as)), true
			}
			if before != nil {
				return before(e, st, c)
			}
			return nil, false
		}
	}
	for n, f := range one {
		fold(n, 1, func(as []string) Val { return f(as[0]) })
	}
	for n, f := range two {
		fold(n, 2, func(as []string) Val { return f(as[0], as[1]) })
	}
	fold("ReplaceAll", 3, func(as []string) Val { return str(strings.ReplaceAll(as[0], as[1], as[2])) })
}

func numModels(e *Engine) {
	for _, n := range []string{"strconv.FormatUint", "strconv.FormatInt"} {
		e.models[n] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
			k, ok1 := constInt(st.norm(c.Args[0]))
			b, ok2 := constInt(st.norm(c.Args[1]))
			if !ok1 || !ok2 || b < 2 || b > 36 {
				return nil, false
			}
			return ret(st, mkStr(strconv.FormatInt(k, int(b)))), true
		}
	}
	e.models["strconv.Itoa"] = func(e *Engine, st *State, c *CallCtx) ([]Outcome, bool) {
		k, ok := constInt(st.norm(c.Args[0]))
		if !ok {
			return nil, false
		}
		return ret(st, mkStr(strconv.Itoa(int(k)))), true
	}
}

// substr is the part of the text between the bounds, of which the upper may be the text's end.
func substr(v Val, lo, hi Val) Val {
	ps, ok := pieces(v)
	if !ok || len(ps) == 0 {
		return nil
	}
	if hi != nil {
		// A prefix whose length is that of a leading part.
		h, isA := hi.(*App)
		n, isC := constInt(lo)
		if !isC || n != 0 {
			return nil
		}
		if isA && h.Op == "strlen" {
			for i := range ps {
				if concat(ps[:i+1]...).Key() == h.Args[0].Key() {
					return h.Args[0]
				}
				if s, ok := constStr(ps[i]); ok {
					for k := range s {
						pre := concat(append(append([]Val{}, ps[:i]...), mkStr(s[:k]))...)
						if pre.Key() == h.Args[0].Key() {
							return pre
						}
					}
				}
			}
			return nil
		}
		if k, ok := constInt(hi); ok {
			if s, ok := constStr(ps[0]); ok && int(k) <= len(s) && k >= 0 {
				return mkStr(s[:k])
			}
		}
		return nil
	}
	if n, ok := constInt(lo); ok && n >= 0 {
		if n == 0 {
			return v
		}
		if s, ok := constStr(ps[0]); ok && int(n) <= len(s) {
			return concat(append([]Val{mkStr(s[n:])}, ps[1:]...)...)
		}
		return nil
	}
	// What follows a leading part and so many characters.
	base, off, ok := splitAdd(lo)
	if !ok {
		return nil
	}
	h, isA := base.(*App)
	if !isA || h.Op != "strlen" {
		return nil
	}
	for i := range ps {
		for k := 0; ; k++ {
			s, isC := constStr(ps[i])
			if isC && k > len(s) || !isC && k > 0 {
				break
			}
			var pre []Val
			pre = append(pre, ps[:i]...)
			var rest []Val
			if isC {
				pre = append(pre, mkStr(s[:k]))
				if int(off) > len(s)-k {
					continue
				}
				rest = append(rest, mkStr(s[k+int(off):]))
				rest = append(rest, ps[i+1:]...)
			} else {
				if off != 0 {
					continue
				}
				rest = ps[i:]
			}
			if concat(pre...).Key() == h.Args[0].Key() {
				return concat(rest...)
			}
		}
	}
	return nil
}
