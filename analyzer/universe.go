package main

import (
	"fmt"
	"strings"
)

// The universe of small graphs: two entities of a type which refers to its own in every way, and one of
// another type which that holds by value and which refers back. All graphs of so many references are assembled.

const universeTypes = `
type UU struct {
	N string         "attr:\"$n1\""
	P *UU            "attr:\"$p1\""
	S []UU           "attr:\"$s1\""
	M map[string]UU  "attr:\"$m1,key=$n1\""
	Q map[string]*UU "attr:\"$m2,key=$n1\""
	V UW             "attr:\"$d1\""
	R *UW            "attr:\"$r1\""
	Z string         "attr:\"$z1\""
}
type UW struct {
	N string         "attr:\"$n1\""
	P *UU            "attr:\"$p1\""
	S []UU           "attr:\"$s1\""
	Q map[string]*UU "attr:\"$m2,key=$n1\""
	R *UW            "attr:\"$r1\""
	Z string         "attr:\"$z1\""
}
`

type uEdge struct {
	from int
	attr string
	to   int
}

// uSingle are the attributes which have one value.
var uSingle = map[string]bool{"p1": true, "d1": true, "r1": true}

func uEdges() (out []uEdge) {
	for _, f := range []int{1, 2} {
		for _, a := range []string{"p1", "s1", "m1", "m2"} {
			for _, t := range []int{1, 2} {
				out = append(out, uEdge{f, a, t})
			}
		}
		out = append(out, uEdge{f, "d1", 3}, uEdge{f, "r1", 3})
	}
	for _, a := range []string{"p1", "s1", "m2"} {
		for _, t := range []int{1, 2} {
			out = append(out, uEdge{3, a, t})
		}
	}
	return append(out, uEdge{3, "r1", 3})
}

// uGraphs gives the graphs of so many references in which everything is reached from the root.
func uGraphs(n, root int) (out [][]uEdge) {
	all := uEdges()
	var pick func(at int, es []uEdge)
	pick = func(at int, es []uEdge) {
		if len(es) == n {
			reached := map[int]bool{root: true}
			for range es {
				for _, e := range es {
					if reached[e.from] {
						reached[e.to] = true
					}
				}
			}
			for _, e := range es {
				if !reached[e.from] {
					return
				}
			}
			out = append(out, append([]uEdge{}, es...))
			return
		}
		for i := at; i < len(all); i++ {
			clash := false
			for _, e := range es {
				clash = clash || e.from == all[i].from && e.attr == all[i].attr && (uSingle[e.attr] || e.attr == "s1")
			}
			if !clash {
				pick(i+1, append(es, all[i]))
			}
		}
	}
	pick(0, nil)
	return
}

// universe is the source of the functions which assemble the graphs of at most so many references.
func universe(n int) string {
	var b strings.Builder
	b.WriteString(universeTypes)
	for k := 1; k <= n; k++ {
		for _, root := range []int{1, 3} {
			for _, g := range uGraphs(k, root) {
				name, facts := "", ""
				used, ranked := map[int]bool{root: true}, map[int]bool{}
				for _, e := range g {
					used[e.from], used[e.to] = true, true
					ranked[e.to] = ranked[e.to] || e.attr == "s1"
					name += fmt.Sprintf("_%d%s%d", e.from, strings.TrimSuffix(e.attr, "1"), e.to)
				}
				for id := 1; id <= 3; id++ {
					if !used[id] {
						continue
					}
					facts += fmt.Sprintf("{%d, i_n1, String(\"k%d\")}, ", id, id)
					if ranked[id] {
						facts += fmt.Sprintf("{%d, rank, Int(0)}, ", id)
					}
				}
				for _, e := range g {
					facts += fmt.Sprintf("{%d, i_%s, ID(%d)}, ", e.from, e.attr, e.to)
				}
				for id := 1; id <= 3; id++ {
					if used[id] {
						facts += fmt.Sprintf("{%d, i_z1, String(%c)}, ", id, 'a'+id-1)
					}
				}
				typ := map[int]string{1: "UU", 3: "UW"}[root]
				fmt.Fprintf(&b, "func U_%d%s(o int, a, b, c string) ([]fact, []got) {\n\tfs := []fact{%s}\n\treturn fs, get[%s](arrange(o, fs), %d)\n}\n", root, name, strings.TrimSuffix(facts, ", "), typ, root)
			}
		}
	}
	return b.String()
}
