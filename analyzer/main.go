package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is a violation of a property: the construct and why.
type Finding struct {
	Key   string // rule and construct, free of line numbers
	Where string
	What  string
}

// Report collects the obligations of a check.
type Report struct {
	endless  int // how much does not come to an end
	p        *Program
	id       string
	tier     string
	rules    map[string]int // obligations per rule
	order    []string
	ok       int
	findings []Finding
	seen     map[string]bool
	gaps     []Finding // what could not be decided
	attempts int
	funcs    map[string]bool
	notes    []string
	worlds   int
	steps    int
	unknown  map[string]int
	assume   []string
}

func (r *Report) rule(rule string) {
	if _, ok := r.rules[rule]; !ok {
		r.rules[rule] = 0
		r.order = append(r.order, rule)
	}
}

// check records an obligation of the rule about the subject.
func (r *Report) check(ok bool, rule, subject, where, format string, args ...any) bool {
	r.rule(rule)
	r.rules[rule]++
	if ok {
		r.ok++
		return true
	}
	key := rule + ": " + subject
	if !r.seen[key] {
		r.seen[key] = true
		r.findings = append(r.findings, Finding{key, where, fmt.Sprintf(format, args...)})
	}
	return false
}

// undecided records that an obligation could not be decided: the analysis
// does not know the construct. That is no violation, but is part of no claim.
func (r *Report) undecided(rule, subject, format string, args ...any) {
	r.rule(rule)
	key := rule + ": " + subject
	if !r.seen["?"+key] {
		r.seen["?"+key] = true
		r.gaps = append(r.gaps, Finding{key, "", fmt.Sprintf(format, args...)})
	}
}

func (r *Report) note(format string, args ...any) {
	r.notes = append(r.notes, fmt.Sprintf(format, args...))
}

// use notes what an engine covered.
func (r *Report) use(e *Engine) {
	for fn := range e.visited {
		if e.p.inModule(fn) {
			r.funcs[fnName(fn)] = true
		}
	}
	r.worlds += e.nworlds
	if os.Getenv("DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "the longest way has", e.longest, "steps")
	}
	r.steps += e.steps
	for k, n := range e.unknown {
		r.unknown[k] += n
	}
}

// attempt runs the part of the check, where the analysis giving up leaves the subject undecided.
func (r *Report) attempt(rule, subject string, f func()) {
	r.attempts++
	defer func() {
		if x := recover(); x != nil {
			if ef, ok := x.(engineFailure); ok {
				r.undecided(rule, subject, "%s", ef.msg)
				return
			}
			if os.Getenv("DEBUG") != "" {
				debug.PrintStack()
			}
			r.undecided(rule, subject, "analysis failed: %v", x)
		}
	}()
	if os.Getenv("DEBUG") != "" {
		fmt.Fprintln(os.Stderr, time.Now().Format("15:04:05"), rule, subject)
	}
	f()
}

// Check decides one property.
type Check struct {
	id   string
	run  func(r *Report)
	text string // what is analysed and the rule applied
}

var checks []*Check

// budget is how long a check may take: checks have 900 s.
func budget() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("BUDGET")); err == nil {
		return time.Duration(n) * time.Second
	}
	return 800 * time.Second
}

func register(id, text string, run func(r *Report)) {
	checks = append(checks, &Check{id: id, text: text, run: run})
}

type known struct{ property, key, what string }

func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "KNOWN-FINDING: ") {
			continue
		}
		rest := strings.TrimPrefix(line, "KNOWN-FINDING: property=")
		id, rest, ok := strings.Cut(rest, " key=[")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %s", line)
		}
		key, what, ok := strings.Cut(rest, "] ")
		if !ok {
			return nil, fmt.Errorf("malformed known finding: %s", line)
		}
		out = append(out, known{id, key, what})
	}
	return out, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: analyzer ID|all [REPO]")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := "/repo"
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	knowns, err := loadKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	start := time.Now()
	if os.Args[1] != "all" && tier != "thorough" {
		// Checks have 900 s.
		deadline = start.Add(budget())
	}
	p, err := loadProgram(repo)
	loaded := time.Since(start)
	worst := 0
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	found := false
	for _, c := range checks {
		if os.Args[1] != "all" && os.Args[1] != c.id {
			continue
		}
		found = true
		r := &Report{p: p, id: c.id, tier: tier, rules: map[string]int{}, seen: map[string]bool{}, funcs: map[string]bool{}, unknown: map[string]int{}}
		t0 := time.Now()
		if err != nil {
			r.undecided("load", "program", "the program does not load: %v", err)
		} else {
			r.attempt("analysis", "check", func() { c.run(r) })
			for _, rule := range r.order {
				if r.rules[rule] == 0 {
					r.undecided("analysis", "rule "+rule, "the rule has no instances")
				}
			}
			if len(r.order) == 0 {
				r.undecided("analysis", "rules", "no rule was applied")
			}
		}
		worst = max(worst, finish(c, r, knowns, verif, seed, time.Since(t0)+loaded))
	}
	if !found {
		fmt.Fprintln(os.Stderr, "no check for "+os.Args[1])
		os.Exit(2)
	}
	os.Exit(worst)
}

// finish reports the check and tells its exit status: 1 for violations, 3 if
// there are none, but too little of the property was decided to answer.
func finish(c *Check, r *Report, knowns []known, verif string, seed int, wall time.Duration) int {
	total := 0
	for _, rule := range r.order {
		total += r.rules[rule]
	}
	var news []Finding
	for _, f := range r.findings {
		isKnown := false
		for _, k := range knowns {
			if k.property == c.id && k.key == f.Key {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.what)
			}
		}
		if !isKnown {
			news = append(news, f)
		}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	fmt.Printf("%s: %d obligations under %d rules, %d discharged; %d functions, %d abstract steps, %d worlds\n", c.id, total, len(r.order), r.ok, len(r.funcs), r.steps, r.worlds)
	for _, rule := range r.order {
		fmt.Printf("  %s: %d\n", rule, r.rules[rule])
	}
	for _, n := range r.notes {
		fmt.Printf("  note: %s\n", n)
	}
	replay := filepath.Join(dir, "violation-"+c.id+".txt")
	os.Remove(replay)
	if len(news) > 0 {
		var b strings.Builder
		for _, f := range news {
			fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", f.Key, f.Where, f.What)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	}
	var gaps []string
	for _, f := range r.gaps {
		gaps = append(gaps, f.Key+": "+f.What)
		fmt.Printf("UNDECIDED property=%s %s: %s\n", c.id, f.Key, f.What)
	}
	rules := map[string]int{}
	for k, v := range r.rules {
		rules[k] = v
	}
	ev := map[string]any{
		"property": c.id,
		"tier":     r.tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":        c.text,
			"obligations":        total,
			"discharged":         r.ok,
			"rules":              rules,
			"functions_analysed": sortedKeys(r.funcs),
			"abstract_steps":     r.steps,
			"worlds":             r.worlds,
			"not_modelled":       r.unknown,
			"undecided":          gaps,
			"notes":              r.notes,
		},
		"assumptions": append([]string{"Go's type checker, the SSA construction and the analyzer's models of the standard library and of github.com/google/btree are right"}, r.assume...),
		"wall_s":      wall.Seconds(),
		"violations":  len(news),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	switch {
	case len(news) > 0:
		return 1
	case r.ok == 0 || len(r.gaps)*2 > r.attempts:
		fmt.Printf("NO ANSWER property=%s: too little was decided\n", c.id)
		return 3
	}
	return 0
}
