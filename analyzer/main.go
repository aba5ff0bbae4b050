package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is one reported construct.
type Finding struct {
	Rule  string `json:"rule"`
	Where string `json:"where"` // construct: function, call site or path, without line numbers
	Pos   string `json:"pos"`
	Msg   string `json:"msg"`
}

func (f Finding) key() string { return f.Rule + "|" + f.Where }

// Report collects what one check decided.
type Report struct {
	Prop        string
	Tier        string
	Obligations int
	Discharged  int
	ByRule      map[string][2]int
	Analysed    map[string]int
	Funcs       map[string]bool
	Findings    []Finding
	Undecided   []Finding
	Samples     []string
	Notes       []string
	seen        map[string]bool
}

func newReport(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, ByRule: map[string][2]int{}, Analysed: map[string]int{}, Funcs: map[string]bool{}, seen: map[string]bool{}}
}

func (r *Report) ok(rule string) { r.okN(rule, 1) }

func (r *Report) okN(rule string, n int) {
	c := r.ByRule[rule]
	c[0] += n
	c[1] += n
	r.ByRule[rule] = c
	r.Obligations += n
	r.Discharged += n
}

// bad records a failed obligation.
func (r *Report) bad(rule, where, pos, format string, a ...any) {
	c := r.ByRule[rule]
	c[0]++
	r.ByRule[rule] = c
	r.Obligations++
	f := Finding{rule, where, pos, fmt.Sprintf(format, a...)}
	k := f.key() + "|" + pos + "|" + f.Msg
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, f)
}

// undecided records an obligation that was neither discharged nor refuted and is not reported as a violation.
func (r *Report) undecided(rule, where, pos, format string, a ...any) {
	f := Finding{rule, where, pos, fmt.Sprintf(format, a...)}
	k := "u" + f.key() + "|" + pos
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	c := r.ByRule[rule]
	c[0]++
	r.ByRule[rule] = c
	r.Obligations++
	r.Undecided = append(r.Undecided, f)
}

func (r *Report) check(cond bool, rule, where, pos, format string, a ...any) bool {
	if cond {
		r.ok(rule)
	} else {
		r.bad(rule, where, pos, format, a...)
	}
	return cond
}

func (r *Report) count(what string, n int) { r.Analysed[what] += n }

func (r *Report) fn(name string) { r.Funcs[name] = true }

func (r *Report) sample(format string, a ...any) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// atLeast fails the check when fewer instances than confirmed by hand were found.
func (r *Report) atLeast(rule string, n int) {
	if r.ByRule[rule][0] < n {
		r.bad("coverage", rule, "-", "rule %s matched %d instances, at least %d are expected: the construct it is about was not found", rule, r.ByRule[rule][0], n)
	}
}

// Ctx gives checks access to the loaded programs.
type Ctx struct {
	Repo, Verif string
	Tier        string
	progs       map[string]*Program
	cache       map[string]any
}

var configs = map[string]Config{
	"linux-amd64": {"linux-amd64", "linux", "amd64"},
	"js-wasm":     {"js-wasm", "js", "wasm"},
}

type loadError struct{ err error }

func (c *Ctx) prog(name string) *Program {
	if p := c.progs[name]; p != nil {
		return p
	}
	p, err := Load(c.Repo, configs[name])
	if err != nil {
		panic(loadError{err})
	}
	c.progs[name] = p
	return p
}

// Check is one registered property check.
type Check struct {
	run   func(*Ctx, *Report)
	level string
	expl  string
	assum []string
}

var checks = map[string]Check{}

func main() {
	debug.SetGCPercent(500)
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	verbose := flag.Bool("v", false, "print everything")
	flag.Parse()
	if flag.NArg() > 0 && flag.Arg(0) == "debug" {
		debugMain(*repo, flag.Args()[1:])
		return
	}
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = nil
		for k := range checks {
			props = append(props, k)
		}
		sort.Strings(props)
	}
	ctx := &Ctx{Repo: *repo, Verif: *verif, Tier: *tier, progs: map[string]*Program{}, cache: map[string]any{}}
	rc := 0
	for _, p := range props {
		if runCheck(ctx, p, *verbose) {
			rc = 1
		}
	}
	os.Exit(rc)
}

func runCheck(ctx *Ctx, prop string, verbose bool) bool {
	start := time.Now()
	r := newReport(prop, ctx.Tier)
	ck, ok := checks[prop]
	if !ok {
		fmt.Printf("no check for %s\n", prop)
		os.Exit(2)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if le, ok := e.(loadError); ok {
					r.bad("analysis", "load", "-", "the program could not be loaded: %v", le.err)
					return
				}
				st := string(debug.Stack())
				if verbose {
					fmt.Println(e, st)
				}
				r.bad("analysis", "analyzer", "-", "the analysis could not be completed: %v", e)
			}
		}()
		ck.run(ctx, r)
	}()
	known := loadKnown(filepath.Join(ctx.Verif, "known-findings.txt"), prop)
	var news []Finding
	for _, f := range r.Findings {
		if d, ok := known[f.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
			continue
		}
		news = append(news, f)
	}
	writeEvidence(ctx, prop, ck, r, news, time.Since(start))
	fmt.Printf("%s: %d obligations, %d discharged, %d findings, %d undecided, %d functions (%.1fs)\n", prop, r.Obligations, r.Discharged, len(r.Findings), len(r.Undecided), len(r.Funcs), time.Since(start).Seconds())
	var rules []string
	for k := range r.ByRule {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		fmt.Printf("  rule %-28s %4d obligations, %4d discharged\n", k, r.ByRule[k][0], r.ByRule[k][1])
	}
	if verbose {
		for _, f := range r.Undecided {
			fmt.Printf("  undecided: [%s] %s at %s: %s\n", f.Rule, f.Where, f.Pos, f.Msg)
		}
		for _, s := range r.Samples {
			fmt.Printf("  sample: %s\n", s)
		}
	}
	if len(news) == 0 {
		return false
	}
	for _, f := range news {
		fmt.Printf("  [%s] %s at %s: %s\n", f.Rule, f.Where, f.Pos, f.Msg)
	}
	path := filepath.Join(ctx.Verif, "evidence", prop+".violations.txt")
	var sb strings.Builder
	for _, f := range news {
		fmt.Fprintf(&sb, "[%s] %s at %s: %s\n", f.Rule, f.Where, f.Pos, f.Msg)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return true
}

// loadKnown reads "property=<id> key=<rule|where> <description>" lines.
func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		if i := strings.Index(rest, " :: "); i >= 0 {
			out[rest[:i]] = rest[i+4:]
		}
	}
	return out
}

func writeEvidence(ctx *Ctx, prop string, ck Check, r *Report, news []Finding, d time.Duration) {
	rules := map[string]any{}
	for k, v := range r.ByRule {
		rules[k] = map[string]int{"obligations": v[0], "discharged": v[1]}
	}
	var fns []string
	for k := range r.Funcs {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"obligations": r.Obligations,
		"discharged":  r.Discharged,
		"rules":       rules,
		"analysed":    r.Analysed,
		"functions":   fns,
		"explanation": ck.expl,
		"rule":        ck.expl,
		"checker_cmd": "/verif/check.sh " + prop + " " + ctx.Tier,
		"trusted_base": []string{
			"go/parser, go/types and golang.org/x/tools/go/ssa",
			"the analyzer in /verif/analyzer, with its models of the standard library",
		},
	}
	if len(r.Samples) > 0 {
		cov["samples"] = r.Samples
	}
	if len(r.Undecided) > 0 {
		cov["undecided"] = r.Undecided
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	if len(news) > 0 {
		cov["findings"] = news
	}
	ev := map[string]any{
		"property":    prop,
		"tier":        ctx.Tier,
		"seed":        seed,
		"level":       ck.level,
		"coverage":    cov,
		"assumptions": append([]string{}, ck.assum...),
		"wall_s":      d.Seconds(),
		"violations":  len(news),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(ctx.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(ctx.Verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
