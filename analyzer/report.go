package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"vsacheck/eng"
)

// Violation is one broken obligation, keyed by rule and construct.
type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Detail    string `json:"detail"`
}

// Ctx is what one property's rules work with.
type Ctx struct {
	*Prog
	ID       string
	Thorough bool
	engs     []*eng.Engine
	nPaths   int
	funcs    map[string]bool
	obs      map[string]map[string]bool // rule -> constructs
	sites    map[string]int
	viol     []Violation
	seenViol map[string]bool
	rules    map[string]string
	roles    *vsaRoles
}

func newCtx(p *Prog, id string) *Ctx {
	return &Ctx{Prog: p, ID: id, funcs: map[string]bool{}, obs: map[string]map[string]bool{}, sites: map[string]int{}, seenViol: map[string]bool{}, rules: map[string]string{}}
}

// abort stops the rules of one property after a fatal problem was recorded.
type abort struct{}

// rule records the text of a rule.
func (c *Ctx) rule(name, text string) { c.rules[name] = text }

// ob records that an obligation of a rule was checked on a construct.
func (c *Ctx) ob(rule, construct string) {
	if c.obs[rule] == nil {
		c.obs[rule] = map[string]bool{}
	}
	c.obs[rule][construct] = true
}

// site counts one analysed program point.
func (c *Ctx) site(kind string) { c.sites[kind]++ }

func (c *Ctx) fail(rule, construct string, pos token.Pos, format string, a ...any) {
	c.failAt(rule, construct, c.pos(pos), fmt.Sprintf(format, a...))
}

func (c *Ctx) failAt(rule, construct, where, detail string) {
	k := rule + "|" + construct
	if c.seenViol[k] {
		return
	}
	c.seenViol[k] = true
	c.viol = append(c.viol, Violation{rule, construct, where, detail})
}

// check is ob + fail when not ok.
func (c *Ctx) check(ok bool, rule, construct string, pos token.Pos, format string, a ...any) bool {
	c.ob(rule, construct)
	if !ok {
		c.fail(rule, construct, pos, format, a...)
	}
	return ok
}

// mustFn resolves an anchor or aborts with a violation.
func (c *Ctx) mustFn(pkg, name string) *ssa.Function {
	f := c.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.failAt("anchor", pkg+"."+name, "?", "the function this property is anchored to does not exist (or has no body)")
		panic(abort{})
	}
	return f
}

func (c *Ctx) must(ok bool, construct, detail string) {
	if !ok {
		c.failAt("anchor", construct, "?", detail)
		panic(abort{})
	}
}

// min fails when a rule was checked on fewer constructs than confirmed by hand.
func (c *Ctx) min(rule string, n int) {
	if len(c.obs[rule]) < n {
		c.failAt(rule, "instance-count", "?", fmt.Sprintf("the rule was applied to %d constructs, fewer than the %d confirmed by reading", len(c.obs[rule]), n))
	}
}

func (c *Ctx) engine() *eng.Engine {
	e := eng.New(c.SSA, c.Module)
	if c.Thorough {
		e.MaxIter = 3
	}
	c.engs = append(c.engs, e)
	return e
}

// run enumerates the paths of fn. When the budget is hit, loops are followed for fewer
// iterations; if even one iteration does not fit, the property is undecided and fails.
func (c *Ctx) run(e *eng.Engine, fn *ssa.Function, args, bind []*eng.Term, mem map[string]*eng.Cell) []*eng.Path {
	ps := e.Run(fn, args, bind, mem)
	for e.Over && e.MaxIter > 1 {
		e.MaxIter--
		c.sites["reduced-loop-bound:"+fname(fn)] = e.MaxIter
		ps = e.Run(fn, args, bind, mem)
	}
	if e.Over {
		c.failAt("analysis", fname(fn), c.pos(fn.Pos()), "path budget exceeded: undecided")
		panic(abort{})
	}
	c.nPaths += len(ps)
	for f := range e.Funcs {
		c.funcs[eng.FuncName(f)] = true
	}
	return ps
}

func fname(f *ssa.Function) string {
	n := eng.FuncName(f)
	if i := strings.LastIndex(n, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(n, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(n, "(") {
			pre = "("
		}
		n = pre + n[i+1:]
	}
	return n
}

type knownEntry struct{ prop, rule, construct, text string }

func readKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=ID rule=R construct=C :: text
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		e := knownEntry{text: text}
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				e.prop = v
			case "rule":
				e.rule = v
			case "construct":
				e.construct = v
			}
		}
		out = append(out, e)
	}
	return out
}

// finish writes evidence and prints the verdict; it returns the exit code.
func (c *Ctx) finish(root, tier string, start time.Time, quiet bool) int {
	known := readKnown(filepath.Join(root, "known-findings.txt"))
	var open []Violation
	var hit []string
	for _, v := range c.viol {
		m := false
		for _, k := range known {
			if k.prop == c.ID && k.rule == v.Rule && k.construct == v.Construct {
				m = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s at %s)", c.ID, k.text, v.Construct, v.Where)
				hit = append(hit, line)
				fmt.Println(line)
			}
		}
		if !m {
			open = append(open, v)
		}
	}
	nobs := 0
	per := map[string]any{}
	var names []string
	for r := range c.obs {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		var cs []string
		for k := range c.obs[r] {
			cs = append(cs, k)
		}
		sort.Strings(cs)
		nobs += len(cs)
		per[r] = map[string]any{"rule": c.rules[r], "obligations": len(cs), "constructs": cs}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation": "Static analysis of the source of /repo (type-checked SSA); nothing is executed. 'rules' lists each rule with the constructs it was applied to; 'functions' the functions whose paths were walked (path-sensitive dataflow, callees inlined, loops followed for two iterations).",
		"packages":    len(c.Pkgs), "source_functions": len(c.Funcs), "functions_walked": len(fns), "functions": fns,
		"paths": c.nPaths, "obligations": nobs, "rules": per, "sites": c.sites, "known_findings": hit,
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": 1, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(open),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	rep := filepath.Join(root, "evidence", c.ID+".violations.json")
	if len(open) == 0 {
		os.Remove(rep)
		if !quiet {
			fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", c.ID, nobs, len(fns), c.nPaths)
		}
		return 0
	}
	vb, _ := json.MarshalIndent(open, "", " ")
	os.WriteFile(rep, append(vb, '\n'), 0o644)
	for _, v := range open {
		fmt.Printf("  %s: [%s] %s: %s\n", v.Where, v.Rule, v.Construct, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
	return 1
}

var assumptions = []string{
	"the Go type checker and golang.org/x/tools/go/ssa represent the program faithfully",
	"standard library and third-party calls behave as documented; they do not call back into the module except through the function values passed to them",
	"integer arithmetic does not overflow",
	"two distinct field paths do not alias unless they are the same value-numbered address",
}
