package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is a violated obligation: a rule applied to a construct.
type Finding struct {
	Rule  string // rule id
	Key   string // construct (function, role), independent of line numbers
	Where string // file:line in function
	Msg   string
	Chain string
}

type Ctx struct {
	w          *World
	prop       string
	tier       string
	findings   []Finding
	seen       map[string]bool
	obligs     int
	discharged int
	rules      map[string]int
	undecided  []string
	entries    map[string]bool
	fnSeen     map[string]bool
	callSites  int
	samples    []string
	assume     []string
	flats      map[*ssa.Function]*Flat
	ptas       map[*Flat]*PTA
	floors     map[string]int
	cmaps      map[string]map[string]string
	inits      map[*ssa.Function]*Flat
}

func newCtx(w *World, prop string) *Ctx {
	return &Ctx{w: w, prop: prop, seen: map[string]bool{}, rules: map[string]int{}, entries: map[string]bool{}, fnSeen: map[string]bool{}, flats: map[*ssa.Function]*Flat{}, ptas: map[*Flat]*PTA{}, floors: map[string]int{}}
}

// flat returns the flattened program of an entry point (cached).
func (c *Ctx) flat(fn *ssa.Function) *Flat {
	if f, ok := c.flats[fn]; ok {
		return f
	}
	f, _ := flatten(c.w, fn)
	c.flats[fn] = f
	c.entries[shortFn(fn)] = true
	for _, fr := range f.frames {
		c.fnSeen[shortFn(fr.fn)] = true
	}
	c.callSites += len(f.frames)
	for _, p := range f.problems {
		c.undecide("engine", p)
	}
	return f
}

// flatStop: the flattened program of an entry point in which some functions stay calls.
func (c *Ctx) flatStop(fn *ssa.Function, stop func(*ssa.Function) bool) *Flat {
	f, _ := flattenStop(c.w, fn, stop)
	c.entries[shortFn(fn)] = true
	for _, fr := range f.frames {
		c.fnSeen[shortFn(fr.fn)] = true
	}
	c.callSites += len(f.frames)
	for _, p := range f.problems {
		c.undecide("engine", p)
	}
	return f
}

// initFlat flattens a package initializer without counting it as an entry point.
func (c *Ctx) initFlat(fn *ssa.Function) *Flat {
	if c.inits == nil {
		c.inits = map[*ssa.Function]*Flat{}
	}
	if f, ok := c.inits[fn]; ok {
		return f
	}
	f, _ := flatten(c.w, fn)
	c.inits[fn] = f
	return f
}

func (c *Ctx) pta(fl *Flat) *PTA {
	if p, ok := c.ptas[fl]; ok {
		return p
	}
	p := pointsTo(fl)
	c.ptas[fl] = p
	return p
}

// must resolves an exported anchor; a missing one is a violation of the rule that needs it.
func (c *Ctx) must(rel, recv, name string) *ssa.Function {
	f := c.w.fn(rel, recv, name)
	if f == nil {
		c.fail("anchor", rel+"."+recv+"."+name, "-", "exported function not found", "")
	}
	return f
}

func (c *Ctx) ok(rule, sample string) {
	c.obligs++
	c.discharged++
	c.rules[rule]++
	if len(c.samples) < 400 {
		c.samples = append(c.samples, rule+": "+sample)
	}
}

func (c *Ctx) fail(rule, key, where, msg, chain string) {
	c.obligs++
	c.rules[rule]++
	k := rule + "|" + key + "|" + msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, Finding{rule, key, where, msg, chain})
}

func (c *Ctx) undecide(rule, msg string) {
	k := "U" + rule + msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.undecided = append(c.undecided, rule+": "+msg)
}

// floor demands at least n instances of a rule on this run, so that no rule passes vacuously.
func (c *Ctx) floor(rule string, n int) { c.floors[rule] = n }

type checkDef struct {
	id    string
	title string
	rule  string
	run   func(c *Ctx)
}

var checks []checkDef

func register(id, rule string, run func(c *Ctx)) {
	checks = append(checks, checkDef{id: id, rule: rule, run: run})
}

func runCheck(id, root, outDir string) int {
	start := time.Now()
	var def *checkDef
	for i := range checks {
		if checks[i].id == id {
			def = &checks[i]
		}
	}
	if def == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	w, err := loadWorld(root)
	var c *Ctx
	if err != nil {
		c = newCtx(nil, id)
		c.fail("load", "repository", "-", "cannot load and type-check the repository: "+err.Error(), "")
	} else {
		c = newCtx(w, id)
		c.tier = tier
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					if fe, ok := r.(flatErr); ok {
						c.undecide("engine", fe.msg)
						return
					}
					c.undecide("engine", fmt.Sprintf("internal error: %v\n%s", r, debug.Stack()))
				}
			}()
			def.run(c)
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Minute):
			// give an answer in any case: nothing found so far, the rest is undecided
			n := newCtx(w, id)
			n.undecide("engine", "analysis did not finish within its time limit")
			return n.finish(def, outDir, tier, seed, time.Since(start))
		}
		for r, n := range c.floors {
			if c.rules[r] < n {
				c.undecide("floor", fmt.Sprintf("rule %s matched %d instances, expected at least %d", r, c.rules[r], n))
			}
		}
	}
	return c.finish(def, outDir, tier, seed, time.Since(start))
}

func (c *Ctx) finish(def *checkDef, outDir, tier string, seed int, wall time.Duration) int {
	known := loadKnown(filepath.Join(filepath.Dir(outDir), "known_findings.txt"), c.prop)
	var viol []Finding
	nKnown := 0
	for _, f := range c.findings {
		if d, ok := known[f.Rule+"|"+f.Key]; ok {
			nKnown++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, d)
			continue
		}
		viol = append(viol, f)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations, %d undecided; %d entry points, %d functions, %d inlined call sites, %.1fs\n", c.prop, c.obligs, c.discharged, len(viol), len(c.undecided), len(c.entries), len(c.fnSeen), c.callSites, wall.Seconds())
	for _, u := range c.undecided {
		fmt.Println("UNDECIDED", u)
	}
	os.MkdirAll(outDir, 0o755)
	replay := filepath.Join(outDir, c.prop+".violations.txt")
	if len(viol) > 0 {
		var sb strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&sb, "property %s, rule %s\n  construct: %s\n  at: %s\n  %s\n", c.prop, f.Rule, f.Key, f.Where, f.Msg)
			if f.Chain != "" {
				fmt.Fprintf(&sb, "  path: %s\n", f.Chain)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		if sb.Len() < 4000 {
			fmt.Print(sb.String())
		} else {
			fmt.Print(sb.String()[:4000], "\n[... all findings in the replay file]\n")
		}
	} else {
		os.Remove(replay)
	}
	rules := []string{}
	for r, n := range c.rules {
		rules = append(rules, fmt.Sprintf("%s=%d", r, n))
	}
	sort.Strings(rules)
	entries := []string{}
	for e := range c.entries {
		entries = append(entries, e)
	}
	sort.Strings(entries)
	samples := c.samples
	if len(samples) > 12 {
		step := len(samples) / 12
		var s []string
		for i := 0; i < len(samples); i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	nf, np := 0, 0
	if c.w != nil {
		nf, np = len(c.w.funcs), len(c.w.pkgs)
	}
	ev := map[string]any{
		"property": c.prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":             def.rule,
			"rule":                    def.rule,
			"obligations":             c.obligs,
			"discharged":              c.discharged,
			"obligations_by_rule":     rules,
			"entry_points":            entries,
			"functions_analysed":      len(c.fnSeen),
			"inlined_call_sites":      c.callSites,
			"repository_functions":    nf,
			"repository_packages":     np,
			"undecided":               c.undecided,
			"samples":                 samples,
			"known_findings_reported": nKnown,
		},
		"assumptions": append([]string{"the go/types and go/ssa front end of golang.org/x/tools represents the compiled program", "external library functions behave as in the model table in analyzer/pointsto.go"}, c.assume...),
		"wall_s":      wall.Seconds(),
		"violations":  len(viol),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(outDir, c.prop+".json"), append(js, '\n'), 0o644)
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, replay)
		return 1
	}
	return 0
}

// loadKnown reads lines "finding: property=<id> key=<rule>|<construct> :: <description>".
func loadKnown(path, prop string) map[string]string {
	res := map[string]string{}
	data, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" key=")
		k, d, _ := strings.Cut(l, " :: ")
		res[k] = d
	}
	return res
}
