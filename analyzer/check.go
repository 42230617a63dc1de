package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // the rule applied, in a sentence
	Run  func(c *Ctx)
}

var registry []*Check

func register(id, rule string, run func(c *Ctx)) {
	registry = append(registry, &Check{id, rule, run})
}

// Violation is one construct which breaks a rule.
type Violation struct {
	Key    string   `json:"key"` // rule | construct, without line numbers
	Pos    string   `json:"pos"`
	Detail string   `json:"detail"`
	Trace  []string `json:"trace,omitempty"`
}

// Ctx collects what a check did.
type Ctx struct {
	P          *Prog
	ID         string
	Thorough   bool
	Total      int
	Discharged int
	PerRule    map[string]int
	Viols      []Violation
	Fns        map[string]bool
	Instrs     int
	Paths      int
	Notes      map[string]string
	Samples    []string
	cov        map[ssa.Instruction]bool
}

func (c *Ctx) Ok(rule, construct string) {
	c.Total++
	c.Discharged++
	c.PerRule[rule]++
	if c.PerRule[rule] <= 3 {
		c.Samples = append(c.Samples, rule+" | "+construct)
	}
}

func (c *Ctx) Bad(rule, construct, pos, detail string, trace ...string) {
	c.Total++
	c.PerRule[rule]++
	k := rule + " | " + construct
	for _, v := range c.Viols {
		if v.Key == k && v.Pos == pos {
			return
		}
	}
	c.Viols = append(c.Viols, Violation{k, pos, detail, trace})
}

// Need reports a rule whose instances have vanished: the analysis then does not see what it should.
func (c *Ctx) Need(rule string, n int) {
	if c.PerRule[rule] < n {
		c.Bad("coverage", rule, "-", fmt.Sprintf("the rule was applied %d times, at least %d are expected: the construct it looks at is gone or no longer recognised", c.PerRule[rule], n))
	}
}

func (c *Ctx) Note(k, v string) { c.Notes[k] = v }

func (c *Ctx) Fn(f *ssa.Function) {
	if f != nil {
		c.Fns[FnName(f)] = true
	}
}

// Merge takes over what an interpreter covered.
func (c *Ctx) Merge(in *Interp) {
	for f := range in.FnsIn {
		c.Fn(f)
	}
	for i := range in.Instrs {
		c.cov[i] = true
	}
}

// Guard runs a part of a check, an analysis which can not decide counts as a violation of its rule.
func (c *Ctx) Guard(rule, construct string, f func()) {
	if os.Getenv("JSV_TIME") != "" {
		t := time.Now()
		defer func() {
			if d := time.Since(t); d > 300*time.Millisecond {
				fmt.Fprintln(os.Stderr, d, construct)
			}
		}()
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				why := u.Why
				if len(why) > 600 {
					why = why[:600]
				}
				c.Bad(rule, construct, "-", "undecided: "+why)
				return
			}
			c.Bad(rule, construct, "-", fmt.Sprintf("analysis error: %v", r), strings.Split(string(debug.Stack()), "\n")...)
		}
	}()
	f()
}

// Each runs the parts of a check side by side, each with its own Ctx, and takes over their results in order.
func (c *Ctx) Each(n int, f func(c *Ctx, i int)) {
	subs := make([]*Ctx, n)
	var next atomic.Int64
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				s := &Ctx{P: c.P, ID: c.ID, Thorough: c.Thorough, PerRule: map[string]int{}, Fns: map[string]bool{}, Notes: map[string]string{}, cov: map[ssa.Instruction]bool{}}
				subs[i] = s
				s.Guard("analysis", fmt.Sprint("part ", i), func() { f(s, i) })
			}
		}()
	}
	wg.Wait()
	for _, s := range subs {
		c.Total += s.Total
		c.Discharged += s.Discharged
		c.Paths += s.Paths
		c.Instrs += s.Instrs
		for _, x := range s.Samples {
			rule, _, _ := strings.Cut(x, " | ")
			if c.PerRule[rule] < 3 {
				c.Samples = append(c.Samples, x)
				c.PerRule[rule]++
				s.PerRule[rule]--
			}
		}
		for k, v := range s.PerRule {
			c.PerRule[k] += v
		}
		for k := range s.Fns {
			c.Fns[k] = true
		}
		for k := range s.cov {
			c.cov[k] = true
		}
		for k, v := range s.Notes {
			c.Notes[k] = v
		}
		have := map[string]bool{}
		for _, v := range c.Viols {
			have[v.Key+v.Pos] = true
		}
		for _, v := range s.Viols {
			if !have[v.Key+v.Pos] {
				c.Viols = append(c.Viols, v)
			}
		}
	}
}

// Anchor finds a function the check needs.
func (c *Ctx) Anchor(f *ssa.Function, name string) *ssa.Function {
	if f == nil {
		undecided("%s is not there", name)
	}
	return f
}

func (c *Ctx) Pos(p token.Pos) string { return c.P.Pos(p) }

type known struct{ id, key, text string }

func readKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key=<rule | construct> :: text
		l = strings.TrimPrefix(l, "finding: property=")
		id, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(rest, "key=")
		key, text, _ := strings.Cut(rest, " :: ")
		out = append(out, known{id, strings.TrimSpace(key), text})
	}
	return out
}

// runCheck runs a check and writes its evidence. It reports whether the property holds.
func runCheck(p *Prog, loadErr error, ch *Check, verif, tier string, seed int, quiet bool) bool {
	t := time.Now()
	c := &Ctx{P: p, ID: ch.ID, Thorough: tier == "thorough", PerRule: map[string]int{}, Fns: map[string]bool{}, Notes: map[string]string{}, cov: map[ssa.Instruction]bool{}}
	if loadErr != nil {
		c.Bad("load", "repository", "-", loadErr.Error())
	} else {
		c.Guard("analysis", ch.ID, func() { ch.Run(c) })
		if c.Total == 0 {
			c.Bad("coverage", ch.ID, "-", "no obligations were generated")
		}
	}
	c.Instrs = len(c.cov)
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	var viols []Violation
	knownSeen := map[string]bool{}
	for _, v := range c.Viols {
		hit := false
		for _, k := range kn {
			if k.id == ch.ID && k.key == v.Key {
				hit = true
				if !knownSeen[k.key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k.key+" :: "+k.text)
				}
				knownSeen[k.key] = true
			}
		}
		if !hit {
			viols = append(viols, v)
		}
	}
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	samples := c.Samples
	if len(samples) > 40 {
		samples = samples[:40]
	}
	var vs []string
	for _, v := range viols {
		vs = append(vs, v.Key+" at "+v.Pos+": "+v.Detail)
	}
	cov := map[string]interface{}{
		"explanation":  "Static analysis of the type checked SSA form of /repo's current source, nothing is executed. Rule: " + ch.Rule,
		"obligations":  c.Total,
		"discharged":   c.Discharged,
		"per_rule":     c.PerRule,
		"functions":    fns,
		"instructions": c.Instrs,
		"paths":        c.Paths,
		"samples":      samples,
		"notes":        c.Notes,
		"violations":   vs,
		"known":        len(knownSeen),
	}
	ev := map[string]interface{}{"property": ch.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t).Seconds()}
	dir := filepath.Join(verif, "evidence")
	if !quiet {
		os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, ch.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
			return false
		}
	}
	if len(viols) == 0 {
		fmt.Printf("%s: held, %d obligations in %d functions, %.1fs\n", ch.ID, c.Total, len(fns), time.Since(t).Seconds())
		return true
	}
	replay := filepath.Join(dir, ch.ID+".violation.txt")
	var b strings.Builder
	for _, v := range viols {
		fmt.Fprintf(&b, "%s\n  at %s\n  %s\n", v.Key, v.Pos, v.Detail)
		for _, l := range v.Trace {
			fmt.Fprintf(&b, "    %s\n", l)
		}
	}
	if !quiet {
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	out := b.String()
	if len(out) > 6000 {
		out = out[:6000] + "...\n"
	}
	fmt.Print(out)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, replay)
	return false
}
