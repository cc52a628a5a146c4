package main

// Reporting: every check states obligations keyed by rule and construct. An
// obligation that fails, or that the analysis cannot decide, is a violation
// unless the known-findings file lists exactly that key.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type obligation struct {
	key     string
	n       int // instances (paths, call sites) behind it
	bad     []string
	sample  string
	decided bool
}

type Ctx struct {
	id      string
	prog    *Program
	verif   string
	tier    string
	start   time.Time
	obs     map[string]*obligation
	order   []string
	funcs   map[*ssa.Function]bool
	paths   int
	sites   int
	steps   int
	rule    string
	explain string
	assume  []string
	extra   map[string]any
	notes   []string
	floor   int
	nbad    int
}

// enough ends a check that has found plenty of violations.
type enough struct{}

func newCtx(id string, p *Program, verif, tier string) *Ctx {
	return &Ctx{id: id, prog: p, verif: verif, tier: tier, start: time.Now(), obs: map[string]*obligation{}, funcs: map[*ssa.Function]bool{}, extra: map[string]any{}}
}

func (c *Ctx) get(key string) *obligation {
	o := c.obs[key]
	if o == nil {
		o = &obligation{key: key}
		c.obs[key] = o
		c.order = append(c.order, key)
	}
	return o
}

// ob records one instance of an obligation; several instances with the same
// key must all hold.
func (c *Ctx) ob(rule, construct string, ok bool, format string, a ...any) bool {
	o := c.get(rule + "|" + construct)
	o.n++
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 1500 {
		msg = msg[:1000] + " … " + msg[len(msg)-480:]
	}
	if !ok {
		if len(o.bad) == 0 {
			if c.nbad++; c.nbad > 60 {
				o.bad = append(o.bad, msg)
				panic(enough{})
			}
		}
		if len(o.bad) < 6 {
			o.bad = append(o.bad, msg)
		} else {
			o.bad = append(o.bad, "")
		}
	} else if o.sample == "" {
		o.sample = msg
	}
	return ok
}

func (c *Ctx) undecided(rule, construct, format string, a ...any) {
	c.ob(rule, construct, false, "not decided: "+format, a...)
}

// need reports an anchor that cannot be found.
func (c *Ctx) need(what string, ok bool) bool {
	if !ok {
		c.ob("anchor", what, false, "the analysis cannot find %s", what)
	}
	return ok
}

func (c *Ctx) cover(in *Interp) {
	for f := range in.funcs {
		c.funcs[f] = true
	}
	c.steps += in.steps
}

func (c *Ctx) pos(p token.Pos) string { return c.prog.Pos(p) }

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// loadKnown reads the known-findings file; lines "finding: property=<id> key=<key> :: <what>".
func loadKnown(verif, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		p := "finding: property=" + id + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		rest := strings.TrimPrefix(l, p)
		k, what, ok := strings.Cut(rest, " :: ")
		if ok {
			m[strings.TrimSpace(k)] = strings.TrimSpace(what)
		}
	}
	return m
}

// finish prints the verdict, writes the evidence and returns the exit status.
func (c *Ctx) finish() int {
	stopped := c.nbad > 60
	c.nbad = -1 << 30
	if !stopped && len(c.order) < c.floor {
		c.ob("coverage", "instances", false, "only %d obligations were generated, %d were confirmed by hand: the rule no longer matches what it is about", len(c.order), c.floor)
	}
	known := loadKnown(c.verif, c.id)
	var viol, findings []string
	discharged, inst := 0, 0
	var samples []any
	for _, k := range c.order {
		o := c.obs[k]
		inst += o.n
		if len(o.bad) == 0 {
			discharged++
			if len(samples) < 12 && o.sample != "" {
				samples = append(samples, map[string]any{"obligation": o.key, "instances": o.n, "decided": o.sample})
			}
			continue
		}
		if w, ok := known[k]; ok {
			findings = append(findings, k+" "+w)
			continue
		}
		viol = append(viol, k)
	}
	rep := filepath.Join(c.verif, "evidence", c.id+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d obligations (%d instances), %d discharged, %d known findings, %d violations\n", c.id, len(c.order), inst, discharged, len(findings), len(viol))
	fmt.Fprintf(&sb, "rule: %s\n", c.rule)
	for _, v := range viol {
		fmt.Fprintf(&sb, "\nVIOLATION %s\n", v)
		for _, m := range c.obs[v].bad {
			if m != "" {
				fmt.Fprintf(&sb, "  %s\n", m)
			}
		}
	}
	for _, f := range findings {
		fmt.Fprintf(&sb, "\nKNOWN %s\n", f)
	}
	for _, k := range c.order {
		o := c.obs[k]
		if len(o.bad) == 0 {
			fmt.Fprintf(&sb, "ok %s (%d)\n", k, o.n)
		}
	}
	for _, n := range c.notes {
		fmt.Fprintf(&sb, "note %s\n", n)
	}
	os.MkdirAll(filepath.Dir(rep), 0o755)
	os.WriteFile(rep, []byte(sb.String()), 0o644)

	var fns []string
	for f := range c.funcs {
		fns = append(fns, f.RelString(c.prog.Thrift.Pkg))
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":            c.explain,
		"rule":                   c.rule,
		"obligations":            len(c.order),
		"obligation_instances":   inst,
		"discharged":             discharged,
		"known_findings":         findings,
		"functions_analysed":     len(fns),
		"functions":              fns,
		"abstract_paths":         c.paths,
		"call_sites":             c.sites,
		"instructions_evaluated": c.steps,
		"package_functions":      len(c.prog.all),
		"samples":                samples,
		"checker_cmd":            "bin/vthrift -check " + c.id,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property":    c.id,
		"tier":        c.tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": c.assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0o644)

	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f)
	}
	for _, v := range viol {
		fmt.Printf("%s: %s\n", c.id, v)
		for i, m := range c.obs[v].bad {
			if m != "" && i < 3 {
				fmt.Printf("    %s\n", m)
			}
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d paths, %.1fs\n", c.id, len(c.order), discharged, len(fns), c.paths, time.Since(c.start).Seconds())
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rep)
		return 1
	}
	return 0
}
