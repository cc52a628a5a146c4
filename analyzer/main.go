package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

type check struct {
	run  func(c *Ctx)
	rule string
	expl string
	asm  []string
	min  int
}

var started = time.Now()

var checks = map[string]*check{}

func main() {
	id := flag.String("check", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	if *id == "gen" {
		genDebug(*repo, *verif, flag.Arg(0))
		return
	}
	if *id == "" {
		if flag.NArg() == 2 {
			p, err := loadProgram(*repo)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			debugRun(p, flag.Arg(0), flag.Arg(1))
			return
		}
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	ids := []string{*id}
	if *id == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	abs, _ := filepath.Abs(*verif)
	p, err := loadProgram(*repo)
	rc := 0
	for _, id := range ids {
		ck := checks[id]
		if ck == nil {
			fmt.Println("unknown check", id)
			os.Exit(2)
		}
		var c *Ctx
		if err != nil {
			c = newCtx(id, &Program{repo: *repo}, abs, tier)
			c.ob("load", "package thrift", false, "the package does not load: %v", err)
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(abs, "evidence", id+".report.txt"))
			rc = 1
			continue
		}
		c = newCtx(id, p, abs, tier)
		c.rule, c.explain, c.assume, c.floor = ck.rule, ck.expl, ck.asm, ck.min
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(enough); ok {
						return
					}
					if os.Getenv("VDEBUG") != "" {
						panic(r)
					}
					c.ob("internal", "analysis", false, "the analysis failed: %v", r)
				}
			}()
			if be := p.base().err; be != nil {
				c.ob("internal", "package initialiser", false, "the package initialiser cannot be evaluated: %v", be)
			}
			ck.run(c)
		}()
		if c.finish() != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func debugRun(p *Program, typ, meth string) {
	in := newInterp(p, Config{})
	t := p.Type(typ)
	f := p.MethodByName(t, meth)
	st := in.start()
	var args []*Val
	for _, q := range f.Params {
		args = append(args, atom(q.Type(), q.Name()))
	}
	outs := in.Call(f, args, st)
	for _, o := range outs {
		dumpOutcome(o)
	}
	fmt.Println("err:", in.err, "steps", in.steps)
}

func dumpOutcome(o Outcome) {
	fmt.Println("---", o.kind, o.why, o.rets)
	for _, l := range o.st.log {
		fmt.Println("    if", l)
	}
	for _, e := range o.st.trace.list() {
		fmt.Println("    ", e.name, e.recv, e.snaps, "->", e.res)
	}
}
