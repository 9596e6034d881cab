package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(200)
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var prop, verif, repo, tier string
	flag.StringVar(&prop, "prop", "", "property to decide")
	flag.StringVar(&verif, "verif", "/verif", "directory of the framework")
	flag.StringVar(&repo, "repo", "/repo", "repository to analyse")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	doGen := flag.Bool("gen", false, "write properties.jsonl and MANIFEST.json")
	flag.Parse()
	if *doGen {
		gen(verif)
		return
	}
	if prop != "" {
		ids := strings.Split(prop, ",")
		if prop == "all" {
			ids = nil
			for _, p := range props {
				ids = append(ids, p.ID)
			}
			sort.Strings(ids)
		}
		rc := 0
		for _, id := range ids {
			var pr *Prop
			for _, p := range props {
				if p.ID == id {
					pr = p
				}
			}
			if pr == nil {
				fmt.Println("no such property", id)
				os.Exit(2)
			}
			if pr.NA != "" {
				continue
			}
			if r := runProp(pr, tier, verif, repo); r != 0 {
				rc = r
			}
		}
		os.Exit(rc)
	}
	debugMain(repo, flag.Args())
}

func debugMain(repo string, args []string) {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = repo
	}
	p, err := loadProg(dir)
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(1)
	}
	if len(args) > 0 && args[0] == "cg" {
		c := buildCG(p)
		for _, cb := range c.cbs {
			fmt.Println("callback", fnName(cb.Fn), cb.Sync, cb.To, p.pos(cb.Site.Pos()))
		}
		for _, f := range c.fns {
			if p.isGenerated(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == nil {
						fmt.Println(fnName(f), in, "->", c.outs[in], c.ext[in])
					}
				}
			}
		}
		return
	}
	if len(args) > 0 && args[0] == "races" {
		debugRaces(newLocks(p, buildCG(p)))
		return
	}
	ex := newExec(p)
	ex.imm = computeImmutable(p)
	names := args
	if len(names) == 1 && names[0] == "all" {
		names = nil
		for _, f := range p.fns {
			if !p.isGenerated(f) && len(f.Blocks) > 0 && f.Parent() == nil {
				names = append(names, fnName(f))
			}
		}
	}
	if os.Getenv("JOIN") != "" {
		ex.keep = func(e *Ev) bool { return false }
		ex.joinMax = 10
	}
	if o := os.Getenv("OPAQUE"); o != "" {
		ex.opaqueFn = opaqueSet(strings.Split(o, ",")...)
	}
	for _, n := range names {
		ex.steps = 0
		ex.overflow = false
		ex.maxSteps = 60000
		t0 := time.Now()
		f := p.fn(n)
		if f == nil {
			fmt.Println("no function", n)
			continue
		}
		np := 0
		ex.trace = os.Getenv("TRACE") != ""
		ex.sink = func(pt *Path) {
			np++
			if os.Getenv("EV") != "" {
				fmt.Printf("--- path %d of %s ends %s rets %v\n", np, pt.Root.Name, pt.End, pt.Rets)
				if os.Getenv("PC") != "" {
					for _, l := range pt.St.pc.lits() {
						fmt.Println("   pc", l)
					}
				}
				for _, e := range pt.Events() {
					if os.Getenv("EV") == "2" && (e.Kind == "enter" || e.Kind == "leave" || e.Kind == "load" || e.Kind == "branch") {
						continue
					}
					s := e.String()
					if len(s) > 170 {
						s = s[:170] + "…"
					}
					fmt.Printf("   %s\n", s)
				}
			}
		}
		var q []*Root
		ex.spawn = func(r *Root) { q = append(q, r) }
		q = append(q, &Root{Name: n, Fn: f, Kind: "entry"})
		for len(q) > 0 {
			r := q[0]
			q = q[1:]
			ex.run(r)
			fmt.Println("root", r.Name, "paths so far", np, "steps", ex.steps, ex.overflow, time.Since(t0))
			if ex.overflow {
				break
			}
		}
		for _, k := range sortedKeys(ex.obs) {
			o := ex.obs[k]
			if o.Fail != "" {
				fmt.Println("FAIL", o.Fail)
			} else if os.Getenv("OBS") != "" {
				fmt.Println("ok  ", k, o.Count)
			}
		}
		for _, n := range ex.notes {
			fmt.Println("note", n)
		}
	}
}
