package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Prop is a property: what it says, and the rules which decide it.
type Prop struct {
	ID, Title, Statement string
	Over                 []string
	Quant, Why           string
	Files                []string
	Mech                 [][2]string // name, where
	Technique, Note      string
	Run                  func(*Ctx)
	Deep                 func(*Ctx) // additional rules of the thorough tier
	NA                   string     // reason the property is not claimed
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

// Ctx is one run of a check.
type Ctx struct {
	p          *Prog
	prop       *Prop
	tier       string
	cgv        *CG
	lsv        *Locks
	obs        []obRec
	count      map[string]int
	fns        map[string]bool
	paths      int
	sites      map[string]bool
	notes      []string
	assum      []string
	cache      map[string][]*Path
	factStores map[*ssa.Store]bool
	factUsed   map[string]bool
	imm        map[string]bool
}

type obRec struct {
	Rule, Construct, Where, Msg string
	OK                          bool
}

// Where a rule's violation is.
func (c *Ctx) at(pos token.Pos) string { return c.p.pos(pos) }

// check records one obligation of a rule at a construct.
func (c *Ctx) check(rule, construct, where string, ok bool, msg string, args ...interface{}) bool {
	c.count[rule]++
	m := ""
	if !ok {
		m = fmt.Sprintf(msg, args...)
	}
	c.obs = append(c.obs, obRec{rule, construct, where, m, ok})
	return ok
}

// need fails the check when fewer than n instances of a rule were found.
func (c *Ctx) need(rule string, n int) {
	if c.count[rule] < n {
		c.check("anchor", rule, "-", false, "only %d instances of the rule %q were found; at least %d are required: the code it is about is missing or no longer recognised", c.count[rule], rule, n)
	}
}

func (c *Ctx) fail(rule, construct, where, msg string, args ...interface{}) {
	c.check(rule, construct, where, false, msg, args...)
}

// include adds the obligations of another property this one rests on, as far as keep takes them.
func (c *Ctx) include(id string, keep func(o obRec) bool) {
	for _, pr := range props {
		if pr.ID != id {
			continue
		}
		s := &Ctx{p: c.p, prop: pr, tier: c.tier, cgv: c.cgv, lsv: c.lsv, count: map[string]int{}, fns: c.fns, sites: c.sites, cache: c.cache, imm: c.imm}
		pr.Run(s)
		c.cgv, c.lsv, c.imm = s.cgv, s.lsv, s.imm
		c.paths += s.paths
		n := 0
		for _, o := range s.obs {
			if o.Rule == "anchor" && !o.OK || keep(o) {
				n++
				o.Rule = id + ": " + o.Rule
				c.check(o.Rule, o.Construct, o.Where, o.OK, "%s", o.Msg)
			}
		}
		for _, a := range s.assum {
			c.assume(a)
		}
		c.check("included", id, "-", n > 0, "none of the rules of %s this property rests on was applied", id)
		return
	}
	c.fail("included", id, "-", "there is no property %s", id)
}

// about: the obligation's construct or message mentions one of the words.
func about(words ...string) func(o obRec) bool {
	return func(o obRec) bool {
		for _, w := range words {
			if strings.Contains(o.Construct, w) {
				return true
			}
		}
		return false
	}
}

func rules(names ...string) func(o obRec) bool {
	return func(o obRec) bool {
		for _, n := range names {
			if o.Rule == n || strings.HasPrefix(o.Rule, n+":") {
				return true
			}
		}
		return false
	}
}

func both(a, b func(o obRec) bool) func(o obRec) bool {
	return func(o obRec) bool { return a(o) && b(o) }
}

func either(a, b func(o obRec) bool) func(o obRec) bool {
	return func(o obRec) bool { return a(o) || b(o) }
}

func (c *Ctx) site(in ssa.Instruction) { c.sites[c.p.pos(in.Pos())] = true }

func (c *Ctx) assume(s string) {
	for _, a := range c.assum {
		if a == s {
			return
		}
	}
	c.assum = append(c.assum, s)
}

// loadKnown reads the known findings of a property: construct keys which are reported but do not fail the check.
func loadKnown(file, id string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		// finding: property=ID key="rule|construct" what
		i := strings.Index(l, "key=\"")
		if i < 0 {
			continue
		}
		rest := l[i+5:]
		j := strings.Index(rest, "\"")
		if j < 0 {
			continue
		}
		r[rest[:j]] = strings.TrimSpace(rest[j+1:])
	}
	return r
}

func runProp(pr *Prop, tier, verif, repo string) int {
	t0 := time.Now()
	c := &Ctx{prop: pr, tier: tier, count: map[string]int{}, fns: map[string]bool{}, sites: map[string]bool{}, cache: map[string][]*Path{}}
	func() {
		defer func() {
			if r := recover(); r != nil && os.Getenv("VERIF_PANIC") == "" {
				c.fail("internal", fmt.Sprint(r), "-", "the analysis could not handle the current source: %v", r)
			} else if r != nil {
				panic(r)
			}
		}()
		p, err := loadProg(repo)
		if err != nil {
			c.fail("load", "repository", "-", "the source does not load: %v", err)
			return
		}
		c.p = p
		pr.Run(c)
		if tier == "thorough" && pr.Deep != nil {
			pr.Deep(c)
		}
	}()
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), pr.ID)
	var bad []obRec
	seenKnown := map[string]bool{}
	okN := 0
	distinct := map[string]bool{}
	for _, o := range c.obs {
		distinct[o.Rule+"|"+o.Construct] = true
		if o.OK {
			okN++
			continue
		}
		if w, ok := known[o.Rule+"|"+o.Construct]; ok {
			if !seenKnown[o.Rule+"|"+o.Construct] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, w)
				seenKnown[o.Rule+"|"+o.Construct] = true
			}
			continue
		}
		bad = append(bad, o)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	perRule := map[string]int{}
	for k, v := range c.count {
		perRule[k] = v
	}
	var fnl []string
	for f := range c.fns {
		fnl = append(fnl, f)
	}
	sort.Strings(fnl)
	var samples []interface{}
	lastRule := map[string]int{}
	for _, o := range c.obs {
		if lastRule[o.Rule] < 3 && len(samples) < 40 {
			lastRule[o.Rule]++
			samples = append(samples, map[string]interface{}{"rule": o.Rule, "construct": o.Construct, "where": o.Where, "holds": o.OK})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
		"coverage": map[string]interface{}{
			"explanation":          pr.Technique + ". " + pr.Note + " Every count is of the current source of /repo as analysed in this run: obligations are rule instances decided (per construct and path), instances_per_rule splits them, functions_analysed are the functions whose code was traversed, abstract_paths the paths of the abstract interpretation (where one was used).",
			"obligations":          len(c.obs),
			"discharged":           okN,
			"distinct_constructs":  len(distinct),
			"instances_per_rule":   perRule,
			"functions_analysed":   len(fnl),
			"functions":            fnl,
			"abstract_paths":       c.paths,
			"call_sites_inspected": len(c.sites),
			"samples":              samples,
			"notes":                c.notes,
		},
	}
	if len(c.assum) > 0 {
		ev["assumptions"] = c.assum
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", pr.ID+".json"), append(js, '\n'), 0o644)
	if len(bad) > 0 {
		rp := filepath.Join(verif, "evidence", pr.ID+".violations.txt")
		var sb strings.Builder
		shown := map[string]bool{}
		n := 0
		for _, o := range bad {
			k := o.Rule + "|" + o.Construct + "|" + o.Msg
			if shown[k] {
				continue
			}
			shown[k] = true
			l := fmt.Sprintf("%s: rule %s, %s: %s\n", o.Where, o.Rule, o.Construct, o.Msg)
			sb.WriteString(l)
			if n < 25 {
				fmt.Print(l)
			}
			n++
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, rp)
		return 1
	}
	fmt.Printf("property %s holds: %d obligations, %d constructs, %d functions, %d abstract paths, %.1fs\n", pr.ID, len(c.obs), len(distinct), len(fnl), c.paths, time.Since(t0).Seconds())
	return 0
}

// gen writes properties.jsonl and MANIFEST.json from the registered properties.
func gen(verif string) {
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
	var sb strings.Builder
	var checks, na []interface{}
	for _, p := range props {
		var mech []interface{}
		for _, m := range p.Mech {
			mech = append(mech, map[string]interface{}{"name": m[0], "where": m[1]})
		}
		j, _ := json.Marshal(map[string]interface{}{
			"id": p.ID, "title": p.Title, "statement": p.Statement,
			"quantifier":     map[string]interface{}{"over": p.Over, "text": p.Quant},
			"why_tests_cant": p.Why,
			"anchors":        map[string]interface{}{"files": p.Files, "mechanism": mech, "hook_needed": nil},
		})
		sb.Write(j)
		sb.WriteByte('\n')
		if p.NA != "" {
			na = append(na, map[string]interface{}{"property": p.ID, "reason": p.NA})
			continue
		}
		checks = append(checks, map[string]interface{}{
			"property": p.ID, "quick_cmd": "./check.sh " + p.ID, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p.ID,
			"technique": p.Technique, "level": "other", "level_note": p.Note,
		})
	}
	os.WriteFile(filepath.Join(verif, "properties.jsonl"), []byte(sb.String()), 0o644)
	if na == nil {
		na = []interface{}{}
	}
	m := map[string]interface{}{
		"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
		"notes": "All checks are one static analyser (checker/) run on /repo's current source; no hooks are compiled into /repo. Genuine defects found were repaired by the fix: commits listed in known_findings.txt.",
	}
	js, _ := json.MarshalIndent(m, "", "  ")
	os.WriteFile(filepath.Join(verif, "MANIFEST.json"), append(js, '\n'), 0o644)
}
