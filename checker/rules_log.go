package main

// Logging: every message of at least the cutoff level is written once, unchanged and where it belongs (O03).

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "O03", Title: "Log messages are written once, complete and where they belong, and only those asked for",
		Statement: "A message is logged exactly if its level is at least the cutoff level of its logger: the level given for this logger by its option, or else the default level. It is then written in one piece, ended by a line break, with its level, the name of its logger, the time and the unchanged text, whatever the text contains; warnings and worse go to the error output, everything else to the standard output. Every logger has its option (name-logging) in the programs which offer logging options, the options are applied before anything is started, and no message spoils the infoer's screen.",
		Over:      []string{"inputs", "histories"}, Quant: "all messages, levels, cutoff levels and options",
		Why:       "Tests compare a fixed text for each level and one cutoff; texts which look like a part of the format, other combinations of options and the programs' use of them do not occur.",
		Files:     []string{"logging/logger.go", "logging/cutoff.go", "logging/level.go", "cmd/flags.go", "cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go"},
		Mech:      [][2]string{{"logger", "log.GetLogger, Logger"}, {"cutoff", "cutoffLevel, shouldLog"}, {"levels", "LevelByName, LevelNames"}, {"options", "HandleLoggingFlags, AddLoggingFlags"}},
		Technique: absTech + "; the text written is decomposed into its parts, with the replacement of place holders carried out on the constant format",
		Note:      "The order of messages logged by different goroutines is not claimed.", Run: logging})
}

const logPkg = "logging"

// logLevels: the levels by their names.
func (c *Ctx) logLevels() map[string]int64 {
	r := map[string]int64{}
	pk := c.p.by[logPkg]
	if pk == nil {
		return r
	}
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && strings.HasSuffix(namedOf(k.Type()), "logging.Level") && strings.HasPrefix(n, "Level") {
			if v, ok := constant.Int64Val(k.Val()); ok {
				r[strings.TrimPrefix(n, "Level")] = v
			}
		}
	}
	return r
}

func isGlobalLoad(t *Term, key string) bool {
	t = strip(t)
	return t != nil && t.Op == "ld" && isGlobalAddr(t.Args[0], key)
}

func logging(c *Ctx) {
	levels := c.logLevels()
	for _, n := range []string{"Trace", "Debug", "Info", "Warn", "Error", "Fatal", "Off"} {
		_, ok := levels[n]
		if !c.check("levels", n, "-", ok, "there is no level %s", n) {
			return
		}
	}
	c.check("levels", "order", "-", levels["Trace"] < levels["Debug"] && levels["Debug"] < levels["Info"] && levels["Info"] < levels["Warn"] && levels["Warn"] < levels["Error"] && levels["Error"] < levels["Fatal"] && levels["Fatal"] < levels["Off"], "the levels are not ordered by their severity")
	c.logMessage(levels)
	c.logMethods(levels)
	c.logNames(levels)
	c.logSettings(levels)
	c.logUses()
}

var writers = []string{"fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString", "(io.Writer).Write", "(*os.File).Write", "(*os.File).WriteString", "(io.StringWriter).WriteString",
	"fmt.Print", "fmt.Printf", "fmt.Println"}

// logText: the parts of the text an event writes, with the place holders of a format replaced.
func (c *Ctx) logText(e *Ev) ([]*Term, bool) {
	args := func() []*Term {
		var r []*Term
		for _, a := range e.Var {
			r = append(r, strip(a))
		}
		return r
	}
	switch e.Name {
	case "fmt.Fprintln", "fmt.Println":
		var r []*Term
		if !e.HasVar {
			return nil, false
		}
		for i, a := range args() {
			if i > 0 {
				r = append(r, mkString(" "))
			}
			r = append(r, textParts(a)...)
		}
		return append(r, mkString("\n")), true
	case "fmt.Fprint":
		if !e.HasVar || len(e.Var) != 1 {
			return nil, false
		}
		return textParts(args()[0]), true
	case "fmt.Fprintf":
		if !e.HasVar || len(e.Args) < 2 {
			return nil, false
		}
		t := sprintfStr(append([]*Term{e.Args[1]}, e.Var...), types.Typ[types.String])
		if t == nil {
			return nil, false
		}
		return textParts(t), true
	case "io.WriteString", "(io.Writer).Write", "(*os.File).Write", "(*os.File).WriteString", "(io.StringWriter).WriteString":
		if len(e.Args) < 2 {
			return nil, false
		}
		return textParts(e.Args[1]), true
	}
	return nil, false
}

// textParts: the parts a text is made of.
func textParts(t *Term) []*Term {
	var r []*Term
	for _, x := range catParts(t) {
		x = strip(x)
		for x.Op == "conv" && len(x.Args) == 1 {
			x = strip(x.Args[0])
		}
		switch {
		case x.Op == "cat":
			r = append(r, textParts(x)...)
			continue
		case isApp(x, "fmt%s"), isApp(x, "fmt%v"):
			if isString(x.Args[0].Typ) {
				r = append(r, textParts(x.Args[0])...)
				continue
			}
		}
		if ev, _ := resOf(x); ev != nil && ev.Name == "(*strings.Replacer).Replace" && len(ev.Args) == 2 {
			if q, ok := replaced(ev); ok {
				r = append(r, q...)
				continue
			}
		}
		r = append(r, x)
	}
	return r
}

// replaced carries out the replacement of place holders in a text of constants.
func replaced(ev *Ev) ([]*Term, bool) {
	nr, _ := resOf(ev.Args[0])
	if nr == nil || nr.Name != "strings.NewReplacer" || !nr.HasVar || len(nr.Var)%2 != 0 {
		return nil, false
	}
	format, ok := foldStr(ev.Args[1])
	if !ok {
		return nil, false
	}
	var old []string
	for i := 0; i < len(nr.Var); i += 2 {
		s, ok := foldStr(nr.Var[i])
		if !ok || s == "" {
			return nil, false
		}
		old = append(old, s)
	}
	var r []*Term
	lit := ""
	for i := 0; i < len(format); {
		hit := -1
		for j, o := range old {
			if strings.HasPrefix(format[i:], o) {
				hit = j
				break
			}
		}
		if hit < 0 {
			lit += format[i : i+1]
			i++
			continue
		}
		if lit != "" {
			r = append(r, mkString(lit))
			lit = ""
		}
		r = append(r, textParts(nr.Var[2*hit+1])...)
		i += len(old[hit])
	}
	if lit != "" {
		r = append(r, mkString(lit))
	}
	return r, true
}

func (c *Ctx) logMessage(levels map[string]int64) {
	get := c.p.fn(logPkg + ".GetLogger")
	if !c.check("logger", "GetLogger", "-", get != nil && len(get.Params) == 1, "loggers cannot be made") {
		return
	}
	name := mkParam(get, get.Params[0])
	n, logged, skipped := 0, 0, 0
	for _, gp := range rets(c.exploreFn(get, opt{noSpawn: true})) {
		if len(gp.Rets) != 1 {
			continue
		}
		inner := c.invoke(gp, gp.Rets[0], opt{noSpawn: true})
		c.check("logger", "followed", c.at(get.Pos()), len(inner) > 0, "what a logger does could not be followed")
		for _, p := range inner {
			n++
			var msg, level *Term
			for _, q := range p.Root.Fn.Params {
				if isString(q.Type()) {
					msg = mkParam(p.Root.Fn, q)
				} else {
					level = mkParam(p.Root.Fn, q)
				}
			}
			at := c.at(p.Root.Fn.Pos())
			if !c.check("logger", "arguments", at, msg != nil && level != nil, "a logger does not take a text and a level") {
				return
			}
			if p.End == "block" || p.End == "back" {
				c.fail("logger", "returns", at, "a logger may not return")
				continue
			}
			if p.End != "ret" {
				c.check("logger", "returns", at, p.End != "panic" && p.End != "exit", "logging a message can end the program")
				continue
			}
			// the cutoff level of this logger
			pc := p.St.pc
			var own, def *Term
			known, has := false, false
			isOwn := func(t *Term) bool {
				return t.Op == "lookup" && isGlobalLoad(t.Args[0], logPkg+".CutoffLevels") && strip(t.Args[1]) == name
			}
			for _, l := range pc.lits() {
				t, pos := l, true
				if t.Op == "not" {
					t, pos = t.Args[0], false
				}
				if t.Op == "ex" && t.Aux == 1 && isOwn(t.Args[0]) {
					known, has = true, pos
					own = mk("ex", level.Typ, 0, t.Args[0])
				}
			}
			for _, e := range p.Events() {
				if e.Kind == "load" && e.Addr != nil && isGlobalAddr(e.Addr, logPkg+".DefaultCutoffLevel") {
					def = e.Val
				}
			}
			cutoff := own
			if known && !has {
				cutoff = def
			}
			if !c.check("cutoff", "level", at, known && cutoff != nil, "whether a message is written does not depend on the level set for its logger or the default level") {
				continue
			}
			want := mkNot(mkLt0(linOf(level).add(linOf(cutoff), -1)))
			var ws []*Ev
			happened := map[*Ev]bool{}
			for _, e := range p.Events() {
				happened[e] = true
				if isCall(e, writers...) {
					ws = append(ws, e)
				}
				if e.Kind == "go" {
					c.fail("written", "later", where(c, e), "a message is written by another goroutine, possibly after the program ended")
				}
			}
			yes, no := pc.entails(want), pc.entails(mkNot(want))
			switch {
			case yes:
				logged++
				if !c.check("written", "once", at, len(ws) == 1, "a message of at least the cutoff level is written %d times", len(ws)) {
					continue
				}
			case no:
				skipped++
				c.check("written", "not asked for", at, len(ws) == 0, "a message below the cutoff level is written")
				continue
			default:
				c.fail("written", "undecided", at, "whether a message is written does not depend on the cutoff level alone")
				continue
			}
			w := ws[0]
			// where
			warn := mkNot(mkLt0(linOf(level).add(linConst(levels["Warn"]), -1)))
			switch {
			case pc.entails(warn):
				c.check("output", "warnings", where(c, w), len(w.Args) > 0 && isGlobalLoad(w.Args[0], logPkg+".ErrorWriter"), "warnings and errors do not go to the error output")
			case pc.entails(mkNot(warn)):
				c.check("output", "others", where(c, w), len(w.Args) > 0 && isGlobalLoad(w.Args[0], logPkg+".OutputWriter"), "messages below warnings do not go to the standard output")
			default:
				c.fail("output", "undecided", where(c, w), "warnings and other messages are written to the same place")
			}
			// what
			parts, ok := c.logText(w)
			if !c.check("text", "known", where(c, w), ok, "the text written is not known") {
				continue
			}
			msgs, lvls, names, dates := 0, 0, 0, 0
			line := ""
			for i, x := range parts {
				last := i == len(parts)-1
				if s, ok := foldStr(x); ok {
					line = s
					c.check("text", "one line", where(c, w), !strings.Contains(strings.TrimSuffix(s, "\n"), "\n") && (last || !strings.Contains(s, "\n")), "what is put around a message contains line breaks")
					continue
				}
				line = ""
				ev, _ := resOf(x)
				switch {
				case strip(x) == msg:
					msgs++
				case isLevelName(x, level):
					lvls++
				case contains(x, name) && !contains(x, msg):
					names++
				case ev != nil && happened[ev] && ev.Name == "dynamic" && len(ev.Args) == 1 && isGlobalLoad(ev.Args[0], logPkg+".DateProvider"):
					dates++
				default:
					c.fail("text", "other", where(c, w), "something else than level, name, time and text is written: %s", cut(x.String(), 80))
				}
			}
			c.check("text", "line break", where(c, w), strings.HasSuffix(line, "\n"), "the message is not ended by a line break")
			c.check("text", "message", where(c, w), msgs == 1, "the text of the message is not written unchanged once")
			c.check("text", "level", where(c, w), lvls >= 1, "the level of the message is not written")
			c.check("text", "name", where(c, w), names >= 1, "the name of the logger is not written")
			c.check("text", "time", where(c, w), dates == 1, "the time is not written once")
		}
	}
	c.check("logger", "logged", "-", logged > 0, "no message is ever written")
	c.check("logger", "skipped", "-", skipped > 0, "every message is written")
}

// isLevelName: the name of the level, as listed.
func isLevelName(x, level *Term) bool {
	x = strip(x)
	if x.Op != "fld" {
		return false
	}
	l := strip(x.Args[0])
	if l.Op == "ex" {
		l = strip(l.Args[0])
	}
	return l.Op == "lookup" && isGlobalLoad(l.Args[0], logPkg+".LevelNames") && strip(l.Args[1]) == level
}

// logMethods: the methods of a logger use the level they are named after.
func (c *Ctx) logMethods(levels map[string]int64) {
	var lt *types.Named
	if pk := c.p.by[logPkg]; pk != nil {
		if o := pk.Pkg.Scope().Lookup("Logger"); o != nil {
			lt, _ = o.Type().(*types.Named)
		}
	}
	if !c.check("methods", "Logger", "-", lt != nil, "there is no logger type") {
		return
	}
	for _, l := range sortedKeys(levels) {
		if l == "Off" {
			continue
		}
		for _, m := range []string{l, l + "f"} {
			f := c.p.fn("(" + logPkg + ".Logger)." + m)
			if !c.check("methods", m, "-", f != nil, "a logger has no method %s", m) {
				continue
			}
			k := 0
			for _, p := range rets(c.exploreFn(f, opt{noSpawn: true})) {
				k++
				at := c.at(f.Pos())
				var ds []*Ev
				for _, e := range p.Events() {
					if e.Kind == "call" && e.Name == "dynamic" || e.Kind == "go" {
						ds = append(ds, e)
					}
				}
				if !c.check("methods", m+" once", at, len(ds) == 1 && ds[0].Kind == "call" && len(ds[0].Args) == 3 && strip(ds[0].Args[0]) == mkParam(f, f.Params[0]), "%s does not pass the message to its logger once", m) {
					continue
				}
				v, ok := ds[0].Args[2].intVal()
				c.check("methods", m+" level", at, ok && v == levels[l], "%s logs with another level", m)
				txt := strip(ds[0].Args[1])
				if m == l {
					c.check("methods", m+" text", at, txt == mkParam(f, f.Params[1]), "%s logs another text", m)
				} else {
					good := isApp(txt, "fmt.Sprintf") && len(txt.Args) == 2 && txt.Args[0] == mkParam(f, f.Params[1]) && contains(txt.Args[1], mkParam(f, f.Params[2]))
					c.check("methods", m+" text", at, good, "%s does not log the text formatted with all its arguments", m)
				}
			}
			c.check("methods", m, c.at(f.Pos()), k > 0, "%s never returns", m)
		}
	}
}

// logNames: every level has its names, and is found by them.
func (c *Ctx) logNames(levels map[string]int64) {
	st := c.p.fn(logPkg + ".init")
	names := map[int64][2]string{}
	for _, p := range rets(c.exploreFn(st, opt{noSpawn: true})) {
		var m *Term
		for _, e := range p.Events() {
			if e.Kind == "store" && e.Addr != nil && isGlobalAddr(e.Addr, logPkg+".LevelNames") {
				m = e.Val
			}
		}
		for _, e := range p.Events() {
			if m == nil || e.Kind != "mapupd" || e.Args[0] != m {
				continue
			}
			k, ok := e.Args[1].intVal()
			v := strip(e.Val)
			if !ok || v.Op != "struct" || len(v.Args) != 2 {
				continue
			}
			full, ok1 := foldStr(v.Args[0])
			shrt, ok2 := foldStr(v.Args[1])
			if ok1 && ok2 {
				names[k] = [2]string{full, shrt}
			}
		}
	}
	seen := map[string]bool{}
	for _, l := range sortedKeys(levels) {
		if l == "Off" {
			continue
		}
		nm := names[levels[l]]
		c.check("names", l, "-", strings.EqualFold(nm[0], l), "the level %s is called %q", l, nm[0])
		c.check("names", l+" short", "-", nm[1] != "" && !seen[strings.ToLower(nm[0])] && !seen[strings.ToLower(nm[1])], "the names of level %s are not its own", l)
		seen[strings.ToLower(nm[0])], seen[strings.ToLower(nm[1])] = true, true
	}
	for _, in := range c.globalWrites(logPkg + ".LevelNames") {
		c.fail("names", fnName(in.Parent()), c.at(in.Pos()), "the names of the levels are changed")
	}
	f := c.p.fn(logPkg + ".LevelByName")
	if !c.check("by name", "LevelByName", "-", f != nil, "levels cannot be looked up by name") {
		return
	}
	name := mkParam(f, f.Params[0])
	isNext := func(t *Term) bool {
		return t.Op == "next" && t.find(func(x *Term) bool { return isGlobalLoad(x, logPkg+".LevelNames") }) != nil
	}
	// the comparisons a path made with the names of the level visited
	compared := func(pc *PC, pos bool) map[string]bool {
		r := map[string]bool{}
		add := func(a, b *Term) {
			for i := 0; i < 2; i, a, b = i+1, b, a {
				fa, fb := lowered(a), lowered(b)
				if fa == nil || fb != name {
					continue
				}
				if fa.Op == "fld" && fa.Args[0].find(isNext) != nil {
					r[selName(fa)] = true
				}
			}
		}
		for _, q := range eqLits(pc, pos) {
			add(q[0], q[1])
		}
		for _, l := range pc.lits() {
			t, is := l, true
			if t.Op == "not" {
				t, is = t.Args[0], false
			}
			if is == pos && isApp(t, "strings.EqualFold") {
				add(t.Args[0], t.Args[1])
			}
		}
		return r
	}
	found, none := 0, 0
	for _, p := range c.exploreFn(f, opt{noSpawn: true, unroll: true}) {
		at := c.at(f.Pos())
		done := false
		for _, l := range p.St.pc.lits() {
			if l.Op == "not" && l.Args[0].Op == "ex" && isNext(l.Args[0].Args[0]) {
				done = true
			}
		}
		switch p.End {
		case "back":
			q := compared(p.St.pc, false)
			c.check("by name", "goes on", at, q["Full"] && q["Short"], "a level can be passed over although it has the name looked for")
		case "ret":
			r := strip(p.Rets[0])
			if v, ok := r.intVal(); ok {
				none++
				c.check("by name", "none", at, done && v == levels["Off"], "a level can be returned, or logging switched off, although not all names were compared")
				continue
			}
			found++
			q := compared(p.St.pc, true)
			key := r.Op == "ex" && r.Aux == 1 && isNext(r.Args[0])
			c.check("by name", "found", at, key && (q["Full"] || q["Short"]), "another level than the one with the name is returned")
		default:
			c.fail("by name", p.End, at, "looking up a level does not return")
		}
	}
	c.check("by name", "some", c.at(f.Pos()), found > 0 && none > 0, "levels are never found by their names")
}

// selName: the field t selects.
func selName(t *Term) string {
	if st, ok := t.Args[0].Typ.Underlying().(*types.Struct); ok {
		if i, ok := t.Aux.(int); ok && i < st.NumFields() {
			return st.Field(i).Name()
		}
	}
	return ""
}

func contains(t, sub *Term) bool {
	return t.find(func(x *Term) bool { return x == sub }) != nil
}

// lowered: the text t is the lower (or upper) case form of.
func lowered(t *Term) *Term {
	t = strip(t)
	for isApp(t, "strings.ToLower") || isApp(t, "strings.ToUpper") {
		t = strip(t.Args[0])
	}
	return t
}

// globalWrites: where a package variable, or a map it holds, is changed outside the initialiser.
func (c *Ctx) globalWrites(key string) []ssa.Instruction {
	var r []ssa.Instruction
	isG := func(v ssa.Value) bool {
		g, ok := v.(*ssa.Global)
		return ok && short(g.String()) == key
	}
	for _, f := range c.p.fns {
		if f.Synthetic != "" || c.p.pkgRel(f) == "testutil" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if isG(in.Addr) {
						r = append(r, in)
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok && isG(u.X) {
						r = append(r, in)
					}
				}
			}
		}
	}
	return r
}

// loggerNames: the names loggers are made with.
func (c *Ctx) loggerNames() []string {
	set := map[string]bool{}
	for fn, ins := range c.callersOf(logPkg + ".GetLogger") {
		for _, in := range ins {
			call, ok := in.(ssa.CallInstruction)
			if !ok || len(call.Common().Args) != 1 {
				continue
			}
			k, ok := call.Common().Args[0].(*ssa.Const)
			if c.check("loggers", fnName(fn), c.at(in.Pos()), ok && k.Value != nil, "the name of a logger is not a constant") {
				set[constant.StringVal(k.Value)] = true
			}
		}
	}
	var r []string
	for n := range set {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// logSettings: what the options do.
func (c *Ctx) logSettings(levels map[string]int64) {
	loggers := c.loggerNames()
	c.check("loggers", "some", "-", len(loggers) > 0, "nothing is ever logged")
	f := c.p.fn("cmd.HandleLoggingFlags")
	st0 := c.initState("cmd")
	if !c.check("settings", "HandleLoggingFlags", "-", f != nil && st0 != nil && len(f.Params) == 1, "the logging options are not applied") {
		return
	}
	root := &Root{Name: fnName(f), Fn: f, Kind: "entry", init: st0.clone(), Args: []*Term{mkParam(f, f.Params[0])}}
	ctx := root.Args[0]
	option := func(t *Term) (string, bool) {
		t = strip(t)
		if t == nil || t.Op != "app" || len(t.Args) < 2 || strip(t.Args[0]) != ctx {
			return "", false
		}
		switch t.Aux {
		case "(*" + cliPkg + ".Context).String", "(*" + cliPkg + ".Context).GlobalString":
			return foldStr(t.Args[1])
		}
		return "", false
	}
	n := 0
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true, unroll: true, root: root, opaque: opaqueSet(logPkg + ".LevelByName")})) {
		n++
		pc := p.St.pc
		at := c.at(f.Pos())
		// what is known of the options
		given := map[string]*bool{}
		yes, no := true, false
		for _, l := range pc.lits() {
			l.find(func(x *Term) bool {
				if k, ok := option(x); ok {
					empty := mkEq(x, mkString(""))
					switch {
					case pc.entails(mkNot(empty)):
						given[k] = &yes
					case pc.entails(empty):
						given[k] = &no
					}
				}
				return false
			})
		}
		set := map[string]bool{}
		def := false
		level := func(v *Term) string {
			if ev, _ := resOf(strip(v)); ev != nil && ev.Name == logPkg+".LevelByName" && len(ev.Args) == 1 {
				k, _ := option(ev.Args[0])
				return k
			}
			return ""
		}
		for _, e := range p.Events() {
			switch {
			case e.Kind == "mapupd" && isGlobalLoad(e.Args[0], logPkg+".CutoffLevels"):
				k, ok := foldStr(e.Args[1])
				if !c.check("settings", "logger", where(c, e), ok, "a level is set for an unknown logger") {
					continue
				}
				known := false
				for _, l := range loggers {
					known = known || l == k
				}
				c.check("settings", "logger "+k, where(c, e), known, "a level is set for %q, but there is no such logger", k)
				o := level(e.Val)
				c.check("settings", "level of "+k, where(c, e), o == k+"-logging", "the level of logger %s is taken from the option %q", k, o)
				c.check("settings", "given "+k, where(c, e), given[o] != nil && *given[o], "the level of logger %s is changed although its option is not given", k)
				set[k] = true
			case e.Kind == "store" && e.Addr != nil && isGlobalAddr(e.Addr, logPkg+".DefaultCutoffLevel"):
				o := level(e.Val)
				c.check("settings", "default level", where(c, e), o == "logging", "the default level is taken from the option %q", o)
				c.check("settings", "default given", where(c, e), given["logging"] != nil && *given["logging"], "the default level is changed although its option is not given")
				def = true
			}
		}
		for _, l := range loggers {
			g := given[l+"-logging"]
			if c.check("settings", "read "+l, at, g != nil, "the option %s-logging is not read", l) {
				c.check("settings", "applied "+l, at, set[l] == *g, "the option %s-logging is not applied", l)
			}
		}
		if c.check("settings", "read default", at, given["logging"] != nil, "the option logging is not read") {
			c.check("settings", "applied default", at, def == *given["logging"], "the option logging is not applied")
		}
	}
	c.check("settings", "some", c.at(f.Pos()), n > 0, "the logging options are not applied")
	// nobody else changes them
	for _, k := range []string{".CutoffLevels", ".DefaultCutoffLevel", ".OutputWriter", ".ErrorWriter", ".DateProvider"} {
		for _, in := range c.globalWrites(logPkg + k) {
			fn := in.Parent()
			if c.onlyVia(fn, "cmd.HandleLoggingFlags") {
				continue
			}
			if s, ok := in.(*ssa.Store); ok && k == ".DefaultCutoffLevel" {
				if v, ok := s.Val.(*ssa.Const); ok && v.Int64() == levels["Off"] && strings.HasPrefix(c.p.pkgRel(fn), "cmd/") {
					continue // decided below
				}
			}
			c.fail("settings", "changed elsewhere "+fnName(fn), c.at(in.Pos()), "%s changes %s", fnName(fn), logPkg+k)
		}
	}
	// at first
	if st := c.p.fn(logPkg + ".init"); st != nil {
		for _, p := range rets(c.exploreFn(st, opt{noSpawn: true})) {
			want := map[string]string{".OutputWriter": "os.Stdout", ".ErrorWriter": "os.Stderr"}
			for _, e := range p.Events() {
				for k, g := range want {
					if e.Kind == "store" && e.Addr != nil && isGlobalAddr(e.Addr, logPkg+k) {
						c.check("output", k[1:], where(c, e), isGlobalLoad(e.Val, g), "%s is not %s at first", k[1:], g)
					}
				}
			}
		}
	}
	// the programs
	for _, b := range c.boots() {
		offers := map[string]bool{}
		for _, fl := range b.flags {
			for _, nm := range fl.names {
				offers[nm] = true
			}
		}
		any := offers["logging"]
		for _, l := range loggers {
			any = any || offers[l+"-logging"]
		}
		at := c.at(b.action.Pos())
		if any {
			for _, l := range append([]string{""}, loggers...) {
				o := strings.TrimPrefix(l+"-logging", "-")
				c.check("offered", b.pr.name+" "+o, at, offers[o], "the option %s is not offered with the other logging options", o)
			}
		}
		for _, p := range b.paths {
			if p.Root.Kind != "entry" || p.Root.Spawn != nil {
				continue
			}
			var handled, started, screen, off *Ev
			for _, e := range p.Events() {
				switch {
				case isCall(e, "cmd.HandleLoggingFlags") && started == nil:
					handled = e
					c.check("offered", b.pr.name+" applied", where(c, e), len(e.Args) == 1 && strip(e.Args[0]) == b.ctx, "other options than the program's are applied")
				case e.Kind == "store" && e.Addr != nil && isGlobalAddr(e.Addr, logPkg+".DefaultCutoffLevel"):
					off = nil
					if v, ok := e.Val.intVal(); ok && v == levels["Off"] {
						off = e
					}
				case e.Kind == "go":
					if started == nil {
						started = e
					}
				case e.Kind == "call" && e.Callee != nil && screenFn(e.Callee) && screen == nil:
					screen = e
					c.check("screen", b.pr.name, where(c, e), off != nil && started == nil, "messages are still logged while the screen is used")
				}
			}
			if started != nil && any {
				c.check("offered", b.pr.name+" in time", where(c, started), handled != nil, "the logging options are not applied before something is started")
			}
			if off != nil && screen == nil {
				c.check("screen", b.pr.name+" off", where(c, off), len(offers) == 0 || !any, "all messages are switched off in a program without a screen")
			}
		}
	}
}

// constantParam: every call of the parameter's function gives a constant for it, whose place holders are as many as the
// arguments it is used with.
func (c *Ctx) constantParam(prm *ssa.Parameter, args ssa.Value, depth int) bool {
	f := prm.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == prm {
			idx = i
		}
	}
	if idx < 0 || depth > 3 || f.Parent() != nil {
		return false
	}
	n := 0
	for _, g := range c.p.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().Value != ssa.Value(f) || idx >= len(call.Common().Args) {
						return false // used as a value
					}
					n++
					switch k := call.Common().Args[idx].(type) {
					case *ssa.Const:
						if k.Value == nil {
							return false
						}
						want, ok := verbs(constant.StringVal(k.Value))
						have, ok2 := variadicLen(args)
						if ok && ok2 && want != have {
							return false
						}
					case *ssa.Parameter:
						if !c.constantParam(k, args, depth+1) {
							return false
						}
					default:
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// logUses: messages are texts with a constant format and as many arguments as it asks for.
func (c *Ctx) logUses() {
	n := 0
	for _, f := range c.p.fns {
		if f.Synthetic != "" || c.p.pkgRel(f) == "testutil" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(fnName(g), "("+logPkg+".Logger).") || !strings.HasSuffix(g.Name(), "f") || len(call.Common().Args) != 3 || c.p.pkgRel(f) == logPkg {
					continue
				}
				n++
				k, ok := call.Common().Args[1].(*ssa.Const)
				at := c.at(in.Pos())
				if prm, isP := call.Common().Args[1].(*ssa.Parameter); isP {
					// handed on: a constant at every call
					c.check("format", fnName(f), at, c.constantParam(prm, call.Common().Args[2], 0), "the format of a message is not a constant: what it contains would be taken for place holders")
					continue
				}
				if !c.check("format", fnName(f), at, ok && k.Value != nil, "the format of a message is not a constant: what it contains would be taken for place holders") {
					continue
				}
				want, ok := verbs(constant.StringVal(k.Value))
				have, ok2 := variadicLen(call.Common().Args[2])
				if ok && ok2 {
					c.check("format", fnName(f)+" arguments", at, want == have, "a message has %d place holders, but %d arguments", want, have)
				}
			}
		}
	}
	c.check("format", "messages", "-", n > 0, "no messages are logged")
}

// verbs counts the place holders of a format.
func verbs(f string) (int, bool) {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) || f[i] == '*' || f[i] == '[' {
			return 0, false
		}
		if f[i] != '%' {
			n++
		}
	}
	return n, true
}

// variadicLen: the number of arguments given for a variadic parameter.
func variadicLen(v ssa.Value) (int, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return 0, v.Value == nil
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return 0, false
		}
		if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
				return int(arr.Len()), true
			}
		}
	}
	return 0, false
}
