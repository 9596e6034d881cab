package main

// The commands, songs and directories the control interface shows are complete (K05).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "K05", Title: "The control interface shows every command and every song",
		Statement: "A command stays registered for ever once it was registered, under its own name and with its own functions; help and ls are always registered. help without arguments lists every registered command with its description, and clear and exit; help with the name of a command shows its description and usage. ls lists exactly the songs in the music directory, or in the directory given below it. The completions offered for queue contain every song, those of help every command, clear and exit, and those of ls every directory directly below what was typed, whenever they continue what was typed.",
		Over:      []string{"inputs", "histories"}, Quant: "all sequences of registrations, arguments and contents of the music directory",
		Why:       "Tests register a few commands with different names and list fixed directories.",
		Files:     []string{"ssh/command.go", "schedule/server_state_commands.go"},
		Mech:      [][2]string{{"registry", "RegisterCommand, commandByName"}, {"help", "helpCommand"}, {"ls", "lsCommand"}, {"options", "OptionsFunc of queue, help and ls"}},
		Technique: absTech + "; listings are decided by induction over their loops: every element is visited in order and added, or left out for a reason",
		Note:      "That the files found are the right ones is F02, that sessions run the command named is K03.", Run: registry})
}

const cmdsKey = "ssh.commands"

// builtin: a command the control interface registers by itself.
type builtin struct {
	name          string
	exec, options *ssa.Function
	at            string
}

func (c *Ctx) builtinCommands() map[string]*builtin {
	r := map[string]*builtin{}
	f := c.p.fn("ssh.init")
	if f == nil {
		return r
	}
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true, opaque: opaqueSet("ssh.RegisterCommand", logPkg+".GetLogger")})) {
		for _, e := range p.Events() {
			if !isCall(e, "ssh.RegisterCommand") {
				continue
			}
			fl := c.fieldsOf(p, e.Args[0], e)
			n, ok := foldStr(fl["Name"])
			if !ok {
				continue
			}
			b := &builtin{name: n, at: where(c, e)}
			if t := strip(fl["ExecFunc"]); t != nil {
				b.exec, _ = t.Aux.(*ssa.Function)
			}
			if t := strip(fl["OptionsFunc"]); t != nil {
				b.options, _ = t.Aux.(*ssa.Function)
			}
			r[n] = b
		}
	}
	return r
}

func registry(c *Ctx) {
	c.registration()
	bs := c.builtinCommands()
	for _, n := range []string{"help", "ls"} {
		b := bs[n]
		if !c.check("built in", n, "-", b != nil && b.exec != nil, "the command %s is not registered when the control interface is loaded", n) {
			continue
		}
	}
	if b := bs["help"]; b != nil && b.exec != nil {
		c.helpAll(b.exec)
		c.helpOne(b.exec)
		if c.check("options", "help", b.at, b.options != nil, "the arguments of help cannot be completed") {
			c.helpOptions(b.options)
		}
	}
	if b := bs["ls"]; b != nil && b.exec != nil {
		c.lsSongs(b.exec)
		if c.check("options", "ls", b.at, b.options != nil, "the arguments of ls cannot be completed") {
			c.offered("ls", b.options, "util.ListAllSubDirs", false)
		}
	}
	c.queueOptions()
	c.delegates()
	c.include("K03", either(rules("lookup"), both(rules("run"), about("named"))))
}

// isCommands: t is the list of registered commands (or a copy of all of it).
func isCommands(t *Term) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if isGlobalLoad(t, cmdsKey) {
		return true
	}
	if t.Op == "append" && t.Aux == "spread" && len(t.Args) == 2 {
		if n, ok := lenOf(t.Args[0]).intVal(); ok && n == 0 {
			return isCommands(t.Args[1])
		}
	}
	return false
}

// registration: registering adds the command and keeps all others.
func (c *Ctx) registration() {
	f := c.p.fn("ssh.RegisterCommand")
	if !c.check("registered", "RegisterCommand", "-", f != nil && len(f.Params) == 1, "commands cannot be registered") {
		return
	}
	cmd := mkParam(f, f.Params[0])
	n := 0
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true})) {
		n++
		at := c.at(f.Pos())
		var last *Ev
		for _, e := range p.Events() {
			if e.Kind == "store" && e.Addr != nil && isGlobalAddr(e.Addr, cmdsKey) {
				last = e
			}
		}
		if !c.check("registered", "added", at, last != nil, "a command can be left out") {
			continue
		}
		v := strip(last.Val)
		ok := v.Op == "append" && v.Aux != "spread" && len(v.Args) == 2 && isCommands(v.Args[0]) && strip(v.Args[1]) == cmd
		c.check("registered", "all", where(c, last), ok, "registering a command does not add it to those registered before")
		for _, e := range p.Events() {
			if isCall(e, "sort.Sort", "sort.Stable") {
				c.permutes(e)
			}
		}
	}
	c.check("registered", "some", c.at(f.Pos()), n > 0, "registering a command does not return")
	for _, in := range c.globalWrites(cmdsKey) {
		g := in.Parent()
		if g.Name() == "init" && g.Parent() == nil {
			continue
		}
		c.check("registered", fnName(g), c.at(in.Pos()), c.onlyVia(g, "ssh.RegisterCommand"), "%s changes the registered commands", fnName(g))
	}
}

// permutes: the type sorted only exchanges elements.
func (c *Ctx) permutes(by *Ev) {
	w := where(c, by)
	ci, _ := by.Instr.(ssa.CallInstruction)
	var t types.Type
	if ci != nil {
		for v := ci.Common().Args[0]; t == nil && v != nil; {
			switch y := v.(type) {
			case *ssa.MakeInterface:
				t = y.X.Type()
			case *ssa.ChangeInterface:
				v = y.X
			default:
				v = nil
			}
		}
	}
	if t == nil {
		return
	}
	sw, ln := c.method(t, "Swap"), c.method(t, "Len")
	if !c.check("sorted", "type", w, sw != nil && ln != nil && len(sw.Params) == 3, "how the commands are sorted is not known") {
		return
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return
	}
	for _, q := range rets(c.exploreFn(ln, opt{noSpawn: true})) {
		c.check("sorted", "Len", c.at(ln.Pos()), strip(q.Rets[0]) == lenOf(mkParam(ln, ln.Params[0])), "Len is not the number of commands")
	}
	for _, q := range rets(c.exploreFn(sw, opt{noSpawn: true})) {
		ok, note := segSwap(q, mkParam(sw, sw.Params[0]), mkParam(sw, sw.Params[1]), mkParam(sw, sw.Params[2]))
		c.check("sorted", "Swap", c.at(sw.Pos()), ok, "Swap does not exchange two commands: %s", note)
	}
}

// elemOf: t is field fld of the element it visits.
func elemFieldIs(t, addr *Term, fld string) bool {
	t = strip(t)
	if t.Op == "ld" && t.Args[0].Op == "faddr" {
		return t.Args[0].Args[0] == addr && fieldName(t.Args[0]) == fld
	}
	if t.Op == "fld" {
		x := strip(t.Args[0])
		return x.Op == "ld" && x.Args[0] == addr && selName(t) == fld
	}
	return false
}

// mentionsField: field fld of the element at addr is a part of t.
func mentionsField(t, addr *Term, fld string) bool {
	return t.find(func(x *Term) bool { return elemFieldIs(x, addr, fld) }) != nil
}

func argCount(f *ssa.Function) (args *Term, n *Term) {
	args = mkParam(f, f.Params[len(f.Params)-1])
	return args, lenOf(args)
}

// helpAll: without arguments every command is listed.
func (c *Ctx) helpAll(f *ssa.Function) {
	w := c.at(f.Pos())
	_, n := argCount(f)
	ps := c.exploreFn(f, opt{noSpawn: true})
	none := func(p *Path) bool { return p.St.pc.entailsLe(n, int0, 0) }
	var its []iter
	syms := map[*Term]bool{}
	for _, rt := range roundTrips(ps) {
		if !none(rt.Path) {
			continue
		}
		var v *iter
		for _, x := range visits(rt) {
			if x.Full && isCommands(x.Coll) {
				y := x
				v = &y
			}
		}
		if v == nil {
			continue
		}
		its = append(its, *v)
		added := 0
		check := func(val *Term, at *Ev) {
			added++
			c.check("help: name", fnName(f), where(c, at), mentionsField(val, v.Addr, "Name"), "a command is listed without its name")
			c.check("help: description", fnName(f), where(c, at), mentionsField(val, v.Addr, "Info"), "a command is listed without its description")
		}
		for _, m := range c.mapIters(rt) {
			check(m.Val, m.At)
			syms[m.Dst] = true
		}
		// a text which grows
		for i, s := range rt.Info.Sym {
			if nx := rt.Info.Next[i]; nx != nil && isString(s.Typ) && nx != s {
				parts := catParts(nx)
				if len(parts) > 1 && parts[0] == s {
					check(nx, v.At)
					syms[s] = true
				}
			}
		}
		for s, nx := range rt.Info.MNext {
			if nx != nil && s != nil && s.Typ != nil && isString(s.Typ) && nx != s {
				parts := catParts(nx)
				if len(parts) > 1 && parts[0] == s {
					check(nx, v.At)
					syms[s] = true
				}
			}
		}
		c.check("help: each", fnName(f), where(c, v.At), added == 1, "a registered command is listed %d times", added)
	}
	k := 0
	for _, p := range rets(ps) {
		if !none(p) {
			c.check("help: arguments", fnName(f), w, !p.St.pc.mayBe(n), "what help shows does not depend on whether it was given an argument")
			continue
		}
		k++
		ok := false
		for _, x := range exits(p.Events()) {
			if exhausted(its, p, x, nil) {
				ok = true
			}
		}
		c.check("help: complete", fnName(f), w, ok, "the list can be shown without all registered commands")
		got := p.Rets[0].find(func(x *Term) bool { return syms[x] }) != nil
		c.check("help: shown", fnName(f), w, got, "the registered commands found are not shown")
		for _, b := range []string{"clear", "exit"} {
			q := p.Rets[0].find(func(x *Term) bool { s, ok := x.strVal(); return ok && strings.Contains(s, b) })
			c.check("help: "+b, fnName(f), w, q != nil, "help does not list %s", b)
		}
		c.check("help: accepted", fnName(f), w, p.St.pc.entails(p.Rets[1]), "help without arguments is answered with its usage")
	}
	c.check("help: complete", fnName(f), w, k > 0 && len(its) > 0, "the registered commands are not listed one by one")
}

// mayBe: n can be 0 on this path.
func (pc *PC) mayBe(n *Term) bool { return !pc.entails(mkNot(mkEq(n, int0))) }

// helpOne: with the name of a command its description and usage are shown.
func (c *Ctx) helpOne(f *ssa.Function) {
	w := c.at(f.Pos())
	args, n := argCount(f)
	ps := c.exploreFn(f, opt{noSpawn: true})
	some := func(p *Path) bool { return p.St.pc.entails(mkNot(mkEq(n, int0))) }
	isArg := func(t *Term) bool {
		t = strip(t)
		return t.Op == "ld" && t.Args[0].Op == "iaddr" && strip(t.Args[0].Args[0]) == args && t.Args[0].Args[1] == int0
	}
	// what the conditions say about the name of the element at addr
	named := func(pc *PC, addr *Term) int {
		for _, pos := range []bool{true, false} {
			for _, q := range eqLits(pc, pos) {
				if isArg(q[0]) && elemFieldIs(q[1], addr, "Name") || isArg(q[1]) && elemFieldIs(q[0], addr, "Name") {
					if pos {
						return 1
					}
					return -1
				}
			}
		}
		return 0
	}
	its := allVisits(ps)
	var mine []iter
	for _, it := range its {
		if some(it.RT.Path) && isCommands(it.Coll) && (it.Full || it.Rev) {
			mine = append(mine, it)
		}
	}
	c.check("help on one: searched", fnName(f), w, len(mine) > 0, "the command is not looked for among the registered commands")
	// variables of the search which hold the command found
	holds := map[*Term]bool{}
	for _, it := range mine {
		li := it.RT.Info
		for i, s := range li.Sym {
			if _, ok := s.Typ.Underlying().(*types.Pointer); ok && li.Next[i] != nil {
				holds[s] = true
			}
		}
	}
	for _, it := range mine {
		li := it.RT.Info
		says := named(it.RT.Path.St.pc, it.Addr)
		changed := false
		for i, s := range li.Sym {
			if !holds[s] {
				continue
			}
			nx := strip(li.Next[i])
			if nx == s {
				continue
			}
			changed = true
			ok := false
			if nx == it.Addr {
				ok = true
			}
			if nx.Op == "alloc" {
				fl := c.fieldsOf(it.RT.Path, nx, it.RT.Evs[len(it.RT.Evs)-1])
				ok = fl["Name"] != nil && elemFieldIs(fl["Name"], it.Addr, "Name") && fl["Info"] != nil && elemFieldIs(fl["Info"], it.Addr, "Info") && fl["Usage"] != nil && elemFieldIs(fl["Usage"], it.Addr, "Usage")
			}
			c.check("help on one: found", fnName(f), where(c, it.At), ok && says > 0, "another command than the one asked for is found")
		}
		if !changed {
			c.check("help on one: passed over", fnName(f), where(c, it.At), says < 0, "the command asked for can be passed over")
		}
	}
	shown, usage := 0, false
	for _, p := range rets(ps) {
		if !some(p) {
			continue
		}
		c.check("help on one: accepted", fnName(f), w, p.St.pc.entails(p.Rets[1]), "help on a command is answered with its own usage")
		// which command is shown
		var src *Term
		what := map[string]bool{}
		p.Rets[0].find(func(x *Term) bool {
			if x.Op == "ld" && x.Args[0].Op == "faddr" && namedOf(x.Args[0].Args[0].Typ) == "ssh.Command" {
				src = x.Args[0].Args[0]
				what[fieldName(x.Args[0])] = true
			}
			return false
		})
		if src == nil {
			// not found: all were compared
			done := false
			for _, x := range exits(p.Events()) {
				done = done || exhausted(mine, p, x, nil)
			}
			lit := p.Rets[0].find(func(x *Term) bool { s, ok := x.strVal(); return ok && s != "" }) != nil
			c.check("help on one: not found", fnName(f), w, done && lit, "help answers without having compared all commands")
			for s := range holds {
				if p.St.pc.entails(mkNot(mkEq(s, mkNil(s.Typ)))) {
					c.fail("help on one: not found", fnName(f)+" found", w, "help does not show the command although it was found")
				}
			}
			continue
		}
		shown++
		ok := holds[src] && notNilAt(p.St.pc, src)
		for _, it := range mine {
			ok = ok || it.Addr == src && named(p.St.pc, it.Addr) > 0
		}
		if src.Op == "iaddr" && !ok {
			ok = isCommands(src.Args[0]) && named(p.St.pc, src) > 0
		}
		c.check("help on one: shown", fnName(f), w, ok, "another command than the one asked for is shown")
		c.check("help on one: description", fnName(f), w, what["Info"], "the description of the command is not shown")
		c.check("help on one: name", fnName(f), w, what["Name"], "the name of the command is not shown")
		// the usage may be left out only where there is none
		none := false
		for _, l := range p.St.pc.lits() {
			x := l.find(func(x *Term) bool {
				return x.Op == "ld" && elemFieldIs(x, src, "Usage") || x.Op == "fld" && elemFieldIs(x, src, "Usage")
			})
			none = none || x != nil && p.St.pc.entails(mkEq(lenOf(x), int0))
		}
		c.check("help on one: usage", fnName(f), w, what["Usage"] || none, "the usage of the command is not shown")
		usage = usage || what["Usage"]
	}
	c.check("help on one: usage", fnName(f), w, usage, "the usage of a command is never shown")
	c.check("help on one: shown", fnName(f), w, shown > 0, "help on a command never shows it")
}

// lsSongs: ls lists the songs of the directory.
func (c *Ctx) lsSongs(f *ssa.Function) {
	w := c.at(f.Pos())
	args, n := argCount(f)
	k := 0
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true, opaque: opaqueSet("util.FilterSongs", "util.ListAllFiles")})) {
		k++
		var list, songs *Ev
		for _, e := range p.Events() {
			switch {
			case isCall(e, "util.ListAllFiles"):
				list = e
			case isCall(e, "util.FilterSongs"):
				songs = e
			}
		}
		if !c.check("ls: songs", fnName(f), w, list != nil && songs != nil, "ls does not list the songs of the directory") {
			continue
		}
		c.check("ls: directory", fnName(f), where(c, list), isGlobalLoad(list.Args[0], "playback.AudioDir"), "another directory than the music directory is listed")
		sub := strip(list.Args[1])
		if s, ok := foldStr(sub); ok {
			c.check("ls: sub directory", fnName(f), where(c, list), s == "" && p.St.pc.entailsLe(n, int0, 0), "the directory given is not the one listed")
		} else {
			c.check("ls: sub directory", fnName(f), where(c, list), sub.Op == "ld" && sub.Args[0].Op == "iaddr" && strip(sub.Args[0].Args[0]) == args && sub.Args[0].Args[1] == int0, "the directory given is not the one listed")
		}
		r, _ := resOf(songs.Args[0])
		c.check("ls: songs", fnName(f)+" all", where(c, songs), r == list, "something else than the files of the directory is listed")
		t := strip(p.Rets[0])
		ok := isApp(t, "strings.Join") && len(t.Args) == 2
		if ok {
			r, _ := resOf(t.Args[0])
			sep, isSep := foldStr(t.Args[1])
			ok = r == songs && isSep && sep == "\n"
		}
		c.check("ls: shown", fnName(f), w, ok, "the songs found are not shown one per line")
		c.check("ls: accepted", fnName(f), w, p.St.pc.entails(p.Rets[1]), "ls is answered with its usage")
	}
	c.check("ls: songs", fnName(f), w, k > 0, "ls does not return")
}

// offered: an options function offers every element of a listing which continues what was typed.
func (c *Ctx) offered(name string, f *ssa.Function, listing string, songs bool) {
	w := c.at(f.Pos())
	var prefix, arg *Term
	for _, q := range f.Params {
		switch {
		case isString(q.Type()):
			prefix = mkParam(f, q)
		case types.Identical(q.Type(), types.Typ[types.Int]):
			arg = mkParam(f, q)
		}
	}
	if !c.check("options", name+" parameters", w, prefix != nil && arg != nil, "the options of %s do not depend on what was typed", name) {
		return
	}
	ps := c.exploreFn(f, opt{noSpawn: true, opaque: opaqueSet("util.FilterSongs", "util.ListAllFiles", "util.ListAllSubDirs")})
	first := func(p *Path) bool { return p.St.pc.entails(mkLt0(linOf(mkSub(arg, mkInt(1, arg.Typ), arg.Typ)))) }
	isList := func(t *Term) bool {
		e, _ := resOf(strip(t))
		if e == nil {
			return false
		}
		if songs {
			if !isCall(e, "util.FilterSongs") {
				return false
			}
			e, _ = resOf(strip(e.Args[0]))
			if e == nil {
				return false
			}
			if s, ok := foldStr(e.Args[len(e.Args)-1]); !ok || s != "" {
				return false
			}
		}
		return isCall(e, listing) && isGlobalLoad(e.Args[0], "playback.AudioDir")
	}
	c.offeredLoop(name, w, ps, first, prefix, isList, func(v iter, m mapIter) bool {
		parts := catParts(m.Val)
		if strip(parts[0]) != v.Elem {
			return false
		}
		if songs {
			return len(parts) == 1
		}
		if len(parts) == 2 {
			s, ok := foldStr(parts[1])
			return ok && s == "/"
		}
		return len(parts) == 1
	}, func(l *Term, v iter) bool {
		// deeper directories are left out
		if songs || l.Op == "eq" || l.Op == "eq0" {
			// nothing deeper, or no listing of directories
			return false
		}
		return l.find(func(x *Term) bool {
			return x.Op == "app" && strings.Contains(x.Aux.(string), "filepath.Split") || x.Op == "app" && (strings.HasPrefix(x.Aux.(string), "strings.Contains") || strings.HasPrefix(x.Aux.(string), "strings.Index") || strings.HasPrefix(x.Aux.(string), "strings.Count"))
		}) != nil && l.contains(v.Elem)
	}, func(v iter, t *Term) bool { return strip(t) == v.Elem })
}

// offeredLoop: every element of the source whose key continues the prefix is added to the result.
func (c *Ctx) offeredLoop(name, w string, ps []*Path, first func(*Path) bool, prefix *Term, src func(*Term) bool, val func(iter, mapIter) bool, reason func(*Term, iter) bool, key func(iter, *Term) bool) {
	var its []iter
	syms := map[*Term]bool{}
	for _, rt := range roundTrips(ps) {
		if !first(rt.Path) {
			continue
		}
		var v *iter
		for _, x := range visits(rt) {
			if x.Full && src(x.Coll) {
				y := x
				v = &y
			}
		}
		if v == nil {
			continue
		}
		its = append(its, *v)
		added := 0
		for _, m := range c.mapIters(rt) {
			added++
			c.check("options: value", name, where(c, m.At), val(*v, m), "something else than the element is offered")
			syms[m.Dst] = true
		}
		if added == 0 {
			ok := inLits(rt.Path.St.pc, false, func(l *Term) bool {
				return isApp(l, "strings.HasPrefix") && key(*v, l.Args[0]) && strip(l.Args[1]) == prefix
			})
			for _, l := range rt.Path.St.pc.lits() {
				ok = ok || reason(l, *v)
			}
			c.check("options: left out", name, where(c, v.At), ok, "an option which continues what was typed can be left out")
		}
	}
	k := 0
	for _, p := range rets(ps) {
		if !first(p) {
			c.check("options: other arguments", name, w, p.St.pc.entails(mkNot(mkEq(argNumber(p), int0))) && p.St.pc.entails(mkEq(lenOf(p.Rets[0]), int0)), "options are offered for other arguments, or none for the first")
			continue
		}
		k++
		ok := false
		for _, x := range exits(p.Events()) {
			ok = ok || exhausted(its, p, x, nil)
		}
		got := p.Rets[0].find(func(x *Term) bool { return syms[x] }) != nil
		c.check("options: complete", name, w, ok && got, "the options can be offered without having looked at all elements")
	}
	c.check("options: complete", name, w, k > 0 && len(its) > 0, "the options are not collected from all elements")
}

// argNumber: the number of the argument which is completed.
func argNumber(p *Path) *Term {
	f := p.Root.Fn
	for _, q := range f.Params {
		if types.Identical(q.Type(), types.Typ[types.Int]) {
			return mkParam(f, q)
		}
	}
	return int0
}

func (c *Ctx) helpOptions(f *ssa.Function) {
	w := c.at(f.Pos())
	var prefix *Term
	for _, q := range f.Params {
		if isString(q.Type()) {
			prefix = mkParam(f, q)
		}
	}
	ps := c.exploreFn(f, opt{noSpawn: true})
	first := func(p *Path) bool {
		a := argNumber(p)
		return p.St.pc.entails(mkLt0(linOf(mkSub(a, mkInt(1, a.Typ), a.Typ))))
	}
	nameOf := func(v iter, t *Term) bool { return elemFieldIs(t, v.Addr, "Name") }
	c.offeredLoop("help", w, ps, first, prefix, isCommands, func(v iter, m mapIter) bool { return elemFieldIs(m.Val, v.Addr, "Name") },
		func(*Term, iter) bool { return false }, nameOf)
	// clear and exit are there from the beginning, or are added at the end
	for _, p := range rets(ps) {
		if !first(p) {
			continue
		}
		for _, b := range []string{"clear", "exit"} {
			is := func(x *Term) bool { s, ok := x.strVal(); return ok && s == b }
			ok := p.Rets[0].find(is) != nil
			for _, x := range exits(p.Events()) {
				li := x.Aux.(*LoopInfo)
				for i, s := range li.Sym {
					if p.Rets[0].find(func(x *Term) bool { return x == s }) == nil || li.Init[i] == nil {
						continue
					}
					if l, known := c.elems(p.St, li.Init[i], 0); known {
						for _, y := range l {
							ok = ok || is(strip(y))
						}
					}
					ok = ok || li.Init[i].find(is) != nil
					for _, e := range p.Events() {
						if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "iaddr" && e.Val != nil && is(strip(e.Val)) && e.N < x.N && li.Init[i].find(func(y *Term) bool { return y == e.Addr.Args[0] }) != nil {
							ok = true
						}
					}
				}
			}
			c.check("options: "+b, "help", w, ok, "help does not offer %s", b)
		}
	}
}

// queueOptions: queue offers every song.
func (c *Ctx) queueOptions() {
	n := 0
	for _, fn := range c.p.fns {
		if c.p.pkgRel(fn) != "schedule" || fn.Signature.Results().Len() != 1 || namedOf(fn.Signature.Results().At(0).Type()) != "ssh.Command" {
			continue
		}
		for _, p := range rets(c.exploreFn(fn, opt{noSpawn: true, init: nonNilParams})) {
			fl := c.fieldsOf(p, p.Rets[0], nil)
			if s, ok := foldStr(fl["Name"]); !ok || s != "queue" {
				continue
			}
			n++
			t := strip(fl["OptionsFunc"])
			if !c.check("options", "queue", c.at(fn.Pos()), t != nil && (t.Op == "closure" || t.Op == "func"), "the argument of queue cannot be completed") {
				continue
			}
			if g, ok := t.Aux.(*ssa.Function); ok {
				c.offered("queue", unbound(g), "util.ListAllFiles", true)
			}
		}
	}
	c.check("options", "queue found", "-", n > 0, "there is no command queue")
}

// delegates: running a command and completing its arguments use its own functions.
func (c *Ctx) delegates() {
	for _, m := range [][2]string{{"Exec", "ExecFunc"}, {"Options", "OptionsFunc"}} {
		f := c.p.fn("(ssh.Command)." + m[0])
		if !c.check("own function", m[0], "-", f != nil, "a command has no method %s", m[0]) {
			continue
		}
		k := 0
		for _, p := range rets(c.exploreFn(f, opt{noSpawn: true})) {
			at := c.at(f.Pos())
			recv := mkParam(f, f.Params[0])
			var ds []*Ev
			for _, e := range p.Events() {
				if e.Kind == "call" && e.Name == "dynamic" {
					ds = append(ds, e)
				}
			}
			own := fieldNamed(recv, m[1])
			if len(ds) == 0 && m[0] == "Options" {
				c.check("own function", "no options", at, own != nil && nilAt(p.St.pc, own) && p.St.pc.entails(mkEq(lenOf(p.Rets[0]), int0)), "a command's own options can be left out")
				continue
			}
			k++
			ok := len(ds) == 1 && strip(ds[0].Args[0]) == own && len(ds[0].Args) == len(f.Params)
			for i := 1; ok && i < len(f.Params); i++ {
				ok = ds[0].Args[i] == mkParam(f, f.Params[i])
			}
			for i, r := range p.Rets {
				e, j := resOf(r)
				ok = ok && len(ds) == 1 && e == ds[0] && (len(p.Rets) == 1 || j == i)
			}
			c.check("own function", m[0], at, ok, "%s does not return what the command's own function returns for the arguments given", m[0])
		}
		c.check("own function", m[0], c.at(f.Pos()), k > 0, "the command's own function is never used")
	}
}
