package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "K06", Title: "Completing a line continues what was typed, and offers everything which does",
		Statement: "A completion request offers the remaining text of exactly those command names (while a command is typed: clear, exit and every registered command) or of those options of the command typed (while a parameter is typed), which start with what was typed before the cursor; what it offers, put behind what was typed, is the name or the command with that option, correctly escaped. It never reports more characters as already typed than there are before the cursor.",
		Over:      []string{"inputs"}, Quant: "all lines, cursor positions, registered commands and options", Why: "Tests complete some prefixes without spaces, escapes or text behind the cursor.",
		Files:     []string{"ssh/auto_completer.go", "ssh/command.go"},
		Mech:      [][2]string{{"completion", "sshAutoCompleter.Do"}, {"names", "sshAutoCompleter.commandNames"}, {"options", "sshAutoCompleter.commandArgOptionsWithPrefix, filterByPrefix, Command.Options"}},
		Technique: absTech + "; every candidate added is decomposed into the completed command and the cut, and every iteration which adds none is shown to have a reason", Run: completion,
	})
}

const (
	acDo    = "(*ssh.sshAutoCompleter).Do"
	parse   = "ssh/parser.ParseCommand"
	unparse = "(ssh/parser.ParsedCommand).Unparse"
)

// inLits: a literal of pc (pos) or the negation of one (!pos) satisfies is.
func inLits(pc *PC, pos bool, is func(*Term) bool) bool {
	for _, l := range pc.lits() {
		if pos && is(l) || !pos && l.Op == "not" && is(l.Args[0]) {
			return true
		}
	}
	return false
}

func completion(c *Ctx) {
	f := c.p.fn(acDo)
	paths := c.explore(acDo, opt{noSpawn: true, opaque: func(f *ssa.Function) bool {
		n := fnName(f)
		return n == parse || n == unparse || n == "(ssh.Command).Options" || isLookup(f)
	}})
	if f == nil {
		return
	}
	w := c.at(f.Pos())
	var line, pos *Term
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			line = mkParam(f, p)
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				pos = mkParam(f, p)
			}
		}
	}
	if line == nil || pos == nil {
		c.fail("anchor", acDo, w, "%s has other parameters", acDo)
		return
	}
	// the text before the cursor
	before := func(pc *PC, t *Term) bool {
		if t == nil || t.Op != "conv" || len(t.Args) != 1 {
			return false
		}
		root, lo, hi := viewOf(t.Args[0])
		return root == line && pc.entails(mkEq(lo, int0)) && pc.entails(mkEq(hi, pos))
	}
	spaceLast := func(l *Term) bool {
		if isApp(l, "strings.HasSuffix") {
			s, ok := l.Args[1].strVal()
			return ok && s == " " && l.Args[0].Op == "conv"
		}
		for _, q := range [][2]int{{0, 1}, {1, 0}} {
			if l.Op == "eq" && len(l.Args) == 2 {
				n, ok := l.Args[q[0]].intVal()
				x := l.Args[q[1]]
				if ok && n == ' ' && x.Op == "ld" && x.Args[0].Op == "iaddr" {
					root, lo, _ := viewOf(x.Args[0].Args[0])
					return root == line && sameInt(add2(lo, x.Args[0].Args[1]), sub2(pos, int1))
				}
			}
		}
		if l.Op == "eq0" {
			lf := linOf(l.Args[0])
			if as := lf.atoms(); len(as) == 1 && (lf.C == -' ' && lf.Coefs[as[0]] == 1 || lf.C == ' ' && lf.Coefs[as[0]] == -1) {
				x := as[0]
				if x.Op == "conv" {
					x = x.Args[0]
				}
				if x.Op == "ld" && x.Args[0].Op == "iaddr" {
					root, lo, _ := viewOf(x.Args[0].Args[0])
					return root == line && sameInt(add2(lo, x.Args[0].Args[1]), sub2(pos, int1))
				}
			}
		}
		return false
	}

	// typed: the parsed command as it was typed
	type cmd struct{ name, params, parsed *Term }
	typed := func(p *Path) (k cmd, ok bool) {
		ps := calls(p.Events(), parse)
		if !c.check("parsed", "once", w, len(ps) == 1, "the line is parsed %d times", len(ps)) {
			return
		}
		c.check("parsed", "before the cursor", where(c, ps[0]), before(ps[0].PC, ps[0].Args[0]), "something else than the text before the cursor is completed")
		return cmd{parsed: ps[0].Res}, true
	}
	isField := func(t, of *Term, name string) bool {
		b, n := fieldOf(t)
		return b == of && n == name
	}
	// isTyped: a parsed command with the fields of the one typed (with an empty parameter if a space ends it)
	params := func(p *Path, k cmd, t *Term) bool {
		sp := inLits(p.St.pc, true, spaceLast)
		no := inLits(p.St.pc, false, spaceLast) || p.St.pc.entailsLe(pos, int0, 0)
		if isField(t, k.parsed, "Parameters") {
			return no
		}
		if t != nil && t.Op == "append" && t.Aux != "spread" && len(t.Args) == 2 && isField(t.Args[0], k.parsed, "Parameters") {
			s, ok := t.Args[1].strVal()
			return sp && ok && s == ""
		}
		return false
	}
	cut := func(p *Path, k cmd, lo *Term) bool {
		e, _ := resOf(unparsedLen(lo))
		if e == nil || e.Name != unparse {
			return false
		}
		u := map[string]*Term{"Command": fieldNamed(e.Args[0], "Command"), "Parameters": fieldNamed(e.Args[0], "Parameters")}
		return isField(u["Command"], k.parsed, "Command") && params(p, k, u["Parameters"])
	}
	full := func(rt roundTrip, is func(v iter) bool) *iter {
		vs := visits(rt)
		for i := range vs {
			if vs[i].Full && is(vs[i]) {
				return &vs[i]
			}
		}
		return nil
	}

	rts := roundTrips(paths)
	// filtered lists: the options of the command starting with the parameter typed
	isOptions := func(t *Term) (*Ev, bool) {
		e, _ := resOf(t)
		return e, e != nil && e.Name == "(ssh.Command).Options"
	}
	lastParam := func(p *Path, k cmd, e *Ev) (ps *Term, ok bool) {
		pc := p.St.pc
		arg, n := e.Args[1], e.Args[2]
		if arg.Op == "ld" && arg.Args[0].Op == "iaddr" {
			ps = arg.Args[0].Args[0]
			return ps, params(p, k, ps) && pc.entails(mkEq(arg.Args[0].Args[1], n)) && pc.entails(mkEq(n, sub2(lenOf(ps), int1)))
		}
		if s, is := arg.strVal(); is && s == "" {
			return nil, inLits(pc, true, spaceLast) && pc.entails(mkEq(n, lenOf(fieldNamed(k.parsed, "Parameters"))))
		}
		return nil, false
	}
	prefix := func(o, of *Term) func(l *Term) bool {
		return func(l *Term) bool {
			return isApp(l, "strings.HasPrefix") && strip(l.Args[0]) == strip(o) && l.Args[1] == of
		}
	}
	// source of an option: the Options call it comes from, and whether it was filtered already
	type source struct {
		ev       *Ev   // the call of Options; nil: the names of all commands
		on       *Term // what they start with, if they were filtered
		filtered bool
	}
	// names: the list of all command names
	names := func(t *Term) bool {
		lit := map[string]bool{}
		take := func(ts []*Term) bool {
			for _, x := range ts {
				s, ok := x.strVal()
				if !ok || lit[s] {
					return false
				}
				lit[s] = true
			}
			return true
		}
		for t != nil && t.Op == "append" && t.Aux != "spread" {
			if !take(t.Args[1:]) {
				return false
			}
			t = t.Args[0]
		}
		ok := false
		for _, rt := range rts {
			for i, s := range rt.Info.Sym {
				if s != t {
					continue
				}
				if !ok {
					in, known := c.elems(rt.Path.St, rt.Info.Init[i], 0)
					if !known || !take(in) {
						return false
					}
					ok = true
				}
				v := full(rt, func(v iter) bool { return isCommandElem(v.Addr) })
				if v == nil {
					return false
				}
				nx := rt.Info.Next[i]
				if nx == nil || nx.Op != "append" || nx.Aux == "spread" || len(nx.Args) != 2 || nx.Args[0] != s || !nameOfElem(nx.Args[1], v) {
					return false
				}
			}
		}
		return ok && len(lit) == 2 && lit["clear"] && lit["exit"]
	}
	from := func(t *Term) (s source, ok bool) {
		if e, is := isOptions(t); is {
			return source{ev: e}, true
		}
		if names(t) {
			return source{}, true
		}
		all := func(coll *Term) (source, bool) {
			if e, is := isOptions(coll); is {
				return source{ev: e, on: e.Args[1], filtered: true}, true
			}
			return source{filtered: true}, names(coll)
		}
		for _, rt := range rts {
			for _, m := range c.mapIters(rt) {
				if !m.Grown || m.Dst != t {
					continue
				}
				v := full(rt, func(v iter) bool { _, is := all(v.Coll); return is && m.Val == v.Elem })
				if v == nil || !m.Full {
					return s, false
				}
				s, _ = all(v.Coll)
				for _, l := range rt.Path.St.pc.lits() {
					if s.on == nil && isApp(l, "strings.HasPrefix") && strip(l.Args[0]) == strip(v.Elem) {
						s.on = l.Args[1]
					}
				}
				if s.on == nil || !inLits(rt.Path.St.pc, true, prefix(v.Elem, s.on)) {
					return s, false
				}
				ok = true
				// and nothing else is left out of the list
				for _, o := range rts {
					if !sameLoop(o.Info, rt.Info) {
						continue
					}
					grows := false
					for _, mm := range c.mapIters(o) {
						grows = grows || mm.Grown && mm.Dst == t
					}
					if grows {
						continue
					}
					for _, ov := range visits(o) {
						os, is := all(ov.Coll)
						if os.on == nil {
							os.on = s.on
						}
						if is && !inLits(o.Path.St.pc, false, prefix(ov.Elem, os.on)) {
							c.fail("left out", "candidate", c.at(o.Fn.Pos()), "a completion which starts with what was typed can be left out")
						}
					}
				}
			}
		}
		return
	}
	its := allVisits(paths)

	cand := map[*LoopInfo]bool{}
	isCand := func(li *LoopInfo) bool {
		for k := range cand {
			if sameLoop(k, li) {
				return true
			}
		}
		return false
	}
	listOfRunes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		s2, ok := s.Elem().Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s2.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	}
	for _, rt := range rts {
		for _, m := range c.mapIters(rt) {
			if m.Grown && listOfRunes(m.Dst.Typ) {
				cand[rt.Info] = true
			}
		}
	}
	// the options of a command are what its OptionsFunc answers
	if g := c.p.fn("(ssh.Command).Options"); g != nil {
		cm, args := mkParam(g, g.Params[0]), g.Params[1:]
		fn := fieldNamed(cm, "OptionsFunc")
		n := 0
		for _, p := range rets(c.explore(fnName(g), opt{noSpawn: true})) {
			at := c.at(g.Pos())
			if e, i := resOf(p.Rets[0]); e != nil && i < 0 {
				n++
				ok := e.Name == "dynamic" && len(e.Args) == len(args)+1 && e.Args[0] == fn
				for j := range args {
					ok = ok && e.Args[j+1] == mkParam(g, args[j])
				}
				c.check("options function", "called", at, ok, "the options of a command are not those its OptionsFunc gives for the parameter")
				continue
			}
			c.check("options function", "none", at, p.St.pc.entailsLe(lenOf(p.Rets[0]), int0, 0) && nilAt(p.St.pc, fn), "a command can have no options although it has an OptionsFunc")
		}
		c.check("options function", "used", c.at(g.Pos()), n > 0, "the OptionsFunc of a command is never called")
	}
	kinds := map[string]int{}
	for _, rt := range rts {
		if !isCand(rt.Info) {
			continue
		}
		p := rt.Path
		pc := p.St.pc
		k, ok := typed(p)
		if !ok {
			continue
		}
		k.name = fieldNamed(k.parsed, "Command")
		var added []mapIter
		for _, m := range c.mapIters(rt) {
			if m.Grown && listOfRunes(m.Dst.Typ) {
				added = append(added, m)
			}
		}
		if len(added) > 1 {
			c.fail("once", "candidates", where(c, added[1].At), "a completion can be offered twice")
			continue
		}
		// what is completed by this iteration
		var elem *Term
		var src source
		kind := ""
		v := full(rt, func(v iter) bool {
			s, ok := from(v.Coll)
			if ok {
				kind, src = "option", s
				if s.ev == nil {
					kind = "name"
				}
			}
			return ok
		})
		at := c.at(rt.Fn.Pos())
		if len(added) == 1 {
			at = where(c, added[0].At)
		}
		if !c.check("source", "candidates", at, v != nil, "the completions offered are not made from all command names or all options of the command, one by one") {
			continue
		}
		elem = v.Elem
		kinds[kind]++
		noParams := pc.entailsLe(lenOf(fieldNamed(k.parsed, "Parameters")), int0, 0)
		noSpace := inLits(pc, false, spaceLast) || pc.entailsLe(pos, int0, 0)
		var starts func(l *Term) bool
		known := false
		if kind == "name" {
			c.check("kind", "name", at, noParams && noSpace, "command names can be offered when a parameter is typed")
			starts = prefix(elem, k.name)
			known = src.filtered && src.on == k.name
		} else {
			c.check("kind", "option", at, inLits(pc, true, spaceLast) || pc.entails(mkNot(mkEq(lenOf(fieldNamed(k.parsed, "Parameters")), int0))) || pc.entailsLe(int1, lenOf(fieldNamed(k.parsed, "Parameters")), 0), "options can be offered while the command is typed")
			_, lp := lastParam(p, k, src.ev)
			c.check("options of", "parameter", where(c, src.ev), lp, "the options of another parameter than the one typed are offered")
			c.check("options of", "command", where(c, src.ev), c.ofCommand(p, src.ev.Args[0], k.name), "the options of another command than the one typed are offered")
			starts = prefix(elem, src.ev.Args[1])
			known = src.filtered
		}
		if len(added) == 0 {
			short := inLits(pc, true, func(l *Term) bool { return tooShort(l, false) }) || inLits(pc, false, func(l *Term) bool { return tooShort(l, true) })
			c.check("left out", kind, at, inLits(pc, false, starts) || short, "a %s which starts with what was typed can be left out", kind)
			continue
		}
		c.check("starts with", kind, at, known || inLits(pc, true, starts), "a %s is offered which does not start with what was typed", kind)
		root, lo, hi := viewOf(added[0].Val)
		if !c.check("text", kind, at, root != nil && root.Op == "conv" && pc.entails(mkEq(hi, lenOf(root))), "something else than the rest of the completed command is offered") {
			continue
		}
		c.check("cut", kind, at, cut(p, k, lo), "what is offered does not start where the text typed ends")
		text := root.Args[0]
		if kind == "name" {
			ok := text.Op == "cat" && len(text.Args) == 2 && strip(text.Args[0]) == elem
			if ok {
				s, is := text.Args[1].strVal()
				ok = is && s == " "
			}
			if e, _ := resOf(text); e != nil && e.Name == unparse { // a command without parameters
				u := map[string]*Term{"Command": fieldNamed(e.Args[0], "Command"), "Parameters": fieldNamed(e.Args[0], "Parameters")}
				ok = u["Command"] == elem && pc.entailsLe(lenOf(u["Parameters"]), int0, 0)
			}
			c.check("text", kind, at, ok, "something else than the command name is offered")
			continue
		}
		e, _ := resOf(text)
		if !c.check("text", kind, at, e != nil && e.Name == unparse, "something else than the command with the option is offered") {
			continue
		}
		u := map[string]*Term{"Command": fieldNamed(e.Args[0], "Command"), "Parameters": fieldNamed(e.Args[0], "Parameters")}
		c.check("text", "command", at, isField(u["Command"], k.parsed, "Command"), "another command than the one typed is offered")
		ps := u["Parameters"]
		okP := false
		if params(p, k, ps) {
			// in place: the last parameter holds the option when the command is unparsed
			for _, ev := range p.Events() {
				if ev == e {
					break
				}
				if ev.Kind == "store" && ev.Addr != nil && ev.Addr.Op == "iaddr" && ev.Addr.Args[0] == ps {
					okP = ev.Val == elem && pc.entails(mkEq(ev.Addr.Args[1], sub2(lenOf(ps), int1)))
				}
			}
		} else if ps != nil && ps.Op == "append" && ps.Aux != "spread" && len(ps.Args) == 2 && ps.Args[1] == elem {
			r, lo, hi := viewOf(ps.Args[0])
			if x := ps.Args[0]; x.Op == "append" && x.Aux == "spread" && len(x.Args) == 2 {
				if n, is := lenOf(x.Args[0]).intVal(); is && n == 0 {
					r, lo, hi = viewOf(x.Args[1])
				}
			}
			okP = params(p, k, r) && pc.entails(mkEq(lo, int0)) && pc.entails(mkEq(hi, sub2(lenOf(r), int1)))
		}
		c.check("text", "parameters", at, okP, "what is offered is not the command typed with its last parameter completed to the option")
	}
	c.check("kinds", "name", w, kinds["name"] > 0, "command names are never completed")
	c.check("kinds", "option", w, kinds["option"] > 0, "parameters are never completed")

	for _, p := range rets(paths) {
		k, ok := typed(p)
		if !ok || len(p.Rets) != 2 {
			continue
		}
		pc := p.St.pc
		c.check("length", "Do", w, pc.entailsLe(int0, p.Rets[1], 0) && pc.entailsLe(p.Rets[1], pos, 0), "more characters are reported as typed than there are before the cursor")
		// complete
		done := false
		for _, x := range exits(p.Events()) {
			li := x.Aux.(*LoopInfo)
			c.check("complete", "loops", where(c, x), exhausted(its, p, x, nil), "not all names and options are looked at")
			if isCand(li) {
				for _, s := range li.Sym {
					done = done || s == p.Rets[0]
				}
			}
		}
		empty := pc.entailsLe(lenOf(p.Rets[0]), int0, 0)
		reason := false
		for _, e := range p.Events() {
			if e.Kind != "call" || e.Callee == nil || !isLookup(e.Callee) {
				continue
			}
			reason = reason || nilAt(pc, e.Res) && isField(e.Args[0], k.parsed, "Command")
		}
		for _, e := range calls(p.Events(), "(ssh.Command).Options") {
			reason = reason || pc.entailsLe(lenOf(e.Res), int0, 0)
		}
		c.check("complete", "result", w, done || empty && reason, "the result can be something else than the completions found")
	}
}

// unparsedLen: lo is the number of characters of a string without the one space at its end.
func unparsedLen(lo *Term) *Term {
	text := func(t *Term) *Term {
		if t.Op == "len" && t.Args[0].Op == "conv" {
			return t.Args[0].Args[0]
		}
		if isApp(t, "unicode/utf8.RuneCountInString") {
			return t.Args[0]
		}
		return nil
	}
	if t := text(lo); t != nil {
		if isApp(t, "strings.TrimSuffix") {
			if s, ok := t.Args[1].strVal(); ok && s == " " {
				return t.Args[0]
			}
		}
		return nil
	}
	if l := linOf(lo); l.C == -1 {
		if as := l.atoms(); len(as) == 1 && l.Coefs[as[0]] == 1 {
			return text(as[0])
		}
	}
	return nil
}

// sameInt: a and b are the same linear expression.
func sameInt(a, b *Term) bool {
	d := linOf(sub2(a, b))
	return d.C == 0 && len(d.atoms()) == 0
}

// viewOf: t is root[lo:hi].
func viewOf(t *Term) (root, lo, hi *Term) {
	t = strip(t)
	if t == nil {
		return nil, int0, int0
	}
	if t.Op == "slice" {
		return t.Args[0], t.Args[1], t.Args[2]
	}
	return t, int0, lenOf(t)
}

// fieldNamed: field name of a struct value.
func fieldNamed(v *Term, name string) *Term {
	st, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(v, i, st.Field(i).Type())
		}
	}
	return nil
}

// tooShort: the literal (or its negation) says that a completed text is not longer than the text typed.
func tooShort(l *Term, neg bool) bool {
	if l.Op != "lt0" {
		return false
	}
	lf := linOf(l.Args[0]) // lf < 0; negated: lf >= 0, that is -lf-1 < 0
	if neg {
		lf = linOf(mkAdd(mkSub(int0, l.Args[0], nil), mkInt(-1, nil), nil))
	}
	if lf.C != 0 && lf.C != -1 {
		return false
	}
	as := lf.atoms()
	if len(as) != 2 {
		return false
	}
	for i, a := range as {
		b := as[1-i]
		if a.Op == "len" && a.Args[0].Op == "conv" && lf.Coefs[a] == 1 && lf.Coefs[b] == -1 && unparsedLen(b) != nil {
			return true
		}
		// the cut is the length of the unparsed command without its last character
		if a.Op == "len" && lf.Coefs[a] == 1 && lf.Coefs[b] == -1 && unparsedLen(add2(b, mkInt(-1, nil))) != nil {
			return true
		}
	}
	return false
}

// ofCommand: t is the command found under the name.
func (c *Ctx) ofCommand(p *Path, t, name *Term) bool {
	t = strip(t)
	var at *Term
	switch t.Op {
	case "ld":
		at = t.Args[0]
	case "struct":
		for _, x := range t.Args {
			b, _ := fieldOf(x)
			if b == nil || at != nil && b != at {
				return false
			}
			at = b
		}
	}
	if at == nil {
		return false
	}
	e, _ := resOf(at)
	return e != nil && e.Callee != nil && isLookup(e.Callee) && e.Args[0] == name && notNilAt(p.St.pc, at)
}

// isLookup: f finds a command by its name.
func isLookup(f *ssa.Function) bool {
	if f.Pkg == nil || short(f.Pkg.Pkg.Path()) != "ssh" || f.Signature.Recv() != nil {
		return false
	}
	in, out := f.Signature.Params(), f.Signature.Results()
	return in.Len() == 1 && types.Identical(in.At(0).Type(), types.Typ[types.String]) && out.Len() == 1 && namedOf(out.At(0).Type()) == "ssh.Command"
}

// nameOfElem: t is field Name of the element visited by v.
func nameOfElem(t *Term, v *iter) bool {
	b, n := fieldOf(t)
	return n == "Name" && (b == v.Elem || b == v.Addr)
}
