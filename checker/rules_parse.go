package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "K07", Title: "Lines are split into command and parameters, and unparsing escapes everything parsing unescapes",
		Statement: "Parsing a line collects, in order, the command and every non-empty parameter, each made of the last character of every (possibly escaped) character read since it began, without surrounding white space. Unparsing a command writes the command and all its parameters in order, separated and followed by one space each, with every character which is special to the lexer escaped - so parsing what was unparsed gives the same command.",
		Over:      []string{"inputs"}, Quant: "all lines and commands", Why: "Tests parse some lines; whether every special character is escaped wherever it may occur is a matter of all strings.",
		Files:     []string{"ssh/parser/parser.go", "ssh/parser/shell_parser/shell_lexer.go"},
		Mech:      [][2]string{{"parsing", "ParseCommand"}, {"listener", "shellListener"}, {"unparsing", "ParsedCommand.Unparse"}, {"special characters", "lexerLiteralNames"}},
		Technique: absTech + "; the special characters are read from the literals of the generated lexer", Note: "The generated lexer and parser (from Shell.g4) and the antlr runtime are trusted.", Run: parseRule,
	})
}

// lexerLiterals: the characters with a meaning of their own, from the string literals of the generated lexer.
func (c *Ctx) lexerLiterals() []string {
	var r []string
	pkg := c.p.by["ssh/parser/shell_parser"]
	if pkg == nil {
		return nil
	}
	in := pkg.Func("init")
	if in == nil {
		return nil
	}
	// stores into the array behind lexerLiteralNames
	arrays := map[ssa.Value]bool{}
	for _, b := range in.Blocks {
		for _, x := range b.Instrs {
			st, ok := x.(*ssa.Store)
			if !ok {
				continue
			}
			if g, ok := st.Addr.(*ssa.Global); ok && strings.HasPrefix(strings.ToLower(g.Name()), "lexerliteralnames") {
				if sl, ok := st.Val.(*ssa.Slice); ok {
					arrays[sl.X] = true
				}
			}
		}
	}
	for _, b := range in.Blocks {
		for _, x := range b.Instrs {
			st, ok := x.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !arrays[ia.X] {
				continue
			}
			k, ok := st.Val.(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			if k.Value.Kind() != constant.String {
				continue
			}
			s := constant.StringVal(k.Value)
			if len(s) >= 3 && s[0] == '\'' && s[len(s)-1] == '\'' {
				r = append(r, s[1:len(s)-1])
			}
		}
	}
	return r
}

// carried: sym is changed by a loop; what it is at first, and after each way through the loop, with what that visits.
func (c *Ctx) carried(ps []*Path, sym *Term) (init *Term, next []*Term, vs [][]iter) {
	for _, rt := range roundTrips(ps) {
		if in, nx := rt.Info.flow(sym); in != nil && nx != nil {
			init = in
			next = append(next, nx)
			vs = append(vs, visits(rt))
		}
	}
	return
}

// replacements: the pairs of texts a strings.Replacer was made with.
func replacements(p *Prog, t *Term) (pairs []string, ok bool) {
	t = strip(t)
	if e, _ := resOf(t); e != nil && e.Name == "strings.NewReplacer" {
		for _, a := range e.Var {
			s, is := a.strVal()
			if !is {
				return nil, false
			}
			pairs = append(pairs, s)
		}
		return pairs, e.HasVar
	}
	// a package variable which is only set when the package is initialised
	if t.Op != "ld" || t.Args[0].Op != "global" {
		return nil, false
	}
	g := t.Args[0].Aux.(*ssa.Global)
	var call *ssa.Call
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, is := in.(*ssa.Store)
				if !is || st.Addr != g {
					continue
				}
				if call != nil || f.Name() != "init" {
					return nil, false
				}
				if call, is = st.Val.(*ssa.Call); !is {
					return nil, false
				}
			}
		}
	}
	if call == nil || call.Call.StaticCallee() == nil || fnName(call.Call.StaticCallee()) != "strings.NewReplacer" || len(call.Call.Args) != 1 {
		return nil, false
	}
	sl, is := call.Call.Args[0].(*ssa.Slice)
	if !is {
		return nil, false
	}
	al, is := sl.X.(*ssa.Alloc)
	if !is {
		return nil, false
	}
	m := map[int64]string{}
	for _, r := range *al.Referrers() {
		ia, is := r.(*ssa.IndexAddr)
		if !is {
			continue
		}
		k, is := ia.Index.(*ssa.Const)
		if !is {
			return nil, false
		}
		for _, r := range *ia.Referrers() {
			if st, is := r.(*ssa.Store); is {
				v, is := st.Val.(*ssa.Const)
				if !is || v.Value == nil || v.Value.Kind() != constant.String {
					return nil, false
				}
				m[k.Int64()] = constant.StringVal(v.Value)
			}
		}
	}
	for i := int64(0); i < int64(len(m)); i++ {
		s, is := m[i]
		if !is {
			return nil, false
		}
		pairs = append(pairs, s)
	}
	return pairs, true
}

// escaped: t is the text x with each of the characters replaced by itself behind a backslash.
func (c *Ctx) escaped(t *Term, special []string, isX func(*Term) bool) bool {
	want := map[string]bool{}
	for _, s := range special {
		want[s] = true
	}
	t = strip(t)
	if e, _ := resOf(t); e != nil && e.Name == "(*strings.Replacer).Replace" {
		// all at once
		ps, ok := replacements(c.p, e.Args[0])
		if !ok || len(ps) != 2*len(want) || !isX(strip(e.Args[1])) {
			return false
		}
		seen := map[string]bool{}
		for i := 0; i < len(ps); i += 2 {
			if !want[ps[i]] || seen[ps[i]] || ps[i+1] != `\`+ps[i] {
				return false
			}
			seen[ps[i]] = true
		}
		return true
	}
	seen := map[string]bool{}
	last := ""
	for !isX(t) {
		switch {
		case isApp(t, "strings.Replace") || isApp(t, "strings.ReplaceAll"):
			o, ok1 := t.Args[1].strVal()
			n, ok2 := t.Args[2].strVal()
			if !ok1 || !ok2 || !want[o] || seen[o] || n != `\`+o {
				return false
			}
			if len(t.Args) > 3 {
				if k, ok := t.Args[3].intVal(); !ok || k >= 0 {
					return false
				}
			}
			seen[o], last = true, o
			t = strip(t.Args[0])
		default:
			return false
		}
	}
	// the backslash is replaced first (innermost)
	return len(seen) == len(want) && (last == `\` || !want[`\`])
}

func parseRule(c *Ctx) {
	special := c.lexerLiterals()
	c.check("special", "lexer", "-", len(special) > 0, "the literals of the generated lexer were not found")
	hasBS, hasSp := false, false
	for _, s := range special {
		hasBS, hasSp = hasBS || s == `\`, hasSp || s == " "
	}
	c.check("special", "lexer", "-", hasBS && hasSp, "the lexer does not know the space and the backslash")

	// unparse
	if f := c.p.fn(unparse); f != nil {
		w := c.at(f.Pos())
		cmd := mkParam(f, f.Params[0])
		name, params := fieldNamed(cmd, "Command"), fieldNamed(cmd, "Parameters")
		ps := c.explore(unparse, opt{noSpawn: true})
		its := allVisits(ps)
		joined := func(t *Term) bool { // the list of escaped parameters
			n := 0
			for _, rt := range roundTrips(ps) {
				for _, m := range c.mapIters(rt) {
					if m.Dst != t {
						continue
					}
					n++
					ok := false
					for _, v := range visits(rt) {
						if v.Full && v.Coll == params && m.Full && (m.Idx == nil || sameInt(m.Idx, v.Idx)) {
							ok = ok || c.escaped(m.Val, special, func(x *Term) bool { return x == v.Elem })
						}
					}
					if !ok {
						return false
					}
				}
			}
			return n == 1
		}
		full := func(p *Path, t *Term) bool { // all parameters were done
			if t.Op != "sym" && !p.St.pc.entails(mkEq(lenOf(t), lenOf(params))) {
				return false
			}
			for _, x := range exits(p.Events()) {
				if exhausted(its, p, x, params) {
					return true
				}
			}
			return false
		}
		prepended := func(t *Term) bool {
			n := 0
			for _, rt := range roundTrips(ps) {
				for i, s := range rt.Info.Sym {
					if s != t || rt.Info.Init[i] == nil {
						continue
					}
					n++
					in, known := c.elems(rt.Path.St, rt.Info.Init[i], 0)
					nx := rt.Info.Next[i]
					ok := known && len(in) == 1 && c.escaped(in[0], special, func(x *Term) bool { return x == name }) &&
						nx.Op == "append" && nx.Aux != "spread" && len(nx.Args) == 2 && nx.Args[0] == t
					each := false
					for _, v := range visits(rt) {
						each = each || ok && v.Full && v.Coll == params && c.escaped(nx.Args[1], special, func(x *Term) bool { return x == v.Elem })
					}
					if !each {
						return false
					}
				}
			}
			return n > 0
		}
		n := map[string]int{}
		for _, p := range rets(ps) {
			parts := catParts(p.Rets[0])
			if sp, is := parts[len(parts)-1].strVal(); len(parts) == 2 && is && sp == " " && isApp(parts[0], "strings.Join") {
				// one list with the command before its parameters
				n["none"]++
				n["some"]++
				sep, is := parts[0].Args[1].strVal()
				list := parts[0].Args[0]
				c.check("unparse", "separators", w, is && sep == " ", "the parameters are not separated and followed by one space")
				c.check("unparse", "list", w, prepended(list), "the command or a parameter is not written with its special characters escaped")
				c.check("unparse", "all parameters", w, full(p, list), "a command can be unparsed without all its parameters")
				continue
			}
			if init, next, v := c.carried(ps, parts[0]); init != nil {
				// the parameters are added to the text one by one
				n["none"]++
				n["some"]++
				sp := func(t *Term) bool { x, is := t.strVal(); return is && x == " " }
				isName := func(t *Term) bool { return c.escaped(t, special, func(x *Term) bool { return x == name }) }
				in, end := catParts(init), parts[1:]
				before := len(in) == 1 && len(end) == 1 && sp(end[0]) // each parameter behind a space, or each before one
				after := len(in) == 2 && sp(in[1]) && len(end) == 0
				c.check("unparse", "command", w, isName(in[0]), "the command is not written with its special characters escaped")
				c.check("unparse", "separators", w, before || after, "the parameters are not separated and followed by one space")
				each := len(next) > 0
				for i, nx := range next {
					q := catParts(nx)
					ok := len(q) == 3 && q[0] == parts[0]
					if ok && before {
						q[1], q[2] = q[2], q[1]
					}
					ok = ok && sp(q[2])
					one := false
					for _, it := range v[i] {
						one = one || ok && it.Full && it.Coll == params && c.escaped(q[1], special, func(x *Term) bool { return x == it.Elem })
					}
					each = each && one
				}
				c.check("unparse", "parameters", w, each, "a parameter is not written with its special characters escaped")
				all := false
				for _, x := range exits(p.Events()) {
					all = all || exhausted(its, p, x, params)
				}
				c.check("unparse", "all parameters", w, all, "a command can be unparsed without all its parameters")
				continue
			}
			ok := len(parts) >= 2 && c.escaped(parts[0], special, func(x *Term) bool { return x == name })
			c.check("unparse", "command", w, ok, "the command is not written with its special characters escaped")
			if len(parts) < 2 {
				continue
			}
			sp, is := parts[1].strVal()
			none := p.St.pc.entailsLe(lenOf(params), int0, 0)
			switch {
			case len(parts) == 2 && is && sp == " ":
				n["none"]++
				c.check("unparse", "no parameters", w, none, "a command can be unparsed without its parameters")
			case len(parts) == 4 && is && sp == " " && isApp(parts[2], "strings.Join"):
				n["some"]++
				end, is := parts[3].strVal()
				sep, is2 := parts[2].Args[1].strVal()
				c.check("unparse", "separators", w, is && is2 && end == " " && sep == " ", "the parameters are not separated and followed by one space")
				c.check("unparse", "parameters", w, !none && joined(parts[2].Args[0]), "a parameter is not written with its special characters escaped")
				c.check("unparse", "all parameters", w, full(p, parts[2].Args[0]), "a command can be unparsed without all its parameters")
			default:
				c.fail("unparse", "shape", w, "a command is not unparsed to the command and its parameters separated by spaces")
			}
		}
		c.check("unparse", "both", w, n["none"] > 0 && n["some"] > 0, "commands with or without parameters are not unparsed")
	} else {
		c.fail("anchor", unparse, "-", "%s was not found", unparse)
	}

	// parse
	if f := c.p.fn(parse); f != nil {
		w := c.at(f.Pos())
		line := mkParam(f, f.Params[0])
		for _, p := range rets(c.explore(parse, opt{noSpawn: true})) {
			evs := p.Events()
			one := func(suffix string) *Ev {
				var r *Ev
				for _, e := range evs {
					if e.Kind == "call" && strings.HasSuffix(e.Name, suffix) {
						if r != nil {
							c.fail("parse", suffix, where(c, e), "%s is called twice", suffix)
						}
						r = e
					}
				}
				c.check("parse", suffix, w, r != nil, "a line is parsed without %s", suffix)
				return r
			}
			in, lex, ts, ps, ln, wk := one("antlr.NewInputStream"), one("shell_parser.NewShellLexer"), one("antlr.NewCommonTokenStream"), one("shell_parser.NewShellParser"), one("ShellParser).Line"), one("ParseTreeWalker).Walk")
			if in == nil || lex == nil || ts == nil || ps == nil || ln == nil || wk == nil {
				continue
			}
			is := func(t *Term, of *Ev) bool { return strip(t) == of.Res }
			c.check("parse", "line", w, in.Args[0] == line, "something else than the whole line is parsed")
			c.check("parse", "chain", w, is(lex.Args[0], in) && is(ts.Args[0], lex) && is(ps.Args[0], ts) && is(ln.Args[0], ps), "the line is not lexed and parsed")
			c.check("parse", "walk", w, is(wk.Args[2], ln) && namedOf(strip(wk.Args[1]).Typ) == "ssh/parser.shellListener", "the parsed line is not walked by the listener")
			r := strip(p.Rets[0])
			fresh := c.fieldIn(p, strip(wk.Args[1]), "cmd", nil)
			ok := false
			if r.Op == "struct" && len(r.Args) == 2 && fresh != nil {
				ok = true
				for i, fn := range []string{"Command", "Parameters"} {
					b, n := fieldOf(r.Args[i])
					ok = ok && b == fresh && n == fn
				}
			}
			c.check("parse", "result", w, ok, "the result is not what the listener collected")
		}
	}
	c.listener()
}

// catParts flattens a concatenation.
func catParts(t *Term) []*Term {
	t = strip(t)
	if t.Op != "cat" {
		return []*Term{t}
	}
	var r []*Term
	for _, a := range t.Args {
		r = append(r, catParts(a)...)
	}
	return r
}

// listener: the callbacks which collect the command.
func (c *Ctx) listener() {
	const ls = "(*ssh/parser.shellListener)."
	fn := func(m string) (*ssa.Function, []*Path) {
		f := c.p.fn(ls + m)
		if !c.check("listener", m, "-", f != nil, "the listener does not handle %s", m) {
			return nil, nil
		}
		return f, rets(c.explore(ls+m, opt{noSpawn: true}))
	}
	stores := func(p *Path) []*Ev {
		var r []*Ev
		for _, e := range p.Events() {
			if (e.Kind == "store" || e.Kind == "mapupd") && writesShared(e) {
				r = append(r, e)
			}
		}
		return r
	}
	self := func(f *ssa.Function) *Term { return mkParam(f, f.Params[0]) }
	ctxOf := func(f *ssa.Function, t *Term) bool { // the context the callback is given (or its embedded part)
		x := mkParam(f, f.Params[1])
		for t = strip(t); t != nil && t != x; {
			b, _ := fieldOf(t)
			if b == nil {
				return false
			}
			t = strip(b)
		}
		return t == x
	}
	// the string being collected
	cur := ""
	if f, ps := fn("EnterCommandString"); f != nil {
		for _, p := range ps {
			st := stores(p)
			ok := len(st) == 1 && st[0].Addr != nil && st[0].Addr.Op == "faddr" && st[0].Addr.Args[0] == self(f)
			if ok {
				s, is := st[0].Val.strVal()
				cur = fieldName(st[0].Addr)
				ok = is && s == ""
			}
			c.check("begin", "EnterCommandString", c.at(f.Pos()), ok, "a string does not begin empty")
		}
	}
	isCur := func(f *ssa.Function, t *Term) bool {
		b, n := fieldOf(t)
		return b == self(f) && n == cur
	}
	if f, ps := fn("ExitCharacter"); f != nil {
		isText := func(t *Term) bool {
			e, _ := resOf(t)
			return e != nil && strings.HasSuffix(e.Name, ".GetText") && ctxOf(f, e.Args[0])
		}
		isLast := func(t *Term) bool { // the last character of the text
			if t.Op == "conv" {
				t = t.Args[0]
			}
			if t.Op == "ex" && t.Aux.(int) == 0 && isApp(t.Args[0], "unicode/utf8.DecodeLastRuneInString") {
				return isText(t.Args[0].Args[0])
			}
			if t.Op == "ld" && t.Args[0].Op == "iaddr" {
				rs := t.Args[0].Args[0]
				return rs.Op == "conv" && isText(rs.Args[0]) && sameInt(t.Args[0].Args[1], sub2(lenOf(rs), int1))
			}
			if t.Op == "slice" && t.Args[0].Op == "conv" && isText(t.Args[0].Args[0]) {
				return sameInt(t.Args[1], sub2(lenOf(t.Args[0]), int1))
			}
			return false
		}
		n := 0
		for _, p := range ps {
			st := stores(p)
			w := c.at(f.Pos())
			if len(st) == 0 {
				ok := false
				for _, e := range p.Events() {
					ok = ok || e.Res != nil && isText(e.Res) && (p.St.pc.entailsLe(lenOf(e.Res), int0, 0) || p.St.pc.entails(mkEq(e.Res, mkString(""))))
				}
				c.check("character", "left out", w, ok, "a character can be left out")
				continue
			}
			n++
			ok := len(st) == 1 && st[0].Addr.Op == "faddr" && st[0].Addr.Args[0] == self(f) && fieldName(st[0].Addr) == cur
			if ok {
				parts := catParts(st[0].Val)
				ok = len(parts) == 2 && isCur(f, parts[0]) && isLast(parts[1])
			}
			c.check("character", "added", w, ok, "something else than the last character of what was read is added to the string")
		}
		c.check("character", "some", c.at(f.Pos()), n > 0, "characters are not collected")
	}
	// where finished strings are kept
	all := ""
	startOf := func(t *Term, is func(*Term) bool) bool { // the start of the source interval of a context
		b, n := fieldOf(t)
		if b == nil || n != "Start" {
			return false
		}
		e, _ := resOf(b)
		return e != nil && strings.HasSuffix(e.Name, ".GetSourceInterval") && is(e.Args[0])
	}
	if f, ps := fn("ExitCommandString"); f != nil {
		for _, p := range ps {
			st := stores(p)
			ok := len(st) == 1 && st[0].Kind == "mapupd"
			if ok {
				m, k, v := st[0].Args[0], st[0].Args[1], st[0].Val
				b, n := fieldOf(m)
				all = n
				ok = b == self(f) && startOf(k, func(t *Term) bool { return ctxOf(f, t) }) && isCur(f, v)
			}
			c.check("end", "ExitCommandString", c.at(f.Pos()), ok, "a finished string is not kept under its position")
		}
	}
	kept := func(f *ssa.Function, t *Term) (child *Term, ok bool) { // the string kept for the child
		if t != nil && t.Op == "ex" {
			t = t.Args[0]
		}
		if t == nil || t.Op != "lookup" {
			return nil, false
		}
		b, n := fieldOf(t.Args[0])
		ok = b == self(f) && n == all && startOf(t.Args[1], func(x *Term) bool {
			e, _ := resOf(x)
			if e == nil || !strings.HasSuffix(e.Name, ".GetChildOfType") || !ctxOf(f, e.Args[0]) {
				return false
			}
			i, is := e.Args[1].intVal()
			child = e.Res
			return is && i == 0 && e.Args[2].find(func(y *Term) bool {
				return y.Typ != nil && strings.HasSuffix(namedOf(y.Typ), "shell_parser.CommandStringContext")
			}) != nil
		})
		return
	}
	cmdField := func(f *ssa.Function, a *Term, name string) bool {
		if a == nil || a.Op != "faddr" || fieldName(a) != name {
			return false
		}
		b, n := fieldOf(a.Args[0])
		return b == self(f) && n == "cmd"
	}
	noChild := func(f *ssa.Function, p *Path) bool {
		for _, e := range p.Events() {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".GetChildOfType") && ctxOf(f, e.Args[0]) && nilAt(p.St.pc, e.Res) {
				return true
			}
		}
		return false
	}
	if f, ps := fn("ExitCommand"); f != nil {
		n := 0
		for _, p := range ps {
			st := stores(p)
			w := c.at(f.Pos())
			if len(st) == 0 {
				c.check("command", "left out", w, noChild(f, p), "the command can be left out")
				continue
			}
			n++
			ok := len(st) == 1 && cmdField(f, st[0].Addr, "Command")
			if ok {
				_, ok = kept(f, st[0].Val)
			}
			c.check("command", "set", w, ok, "the command is not set to its string")
		}
		c.check("command", "some", c.at(f.Pos()), n > 0, "the command is never set")
	}
	if f, ps := fn("ExitParameter"); f != nil {
		n := 0
		for _, p := range ps {
			st := stores(p)
			w := c.at(f.Pos())
			if len(st) == 0 {
				ok := noChild(f, p)
				for _, l := range p.St.pc.lits() {
					if v := l.find(func(t *Term) bool { _, is := kept(f, t); return is }); v != nil {
						ok = ok || p.St.pc.entails(mkEq(v, mkString(""))) || p.St.pc.entailsLe(lenOf(v), int0, 0)
					}
				}
				c.check("parameter", "left out", w, ok, "a non-empty parameter can be left out")
				continue
			}
			n++
			ok := len(st) == 1 && cmdField(f, st[0].Addr, "Parameters") && st[0].Val.Op == "append" && st[0].Val.Aux != "spread" && len(st[0].Val.Args) == 2
			if ok {
				b, nm := fieldOf(st[0].Val.Args[0])
				ok = b != nil && nm == "Parameters"
				if ok {
					b2, n2 := fieldOf(b)
					ok = b2 == self(f) && n2 == "cmd"
				}
				v := st[0].Val.Args[1]
				_, is := kept(f, v)
				ok = ok && is
				c.check("parameter", "empty", w, p.St.pc.entails(mkNot(mkEq(v, mkString("")))) || p.St.pc.entailsLe(int1, lenOf(v), 0), "an empty parameter is collected")
			}
			c.check("parameter", "added", w, ok, "a parameter is not added behind those before it")
		}
		c.check("parameter", "some", c.at(f.Pos()), n > 0, "parameters are not collected")
	}
	if f, _ := fn("ExitLine"); f != nil {
		w := c.at(f.Pos())
		all := c.explore(ls+"ExitLine", opt{noSpawn: true})
		its := allVisits(all)
		isParams := func(t *Term) bool {
			b, n := fieldOf(t)
			if b == nil || n != "Parameters" {
				return false
			}
			b2, n2 := fieldOf(b)
			return b2 == self(f) && n2 == "cmd"
		}
		for _, p := range rets(all) {
			ok := false
			for _, e := range stores(p) {
				if cmdField(f, e.Addr, "Command") {
					b, n := fieldOf(strip(e.Val.Args0()))
					ok = isApp(e.Val, "strings.TrimSpace") && b != nil && n == "Command"
					c.check("trim", "command", w, ok, "the command is replaced by something else than itself without white space")
					continue
				}
				c.check("trim", "other", where(c, e), e.Addr != nil && e.Addr.Op == "iaddr" && isParams(e.Addr.Args[0]), "something else is changed at the end of the line")
			}
			c.check("trim", "command done", w, ok, "the command is not trimmed")
			done := p.St.pc.entailsLe(int1, int0, 0)
			for _, x := range exits(p.Events()) {
				for _, it := range its {
					if !sameLoop(it.RT.Info, x.Aux.(*LoopInfo)) || !isParams(it.Coll) {
						continue
					}
					if exhausted(its, p, x, it.Coll) {
						done = true
					}
					// the list itself is not changed by the loop (see "other"), whenever its length is read
					for _, l := range p.St.pc.lits() {
						n := l.find(func(t *Term) bool { return t.Op == "len" && isParams(t.Args[0]) })
						if n != nil && it.Full && p.St.pc.entailsLe(n, it.Idx, 0) {
							done = true
						}
					}
				}
			}
			c.check("trim", "parameters done", w, done, "not all parameters are trimmed")
		}
		for _, rt := range roundTrips(all) {
			stored := false
			for _, e := range rt.Evs {
				if e.Kind != "store" || !writesShared(e) {
					continue
				}
				stored = true
				ok := e.Addr.Op == "iaddr" && isParams(e.Addr.Args[0]) && isApp(e.Val, "strings.TrimSpace") && strip(e.Val.Args[0]).Op == "ld" && strip(e.Val.Args[0]).Args[0] == e.Addr
				c.check("trim", "parameter", where(c, e), ok, "a parameter is replaced by something else than itself without white space")
			}
			if stored {
				continue
			}
			for _, it := range its {
				if !sameLoop(it.RT.Info, rt.Info) || !isParams(it.Coll) {
					continue
				}
				// left as it is only if there is nothing to trim
				same := inLits(rt.Path.St.pc, true, func(l *Term) bool {
					return l.Op == "eq" && len(l.Args) == 2 && (isApp(l.Args[0], "strings.TrimSpace") && strip(l.Args[0].Args[0]) == strip(l.Args[1]) || isApp(l.Args[1], "strings.TrimSpace") && strip(l.Args[1].Args[0]) == strip(l.Args[0]))
				})
				c.check("trim", "parameter kept", w, same, "a parameter can keep its surrounding white space")
			}
		}
	}
}

// Args0: the first argument (nil if there is none).
func (t *Term) Args0() *Term {
	if t == nil || len(t.Args) == 0 {
		return nil
	}
	return t.Args[0]
}
