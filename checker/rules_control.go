package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "K01", Title: "Only users listed in the users file, with their password or key, get a control session",
		Statement: "A password login succeeds exactly if the users file lists the user with a non-empty password and the password given equals it; a key login succeeds exactly if the users file lists the user with a public key which parses and equals the key given. Both checks are always installed, with the users read from the users file, and nothing changes the users afterwards; the server does not start without a readable users file.",
		Over:      []string{"inputs"}, Quant: "all users files, user names, passwords and keys", Why: "Tests call the handlers with some passwords and keys; they cannot show that no other login is accepted.",
		Files:     []string{"ssh/options.go", "ssh/ssh.go", "cmd/music-sync-server/main.go"},
		Mech:      [][2]string{{"password", "createPasswordAuthOption"}, {"public key", "createPublicKeyAuthOption"}, {"installation", "getSSHOptions, StartSSH"}, {"users", "ReadUsersFile"}},
		Technique: "abstract interpretation of the login callbacks in the context in which they are installed; the conditions of every accepting and every refusing path are compared with the definition of a valid login, both ways", Run: sshAuth,
	})
	register(&Prop{
		ID: "K02", Title: "Commands do exactly what they were told",
		Statement: "jump n, remove n, pause, resume and volume v perform exactly the one change they name, with the number given; queue adds every song matching the pattern once, in the order of the matches, at consecutive positions from the one given or at the end; playlist, ls and help change nothing. A command called with missing or malformed arguments changes nothing at all and is answered with its usage.",
		Over:      []string{"inputs"}, Quant: "all arguments, any number of them, and any list of matching songs", Why: "Tests run a few commands with a few arguments.",
		Files:     []string{"schedule/server_state_commands.go", "schedule/server.go", "ssh/command.go"},
		Mech:      [][2]string{{"commands", "serverState.queueCommand, removeCommand, jumpCommand, volumeCommand, pauseCommand, resumeCommand, playlistCommand"}, {"registration", "Server"}},
		Technique: absTech + "; effects (calls changing the playlist, messages sent, stores to shared memory) are collected on every path and compared with the effect the command stands for", Run: commandEffects,
	})
	register(&Prop{
		ID: "K03", Title: "A control session runs exactly the lines entered, and ends cleanly",
		Statement: "Every line entered is parsed once and runs the registered command it names, once, with the parameters given, and its answer - or its usage, if it refuses - is written to the session; clear clears the terminal, and any other unknown command runs nothing and is reported by its name. A line which was interrupted or could not be read is not run. The session goes on until exit, end of input or a read error, and then the terminal and the connection are always closed.",
		Over:      []string{"inputs", "histories"}, Quant: "all sequences of lines and read errors, all sets of registered commands", Why: "No test opens a session.",
		Files:     []string{"ssh/session_handler.go", "ssh/command.go"},
		Mech:      [][2]string{{"loop", "session.readLoop"}, {"dispatch", "session.handleLine, commandByName"}, {"answer", "session.execCommand"}, {"end", "sessionHandler"}},
		Technique: "typestate over all abstract paths of a session (read, parse, look up, run, answer, close), with the lookup decided by induction over the search loop", Run: sessionRule,
	})
	register(&Prop{
		ID: "K04", Title: "Nothing a control user enters can crash the server",
		Statement: "No line entered in a control session, no arguments of a command, and no completion request at any cursor position makes the server panic: every index and slice expression, nil dereference, map write, type assertion, division, conversion and channel operation reached from a session, a command, a completion or the parsing of a line is safe.",
		Over:      []string{"inputs"}, Quant: "all lines, arguments, cursor positions, sets of songs and states of the playlist", Why: "A panic in a session ends the whole server for everyone; tests enter some well-formed commands.",
		Files:     []string{"ssh/auto_completer.go", "ssh/session_handler.go", "ssh/command.go", "ssh/parser/parser.go", "schedule/server_state_commands.go", "playback/playlist.go"},
		Mech:      [][2]string{{"sessions", "sessionHandler"}, {"completion", "sshAutoCompleter.Do"}, {"parsing", "ParseCommand, shellListener"}, {"commands", "the ExecFunc and OptionsFunc of every Command"}},
		Technique: "abstract interpretation with a proof obligation for every operation which can panic, discharged from the path conditions (linear arithmetic, nilness) in the context of each caller", Run: controlCrash,
	})
}

const gssh = "github.com/gliderlabs/ssh."

// ---- K01 ----

func sshAuth(c *Ctx) {
	paths := c.explore("ssh.StartSSH", opt{opaque: opaqueSet("ssh.sessionHandler", "util.CheckFile")})
	f := c.p.fn("ssh.StartSSH")
	if f == nil {
		return
	}
	users := (*Term)(nil)
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Map); ok {
			users = mkParam(f, p)
		}
	}
	at := c.at(f.Pos())
	if !c.check("users", "StartSSH", at, users != nil, "StartSSH is not given the users") {
		return
	}
	// installation
	for _, p := range rets(paths) {
		n := 0
		for _, e := range p.Events() {
			if !isCall(e, gssh+"ListenAndServe", gssh+"Serve") {
				continue
			}
			n++
			w := where(c, e)
			opts, ok := elemsAt(p, e, e.Args[len(e.Args)-1])
			if e.HasVar {
				opts, ok = e.Var, true
			}
			if !c.check("options", "known", w, ok, "the options of the ssh server could not be determined") {
				continue
			}
			cnt := map[string]int{}
			for _, o := range opts {
				o = strip(o)
				c.check("options", "nil", w, !o.isNil(), "an option given to the ssh server is nil")
				if r, _ := resOf(o); r != nil {
					cnt[r.Name]++
				}
			}
			c.check("options", "password", w, cnt[gssh+"PasswordAuth"] == 1, "the ssh server is started with %d password checks", cnt[gssh+"PasswordAuth"])
			c.check("options", "public key", w, cnt[gssh+"PublicKeyAuth"] == 1, "the ssh server is started with %d public key checks", cnt[gssh+"PublicKeyAuth"])
		}
		c.check("options", "served", at, n == 1, "StartSSH serves %d times", n)
	}
	for _, other := range []string{"PasswordAuth", "PublicKeyAuth", "ListenAndServe", "Serve", "NoPty", "KeyboardInteractiveAuth"} {
		for fn, ins := range c.callersOf(gssh + other) {
			for _, in := range ins {
				ok := other != "KeyboardInteractiveAuth" && (fnName(fn) == "ssh.StartSSH" || c.onlyVia(fn, "ssh.StartSSH"))
				c.check("one way in", other, c.at(in.Pos()), ok, "%s opens another way into the control interface", fnName(fn))
			}
		}
	}

	isUser := func(t *Term, ctx *Term) (ok *Term, is bool) {
		if t == nil {
			return nil, false
		}
		if t.Op == "ex" && t.Aux.(int) == 0 {
			t = t.Args[0]
		}
		if t.Op != "lookup" || t.Args[0] != users {
			return nil, false
		}
		e, _ := resOf(t.Args[1])
		return t, e != nil && e.Name == "("+gssh+"Context).User" && strip(e.Args[0]) == ctx
	}
	userField := func(t *Term, ctx *Term, name string) (*Term, bool) {
		b, n := fieldOf(strip(t))
		if b == nil || n != name {
			return nil, false
		}
		return isUser(b, ctx)
	}
	unknown := func(pc *PC, ctx *Term) bool {
		for _, l := range pc.lits() {
			if l.Op == "not" && l.Args[0].Op == "ex" && l.Args[0].Aux.(int) == 1 {
				if _, ok := isUser(l.Args[0].Args[0], ctx); ok {
					return true
				}
			}
		}
		return false
	}
	n := map[string]int{}
	for _, p := range paths {
		sp := p.Root.Spawn
		if sp == nil || p.Root.Fn == nil {
			continue
		}
		kind := ""
		switch {
		case isCall(sp, gssh+"PasswordAuth"):
			kind = "password"
		case isCall(sp, gssh+"PublicKeyAuth"):
			kind = "public key"
		default:
			continue
		}
		fn := p.Root.Fn
		w := c.at(fn.Pos())
		if !c.check(kind, "ends", w, p.End == "ret" && len(p.Rets) == 1 && len(p.Root.Args) >= 2, "the %s check ends with %s", kind, p.End) {
			continue
		}
		na := len(p.Root.Args)
		ctx, given := p.Root.Args[na-2], p.Root.Args[na-1]
		for _, e := range p.Events() {
			c.check(kind, "no effect", where(c, e), !writesShared(e), "the %s check changes something: a refused login has an effect", kind)
		}
		for _, yes := range []bool{true, false} {
			pc := p.St.pc
			if v, ok := p.Rets[0].boolVal(); ok {
				if v != yes {
					continue
				}
			} else {
				r := p.Rets[0]
				if !yes {
					r = mkNot(r)
				}
				if pc.entails(mkNot(r)) {
					continue
				}
				pc = pc.push(r)
			}
			n[kind]++
			match, differ, empty := false, false, false
			switch kind {
			case "password":
				isPair := func(a, b *Term) (*Term, bool) {
					if _, ok := userField(a, ctx, "Password"); ok && strip(b) == given {
						return a, true
					}
					return nil, false
				}
				nonEmpty := func(t *Term) bool {
					return pc.entails(mkNot(mkEq(t, mkString("")))) || pc.entailsLe(int1, lenOf(t), 0)
				}
				for _, q := range eqLits(pc, true) {
					for _, o := range [][2]*Term{q, {q[1], q[0]}} {
						if a, ok := isPair(o[0], o[1]); ok && (nonEmpty(a) || nonEmpty(given)) {
							match = true
						}
						if _, ok := userField(o[0], ctx, "Password"); ok || strip(o[0]) == given {
							if s, k := o[1].strVal(); k && s == "" {
								empty = true
							}
						}
					}
				}
				for _, q := range eqLits(pc, false) {
					for _, o := range [][2]*Term{q, {q[1], q[0]}} {
						if _, ok := isPair(o[0], o[1]); ok {
							differ = true
						}
					}
				}
				for _, l := range pc.lits() {
					l.find(func(t *Term) bool {
						if _, ok := userField(t, ctx, "Password"); (ok || t == given) && pc.entailsLe(lenOf(t), int0, 0) {
							empty = true
						}
						// a comparison in constant time
						if e, _ := resOf(t); (e != nil && e.Name == "crypto/subtle.ConstantTimeCompare" || isApp(t, "crypto/subtle.ConstantTimeCompare")) && t.Op != "ex" {
							as := t.Args
							if e != nil {
								as = e.Args
							}
							if len(as) == 2 {
								for _, o := range [][2]*Term{{as[0], as[1]}, {as[1], as[0]}} {
									if a, ok := isPair(bytesOf(o[0]), bytesOf(o[1])); ok {
										if pc.entails(mkEq(t, int1)) && (nonEmpty(a) || nonEmpty(given)) {
											match = true
										}
										if pc.entails(mkNot(mkEq(t, int1))) || pc.entails(mkEq(t, int0)) {
											differ = true
										}
									}
								}
							}
						}
						return false
					})
				}
			case "public key":
				for _, e := range p.Events() {
					switch {
					case isCall(e, gssh+"ParsePublicKey"):
						if _, ok := userField(e.Args[0], ctx, "PubKey"); ok && notNilAt(pc, comp(e, 1)) {
							differ = true
						}
						if nilAt(pc, comp(e, 0)) && nilAt(pc, comp(e, 1)) {
							// no key and no error: ParsePublicKey never answers this
							c.assume("github.com/gliderlabs/ssh.ParsePublicKey returns a key or an error")
							differ = true
						}
					case isCall(e, gssh+"KeysEqual") && len(e.Args) == 2:
						for _, o := range [][2]*Term{{e.Args[0], e.Args[1]}, {e.Args[1], e.Args[0]}} {
							k, i := resOf(o[1])
							if strip(o[0]) != given || k == nil || i != 0 || k.Name != gssh+"ParsePublicKey" {
								continue
							}
							if _, ok := userField(k.Args[0], ctx, "PubKey"); !ok {
								continue
							}
							if pc.entails(e.Res) && nilAt(pc, comp(k, 1)) {
								match = true
							}
							if pc.entails(mkNot(e.Res)) {
								differ = true
							}
						}
					}
				}
				for _, l := range pc.lits() {
					l.find(func(t *Term) bool {
						if _, ok := userField(t, ctx, "PubKey"); ok && pc.entailsLe(lenOf(t), int0, 0) {
							empty = true
						}
						return false
					})
				}
			}
			if yes {
				c.check(kind, "accepts", w, match, "the %s check can accept a login which does not match a non-empty entry for this user in the users file", kind)
			} else {
				c.check(kind, "refuses", w, differ || empty || unknown(pc, ctx), "the %s check can refuse a login which matches the entry for this user in the users file", kind)
			}
		}
	}
	for _, k := range []string{"password", "public key"} {
		c.check(k, "found", at, n[k] >= 2, "the %s check was not found, or always gives the same answer", k)
	}

	// the users come from the users file, and stay as they are
	usersFile(c)
	for _, fn := range c.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MapUpdate); ok && namedOf(elemOfMap(m.Map.Type())) == "ssh.UserAuth" {
					c.fail("users fixed", fnName(fn), c.at(in.Pos()), "%s changes the users allowed to log in", fnName(fn))
				}
			}
		}
	}
	c.count["functions scanned for changes of the users"] = len(c.p.fns)
}

// elemsAt: the elements of a slice made on the path, just before event at.
func elemsAt(p *Path, at *Ev, t *Term) ([]*Term, bool) {
	if t.isNil() {
		return nil, true
	}
	if t.Op == "append" {
		base, ok := elemsAt(p, at, t.Args[0])
		if !ok {
			return nil, false
		}
		if t.Aux == "spread" {
			r, ok := elemsAt(p, at, t.Args[1])
			return append(append([]*Term{}, base...), r...), ok
		}
		return append(append([]*Term{}, base...), t.Args[1:]...), true
	}
	n, ok := lenOf(t).intVal()
	if !ok || n > 64 {
		return nil, false
	}
	r := make([]*Term, n)
	for _, e := range p.Events() {
		if e == at {
			break
		}
		if e.Kind != "store" || e.Addr == nil || e.Addr.Op != "iaddr" || addrRoot(e.Addr) != addrRoot(t) {
			continue
		}
		i, ok := e.Addr.Args[1].intVal()
		if !ok || i >= n {
			return nil, false
		}
		r[i] = e.Val
	}
	for _, x := range r {
		if x == nil {
			return nil, false
		}
	}
	return r, true
}

func elemOfMap(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return t
}

// bytesOf: the string a byte slice was made of.
func bytesOf(t *Term) *Term {
	t = strip(t)
	for t != nil && (t.Op == "conv" || t.Op == "bytes" || t.Op == "str2bytes") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// writesShared: the event changes memory which existed before the function was called, sends, or starts something.
func writesShared(e *Ev) bool {
	switch e.Kind {
	case "store":
		r := addrRoot(e.Addr)
		return r == nil || r.Op != "alloc" && r.Op != "makeslice" && r.Op != "append" && r.Op != "cell" && r.Op != "vargs"
	case "mapupd", "delete":
		r := e.Args
		if len(r) > 0 {
			m := strip(r[0])
			return m.Op != "makemap"
		}
		return true
	case "send", "close", "go":
		return true
	}
	return false
}

// usersFile: ReadUsersFile returns what the file holds or an error, and the server gives up on an error.
func usersFile(c *Ctx) {
	const name = "ssh.ReadUsersFile"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	n := 0
	for _, p := range rets(paths) {
		if len(p.Rets) != 2 {
			continue
		}
		pc := p.St.pc
		var open *Ev
		decoded := false
		for _, e := range p.Events() {
			if isCall(e, "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile") {
				open = e
				c.check("users file", "name", where(c, e), strip(e.Args[0]) == mkParam(f, f.Params[0]), "another file than the one given is read")
			}
			if isCall(e, "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal") && open != nil && nilAt(pc, errOf(e)) {
				decoded = true
			}
		}
		switch {
		case nilAt(pc, p.Rets[1]):
			n++
			ok := decoded && open != nil && nilAt(pc, errOf(open))
			c.check("users file", "read", at, ok, "ReadUsersFile can report success without having read and decoded the file")
			c.check("users file", "result", at, !p.Rets[0].isNil() && p.Rets[0].Op != "makemap", "ReadUsersFile returns other users than the ones it decoded")
		case notNilAt(pc, p.Rets[1]):
		default:
			c.fail("users file", "error", at, "ReadUsersFile returns an error which may or may not be nil")
		}
	}
	c.check("users file", "success", at, n > 0, "ReadUsersFile never succeeds")
	// the server
	c.check("users used", "StartSSH", "-", len(c.callersOf("ssh.StartSSH")) > 0, "the control interface is never started")
	k := 0
	for _, b := range c.boots() {
		for _, p := range b.paths {
			for _, e := range p.Events() {
				if e.Name != "ssh.StartSSH" || e.Kind != "go" && e.Kind != "call" {
					continue
				}
				k++
				var src *Ev
				idx := -1
				for _, a := range e.Args {
					if r, i := resOf(a); r != nil && r.Name == name {
						src, idx = r, i
					}
				}
				ok := src != nil && idx == 0 && nilAt(e.PC, comp(src, 1))
				c.check("users used", fnName(e.Fn), where(c, e), ok, "the control interface is started with other users than those of a successfully read users file")
			}
		}
	}
	c.check("users used", "StartSSH", "-", k > 0, "the start of the control interface could not be followed")
}

// ---- K02 ----

const ssM = "(*schedule.serverState)."
const plM = "(*playback.Playlist)."

// playlistOpaque keeps the methods of the playlist and the directory listing as single events.
func playlistOpaque(f *ssa.Function) bool {
	n := fnName(f)
	if strings.HasPrefix(n, plM) {
		return true
	}
	switch n {
	case "util.ListGlobFiles", "util.FilterSongs", "util.ListAllFiles", "util.ListAllSubDirs", "ssh.RegisterCommand":
		return true
	}
	return false
}

// readsOnly: the function and everything it calls in the module stores to no field and sends nothing.
func (c *Ctx) readsOnly(f *ssa.Function) bool {
	for g := range c.cg().reachable(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send, *ssa.Go, *ssa.MapUpdate:
					return false
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							return false
						}
					}
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if _, ok := a.X.(*ssa.Alloc); !ok {
							return false
						}
					case *ssa.Global:
						return false
					}
				}
			}
		}
	}
	return true
}

// effects are the events of a path which others can notice: changes of the playlist, messages, stores to shared memory.
// The log and locks do not count.
func (c *Ctx) effects(evs []*Ev) []*Ev {
	var r []*Ev
	for _, e := range evs {
		switch {
		case e.Kind == "call" && strings.HasSuffix(e.Name, ").SendMessage"):
			r = append(r, e)
		case e.Kind == "call" && e.Callee != nil && strings.HasPrefix(e.Name, plM):
			if !c.readsOnly(e.Callee) {
				r = append(r, e)
			}
		case e.Kind != "call" && writesShared(e):
			r = append(r, e)
		}
	}
	return r
}

// numArg: t is the number args[i] is parsed to; ok is the error term of the parse.
func numArg(t, args *Term, i int64) (errT *Term, is bool) {
	t = strip(t)
	if t == nil || t.Op != "ex" || t.Aux.(int) != 0 {
		return nil, false
	}
	a := t.Args[0]
	if !isApp(a, "strconv.Atoi") && !(isApp(a, "strconv.ParseInt") && len(a.Args) > 1 && isInt(a.Args[1], 10)) {
		return nil, false
	}
	if !isArg(a.Args[0], args, i) {
		return nil, false
	}
	return extract(a, 1, types.Universe.Lookup("error").Type()), true
}

// isArg: t is args[i].
func isArg(t, args *Term, i int64) bool {
	t = strip(t)
	return t != nil && t.Op == "ld" && t.Args[0].Op == "iaddr" && t.Args[0].Args[0] == args && isInt(t.Args[0].Args[1], i)
}

// badArg: on this path args[i] is missing or was found not to be a number.
func badArg(p *Path, args *Term, i int64) bool {
	pc := p.St.pc
	if pc.entailsLe(lenOf(args), mkInt(i, nil), 0) {
		return true
	}
	for _, e := range p.Events() {
		if e.Kind != "pure" && e.Kind != "call" || e.Res == nil || len(e.Args) == 0 {
			continue
		}
		if (strings.HasPrefix(e.Name, "strconv.Parse") || e.Name == "strconv.Atoi") && isArg(e.Args[0], args, i) && notNilAt(pc, extract(e.Res, 1, types.Universe.Lookup("error").Type())) {
			return true
		}
	}
	return false
}

// command explores the function which makes a command and then the command itself.
func (c *Ctx) command(mk string) (name string, exec []*Path, args *Term, usage *Term) {
	f := c.p.fn(mk)
	paths := c.explore(mk, opt{noSpawn: true, opaque: playlistOpaque})
	if f == nil {
		return
	}
	for _, p := range rets(paths) {
		if len(p.Rets) != 1 {
			continue
		}
		flds := c.fieldsOf(p, p.Rets[0], nil)
		nm, _ := flds["Name"].strVal()
		name = nm
		ex := c.invoke(p, flds["ExecFunc"], opt{noSpawn: true, opaque: playlistOpaque})
		if !c.check("command", mk, c.at(f.Pos()), len(ex) > 0, "what the command %s does could not be determined", name) {
			continue
		}
		exec = append(exec, ex...)
		for _, a := range ex[0].Root.Args {
			if _, ok := a.Typ.Underlying().(*types.Slice); ok {
				args = a
			}
		}
	}
	return
}

func commandEffects(c *Ctx) {
	type spec struct {
		mk, name string
		rule     func(w, name string, ps []*Path, args *Term)
	}
	rejected := func(w, name string, p *Path) bool {
		eff := c.effects(p.Events())
		v, known := boolRet(p)
		if !c.check("answer", name, w, known, "%s returns an answer which was not determined", name) {
			return true
		}
		if !v {
			c.check("rejected", name, w, len(eff) == 0, "%s changes something (%s) although it is answered with the usage", name, evNames(eff))
		}
		return !v
	}
	one := func(method string) func(w, name string, ps []*Path, args *Term) {
		return func(w, name string, ps []*Path, args *Term) {
			n := 0
			for _, p := range ps {
				if p.End != "ret" {
					c.fail("ends", name, w, "%s can end with %s", name, p.End)
					continue
				}
				if rejected(w, name, p) {
					c.check("rejects", name, w, badArg(p, args, 0), "%s refuses a well-formed argument", name)
					continue
				}
				n++
				eff := c.effects(p.Events())
				if !c.check("one effect", name, w, len(eff) == 1 && eff[0].Name == plM+method, "%s does %s instead of %s once", name, evNames(eff), method) {
					continue
				}
				e := eff[0]
				errT, ok := numArg(e.Args[1], args, 0)
				c.check("argument", name, where(c, e), ok, "%s calls %s with something else than its argument", name, method)
				c.check("argument", name+" parsed", where(c, e), ok && nilAt(e.PC, errT), "%s uses its argument without having parsed it", name)
				c.check("playlist", name, where(c, e), isPlaylist(e.Args[0]), "%s changes another playlist", name)
			}
			c.check("accepts", name, w, n > 0, "%s never accepts its argument", name)
		}
	}
	set := func(v bool) func(w, name string, ps []*Path, args *Term) {
		return func(w, name string, ps []*Path, args *Term) {
			for _, p := range ps {
				eff := c.effects(p.Events())
				if !c.check("one effect", name, w, p.End == "ret" && len(eff) == 1 && eff[0].Name == plM+"SetPlaying", "%s does %s instead of SetPlaying once", name, evNames(eff)) {
					continue
				}
				b, ok := eff[0].Args[1].boolVal()
				c.check("argument", name, where(c, eff[0]), ok && b == v, "%s does not set playing to %v", name, v)
				c.check("playlist", name, where(c, eff[0]), isPlaylist(eff[0].Args[0]), "%s changes another playlist", name)
				r, known := boolRet(p)
				c.check("answer", name, w, known && r, "%s is answered with the usage although it was carried out", name)
			}
			c.check("accepts", name, w, len(ps) > 0, "%s was not found to do anything", name)
		}
	}
	nothing := func(w, name string, ps []*Path, args *Term) {
		for _, p := range ps {
			eff := c.effects(p.Events())
			c.check("no effect", name, w, len(eff) == 0, "%s changes something: %s", name, evNames(eff))
		}
		c.check("accepts", name, w, len(ps) > 0, "%s was not found to do anything", name)
	}
	vol := func(w, name string, ps []*Path, args *Term) {
		for _, p := range ps {
			if p.End == "ret" && rejected(w, name, p) {
				c.check("rejects", name, w, badArg(p, args, 0), "%s refuses a well-formed argument", name)
			}
		}
		c.volumeCommandRule()
	}
	specs := []spec{
		{"jumpCommand", "jump", one("SetPos")},
		{"removeCommand", "remove", one("RemoveSong")},
		{"pauseCommand", "pause", set(false)},
		{"resumeCommand", "resume", set(true)},
		{"volumeCommand", "volume", vol},
		{"queueCommand", "queue", func(w, name string, ps []*Path, args *Term) { c.queueRule(w, name, ps, args, rejected) }},
		{"playlistCommand", "playlist", func(w, name string, ps []*Path, args *Term) { nothing(w, name, ps, args); c.listing(w, name, ps) }},
	}
	for _, s := range specs {
		f := c.p.fn(ssM + s.mk)
		if f == nil {
			c.fail("anchor", s.mk, "-", "there is no command %s", s.name)
			continue
		}
		name, ps, args, _ := c.command(ssM + s.mk)
		w := c.at(f.Pos())
		c.check("name", s.mk, w, name == s.name, "the command %s is called %s", s.name, name)
		if len(ps) == 0 {
			continue
		}
		s.rule(w, s.name, ps, args)
	}
	c.registered(specsNames{"jump": "jumpCommand", "remove": "removeCommand", "pause": "pauseCommand", "resume": "resumeCommand", "volume": "volumeCommand", "queue": "queueCommand", "playlist": "playlistCommand"})
	c.builtins(nothing)
}

type specsNames map[string]string

func evNames(evs []*Ev) string {
	if len(evs) == 0 {
		return "nothing"
	}
	var r []string
	for _, e := range evs {
		n := e.Name
		if n == "" && e.Addr != nil {
			n = e.Kind + " " + cut(e.Addr.String(), 60)
		}
		r = append(r, strings.TrimPrefix(n, plM))
	}
	return strings.Join(r, ", ")
}

// isPlaylist: t is the playlist of the server state.
func isPlaylist(t *Term) bool {
	b, n := fieldOf(strip(t))
	return b != nil && n == "playlist"
}

// formatOf: the format of a call of the printf family.
func formatOf(e *Ev) (*Term, bool) {
	switch {
	case isCall(e, "fmt.Fprintf") && len(e.Args) > 1:
		return strip(e.Args[1]), true
	case isCall(e, "fmt.Sprintf", "fmt.Errorf", "fmt.Printf") && len(e.Args) > 0:
		return strip(e.Args[0]), true
	}
	return nil, false
}

// writtenText: the values which a write event writes as they are.
func writtenText(e *Ev) (r []*Term) {
	if f, is := formatOf(e); is {
		s, ok := f.strVal()
		if !ok {
			return nil
		}
		arg := 0
		for i := 0; i+1 < len(s); i++ {
			if s[i] != '%' {
				continue
			}
			i++
			if s[i] == '%' {
				continue
			}
			plain := s[i] == 's' || s[i] == 'v'
			for i+1 < len(s) && !(s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
				i++
			}
			if plain && arg < len(e.Var) && e.Var[arg] != nil {
				r = append(r, strip(e.Var[arg]))
			}
			arg++
		}
		return r
	}
	for _, a := range append(append([]*Term{}, e.Args...), e.Var...) {
		if a != nil {
			r = append(r, strip(a))
		}
	}
	return r
}

func (c *Ctx) queueRule(w, name string, ps []*Path, args *Term, rejected func(w, name string, p *Path) bool) {
	isSongs := func(t *Term) (*Ev, bool) { // FilterSongs(ListGlobFiles(AudioDir, args[0]))
		e, i := resOf(t)
		if e == nil || i >= 0 || e.Name != "util.FilterSongs" {
			return nil, false
		}
		g, j := resOf(e.Args[0])
		if g == nil || j != 0 || g.Name != "util.ListGlobFiles" || !isArg(g.Args[1], args, 0) || nameOf(g.Args[0]) != "playback.AudioDir" {
			return nil, false
		}
		return g, true
	}
	its := allVisits(ps)
	at := func(p *Path, e *Ev, idx *Term) bool { // the position of InsertSong
		pc := p.St.pc
		for _, ev := range p.Events() {
			if ev.Res == nil {
				continue
			}
			x := extract(ev.Res, 0, types.Typ[types.Int])
			errT, ok := numArg(x, args, 1)
			if !ok || !nilAt(e.PC, errT) {
				continue
			}
			if pc.entailsLe(int0, x, 0) && pc.entails(mkEq(e.Args[2], add2(x, idx))) {
				return true
			}
			// clipped
			if pc.entailsLe(x, int0, 0) && pc.entails(mkEq(e.Args[2], idx)) {
				return true
			}
		}
		return false
	}
	loops := 0
	for _, rt := range roundTrips(ps) {
		eff := c.effects(innermost(rt))
		all := c.effects(rt.Evs)
		if len(all) == 0 {
			for _, o := range roundTrips(ps) {
				if sameLoop(o.Info, rt.Info) && len(c.effects(innermost(o))) > 0 {
					c.fail("once", name, w, "queue can skip a matching song")
					break
				}
			}
			continue
		}
		loops++
		if !c.check("once", name, w, len(eff) == 1 && len(all) == 1, "queue does %s for one matching song", evNames(all)) {
			continue
		}
		e := eff[0]
		var it *iter
		for i, x := range visits(rt) {
			if strip(e.Args[1]) == x.Elem {
				it = &visits(rt)[i]
			}
		}
		if !c.check("each", name, where(c, e), it != nil && it.Full, "queue does not add the matching songs one by one in order") {
			continue
		}
		_, ok := isSongs(it.Coll)
		c.check("matches", name, where(c, e), ok, "queue adds other songs than those matching the pattern")
		c.check("playlist", name, where(c, e), isPlaylist(e.Args[0]), "queue changes another playlist")
		switch e.Name {
		case plM + "AddSong":
			c.check("position", name, where(c, e), badArg(rt.Path, args, 1), "queue adds the songs to the end although a position was given")
		case plM + "InsertSong":
			c.check("position", name, where(c, e), at(rt.Path, e, it.Idx), "queue does not insert the matching songs one after the other at the position given")
		default:
			c.fail("once", name, where(c, e), "queue does %s", evNames(eff))
		}
	}
	c.check("adds", name, w, loops >= 2, "queue does not handle both a given and no position")
	for _, p := range ps {
		if p.End != "ret" {
			continue
		}
		if rejected(w, name, p) {
			c.check("rejects", name, w, badArg(p, args, 0), "queue refuses a well-formed pattern")
			continue
		}
		evs := p.Events()
		// effects outside loops
		xs := exits(evs)
		done := false
		for _, x := range xs {
			for _, it := range its {
				if _, ok := isSongs(it.Coll); ok && sameLoop(it.RT.Info, x.Aux.(*LoopInfo)) && exhausted(its, p, x, it.Coll) {
					done = len(c.effects(it.RT.Evs)) > 0 || done
				}
			}
		}
		none := false
		for _, e := range evs {
			if isCall(e, "util.ListGlobFiles") && notNilAt(p.St.pc, comp(e, 1)) {
				none = true
			}
			if isCall(e, "util.FilterSongs", "util.ListGlobFiles") {
				r := e.Res
				if e.Name == "util.ListGlobFiles" {
					r = comp(e, 0)
				}
				none = none || p.St.pc.entailsLe(lenOf(r), int0, 0)
			}
		}
		c.check("all", name, w, done || none, "queue can finish before all matching songs are added")
	}
}

// listing: the playlist command shows every song in order, whether it plays, and the current song.
func (c *Ctx) listing(w, name string, ps []*Path) {
	var maps []mapIter
	for _, rt := range roundTrips(ps) {
		maps = append(maps, c.mapIters(rt)...)
	}
	n := 0
	for _, p := range ps {
		if p.End != "ret" || len(p.Rets) != 2 {
			continue
		}
		n++
		pc := p.St.pc
		text := p.Rets[0]
		has := func(f func(*Term) bool) bool { return text.find(f) != nil }
		str := func(s string) bool {
			return has(func(t *Term) bool { v, ok := t.strVal(); return ok && strings.Contains(v, s) })
		}
		for _, e := range p.Events() {
			switch {
			case isCall(e, plM+"Playing"):
				switch {
				case pc.entails(e.Res):
					c.check("status", name, w, str("Playing") && !str("Paused"), "the playlist is not shown as playing although it is")
				case pc.entails(mkNot(e.Res)):
					c.check("status", name, w, str("Paused") && !str("Playing"), "the playlist is not shown as paused although it is")
				default:
					c.check("status", name, w, text.contains(e.Res), "whether the playlist is playing is not shown")
				}
			case isCall(e, plM+"CurrentSong"):
				empty := pc.entails(mkEq(e.Res, mkString("")))
				c.check("current", name, w, empty || text.contains(e.Res), "the current song is not shown")
			case isCall(e, plM+"Songs"):
				if pc.entailsLe(lenOf(e.Res), int0, 0) {
					continue
				}
				ok := false
				for _, m := range maps {
					for _, v := range visits(m.RT) {
						if v.Full && v.Coll == e.Res && m.Full && m.Val != nil && m.Val.contains(v.Elem) && m.Val.contains(v.Idx) && madeBy(text, m) {
							ok = true
						}
					}
				}
				c.check("songs", name, w, ok, "the songs of the playlist are not all shown with their positions")
			}
		}
	}
	c.check("shown", name, w, n > 0, "the playlist command shows nothing")
}

// madeBy: t contains the slice filled by m.
func madeBy(t *Term, m mapIter) bool {
	if m.Dst == nil {
		return false
	}
	if t.contains(m.Dst) {
		return true
	}
	for i, s := range m.RT.Info.Sym {
		if s == m.Dst {
			return m.RT.Info.Init[i] != nil
		}
	}
	return false
}

// registered: the commands are made known to the control interface when the server starts.
func (c *Ctx) registered(names specsNames) {
	f := c.p.fn("schedule.Server")
	paths := c.explore("schedule.Server", opt{noSpawn: true, opaque: opaqueSet("ssh.RegisterCommand")})
	if f == nil {
		return
	}
	for _, p := range rets(paths) {
		got := map[string]int{}
		unknown := 0
		for _, e := range p.Events() {
			if !isCall(e, "ssh.RegisterCommand") {
				continue
			}
			if n, ok := c.fieldsOf(p, e.Args[0], e)["Name"]; ok {
				if s, ok := n.strVal(); ok {
					got[s]++
					continue
				}
			}
			unknown++
		}
		for _, n := range sortedKeys(names) {
			ok := got[n] == 1
			if unknown > 0 || len(got) == 0 {
				ok = ok || c.refers(f, ssM+names[n])
			}
			c.check("registered", n, c.at(f.Pos()), ok, "the command %s is registered %d times when the server starts", n, got[n])
		}
	}
	c.need("registered", len(names))
}

// refers: f or a function it can call mentions the named function.
func (c *Ctx) refers(f *ssa.Function, name string) bool {
	for g := range c.cg().reachable(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if h, ok := (*op).(*ssa.Function); ok && (fnName(h) == name || fnName(unbound(h)) == name) {
						return true
					}
				}
			}
		}
	}
	return false
}

// builtins: help and ls.
func (c *Ctx) builtins(nothing func(w, name string, ps []*Path, args *Term)) {
	found := map[string]bool{}
	for _, fn := range c.p.fns {
		if c.p.pkgRel(fn) != "ssh" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != "ssh.Command" {
					continue
				}
				if s := derefStruct(fa.X.Type()); s == nil || s.Field(fa.Field).Name() != "ExecFunc" {
					continue
				}
				for _, g := range c.closuresOf(st.Val) {
					ps := c.exploreFn(g, opt{noSpawn: true, opaque: playlistOpaque})
					found[fnName(g)] = true
					nothing(c.at(g.Pos()), fnName(g), ps, nil)
				}
			}
		}
	}
	c.check("built in", "ssh", "-", len(found) >= 2, "the commands of the control interface itself were not found")
}

// ---- K03 ----

func (c *Ctx) sessionHandlers() []*ssa.Function {
	start := c.explore("ssh.StartSSH", opt{noSpawn: true, opaque: opaqueSet("ssh.getSSHOptions")})
	var handlers []*ssa.Function
	for _, p := range rets(start) {
		for _, e := range p.Events() {
			i := -1
			switch {
			case isCall(e, gssh+"Handle"):
				i = 0
			case isCall(e, gssh+"ListenAndServe", gssh+"Serve"):
				i = 1
			}
			if i < 0 || i >= len(e.Args) {
				continue
			}
			h := strip(e.Args[i])
			if h.Op == "func" || h.Op == "closure" {
				f := h.Aux.(*ssa.Function)
				known := false
				for _, g := range handlers {
					known = known || f == g
				}
				if !known {
					handlers = append(handlers, f)
				}
			}
		}
	}
	return handlers
}

func sessionRule(c *Ctx) {
	// the session handler: the function given to the ssh server
	handlers := c.sessionHandlers()
	if !c.check("handler", "StartSSH", "ssh", len(handlers) == 1, "the ssh server has %d session handlers", len(handlers)) {
		return
	}
	f := handlers[0]
	w := c.at(f.Pos())
	const rl = "(*github.com/chzyer/readline.Instance)."
	paths := c.exploreFn(f, opt{noSpawn: true, opaque: opaqueSet("ssh/parser.ParseCommand")})
	its := allVisits(paths)
	isRead := func(e *Ev) bool { return isCall(e, rl+"Readline", rl+"ReadlineWithDefault", rl+"ReadSlice") }
	ran, unknown, ended, went, refused := 0, 0, 0, 0, 0
	wired := map[ssa.Instruction]bool{}
	for _, p := range paths {
		evs := p.Events()
		pc := p.St.pc
		// resources
		if p.End == "ret" {
			closed := map[string]bool{}
			var ex *Ev
			for _, e := range evs {
				switch {
				case e.Kind == "call" && (strings.HasSuffix(e.Name, "ssh.Channel).Close") || e.Name == "("+gssh+"Session).Close" || e.Name == "("+gssh+"Session).Exit"):
					closed["session"] = true
				case isCall(e, "github.com/chzyer/readline.NewEx"):
					ex = e
				case isCall(e, rl+"Close"):
					closed["terminal"] = true
				}
			}
			c.check("closed", "connection", w, closed["session"], "a session can end without its connection being closed")
			if ex != nil && !notNilAt(pc, comp(ex, 1)) {
				c.check("closed", "terminal", w, closed["terminal"], "a session can end without its terminal being closed")
			}
		} else if p.End != "back" {
			c.fail("ends", fnName(f), w, "a session can end with %s", p.End)
			continue
		}
		var nex, pty *Ev
		for _, e := range evs {
			switch {
			case isCall(e, "github.com/chzyer/readline.NewEx"):
				nex = e
				if wired[e.Instr] {
					continue
				}
				wired[e.Instr] = true
				cfg := c.fieldsOf(p, firstArg(e), e)
				isSession := func(t *Term) bool {
					t = strip(t)
					if t == nil {
						return false
					}
					if t.Op == "param" {
						return true
					}
					for _, v := range c.fieldsOf(p, t, e) {
						if v = strip(v); v != nil && v.Op == "param" {
							return true
						}
					}
					return false
				}
				c.check("terminal", "input", where(c, e), isSession(cfg["Stdin"]), "the terminal does not read what the user of the session enters")
				c.check("terminal", "output", where(c, e), isSession(cfg["Stdout"]), "the terminal does not write to the session")
			case isCall(e, "("+gssh+"Session).Pty"):
				pty = e
			}
		}
		// the last line read
		at := -1
		for i, e := range evs {
			if isRead(e) {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		R := evs[at]
		line, rerr := comp(R, 0), comp(R, 1)
		if !c.check("started", "terminal", where(c, R), nex != nil && nilAt(R.PC, comp(nex, 1)), "a line is read although no terminal could be set up") {
			continue
		}
		c.check("started", "pty", where(c, R), pty != nil && R.PC.entails(comp(pty, 2)), "a line is read from a session which has no terminal")
		// paths which end in the search of a command belong to the rule below
		inner := false
		if p.End == "back" {
			li := evs[len(evs)-1].Aux.(*LoopInfo)
			for i := at; i < len(evs); i++ {
				if evs[i].Kind == "loophead" && sameLoop(evs[i].Aux.(*LoopInfo), li) {
					inner = true
				}
			}
		}
		var parse *Ev
		var runs, writes, found []*Ev
		for _, e := range evs[at+1:] {
			switch {
			case isCall(e, "ssh/parser.ParseCommand"):
				c.check("parsed", "once", where(c, e), parse == nil, "a line is parsed twice")
				parse = e
				c.check("parsed", "line", where(c, e), strip(e.Args[0]) == line, "something else than the line entered is parsed")
				c.check("read", "complete", where(c, e), nilAt(e.PC, rerr), "a line is run although reading it failed or was interrupted")
			case e.Kind == "call" && (e.Name == "dynamic" || strings.HasPrefix(e.Name, "dynamic")):
				if _, n := fieldOf(strip(firstArg(e))); n == "ExecFunc" {
					runs = append(runs, e)
				}
			case e.Kind == "call" && strings.HasPrefix(e.Name, "fmt.Fprint") || isCall(e, rl+"Write", "io.WriteString"):
				writes = append(writes, e)
			case e.Kind == "loopexit":
				found = append(found, e)
			}
		}
		if inner {
			continue
		}
		cmdOf := func(name string) func(t *Term) bool {
			return func(t *Term) bool {
				b, n := fieldOf(strip(t))
				if b == nil || n != name || parse == nil {
					return false
				}
				return strip(b) == parse.Res
			}
		}
		mentions := func(e *Ev, is func(*Term) bool) bool {
			for _, a := range append(append([]*Term{}, e.Args...), e.Var...) {
				if a != nil && strip(a).find(is) != nil {
					return true
				}
			}
			return false
		}
		for _, e := range writes {
			to := strip(e.Args[0])
			session := func(t *Term) bool {
				n := namedOf(t.Typ)
				return n == "github.com/chzyer/readline.Instance" || n == "ssh.session" || n == "github.com/gliderlabs/ssh.Session"
			}
			c.check("written to", "the session", where(c, e), to.find(session) != nil, "what is meant for the session is written to %s", e.Args[0])
			if f, is := formatOf(e); is {
				_, konst := f.strVal()
				c.check("written as", "text", where(c, e), konst, "text which is not a constant is used as a format: percent signs in it garble it")
			}
		}
		anyWrite := func(is func(*Term) bool) bool {
			for _, e := range writes {
				if mentions(e, is) {
					return true
				}
			}
			return false
		}
		ex := false // the line is "exit"
		notExit := false
		clear, notClear := false, false // the line is "clear"
		for _, q := range eqLits(pc, true) {
			for _, o := range [][2]*Term{q, {q[1], q[0]}} {
				if s, ok := o[1].strVal(); ok && s == "exit" && cmdOf("Command")(o[0]) {
					ex = true
				}
				if s, ok := o[1].strVal(); ok && s != "exit" && cmdOf("Command")(o[0]) {
					notExit = true
				}
				if s, ok := o[1].strVal(); ok && cmdOf("Command")(o[0]) {
					clear, notClear = clear || s == "clear", notClear || s != "clear"
				}
			}
		}
		for _, q := range eqLits(pc, false) {
			for _, o := range [][2]*Term{q, {q[1], q[0]}} {
				if s, ok := o[1].strVal(); ok && s == "exit" && cmdOf("Command")(o[0]) {
					notExit = true
				}
				if s, ok := o[1].strVal(); ok && s == "clear" && cmdOf("Command")(o[0]) {
					notClear = true
				}
			}
		}
		switch {
		case len(runs) > 0:
			ran++
			if !c.check("run", "once", where(c, runs[0]), len(runs) == 1 && parse != nil, "a line runs %d commands", len(runs)) {
				continue
			}
			e := runs[0]
			base, _ := fieldOf(strip(firstArg(e)))
			named := false
			for _, q := range eqLits(e.PC, true) {
				for _, o := range [][2]*Term{q, {q[1], q[0]}} {
					if b, n := fieldOf(strip(o[0])); b == base && n == "Name" && cmdOf("Command")(o[1]) {
						named = true
					}
				}
			}
			c.check("run", "named", where(c, e), named && isCommandElem(base), "a line can run another command than the registered one it names")
			c.check("run", "parameters", where(c, e), len(e.Args) == 2 && cmdOf("Parameters")(e.Args[1]), "a command is not run with the parameters of the line")
			ok := comp(e, 1)
			msg := comp(e, 0)
			is := func(want *Term) func(*Term) bool { return func(t *Term) bool { return t == want } }
			// the message itself, or without a line break at its end
			whole := func(t *Term) bool {
				t = strip(t)
				if t == msg {
					return true
				}
				if (isApp(t, "strings.TrimSuffix") || isApp(t, "strings.TrimRight")) && strip(t.Args[0]) == msg {
					return true
				}
				if t.Op == "slice" && t.Args[0] == msg {
					return pc.entails(mkEq(t.Args[1], mkInt(0, nil))) && pc.entails(mkEq(t.Args[2], mkSub(lenOf(msg), mkInt(1, nil), nil)))
				}
				return false
			}
			anyWhole := func() bool {
				for _, e := range writes {
					for _, a := range writtenText(e) {
						if whole(a) {
							return true
						}
						if a.Op == "cat" || a.Op == "add" {
							for _, x := range a.Args {
								if whole(x) {
									return true
								}
							}
						}
					}
				}
				return false
			}
			usage := anyWrite(func(t *Term) bool { b, n := fieldOf(t); return b == base && n == "Name" })
			switch {
			case pc.entails(ok):
				c.check("answer", "message", where(c, e), anyWhole(), "the answer of a command is not written to the session as it is")
			case pc.entails(mkNot(ok)):
				refused++
				c.check("answer", "usage", where(c, e), usage && !anyWrite(is(msg)), "the usage is not written to the session after a refused command")
			default:
				c.fail("answer", "any", where(c, e), "the session does not tell a refused command from one which was run")
			}
			c.check("goes on", "after a command", where(c, e), p.End == "back", "the session ends after a command")
		case parse != nil:
			unknown++
			done := false
			for _, x := range found {
				if exhausted(its, p, x, nil) {
					done = true
				}
			}
			c.check("lookup", "complete", where(c, parse), done, "a line can be taken for an unknown command although not all registered commands were compared with it")
			if ex {
				c.check("exit", "ends", where(c, parse), p.End == "ret", "the session goes on after exit")
			} else if p.End == "ret" {
				c.fail("exit", "only", where(c, parse), "the session ends although the line was not exit")
			} else {
				c.check("exit", "ends", where(c, parse), notExit, "the session goes on after exit")
				reported := len(writes) > 0
				c.check("unknown", "reported", where(c, parse), reported, "nothing is written to the session for a line which is not a command")
				names := anyWrite(cmdOf("Command"))
				c.check("unknown", "not clear", where(c, parse), notClear || !names, "clear, which help and completion offer, can be answered as an unknown command")
				c.check("unknown", "named", where(c, parse), clear || names, "a line which is not a command is not reported with its name")
			}
		case p.End == "back":
			went++
			// nothing was run: only an interrupt does that
			intr := false
			for _, q := range eqLits(pc, true) {
				for _, o := range [][2]*Term{q, {q[1], q[0]}} {
					if strip(o[0]) == rerr && strings.HasSuffix(nameOf(o[1]), "readline.ErrInterrupt") {
						intr = true
					}
				}
			}
			c.check("ignored", "line", where(c, R), intr, "a line which was read is not run, or the session goes on after a read error")
		default:
			ended++
			bad := notNilAt(pc, rerr)
			for _, q := range eqLits(pc, true) {
				for _, o := range [][2]*Term{q, {q[1], q[0]}} {
					if strip(o[0]) == rerr && !o[1].isNil() {
						n := nameOf(o[1])
						bad = strings.HasSuffix(n, "io.EOF") || strings.HasSuffix(n, "EOF")
					}
				}
			}
			c.check("end", "read error", where(c, R), bad, "the session ends although a line was read or only interrupted")
		}
	}
	c.check("loop", "runs", w, ran > 0, "no line runs a command")
	c.check("loop", "refused", w, refused > 0, "no command is ever answered with its usage")
	c.check("loop", "unknown", w, unknown > 0, "no line is recognised as unknown or exit")
	c.check("loop", "ends", w, ended > 0, "the session does not end when its input ends")
	c.count["lines run"], c.count["lines not run"], c.count["ends"] = ran, unknown+went, ended
	// the search of a command
	for _, rt := range roundTrips(paths) {
		for _, v := range visits(rt) {
			if !isCommandElem(v.Addr) {
				continue
			}
			ran := false
			for _, e := range rt.Evs {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "dynamic") {
					ran = true
				}
			}
			c.check("lookup", "no effect", where(c, v.At), !ran, "a command is run while the commands are searched")
			// it goes on only after a mismatch
			differ := false
			for _, q := range eqLits(rt.Path.St.pc, false) {
				for _, o := range [][2]*Term{q, {q[1], q[0]}} {
					if b, n := fieldOf(strip(o[0])); b != nil && n == "Name" && (b == v.Addr || b == v.Elem || b.Op == "ld" && b.Args[0] == v.Addr) {
						differ = true
					}
				}
			}
			c.check("lookup", "goes on", where(c, v.At), differ && v.Full, "a registered command can be passed over although it has the name looked for")
		}
	}
}

func firstArg(e *Ev) *Term {
	if len(e.Args) == 0 {
		return nil
	}
	return e.Args[0]
}

// isCommandElem: t is (the address of) an element of the registered commands, or of a copy of all of them.
func isCommandElem(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "ld" {
		t = t.Args[0]
	}
	if t.Op != "iaddr" {
		return false
	}
	s := t.Args[0]
	if s.Op == "append" && s.Aux == "spread" && len(s.Args) == 2 {
		if n, ok := lenOf(s.Args[0]).intVal(); ok && n == 0 {
			s = s.Args[1]
		}
	}
	n := nameOf(s)
	return n == "ssh.commands" || strings.HasPrefix(n, "ssh.commands")
}

// ---- K04 ----

// commandFuncs lists the functions stored in the given field of ssh.Command values anywhere in the program.
func (c *Ctx) commandFuncs(field string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	for _, fn := range c.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != "ssh.Command" {
					continue
				}
				if s := derefStruct(fa.X.Type()); s == nil || s.Field(fa.Field).Name() != field {
					continue
				}
				for _, g := range c.closuresOf(st.Val) {
					if !seen[g] {
						seen[g] = true
						r = append(r, g)
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

func controlCrash(c *Ctx) {
	obs := func(o *Ob) {
		c.check("panic-free", o.Fn+": "+o.Key, o.Where, o.Fail == "", "%s", o.Fail)
	}
	c.assume("the generated parser and the readline and ssh libraries do not panic, and readline passes a cursor position within the line")
	o := opt{obs: obs, noSpawn: true, joinMax: 10, keep: func(*Ev) bool { return false }, init: nonNilParams}
	for _, field := range []string{"ExecFunc", "OptionsFunc"} {
		for _, f := range c.commandFuncs(field) {
			c.check("command function", field+" "+fnName(f), c.at(f.Pos()), true, "")
			c.exploreFn(f, o)
		}
	}
	// every command can be run
	for _, fn := range c.p.fns {
		made := map[ssa.Value]map[string]bool{}
		at := map[ssa.Value]token.Pos{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != "ssh.Command" {
					continue
				}
				if made[fa.X] == nil {
					made[fa.X], at[fa.X] = map[string]bool{}, in.Pos()
				}
				made[fa.X][derefStruct(fa.X.Type()).Field(fa.Field).Name()] = !isNilConst(st.Val)
			}
		}
		for v, fs := range made {
			if fs["Name"] {
				c.check("runnable", fnName(fn)+" "+v.Name(), c.at(at[v]), fs["ExecFunc"], "a command has no function to run")
			}
		}
	}
	c.need("runnable", 6)
	c.need("command function", 10)
	// completion
	n := 0
	for _, f := range c.p.fns {
		if f.Signature.Recv() == nil || f.Synthetic != "" || c.p.isGenerated(f) {
			continue
		}
		switch {
		case f.Name() == "Do" && len(f.Params) == 3 && f.Params[1].Type().String() == "[]rune":
			n++
			c.exploreFn(f, opt{obs: obs, noSpawn: true, joinMax: 10, keep: o.keep, init: func(ex *Exec, st *State, args []*Term) {
				nonNilParams(ex, st, args[:1])
				st.addFact(mkNot(mkLt0(linOf(args[2]))))
				st.addFact(mkNot(mkLt0(linOf(mkSub(lenOf(args[1]), args[2], nil)))))
			}})
		case embeds(f.Signature.Recv().Type(), "BaseShellListener") && (strings.HasPrefix(f.Name(), "Enter") || strings.HasPrefix(f.Name(), "Exit") || strings.HasPrefix(f.Name(), "Visit")):
			n++
			c.exploreFn(f, o)
		}
	}
	c.check("completion and parsing", "found", "ssh", n >= 4, "only %d of the functions called for completion and parsing were found", n)
	for _, f := range []string{"ssh/parser.ParseCommand", "(ssh/parser.ParsedCommand).Unparse"} {
		if g := c.p.fn(f); g != nil {
			c.exploreFn(g, o)
		}
	}
	// the session
	for _, f := range c.sessionHandlers() {
		c.exploreFn(f, opt{obs: obs, joinMax: 10, keep: o.keep, init: nonNilParams})
	}
	c.need("panic-free", 40)
}

// embeds: the struct type (or what it points to) embeds a type of that name.
func embeds(t types.Type, name string) bool {
	s := derefStruct(t)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() && f.Name() == name {
			return true
		}
	}
	return false
}
