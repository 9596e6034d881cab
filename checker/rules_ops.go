package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "O01", Title: "A program which cannot do its job ends with an error, one which can runs until it is interrupted",
		Statement: "If the music directory, the users file, the addresses, or an option value which must be positive cannot be used, or the server cannot be reached, the program ends with an error (a non-zero exit status) before it streams, plays, displays or opens the control interface; it never carries on without what failed and never ends with a zero status because of it. Otherwise it starts its part (the server: streaming and the control interface; player and infoer: their part of the schedule) exactly once, with the connection made, and ends only when it is interrupted. A client ends with an error when its connection to the server ends, when it cannot subscribe, or (player) when the sound device cannot be opened. Waiting for the interrupt can never panic.",
		Over:      []string{"inputs", "fault points"}, Quant: "all option values, failures of files, listeners, connections and devices, and times of interrupts", Why: "Swallowing one error at start-up leaves a process which looks alive and plays nothing; exiting with status zero hides it from whatever supervises the program. Tests do not run the main packages.",
		Files:     []string{"cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "cmd/util.go", "cmd/flags.go", "schedule/player.go", "schedule/infoer.go", "comm/conn_handler.go", "util/file_utils.go"},
		Mech:      [][2]string{{"start-up", "run"}, {"exit status", "main"}, {"interrupt", "WaitForInterrupt"}, {"connection lost", "ConnectToServer"}, {"device and subscription", "Player, Infoer"}},
		Technique: "abstract interpretation of main and the function it gives to the command line library, from the state the package initialisers leave, over every outcome of every call which can fail; typestate of the channel given to the signal package",
		Run:       runO01,
	})
	register(&Prop{
		ID: "O02", Title: "Every option does what its name says, in every program which offers it",
		Statement: "Each program offers its options under distinct names, reads every option under one of its own names and with its own type, and uses its value for exactly the setting it is named after: sample rate, chunk size (and the duration of a chunk, chunk size * 1 s / sample rate), delays, break between songs, time synchronisation, music directory, users file, host key, addresses and ports (address:port of the music and the control listener are not mixed up), lyrics lines. All settings are made before anything is started which uses them. The defaults are the documented ones, and a client started without options connects where a server started without options listens, and uses its sample rate.",
		Over:      []string{"inputs"}, Quant: "all command lines", Why: "An option which is read under the wrong name silently has its zero value or that of another option; the devices then play at other rates, or are never in sync. Tests do not run the main packages.",
		Files:     []string{"cmd/flags.go", "cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "schedule/schedule.go", "playback/playlist.go", "ssh/ssh.go"},
		Mech:      [][2]string{{"options", "ServerAddressFlag, ..."}, {"names", "FlagKey"}, {"settings", "setScheduleVars, run"}},
		Technique: "provenance of the value of every setting at the start of the program's goroutines, as a term over the command line library's getters, with the option's name evaluated from the state the package initialisers leave",
		Run:       runO02,
	})
}

// boot is what was found out about how one program starts.
type boot struct {
	pr     *program
	app    *Term // the cli.App
	flags  []bootFlag
	mains  []*Path
	action *ssa.Function
	paths  []*Path
	ctx    *Term
}

type bootFlag struct {
	names []string
	typ   string // Int, String, Duration, Uint, ...
	value *Term
	log   bool
}

const cliPkg = "github.com/urfave/cli"

// initState: the state the initialiser of a package leaves.
func (c *Ctx) initState(rel string) *State {
	f := c.p.fn(rel + ".init")
	if f == nil {
		return nil
	}
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true})) {
		for _, e := range p.Events() {
			if e.Kind == "store" && e.Addr != nil && strings.Contains(e.Addr.String(), "init$guard") {
				st := p.St.clone()
				st.ev, st.held = nil, nil
				return st
			}
		}
	}
	return nil
}

// screenFn: functions of the programs which work on the terminal.
func screenFn(f *ssa.Function) bool {
	is := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			if namedOf(t.At(i).Type()) == "github.com/gdamore/tcell.Screen" {
				return true
			}
		}
		return false
	}
	return f.Signature.Recv() == nil && f.Parent() == nil && (is(f.Signature.Params()) || is(f.Signature.Results()))
}

// boots explores how every program starts.
func (c *Ctx) boots() []*boot {
	var r []*boot
	st0 := c.initState("cmd")
	if !c.check("start-up", "cmd", "-", st0 != nil, "the initialisation of the package with the options was not followed") {
		return nil
	}
	for _, pr := range c.programs() {
		b := &boot{pr: pr}
		inProg := func(f *ssa.Function) bool {
			for f.Parent() != nil {
				f = f.Parent()
			}
			if f.Pkg == nil {
				return true
			}
			rel := c.p.pkgRel(f)
			return rel == pr.name || rel == "cmd"
		}
		o := opt{unroll: true, maxSteps: 600000,
			opaque: func(f *ssa.Function) bool {
				return !inProg(f) || screenFn(f) || fnName(f) == "cmd.HandleLoggingFlags" || fnName(f) == "cmd.WaitForInterrupt"
			},
			onRoot: func(r *Root) bool { return r.Kind == "go" && r.Fn.Parent() != nil && inProg(r.Fn) },
		}
		from := func(f *ssa.Function) *Root {
			root := &Root{Name: fnName(f), Fn: f, Kind: "entry", init: st0.clone()}
			for _, q := range f.Params {
				root.Args = append(root.Args, mkParam(f, q))
			}
			return root
		}
		var m *ssa.Function
		for _, f := range c.p.fns {
			if f.Name() == "main" && f.Parent() == nil && f.Pkg != nil && c.p.pkgRel(f) == pr.name {
				m = f
			}
		}
		o1 := o
		o1.root = from(m)
		o1.noSpawn = true
		for _, p := range c.exploreFn(m, o1) {
			if p.End == "ret" || p.End == "exit" {
				b.mains = append(b.mains, p)
			}
		}
		// what it gives to the command line library
		for _, p := range b.mains {
			evs := p.Events()
			for i, e := range evs {
				if !isCall(e, "(*"+cliPkg+".App).Run", "(*"+cliPkg+".App).RunAndExitOnError") {
					continue
				}
				b.app = strip(e.Args[0])
				for _, s := range evs[:i] {
					if s.Kind != "store" || s.Addr == nil || s.Addr.Op != "faddr" || strip(s.Addr.Args[0]) != b.app {
						continue
					}
					switch fieldName(s.Addr) {
					case "Action":
						if f, ok := strip(s.Val).Aux.(*ssa.Function); ok {
							b.action = f
						}
					case "Flags":
						l, ok := c.elems(p.St, s.Val, 0)
						c.check("options", pr.name, where(c, s), ok, "the options of the program are not a known list")
						b.flags = nil
						for _, x := range l {
							// the array was given away since
							if x.Op == "ld" {
								for _, w := range evs[:i] {
									if w.Kind == "store" && w.Addr == x.Args[0] {
										x = w.Val
									}
								}
							}
							b.flags = append(b.flags, c.bootFlag(x))
						}
					}
				}
			}
		}
		if !c.check("start-up", pr.name, c.at(m.Pos()), b.app != nil && b.action != nil && len(b.action.Params) == 1, "main does not give a function to run to the command line library") {
			continue
		}
		c.check("options", pr.name, c.at(m.Pos()), len(b.flags) > 0, "the program offers no options")
		o.root = from(b.action)
		b.ctx = o.root.Args[0]
		for _, p := range c.exploreFn(b.action, o) {
			if p.End == "ret" || p.End == "exit" {
				b.paths = append(b.paths, p)
			}
		}
		r = append(r, b)
	}
	return r
}

func splitNames(s string) []string {
	var r []string
	for _, n := range strings.Split(s, ",") {
		r = append(r, strings.TrimSpace(n))
	}
	return r
}

// bootFlag reads an option from the value given to the library.
func (c *Ctx) bootFlag(x *Term) bootFlag {
	x = strip(x)
	var f bootFlag
	t := x.Typ
	for x != nil && x.Op == "struct" {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		if strings.HasPrefix(namedOf(t), cliPkg+".") && strings.HasSuffix(namedOf(t), "Flag") {
			f.typ = strings.TrimSuffix(strings.TrimPrefix(namedOf(t), cliPkg+"."), "Flag")
			for i := 0; i < s.NumFields(); i++ {
				switch s.Field(i).Name() {
				case "Name":
					if n, ok := foldStr(x.Args[i]); ok {
						f.names = splitNames(n)
					}
				case "Value":
					f.value = x.Args[i]
				}
			}
			return f
		}
		emb := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				emb = i
			}
		}
		if emb < 0 {
			break
		}
		f.log = true
		x, t = strip(x.Args[emb]), s.Field(emb).Type()
	}
	return f
}

// foldStr evaluates a text made of constants with the functions used to pick a name from a list of names.
func foldStr(t *Term) (string, bool) {
	t = strip(t)
	if t == nil {
		return "", false
	}
	if cv, ok := t.Aux.(constant.Value); ok && t.Op == "const" && cv.Kind() == constant.String {
		return constant.StringVal(cv), true
	}
	list := func(t *Term) ([]string, bool) {
		t = strip(t)
		for _, fn := range []string{"strings.Split", "strings.SplitN", "strings.Fields", "strings.FieldsFunc"} {
			if !isApp(t, fn) {
				continue
			}
			s, ok := foldStr(t.Args[0])
			if !ok {
				return nil, false
			}
			if fn == "strings.Fields" {
				return strings.Fields(s), true
			}
			sep, ok := foldStr(t.Args[1])
			if !ok {
				return nil, false
			}
			if fn == "strings.SplitN" {
				n, ok := t.Args[2].intVal()
				return strings.SplitN(s, sep, int(n)), ok
			}
			return strings.Split(s, sep), true
		}
		return nil, false
	}
	switch {
	case t.Op == "ld" && t.Args[0].Op == "iaddr":
		l, ok := list(t.Args[0].Args[0])
		i, ok2 := foldInt(t.Args[0].Args[1])
		if ok && ok2 && 0 <= i && int(i) < len(l) {
			return l[i], true
		}
	case t.Op == "app":
		name, _ := t.Aux.(string)
		if strings.HasPrefix(name, "("+cliPkg+".") && strings.HasSuffix(name, ").GetName") {
			x := strip(t.Args[0])
			if x.Op == "struct" {
				return foldStr(x.Args[0])
			}
			return "", false
		}
		var a []string
		for _, x := range t.Args {
			s, ok := foldStr(x)
			if !ok {
				return "", false
			}
			a = append(a, s)
		}
		switch {
		case name == "strings.TrimSpace" && len(a) == 1:
			return strings.TrimSpace(a[0]), true
		case name == "strings.Trim" && len(a) == 2:
			return strings.Trim(a[0], a[1]), true
		case name == "strings.TrimRight" && len(a) == 2:
			return strings.TrimRight(a[0], a[1]), true
		case name == "strings.TrimLeft" && len(a) == 2:
			return strings.TrimLeft(a[0], a[1]), true
		case name == "strings.TrimSuffix" && len(a) == 2:
			return strings.TrimSuffix(a[0], a[1]), true
		case name == "strings.TrimPrefix" && len(a) == 2:
			return strings.TrimPrefix(a[0], a[1]), true
		case name == "strings.ToLower" && len(a) == 1:
			return strings.ToLower(a[0]), true
		}
	case t.Op == "ex" && isApp(t.Args[0], "strings.Cut"):
		s, ok := foldStr(t.Args[0].Args[0])
		sep, ok2 := foldStr(t.Args[0].Args[1])
		if ok && ok2 {
			x, y, _ := strings.Cut(s, sep)
			if t.Aux == 0 {
				return x, true
			} else if t.Aux == 1 {
				return y, true
			}
		}
	case t.Op == "cat":
		s := ""
		for _, x := range t.Args {
			y, ok := foldStr(x)
			if !ok {
				return "", false
			}
			s += y
		}
		return s, true
	}
	return "", false
}

func foldInt(t *Term) (int64, bool) {
	if i, ok := t.intVal(); ok {
		return i, true
	}
	return 0, false
}

// option: the value of which option t is. The name is "" for an option which the program does not have (or which is read
// with the wrong type).
func (b *boot) option(t *Term) (name string, is bool) {
	t = strip(t)
	if t == nil || t.Op != "app" {
		return "", false
	}
	n, _ := t.Aux.(string)
	if !strings.HasPrefix(n, "(*"+cliPkg+".Context).") || len(t.Args) < 2 || strip(t.Args[0]) != b.ctx {
		return "", false
	}
	k, ok := foldStr(t.Args[1])
	if !ok {
		return "", true
	}
	for _, f := range b.flags {
		for _, fn := range f.names {
			if fn == k && f.typ == strings.TrimPrefix(strings.TrimPrefix(n, "(*"+cliPkg+".Context)."), "Global") {
				return f.names[0], true
			}
		}
	}
	return "", true
}

// started: the module functions which were started before or at event i of a path of the entry, with the event (in the goroutine
// started, if it is started by way of a function literal).
type startedFn struct {
	f    *ssa.Function
	ev   *Ev
	args []*Term
	at   int
	n    int // how often on its path
}

func (b *boot) started(p *Path) []startedFn {
	var r []startedFn
	for i, e := range p.Events() {
		if e.Kind != "go" {
			continue
		}
		if e.Callee != nil && e.Callee.Parent() == nil {
			r = append(r, startedFn{e.Callee, e, e.Args, i, 1})
			continue
		}
		seen := map[*ssa.Function]bool{}
		for _, q := range b.paths {
			if q.Root.Spawn != e {
				continue
			}
			for _, x := range q.Events() {
				if x.Kind == "call" && x.Callee != nil && x.Callee.Parent() == nil && !seen[x.Callee] {
					seen[x.Callee] = true
					r = append(r, startedFn{x.Callee, x, x.Args, i, 1})
				}
			}
		}
	}
	return r
}

// isWait: the program waits to be interrupted (or for the display to be closed).
func (c *Ctx) isWait(e *Ev) bool {
	if e.Kind != "call" {
		return false
	}
	if e.Callee == nil {
		return false
	}
	if fnName(e.Callee) == "cmd.WaitForInterrupt" {
		return true
	}
	if screenFn(e.Callee) && e.Callee.Signature.Params().Len() > 0 && c.p.inModule(e.Callee) {
		return true
	}
	return false
}

// work: the functions which do the program's work, started in the background.
func (c *Ctx) isWork(f *ssa.Function) bool {
	rel := c.p.pkgRel(f)
	return rel == "schedule" || rel == "ssh"
}

func (c *Ctx) fallible(e *Ev) *Term {
	if e.Kind != "call" && e.Kind != "pure" {
		return nil
	}
	for _, s := range []string{"fmt.", "errors.", "github.com/pkg/errors.", cliPkg + ".NewExitError", cliPkg + ".NewMultiError"} {
		if strings.HasPrefix(e.Name, s) {
			return nil
		}
	}
	if e.Res == nil || e.Res.isNil() || e.Res.Op == "errnew" {
		return nil
	}
	t := errOf(e)
	if t == nil || t.isNil() || t.Op == "errnew" {
		return nil
	}
	return t
}

func runO01(c *Ctx) {
	bs := c.boots()
	c.check("programs", "programs", "-", len(bs) == 3, "there are %d programs instead of server, player and infoer", len(bs))
	for _, b := range bs {
		c.bootMain(b)
		c.bootRun(b)
	}
	c.need("status", 3)
	c.waitForInterrupt()
	c.screenLoop()
	c.clientEnds()
	c.listening()
	c.checkDir()
}

// exitsNonZero: the path ends in an exit with a status which is not zero.
func exitsNonZero(p *Path) bool {
	if p.End != "exit" {
		return false
	}
	evs := p.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		switch e.Name {
		case "os.Exit", "syscall.Exit":
			if e.Kind == "call" {
				return p.St.pc.entails(mkNot(mkEq(e.Args[0], mkInt(0, e.Args[0].Typ))))
			}
		case "log.Fatal", "log.Fatalf", "log.Fatalln":
			return true
		}
	}
	return false
}

func (c *Ctx) bootMain(b *boot) {
	for _, p := range b.mains {
		n := 0
		for _, e := range p.Events() {
			if isCall(e, "(*"+cliPkg+".App).RunAndExitOnError") {
				n++
			}
			if !isCall(e, "(*"+cliPkg+".App).Run") {
				continue
			}
			n++
			err := errOf(e)
			if nilAt(p.St.pc, err) {
				c.check("status", b.pr.name, where(c, e), p.End == "ret", "main ends with an error although the program ended without one")
			} else {
				c.check("status", b.pr.name, where(c, e), exitsNonZero(p), "an error with which the program ended does not lead to a non-zero exit status")
			}
			a := e.Args[len(e.Args)-1]
			c.check("arguments", b.pr.name, where(c, e), a.Op == "ld" && isGlobalAddr(a.Args[0], "os.Args"), "the program is not run with the command line")
		}
		c.check("run", b.pr.name, c.at(p.Root.Fn.Pos()), n == 1, "main does not run the program exactly once")
	}
}

func (c *Ctx) bootRun(b *boot) {
	name := b.pr.name
	ok := 0
	for _, p := range b.paths {
		if p.Root.Kind != "entry" {
			continue
		}
		evs := p.Events()
		wait := -1
		for i, e := range evs {
			if c.isWait(e) {
				wait = i
				break
			}
		}
		end := len(evs)
		if wait >= 0 {
			end = wait
		}
		var failed *Ev
		for _, e := range evs[:end] {
			if t := c.fallible(e); t != nil && !nilAt(p.St.pc, t) {
				failed = e
				break
			}
		}
		works := b.started(p)
		var ret *Term
		if p.End == "ret" && len(p.Rets) == 1 {
			ret = p.Rets[0]
		}
		isErr := p.End == "exit" && exitsNonZero(p) || ret != nil && notNilAt(p.St.pc, ret)
		if x := strip(ret); x != nil && x.Op == "errnew" {
			if n, _ := x.Aux.(string); strings.HasSuffix(n, "NewExitError") && len(x.Args) > 1 {
				isErr = isErr && p.St.pc.entails(mkNot(mkEq(x.Args[1], mkInt(0, x.Args[1].Typ))))
			}
		}
		if failed != nil {
			c.check("failure is fatal", name+" "+failed.Name, where(c, failed), isErr, "the program does not end with a non-zero status although %s may have failed", failed.Name)
			c.check("failure is fatal", name+" waits after "+failed.Name, where(c, failed), wait < 0, "the program goes on although %s may have failed", failed.Name)
			for _, w := range works {
				c.check("failure is fatal", name+" starts after "+failed.Name, where(c, w.ev), !c.isWork(w.f), "%s is started although %s may have failed", fnName(w.f), failed.Name)
			}
			continue
		}
		if isErr {
			// refused because of an option
			c.check("refused at start", name, c.at(p.Root.Fn.Pos()), wait < 0 && len(works) == 0, "the program ends with an error after it was started")
			continue
		}
		ok++
		c.check("runs until interrupted", name, c.at(p.Root.Fn.Pos()), p.End == "ret" && wait >= 0, "the program ends without an error although it was not interrupted")
		if wait < 0 {
			continue
		}
		c.check("ends without error", name, where(c, evs[wait]), ret != nil && ret.isNil(), "the program ends with an error when it is interrupted")
		// what was done before
		cnt := map[string]int{}
		var conn *Ev
		for _, e := range evs[:wait] {
			if e.Kind == "call" && e.Callee != nil {
				cnt[fnName(e.Callee)]++
				if n := fnName(e.Callee); n == "comm.StartServer" || n == "comm.ConnectToServer" {
					conn = e
				}
			}
		}
		wcnt := map[string]int{}
		for _, w := range works {
			if !c.isWork(w.f) {
				continue
			}
			wcnt[fnName(w.f)]++
			c.check("starts its part", name+" "+fnName(w.f), where(c, w.ev), w.at < wait, "%s is started only after the program was interrupted", fnName(w.f))
			if c.p.pkgRel(w.f) == "schedule" {
				c.check("starts its part", name+" sender", where(c, w.ev), conn != nil && len(w.args) == 1 && strip(w.args[0]) == strip(comp(conn, 0)), "%s does not get the connection which was made", fnName(w.f))
			}
		}
		kind := name[strings.LastIndex(name, "-")+1:]
		want := map[string]int{}
		var must []string
		switch kind {
		case "server":
			want = map[string]int{"schedule.Server": 1, "ssh.StartSSH": 1}
			must = []string{"comm.StartServer", "ssh.ReadUsersFile", "util.CheckDir"}
		case "player":
			want = map[string]int{"schedule.Player": 1}
			must = []string{"comm.ConnectToServer"}
		case "infoer":
			want = map[string]int{"schedule.Infoer": 1}
			must = []string{"comm.ConnectToServer"}
		}
		for _, k := range sortedKeys(want) {
			c.check("starts its part", name+" "+k, where(c, evs[wait]), wcnt[k] == want[k], "%s is started %d times instead of once", k, wcnt[k])
		}
		for _, k := range sortedKeys(wcnt) {
			c.check("starts its part", name+" "+k, where(c, evs[wait]), want[k] == 1, "%s is started by the %s", k, kind)
		}
		for _, k := range must {
			c.check("prepared", name+" "+k, where(c, evs[wait]), cnt[k] == 1, "%s is called %d times instead of once", k, cnt[k])
		}
		// option values which have to be positive
		pos := map[string]bool{"sample-rate": false}
		if kind == "server" {
			pos["stream-chunk-size"] = false
		}
		for _, l := range p.St.pc.lits() {
			l.find(func(x *Term) bool {
				if n, is := b.option(x); is && n != "" {
					if _, w := pos[n]; w && positive(p.St.pc, x) {
						pos[n] = true
					}
				}
				return false
			})
		}
		for _, k := range sortedKeys(pos) {
			c.check("positive", name+" "+k, where(c, evs[wait]), pos[k], "the program runs with a %s which may not be positive", k)
		}
	}
	c.check("can run", name, c.at(b.action.Pos()), ok > 0, "the program never gets to work")
}

// waitForInterrupt: the channel given to the signal package stays open while signals may be sent to it, and the function
// returns only after one arrived.
func (c *Ctx) waitForInterrupt() {
	paths := c.explore("cmd.WaitForInterrupt", opt{noSpawn: true})
	n := 0
	for _, p := range paths {
		if p.End == "back" {
			continue
		}
		evs := p.Events()
		var ch *Term
		stopped, got, closed := false, false, false
		for _, e := range evs {
			switch {
			case isCall(e, "os/signal.Notify"):
				ch = strip(e.Args[0])
				l := e.Var
				if !e.HasVar {
					l, _ = c.elems(p.St, e.Args[1], 0)
				}
				onInt := false
				for _, x := range l {
					onInt = onInt || strings.Contains(x.String(), "Interrupt") || strings.Contains(x.String(), "SIGINT")
				}
				c.check("interrupt", "signals", where(c, e), onInt || len(l) == 0, "the program does not wait for an interrupt")
				buf := capOf(ch)
				k, ok := buf.intVal()
				c.check("interrupt", "buffer", where(c, e), ok && k >= 1, "an interrupt which arrives before the program waits for it is lost")
			case isCall(e, "os/signal.Stop", "os/signal.Reset"):
				stopped = true
			case e.Kind == "close" && ch != nil && strip(e.Addr) == ch:
				closed = true
				c.check("interrupt", "close", where(c, e), stopped, "the channel is closed while signals may still be sent to it: the next interrupt panics")
			case e.Kind == "recv" && ch != nil && strip(e.Addr) == ch:
				got = true
				c.check("interrupt", "receive", where(c, e), !stopped && !closed, "the program waits for signals after it stopped to receive them")
			}
		}
		if p.End == "ret" {
			n++
			c.check("interrupt", "waits", c.at(p.Root.Fn.Pos()), ch != nil && got, "the program ends without an interrupt")
		}
	}
	c.check("interrupt", "ends", "-", n > 0, "the program does not end when it is interrupted")
}

func positive(pc *PC, x *Term) bool {
	return pc.entails(mkLt0(linOf(mkInt(0, x.Typ)).add(linOf(x), -1)))
}

// screenLoop: the display runs until Ctrl-C is pressed or the screen is closed, and leaves the terminal as it was.
func (c *Ctx) screenLoop() {
	const poll = "(github.com/gdamore/tcell.Screen).PollEvent"
	polls := map[*ssa.Function]bool{}
	for f := range c.callersOf(poll) {
		polls[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f := range polls {
			for _, in := range c.cg().in[f] {
				if g := in.Parent(); !polls[g] {
					polls[g] = true
					ch = true
				}
			}
			if g := f.Parent(); g != nil && !polls[g] {
				polls[g] = true
				ch = true
			}
		}
	}
	n := 0
	for _, f := range c.p.fns {
		if !screenFn(f) || !c.p.inModule(f) || len(f.Blocks) == 0 {
			continue
		}
		if f.Signature.Results().Len() > 0 {
			n++
			good := 0
			for _, p := range c.exploreFn(f, opt{noSpawn: true}) {
				if p.End == "back" {
					continue
				}
				var failed *Ev
				for _, e := range p.Events() {
					if t := c.fallible(e); t != nil && failed == nil && !nilAt(p.St.pc, t) {
						failed = e
					}
				}
				if failed == nil {
					if p.End == "ret" {
						good++
					}
					continue
				}
				isErr := exitsNonZero(p)
				if p.End == "ret" && len(p.Rets) > 0 {
					l := p.Rets[len(p.Rets)-1]
					isErr = isErr || isErrorType(l.Typ) && notNilAt(p.St.pc, l)
				}
				c.check("screen", fnName(f)+" "+failed.Name, where(c, failed), isErr, "the infoer goes on, or ends with a zero status, although %s may have failed", failed.Name)
			}
			c.check("screen", fnName(f), c.at(f.Pos()), good > 0, "the screen is never ready")
			continue
		}
		if !polls[f] {
			continue
		}
		n++
		paths := c.exploreFn(f, opt{opaque: func(g *ssa.Function) bool { return g.Parent() == nil && !polls[g] }})
		interrupted := func(q *Path, upto int) bool {
			evs := q.Events()
			for i := upto - 1; i >= 0; i-- {
				e := evs[i]
				if !isCall(e, poll) {
					continue
				}
				if nilAt(q.St.pc, e.Res) {
					return true
				}
				for _, k := range evs[i:upto] {
					if isCall(k, "(*github.com/gdamore/tcell.EventKey).Key") && k.Args[0].contains(e.Res) && q.St.pc.entails(mkEq(k.Res, mkInt(3, k.Res.Typ))) {
						return true
					}
				}
				return false
			}
			return false
		}
		ends := 0
		for _, p := range paths {
			evs := p.Events()
			if p.End != "ret" || p.Root.Kind != "entry" {
				continue
			}
			ends++
			why := interrupted(p, len(evs))
			for _, e := range evs {
				if e.Kind != "recv" {
					continue
				}
				// closed (or sent to) by a goroutine which was told to end
				m, all := 0, true
				for _, q := range paths {
					if q.Root.Spawn == nil {
						continue
					}
					for j, x := range q.Events() {
						if (x.Kind == "close" || x.Kind == "send") && strip(x.Addr) == strip(e.Addr) {
							m++
							all = all && interrupted(q, j)
						}
					}
				}
				why = why || m > 0 && all
			}
			c.check("display", "ends", c.at(f.Pos()), why, "the display ends although neither Ctrl-C was pressed nor the screen was closed")
			c.check("display", "terminal", c.at(f.Pos()), len(calls(evs, "(github.com/gdamore/tcell.Screen).Fini")) > 0, "the terminal is not restored when the infoer ends")
		}
		c.check("display", "can end", c.at(f.Pos()), ends > 0, "the infoer can not be ended")
		// every key which ends it does so
		for _, rt := range roundTrips(paths) {
			if len(calls(rt.Evs, poll)) == 0 {
				continue
			}
			ctrlC, closed := false, false
			for _, e := range rt.Evs {
				if isCall(e, "(*github.com/gdamore/tcell.EventKey).Key") && !rt.Path.St.pc.entails(mkNot(mkEq(e.Res, mkInt(3, e.Res.Typ)))) {
					ctrlC = true
				}
				if isCall(e, poll) && !notNilAt(rt.Path.St.pc, e.Res) && !typeKnown(rt.Path.St.pc, e.Res) {
					closed = true
				}
			}
			c.check("display", "Ctrl-C", c.at(f.Pos()), !ctrlC, "Ctrl-C does not end the infoer")
			c.check("display", "closed screen", c.at(f.Pos()), !closed, "the infoer polls a closed screen forever")
		}
	}
	c.check("display", "functions", "-", n >= 2, "the functions which open and run the display were not found")
}

// typeKnown: the path condition says which dynamic type the value has (so it is not nil).
func typeKnown(pc *PC, t *Term) bool {
	for _, l := range pc.lits() {
		if l.Op == "hastype" && l.Args[0] == t || l.Op == "istype" && l.Args[0] == t {
			return true
		}
	}
	return false
}

// clientEnds: a client whose connection, subscription or device fails does not live on.
func (c *Ctx) clientEnds() {
	const fn = "comm.ConnectToServer"
	n, served := 0, 0
	paths := c.explore(fn, opt{opaque: opaqueSet("comm.handleConnection")})
	for _, p := range paths {
		evs := p.Events()
		if p.Root.Kind != "entry" {
			if p.End != "back" && len(calls(evs, "comm.handleConnection")) > 0 {
				served++
				c.check("connection lost", fn, c.at(p.Root.Fn.Pos()), exitsNonZero(p), "a client whose connection to the server ended does not end with an error")
			}
			continue
		}
		if p.End != "ret" || len(p.Rets) != 2 {
			continue
		}
		var failed *Ev
		var conn *Term
		for _, e := range evs {
			if t := c.fallible(e); t != nil && e.Kind == "call" && strings.HasPrefix(e.Name, "net.") {
				conn = comp(e, 0)
				if !nilAt(p.St.pc, t) {
					failed = e
				}
			}
		}
		if failed != nil {
			c.check("connect", fn, where(c, failed), notNilAt(p.St.pc, p.Rets[1]), "a client which could not connect is not told")
			continue
		}
		n++
		c.check("connect", fn+" sender", c.at(p.Root.Fn.Pos()), conn != nil && p.Rets[1].isNil(), "a client which is connected is told that it is not")
	}
	c.check("connect", fn, "-", n > 0 && served > 0, "a client is never connected and served")

	for _, w := range []struct {
		fn, channel string
	}{{"schedule.Player", "AUDIO"}, {"schedule.Infoer", "META"}} {
		subs, inits := 0, 0
		var want constant.Value
		if sp := c.p.by["comm"]; sp != nil {
			if k, ok := sp.Members["Channel_"+w.channel].(*ssa.NamedConst); ok {
				want = k.Value.Value
			}
		}
		for _, p := range c.explore(w.fn, opt{opaque: func(f *ssa.Function) bool {
			return f.Parent() == nil && fnName(f) != w.fn && (c.p.pkgRel(f) != "schedule" || len(c.callersOf(fnName(f))) > 1)
		}}) {
			for _, e := range p.Events() {
				if e.Kind != "call" {
					continue
				}
				what := ""
				switch {
				case isCall(e, "playback.Init"):
					what = "open the sound device"
					inits++
					a := e.Args[0]
					c.check("device", w.fn, where(c, e), a.Op == "ld" && isGlobalAddr(a.Args[0], "schedule.SampleRate"), "the sound device is not opened with the sample rate of the stream")
				case strings.HasSuffix(e.Name, ".SendMessage") && len(e.Args) > 0 && namedOf(strip(e.Args[len(e.Args)-1]).Typ) == "comm.SubscribeChannelRequest":
					what = "subscribe"
					subs++
					ch := msgFields(p, e.Args[len(e.Args)-1], e)["Channel"]
					v, ok := constant.Value(nil), false
					if ch != nil {
						v, ok = strip(ch).constVal()
					}
					c.check("subscribes", w.fn, where(c, e), ok && want != nil && constant.Compare(v, token.EQL, want), "%s does not subscribe to the channel %s", w.fn, w.channel)
				default:
					continue
				}
				t := errOf(e)
				if p.End == "back" || t == nil || nilAt(p.St.pc, t) {
					continue
				}
				c.check("client failure", w.fn+" "+e.Name, where(c, e), exitsNonZero(p), "a client which may have failed to %s does not end with an error", what)
			}
		}
		c.check("subscribes", w.fn, "-", subs > 0, "%s never subscribes to a channel", w.fn)
		if w.channel == "AUDIO" {
			c.check("device", w.fn, "-", inits > 0, "the sound device is never opened")
		}
	}
}

// listening: a server which cannot listen says so.
func (c *Ctx) listening() {
	const fn = "comm.StartServer"
	ok := 0
	for _, p := range rets(c.explore(fn, opt{noSpawn: true})) {
		var l *Ev
		for _, e := range p.Events() {
			if isCall(e, "net.Listen", "net.ListenTCP", "(*net.ListenConfig).Listen") {
				l = e
			}
		}
		if !c.check("listen", fn, c.at(p.Root.Fn.Pos()), l != nil && len(p.Rets) == 2, "the server does not listen") {
			continue
		}
		if !nilAt(p.St.pc, errOf(l)) {
			c.check("listen", fn, where(c, l), notNilAt(p.St.pc, p.Rets[1]), "a server which may not be able to listen is not told")
			continue
		}
		ok++
		c.check("listen", fn, where(c, l), p.Rets[1].isNil() && notNilAt(p.St.pc, p.Rets[0]), "a server which listens is told that it does not")
		if isCall(l, "net.Listen") {
			net, _ := l.Args[0].strVal()
			c.check("listen", fn+" address", where(c, l), net == "tcp" && l.Args[1] == mkParam(p.Root.Fn, p.Root.Fn.Params[0]), "the server does not listen at the address it is given")
		}
		acc := false
		for _, e := range p.Events() {
			if e.Kind == "go" {
				for _, a := range append(append([]*Term{}, e.Args...), bindsOf(e)...) {
					acc = acc || a.contains(comp(l, 0)) || a.Op == "alloc" && p.St.mem[a] != nil && p.St.mem[a].contains(comp(l, 0))
				}
			}
		}
		c.check("listen", fn+" accepts", where(c, l), acc, "nothing accepts the connections of the listener")
	}
	c.check("listen", fn, "-", ok > 0, "the server never listens")
}

func bindsOf(e *Ev) []*Term {
	b, _ := e.Aux.([]*Term)
	return b
}

// checkDir: the check of the music directory accepts exactly directories.
func (c *Ctx) checkDir() {
	const fn = "util.CheckDir"
	yes := 0
	for _, p := range rets(c.explore(fn, opt{noSpawn: true})) {
		var stat *Ev
		for _, e := range p.Events() {
			if isCall(e, "os.Stat") && e.Args[0] == mkParam(p.Root.Fn, p.Root.Fn.Params[0]) {
				stat = e
			}
		}
		isDir := false
		if stat != nil && nilAt(p.St.pc, errOf(stat)) {
			for _, l := range p.St.pc.lits() {
				if (l.Op == "app" || l.Op == "call") && strings.Contains(l.String(), "IsDir") && l.contains(comp(stat, 0)) {
					isDir = true
				}
			}
		}
		if isDir {
			yes++
			c.check("music directory", fn, c.at(p.Root.Fn.Pos()), p.Rets[0].isNil(), "a directory is refused")
		} else {
			c.check("music directory", fn, c.at(p.Root.Fn.Pos()), notNilAt(p.St.pc, p.Rets[0]), "something which may not be a directory is accepted")
		}
	}
	c.check("music directory", fn, "-", yes > 0, "no directory is accepted")
}

// settings: the variable which holds the value of an option.
var settings = map[string]string{
	"sample-rate":           "schedule.SampleRate",
	"time-sync-interval":    "schedule.TimeSyncInterval",
	"time-sync-cycles":      "schedule.TimeSyncCycles",
	"time-sync-cycle-delay": "schedule.TimeSyncCycleDelay",
	"stream-chunk-size":     "schedule.StreamChunkSize",
	"stream-start-delay":    "schedule.StreamStartDelay",
	"stream-delay":          "schedule.StreamDelay",
	"song-break-size":       "schedule.NanBreakSize",
	"music-dir":             "playback.AudioDir",
	"host-key":              "ssh.HostKeyFile",
}

// documented are the defaults the README promises.
var documented = map[string]string{
	"address": "127.0.0.1", "port": "13333", "ssh-address": "127.0.0.1", "ssh-port": "13334", "users-file": "users.json", "music-dir": "audio",
}

func runO02(c *Ctx) {
	bs := c.boots()
	c.check("programs", "programs", "-", len(bs) == 3, "there are %d programs instead of server, player and infoer", len(bs))
	kinds := map[string]*boot{}
	for _, b := range bs {
		kinds[b.pr.name[strings.LastIndex(b.pr.name, "-")+1:]] = b
		c.bootFlags(b)
		c.bootOptions(b)
	}
	// a client started without options finds the server started without options
	sv := kinds["server"]
	for _, k := range []string{"player", "infoer"} {
		b := kinds[k]
		if b == nil || sv == nil {
			continue
		}
		for _, n := range []string{"address", "port", "sample-rate"} {
			x, y := b.flag(n), sv.flag(n)
			if c.check("offered", b.pr.name+" "+n, c.at(b.action.Pos()), x != nil && y != nil, "the option %s is not offered by both the server and the %s", n, k) {
				c.check("same default", b.pr.name+" "+n, c.at(b.action.Pos()), x.value != nil && x.value == y.value, "the %s of the %s is not the server's by default", n, k)
			}
		}
	}
	c.need("setting", 12)
}

func (b *boot) flag(name string) *bootFlag {
	for i := range b.flags {
		for _, n := range b.flags[i].names {
			if n == name {
				return &b.flags[i]
			}
		}
	}
	return nil
}

func (c *Ctx) bootFlags(b *boot) {
	at := c.at(b.action.Pos())
	seen := map[string]bool{"help": true, "h": true, "version": true, "v": true, "generate-bash-completion": true}
	for _, f := range b.flags {
		if !c.check("names", b.pr.name, at, len(f.names) > 0 && f.typ != "", "an option of the program has no known name") {
			continue
		}
		for _, n := range f.names {
			c.check("distinct names", b.pr.name+" "+n, at, n != "" && !seen[n] && !strings.ContainsAny(n, " =\t") && !strings.HasPrefix(n, "-"), "two options of the program (or one and a built-in one) are called %q, or an option can not be given on the command line", n)
			seen[n] = true
		}
		if d, ok := documented[f.names[0]]; ok {
			v := "?"
			if f.value != nil {
				if s, ok := f.value.strVal(); ok {
					v = s
				} else if i, ok := f.value.intVal(); ok {
					v = strconv.FormatInt(i, 10)
				}
			}
			c.check("documented default", b.pr.name+" "+f.names[0], at, v == d, "%s is %s by default instead of %s", f.names[0], v, d)
		}
		if f.names[0] == "sample-rate" || f.names[0] == "stream-chunk-size" {
			i, ok := int64(0), false
			if f.value != nil {
				i, ok = f.value.intVal()
			}
			c.check("usable default", b.pr.name+" "+f.names[0], at, ok && i > 0, "the program refuses its own default of %s", f.names[0])
		}
	}
}

// listensAt: the options an address text is made of.
func (b *boot) addressText(t *Term) (addr, port string) {
	t = strip(t)
	num := func(t *Term) string {
		t = strip(t)
		if isApp(t, "strconv.Itoa") || isApp(t, "fmt.Sprint") && len(t.Args) == 1 || isApp(t, "strconv.FormatInt") {
			t = strip(t.Args[0])
		}
		for _, f := range []string{"fmt%d", "fmt%v"} {
			if isApp(t, f) && len(t.Args) == 1 {
				t = strip(t.Args[0])
			}
		}
		n, _ := b.option(t)
		return n
	}
	if isApp(t, "net.JoinHostPort") {
		a, _ := b.option(t.Args[0])
		return a, num(t.Args[1])
	}
	ps := catParts(t)
	if len(ps) != 3 {
		return "", ""
	}
	if s, ok := ps[1].strVal(); !ok || s != ":" {
		return "", ""
	}
	a, _ := b.option(ps[0])
	return a, num(ps[2])
}

func (c *Ctx) bootOptions(b *boot) {
	name := b.pr.name
	kind := name[strings.LastIndex(name, "-")+1:]
	ok := 0
	for _, p := range b.paths {
		if p.Root.Kind != "entry" {
			continue
		}
		evs := p.Events()
		used := map[string]bool{}
		look := func(t *Term, e *Ev) {
			if t == nil {
				return
			}
			t.find(func(x *Term) bool {
				if n, is := b.option(x); is {
					c.check("known option", name+" "+cut(x.String(), 60), where(c, e), n != "", "the program reads an option it does not have, or with another type (%s)", cut(strip(x).String(), 120))
					used[n] = true
				}
				return false
			})
		}
		wait, first := -1, -1
		for i, e := range evs {
			for _, a := range e.Args {
				look(a, e)
			}
			look(e.Val, e)
			look(e.Res, e)
			if wait < 0 && c.isWait(e) {
				wait = i
			}
			if first < 0 && e.Kind == "go" {
				first = i
			}
		}
		for _, l := range p.St.pc.lits() {
			look(l, &Ev{Instr: nil})
		}
		if wait < 0 || first < 0 {
			continue
		}
		ok++
		at := where(c, evs[wait])
		var conn, users, dir *Ev
		for _, e := range evs {
			if e.Kind != "call" || e.Callee == nil {
				continue
			}
			switch fnName(e.Callee) {
			case "comm.StartServer", "comm.ConnectToServer":
				conn = e
			case "ssh.ReadUsersFile":
				users = e
			case "util.CheckDir":
				dir = e
			}
		}
		lastVal := map[string]*Term{}
		for i, e := range evs {
			if e.Kind != "store" || e.Addr == nil || e.Addr.Op != "global" {
				continue
			}
			k := globalKey(e.Addr)
			lastVal[k] = e.Val
			for _, o := range sortedKeys(settings) {
				if settings[o] == k || k == "schedule.StreamChunkTime" {
					c.check("before it is used", name+" "+k, where(c, e), i < first, "%s is set after something which uses it was started", k)
				}
			}
		}
		opt := func(t *Term) string {
			n, _ := b.option(t)
			return n
		}
		for _, f := range b.flags {
			if len(f.names) == 0 || f.log || f.names[0] == "logging" {
				continue
			}
			n := f.names[0]
			c.check("option has an effect", name+" "+n, at, used[n], "the option %s is offered but not read", n)
			switch g := settings[n]; {
			case g != "":
				v := lastVal[g]
				got := ""
				if v != nil {
					if x := strip(v); isApp(x, "path/filepath.Clean") {
						v = x.Args[0]
					}
					got = opt(v)
				}
				c.check("setting", name+" "+n, at, got == n, "%s is not set to the option %s (but to %s)", g, n, cut(valText(lastVal[g], got), 80))
			case n == "address" || n == "port":
				a, q := "", ""
				if conn != nil {
					a, q = b.addressText(conn.Args[0])
				}
				c.check("address", name+" "+n, at, a == "address" && q == "port", "the %s does not use address:port as its address (%s:%s)", kind, a, q)
			case n == "ssh-address" || n == "ssh-port":
				a, q := "", ""
				for _, w := range b.started(p) {
					if fnName(w.f) == "ssh.StartSSH" && len(w.args) > 0 {
						a, q = b.addressText(w.args[0])
					}
				}
				c.check("address", name+" "+n, at, a == "ssh-address" && q == "ssh-port", "the control interface does not listen at ssh-address:ssh-port (but %s:%s)", a, q)
			case n == "users-file":
				c.check("setting", name+" "+n, at, users != nil && opt(users.Args[0]) == n, "the users are not read from the users file")
			case n == "lyrics-history-size":
				set := ""
				for _, k := range sortedKeys(lastVal) {
					if opt(lastVal[k]) == n {
						set = k
					}
				}
				c.check("setting", name+" "+n, at, set != "", "the number of lyrics lines is not set to the option")
			}
			if n == "music-dir" {
				c.check("setting", name+" checked "+n, at, dir != nil && opt(dir.Args[0]) == n, "another directory than the music directory is checked")
			}
			if n == "stream-chunk-size" {
				v := lastVal["schedule.StreamChunkTime"]
				c.check("setting", name+" chunk time", at, v != nil && b.chunkTime(v), "the duration of a chunk is not its size divided by the sample rate (%s)", valText(v, ""))
			}
		}
		for _, o := range sortedKeys(settings) {
			if v := lastVal[settings[o]]; v != nil {
				c.check("offered", name+" "+o, at, b.flag(o) != nil, "%s is set although the program does not offer the option", settings[o])
			}
		}
	}
	must := map[string][]string{
		"server": {"address", "port", "music-dir", "ssh-address", "ssh-port", "users-file", "host-key", "stream-chunk-size", "stream-start-delay", "stream-delay", "song-break-size", "sample-rate"},
		"player": {"address", "port", "sample-rate"},
		"infoer": {"address", "port", "sample-rate", "lyrics-history-size"},
	}
	for _, n := range must[kind] {
		c.check("offered", name+" "+n, c.at(b.action.Pos()), b.flag(n) != nil, "the %s does not offer the option %s", kind, n)
	}
	c.check("can run", name, c.at(b.action.Pos()), ok > 0, "the program never gets to work")
}

func valText(v *Term, opt string) string {
	if opt != "" {
		return "the option " + opt
	}
	if v == nil {
		return "nothing"
	}
	return v.String()
}

// chunkTime: t is chunk size * second / sample rate.
func (b *boot) chunkTime(t *Term) bool {
	t = strip(t)
	if !isApp(t, "quo") {
		return false
	}
	if n, _ := b.option(t.Args[1]); n != "sample-rate" {
		return false
	}
	l := linOf(strip(t.Args[0]))
	if l.C != 0 || len(l.Coefs) != 1 {
		return false
	}
	for x, k := range l.Coefs {
		n, _ := b.option(x)
		return n == "stream-chunk-size" && k == 1000000000
	}
	return false
}
