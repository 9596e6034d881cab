package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is the vocabulary in which the rules are written.

// opt adjusts an exploration.
type opt struct {
	keep     func(*Ev) bool
	joinMax  int
	opaque   func(fn *ssa.Function) bool
	noSpawn  bool
	maxSteps int
	guards   map[string]string
	init     func(ex *Exec, st *State, args []*Term) // facts about the arguments
	onRoot   func(r *Root) bool                      // whether to explore a goroutine/callback
	obs      func(o *Ob)                             // receives the proof obligations
	facts    map[string]fact                         // what holds of fields and variables
	unroll   bool                                    // follow loops with decided tests iteration by iteration
	root     *Root                                   // explore this instead of the function on its own
}

// guardedBy: the state which other goroutines change while its lock is not held, and that lock. Values read from it
// are forgotten when the lock is released, so what was decided in one critical section is not taken to hold in the next.
var guardedBy = map[string]string{
	"playback.Playlist.songs":             "playback.Playlist.songsMutex",
	"playback.Playlist.position":          "playback.Playlist.songsMutex",
	"playback.Playlist.playing":           "playback.Playlist.songsMutex",
	"playback.Playlist.currentSong":       "playback.Playlist.songsMutex",
	"playback.timedMultiStreamer.chunks":  "playback.timedMultiStreamer.chunksMutex",
	"playback.volume":                     "playback.stateMutex",
	"playback.streamer":                   "playback.stateMutex",
	"timing.offset":                       "timing.offsetsMutex",
	"timing.offsets":                      "timing.offsetsMutex",
	"schedule.serverState.volume":         "schedule.serverState.stateMutex",
	"schedule.serverState.newestSong":     "schedule.serverState.stateMutex",
	"schedule.serverState.pauses":         "schedule.serverState.pausesMutex",
	"comm.multiMessageSender.connections": "comm.multiMessageSender.mutex",
	"comm.multiMessageSender.channels":    "comm.multiMessageSender.mutex",
	"ssh.commands":                        "ssh.commandsMutex",
	"util.ErrorCollector.errs":            "util.ErrorCollector.errsMutex",
	"cmd/music-sync-infoer.state.Songs":   "cmd/music-sync-infoer.state.SongsMutex",
	"cmd/music-sync-infoer.state.Chunks":  "cmd/music-sync-infoer.state.ChunksMutex",
	"cmd/music-sync-infoer.state.Pauses":  "cmd/music-sync-infoer.state.PausesMutex",
	"cmd/music-sync-infoer.state.Volume":  "cmd/music-sync-infoer.state.VolumeMutex",
}

func (c *Ctx) defaultGuards() map[string]string {
	if os.Getenv("NOGUARD") != "" {
		return nil
	}
	return guardedBy
}

// explore abstractly interprets a function (and the goroutines and callbacks it creates) and returns all abstract paths.
func (c *Ctx) explore(name string, o opt) []*Path {
	f := c.p.fn(name)
	if f == nil || len(f.Blocks) == 0 {
		c.fail("anchor", name, "-", "the function %s, which this property is about, does not exist", name)
		return nil
	}
	return c.exploreFn(f, o)
}

func (c *Ctx) exploreFn(f *ssa.Function, o opt) []*Path {
	name := fnName(f)
	if c.imm == nil {
		c.imm = computeImmutable(c.p)
	}
	ex := newExec(c.p)
	ex.imm = c.imm
	ex.keep, ex.joinMax = o.keep, o.joinMax
	ex.opaqueFn = o.opaque
	ex.guards = o.guards
	if ex.guards == nil {
		ex.guards = c.defaultGuards()
	}
	ex.facts, ex.unroll = o.facts, o.unroll
	if c.factStores == nil {
		c.factStores, c.factUsed = map[*ssa.Store]bool{}, map[string]bool{}
	}
	ex.factStores, ex.factUsed = c.factStores, c.factUsed
	ex.maxSteps = 400000
	if o.maxSteps > 0 {
		ex.maxSteps = o.maxSteps
	}
	var out []*Path
	ex.sink = func(pt *Path) { out = append(out, pt) }
	var q []*Root
	if !o.noSpawn {
		ex.spawn = func(r *Root) {
			if o.onRoot == nil || o.onRoot(r) {
				q = append(q, r)
			}
		}
	}
	r0 := &Root{Name: name, Fn: f, Kind: "entry"}
	if o.init != nil {
		for _, p := range f.Params {
			r0.Args = append(r0.Args, mkParam(f, p))
		}
		r0.init = newState()
		o.init(ex, r0.init, r0.Args)
	}
	if o.root != nil {
		r0 = o.root
	}
	q = append(q, r0)
	n := 0
	for len(q) > 0 {
		r := q[0]
		q = q[1:]
		n++
		if n > 200 {
			ex.overflow = true
			break
		}
		ex.run(r)
	}
	if ex.overflow {
		c.fail("analysis bound", name, c.at(f.Pos()), "the abstract interpretation of %s did not finish within its bound", name)
	}
	for fn := range ex.fnsSeen {
		c.fns[fnName(fn)] = true
	}
	c.paths += len(out)
	if o.obs != nil {
		for _, k := range sortedKeys(ex.obs) {
			o.obs(ex.obs[k])
		}
	}
	return out
}

// invoke explores a function value found on a path, in the state at the end of that path.
func (c *Ctx) invoke(p *Path, fn *Term, o opt) []*Path {
	fn = strip(fn)
	if fn == nil || fn.Op != "closure" && fn.Op != "func" {
		return nil
	}
	f, _ := fn.Aux.(*ssa.Function)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	init := p.St.clone()
	init.ev, init.held = nil, nil
	r := &Root{Name: fnName(f), Fn: f, Kind: "entry", init: init, binds: fn.Args}
	for _, q := range f.Params {
		r.Args = append(r.Args, mkParam(f, q))
	}
	o.root = r
	return c.exploreFn(f, o)
}

// resOf: t is (a component of) the result of a call; idx is -1 for a single result.
func resOf(t *Term) (*Ev, int) {
	idx := -1
	for t != nil {
		switch t.Op {
		case "ex":
			idx = t.Aux.(int)
			t = t.Args[0]
			continue
		case "conv":
			if narrowing(t) {
				return nil, -1
			}
			t = t.Args[0]
			continue
		case "call":
			return t.Aux.(*CallRes).Ev, idx
		}
		return nil, -1
	}
	return nil, -1
}

// strip removes interface boxing and conversions which keep the value.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "unbox" || t.Op == "conv" && !narrowing(t)) && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// narrowing: a conversion which may lose more than the sign of its operand.
func narrowing(t *Term) bool {
	if t.Typ == nil || t.Args[0].Typ == nil {
		return false
	}
	b, ok1 := t.Typ.Underlying().(*types.Basic)
	a, ok2 := t.Args[0].Typ.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	if a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0 {
		return intBits(b) < intBits(a)
	}
	if a.Info()&b.Info()&types.IsFloat != 0 {
		return b.Kind() == types.Float32 && a.Kind() != types.Float32
	}
	return a.Info() != b.Info()
}

// sameSection: some lock is held at a and b, and not released between them.
func sameSection(evs []*Ev, a, b *Ev) bool {
	i, j := posOf(evs, a), posOf(evs, b)
	if i < 0 || j < 0 {
		return false
	}
	if j < i {
		i, j, a, b = j, i, b, a
	}
	for _, h := range a.Held {
		ok := false
		for _, g := range b.Held {
			ok = ok || g.L == h.L
		}
		for _, e := range evs[i:j] {
			if (e.Kind == "unlock" || e.Kind == "runlock" || e.Kind == "wait") && e.Addr == h.L {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func isApp(t *Term, name string) bool {
	return t != nil && t.Op == "app" && fmt.Sprint(t.Aux) == name
}

// isCall: the event is a call of one of the named functions (inlined ones too).
func isCall(e *Ev, names ...string) bool {
	if e.Kind != "call" && e.Kind != "pure" {
		return false
	}
	for _, n := range names {
		if e.Name == n || strings.HasSuffix(n, "*") && strings.HasPrefix(e.Name, n[:len(n)-1]) {
			return true
		}
	}
	return false
}

func calls(evs []*Ev, names ...string) []*Ev {
	var r []*Ev
	for _, e := range evs {
		if isCall(e, names...) {
			r = append(r, e)
		}
	}
	return r
}

// sinceLoop: the events of the current iteration of the innermost loop of function f which is active at event e
// (all events before e if e is in no loop of f).
func sinceLoop(evs []*Ev, f *ssa.Function, at int) []*Ev {
	for i := at; i >= 0; i-- {
		if evs[i].Kind == "loophead" && evs[i].Fn == f {
			return evs[i : at+1]
		}
	}
	return evs[:at+1]
}

// isField: t is field named name of a value or object whose type is named typ (short name).
func fieldOf(t *Term) (base *Term, name string) {
	t = strip(t)
	if t == nil {
		return nil, ""
	}
	switch t.Op {
	case "fld":
		return t.Args[0], fieldName(t)
	case "ld":
		if a := t.Args[0]; a.Op == "faddr" {
			return a.Args[0], fieldName(a)
		}
	case "sym":
	}
	return nil, ""
}

// namedOf is the short name of the (pointed to) named type.
func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return short(n.String())
	}
	return short(t.String())
}

// storesTo: store events to field name of type typ.
func isStoreTo(e *Ev, typ, name string) bool {
	if e.Kind != "store" || e.Addr == nil || e.Addr.Op != "faddr" {
		return false
	}
	if fieldName(e.Addr) != name {
		return false
	}
	return namedOf(e.Addr.Args[0].Typ) == typ
}

func where(c *Ctx, e *Ev) string {
	if e == nil || e.Instr == nil {
		return "-"
	}
	pos := e.Instr.Pos()
	if !pos.IsValid() {
		for _, o := range e.Instr.Operands(nil) {
			if *o != nil && (*o).Pos().IsValid() {
				pos = (*o).Pos()
			}
		}
	}
	if !pos.IsValid() && e.Fn != nil {
		pos = e.Fn.Pos()
	}
	return c.at(pos)
}

// nilAt: the path condition says t is nil (resp. is not nil).
func nilAt(pc *PC, t *Term) bool    { return pc.entails(mkEq(t, mkNil(t.Typ))) }
func notNilAt(pc *PC, t *Term) bool { return pc.entails(mkNot(mkEq(t, mkNil(t.Typ)))) }

// implementations of an interface method in the module.
func (c *Ctx) impls(iface *types.Interface, method string) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, sp := range c.p.by {
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, iface) {
					continue
				}
				sel := c.p.ssa.MethodSets.MethodSet(t).Lookup(sp.Pkg, method)
				if sel == nil {
					continue
				}
				f := c.p.ssa.FuncValue(sel.Obj().(*types.Func))
				if f != nil && len(f.Blocks) > 0 && !seen[f] {
					seen[f] = true
					r = append(r, f)
				}
			}
		}
	}
	return r
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// elems: the elements of a slice value, if they are known one by one. A spread append contributes its source as {spread}.
func (c *Ctx) elems(st *State, t *Term, d int) ([]*Term, bool) {
	if t == nil || d > 12 {
		return nil, false
	}
	if t.isNil() {
		return nil, true
	}
	ex := newExec(c.p)
	ex.imm = c.imm
	switch t.Op {
	case "append":
		base, ok := c.elems(st, t.Args[0], d+1)
		if !ok {
			return nil, false
		}
		if t.Aux == "spread" {
			r, ok := c.elems(st, t.Args[1], d+1)
			if !ok {
				return nil, false
			}
			return append(append([]*Term{}, base...), r...), true
		}
		return append(append([]*Term{}, base...), t.Args[1:]...), true
	}
	sl, ok := t.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	n, ok := lenOf(t).intVal()
	if !ok || n > 256 {
		return nil, false
	}
	if r := addrRoot(t); n > 0 && r.Op != "alloc" && r.Op != "makeslice" && r.Op != "append" {
		return nil, false
	}
	var out []*Term
	s2 := st.clone()
	for i := int64(0); i < n; i++ {
		out = append(out, ex.load(s2, mkIaddr(t, mkInt(i, nil), sl.Elem()), sl.Elem()))
	}
	return out, true
}

// loopsWith: for every loop, whether a path which goes round it passes an event satisfying pred inside one iteration.
type roundTrip struct {
	Info *LoopInfo // with Next
	Path *Path
	Evs  []*Ev // events of the iteration
	Fn   *ssa.Function
}

// roundTrips lists the paths which go round a loop; Evs are the events of that iteration.
func roundTrips(paths []*Path) []roundTrip {
	var r []roundTrip
	for _, p := range paths {
		if p.End != "back" {
			continue
		}
		evs := p.Events()
		last := evs[len(evs)-1]
		if last.Kind != "loopback" {
			continue
		}
		li := last.Aux.(*LoopInfo)
		for i := len(evs) - 2; i >= 0; i-- {
			if evs[i].Kind == "loophead" && evs[i].Aux.(*LoopInfo).Header == li.Header && evs[i].Fn == last.Fn {
				r = append(r, roundTrip{li, p, evs[i:], last.Fn})
				break
			}
		}
	}
	return r
}

// transferLoop describes a loop which moves all of a buffer through calls of one function (Read, Write, ...):
// each iteration passes the part of the buffer which is not yet done, and advances by exactly the returned count.
type transferLoop struct {
	Buf  *Term // the whole buffer (nil if the loop shrinks a slice)
	Pos  *Term // the count done so far at an arbitrary iteration
	Rest *Term // shrinking form: what is left
	Ev   *Ev
	Info *LoopInfo
}

// transferLoops finds the loops round calls of name with the buffer as argument arg, and checks their bookkeeping.
func (c *Ctx) transferLoops(rule string, paths []*Path, name string, arg int) []transferLoop {
	var out []transferLoop
	for _, rt := range roundTrips(paths) {
		cs := calls(rt.Evs, name)
		if len(cs) == 0 {
			continue
		}
		inner := true // the call belongs to this loop, not to a loop nested in it
		for _, e := range rt.Evs[1 : len(rt.Evs)-1] {
			if e.Kind == "loophead" {
				inner = false
			}
		}
		if !inner {
			continue
		}
		for _, e := range cs {
			n := extract(e.Res, 0, types.Typ[types.Int])
			errT := extract(e.Res, 1, nil)
			errT = findEx(rt.Path, e.Res, 1, errT)
			n = findEx(rt.Path, e.Res, 0, n)
			pc := rt.Path.St.pc
			c.check(rule, fnName(e.Fn)+": error of "+name, where(c, e), nilAt(pc, errT), "the loop goes on after %s failed", name)
			buf := e.Args[arg]
			found := false
			for i, sym := range rt.Info.Sym {
				next := rt.Info.Next[i]
				if next == nil || !isInteger(sym.Typ) && buf != sym {
					continue
				}
				if buf == sym && next.Op == "slice" && next.Args[0] == sym {
					// rest = rest[n:]
					lo, hi := next.Args[1], next.Args[2]
					if pc.entails(mkEq(lo, n)) && pc.entails(mkEq(hi, lenOf(sym))) {
						out = append(out, transferLoop{Buf: rt.Info.Init[i], Rest: sym, Ev: e, Info: rt.Info})
						found = true
					}
					continue
				}
				if buf.Op == "slice" && pc.entails(mkEq(buf.Args[1], sym)) && pc.entails(mkEq(next, mkAdd(sym, n, nil))) &&
					pc.entails(mkEq(lenOf(buf), mkSub(lenOf(buf.Args[0]), sym, nil))) && rt.Info.Init[i] != nil && pc.entails(mkEq(rt.Info.Init[i], mkInt(0, nil))) {
					out = append(out, transferLoop{Buf: buf.Args[0], Pos: sym, Ev: e, Info: rt.Info})
					found = true
				}
			}
			c.check(rule, fnName(e.Fn)+": position", where(c, e), found, "the loop round %s does not pass the part of the buffer which is still missing, or does not advance by the number of bytes transferred (argument %s)", name, cut(buf.String(), 100))
		}
	}
	return out
}

// findEx finds the extracted component i of a call result as it occurs on the path (with its type).
func findEx(p *Path, res *Term, i int, def *Term) *Term {
	if res.Typ != nil {
		if tt, ok := res.Typ.(*types.Tuple); ok && i < tt.Len() {
			return mk("ex", tt.At(i).Type(), i, res)
		}
	}
	return def
}

// complete: at pc the transfer loop has moved the whole buffer.
func (t transferLoop) complete(pc *PC) bool {
	if t.Rest != nil {
		return pc.entails(mkEq(lenOf(t.Rest), mkInt(0, nil)))
	}
	return pc.entailsLe(lenOf(t.Buf), t.Pos, 0)
}

// errOf: the error component of a call result (nil if it has none).
func errOf(e *Ev) *Term {
	if e.Res == nil {
		return nil
	}
	if tt, ok := e.Res.Typ.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		last := tt.At(tt.Len() - 1).Type()
		if isErrorType(last) {
			if e.Res.Op == "tuple" {
				return e.Res.Args[tt.Len()-1]
			}
			return mk("ex", last, tt.Len()-1, e.Res)
		}
		return nil
	}
	if e.Res.Typ != nil && isErrorType(e.Res.Typ) {
		return e.Res
	}
	return nil
}

// comp: component i of a call's result tuple.
func comp(e *Ev, i int) *Term {
	if e.Res == nil {
		return nil
	}
	if tt, ok := e.Res.Typ.(*types.Tuple); ok && i < tt.Len() {
		return extract(e.Res, i, tt.At(i).Type())
	}
	if i == 0 {
		return e.Res
	}
	return nil
}

// callersOf: the module functions (outside testutil) containing a call of the function or interface method name.
func (c *Ctx) callersOf(names ...string) map[*ssa.Function][]ssa.Instruction {
	r := map[*ssa.Function][]ssa.Instruction{}
	for _, w := range names {
		if f := c.p.fn(w); f != nil {
			for _, in := range c.cg().in[f] {
				if c.p.pkgRel(in.Parent()) != "testutil" {
					r[in.Parent()] = append(r[in.Parent()], in)
				}
			}
		}
	}
	for in, ns := range c.cg().ext {
		for _, n := range ns {
			for _, w := range names {
				if short(n) == w {
					f := in.Parent()
					r[f] = append(r[f], in)
				}
			}
		}
	}
	return r
}

func (c *Ctx) cg() *CG {
	if c.cgv == nil {
		c.cgv = buildCG(c.p)
	}
	return c.cgv
}

// onlyVia: f is reached from thread entries only through one of the functions in via.
func (c *Ctx) onlyVia(f *ssa.Function, via ...string) bool {
	isVia := map[string]bool{}
	for _, v := range via {
		isVia[v] = true
	}
	g := c.cg()
	seen := map[*ssa.Function]bool{}
	var up func(x *ssa.Function) bool
	up = func(x *ssa.Function) bool {
		if isVia[fnName(x)] {
			return true
		}
		if seen[x] {
			return true
		}
		seen[x] = true
		ins := g.in[x]
		if len(ins) == 0 {
			return false
		}
		for _, in := range ins {
			if !up(in.Parent()) {
				return false
			}
		}
		return true
	}
	return up(f)
}
