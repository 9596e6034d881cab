package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const raceTech = "lockset dataflow: threads (go statements, library callbacks, main) and their start order per program, flow- and context-sensitive must-hold locksets, field-based may-access sets with freshness and join reasoning; every pair of conflicting accesses of two threads must share a lock or be ordered"

func init() {
	race := func(id, title, stmt, why string, files []string, mech [][2]string, keep func(string) bool, extra func(*Ctx)) {
		register(&Prop{
			ID: id, Title: title, Statement: stmt,
			Over: []string{"schedules"}, Quant: "all interleavings of the program's goroutines and library callbacks", Why: why, Files: files, Mech: mech,
			Technique: raceTech,
			Note:      "Objects of one type are told apart by the access path they are reached by. Memory touched only inside libraries is out of scope.",
			Run: func(c *Ctx) {
				c.raceRule(keep)
				if extra != nil {
					extra(c)
				}
			},
		})
	}
	pre := func(ps ...string) func(string) bool {
		return func(k string) bool {
			for _, p := range ps {
				if strings.HasPrefix(k, p) {
					return true
				}
			}
			return false
		}
	}
	race("L01", "The connection registry and message handling are safe for concurrent use",
		"Connections may be accepted, closed and subscribed while messages are broadcast: the list of connections, the subscriptions, the client handler and the error collector are never accessed by two goroutines at once when one of them writes. A message is not modified any more once it was handed to a sender.",
		"The tests run these operations one after the other; unsynchronised access shows only under particular interleavings.",
		[]string{"comm/message_sender.go", "comm/conn_handler.go", "util/collector.go", "logging/logger.go"},
		[][2]string{{"registry mutex", "multiMessageSender.mutex"}, {"handler mutex", "comm.newClientHandlerMutex"}, {"collector mutex", "ErrorCollector.errsMutex"}},
		pre("comm.", "util.", "logging."), messagesImmutable)
	race("L02", "The playlist can be changed and queried while it is streamed",
		"Songs, position, current song and playing state of the playlist are only accessed under its lock, in the streaming goroutine as well as in every operation commands use, so no operation sees or leaves a half-made change; what a query returns is the caller's own copy. The handlers are set before streaming starts.",
		"Commands run concurrently with the streaming loop; the tests call operations from one goroutine.",
		[]string{"playback/playlist.go"},
		[][2]string{{"lock", "Playlist.songsMutex"}, {"streaming goroutine", "Playlist.StreamLoop"}},
		pre("playback.Playlist."), playlistSingleThread)
	race("L03", "The player's chunk list, sample queue, volume and clock are safe for concurrent use",
		"Queueing chunks, reading them into the sample queue, playing samples, setting the volume and updating the clock offset happen in different goroutines; every piece of state they share (chunk list, queue positions and contents, volume, current streamer, offsets) is accessed under its lock or set before the goroutines are started.",
		"The player's goroutines only run against an audio device; the tests never run them together.",
		[]string{"playback/playback.go", "playback/streamer.go", "playback/timed_sample_queue.go", "timing/timing.go", "schedule/player.go"},
		[][2]string{{"state lock", "playback.stateMutex"}, {"chunk lock", "timedMultiStreamer.chunksMutex"}, {"queue lock", "timedSampleQueue.cond.L"}, {"offset lock", "timing.offsetsMutex"}},
		func(k string) bool {
			return strings.HasPrefix(k, "playback.") && !strings.HasPrefix(k, "playback.Playlist.") || strings.HasPrefix(k, "timing.") || strings.HasPrefix(k, "var (*playback.") || strings.HasPrefix(k, "var playback.") || strings.HasPrefix(k, "var timing.")
		}, queueMonitor)
	race("L04", "The server's volume, song and pause state is safe for concurrent use",
		"Commands, new clients, song changes, pause reports and the streaming goroutine run concurrently; volume, newest song and the list of pauses are only accessed under their locks, and a list being sent is a private copy.",
		"Requires clients subscribing while songs change and pauses are compacted.",
		[]string{"schedule/server_state.go", "schedule/server_state_commands.go", "schedule/server.go"},
		[][2]string{{"state lock", "serverState.stateMutex"}, {"pauses lock", "serverState.pausesMutex"}},
		pre("schedule.", "var (*schedule.", "var schedule.", "metadata."), nil)
	race("L05", "SSH sessions do not interfere with each other",
		"Any number of sessions can run commands, complete input and resize their terminals at the same time, also while commands are being registered: the command registry, the session's terminal size and the command parser are never used by two goroutines at once unsynchronised.",
		"The tests use one session at a time.",
		[]string{"ssh/command.go", "ssh/session_handler.go", "ssh/auto_completer.go", "ssh/parser/parser.go"},
		[][2]string{{"registry lock", "ssh.commandsMutex"}, {"parser lock", "parser.parserMutex"}, {"size lock", "session.sizeMutex"}},
		pre("ssh", "var (*ssh", "var ssh", "var (ssh"), parserGuarded)
	race("L06", "The infoer's state can be updated while it is displayed",
		"Songs, chunks, pauses and volume arrive in goroutines of their own while the screen is drawn: each list is only accessed under its lock, in particular while it is sorted or compacted, and what is displayed is not changed behind the display's back.",
		"The tests build states and query them from one goroutine.",
		[]string{"cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go", "cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/drawing.go"},
		[][2]string{{"locks", "state.SongsMutex, ChunksMutex, PausesMutex, VolumeMutex"}},
		pre("cmd/music-sync-infoer.", "var (*cmd/music-sync-infoer.", "var cmd/music-sync-infoer."), nil)
	register(&Prop{
		ID: "L07", Title: "Locks are always released, never deadlock and are never held while waiting",
		Statement: "Every lock which is taken is released on every way out of the operation; no operation takes a lock it already holds, locks are taken in a consistent order, only locks which are held are released, and nothing which can wait for a client, the audio device, the network, a channel or a timer happens while a lock is held. A goroutine waiting for the sample queue gives up the queue's lock while it waits.",
		Over:      []string{"schedules", "fault_sequences"}, Quant: "all ways through every function of the three programs, in every calling context",
		Why:       "A missing release or a wait under a lock only shows on the error path or interleaving it is on; then commands, playback or other clients hang for ever.",
		Files:     []string{"comm/message_sender.go", "playback/playlist.go", "playback/timed_sample_queue.go", "playback/streamer.go", "schedule/server_state.go", "ssh/command.go", "cmd/music-sync-infoer/state.go", "timing/timing.go"},
		Mech:      [][2]string{{"mutexes", "every sync.Mutex, sync.RWMutex and sync.Cond of the module"}},
		Technique: "lockset dataflow (may and must) over all functions in their calling contexts: release on every exit, no re-acquisition, acyclic lock order graph, no blocking operation with a lock possibly held",
		Note:      "Blocking operations are channel operations, selects without default, WaitGroup waits, sleeps, network, terminal and audio device calls; taking another lock is covered by the order.",
		Run:       runL07,
	})
}

func (c *Ctx) raceRule(keep func(string) bool) {
	l := c.locks()
	shared := 0
	for _, n := range sortedKeys(l.progs) {
		pr := l.progs[n]
		c.count["threads"] += len(pr.Threads)
		for f := range pr.Fns {
			c.fns[fnName(f)] = true
		}
		rs, pairs, locs := pr.races(keep)
		c.count["conflicting-pairs"] += pairs
		bad := map[string]bool{}
		for _, r := range rs {
			bad[r.Loc] = true
			d := func(a *Access) string {
				w := "read"
				if a.Write {
					w = "written"
				}
				h := "no lock"
				if len(a.Held) > 0 {
					h = a.Held.key()
				}
				return fmt.Sprintf("%s in %s at %s (%s, %s)", w, fnName(a.Fn), c.at(a.At.Pos()), a.T.Name, h)
			}
			c.fail("no-race", pr.Name+": "+locName(r.Loc), c.at(r.A.At.Pos()), "%s is %s while it can be %s", locName(r.Loc), d(r.A), d(r.B))
		}
		for _, k := range sortedKeys(locs) {
			shared++
			if !bad[k] {
				c.check("no-race", pr.Name+": "+locName(k), "-", true, "")
			}
		}
	}
	if shared == 0 {
		c.fail("anchor", "shared state", "-", "no shared state was found: the goroutines of the programs are no longer recognised")
	}
}

func locName(k string) string { return strings.Replace(k, "var ", "variable ", 1) }

// messagesImmutable: what a message refers to is not written once it is in the message.
func messagesImmutable(c *Ctx) {
	n := 0
	for _, f := range c.p.fns {
		if c.p.isGenerated(f) || strings.HasPrefix(c.p.pkgRel(f), "testutil") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isProtoStruct(ptrElem(fa.X.Type())) {
					continue
				}
				n++
				key := fnName(f) + ": " + typeName(fa.X.Type()) + "." + fldName(fa.X.Type(), fa.Field)
				al, isNew := fa.X.(*ssa.Alloc)
				ok = isNew
				if isNew {
					for _, e := range c.locks().escapes(al) {
						if storesInto(e) {
							continue // put into another message or list still being built
						}
						ok = ok && !goesAround(e, st, al)
					}
				}
				c.check("message-built-before-sent", key, c.at(st.Pos()), ok, "a message is modified after it was handed on: it may be being sent, or stored for later clients")
				if _, ok := st.Val.Type().Underlying().(*types.Slice); ok {
					why := c.writtenAfter(st.Val, st)
					c.check("message-content-frozen", key, c.at(st.Pos()), why == "", "the contents of a message can be written after they were put into it: %s", why)
				}
			}
		}
	}
	if n < 10 {
		c.fail("anchor", "messages", "-", "only %d fields of messages are set: messages are no longer recognised", n)
	}
}

// storesInto: the instruction stores a pointer into a new slice or struct of the same function (not yet shared).
func storesInto(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	switch a := st.Addr.(type) {
	case *ssa.IndexAddr:
		switch a.X.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
			return true
		}
	case *ssa.FieldAddr:
		_, ok := a.X.(*ssa.Alloc)
		return ok
	}
	return false
}

// writtenAfter: a way the elements of slice v are written after instruction at ("" if there is none).
func (c *Ctx) writtenAfter(v ssa.Value, at ssa.Instruction) string {
	l := c.locks()
	f := at.Parent()
	// the variables holding the slice
	roots := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if roots[v] {
			return
		}
		roots[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.Slice:
			back(x.X)
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.UnOp:
			if cell := l.cell(x.X); cell != nil {
				for _, s := range l.storesTo(cell) {
					back(s)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				back(x.Call.Args[0])
			}
		}
	}
	back(v)
	for r := range roots {
		if r.Parent() != nil && r.Parent() != f {
			continue
		}
		switch r.(type) {
		case *ssa.MakeSlice, *ssa.Alloc, *ssa.Call, *ssa.Parameter:
		case *ssa.UnOp, *ssa.FieldAddr:
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && !isProtoStruct(ptrElem(fa.X.Type())) {
					return "it is " + typeName(fa.X.Type()) + "." + fldName(fa.X.Type(), fa.Field) + ", which is changed in place"
				}
				if g, ok := u.X.(*ssa.Global); ok {
					return "it is the variable " + shortPkg(g)
				}
			}
			continue
		default:
			continue
		}
		def, _ := r.(ssa.Instruction)
		if _, ok := r.(*ssa.Parameter); ok {
			def = nil
		}
		seen := map[ssa.Value]bool{}
		bad := ""
		var fwd func(v ssa.Value)
		fwd = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil || bad != "" {
				return
			}
			seen[v] = true
			after := func(u ssa.Instruction) bool {
				if u.Parent() != f {
					return false
				}
				if def == nil {
					return reaches(at, u)
				}
				return goesAround(at, u, def)
			}
			for _, ref := range *v.Referrers() {
				switch y := ref.(type) {
				case *ssa.IndexAddr:
					for _, r2 := range *y.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == y && after(s) {
							bad = "element written at " + c.at(s.Pos())
						}
					}
				case *ssa.Slice:
					fwd(y)
				case *ssa.Phi:
					fwd(y)
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); ok {
						if b.Name() == "copy" && y.Call.Args[0] == v && after(y) {
							bad = "overwritten at " + c.at(y.Pos())
						}
						if b.Name() == "append" && y.Call.Args[0] == v {
							fwd(y)
						}
						continue
					}
					if after(y) {
						bad = "passed to another function at " + c.at(y.Pos())
					}
				case *ssa.Go:
					if after(y) {
						bad = "passed to a goroutine at " + c.at(y.Pos())
					}
				case *ssa.Store:
					if y.Val == v {
						if cell, ok := y.Addr.(*ssa.Alloc); ok {
							for _, r2 := range *cell.Referrers() {
								if u, ok := r2.(*ssa.UnOp); ok {
									fwd(u)
								}
							}
						}
					}
				}
			}
		}
		fwd(r)
		if bad != "" {
			return bad
		}
	}
	return ""
}

// playlistSingleThread: the fields of the playlist without a lock belong to one goroutine.
func playlistSingleThread(c *Ctx) {
	l := c.locks()
	pr := l.progs["cmd/music-sync-server"]
	if pr == nil {
		c.fail("anchor", "server", "-", "the server program does not exist")
		return
	}
	// what Songs returns is a copy
	f := c.p.fn("(*playback.Playlist).Songs")
	if f == nil {
		c.fail("anchor", "Songs", "-", "Playlist.Songs does not exist")
		return
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			ok := true
			for _, q := range l.contents(r.Results[0], 0, map[ssa.Value]bool{}) {
				ok = ok && !strings.HasPrefix(q.key, "playback.Playlist.")
			}
			c.check("query-returns-copy", fnName(f), c.at(r.Pos()), ok, "the caller gets the playlist's own list of songs, which is changed in place later")
		}
	}
	c.need("query-returns-copy", 1)
}

// parserGuarded: the generated parser and its runtime share global state.
func parserGuarded(c *Ctx) {
	l := c.locks()
	n := 0
	for _, name := range sortedKeys(l.progs) {
		pr := l.progs[name]
		common := map[string]bool(nil)
		var where ssa.Instruction
		for _, o := range pr.Ops {
			if o.Kind != "gen" || !strings.Contains(o.What, "shell_parser") {
				continue
			}
			n++
			held := map[string]bool{}
			for p, m := range o.Must {
				if m == 'W' && pr.singleton(p) {
					held[p] = true
				}
			}
			if common == nil {
				common = held
			} else {
				for p := range common {
					if !held[p] {
						delete(common, p)
					}
				}
			}
			if len(common) == 0 && where == nil {
				where = o.At
				c.fail("parser-exclusive", fnName(o.Fn)+": "+o.What, c.at(o.At.Pos()), "the generated parser, which keeps global state, is used without the lock its other users hold")
			}
		}
		if where == nil && common != nil {
			c.check("parser-exclusive", pr.Name, "-", true, "")
		}
	}
	c.check("anchor", "parser uses", "-", n > 0, "no use of the generated parser was found")
}

// queueMonitor: waiting and waking of the sample queue.
func queueMonitor(c *Ctx) {
	l := c.locks()
	waits := 0
	type upd struct{ at *Access }
	for _, name := range sortedKeys(l.progs) {
		pr := l.progs[name]
		for _, o := range pr.Ops {
			if o.Kind != "wait" {
				continue
			}
			waits++
			_, held := o.Must[o.Lock]
			c.check("wait-holds-lock", pr.Name+": "+fnName(o.Fn), c.at(o.At.Pos()), held, "waiting for a condition without holding its lock (or with another condition's lock)")
			c.check("wait-in-loop", fnName(o.Fn), c.at(o.At.Pos()), inLoop(o.At.Block()), "the condition is not checked again after waiting for it")
		}
	}
	c.check("anchor", "waits", "-", waits > 0, "no wait for a condition was found")
}

func runL07(c *Ctx) {
	l := c.locks()
	seen := map[string]bool{}
	once := func(k string) bool {
		if seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	type edge struct{ a, b string }
	edges := map[edge]*LockOp{}
	locks, exits, blocks := 0, 0, 0
	for _, name := range sortedKeys(l.progs) {
		pr := l.progs[name]
		for f := range pr.Fns {
			c.fns[fnName(f)] = true
		}
		recv := c.singleReceiver(pr)
		for _, o := range pr.Ops {
			where := c.at(o.At.Pos())
			switch o.Kind {
			case "lock", "rlock":
				locks++
				key := fnName(o.Fn) + ": " + o.What
				_, held := o.May[o.Lock]
				if held || once("relock "+key) {
					c.check("no-reacquire", key, where, !held, "%s may already be held (%s): the goroutine waits for itself", o.What, o.T.Name)
				}
				for h := range o.May {
					if h != o.Lock {
						e := edge{l.class[h], o.What}
						if edges[e] == nil {
							edges[e] = o
						}
					}
				}
			case "unlock", "runlock":
				key := fnName(o.Fn) + ": " + o.What
				m, held := o.Must[o.Lock]
				ok := held && (m == 'W') == (o.Kind == "unlock")
				if !ok || once("unlock "+key) {
					c.check("release-held", key, where, ok, "%s is released although it may not be held (in this mode)", o.What)
				}
			case "exit":
				var left []string
				for h, m := range o.May {
					if _, own := o.Own[h]; !own {
						left = append(left, l.class[h]+"("+string(m)+")")
					}
				}
				sort.Strings(left)
				key := fnName(o.Fn)
				if len(left) > 0 || once("exit "+key+where) {
					exits++
					ok := len(left) == 0 || c.lockWrapper(o.Fn)
					c.check("released-on-exit", key, where, ok, "%s returns with %s still held", key, strings.Join(left, ", "))
				}
			case "block", "wait":
				blocks++
				key := fnName(o.Fn) + ": " + o.What
				var held []string
				for h := range o.May {
					if o.Kind == "wait" && h == o.Lock {
						continue
					}
					held = append(held, l.class[h])
				}
				sort.Strings(held)
				ok := len(held) == 0 || recv[o.At]
				if !ok || once("block "+key+where) {
					c.check("no-wait-under-lock", key, where, ok, "%s while %s may be held (%s)", o.What, strings.Join(held, ", "), o.T.Name)
				}
			}
		}
	}
	// order
	succ := map[string][]string{}
	for e := range edges {
		succ[e.a] = append(succ[e.a], e.b)
	}
	var cyc func(from, x string, seen map[string]bool) bool
	cyc = func(from, x string, seen map[string]bool) bool {
		for _, y := range succ[x] {
			if y == from {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if cyc(from, y, seen) {
					return true
				}
			}
		}
		return false
	}
	var es []edge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].a+es[i].b < es[j].a+es[j].b })
	for _, e := range es {
		o := edges[e]
		bad := cyc(e.a, e.b, map[string]bool{}) || e.a == e.b
		c.check("lock-order", e.a+" before "+e.b, c.at(o.At.Pos()), !bad, "%s is taken in %s while %s is held, and elsewhere the other way round: two goroutines can wait for each other", e.b, fnName(o.Fn), e.a)
	}
	c.check("anchor", "locks", "-", locks > 30, "only %d lock operations were found", locks)
	_ = exits
	_ = blocks
}

// lockWrapper: the function exists to take a lock for its caller (its callers are checked instead).
func (c *Ctx) lockWrapper(f *ssa.Function) bool {
	ins := c.cg().in[f]
	if len(ins) == 0 {
		return false
	}
	// it does nothing but taking locks
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if k, _ := lockOp(x); k == "" {
					return false
				}
			case *ssa.Store, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.MapUpdate:
				return false
			}
		}
	}
	return true
}

// singleReceiver: receives which cannot wait: they are made only after seeing that the channel is not empty, and all
// receivers of the channel belong to one thread.
func (c *Ctx) singleReceiver(pr *Program) map[ssa.Instruction]bool {
	l := c.locks()
	type rc struct {
		at ssa.Instruction
		t  *Thread
	}
	by := map[string][]rc{}
	for _, o := range pr.Ops {
		if u, ok := o.At.(*ssa.UnOp); ok && u.Op == token.ARROW {
			by[chanClass(l, u.X)] = append(by[chanClass(l, u.X)], rc{o.At, o.T})
		}
	}
	r := map[ssa.Instruction]bool{}
	for k, rs := range by {
		if k == "" {
			continue
		}
		same := true
		for _, x := range rs {
			same = same && x.t == rs[0].t && !x.t.Multi
		}
		if !same {
			continue
		}
		for _, x := range rs {
			if c.nonEmptyAt(x.at.(*ssa.UnOp), k) {
				r[x.at] = true
			}
		}
	}
	return r
}

func chanClass(l *Locks, v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return typeName(fa.X.Type()) + "." + fldName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

// nonEmptyAt: the receive is only reached when len of the same channel was just seen to be positive.
func (c *Ctx) nonEmptyAt(u *ssa.UnOp, k string) bool {
	l := c.locks()
	b := u.Block()
	for d := b; d != nil; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d == b {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isLen := func(v ssa.Value) bool {
			call, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := call.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && chanClass(l, call.Call.Args[0]) == k
		}
		isZero := func(v ssa.Value) bool {
			cst, ok := v.(*ssa.Const)
			return ok && cst.Value != nil && cst.Value.String() == "0"
		}
		pos := cmp.Op == token.LSS && isZero(cmp.X) && isLen(cmp.Y) || cmp.Op == token.GTR && isLen(cmp.X) && isZero(cmp.Y) || cmp.Op == token.NEQ && (isLen(cmp.X) && isZero(cmp.Y) || isZero(cmp.X) && isLen(cmp.Y))
		neg := cmp.Op == token.EQL && (isLen(cmp.X) && isZero(cmp.Y) || isZero(cmp.X) && isLen(cmp.Y)) || cmp.Op == token.LEQ && isLen(cmp.X) && isZero(cmp.Y) || cmp.Op == token.GEQ && isZero(cmp.X) && isLen(cmp.Y)
		succ := -1
		if pos {
			succ = 0
		} else if neg {
			succ = 1
		}
		if succ < 0 {
			continue
		}
		s := d.Succs[succ]
		if (s == b || s.Dominates(b)) && len(s.Preds) == 1 {
			// no other receive of the channel in between
			for _, in := range b.Instrs {
				if in == ssa.Instruction(u) {
					return true
				}
				if v, ok := in.(*ssa.UnOp); ok && v.Op == token.ARROW && chanClass(l, v.X) == k {
					return false
				}
			}
		}
	}
	return false
}
