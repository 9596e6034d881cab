package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:        "C01",
		Title:     "Every message type is dispatched to its own handler",
		Statement: "Every kind of message a peer can send is passed, exactly once and unchanged, to the handler method for that kind, together with the sending connection; messages of other kinds are ignored. The server answers pings and time sync requests and accepts subscriptions; players act on chunks, volume and time sync responses; infoers on song, chunk, pause, volume and time sync information; all answer pings on the connection they came from.",
		Over:      []string{"inputs"},
		Quant:     "all message types of the protocol and all three programs",
		Why:       "Tests dispatch one stub message per type, but do not tie the real server, player and infoer handlers to the dispatch table nor their effects to the message's fields.",
		Files:     []string{"comm/package_handler.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/infoer_package_handler.go"},
		Mech:      [][2]string{{"type switch", "comm.TypedPackageHandler.Handle"}, {"handlers", "serverPackageHandler, playerPackageHandler, infoerPackageHandler"}},
		Technique: "exhaustiveness analysis of the type switch against the handler interface, method-set resolution of every handler type, and value-flow from message fields to the arguments of the acting calls on every abstract path",
		Note:      "Decides which call with which arguments each message leads to; what the called components do is the subject of other properties. Messages are dispatched concurrently, their relative order is not claimed.",
		Run:       runC01,
	})
	register(&Prop{
		ID:        "C02",
		Title:     "Broadcasts reach exactly the connections entitled to them",
		Statement: "A broadcast is sent once to every connected client which subscribed to one of the message's channels, and to nobody else; messages without a channel go to every connected client. Audio chunks belong to the audio channel; song, chunk and pause information to the meta channel; volume changes to both.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all sets of connections and subscriptions, and all message types",
		Why:       "Tests look at a few connections with one subscription each; membership in both directions for all registries is not sampled.",
		Files:     []string{"comm/message_sender.go", "comm/package_util.go"},
		Mech:      [][2]string{{"channel table", "comm.channelOf"}, {"filter", "multiMessageSender.SendMessage / isSubscribed"}},
		Technique: "abstract interpretation of the channel table (complete over the protocol's message types) and of the selection loops: per-iteration selection condition in both directions, exhaustion of every loop, accumulator discipline",
		Note:      "Decided for all registries and messages; the registry's own updates are property C04, its locking property L01.",
		Run:       runC02,
	})
	register(&Prop{
		ID:        "C03",
		Title:     "A slow, stuck or failing client affects no other client",
		Statement: "While a broadcast is being sent, no lock is held, so clients can still connect, disconnect and subscribe and other messages can still be sent; each recipient is served on its own, and a failure towards one neither prevents nor aborts the others. The failure of any recipient is reported to the sender of the broadcast, after all recipients were served.",
		Over:      []string{"schedules", "fault_sequences"},
		Quant:     "all interleavings of broadcasts with connection changes, and any subset of recipients blocking or failing",
		Why:       "Needs a client which stops reading at the wrong moment; the tests' connections never block.",
		Files:     []string{"comm/message_sender.go", "util/collector.go"},
		Mech:      [][2]string{{"recipients snapshot", "multiMessageSender.SendMessage"}, {"one goroutine per recipient", "multiMessageSender.SendMessage"}, {"error collector", "util.ErrorCollector"}},
		Technique: "lockset dataflow (no lock held at any frame write or wait), and per-recipient goroutine, join and error-flow rules over the broadcast's abstract paths",
		Note:      "A recipient which never reads still delays the end of the broadcast call it is part of; the property is that nothing else waits for it.",
		Run:       runC03,
	})
	register(&Prop{
		ID:        "C04",
		Title:     "The connection registry holds exactly the live connections",
		Statement: "A client is registered before any of its messages is handled and removed, with all its subscriptions, when its connection ends for whatever reason; the connection is then closed. Removing one connection never removes or duplicates another, and a subscription arriving for a connection which is gone leaves nothing behind.",
		Over:      []string{"histories", "schedules", "fault_sequences"},
		Quant:     "all sequences of connects, subscriptions and disconnects",
		Why:       "Leaks and lost entries need particular orders (subscribe after disconnect, removal in the middle of the list); tests check single add and remove calls.",
		Files:     []string{"comm/message_sender.go", "comm/conn_handler.go"},
		Mech:      [][2]string{{"registry", "multiMessageSender.AddConn/DelConn/Subscribe"}, {"per connection goroutine", "comm.serverConnectionAcceptor"}},
		Technique: "abstract interpretation of the registry operations to their effect on the list and the subscription table on every path, and a typestate rule (registered, served, removed) for the goroutine of an accepted connection",
		Note:      "The operations' mutual exclusion is property L01.",
		Run:       runC04,
	})
	register(&Prop{
		ID:        "C05",
		Title:     "The server keeps accepting clients",
		Statement: "Accepting goes on after temporary errors and whatever the clients connected so far do: every accepted connection is served by its own goroutine, none of the acceptor's steps waits for a client, and the loop ends only when the listener fails for good. A client handler which is not set (yet) is never called, and never keeps clients from being served.",
		Over:      []string{"schedules", "fault_sequences"},
		Quant:     "all sequences of results of Accept and all client behaviours",
		Why:       "Tests accept a fixed number of stub connections with a handler set; temporary errors and early connections do not occur.",
		Files:     []string{"comm/conn_handler.go"},
		Mech:      [][2]string{{"accept loop", "comm.serverConnectionAcceptor"}, {"handler slot", "comm.SetNewClientHandler"}},
		Technique: "path-sensitive dataflow over the accept loop: continuation and exit conditions, one serving goroutine per accepted connection, no blocking call and no call of a possibly nil function value",
		Note:      "",
		Run:       runC05,
	})
}

func runC01(c *Ctx) {
	f := c.p.fn("(comm.TypedPackageHandler).Handle")
	if f == nil {
		c.fail("anchor", "Handle", "-", "the dispatcher does not exist")
		return
	}
	nt := c.p.namedType("comm", "TypedPackageHandlerInterface")
	if nt == nil {
		c.fail("anchor", "TypedPackageHandlerInterface", "-", "the handler interface does not exist")
		return
	}
	iface := nt.Underlying().(*types.Interface)
	type want struct{ method, msg string }
	wants := map[string]want{}
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		sig := m.Type().(*types.Signature)
		wants[m.Name()] = want{m.Name(), sig.Params().At(0).Type().String()}
	}
	c.check("handler-interface", "methods", c.at(f.Pos()), len(wants) >= 10, "the handler interface has only %d methods", len(wants))
	// the interface covers the protocol: every top-level message but the envelope
	covered := map[string]string{}
	for m, w := range wants {
		covered[w.msg] = m
	}
	for name, mem := range c.p.by["comm"].Members {
		tn, ok := mem.(*ssa.Type)
		if !ok || strings.Contains(name, "_") || name == "Envelope" || !isProtoStruct(tn.Type()) {
			continue
		}
		ptr := types.NewPointer(tn.Type()).String()
		c.check("message-has-handler", name, c.at(tn.Pos()), covered[ptr] == "Handle"+name, "message type %s has no handler method of its own", name)
	}
	c.need("message-has-handler", 10)
	msg, sender := mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	paths := c.explore(fnName(f), opt{})
	seen := map[string]bool{}
	isHandler := func(e *Ev) bool {
		i := strings.LastIndex(e.Name, ").")
		if e.Kind != "go" && e.Kind != "call" || i < 0 {
			return false
		}
		_, ok := wants[e.Name[i+2:]]
		return ok
	}
	// the handlers started by the events of a path, directly or in goroutines; nil, false: it depends
	var started func(p *Path, depth int) ([]*Ev, bool)
	started = func(p *Path, depth int) (es []*Ev, all bool) {
		all = true
		for _, e := range p.Events() {
			if isHandler(e) {
				es = append(es, e)
				continue
			}
			if e.Kind != "go" || depth > 3 {
				continue
			}
			first := true
			var of []*Ev
			for _, q := range paths {
				if q.Root.Spawn != e {
					continue
				}
				qs, ok := started(q, depth+1)
				all = all && ok && q.End == "ret" && (first || len(qs) == len(of))
				of, first = qs, false
			}
			es = append(es, of...)
		}
		return
	}
	for _, p := range paths {
		if p.Root.Spawn != nil {
			continue
		}
		if p.End != "ret" {
			c.fail("dispatch", fnName(f), c.at(f.Pos()), "dispatching can end with %s", p.End)
			continue
		}
		es, all := started(p, 0)
		c.check("dispatch", "goroutine", c.at(f.Pos()), all, "whether a message is passed to its handler depends on more than its type")
		// the types the message is known (not) to have on this path
		is := ""
		isNot := map[string]bool{}
		for _, l := range p.St.pc.lits() {
			t, neg := l, false
			if t.Op == "not" {
				t, neg = t.Args[0], true
			}
			if t.Op != "typeis" || t.Args[0] != msg {
				continue
			}
			ts := t.Aux.(types.Type).String()
			if neg {
				isNot[ts] = true
			} else {
				is = ts
			}
		}
		if is == "" {
			missing := ""
			for ts, m := range covered {
				if !isNot[ts] {
					missing = m
				}
			}
			c.check("dispatch-default", fnName(f), c.at(f.Pos()), len(es) == 0 && missing == "", "a message for %s can be ignored", missing)
			continue
		}
		m := covered[is]
		if !c.check("dispatch", short(is), c.at(f.Pos()), len(es) == 1, "a message of type %s is passed to %d handlers", short(is), len(es)) {
			continue
		}
		e := es[0]
		okArgs := len(e.Args) == 3 && strip(e.Args[1]) == msg && e.Args[2] == sender && strings.HasSuffix(e.Name, ")."+m)
		if okArgs {
			b, _ := fieldOf(e.Args[0])
			okArgs = b == mkParam(f, f.Params[0])
		}
		c.check("dispatch-target", short(is), where(c, e), okArgs, "a message of type %s is passed to %s, or not with the message and its sender", short(is), e.Name)
		seen[is] = true
	}
	for ts, m := range covered {
		c.check("dispatch-complete", m, c.at(f.Pos()), seen[ts], "messages of type %s are never dispatched", short(ts))
	}
	c.handlerEffects()
}

// effect is what a handler must do with a message.
type effect struct {
	prog, method string
	call         string
	args         []string
}

// handlerTypes finds the handler a program installs: the dynamic type stored in TypedPackageHandler by its constructor.
func (c *Ctx) handlerTypes() map[string]types.Type {
	r := map[string]types.Type{}
	for _, f := range c.p.fns {
		rel := c.p.pkgRel(f)
		if rel == "" || c.p.isGenerated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || namedOf(mi.Type()) != "comm.TypedPackageHandlerInterface" {
					continue
				}
				r[rel] = mi.X.Type()
			}
		}
	}
	return r
}

func (c *Ctx) handlerEffects() {
	ht := c.handlerTypes()
	effects := []effect{
		{"comm", "HandlePingMessage", "comm.PingHandler", []string{"$2"}},
		{"comm", "HandleSubscribeChannelRequest", "(*comm.multiMessageSender).Subscribe", []string{"$0.sender", "$2", "$1.Channel"}},
		{"cmd/music-sync-player", "HandlePingMessage", "comm.PingHandler", []string{"$2"}},
		{"cmd/music-sync-infoer", "HandlePingMessage", "comm.PingHandler", []string{"$2"}},
		{"cmd/music-sync-player", "HandleQueueChunkRequest", "playback.QueueChunk", []string{"$1.StartTime", "$1.ChunkId", "playback.CombineSamples($1.SampleLow, $1.SampleHigh)"}},
		{"cmd/music-sync-player", "HandleSetVolumeRequest", "playback.SetVolume", []string{"$1.Volume"}},
		{"cmd/music-sync-player", "HandleTimeSyncResponse", "timing.UpdateOffset", []string{"$1.ClientSendTime", "$1.ServerRecvTime", "$1.ServerSendTime", "timing.GetRawTime()"}},
		{"cmd/music-sync-infoer", "HandleTimeSyncResponse", "timing.UpdateOffset", []string{"$1.ClientSendTime", "$1.ServerRecvTime", "$1.ServerSendTime", "timing.GetRawTime()"}},
	}
	opq := opaqueSet("comm.PingHandler", "playback.QueueChunk", "playback.CombineSamples", "playback.SetVolume", "timing.UpdateOffset", "timing.GetRawTime", "(*comm.multiMessageSender).Subscribe", "comm.sendWire", "comm.getNewClientHandler")
	for _, ef := range effects {
		t := ht[ef.prog]
		key := ef.prog + ": " + ef.method
		if t == nil {
			c.fail("handler-effect", key, "-", "no package handler is installed by %s", ef.prog)
			continue
		}
		fn := c.method(t, ef.method)
		if !c.check("handler-defined", key, c.posOf(fn), fn != nil && namedOf(fn.Params[0].Type()) != "comm.BaseTypedPackageHandler", "%s ignores the message: it has no %s", ef.prog, ef.method) {
			continue
		}
		n := newNamer(fn)
		paths := c.exploreFn(fn, opt{noSpawn: true, opaque: opq, init: nonNilParams})
		for _, p := range paths {
			if p.End != "ret" {
				c.check("handler-effect", key, c.at(fn.Pos()), p.End == "back", "%s can end with %s", ef.method, p.End)
				continue
			}
			ss := n.sinks(p, nameIn(ef.call))
			ok := len(ss) == 1 && strings.Join(ss[0].Args, ", ") == strings.Join(ef.args, ", ")
			c.check("handler-effect", key, c.at(fn.Pos()), ok, "%s must call %s(%s) exactly once, but calls %v", ef.method, ef.call, strings.Join(ef.args, ", "), ss)
		}
	}
	stampRule(c)
	c.ignoredMessages(ht)
	// methods which must not be the no-op ones
	for _, w := range [][2]string{{"comm", "HandleTimeSyncRequest"}, {"comm", "HandleSubscribeChannelRequest"}, {"cmd/music-sync-infoer", "HandleNewSongInfo"}, {"cmd/music-sync-infoer", "HandleChunkInfo"}, {"cmd/music-sync-infoer", "HandlePauseInfo"}, {"cmd/music-sync-infoer", "HandleSetVolumeRequest"}} {
		var fn *ssa.Function
		if t := ht[w[0]]; t != nil {
			fn = c.method(t, w[1])
		}
		c.check("handler-defined", w[0]+": "+w[1], c.posOf(fn), fn != nil && namedOf(fn.Params[0].Type()) != "comm.BaseTypedPackageHandler", "%s ignores the message: it has no %s", w[0], w[1])
	}
	// ping is answered with a pong on the same connection
	pf := c.p.fn("comm.PingHandler")
	for _, p := range c.explore("comm.PingHandler", opt{noSpawn: true, opaque: opaqueSet("comm.sendWire")}) {
		if p.End != "ret" {
			continue
		}
		sw := calls(p.Events(), "comm.sendWire")
		ok := len(sw) == 1 && namedOf(strip(sw[0].Args[0]).Typ) == "comm.PongMessage" && sw[0].Args[1] == mkParam(pf, pf.Params[0])
		c.check("ping-answered", "comm.PingHandler", c.at(pf.Pos()), ok, "a ping is not answered by exactly one pong on its connection")
	}
	c.need("ping-answered", 1)
}

// ignoredMessages: the kinds of messages a program has no use for have no effect, and no message makes a handler
// use its connection for anything but the answer.
func (c *Ctx) ignoredMessages(ht map[string]types.Type) {
	acts := map[string]bool{}
	for _, w := range []string{"comm PingMessage", "comm TimeSyncRequest", "comm SubscribeChannelRequest",
		"cmd/music-sync-player PingMessage", "cmd/music-sync-player QueueChunkRequest", "cmd/music-sync-player SetVolumeRequest", "cmd/music-sync-player TimeSyncResponse",
		"cmd/music-sync-infoer PingMessage", "cmd/music-sync-infoer TimeSyncResponse", "cmd/music-sync-infoer NewSongInfo", "cmd/music-sync-infoer ChunkInfo", "cmd/music-sync-infoer PauseInfo", "cmd/music-sync-infoer SetVolumeRequest"} {
		acts[w] = true
	}
	iface := c.p.namedType("comm", "TypedPackageHandlerInterface").Underlying().(*types.Interface)
	for prog, t := range ht {
		for i := 0; i < iface.NumMethods(); i++ {
			name := iface.Method(i).Name()
			fn := c.method(t, name)
			if fn == nil || !strings.HasPrefix(name, "Handle") {
				continue
			}
			key := prog + ": " + name
			ignored := !acts[prog+" "+strings.TrimPrefix(name, "Handle")]
			if fn.Blocks == nil {
				continue
			}
			paths := c.exploreFn(fn, opt{noSpawn: true, init: nonNilParams, opaque: func(g *ssa.Function) bool {
				return g != fn && c.p.pkgRel(g) != "" || fnName(g) == "comm.sendWire"
			}})
			for _, p := range paths {
				for _, e := range p.Events() {
					if e.Kind != "call" && e.Kind != "go" && e.Kind != "defer" && !writesShared(e) {
						continue
					}
					if strings.HasPrefix(e.Name, "(net.Conn).") {
						harmless := strings.HasSuffix(e.Name, "Addr")
						c.check("connection untouched", key, where(c, e), harmless, "handling a message calls %s on the connection", e.Name)
						continue
					}
					if !ignored {
						continue
					}
					ok := !writesShared(e) && (strings.HasPrefix(e.Name, "(logging.Logger).") || strings.HasPrefix(e.Name, "fmt.S") || e.Name == "timing.GetRawTime" || e.Name == "timing.GetSyncedTime")
					c.check("ignored", key, where(c, e), ok, "%s has an effect (%s %s) although %s has no use for this kind of message", name, e.Kind, e.Name, prog)
				}
			}
			if ignored {
				c.check("ignored", key, c.at(fn.Pos()), true, "")
			}
		}
	}
	c.need("ignored", 10)
}

func (c *Ctx) posOf(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	return c.at(f.Pos())
}

// method resolves a method of a type to the declared function (through embedding).
func (c *Ctx) method(t types.Type, name string) *ssa.Function {
	ms := c.p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.p.ssa.FuncValue(ms.At(i).Obj().(*types.Func))
		}
	}
	return nil
}

func runC02(c *Ctx) {
	// the channel table
	f := c.p.fn("comm.channelOf")
	paths := c.explore("comm.channelOf", opt{noSpawn: true})
	if f == nil {
		return
	}
	A, M := "AUDIO", "META"
	table := map[string][]string{"QueueChunkRequest": {A}, "SetVolumeRequest": {A, M}, "ChunkInfo": {M}, "NewSongInfo": {M}, "PauseInfo": {M}}
	chanVal := func(n string) int64 {
		if k, ok := c.p.by["comm"].Members["Channel_"+n].(*ssa.NamedConst); ok {
			return k.Value.Int64()
		}
		return -99
	}
	seen := map[string]bool{}
	m := mkParam(f, f.Params[0])
	for _, p := range paths {
		if p.End != "ret" {
			c.fail("channel-table", fnName(f), c.at(f.Pos()), "the channel table can end with %s", p.End)
			continue
		}
		is := ""
		isNot := map[string]bool{}
		for _, l := range p.St.pc.lits() {
			t, neg := l, false
			if t.Op == "not" {
				t, neg = t.Args[0], true
			}
			if t.Op == "typeis" && t.Args[0] == m {
				n := strings.TrimPrefix(short(t.Aux.(types.Type).String()), "*comm.")
				if neg {
					isNot[n] = true
				} else {
					is = n
				}
			}
		}
		has, known := p.Rets[1].boolVal()
		if is == "" {
			all := true
			for n := range table {
				all = all && isNot[n]
			}
			c.check("channel-table", "default", c.at(f.Pos()), known && !has && all, "messages of types without a channel are not broadcast to everybody, or a message type lost its channel")
			continue
		}
		el, okE := c.elems(p.St, p.Rets[0], 0)
		var got []string
		ok := known && okE
		if w := table[is]; len(w) > 0 && ok {
			set := map[int64]bool{}
			for _, e := range el {
				v, isC := e.intVal()
				ok = ok && isC
				set[v] = true
				got = append(got, fmt.Sprint(v))
			}
			wset := map[int64]bool{}
			for _, x := range w {
				wset[chanVal(x)] = true
			}
			ok = ok && has && len(set) == len(wset)
			for v := range wset {
				ok = ok && set[v]
			}
		} else {
			ok = known && !has
		}
		seen[is] = seen[is] || ok
		c.check("channel-table", is, c.at(f.Pos()), ok, "%s belongs to channels %v, it must be %v", is, got, table[is])
	}
	for n := range table {
		c.check("channel-table-complete", n, c.at(f.Pos()), seen[n], "%s has no entry in the channel table", n)
	}
	// isSubscribed
	g := c.p.fn("(*comm.multiMessageSender).isSubscribed")
	if g == nil {
		c.fail("anchor", "isSubscribed", "-", "multiMessageSender.isSubscribed does not exist")
		return
	}
	n := newNamer(g)
	sub := func(t *Term) bool { // an element of channels[conn]
		t = strip(t)
		if t == nil || t.Op != "ld" || t.Args[0].Op != "iaddr" {
			return false
		}
		return isMapAt(n, t.Args[0].Args[0], "$0.channels", "$1")
	}
	ps := c.exploreFn(g, opt{noSpawn: true})
	c.search("subscribed", g, ps, boolRet, func(a, b *Term) bool { return sub(a) && elemOf(n, b, "$2") }, func(p *Path) bool {
		for _, l := range p.St.pc.lits() {
			if l.Op == "not" && isMapOk(n, l.Args[0], "$0.channels", "$1") {
				return true
			}
		}
		return false
	})
	c.subscribe()
	c.broadcast()
}

// isMapAt: t is m[k] (in the plain or the comma-ok form).
func isMapAt(n *namer, t *Term, m, k string) bool {
	if t == nil {
		return false
	}
	if t.Op == "ex" && t.Aux.(int) == 0 {
		t = t.Args[0]
	}
	return t.Op == "lookup" && n.p(t.Args[0]) == m && n.p(t.Args[1]) == k
}

func isMapOk(n *namer, t *Term, m, k string) bool {
	return t != nil && t.Op == "ex" && t.Aux.(int) == 1 && t.Args[0].Op == "lookup" && n.p(t.Args[0].Args[0]) == m && n.p(t.Args[0].Args[1]) == k
}

const sendMsg = "(*comm.multiMessageSender).SendMessage"

// broadcastPaths explores SendMessage with the tested helpers kept as events.
func (c *Ctx) broadcastPaths() []*Path {
	return c.explore(sendMsg, opt{opaque: opaqueSet("comm.channelOf", "(*comm.multiMessageSender).isSubscribed", "comm.sendWire", "(*util.ErrorCollector).Add", "(*util.ErrorCollector).Wait", "(*util.ErrorCollector).Err")})
}

// sendsIn: the send calls (message, connection) made by an event: a direct call or the goroutine it starts.
func sendsOf(paths []*Path, e *Ev) (msgs, conns []*Term, each bool) {
	if isCall(e, "comm.sendWire") {
		return []*Term{e.Args[0]}, []*Term{e.Args[1]}, true
	}
	each = true
	n := 0
	for _, p := range paths {
		if p.Root.Spawn != e || e.Kind != "go" {
			continue
		}
		n++
		sw := calls(p.Events(), "comm.sendWire")
		if len(sw) != 1 {
			each = false
		}
		for _, s := range sw {
			msgs = append(msgs, s.Args[0])
			conns = append(conns, s.Args[1])
		}
	}
	return msgs, conns, each && n > 0
}

// broadcast: who gets a broadcast.
func (c *Ctx) broadcast() {
	paths := c.broadcastPaths()
	f := c.p.fn(sendMsg)
	if f == nil {
		return
	}
	n := newNamer(f)
	mms, m := mkParam(f, f.Params[0]), mkParam(f, f.Params[1])
	its := allVisits(paths)
	var accInfos, serving []*LoopInfo
	var accIdx []int
	registryLoop := 0
	sending := 0
	sentDirect := false
	for _, rt := range roundTrips(paths) {
		pc := rt.Path.St.pc
		for _, it := range visits(rt) {
			if n.p(it.Coll) != "$0.connections" {
				continue
			}
			registryLoop++
			c.check("select-all", sendMsg, where(c, it.At), it.Full || it.Rev, "not every registered connection is considered for a broadcast")
			// selection
			selected := false
			for i, s := range rt.Info.Sym {
				nx := rt.Info.Next[i]
				if nx == nil || nx == s {
					continue
				}
				if nx.Op == "append" && nx.Aux != "spread" && nx.Args[0] == s && len(nx.Args) == 2 && nx.Args[1] == it.Elem {
					selected = true
					if rt.Info.Init[i] != nil {
						c.check("select-start", sendMsg, where(c, it.At), pc.entails(mkEq(lenOf(rt.Info.Init[i]), mkInt(0, nil))), "the list of recipients does not start empty")
					}
					accInfos = append(accInfos, rt.Info)
					accIdx = append(accIdx, i)
				} else if _, ok := s.Typ.Underlying().(*types.Slice); ok {
					c.fail("select-accumulate", sendMsg, where(c, it.At), "the list of recipients is changed other than by appending the connection considered")
				}
			}
			for _, e := range rt.Evs {
				if ms, cs, each := sendsOf(paths, e); each {
					sentDirect = true
					serving = append(serving, rt.Info)
					sending++
					for i := range cs {
						if cs[i] == it.Elem && ms[i] == m {
							selected = true
						} else {
							c.fail("recipient", sendMsg, where(c, e), "the broadcast is not sent to the connection considered")
						}
					}
				}
			}
			// condition
			var ch *Ev
			for _, e := range rt.Path.Events() {
				if isCall(e, "comm.channelOf") && e.Args[0] == m {
					ch = e
				}
			}
			if !c.check("select-channel", sendMsg, where(c, it.At), ch != nil, "recipients are chosen without looking up the message's channels") {
				continue
			}
			hasCh := comp(ch, 1)
			var subRes *Term
			for _, e := range rt.Evs {
				if isCall(e, "(*comm.multiMessageSender).isSubscribed") && e.Args[0] == mms && e.Args[1] == it.Elem && e.Args[2] == comp(ch, 0) {
					subRes = e.Res
				}
			}
			if selected {
				ok := pc.entails(mkNot(hasCh)) || subRes != nil && pc.entails(subRes)
				c.check("select-only-entitled", sendMsg, where(c, it.At), ok, "a connection which did not subscribe to the message's channels can receive it")
			} else {
				ok := pc.entails(hasCh) && subRes != nil && pc.entails(mkNot(subRes))
				c.check("select-every-entitled", sendMsg, where(c, it.At), ok, "a connection entitled to the message can be left out")
			}
		}
	}
	// recipients collected first are served in a second loop over the collected list
	for _, rt := range roundTrips(paths) {
		for _, it := range visits(rt) {
			isAcc := false
			for k, li := range accInfos {
				if it.Coll == li.Sym[accIdx[k]] {
					isAcc = true
				}
			}
			if co := it.Coll; !isAcc && co.Op == "append" && co.Aux == "spread" && len(co.Args) == 2 && n.p(co.Args[1]) == "$0.connections" {
				// all of the registry at once
				pc := rt.Path.St.pc
				open := false
				for _, e := range rt.Path.Events() {
					if isCall(e, "comm.channelOf") && e.Args[0] == m {
						open = pc.entails(mkNot(comp(e, 1)))
					}
				}
				c.check("select-only-entitled", sendMsg, where(c, it.At), open, "every registered connection is selected for a message which has channels")
				c.check("select-start", sendMsg, where(c, it.At), pc.entails(mkEq(lenOf(co.Args[0]), mkInt(0, nil))), "the list of recipients does not start empty")
				isAcc = true
			}
			if !isAcc {
				for _, e := range rt.Evs {
					_, cs, _ := sendsOf(paths, e)
					for _, x := range cs {
						if x == it.Elem && n.p(it.Coll) != "$0.connections" {
							c.fail("recipient", sendMsg, where(c, e), "the broadcast is sent to connections which were not selected from the registry (%s)", n.p(it.Coll))
						}
					}
				}
				continue
			}
			serving = append(serving, rt.Info)
			c.check("serve-all", sendMsg, where(c, it.At), it.Full || it.Rev, "not every recipient is served")
			k := 0
			for _, e := range rt.Evs {
				ms, cs, each := sendsOf(paths, e)
				if len(cs) == 0 {
					continue
				}
				k++
				ok := each
				for i := range cs {
					ok = ok && cs[i] == it.Elem && ms[i] == m
				}
				c.check("recipient", sendMsg, where(c, e), ok, "a recipient is not sent the message exactly once")
			}
			sending++
			c.check("serve-once", sendMsg, where(c, it.At), k == 1, "a recipient is sent the message %d times", k)
		}
	}
	for _, p := range paths {
		if p.Root.Spawn != nil || p.End != "ret" {
			continue
		}
		served := false
		for _, x := range exits(p.Events()) {
			for _, li := range serving {
				served = served || sameLoop(li, x.Aux.(*LoopInfo))
			}
		}
		for k, li := range accInfos {
			served = served || p.St.pc.entails(mkEq(lenOf(li.Sym[accIdx[k]]), mkInt(0, nil)))
		}
		for _, l := range p.St.pc.lits() {
			// nobody is connected
			if l.Op == "eq0" && l.Args[0].Op == "len" && n.p(l.Args[0].Args[0]) == "$0.connections" {
				served = true
			}
		}
		c.check("always-served", sendMsg, c.at(f.Pos()), served, "the broadcast can be over without its recipients being gone through")
		for _, x := range exits(p.Events()) {
			c.check("loops-complete", sendMsg, where(c, x), exhausted(its, p, x, nil), "a loop of the broadcast can end before its last element")
		}
	}
	c.check("serving", sendMsg, c.at(f.Pos()), sending > 0 && registryLoop > 0, "no loop sends the broadcast to the registered connections")
	_ = sentDirect
	c.need("select-only-entitled", 1)
	c.need("select-every-entitled", 1)
	c.need("loops-complete", 1)
}

func runC03(c *Ctx) {
	paths := c.broadcastPaths()
	f := c.p.fn(sendMsg)
	if f == nil {
		return
	}
	errWaits := c.errWaits()
	blocking := []string{"comm.sendWire", connWrite, "(*sync.WaitGroup).Wait", "(*util.ErrorCollector).Wait", "(*util.ErrorCollector).Err"}
	for _, p := range paths {
		evs := p.Events()
		for _, e := range evs {
			if isCall(e, blocking...) {
				c.check("no-lock-while-sending", fnName(e.Fn)+": "+e.Name, where(c, e), len(e.Held) == 0, "%s is called while a lock is held: one stuck client blocks the registry", e.Name)
			}
			if isCall(e, "comm.sendWire") {
				c.check("own-goroutine", fnName(e.Fn), where(c, e), p.Root.Spawn != nil && p.Root.Spawn.Kind == "go", "recipients are served one after the other: one stuck client blocks the rest")
				// the failure is reported
				er := e.Res
				if p.End == "ret" {
					added := false
					for _, a := range calls(evs, "(*util.ErrorCollector).Add") {
						if strip(a.Args[1]) == strip(er) {
							added = true
						}
					}
					c.check("failure-collected", fnName(e.Fn), where(c, e), nilAt(p.St.pc, er) && !added || notNilAt(p.St.pc, er) && added, "the failure of a recipient is lost (or success is reported as a failure)")
				}
			}
		}
		if p.Root.Spawn == nil && p.End == "ret" {
			re, _ := resOf(p.Rets[0])
			ok := re != nil && isCall(re, "(*util.ErrorCollector).Err")
			c.check("failure-returned", sendMsg, c.at(f.Pos()), ok, "the collected failures are not returned")
			if ok {
				var wgWait, colWait bool
				for _, e := range evs {
					if e.N >= re.N {
						break
					}
					wgWait = wgWait || isCall(e, "(*sync.WaitGroup).Wait") && e.Args[0].Op != "faddr"
					colWait = colWait || isCall(e, "(*util.ErrorCollector).Wait") && wgWait
				}
				c.check("all-served-before-report", sendMsg, c.at(f.Pos()), wgWait && (colWait || errWaits), "the result is reported before all recipients were served and all failures collected")
			}
		}
		if p.Root.Spawn != nil && p.End == "ret" && p.Root.Parent.Parent == nil {
			done := 0
			for _, e := range evs {
				if isCall(e, "(*sync.WaitGroup).Done") {
					done++
				}
			}
			c.check("join", fnName(p.Root.Fn), c.at(p.Root.Fn.Pos()), done == 1, "a serving goroutine signals its end %d times", done)
			if sw := calls(evs, "comm.sendWire", connWrite); len(sw) > 0 {
				for _, e := range evs {
					if e.N < sw[0].N {
						c.check("started-at-once", fnName(e.Fn)+": "+e.Kind, where(c, e), !waitsEv(e), "a recipient is served only after waiting: one stuck client blocks the rest")
					}
				}
			}
			ended := false
			for _, e := range evs {
				if isCall(e, "(*sync.WaitGroup).Done") {
					ended = true
				} else if isCall(e, "comm.sendWire", connWrite, "(*util.ErrorCollector).Add") {
					c.check("join", "order", where(c, e), !ended, "a serving goroutine signals its end before %s", e.Name)
				}
			}
		}
	}
	for _, r := range []string{"no-lock-while-sending", "own-goroutine", "failure-collected", "failure-returned", "all-served-before-report", "join"} {
		c.need(r, 1)
	}
	// every started goroutine was announced before: Add(1) in the iteration or Add(len) of the list before the loop
	for _, rt := range roundTrips(paths) {
		var g *Ev
		for _, e := range rt.Evs {
			if e.Kind == "go" {
				if _, _, each := sendsOf(paths, e); each {
					g = e
				}
			}
		}
		if g == nil {
			continue
		}
		for _, e := range rt.Path.Events() {
			if e.N >= g.N && (len(rt.Evs) == 0 || e.N < rt.Evs[0].N) {
				continue
			}
			c.check("started-at-once", fnName(e.Fn)+": "+e.Kind, where(c, e), !waitsEv(e), "a recipient is served only after waiting: one stuck client blocks the rest")
		}
		ok := false
		for _, e := range rt.Path.Events() {
			if e.N > g.N {
				break
			}
			if isCall(e, "(*sync.WaitGroup).Add") {
				if k, isC := e.Args[1].intVal(); isC && k == 1 && e.N > rt.Evs[0].N {
					ok = true
				}
				for _, it := range visits(rt) {
					if e.N < rt.Evs[0].N && rt.Path.St.pc.entails(mkEq(e.Args[1], lenOf(it.Coll))) {
						ok = true
					}
				}
			}
		}
		c.check("announced", sendMsg, where(c, g), ok, "a serving goroutine is not counted before it is started")
	}
	c.need("announced", 1)
	c.collector()
}

// errWaits: the collector's report itself waits for the errors being added (or they are added synchronously).
func (c *Ctx) errWaits() bool {
	async := false
	for _, p := range c.explore("(*util.ErrorCollector).Add", opt{noSpawn: true}) {
		for _, e := range p.Events() {
			async = async || e.Kind == "go"
		}
	}
	if !async {
		return true
	}
	ok := true
	for _, p := range c.explore("(*util.ErrorCollector).Err", opt{noSpawn: true}) {
		if p.End != "ret" {
			continue
		}
		waited := false
		for _, e := range p.Events() {
			waited = waited || isCall(e, "(*sync.WaitGroup).Wait") && len(e.Held) == 0
		}
		ok = ok && waited
	}
	return ok
}

// collector: util.ErrorCollector loses no error.
func (c *Ctx) collector() {
	f := c.p.fn("(*util.ErrorCollector).Add")
	if f == nil {
		c.fail("anchor", "ErrorCollector", "-", "util.ErrorCollector.Add does not exist")
		return
	}
	err := mkParam(f, f.Params[1])
	stored, counted := 0, 0
	for _, p := range c.explore("(*util.ErrorCollector).Add", opt{}) {
		if p.End != "ret" {
			continue
		}
		if p.Root.Spawn == nil {
			// announced synchronously if the rest is done by a goroutine
			async := false
			add := false
			for _, e := range p.Events() {
				if isCall(e, "(*sync.WaitGroup).Add") {
					add = true
				}
				if e.Kind == "go" {
					async = true
					c.check("collector-counted", fnName(f), where(c, e), add, "an error being added is not counted before Add returns")
					counted++
				}
			}
			if async {
				continue
			}
		}
		ok := false
		for _, e := range p.Events() {
			if e.Kind == "store" && e.Addr.Op == "faddr" && namedOf(e.Addr.Args[0].Typ) == "util.ErrorCollector" && e.Val.Op == "append" {
				last := e.Val.Args[len(e.Val.Args)-1]
				base := e.Val.Args[0]
				keepsOld := base.Op == "ld" && base.Args[0] == e.Addr || base.Op == "slice" && addrRoot(base).Op == "alloc"
				if strip(last) == err && keepsOld && len(e.Held) > 0 {
					ok = true
				}
			}
		}
		c.check("collector-keeps", fnName(p.Root.Fn), c.at(f.Pos()), ok, "an error given to the collector is not kept (under its lock)")
		stored++
	}
	c.need("collector-keeps", 1)
	g := c.p.fn("(*util.ErrorCollector).Err")
	for _, p := range c.explore("(*util.ErrorCollector).Err", opt{noSpawn: true}) {
		if p.End != "ret" {
			continue
		}
		n := newNamer(g)
		zero := false
		nonzero := false
		for _, l := range p.St.pc.lits() {
			s := n.p(l)
			if strings.Contains(s, "$0.errs") {
				if l.Op == "not" && (l.Args[0].Op == "eq0" || l.Args[0].Op == "eq") {
					nonzero = true
				}
				if l.Op == "eq0" || l.Op == "eq" {
					zero = true
				}
			}
		}
		ret := p.Rets[0]
		if p.St.pc.entails(mkEq(ret, mkNil(ret.Typ))) {
			c.check("collector-reports", fnName(g), c.at(g.Pos()), zero && !nonzero, "the collector reports success although it may hold errors")
		} else {
			c.check("collector-reports", fnName(g), c.at(g.Pos()), notNilAt(p.St.pc, ret), "the collector's report is indefinite")
		}
	}
	c.need("collector-reports", 2)
}

func runC04(c *Ctx) {
	// AddConn: appends exactly c
	if f := c.p.fn("(*comm.multiMessageSender).AddConn"); f != nil {
		n := newNamer(f)
		for _, p := range c.explore(fnName(f), opt{noSpawn: true}) {
			if p.End != "ret" {
				c.check("add", fnName(f), c.at(f.Pos()), p.End == "back", "registering can end with %s", p.End)
				continue
			}
			got := ""
			k := 0
			for _, e := range p.Events() {
				if isStoreTo(e, "comm.multiMessageSender", "connections") {
					k++
					if e.Val.Op == "append" && e.Val.Aux != "spread" && len(e.Val.Args) == 2 {
						got = n.p(e.Val.Args[0]) + " + " + n.p(e.Val.Args[1])
					}
				}
			}
			c.check("add", fnName(f), c.at(f.Pos()), k == 1 && got == "$0.connections + $1", "a new connection is not appended to the registry (%s)", got)
		}
		c.need("add", 1)
	} else {
		c.fail("anchor", "AddConn", "-", "AddConn does not exist")
	}
	c.delConn()
	c.subscribe()
	// the goroutine of an accepted connection: registered, served, removed
	served := 0
	acceptor := c.explore("comm.serverConnectionAcceptor", opt{opaque: opaqueSet("(*comm.multiMessageSender).AddConn", "(*comm.multiMessageSender).DelConn", "comm.handleConnection", "comm.newServerPackageHandler", "comm.getNewClientHandler")})
	for _, p := range acceptor {
		evs := p.Events()
		hc := calls(evs, "comm.handleConnection")
		if len(hc) == 0 {
			continue
		}
		served++
		pos := where(c, hc[0])
		conn := hc[0].Args[0]
		var seq []string
		same := true
		for _, e := range evs {
			switch {
			case isCall(e, "(*comm.multiMessageSender).AddConn"):
				seq = append(seq, "register")
				same = same && e.Args[1] == conn
			case isCall(e, "comm.handleConnection"):
				seq = append(seq, "serve")
			case isCall(e, "(*comm.multiMessageSender).DelConn"):
				seq = append(seq, "remove")
				same = same && e.Args[1] == conn
			}
		}
		if p.Root.Spawn != nil && strings.Join(seq, " ") == "serve remove" {
			// registered by the acceptor before it starts the goroutine
			before := false
			for _, q := range acceptor {
				qe := q.Events()
				i := posOf(qe, p.Root.Spawn)
				if i < 0 {
					continue
				}
				before = false
				for j := i - 1; j >= 0 && !isCall(qe[j], "(net.Listener).Accept"); j-- {
					before = before || isCall(qe[j], "(*comm.multiMessageSender).AddConn") && qe[j].Args[1] == conn
				}
				if !before {
					break
				}
			}
			if before {
				seq = append([]string{"register"}, seq...)
			}
		}
		c.check("connection-lifecycle", fnName(p.Root.Fn), pos, strings.Join(seq, " ") == "register serve remove" && same && p.End == "ret", "an accepted connection goes through [%s] instead of [register serve remove] (or different connections are meant)", strings.Join(seq, " "))
	}
	c.need("connection-lifecycle", 1)
	// nobody else registers or removes a connection
	for _, op := range []string{"(*comm.multiMessageSender).AddConn", "(*comm.multiMessageSender).DelConn"} {
		for g, ins := range c.callersOf(op) {
			c.check("lifecycle-only", op+" in "+fnName(g), c.at(ins[0].Pos()), fnName(g) == "comm.serverConnectionAcceptor" || c.onlyVia(g, "comm.serverConnectionAcceptor"), "connections are registered or removed elsewhere than where they are accepted and served")
		}
	}
	c.need("lifecycle-only", 2)
	f := c.p.fn("comm.handleConnection")
	for _, p := range c.explore("comm.handleConnection", opt{noSpawn: true, opaque: opaqueSet("comm.readWire")}) {
		if p.End != "ret" {
			continue
		}
		closed := false
		for _, e := range p.Events() {
			if isCall(e, "(net.Conn).Close") && e.Args[0] == mkParam(f, f.Params[0]) {
				closed = true
			}
		}
		c.check("closed", fnName(f), c.at(f.Pos()), closed, "a connection is not closed when its serving ends")
	}
	c.need("closed", 1)
}

// waitsEv: the event can wait for another goroutine, a client or a timer.
func waitsEv(e *Ev) bool {
	switch e.Kind {
	case "send", "recv":
		return e.Name != "select"
	case "select":
		return e.Name == "blocking"
	case "wait":
		return true
	}
	return isCall(e, "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "(*util.ErrorCollector).Wait", "(*util.ErrorCollector).Err", "(net.Conn).Read", connWrite, "comm.sendWire", "comm.readWire")
}

// oneSection: the changes of the registry on a path and what was read of it before happen in one critical section.
func (c *Ctx) oneSection(p *Path, pos string) {
	evs := p.Events()
	isReg := func(a *Term) bool {
		if a == nil || a.Op != "faddr" {
			return false
		}
		n := fieldName(a)
		return namedOf(a.Args[0].Typ) == "comm.multiMessageSender" && (n == "connections" || n == "channels")
	}
	var first, last *Ev
	for _, e := range evs {
		if e.Kind == "load" && isReg(e.Addr) && first == nil {
			first = e
		}
		if e.Kind == "store" && isReg(e.Addr) || e.Kind == "mapupd" || e.Kind == "delete" {
			last = e
		}
	}
	if first == nil || last == nil || last.N < first.N {
		return
	}
	c.check("one-section", fnName(p.Root.Fn), pos, sameSection(evs, first, last), "the registry may change between looking at it and changing it")
}

func (c *Ctx) delConn() {
	name := "(*comm.multiMessageSender).DelConn"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	n := newNamer(f)
	conn := mkParam(f, f.Params[1])
	its := allVisits(paths)
	found, missing := 0, 0
	for _, p := range paths {
		pos := c.at(f.Pos())
		pc := p.St.pc
		c.oneSection(p, pos)
		switch p.End {
		case "back":
			ne := false
			for _, q := range eqLits(pc, false) {
				if elemOf(n, q[0], "$0.connections") && q[1] == conn || elemOf(n, q[1], "$0.connections") && q[0] == conn {
					ne = true
				}
			}
			c.check("remove-search", name, pos, ne, "the search for the connection goes on without comparing, or past it")
		case "ret":
			del := false
			for _, e := range p.Events() {
				if e.Kind == "delete" && n.p(e.Args[0]) == "$0.channels" && e.Args[1] == conn {
					del = true
				}
			}
			c.check("remove-subscriptions", name, pos, del, "the subscriptions of a removed connection are kept")
			// what happens to the list
			var lst *Ev
			var elemStores []*Ev
			for _, e := range p.Events() {
				if isStoreTo(e, "comm.multiMessageSender", "connections") {
					lst = e
				}
				if e.Kind == "store" && e.Addr.Op == "iaddr" && n.p(e.Addr.Args[0]) == "$0.connections" {
					elemStores = append(elemStores, e)
				}
			}
			// the position of the connection, if it was found
			var at *Term
			for _, q := range eqLits(pc, true) {
				for k := 0; k < 2; k++ {
					if elemOf(n, q[k], "$0.connections") && q[1-k] == conn {
						at = strip(q[k]).Args[0].Args[1]
					}
				}
			}
			if at == nil {
				missing++
				ok := lst == nil && len(elemStores) == 0
				for _, x := range exits(p.Events()) {
					ok = ok && exhausted(its, p, x, nil)
				}
				c.check("remove-absent", name, pos, ok, "the list is changed, or not searched to its end, although the connection was not found")
				continue
			}
			found++
			ok := lst != nil
			why := "the connection stays in the list"
			if ok {
				v := lst.Val
				old := mk("ld", nil, nil)
				_ = old
				switch {
				case v.Op == "slice" && n.p(v.Args[0]) == "$0.connections":
					coll := v.Args[0]
					shorter := pc.entails(mkEq(v.Args[1], mkInt(0, nil))) && pc.entails(mkEq(v.Args[2], mkSub(lenOf(coll), mkInt(1, nil), nil)))
					// last element moved to the hole (nothing to move if the hole is the last element)
					moved := false
					for _, s := range elemStores {
						if s.N < lst.N && pc.entails(mkEq(s.Addr.Args[1], at)) && s.Val.Op == "ld" && s.Val.Args[0].Op == "iaddr" && s.Val.Args[0].Args[0] == coll && pc.entails(mkEq(s.Val.Args[0].Args[1], mkSub(lenOf(coll), mkInt(1, nil), nil))) {
							moved = true
						}
					}
					for _, e := range p.Events() { // or everything behind shifted down
						if e.Kind == "copy" && e.N < lst.N && e.Args[0].Op == "slice" && e.Args[1].Op == "slice" && e.Args[0].Args[0] == coll && e.Args[1].Args[0] == coll &&
							pc.entails(mkEq(e.Args[0].Args[1], at)) && pc.entails(mkEq(e.Args[1].Args[1], mkAdd(at, mkInt(1, nil), nil))) && pc.entails(mkEq(e.Args[1].Args[2], lenOf(coll))) {
							moved = true
						}
					}
					if pc.entails(mkEq(at, mkSub(lenOf(coll), mkInt(1, nil), nil))) {
						moved = true
					}
					others := 0
					for _, s := range elemStores {
						if !pc.entails(mkEq(s.Addr.Args[1], at)) && !s.Val.isNil() {
							others++
						}
					}
					ok = shorter && moved && others == 0
					why = "removing a connection drops or duplicates another one"
				case v.Op == "append" && v.Aux == "spread":
					a, b := v.Args[0], v.Args[1]
					ok = a.Op == "slice" && b.Op == "slice" && n.p(a.Args[0]) == "$0.connections" && n.p(b.Args[0]) == "$0.connections" &&
						pc.entails(mkEq(a.Args[1], mkInt(0, nil))) && pc.entails(mkEq(a.Args[2], at)) &&
						pc.entails(mkEq(b.Args[1], mkAdd(at, mkInt(1, nil), nil))) && pc.entails(mkEq(b.Args[2], lenOf(b.Args[0]))) && len(elemStores) == 0
					why = "removing a connection drops or duplicates another one"
				default:
					ok = false
					why = "the list is not shortened by the connection"
				}
			}
			c.check("remove-present", name, pos, ok, "%s", why)
		default:
			c.fail("remove-present", name, pos, "removing a connection can end with %s", p.End)
		}
	}
	c.need("remove-present", 1)
	c.need("remove-absent", 1)
	c.need("remove-search", 1)
}

func (c *Ctx) subscribe() {
	name := "(*comm.multiMessageSender).Subscribe"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	n := newNamer(f)
	conn, ch := mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	its := allVisits(paths)
	for _, p := range paths {
		pos := c.at(f.Pos())
		pc := p.St.pc
		c.oneSection(p, pos)
		if p.End == "back" {
			continue
		}
		if p.End != "ret" {
			c.fail("subscribe", name, pos, "subscribing can end with %s", p.End)
			continue
		}
		connected := false
		for _, q := range eqLits(pc, true) {
			if elemOf(n, q[0], "$0.connections") && q[1] == conn || elemOf(n, q[1], "$0.connections") && q[0] == conn {
				connected = true
			}
		}
		var upd []*Ev
		for _, e := range p.Events() {
			if e.Kind == "mapupd" && n.p(e.Args[0]) == "$0.channels" {
				upd = append(upd, e)
			}
		}
		if !connected {
			ok := len(upd) == 0
			for _, x := range exits(p.Events()) {
				ok = ok && exhausted(its, p, x, nil)
			}
			c.check("subscribe-absent", name, pos, ok, "a subscription is recorded for a connection which is not (known to be) registered, or a registered one is refused")
			continue
		}
		ok := len(upd) == 1 && upd[0].Args[1] == conn
		if len(upd) == 0 {
			// nothing to record if it is already recorded
			for _, q := range eqLits(pc, true) {
				for k := 0; k < 2; k++ {
					if t := strip(q[k]); q[1-k] == ch && t.Op == "ld" && t.Args[0].Op == "iaddr" && isMapAt(n, t.Args[0].Args[0], "$0.channels", "$1") {
						ok = true
					}
				}
			}
		} else if ok {
			v := upd[0].Val
			if v == nil && len(upd[0].Args) > 2 {
				v = upd[0].Args[2]
			}
			switch {
			case v.Op == "append" && v.Aux != "spread":
				ok = len(v.Args) == 2 && strip(v.Args[1]) == ch
				if ok && !isMapAt(n, v.Args[0], "$0.channels", "$1") {
					// a fresh list is right only for the first subscription
					ok = isFirst(n, pc) && pc.entails(mkEq(lenOf(v.Args[0]), mkInt(0, nil)))
				}
			default:
				el, okE := c.elems(p.St, v, 0)
				ok = okE && len(el) == 1 && strip(el[0]) == ch && isFirst(n, pc)
			}
		}
		c.check("subscribe-present", name, pos, ok, "a subscription of a registered connection is not recorded, or loses earlier ones")
	}
	c.need("subscribe-absent", 1)
	c.need("subscribe-present", 1)
}

func isFirst(n *namer, pc *PC) bool {
	for _, l := range pc.lits() {
		if l.Op == "not" && isMapOk(n, l.Args[0], "$0.channels", "$1") {
			return true
		}
		if l.Op == "eq" || l.Op == "eq0" {
			if t := l.find(func(x *Term) bool { return isMapAt(n, x, "$0.channels", "$1") }); t != nil {
				return true
			}
		}
	}
	return false
}

func runC05(c *Ctx) {
	name := "comm.serverConnectionAcceptor"
	f := c.p.fn(name)
	obs := func(o *Ob) {
		if o.Kind == "nil function or interface called" {
			c.check("no-nil-call", o.Fn+": "+o.Key, o.Where, o.Fail == "", "%s", o.Fail)
		}
	}
	paths := c.explore(name, opt{obs: obs, opaque: opaqueSet("comm.handleConnection", "comm.newServerPackageHandler")})
	if f == nil {
		return
	}
	isTemp := func(e *Ev) bool { return isCall(e, "(net.Error).Temporary", "(net.Error).Timeout") }
	for _, p := range paths {
		if p.Root.Spawn != nil {
			hc := calls(p.Events(), "comm.handleConnection")
			if len(hc) == 0 {
				continue
			}
			for _, e := range p.Events() {
				if e.N < hc[0].N {
					c.check("served-at-once", fnName(e.Fn)+": "+e.Name, where(c, e), !waitsEv(e) && !(e.Kind == "call" && e.Name == "dynamic"), "a client is served only after %s returned", e.Name)
				}
			}
			continue
		}
		evs := p.Events()
		start := 0
		for i, e := range evs {
			if e.Kind == "loophead" && e.Fn == f {
				start = i
			}
		}
		win := evs[start:]
		acc := calls(win, "(net.Listener).Accept")
		pos := c.at(f.Pos())
		if p.End == "back" {
			if evs[len(evs)-1].Fn != f {
				continue
			}
			if !c.check("accept-once", name, pos, len(acc) == 1, "an iteration of the accept loop accepts %d times", len(acc)) {
				continue
			}
			a := acc[0]
			conn, er := comp(a, 0), comp(a, 1)
			// goroutines serving the connection
			serving := 0
			for _, e := range win {
				if e.Kind != "go" {
					continue
				}
				for _, q := range paths {
					if q.Root.Spawn == e {
						if h := calls(q.Events(), "comm.handleConnection"); len(h) == 1 && h[0].Args[0] == conn {
							serving++
							break
						}
					}
				}
			}
			if serving > 0 {
				c.check("serve-accepted", name, where(c, a), nilAt(p.St.pc, er) && serving == 1, "a connection is served although accepting failed, or twice")
			} else {
				temp := false
				for _, e := range win {
					if isTemp(e) && p.St.pc.entails(e.Res) {
						temp = true
					}
				}
				c.check("retry-temporary", name, where(c, a), temp && notNilAt(p.St.pc, er), "an accepted connection is not served, or accepting goes on after a permanent error")
			}
			for _, e := range win {
				if e.Kind == "call" && e.Aux != "inline" {
					ok := isCall(e, "(net.Listener).Accept", "time.Sleep", "(net.Error).*", "(logging.Logger).*", "comm.newServerPackageHandler", "(error).Error", "(net.Conn).RemoteAddr", "(net.Addr).*")
					c.check("acceptor-never-waits", name+": "+e.Name, where(c, e), ok, "the acceptor itself calls %s, which may wait for a client", e.Name)
				}
				if e.Kind == "send" || e.Kind == "recv" || e.Kind == "select" {
					c.fail("acceptor-never-waits", name+": channel", where(c, e), "the acceptor waits for a channel")
				}
			}
			continue
		}
		if p.End != "ret" {
			c.fail("accept-loop-ends", name, pos, "the accept loop can end with %s", p.End)
			continue
		}
		ok := len(acc) == 1
		if ok {
			ok = notNilAt(p.St.pc, comp(acc[0], 1))
			for _, e := range win {
				if isTemp(e) && !p.St.pc.entails(mkNot(e.Res)) {
					ok = false
				}
			}
			if len(calls(win, "(net.Error).Temporary")) == 0 {
				// not asked: only right if the error is known not to be a net.Error
				known := false
				for _, l := range p.St.pc.lits() {
					if l.Op == "not" && l.Args[0].Op == "typeis" {
						known = true
					}
				}
				ok = ok && known
			}
		}
		c.check("accept-loop-ends", name, pos, ok, "the accept loop ends although accepting did not fail for good")
	}
	for _, r := range []string{"serve-accepted", "retry-temporary", "accept-loop-ends", "acceptor-never-waits", "no-nil-call"} {
		c.need(r, 1)
	}
	// the subscription path calls the handler slot too
	for _, h := range c.messageHandlers() {
		if c.p.pkgRel(h) == "comm" {
			c.exploreFn(h, opt{obs: obs, noSpawn: true, init: nonNilParams})
		}
	}
	// nothing but the slot's accessors reads the handler variable
	if g := c.p.global("comm", "NewClientHandler"); g != nil {
		for _, fn := range c.cg().fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g && c.p.pkgRel(fn) != "testutil" {
						c.check("handler-slot", fnName(fn), c.at(in.Pos()), c.p.pkgRel(fn) == "comm", "%s sets the client handler without going through comm", fnName(fn))
					}
				}
			}
		}
	}
}
