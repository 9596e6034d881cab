package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "S01", Title: "Chunks are scheduled back to back and announced consistently",
		Statement: "Chunk number n (n = 0, 1, 2, ...) of the stream starts exactly n times StreamChunkTime after the start of the stream, which is StreamDelay after the synchronised time at which streaming begins; one chunk is produced per StreamChunkTime. A chunk holds the next StreamChunkSize samples of the playlist in both channels, and its announcement to the infoers carries the same start time and the same first sample index as the chunk sent to the players, and its real size.",
		Over:      []string{"histories", "inputs"}, Quant: "all chunks of the stream, all values of the scheduling parameters", Why: "The streaming loop is not covered by tests; drift or a mismatch of the two messages shows only over time or between programs.",
		Files:     []string{"schedule/server_state.go", "schedule/server.go"},
		Mech:      [][2]string{{"streaming loop", "serverState.streamMusic"}, {"messages", "comm.QueueChunkRequest, comm.ChunkInfo"}},
		Technique: absTech + "; the start time is compared as a polynomial: its value in the first iteration and its change from one iteration to the next",
		Note:      "That each chunk's buffers are its own is L01; that Fill returns consecutive samples and the right index is P02.",
		Run:       chunkSchedule,
	})
	register(&Prop{
		ID: "S02", Title: "Clocks are synchronised by the four-timestamp formula",
		Statement: "A time sync request carries the client's raw clock at sending; the response repeats it and adds the server's raw clock when the request was handled and when the response was made; the client takes ((serverRecv-clientSend)+(serverSend-clientRecv))/2 as one measured offset. The offset in use is replaced only when all measurements of a round have arrived, and then by their average; the synchronised time is the raw clock plus that offset. Player and infoer start a round of TimeSyncCycles requests, after forgetting old measurements, when they connect and every TimeSyncInterval.",
		Over:      []string{"inputs", "histories"}, Quant: "all timestamps, all numbers of measurements", Why: "Tests use one symmetric pattern of timestamps, for which many wrong formulas agree.",
		Files:     []string{"timing/timing.go", "schedule/infoer.go", "schedule/player.go", "comm/package_handler.go"},
		Mech:      [][2]string{{"formula and average", "timing.UpdateOffset"}, {"clock", "timing.GetSyncedTime"}, {"requests", "schedule.syncTime"}, {"stamps", "serverPackageHandler.HandleTimeSyncRequest"}},
		Technique: absTech + "; the sum over all measurements is established by an inductive argument over the loop",
		Note:      "Which handler calls UpdateOffset with which fields is C01. Accuracy of the result depends on the network and is not decided.",
		Run:       timeSync,
	})
}

// ---- polynomials ----

type pmono struct {
	k  int64
	at []*Term
}

type poly map[string]pmono

func monoKey(at []*Term) string {
	var s []string
	for _, a := range at {
		s = append(s, fmt.Sprint(a.ID))
	}
	return strings.Join(s, ".")
}

func (p poly) add(q poly, k int64) poly {
	r := poly{}
	for x, m := range p {
		r[x] = m
	}
	for x, m := range q {
		n := r[x]
		n.k += k * m.k
		n.at = m.at
		if n.k == 0 {
			delete(r, x)
		} else {
			r[x] = n
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for _, a := range p {
		for _, b := range q {
			at := append(append([]*Term{}, a.at...), b.at...)
			sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
			r = r.add(poly{monoKey(at): {a.k * b.k, at}}, 1)
		}
	}
	return r
}

func polyOf(t *Term) poly {
	t = strip(t)
	if v, ok := t.intVal(); ok {
		if v == 0 {
			return poly{}
		}
		return poly{"": {v, nil}}
	}
	switch {
	case t.Op == "lin":
		l := t.Aux.(*linAux)
		r := poly{}
		if l.C != 0 {
			r[""] = pmono{l.C, nil}
		}
		for i, a := range t.Args {
			r = r.add(polyOf(a), l.K[i])
		}
		return r
	case t.Op == "app" && t.Aux == "mul" && isInteger(t.Typ):
		return polyOf(t.Args[0]).mul(polyOf(t.Args[1]))
	}
	return poly{monoKey([]*Term{t}): {1, []*Term{t}}}
}

func polyEq(a, b poly) bool { return len(a.add(b, -1)) == 0 }

// ---- messages sent ----

// sent is a message handed to a sender, directly or in a goroutine of its own.
type sent struct {
	P    *Path // the path with the call
	Ev   *Ev   // the call or go statement
	At   *Ev   // the event in the path of the enclosing function: the call or the go statement of the goroutine
	Recv *Term
	Msg  *Term
	Typ  string
}

// fieldIn: the value of a field of an object allocated by the analysed code, at event at.
func (c *Ctx) fieldIn(p *Path, obj *Term, field string, at *Ev) *Term {
	obj = strip(obj)
	if v := msgFields(p, obj, at)[field]; v != nil {
		return v
	}
	for r := p.Root; r != nil; r = r.Parent {
		if r.init == nil {
			continue
		}
		st, ok := ptrElem(obj.Typ).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				ex := newExec(c.p)
				ex.imm = c.imm
				v := ex.load(r.init.clone(), mkFaddr(obj, i, st.Field(i).Type()), st.Field(i).Type())
				return v
			}
		}
	}
	if obj.Op == "alloc" {
		if st, ok := ptrElem(obj.Typ).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == field {
					return zeroOf(st.Field(i).Type())
				}
			}
		}
	}
	return nil
}

func (c *Ctx) field(s sent, name string) *Term { return c.fieldIn(s.P, s.Msg, name, s.Ev) }

// sentIn lists the messages sent on a path.
func sentIn(p *Path) []sent {
	var r []sent
	for _, e := range p.Events() {
		if (e.Kind == "call" || e.Kind == "go" || e.Kind == "pure") && strings.HasSuffix(e.Name, ".SendMessage") && len(e.Args) == 2 {
			r = append(r, sent{P: p, Ev: e, At: e, Recv: e.Args[0], Msg: strip(e.Args[1]), Typ: namedOf(strip(e.Args[1]).Typ)})
		}
	}
	return r
}

// sentAll lists the messages sent by events evs of a path, including those sent by goroutines they start.
func sentAll(evs []*Ev, p *Path, paths []*Path) []sent {
	in := map[*Ev]bool{}
	for _, e := range evs {
		in[e] = true
	}
	var r []sent
	for _, s := range sentIn(p) {
		if in[s.At] {
			r = append(r, s)
		}
	}
	for _, q := range paths {
		if q.Root.Spawn == nil || !in[q.Root.Spawn] || q.End != "ret" {
			continue
		}
		for _, s := range sentIn(q) {
			s.At = q.Root.Spawn
			r = append(r, s)
		}
	}
	return r
}

// builders: the functions in which messages of a type are made, or the operations of the same package these are parts of.
func (c *Ctx) builders(typ string) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	g := c.cg()
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		var callers []*ssa.Function
		for _, in := range g.in[f] {
			k, isCall := in.(*ssa.Call)
			if isCall && !k.Call.IsInvoke() && k.Call.StaticCallee() == f && in.Parent().Pkg == f.Pkg && in.Parent() != f && in.Parent().Pkg != nil {
				callers = append(callers, in.Parent())
			} else {
				callers = nil
				break
			}
		}
		if len(callers) == 0 {
			r = append(r, f)
			return
		}
		for _, x := range callers {
			up(x)
		}
	}
	for _, f := range c.p.fns {
		if c.p.isGenerated(f) || c.p.pkgRel(f) == "testutil" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && namedOf(a.Type().Underlying().(*types.Pointer).Elem()) == typ {
					if _, isPtr := a.Type().Underlying().(*types.Pointer).Elem().(*types.Pointer); !isPtr {
						up(f)
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

func nameOf(t *Term) string { return newNamer(nil).p(strip(t)) }

// chunkSchedule: S01.
func chunkSchedule(c *Ctx) {
	const fill = "(*playback.Playlist).Fill"
	roots := c.builders("comm.QueueChunkRequest")
	for _, f := range c.builders("comm.ChunkInfo") {
		known := false
		for _, g := range roots {
			known = known || f == g
		}
		c.check("one place", fnName(f), c.at(f.Pos()), known, "chunk announcements are made elsewhere than the chunks they announce")
	}
	c.check("one place", "QueueChunkRequest", "schedule", len(roots) == 1, "chunks are made in %d places", len(roots))
	for _, f := range roots {
		paths := c.exploreFn(f, opt{opaque: opaqueSet(fill, "timing.GetSyncedTime", "timing.GetRawTime")})
		at := c.at(f.Pos())
		n := 0
		for _, p := range paths {
			if p.Root.Kind != "entry" {
				continue
			}
			inLoop := false
			for _, e := range p.Events() {
				if e.Kind == "loophead" && e.Fn == f {
					inLoop = true
				}
			}
			if p.End == "ret" && !inLoop {
				c.check("streaming goes on", fnName(f), at, false, "streaming can end before the first chunk")
			}
		}
		for _, rt := range roundTrips(paths) {
			if rt.Path.Root.Kind != "entry" {
				continue
			}
			pc := rt.Path.St.pc
			ms := sentAll(rt.Evs, rt.Path, paths)
			var q, inf []sent
			for _, m := range ms {
				switch m.Typ {
				case "comm.QueueChunkRequest":
					q = append(q, m)
				case "comm.ChunkInfo":
					inf = append(inf, m)
				}
			}
			if len(innermost(rt)) != len(rt.Evs) && len(q) == 0 {
				continue // an inner loop which is not about chunks
			}
			fl := calls(rt.Evs, fill)
			if !c.check("one chunk per round", fnName(f), at, len(fl) == 1 && len(q) == 1 && len(inf) == 1, "a round takes samples %d times and sends %d chunks and %d announcements", len(fl), len(q), len(inf)) {
				continue
			}
			n++
			low, high := fl[0].Args[1], fl[0].Args[2]
			c.check("samples", "QueueChunkRequest", where(c, q[0].At), strip(c.field(q[0], "SampleLow")) == strip(low) && strip(c.field(q[0], "SampleHigh")) == strip(high) && low != high, "the chunk does not carry the samples taken from the playlist, low and high")
			for _, b := range []*Term{low, high} {
				c.check("chunk size", "Fill", where(c, fl[0]), nameOf(lenOf(b)) == "schedule.StreamChunkSize", "a chunk does not hold StreamChunkSize samples")
			}
			first := fl[0].Res
			c.check("first sample", "QueueChunkRequest", where(c, q[0].At), strip(c.field(q[0], "FirstSampleIndex")) == first, "the chunk does not carry the index of its first sample")
			c.check("first sample", "ChunkInfo", where(c, inf[0].At), strip(c.field(inf[0], "FirstSampleIndex")) == first, "the announcement does not carry the index of the chunk's first sample")
			c.check("announced size", "ChunkInfo", where(c, inf[0].At), pc.entails(mkEq(strip(c.field(inf[0], "ChunkSize")), lenOf(low))) || strip(c.field(inf[0], "ChunkSize")) == lenOf(low), "the announced size is not that of the chunk")
			T, T2 := c.field(q[0], "StartTime"), c.field(inf[0], "StartTime")
			if !c.check("same start time", "ChunkInfo", where(c, inf[0].At), T != nil && T2 != nil && polyEq(polyOf(T), polyOf(T2)), "the announced start time is not that of the chunk") {
				continue
			}
			at0, at1 := map[*Term]*Term{}, map[*Term]*Term{}
			for i, s := range rt.Info.Sym {
				if s != nil && rt.Info.Init[i] != nil && rt.Info.Next[i] != nil {
					at0[s], at1[s] = rt.Info.Init[i], rt.Info.Next[i]
				}
			}
			t0, t1 := polyOf(subst(T, at0)), polyOf(subst(T, at1))
			step := t1.add(polyOf(T), -1)
			c.check("back to back", "StartTime", where(c, q[0].At), len(step) == 1 && isOne(step, "schedule.StreamChunkTime"), "a chunk does not start StreamChunkTime after the one before it")
			start := false
			for _, e := range rt.Path.Events() {
				if isCall(e, "timing.GetSyncedTime") && e.N < rt.Evs[0].N {
					d := t0.add(polyOf(e.Res), -1)
					start = start || len(d) == 1 && isOne(d, "schedule.StreamDelay")
				}
			}
			c.check("start of the stream", "StartTime", where(c, q[0].At), start, "the first chunk does not start StreamDelay after the synchronised time at which streaming begins")
			id := c.field(q[0], "ChunkId")
			d := polyOf(subst(id, at1)).add(polyOf(id), -1)
			c.check("numbered", "ChunkId", where(c, q[0].At), len(d) == 1 && d[""].k == 1, "chunks are not numbered consecutively")
			paced := 0
			for _, e := range rt.Evs {
				if e.Kind == "recv" && e.Addr != nil && tickOf(e.Addr) == "schedule.StreamChunkTime" {
					paced++
				}
			}
			c.check("paced", fnName(f), at, paced == 1, "not one chunk is produced per StreamChunkTime")
			for _, m := range []sent{q[0], inf[0]} {
				b, fld := fieldOf(m.Recv)
				c.check("broadcast", m.Typ, where(c, m.At), b != nil && fld == "sender", "the message is not sent with the server's sender")
			}
		}
		c.check("chunks", fnName(f), at, n > 0, "no chunk is sent")
	}
	// streaming starts with the server
	srv := c.p.fn("schedule.Server")
	started := 0
	if srv != nil {
		for _, p := range rets(c.explore("schedule.Server", opt{noSpawn: true, opaque: func(f *ssa.Function) bool { return c.p.pkgRel(f) != "schedule" }})) {
			k := 0
			for _, e := range p.Events() {
				if e.Kind == "go" {
					for _, f := range roots {
						if e.Name == fnName(f) || goTarget(e) == f {
							k++
						}
					}
				}
			}
			c.check("started", "schedule.Server", c.at(srv.Pos()), k == 1, "streaming is started %d times", k)
			started++
		}
	}
	c.check("started", "schedule.Server", "schedule/server.go", started > 0, "schedule.Server not found")
	for _, r := range []string{"samples", "first sample", "back to back", "start of the stream", "paced"} {
		c.need(r, 1)
	}
}

// goTarget: the function a go statement starts.
func goTarget(e *Ev) *ssa.Function {
	if g, ok := e.Instr.(*ssa.Go); ok {
		if f := g.Call.StaticCallee(); f != nil {
			return f
		}
		if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			return mc.Fn.(*ssa.Function)
		}
	}
	return nil
}

// isOne: the polynomial is the named variable.
func isOne(p poly, name string) bool {
	for _, m := range p {
		return len(p) == 1 && m.k == 1 && len(m.at) == 1 && nameOf(m.at[0]) == name
	}
	return false
}

// tickOf: the period of a ticking channel.
func tickOf(ch *Term) string {
	ch = strip(ch)
	if b, fld := fieldOf(ch); b != nil && fld == "C" {
		ch = b
	}
	if e, _ := resOf(ch); e != nil && (e.Name == "time.Tick" || e.Name == "time.NewTicker") {
		return nameOf(e.Args[0])
	}
	return ""
}

// ---- S02 ----

func timeSync(c *Ctx) {
	offsetRule(c)
	roundRule(c)
	stampRule(c)
	c.include("C01", about("TimeSync"))
}

func isGlobalAddr(a *Term, name string) bool {
	if a == nil || a.Op != "global" {
		return false
	}
	g := a.Aux.(*ssa.Global)
	return short(g.Pkg.Pkg.Path())+"."+g.Name() == name
}

func storesToGlobal(evs []*Ev, name string) []*Ev {
	var r []*Ev
	for _, e := range evs {
		if e.Kind == "store" && isGlobalAddr(e.Addr, name) {
			r = append(r, e)
		}
	}
	return r
}

// bigVal: the integer a *big.Int was computed to be (nil if not followed).
func bigVal(t *Term) *Term {
	e, _ := resOf(strip(t))
	if e == nil {
		return nil
	}
	switch e.Name {
	case "math/big.NewInt":
		return e.Args[0]
	}
	return nil
}

func offsetRule(c *Ctx) {
	name := "timing.UpdateOffset"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil || len(f.Params) != 4 {
		return
	}
	at := c.at(f.Pos())
	cs, sr, ss, cr := mkParam(f, f.Params[0]), mkParam(f, f.Params[1]), mkParam(f, f.Params[2]), mkParam(f, f.Params[3])
	sum := linOf(sr).add(linOf(cs), -1).add(linOf(ss), 1).add(linOf(cr), -1).term(types.Typ[types.Int64])
	isMeasure := func(t *Term) bool {
		t = strip(t)
		return t.Op == "app" && t.Aux == "quo" && len(t.Args) == 2 && t.Args[0] == sum && isInt(t.Args[1], 2)
	}
	// loops which add up the measurements
	type summing struct {
		li  *LoopInfo
		acc *Term
		it  iter
	}
	var sums []summing
	for _, rt := range roundTrips(paths) {
		for _, v := range visits(rt) {
			for i, s := range rt.Info.Sym {
				nx := rt.Info.Next[i]
				if s == nil || nx == nil {
					continue
				}
				adds := false
				if isInteger(s.Typ) {
					adds = polyEq(polyOf(nx), polyOf(s).add(polyOf(v.Elem), 1))
				} else if e, _ := resOf(nx); e != nil && e.Name == "(*math/big.Int).Add" && len(e.Args) == 3 {
					a, b := e.Args[1], e.Args[2]
					adds = a == s && bigVal(b) != nil && bigVal(b) == strip(v.Elem) || b == s && bigVal(a) != nil && bigVal(a) == strip(v.Elem)
				}
				init := rt.Info.Init[i]
				zero := init != nil && (isInteger(init.Typ) && isInt(init, 0) || bigVal(init) != nil && isInt(bigVal(init), 0) || isFresh(init))
				if adds {
					if c.check("average", "sum", where(c, v.At), zero && (v.Full || v.Rev), "the sum does not start at 0 or skips measurements") {
						sums = append(sums, summing{rt.Info, s, v})
					}
				}
			}
			// an accumulator changed in place
			for _, e := range rt.Evs {
				if isCall(e, "(*math/big.Int).Add") && len(e.Args) == 3 && e.Args[0] == e.Args[1] && bigVal(e.Args[2]) == strip(v.Elem) {
					if c.check("average", "sum", where(c, v.At), v.Full || v.Rev, "the sum skips measurements") {
						sums = append(sums, summing{rt.Info, e.Args[0], v})
					}
				}
			}
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		pc := p.St.pc
		st := storesToGlobal(evs, "timing.offsets")
		if !c.check("measurement", name, at, len(st) == 1 && st[0].Val.Op == "append" && len(st[0].Val.Args) == 2 && st[0].Val.Aux != "spread", "not exactly one measurement is added") {
			continue
		}
		all := st[0].Val
		c.check("formula", name, where(c, st[0]), isMeasure(all.Args[1]), "the measured offset is not ((serverRecv-clientSend)+(serverSend-clientRecv))/2")
		c.check("measurement", name+" others", where(c, st[0]), nameOf(all.Args[0]) == "timing.offsets", "earlier measurements are lost")
		of := storesToGlobal(evs, "timing.offset")
		full := pc.entailsLe(capOf(all), lenOf(all), 0)
		notFull := pc.entails(mkNot(mkEq(lenOf(all), capOf(all)))) || pc.entails(mkLt0(linOf(lenOf(all)).add(linOf(capOf(all)), -1)))
		if len(of) == 0 {
			c.check("complete", name, at, notFull, "the offset is not updated although all measurements have arrived")
			continue
		}
		c.check("complete", name, where(c, of[0]), full && len(of) == 1, "the offset is updated before all measurements have arrived")
		// the average
		var x, n *Term
		v := strip(of[0].Val)
		if e, _ := resOf(v); e != nil && e.Name == "(*math/big.Int).Int64" {
			if d, _ := resOf(e.Args[0]); d != nil && (d.Name == "(*math/big.Int).Div" || d.Name == "(*math/big.Int).Quo") {
				x, n = d.Args[1], bigVal(d.Args[2])
			}
		} else if v.Op == "app" && v.Aux == "quo" {
			x, n = v.Args[0], v.Args[1]
		}
		ok := false
		for _, s := range sums {
			if x != nil && (s.acc == x || strip(x) == s.acc) && s.it.Coll == all {
				for _, e := range exits(evs) {
					ok = ok || sameLoop(e.Aux.(*LoopInfo), s.li) && exhausted([]iter{s.it}, p, e, all)
				}
			}
		}
		c.check("average", name, where(c, of[0]), ok, "the new offset is not made of the sum of all measurements")
		c.check("average", name+" count", where(c, of[0]), n != nil && pc.entails(mkEq(strip(n), lenOf(all))), "the sum is not divided by the number of measurements")
	}
	// the clock
	for _, p := range rets(c.explore("timing.GetSyncedTime", opt{noSpawn: true})) {
		r := polyOf(p.Rets[0])
		mono, off := 0, 0
		for _, m := range r {
			if m.k == 1 && len(m.at) == 1 {
				if e, _ := resOf(m.at[0]); e != nil && strings.HasSuffix(e.Name, "monotime.Now") {
					mono++
				}
				if nameOf(m.at[0]) == "timing.offset" {
					off++
				}
			}
		}
		c.check("clock", "timing.GetSyncedTime", "timing/timing.go", len(r) == 2 && mono == 1 && off == 1, "the synchronised time is not the raw clock plus the offset")
	}
	for _, p := range rets(c.explore("timing.GetRawTime", opt{noSpawn: true})) {
		e, _ := resOf(p.Rets[0])
		c.check("clock", "timing.GetRawTime", "timing/timing.go", e != nil && strings.HasSuffix(e.Name, "monotime.Now"), "the raw time is not the monotonic clock")
	}
	g := c.p.fn("timing.ResetOffsets")
	for _, p := range rets(c.explore("timing.ResetOffsets", opt{noSpawn: true})) {
		st := storesToGlobal(p.Events(), "timing.offsets")
		c.check("new round", "timing.ResetOffsets", "timing/timing.go", len(st) == 1 && isInt(lenOf(st[0].Val), 0) && capOf(st[0].Val) == mkParam(g, g.Params[0]) && len(storesToGlobal(p.Events(), "timing.offset")) == 0, "a new round does not forget the old measurements, expects another number of measurements or changes the offset in use")
	}
	for _, h := range c.p.fns {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if gl, ok := s.Addr.(*ssa.Global); ok {
						switch n := short(gl.Pkg.Pkg.Path()) + "." + gl.Name(); n {
						case "timing.offset", "timing.offsets":
							via := []string{name}
							if n == "timing.offsets" {
								via = append(via, "timing.ResetOffsets")
							}
							c.check("changed elsewhere", fnName(h), c.at(in.Pos()), h.Name() == "init" || c.onlyVia(h, via...), "%s is changed elsewhere", n)
						}
					}
				}
			}
		}
	}
	for _, r := range []string{"formula", "average", "complete", "clock", "new round"} {
		c.need(r, 1)
	}
}

func isInt(t *Term, n int64) bool {
	v, ok := strip(t).intVal()
	return ok && v == n
}

func isFresh(t *Term) bool { return strip(t).Op == "alloc" }

// roundRule: a round of requests.
func roundRule(c *Ctx) {
	opq := opaqueSet("timing.GetRawTime", "timing.GetSyncedTime", "timing.ResetOffsets", "playback.Init")
	roots := c.builders("comm.TimeSyncRequest")
	c.check("requests", "comm.TimeSyncRequest", "schedule", len(roots) > 0, "no time sync request is made")
	for _, f := range []string{"schedule.Player", "schedule.Infoer"} {
		fn := c.p.fn(f)
		paths := c.explore(f, opt{opaque: opq})
		if fn == nil {
			continue
		}
		sender := mkParam(fn, fn.Params[0])
		// request loops
		var its []iterCount
		for _, rt := range roundTrips(paths) {
			ms := sentAll(rt.Evs, rt.Path, nil)
			inner := map[*Ev]bool{}
			for _, e := range innermost(rt) {
				inner[e] = true
			}
			var req []sent
			for _, m := range ms {
				if m.Typ == "comm.TimeSyncRequest" && inner[m.At] {
					req = append(req, m)
				}
			}
			if len(req) == 0 {
				continue
			}
			if !c.check("one request per cycle", f, where(c, req[0].At), len(req) == 1, "a cycle sends %d requests", len(req)) {
				continue
			}
			e, _ := resOf(c.field(req[0], "ClientSend"))
			c.check("client stamp", f, where(c, req[0].At), e != nil && e.Name == "timing.GetRawTime" && inner[e], "the request does not carry the raw clock at its sending")
			c.check("sender", f, where(c, req[0].At), req[0].Recv == sender, "the request is not sent to the server")
			for i, s := range rt.Info.Sym {
				if s != nil && isInteger(s.Typ) && rt.Info.Next[i] != nil && rt.Info.Init[i] != nil {
					its = append(its, iterCount{rt.Info, s, rt.Info.Init[i], rt.Info.Next[i]})
				}
			}
		}
		// rounds: ResetOffsets before, TimeSyncCycles cycles
		rounds, again := 0, 0
		for _, p := range paths {
			evs := p.Events()
			for i, e := range evs {
				if e.Kind != "loopexit" {
					continue
				}
				var cnt *iterCount
				for k := range its {
					if sameLoop(its[k].li, e.Aux.(*LoopInfo)) {
						cnt = &its[k]
					}
				}
				if cnt == nil {
					continue
				}
				d, okD := sub2(cnt.next, cnt.sym).intVal()
				var n *Term
				if okD && d == 1 {
					n = sub2(cnt.sym, cnt.init)
				} else if okD && d == -1 {
					n = sub2(cnt.init, cnt.sym)
				}
				var limit *Term
				for j := i; j >= 0; j-- {
					if isCall(evs[j], "timing.ResetOffsets") {
						limit = evs[j].Args[0]
						break
					}
					if j < i && evs[j].Kind == "loopexit" && sameLoop(evs[j].Aux.(*LoopInfo), cnt.li) {
						break
					}
				}
				c.check("round", f, where(c, e), limit != nil && nameOf(limit) == "schedule.TimeSyncCycles", "a round does not start by forgetting the old measurements and expecting TimeSyncCycles new ones")
				c.check("round", f+" length", where(c, e), n != nil && limit != nil && (p.St.pc.entailsLe(limit, n, 0) || e.PC.entailsLe(limit, n, 0)), "a round can end before TimeSyncCycles requests were sent: the offset would never be updated")
				rounds++
			}
		}
		for _, rt := range roundTrips(paths) {
			paced, synced := false, false
			for _, e := range rt.Evs {
				if e.Kind == "recv" && e.Addr != nil && tickOf(e.Addr) == "schedule.TimeSyncInterval" || isCall(e, "time.Sleep") && nameOf(e.Args[0]) == "schedule.TimeSyncInterval" {
					paced = true
				}
				if e.Kind == "loopexit" {
					for _, x := range its {
						synced = synced || sameLoop(x.li, e.Aux.(*LoopInfo))
					}
				}
			}
			if paced {
				c.check("repeated", f, c.at(fn.Pos()), synced, "the clock is not synchronised again after TimeSyncInterval")
				again++
			}
		}
		// the first round is not delayed
		firstRound := false
		for _, p := range paths {
			for _, e := range p.Events() {
				if e.Kind == "recv" {
					break
				}
				if e.Kind == "loopexit" {
					for _, x := range its {
						firstRound = firstRound || sameLoop(x.li, e.Aux.(*LoopInfo))
					}
				}
			}
		}
		c.check("first round", f, c.at(fn.Pos()), firstRound, "the clock is not synchronised when the client starts")
		c.check("repeated", f, c.at(fn.Pos()), again > 0, "the clock is not synchronised again after TimeSyncInterval")
		c.check("round", f, c.at(fn.Pos()), rounds > 0, "no round of time sync requests is made")
	}
}

type iterCount struct {
	li              *LoopInfo
	sym, init, next *Term
}

// stampRule: the server's answer.
func stampRule(c *Ctx) {
	t := c.handlerTypes()["comm"]
	if t == nil {
		c.fail("answer", "serverPackageHandler", "comm", "the server's package handler was not found")
		return
	}
	f := c.method(t, "HandleTimeSyncRequest")
	if f == nil {
		c.fail("answer", "HandleTimeSyncRequest", "comm", "time sync requests are not handled")
		return
	}
	req, conn := mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true, init: nonNilParams, opaque: opaqueSet("comm.sendWire", "timing.GetRawTime", "timing.GetSyncedTime")})) {
		evs := p.Events()
		at := c.at(f.Pos())
		sw := calls(evs, "comm.sendWire")
		if !c.check("answer", "HandleTimeSyncRequest", at, len(sw) == 1 && namedOf(strip(sw[0].Args[0]).Typ) == "comm.TimeSyncResponse" && sw[0].Args[1] == conn, "a request is not answered by exactly one response on its connection") {
			continue
		}
		m := strip(sw[0].Args[0])
		b, fld := fieldOf(c.fieldIn(p, m, "ClientSendTime", sw[0]))
		c.check("answer", "ClientSendTime", where(c, sw[0]), b == req && fld == "ClientSend", "the response does not repeat the client's time")
		r, _ := resOf(c.fieldIn(p, m, "ServerRecvTime", sw[0]))
		s, _ := resOf(c.fieldIn(p, m, "ServerSendTime", sw[0]))
		c.check("server stamps", "HandleTimeSyncRequest", where(c, sw[0]), r != nil && s != nil && r.Name == "timing.GetRawTime" && s.Name == "timing.GetRawTime" && r.N <= s.N && s.N < sw[0].N, "the response does not carry the raw clock at receiving and sending")
	}
	c.need("server stamps", 1)
}
