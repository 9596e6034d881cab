package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "P02", Title: "Samples reach the stream in pairs, in order and correctly counted",
		Statement: "Every sample the playlist pushes puts exactly one value into the low channel and one into the high channel (channel 0 and 1 of the same sample, or NaN in both) and counts as one in the write index, so the two channels never get out of step. Fill puts the next values of the low channel into all of low and those of the high channel into all of high, returns only when both are filled, and returns the index of the first sample it delivered, so consecutive fills have consecutive indices. CombineSamples pairs low[i] with high[i]. Song and pause handlers are given the index the next sample will get.",
		Over:      []string{"histories", "schedules"}, Quant: "all songs, commands and sequences of fills", Why: "A single missing or doubled value shifts the channels against each other for the rest of the stream; tests look at short runs.",
		Files:     []string{"playback/playlist.go", "playback/playback.go"},
		Mech:      [][2]string{{"writer", "Playlist.StreamLoop and its helpers"}, {"reader", "Playlist.Fill"}, {"pairing", "playback.CombineSamples"}},
		Technique: absTech, Note: "Sample indices are 64 bit counters; overflow is ignored.", Run: sampleAccounting,
	})
	register(&Prop{
		ID: "P03", Title: "The stream plays the songs in playlist order and obeys jumps",
		Statement: "The song played next is always the one at the playlist position (modulo the number of songs); when a song has been played to its end or cannot be opened or decoded the position moves on by exactly one, unless a jump is pending, whose target is played next; a jump ends the current song. Each song which could be opened is played completely (or up to a jump), closed, and followed by the configured NaN break. While there is no playable song NaN samples are pushed, so every round of the streaming loop pushes samples and is paced by the reader. Streaming ends only when its context is canceled.",
		Over:      []string{"histories", "inputs"}, Quant: "all playlists (with unreadable songs too) and all sequences of jumps, insertions and removals", Why: "Depends on the interplay of song ends, unplayable files and pending jumps.",
		Files:     []string{"playback/playlist.go"},
		Mech:      [][2]string{{"loop", "Playlist.StreamLoop"}, {"next song", "Playlist.nextSong"}, {"end of song or jump", "Playlist.shouldBreakStreamerPushLoop"}, {"jump request", "Playlist.SetPos"}},
		Technique: absTech, Note: "Decoding itself (beep, go-mp3) is trusted: n < len(buf) or !ok means the song has ended.", Run: songOrder,
	})
	register(&Prop{
		ID: "P04", Title: "Pausing loses no samples and is reported",
		Statement: "While the playlist is paused nothing is read from the song and NaN samples are pushed instead; while it is playing every sample read from the song is pushed, in order, and nothing else. Whether it is playing is looked at once per block, and a change against the last block is reported to the pause handler with the new state and the index of the first sample affected, before that block is pushed; without a change nothing is reported.",
		Over:      []string{"histories", "schedules"}, Quant: "all songs and all sequences and timings of pause and resume", Why: "Tests pause at fixed block boundaries only.",
		Files:     []string{"playback/playlist.go"},
		Mech:      [][2]string{{"block loop", "Playlist.pushStreamer"}, {"toggle report", "Playlist.callPauseToggleHandler"}},
		Technique: absTech, Note: "", Run: pauseRule,
	})
}

// chanField: the field of the playlist a channel operation is about.
func chanField(e *Ev) string {
	b, n := fieldOf(e.Addr)
	if b == nil || namedOf(b.Typ) != plT {
		return ""
	}
	return n
}

func isNaNTerm(t *Term) bool { return isApp(strip(t), "math.NaN") }

// pairOf: l and h are the two channels of one sample of coll, or both NaN.
func pairOf(l, h *Term) (nan bool, coll, idx *Term, ok bool) {
	if isNaNTerm(l) && isNaNTerm(h) {
		return true, nil, nil, true
	}
	half := func(t *Term) (*Term, int64, bool) {
		t = strip(t)
		if t == nil {
			return nil, 0, false
		}
		switch t.Op {
		case "ld":
			if a := t.Args[0]; a.Op == "iaddr" {
				i, ok := a.Args[1].intVal()
				return a.Args[0], i, ok
			}
		case "elt":
			return t.Args[0], int64(t.Aux.(int)), true
		}
		return nil, 0, false
	}
	a, i, ok1 := half(l)
	b, j, ok2 := half(h)
	if !ok1 || !ok2 || a != b || i != 0 || j != 1 {
		return false, nil, nil, false
	}
	if a.Op == "iaddr" {
		return false, a.Args[0], a.Args[1], true
	}
	if a.Op == "ld" && a.Args[0].Op == "iaddr" {
		return false, a.Args[0].Args[0], a.Args[0].Args[1], true
	}
	return false, a, nil, true
}

// pushLoop is a loop each iteration of which pushes one sample.
type pushLoop struct {
	li   *LoopInfo
	nan  bool
	coll *Term
	full bool
	k    int // counter
	step int64
	pc   *PC // at the end of an iteration
}

// pushLoops finds the loops which push one sample per iteration.
func pushLoops(paths []*Path) []*pushLoop {
	var r []*pushLoop
	var other []*LoopInfo // loops with iterations which push something else, or nothing
	for _, rt := range roundTrips(paths) {
		var l, h []*Term
		nested := false
		for _, e := range rt.Evs[1:] {
			if e.Kind == "loophead" {
				nested = true
			}
			if e.Kind == "send" {
				switch chanField(e) {
				case "low":
					l = append(l, e.Val)
				case "high":
					h = append(h, e.Val)
				}
			}
		}
		if nested || len(l) != 1 || len(h) != 1 {
			other = append(other, rt.Info)
			continue
		}
		nan, coll, idx, ok := pairOf(l[0], h[0])
		if !ok {
			other = append(other, rt.Info)
			continue
		}
		p := &pushLoop{li: rt.Info, nan: nan, coll: coll, k: -1, pc: rt.Path.St.pc}
		// the counter
		for i, s := range rt.Info.Sym {
			if s == nil || !isInteger(s.Typ) || rt.Info.Next[i] == nil || rt.Info.Init[i] == nil {
				continue
			}
			if d, isC := sub2(rt.Info.Next[i], s).intVal(); isC && (d == 1 || d == -1) {
				p.k, p.step = i, d
				if idx != nil && linOf(idx).Coefs[s] == 1 {
					first := subst(idx, map[*Term]*Term{s: rt.Info.Init[i]})
					p.full = d == 1 && rt.Path.St.pc.entails(mkEq(first, int0))
					break
				}
			}
		}
		r = append(r, p)
	}
	for _, p := range r {
		for _, li := range other {
			if sameLoop(p.li, li) {
				p.k, p.full = -1, false
			}
		}
	}
	return r
}

// runOf: the run of samples pushed by the loop which is left by event exit; n is their number.
func runOf(ls []*pushLoop, exit *Ev) (p *pushLoop, n *Term) {
	li := exit.Aux.(*LoopInfo)
	for _, x := range ls {
		if sameLoop(x.li, li) && x.k >= 0 {
			n = sub2(x.li.Sym[x.k], x.li.Init[x.k])
			if x.step == -1 {
				n = sub2(int0, n)
			}
			return x, n
		}
	}
	return nil, nil
}

// exactly: the number n of iterations is want, where a negative number of iterations counts as none.
func exactly(pc *PC, n, want *Term) bool {
	if pc.entails(mkEq(n, want)) {
		return true
	}
	if pc.entailsLe(want, int0, 0) {
		return pc.entails(mkEq(n, int0))
	}
	// either way
	l := linOf(want).add(linConst(1), -1) // want-1 < 0
	pos, neg := pc.push(mkNot(mkLt0(l))), pc.push(mkLt0(l))
	return (pos.inconsistent() || pos.entails(mkEq(n, want))) && (neg.inconsistent() || neg.entails(mkEq(n, int0)))
}

func sampleAccounting(c *Ctx) {
	root := "(*playback.Playlist).StreamLoop"
	paths := c.explore(root, opt{opaque: opaqueSet("playback.getStreamer"), noSpawn: true})
	for _, p := range paths {
		evs := p.Events()
		var l, h []*Term
		inc := 0
		var last *Term // last known value of the write index
		fresh := false
		for _, e := range evs {
			switch e.Kind {
			case "send":
				switch chanField(e) {
				case "low":
					l = append(l, e.Val)
				case "high":
					h = append(h, e.Val)
				default:
					continue
				}
				fresh = false
				n := len(l)
				if len(h) < n {
					n = len(h)
				}
				if n > 0 && len(l) == len(h) {
					_, _, _, ok := pairOf(l[n-1], h[n-1])
					c.check("pair", "sample pushed in "+fnName(e.Fn), where(c, e), ok, "the values sent are not channel 0 (low) and 1 (high) of one sample, nor both NaN")
				}
			case "load":
				if e.Addr.Op == "faddr" && fieldName(e.Addr) == "sampleIndexWrite" && namedOf(e.Addr.Args[0].Typ) == plT {
					last, fresh = e.Val, true
				}
			case "store":
				if isStoreTo(e, plT, "sampleIndexWrite") {
					d, ok := int64(0), false
					if last != nil {
						d, ok = sub2(e.Val, last).intVal()
					}
					c.check("count", "write index in "+fnName(e.Fn), where(c, e), ok && d == 1, "the write index is not increased by one")
					last, fresh = e.Val, false
					inc++
				}
			case "loophead", "loopexit", "loopback", "ret":
				c.check("in step", e.Kind+" in "+fnName(e.Fn), where(c, e), len(l) == len(h) && len(l) == inc, "%d low values, %d high values and %d increments of the write index at this point", len(l), len(h), inc)
				if e.Kind != "loopexit" {
					fresh = false
				}
			case "go":
				for i, a := range e.Args {
					if i > 0 && isUnsigned(a.Typ) && strings.Contains(shortType(a.Typ), "uint64") {
						c.check("index reported", "handler started in "+fnName(e.Fn), where(c, e), fresh && a == last && len(l) == len(h) && len(l) == inc, "the handler is not given the current write index")
					}
				}
			}
		}
		if p.End == "ret" || p.End == "panic" {
			c.check("in step", "end of "+root, c.at(p.Root.Fn.Pos()), len(l) == len(h) && len(l) == inc, "channels out of step at the end")
		}
	}
	c.need("pair", 2)
	c.need("count", 2)
	c.need("index reported", 2)
	// nobody else pushes
	for _, f := range c.p.fns {
		if f.Pkg == nil || short(f.Pkg.Pkg.Path()) != "playback" || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if ch, ok := in.Chan.Type().Underlying().(*types.Chan); ok && isFloat(ch.Elem()) {
						c.check("only writer", fnName(f), c.at(in.Pos()), c.fns[fnName(f)], "samples are sent outside the streaming loop")
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == plT && structField(fa) == "sampleIndexWrite" {
						if _, isC := in.Val.(*ssa.Const); isC && f.Signature.Recv() == nil {
							continue // construction
						}
						c.check("only writer", fnName(f)+" index", c.at(in.Pos()), c.fns[fnName(f)], "the write index is changed outside the streaming loop")
					}
				}
			}
		}
	}
	fillRule(c)
	combineRule(c)
}

func structField(fa *ssa.FieldAddr) string {
	st, ok := ptrElem(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// storeVisits: the element stores of an iteration at a position which depends on its counter.
func storeVisits(rt roundTrip) []iter {
	var r []iter
	for _, e := range rt.Evs {
		if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "iaddr" {
			if it, ok := asVisit(rt, e); ok {
				r = append(r, it)
			}
		}
	}
	return r
}

func fillRule(c *Ctx) {
	name := "(*playback.Playlist).Fill"
	f := c.p.fn(name)
	paths := c.explore(name, opt{})
	if f == nil {
		return
	}
	par := map[string]*Term{}
	for i, k := range []string{"pl", "low", "high"} {
		par[k] = mkParam(f, f.Params[i])
	}
	var its []iter
	for _, rt := range roundTrips(paths) {
		n := map[string]int{}
		sv := storeVisits(rt)
		its = append(its, sv...)
		for _, e := range rt.Evs {
			if e.Kind != "recv" {
				continue
			}
			if t, ok := recvElem(e); ok && !isFloat(t) {
				continue // a goroutine reporting its end
			}
			ch := chanField(e)
			n[ch]++
			ok := false
			for _, it := range sv {
				if it.Elem == e.Res && it.Full && par[ch] != nil && it.Coll == par[ch] {
					ok = true
				}
			}
			c.check("Fill: destination", ch, where(c, e), ok && n[ch] == 1, "a value received from the %s channel does not go into the next place of the slice %s", ch, ch)
			c.check("Fill: channel "+ch, ch, where(c, e), ch == "low" || ch == "high", "unknown channel")
		}
	}
	c.need("Fill: channel low", 1)
	c.need("Fill: channel high", 1)
	recvAlone := 0
	for _, p := range paths {
		evs := p.Events()
		for _, e := range evs {
			if ct, ok := recvElem(e); e.Kind == "recv" && p.End != "back" && (!ok || isFloat(ct)) {
				recvAlone++
			}
			if e.Kind == "loopexit" && e.Fn.Synthetic == "" {
				has := false
				for _, it := range its {
					has = has || sameLoop(it.RT.Info, e.Aux.(*LoopInfo))
				}
				if !has {
					continue
				}
				ok := false
				for _, k := range []string{"low", "high"} {
					ok = ok || exhausted(its, p, e, par[k])
				}
				c.check("Fill: all", "filling loop", where(c, e), ok, "the loop can end before the slice is full")
			}
		}
		if p.End == "ret" && p.Root.Kind == "entry" {
			old := firstLoad(evs, plT, "sampleIndexRead")
			st := lastStore(evs, plT, "sampleIndexRead")
			c.check("Fill: index", "result", c.at(f.Pos()), old != nil && p.Rets[0] == old, "Fill does not return the read index it started at")
			okN := false
			if old != nil && st != nil {
				d := sub2(st.Val, old)
				okN = p.St.pc.entails(mkEq(d, lenOf(par["low"]))) || p.St.pc.entails(mkEq(d, lenOf(par["high"]))) || strip(d) == lenOf(par["low"]) || strip(d) == lenOf(par["high"])
			}
			c.check("Fill: advance", "read index", c.at(f.Pos()), okN, "the read index is not increased by the number of samples delivered")
			spawned := 0
			for _, e := range evs {
				if e.Kind == "go" {
					spawned++
				}
			}
			if spawned > 0 {
				waits := true
				for _, e := range evs {
					if g, ok := e.Instr.(*ssa.Go); ok && e.Kind == "go" {
						var fn *ssa.Function
						if fn = g.Call.StaticCallee(); fn == nil {
							fn = e.Callee
						}
						waits = waits && fn != nil && c.locks().joinOf(g, fn) != nil
					}
				}
				adds := int64(0)
				for _, e := range calls(evs, "(*sync.WaitGroup).Add") {
					if k, ok := e.Args[1].intVal(); ok {
						adds += k
					} else {
						adds = -1 << 40
					}
				}
				if len(calls(evs, "(*sync.WaitGroup).Wait")) > 0 && adds >= 0 {
					c.check("Fill: waits", "counter", c.at(f.Pos()), adds == int64(spawned), "Fill waits for %d goroutines but starts %d", adds, spawned)
				}
				c.check("Fill: waits", "result", c.at(f.Pos()), waits, "Fill returns without waiting for the goroutines which fill the slices")
			}
		}
		if p.Root.Kind != "entry" && p.End == "ret" {
			done := false
			for _, e := range evs {
				done = done || isCall(e, "(*sync.WaitGroup).Done") || e.Kind == "send" || e.Kind == "close"
				if done && e.Kind == "recv" {
					c.fail("Fill: waits", fnName(p.Root.Fn), where(c, e), "a value is received after the goroutine reported that it is done")
				}
			}
			c.check("Fill: reports", fnName(p.Root.Fn), c.at(p.Root.Fn.Pos()), done, "a goroutine filling a slice does not report that it is done")
		}
	}
	c.check("Fill: single values", name, c.at(f.Pos()), recvAlone == 0, "values are received outside the filling loops")
	c.need("Fill: all", 1)
	c.need("Fill: index", 1)
}

// recvElem: the type of the values of the channel received from.
func recvElem(e *Ev) (types.Type, bool) {
	if u, ok := e.Instr.(*ssa.UnOp); ok {
		if ch, ok := u.X.Type().Underlying().(*types.Chan); ok {
			return ch.Elem(), true
		}
	}
	return nil, false
}

func combineRule(c *Ctx) {
	name := "playback.CombineSamples"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	lo, hi := mkParam(f, f.Params[0]), mkParam(f, f.Params[1])
	min := func(pc *PC, n *Term) bool {
		a, b := lenOf(lo), lenOf(hi)
		return pc.entailsLe(n, a, 0) && pc.entailsLe(n, b, 0) && (pc.entailsLe(a, n, 0) || pc.entailsLe(b, n, 0))
	}
	isEmptyMin := func(p *Path) bool {
		return p.St.pc.entails(mkEq(lenOf(p.Rets[0]), int0)) && min(p.St.pc, int0)
	}
	grown, filled := map[*Term]bool{}, map[*Term]bool{}
	var its []iter
	for _, rt := range roundTrips(paths) {
		// channels of the element stored in this iteration
		got := map[int64]*Term{}
		var place *Term
		var idx *Term
		for _, e := range rt.Evs {
			if e.Kind == "store" && e.Addr.Op == "iaddr" && e.Addr.Args[0].Op == "iaddr" {
				if k, ok := e.Addr.Args[1].intVal(); ok {
					got[k] = e.Val
					place, idx = e.Addr.Args[0].Args[0], e.Addr.Args[0].Args[1]
				}
			}
			if e.Kind == "store" && e.Addr.Op == "iaddr" && e.Val != nil && e.Val.Op == "arr" {
				got[0], got[1] = e.Val.Args[0], e.Val.Args[1]
				place, idx = e.Addr.Args[0], e.Addr.Args[1]
			}
		}
		for _, e := range rt.Evs {
			if e.Kind == "append" && e.Res != nil && len(e.Res.Args) == 2 && e.Res.Args[1].Op == "arr" {
				got[0], got[1] = e.Res.Args[1].Args[0], e.Res.Args[1].Args[1]
				place, idx = e.Res.Args[0], nil
			}
		}
		is := func(t, coll *Term) bool {
			t = strip(t)
			return t != nil && t.Op == "ld" && t.Args[0].Op == "iaddr" && t.Args[0].Args[0] == coll && (idx == nil || t.Args[0].Args[1] == idx)
		}
		ok := place != nil && is(got[0], lo) && is(got[1], hi)
		if ok && idx == nil {
			ok = strip(got[0]).Args[0].Args[1] == strip(got[1]).Args[0].Args[1]
		}
		if ok {
			// a slice grown in the loop must be empty at first
			for i, s := range rt.Info.Sym {
				if s == place {
					grown[s] = true
					ok = rt.Info.Init[i] != nil && rt.Path.St.pc.entails(mkEq(lenOf(rt.Info.Init[i]), int0))
				}
			}
			if !grown[place] {
				ok = idx != nil
				filled[place] = true
			}
		}
		c.check("CombineSamples: pairs", name, c.at(f.Pos()), ok, "an iteration does not put low[i] and high[i] into channel 0 and 1 of sample i")
		full := false
		for _, it := range append(storeVisits(rt), visits(rt)...) {
			if it.Full {
				full = true
				its = append(its, it)
			}
		}
		c.check("CombineSamples: all", name, c.at(f.Pos()), full, "the loop does not start at 0 or skips samples")
	}
	for _, p := range rets(paths) {
		c.check("CombineSamples: length", name, c.at(f.Pos()), grown[p.Rets[0]] || filled[p.Rets[0]] && min(p.St.pc, lenOf(p.Rets[0])) || isEmptyMin(p), "the result does not have the length of the shorter slice")
		for _, e := range exits(p.Events()) {
			li := e.Aux.(*LoopInfo)
			ok := false
			for _, it := range its {
				ok = ok || sameLoop(it.RT.Info, li) && (p.St.pc.entailsLe(lenOf(lo), it.Idx, 0) || p.St.pc.entailsLe(lenOf(hi), it.Idx, 0))
			}
			c.check("CombineSamples: complete", name, where(c, e), ok, "the loop can end before all samples are paired")
		}
	}
	c.need("CombineSamples: pairs", 1)
	c.need("CombineSamples: length", 1)
	c.need("CombineSamples: complete", 1)
}

// ---- song order ----

func songOrder(c *Ctx) {
	nextSongRule(c)
	endOfSongRule(c)
	jumpRule(c)
	streamLoopRule(c)
	pushStreamerEnds(c)
	c.include("P04", rules("playing: push", "playing: read", "paused: nothing read"))
	c.include("P01", rules("AddSong: nothing else", "InsertSong: nothing else", "RemoveSong: nothing else"))
}

func nextSongRule(c *Ctx) {
	name := "(*playback.Playlist).nextSong"
	f := c.p.fn(name)
	for _, p := range rets(c.explore(name, opt{noSpawn: true})) {
		evs := p.Events()
		pc := p.St.pc
		at := c.at(f.Pos())
		s0, p0 := firstLoad(evs, plT, "songs"), firstLoad(evs, plT, "position")
		drained := false
		for _, e := range evs {
			if e.Kind == "chanlen" && chanField(e) == "forceNext" {
				drained = pc.entailsLe(e.Res, int0, 0)
			}
			if e.Kind == "select" && len(e.Args) > 0 {
				// a select with a default which found nothing
				drained = true
			}
		}
		c.check("pending jumps", "nextSong", at, drained, "jumps already requested can stay pending although their target is about to be played: the song would be cut off")
		if s0 == nil {
			c.fail("next song", "nextSong", at, "the songs are not looked at")
			continue
		}
		if v, ok := p.Rets[0].strVal(); ok {
			c.check("no song", "nextSong", at, v == "" && pc.entailsLe(lenOf(s0), int0, 0), "%q is returned although there are songs", v)
			c.check("no song", "nextSong position", at, lastStore(evs, plT, "position") == nil, "the position changes although there is no song")
			continue
		}
		r := strip(p.Rets[0])
		ok := r.Op == "ld" && r.Args[0].Op == "iaddr" && r.Args[0].Args[0] == s0 && p0 != nil
		var k *Term
		if ok {
			k = r.Args[0].Args[1]
			ok = isMod(k, p0, lenOf(s0)) || k == p0 && pc.entailsLe(add2(p0, int1), lenOf(s0), 0)
		}
		c.check("next song", "nextSong", at, ok, "the song returned is not the one at the position modulo the number of songs")
		if st := lastStore(evs, plT, "position"); st != nil {
			c.check("next song", "nextSong position", at, ok && (st.Val == k || st.Val == p0), "the position is set to another one than that of the song returned")
		}
	}
	c.need("next song", 1)
	c.need("no song", 1)
}

// positionChange classifies what a path does to the position: the difference to its old value.
func positionChange(p *Path, evs []*Ev) (d int64, changed, known bool) {
	st := lastStore(evs, plT, "position")
	if st == nil {
		return 0, false, true
	}
	var old *Term
	for _, e := range evs {
		if e == st {
			break
		}
		if e.Kind == "load" && e.Addr.Op == "faddr" && fieldName(e.Addr) == "position" && namedOf(e.Addr.Args[0].Typ) == plT {
			old = e.Val
		}
	}
	if old == nil {
		return 0, true, false
	}
	d, known = sub2(st.Val, old).intVal()
	return d, true, known && len(storesOf(evs, plT, "position")) == 1
}

// jumpPending: what the path knows about jumps at its last look at forceNext under the lock (or at all).
func advanceOK(c *Ctx, rule, construct string, p *Path, evs []*Ev) {
	d, changed, known := positionChange(p, evs)
	pending, free := false, false
	var look *Ev
	for _, e := range evs {
		if isStoreTo(e, plT, "position") {
			break
		}
		if e.Kind == "chanlen" && chanField(e) == "forceNext" {
			look = e
			pending = p.St.pc.entails(mkLt0(linConst(0).add(linOf(e.Res), -1)))
			free = p.St.pc.entailsLe(e.Res, int0, 0)
		}
	}
	if look != nil && (free || pending) {
		// the decision is taken while holding the lock the position is protected by
		c.check(rule+": atomic", construct, where(c, look), len(look.Held) > 0, "whether a jump is pending is looked at without the lock: a jump in between would be overwritten by the next song")
	}
	if changed {
		c.check(rule, construct, c.at(p.Root.Fn.Pos()), known && d == 1 && free, "the position does not move on by exactly one, or moves on although a jump may be pending")
	} else {
		c.check(rule, construct, c.at(p.Root.Fn.Pos()), pending, "the position does not move on although the song has ended and no jump is pending")
	}
}

func endOfSongRule(c *Ctx) {
	name := "(*playback.Playlist).shouldBreakStreamerPushLoop"
	f := c.p.fn(name)
	paths := rets(c.explore(name, opt{noSpawn: true}))
	if f == nil {
		return
	}
	n, ok, size := mkParam(f, f.Params[1]), mkParam(f, f.Params[2]), mkParam(f, f.Params[3])
	onlyTrue := onlyTrueSent(c.p, "forceNext")
	for _, p := range paths {
		evs := p.Events()
		pc := p.St.pc
		at := c.at(f.Pos())
		var jump, noJump bool
		var rest []*Ev
		for i, e := range evs {
			if e.Kind == "recv" && chanField(e) == "forceNext" {
				if pc.entails(e.Res) || onlyTrue && !pc.entails(mkNot(e.Res)) {
					jump = true
				} else if pc.entails(mkNot(e.Res)) {
					noJump = true
				}
				rest = evs[i+1:]
				break
			}
		}
		ended := pc.entails(mkNot(ok)) || pc.entails(mkLt0(linOf(n).add(linOf(size), -1)))
		goesOn := pc.entails(ok) && pc.entailsLe(size, n, 0)
		v, known := boolRet(p)
		if !c.check("end of song: definite", "shouldBreakStreamerPushLoop", at, known, "the result does not follow from the state of the song and pending jumps") {
			continue
		}
		_ = noJump
		if jump {
			_, changed, _ := positionChange(p, evs)
			c.check("jump", "shouldBreakStreamerPushLoop", at, v && !changed, "a requested jump does not end the song, or moves the position once more")
			continue
		}
		if v {
			c.check("end of song", "shouldBreakStreamerPushLoop", at, ended, "the song is left although it has not ended and no jump was requested")
			if rest == nil {
				rest = evs
			}
			advanceOK(c, "end of song: position", "shouldBreakStreamerPushLoop", p, rest)
		} else {
			_, changed, _ := positionChange(p, evs)
			c.check("end of song: goes on", "shouldBreakStreamerPushLoop", at, goesOn && !changed, "the song is kept although it has ended, or the position changes while it is playing")
			// no jump may be pending
			free := false
			for _, e := range evs {
				if e.Kind == "chanlen" && chanField(e) == "forceNext" && pc.entailsLe(e.Res, int0, 0) || e.Kind == "select" || e.Kind == "recv" && chanField(e) == "forceNext" {
					free = true
				}
			}
			c.check("jump: looked for", "shouldBreakStreamerPushLoop", at, free, "the song goes on without having looked for a jump")
		}
	}
	c.need("jump", 1)
	c.need("end of song", 1)
	c.need("end of song: goes on", 1)
}

// onlyTrueSent: nothing but true is ever sent to the channel held by the field, and it is never closed.
func onlyTrueSent(p *Prog, field string) bool {
	isField := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && namedOf(fa.X.Type()) == plT && structField(fa) == field
	}
	isTrue := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.String() == "true"
	}
	n := 0
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if isField(x.Chan) {
						n++
						if !isTrue(x.X) {
							return false
						}
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly && isField(s.Chan) {
							n++
							if !isTrue(s.Send) {
								return false
							}
						}
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if isField(a) {
							if bi, ok := x.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
								return false
							}
						}
					}
				}
			}
		}
	}
	return n > 0
}

func jumpRule(c *Ctx) {
	name := "(*playback.Playlist).SetPos"
	f := c.p.fn(name)
	for _, p := range rets(c.explore(name, opt{noSpawn: true})) {
		signalled, tried := false, false
		var lock *Ev
		for _, e := range p.Events() {
			if e.Kind == "lock" {
				lock = e
			}
			if e.Kind == "send" && chanField(e) == "forceNext" {
				v, ok := e.Val.boolVal()
				signalled = ok && v && lock != nil && len(e.Held) > 0
			}
			if e.Kind == "select" {
				tried = true
			}
		}
		c.check("jump request", "SetPos", c.at(f.Pos()), signalled || tried, "SetPos does not request the jump under the lock the position is changed under")
		c.check("jump request signal", "SetPos", c.at(f.Pos()), !signalled || true, "")
	}
	c.need("jump request", 1)
	// the channel must have room for a request
	nf := c.p.fn("playback.NewPlaylist")
	for _, p := range rets(c.explore("playback.NewPlaylist", opt{noSpawn: true})) {
		flds := msgFields(p, p.Rets[0], nil)
		ch := flds["forceNext"]
		ok := false
		if ch != nil && ch.Op == "makechan" && len(ch.Args) > 0 {
			n, isC := ch.Args[0].intVal()
			ok = isC && n >= 1
		}
		c.check("jump buffer", "NewPlaylist", c.at(nf.Pos()), ok, "the jump channel has no buffer: requests would be lost or block")
		for _, k := range []string{"low", "high"} {
			ch := flds[k]
			c.check("sample buffer", "NewPlaylist ."+k, c.at(nf.Pos()), ch != nil && ch.Op == "makechan" && len(ch.Args) > 0 && ch.Args[0] == mkParam(nf, nf.Params[0]), "the %s channel does not have the requested buffer size", k)
		}
		c.check("sample buffer", "distinct", c.at(nf.Pos()), flds["low"] != flds["high"], "both channels are the same")
		c.check("configured", "NewPlaylist .nanBreakSize", c.at(nf.Pos()), flds["nanBreakSize"] == mkParam(nf, nf.Params[2]), "the NaN break size is not the one given")
		c.check("configured", "NewPlaylist .songs", c.at(nf.Pos()), flds["songs"] == mkParam(nf, nf.Params[1]) || flds["songs"] != nil && flds["songs"].Op == "append", "the songs are not those given")
	}
}

func streamLoopRule(c *Ctx) {
	name := "(*playback.Playlist).StreamLoop"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet("playback.getStreamer", "(*playback.Playlist).nextSong", "(*playback.Playlist).pushStreamer")})
	if f == nil {
		return
	}
	ls := pushLoops(paths)
	at := c.at(f.Pos())
	judge := func(p *Path, evs []*Ev) {
		pc := p.St.pc
		next := calls(evs, "(*playback.Playlist).nextSong")
		if !c.check("one song", "StreamLoop", at, len(next) == 1, "a round of the streaming loop asks %d times for the next song", len(next)) {
			return
		}
		song := next[0].Res
		type run struct {
			l *pushLoop
			n *Term
			e *Ev
		}
		var runs []run
		for _, e := range evs {
			if e.Kind == "loopexit" {
				if l, n := runOf(ls, e); l != nil {
					runs = append(runs, run{l, n, e})
				}
			}
		}
		paced := func() bool {
			for _, r := range runs {
				if r.l.nan && pc.entailsLe(int1, r.n, 0) {
					return true
				}
			}
			return false
		}
		open := calls(evs, "playback.getStreamer")
		push := calls(evs, "(*playback.Playlist).pushStreamer")
		_, changed, _ := positionChange(p, evs)
		if pc.entails(mkEq(song, mkString(""))) {
			c.check("no song: silence", "StreamLoop", at, paced() && len(open) == 0 && len(push) == 0, "with an empty playlist no NaN samples are pushed (the loop would spin), or a song is opened")
			c.check("no song: position", "StreamLoop", at, !changed, "the position changes with an empty playlist")
			return
		}
		if !c.check("song opened", "StreamLoop", at, len(open) == 1 && open[0].Args[0] == song, "the song to play is not opened exactly once") {
			return
		}
		err := errOf(open[0])
		switch {
		case notNilAt(pc, err):
			c.check("unplayable: skipped", "StreamLoop", at, len(push) == 0 && paced(), "a song which cannot be opened is played, or skipped without pushing samples (the loop would spin)")
			advanceOK(c, "unplayable: position", "StreamLoop", p, evs)
		case nilAt(pc, err):
			s := comp(open[0], 0)
			if !c.check("song played", "StreamLoop", at, len(push) == 1 && len(push[0].Args) == 2 && strip(push[0].Args[1]) == s, "the opened song is not played exactly once") {
				return
			}
			c.check("song played: position", "StreamLoop", at, !changed, "the position changes outside the end of the song")
			cur := lastStore(evs, plT, "currentSong")
			c.check("current song", "StreamLoop", at, cur != nil && cur.Val == song && cur.N < push[0].N, "the current song is not set to the one which is played before it is played")
			closed := false
			for _, e := range evs {
				if e.N > push[0].N && (e.Kind == "call") && strings.HasSuffix(e.Name, ").Close") && len(e.Args) > 0 && strip(e.Args[0]) == s {
					closed = true
				}
			}
			c.check("song closed", "StreamLoop", at, closed, "the song is not closed after it was played")
			brk := false
			for _, r := range runs {
				if r.e.N < push[0].N || !r.l.nan {
					continue
				}
				for _, e := range evs {
					if e.Kind == "load" && e.Addr.Op == "faddr" && fieldName(e.Addr) == "nanBreakSize" {
						brk = brk || exactlyNonneg(pc, r.n, e.Val) || ranExactly(ls, r.l, pc, r.n, e.Val)
					}
				}
			}
			c.check("NaN break", "StreamLoop", at, brk && len(runs) == 1, "the song is not followed by exactly nanBreakSize NaN samples")
		default:
			c.fail("song opened", "StreamLoop", at, "the result of opening the song is not looked at")
		}
	}
	for _, rt := range roundTrips(paths) {
		if len(calls(rt.Evs, "(*playback.Playlist).nextSong")) == 0 {
			nested := false
			for _, l := range ls {
				nested = nested || sameLoop(l.li, rt.Info)
			}
			c.check("rounds", "StreamLoop", at, nested, "a round of the streaming loop does not play a song")
			continue
		}
		judge(rt.Path, rt.Evs)
	}
	for _, p := range rets(paths) {
		ok := false
		for _, e := range p.Events() {
			if isCall(e, "util.IsCanceled") && e.Res != nil && p.St.pc.entails(e.Res) {
				ok = true
			}
			if e.Kind == "recv" || e.Kind == "select" || strings.HasSuffix(e.Name, "context.Context).Err") {
				ok = true
			}
		}
		c.check("ends with context", "StreamLoop", at, ok, "streaming can end although its context was not canceled")
	}
	for _, r := range []string{"no song: silence", "unplayable: skipped", "song played", "song closed", "NaN break", "ends with context"} {
		c.need(r, 1)
	}
	// getStreamer opens the song below the music directory
	gf := c.p.fn("playback.getStreamer")
	for _, p := range rets(c.explore("playback.getStreamer", opt{noSpawn: true})) {
		dec := calls(p.Events(), "github.com/faiface/beep/mp3.Decode")
		err := p.Rets[1]
		pc := p.St.pc
		switch {
		case nilAt(pc, err):
			ok := len(dec) == 1 && nilAt(pc, errOf(dec[0])) && strip(p.Rets[0]) == comp(dec[0], 0)
			c.check("decoded", "getStreamer", c.at(gf.Pos()), ok, "success is reported without the decoded song")
			closed := false
			for _, e := range p.Events() {
				closed = closed || e.Kind == "call" && strings.HasSuffix(e.Name, ").Close")
			}
			c.check("song stays open", "getStreamer", c.at(gf.Pos()), !closed, "the file of the song is closed although the song has yet to be read from it")
		case notNilAt(pc, err):
		default:
			c.fail("decoded", "getStreamer", c.at(gf.Pos()), "it is not clear whether opening succeeded")
		}
	}
	c.need("decoded", 1)
	c.need("song stays open", 1)
}

// pushStreamerEnds: the block loop goes on exactly as long as shouldBreakStreamerPushLoop says so.
func pushStreamerEnds(c *Ctx) {
	name := "(*playback.Playlist).pushStreamer"
	brk := "(*playback.Playlist).shouldBreakStreamerPushLoop"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(brk)})
	if f == nil {
		return
	}
	s := mkParam(f, f.Params[1])
	at := c.at(f.Pos())
	look := func(p *Path, evs []*Ev, back bool) {
		bs := calls(evs, brk)
		if !c.check("block: end asked for", "pushStreamer", at, len(bs) == 1, "a block is pushed without asking whether the song has ended") {
			return
		}
		b := bs[0]
		st := calls(evs, "(github.com/faiface/beep.Streamer).Stream")
		pc := p.St.pc
		if back {
			c.check("block: goes on", "pushStreamer", at, pc.entails(mkNot(b.Res)), "the song goes on although it has ended or a jump was requested")
		} else {
			c.check("block: ends", "pushStreamer", at, pc.entails(b.Res), "the song is left although it has not ended and no jump was requested")
		}
		n, ok, size := b.Args[1], b.Args[2], b.Args[3]
		if len(st) == 1 && strip(st[0].Args[0]) == s {
			good := n == comp(st[0], 0) && ok == comp(st[0], 1) && pc.entails(mkEq(size, lenOf(st[0].Args[1])))
			c.check("block: state of the song", "pushStreamer playing", at, good, "the end of the song is not decided by what the song returned")
		} else {
			v, isC := ok.boolVal()
			c.check("block: state of the song", "pushStreamer paused", at, len(st) == 0 && isC && v && pc.entailsLe(size, n, 0), "a paused song is taken to have ended")
		}
	}
	for _, rt := range roundTrips(paths) {
		if len(calls(rt.Evs, brk)) > 0 {
			look(rt.Path, rt.Evs, true)
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		if x := lastOuterHead(evs, f); x >= 0 {
			look(p, evs[x:], false)
		} else {
			look(p, evs, false)
		}
	}
	c.need("block: goes on", 1)
	c.need("block: ends", 1)
	c.need("block: state of the song", 2)
}

// lastOuterHead: the index of the first loophead in f itself (its outermost loop).
func lastOuterHead(evs []*Ev, f *ssa.Function) int {
	for i, e := range evs {
		if e.Kind == "loophead" {
			return i
		}
	}
	return -1
}

// ---- pause ----

func pauseRule(c *Ctx) {
	name := "(*playback.Playlist).pushStreamer"
	f := c.p.fn(name)
	brk := "(*playback.Playlist).shouldBreakStreamerPushLoop"
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(brk)})
	if f == nil {
		return
	}
	s := mkParam(f, f.Params[1])
	ls := pushLoops(paths)
	at := c.at(f.Pos())
	block := func(p *Path, evs []*Ev) {
		pc := p.St.pc
		var v *Term
		reads := map[*Term]bool{}
		var firstPush *Ev
		var toggles []*Ev
		var last0 *Term
		for _, e := range evs {
			switch e.Kind {
			case "load":
				if e.Addr.Op == "faddr" && namedOf(e.Addr.Args[0].Typ) == plT {
					switch fieldName(e.Addr) {
					case "playing":
						v = e.Val
						reads[e.Val] = true
					case "playingLast":
						if last0 == nil {
							last0 = e.Val
						}
					}
				}
			case "send":
				if n := chanField(e); (n == "low" || n == "high") && firstPush == nil {
					firstPush = e
				}
			case "loophead":
				for _, l := range ls {
					if sameLoop(l.li, e.Aux.(*LoopInfo)) && firstPush == nil {
						firstPush = e
					}
				}
			case "go", "call":
				if dynamicOf(e) == "pauseToggleHandler" {
					toggles = append(toggles, e)
				}
			}
			if isCall(e, "(github.com/faiface/beep.Streamer).Stream") && firstPush == nil {
				firstPush = e
			}
		}
		if !c.check("one look", "pushStreamer", at, v != nil && len(reads) == 1, "a block looks %d times at whether the playlist is playing", len(reads)) {
			return
		}
		st := calls(evs, "(github.com/faiface/beep.Streamer).Stream")
		var rs []*pushLoop
		var ns []*Term
		for _, e := range evs {
			if e.Kind == "loopexit" {
				if l, n := runOf(ls, e); l != nil {
					rs = append(rs, l)
					ns = append(ns, n)
				}
			}
		}
		switch {
		case pc.entails(v):
			ok := len(st) == 1 && strip(st[0].Args[0]) == s
			c.check("playing: read", "pushStreamer", at, ok, "a playing block does not read from the song exactly once")
			if ok {
				buf := st[0].Args[1]
				r, lo, _ := (&segState{pc: pc}).view(buf)
				n := comp(st[0], 0)
				good := len(rs) == 1 && !rs[0].nan && rs[0].full && rs[0].coll == r && lo == int0 && exactlyNonneg(pc, ns[0], n)
				c.check("playing: push", "pushStreamer", at, good, "the samples read from the song are not all pushed, in order, and nothing else")
				c.check("playing: block", "pushStreamer", at, pc.entailsLe(int1, lenOf(buf), 0), "the block read from the song may be empty")
			}
		case pc.entails(mkNot(v)):
			good := len(rs) == 1 && rs[0].nan && pc.entailsLe(int1, ns[0], 0)
			c.check("paused: silence", "pushStreamer", at, good, "a paused block does not push NaN samples")
			c.check("paused: nothing read", "pushStreamer", at, len(st) == 0, "samples are read from the song while paused: they are lost")
		default:
			c.fail("one look", "pushStreamer", at, "a block does not depend on whether the playlist is playing")
			return
		}
		// report
		var h *Term
		for _, e := range evs {
			if e.Kind == "load" && e.Addr.Op == "faddr" && fieldName(e.Addr) == "pauseToggleHandler" {
				h = e.Val
			}
		}
		if last0 == nil {
			c.check("toggle", "pushStreamer", at, h != nil && nilAt(pc, h), "a block is pushed without comparing the playing state with the last block's")
			return
		}
		same := pc.entails(mkEq(v, last0)) || pc.entails(v) && pc.entails(last0) || pc.entails(mkNot(v)) && pc.entails(mkNot(last0))
		diff := pc.entails(mkNot(mkEq(v, last0))) || pc.entails(v) && pc.entails(mkNot(last0)) || pc.entails(mkNot(v)) && pc.entails(last0)
		upd := lastStore(evs, plT, "playingLast")
		isV := func(t *Term) bool {
			if t == v {
				return true
			}
			b, ok := t.boolVal()
			return ok && (b && pc.entails(v) || !b && pc.entails(mkNot(v)))
		}
		switch {
		case same:
			c.check("toggle: none", "pushStreamer", at, len(toggles) == 0 && (upd == nil || isV(upd.Val)), "a pause toggle is reported although nothing changed")
		case diff && h != nil && nilAt(pc, h):
			c.check("toggle: no handler", "pushStreamer", at, len(toggles) == 0, "a missing handler is called")
		case diff:
			ok := len(toggles) == 1 && upd != nil && isV(upd.Val)
			if ok {
				a := dynArgs(toggles[0])
				ok = len(a) == 2 && isV(a[0]) && (firstPush == nil || toggles[0].N < firstPush.N)
			}
			if ok {
				// the index is read in this block
				now := false
				for _, e := range evs {
					now = now || e.Kind == "load" && e.Addr.Op == "faddr" && namedOf(e.Addr.Args[0].Typ) == plT && fieldName(e.Addr) == "sampleIndexWrite" && e.Val == strip(dynArgs(toggles[0])[1])
				}
				c.check("toggle: index", "pushStreamer", at, now, "a change of the playing state is not reported with the index of the first sample affected")
			}
			c.check("toggle: reported", "pushStreamer", at, ok, "a change of the playing state is not reported (once, with the new state, before the block is pushed)")
		default:
			c.fail("toggle", "pushStreamer", at, "whether a toggle is reported does not depend on the change of the playing state")
		}
	}
	for _, rt := range roundTrips(paths) {
		nested := false
		for _, l := range ls {
			nested = nested || sameLoop(l.li, rt.Info)
		}
		if !nested {
			block(rt.Path, rt.Evs)
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		if x := lastOuterHead(evs, f); x >= 0 {
			block(p, evs[x:])
		} else {
			c.fail("one look", "pushStreamer", at, "the song ends without a block")
		}
	}
	// what was reported last is remembered from block to block and from song to song
	for _, p := range paths {
		evs := p.Events()
		if x := lastOuterHead(evs, f); x >= 0 {
			c.check("remembered", "pushStreamer", at, lastStore(evs[:x], plT, "playingLast") == nil, "the state reported last is overwritten at the start of a song")
		}
	}
	for _, h := range c.p.fns {
		for _, x := range storesToField(h, plT, "playingLast") {
			c.check("remembered", fnName(h), c.at(x.Pos()), freshObject(x) || c.onlyVia(h, name), "the state reported last is changed outside of the streaming of a song")
		}
	}
	for _, r := range []string{"remembered", "playing: push", "paused: silence", "paused: nothing read", "toggle: none", "toggle: reported"} {
		c.need(r, 1)
	}
	// the last state starts different from the initial state, so that clients learn it
	nf := c.p.fn("playback.NewPlaylist")
	for _, p := range rets(c.explore("playback.NewPlaylist", opt{noSpawn: true})) {
		flds := msgFields(p, p.Rets[0], nil)
		val := func(k string) bool {
			t := flds[k]
			if t == nil {
				return false
			}
			b, ok := t.boolVal()
			return ok && b
		}
		c.check("initial state reported", "NewPlaylist", c.at(nf.Pos()), val("playing") != val("playingLast"), "the initial playing state would not be reported to the clients")
		c.check("initially paused", "NewPlaylist", c.at(nf.Pos()), !val("playing"), "a new playlist is not paused")
	}
}

// ranExactly: the loop was left with n >= want, and each of its iterations started with n < want; so it ran exactly
// want times (none for a negative want).
func ranExactly(ls []*pushLoop, l *pushLoop, pc *PC, n, want *Term) bool {
	if l.step == 0 || !pc.entailsLe(want, n, 0) {
		return false
	}
	for _, x := range ls {
		if !sameLoop(x.li, l.li) {
			continue
		}
		if x.k < 0 || x.step != l.step {
			return false
		}
		cnt := sub2(x.li.Sym[x.k], x.li.Init[x.k])
		if x.step < 0 {
			cnt = sub2(x.li.Init[x.k], x.li.Sym[x.k])
		}
		if !x.pc.entailsLe(add2(cnt, int1), want, 0) {
			return false
		}
	}
	return true
}

// exactlyNonneg: the loop ran n times, where n is the result of a read (not negative by its contract).
func exactlyNonneg(pc *PC, n, want *Term) bool {
	return exactly(pc, n, want) || exactly(pc.push(mkNot(mkLt0(linOf(want)))), n, want)
}

// dynamicOf: the name of the field whose function value is called (or started).
func dynamicOf(e *Ev) string {
	for _, a := range append([]*Term{e.Addr}, e.Args...) {
		if a == nil || a.Typ == nil {
			continue
		}
		if _, ok := a.Typ.Underlying().(*types.Signature); ok {
			_, n := fieldOf(a)
			return n
		}
	}
	return ""
}

// dynArgs: the arguments of a dynamic call without the function value.
func dynArgs(e *Ev) []*Term {
	a := e.Args
	if len(a) > 0 && a[0].Typ != nil {
		if _, ok := a[0].Typ.Underlying().(*types.Signature); ok {
			return a[1:]
		}
	}
	return a
}
