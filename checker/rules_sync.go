package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "P06", Title: "Playback starts every run of samples on its timestamp and plays the run without gaps",
		Statement: "While synchronising, the player plays silence up to the time of the first queued sample and not beyond it: the whole block if that sample is due after the block, the samples up to its time otherwise. Queued samples are discarded only if they are break markers (NaN) or their time has passed; playback proper starts only when the first queued sample is due now. While playing, queued samples are put into the block one by one in queue order, none is lost or repeated, until the block is full or a break marker is met, which is not played and makes the player synchronise again. A block is filled completely, with the clock advanced by the duration of what was put into it.",
		Over:      []string{"histories", "inputs"}, Quant: "all queue contents and timestamps, block lengths, and clock values", Why: "Tests do not cover the synchronisation code at all; its branches depend on clock, timestamps and queue contents.",
		Files:     []string{"playback/streamer.go"},
		Mech:      [][2]string{{"block", "timedMultiStreamer.Stream"}, {"synchronise", "timedMultiStreamer.streamSync"}, {"play", "timedMultiStreamer.streamDirect"}},
		Technique: absTech + "; the front of the queue is tracked through loops by an inductive freshness argument (the value used comes from the last Peek, with no removal since)",
		Note:      "beep.Silence fills the block it is given with zeros; SampleRate.D and N convert between counts and durations (both from the beep package).",
		Run:       syncStart,
	})
	register(&Prop{
		ID: "P07", Title: "Received chunks are queued once, in order, with the right time for every sample",
		Statement: "QueueChunk appends the chunk with exactly the given start time and samples to the chunks waiting (or drops it as a whole before the player is initialised). Waiting chunks are taken one by one from the front, each exactly once, and every sample of a chunk is queued for playback, in order, with the time of the chunk plus the duration of the samples before it. CombineSamples pairs the i-th low and high value for all i up to the shorter length.",
		Over:      []string{"histories", "inputs"}, Quant: "all sequences of chunks, all chunk lengths and start times", Why: "Tests queue a few chunks of fixed size.",
		Files:     []string{"playback/playback.go", "playback/streamer.go"},
		Mech:      [][2]string{{"queue", "QueueChunk, newQueuedStream"}, {"dequeue", "timedMultiStreamer.ReadChunks, nextChunk"}, {"samples", "samplesDuration"}},
		Technique: segTech, Run: chunkFIFO,
	})
	register(&Prop{
		ID: "P08", Title: "The sample queue is a bounded FIFO",
		Statement: "Add waits while the queue is full, then stores exactly the given sample and time behind all others; Remove waits while it is empty, then removes and returns the first; Peek returns the first without removing it. Full is exactly when Len equals the size given to newTimedSampleQueue, empty when Len is 0, so that no sample is overwritten before it was removed, and none is returned twice. Every change wakes the waiters.",
		Over:      []string{"histories", "schedules"}, Quant: "all histories of Add, Remove and Peek, all sizes", Why: "Tests run a few sequences for a few sizes.",
		Files:     []string{"playback/timed_sample_queue.go"},
		Mech:      [][2]string{{"operations", "timedSampleQueue.Add, Remove, Peek"}, {"positions", "inc, full, empty, Len"}},
		Technique: absTech + "; positions are compared symbolically modulo twice the buffer length",
		Note:      "That head and tail stay within [0, 2*size) follows by induction from the checked facts: they start at 0, and are only changed to (x+1) mod (2*size). Mutual exclusion is P08's premise, decided by L01-L03.",
		Run:       queueFIFO,
	})
}

const (
	tmsT  = "playback.timedMultiStreamer"
	tsqT  = "playback.timedSampleQueue"
	qPeek = "(*playback.timedSampleQueue).Peek"
	qRem  = "(*playback.timedSampleQueue).Remove"
	qAdd  = "(*playback.timedSampleQueue).Add"
)

// rateD, rateN: the duration of n samples, the number of samples in a duration.
func rateApp(t *Term, f string) (arg *Term, ok bool) {
	t = strip(t)
	if t.Op == "app" && t.Aux == "(github.com/faiface/beep.SampleRate)."+f && len(t.Args) == 2 {
		return t.Args[1], true
	}
	return nil, false
}

// fronts tracks the front of the queue: a value is fresh if it was returned by the last Peek and nothing was removed
// since, on every way it can come from.
type fronts struct {
	rts []roundTrip
}

// last queue operation before event number n in evs.
func lastOp(evs []*Ev, n int) (int, *Ev) {
	for i := n - 1; i >= 0; i-- {
		if isCall(evs[i], qPeek, qRem) {
			return i, evs[i]
		}
	}
	return -1, nil
}

// fresh: x, used at position n of evs, is component k (0: the sample or its channel 0 or 1; 1: the time) of the front.
func (f *fronts) fresh(evs []*Ev, n int, x *Term, k int, seen map[*Term]bool) bool {
	x = strip(x)
	op, e := lastOp(evs, n)
	if e != nil && e.Name == qPeek && isPart(x, comp(e, k), k) && !f.touched(evs[op:n]) {
		return true
	}
	// carried by the last loop entered before n
	h := -1
	for i := n - 1; i > op; i-- {
		if evs[i].Kind == "loophead" {
			if init, _ := evs[i].Aux.(*LoopInfo).flow(root(x)); init != nil {
				h = i
				break
			}
			if f.touched(evs[i : i+1]) {
				return false
			}
		}
	}
	if h < 0 || seen[x] {
		return seen[x] && h >= 0
	}
	seen[x] = true
	li := evs[h].Aux.(*LoopInfo)
	init, _ := li.flow(root(x))
	if !f.fresh(evs, h, init, k, seen) {
		return false
	}
	found := false
	for _, rt := range f.rts {
		if !sameLoop(rt.Info, li) {
			continue
		}
		found = true
		_, next := rt.Info.flow(root(x))
		if next == nil {
			return false
		}
		if next == root(x) {
			// unchanged: then the queue must be, too
			if i, _ := lastOp(rt.Evs, len(rt.Evs)); i >= 0 {
				return false
			}
			continue
		}
		if !f.fresh(rt.Evs, len(rt.Evs), next, k, seen) {
			return false
		}
	}
	return found
}

// touched: a loop entered in evs (and possibly left again) takes something from the queue or looks at it again.
func (f *fronts) touched(evs []*Ev) bool {
	for _, e := range evs {
		if e.Kind != "loophead" {
			continue
		}
		for _, rt := range f.rts {
			if sameLoop(rt.Info, e.Aux.(*LoopInfo)) && len(calls(rt.Evs, qRem)) > 0 {
				return true
			}
		}
	}
	return false
}

// root: the loop-carried value itself, or the array it is an element of.
func root(x *Term) *Term {
	if x.Op == "index" || x.Op == "elt" {
		return x.Args[0]
	}
	return x
}

// isPart: x is whole or, for samples, one of its channels.
func isPart(x, whole *Term, k int) bool {
	if whole == nil {
		return false
	}
	if x == whole {
		return true
	}
	if k == 0 {
		return (x.Op == "elt" || x.Op == "index") && x.Args[0] == whole || sameArray(x, whole)
	}
	return false
}

// frontTimes: the terms which are the time of the front at position n.
func (f *fronts) times(evs []*Ev, n int) []*Term {
	var r []*Term
	if i, e := lastOp(evs, n); e != nil && e.Name == qPeek && !f.touched(evs[i:n]) {
		r = append(r, comp(e, 1))
	}
	for i := 0; i < n; i++ {
		if evs[i].Kind == "loophead" {
			li := evs[i].Aux.(*LoopInfo)
			for _, s := range li.Sym {
				if s != nil && isInteger(s.Typ) && f.fresh(evs, n, s, 1, map[*Term]bool{}) {
					r = append(r, s)
				}
			}
			for _, s := range li.Mod {
				if isInteger(s.Typ) && f.fresh(evs, n, s, 1, map[*Term]bool{}) {
					r = append(r, s)
				}
			}
		}
	}
	return r
}

// nanFront: the path knows the front to be NaN at position n.
func (f *fronts) nan(evs []*Ev, n int, pc *PC) bool {
	for i := 0; i < n; i++ {
		e := evs[i]
		if e.Kind == "pure" && e.Name == "math.IsNaN" && pc.entails(e.Res) && f.fresh(evs, n, e.Args[0], 0, map[*Term]bool{}) {
			return true
		}
	}
	// x != x
	for q := pc; q != nil; q = q.up {
		if q.lit != nil && q.lit.Op == "not" {
			if t := q.lit.Args[0]; (t.Op == "eq" || t.Op == "app" && t.Aux == "f==") && len(t.Args) == 2 && t.Args[0] == t.Args[1] && f.fresh(evs, n, t.Args[0], 0, map[*Term]bool{}) {
				return true
			}
		}
	}
	return false
}

// sameArray: x is whole, possibly put together from its elements.
func sameArray(x, whole *Term) bool {
	if x == whole {
		return true
	}
	if x == nil || x.Op != "arr" || whole == nil {
		return false
	}
	for i, a := range x.Args {
		if (a.Op != "elt" && a.Op != "index") || a.Args[0] != whole {
			return false
		}
		k, isC := a.Aux.(int)
		if !isC && len(a.Args) == 2 {
			v, _ := a.Args[1].intVal()
			k = int(v)
		}
		if k != i {
			return false
		}
	}
	return len(x.Args) > 0
}

func posOf(evs []*Ev, e *Ev) int {
	for i, x := range evs {
		if x == e {
			return i
		}
	}
	return -1
}

const (
	fnSync   = "(*playback.timedMultiStreamer).streamSync"
	fnDirect = "(*playback.timedMultiStreamer).streamDirect"
)

func syncStart(c *Ctx) {
	syncRule(c)
	directRule(c)
	blockRule(c)
}

func syncRule(c *Ctx) {
	f := c.p.fn(fnSync)
	paths := c.explore(fnSync, opt{noSpawn: true, opaque: opaqueSet(qPeek, qRem, qAdd)})
	if f == nil || len(f.Params) != 3 {
		c.fail("synchronise", "streamSync", "playback/streamer.go", "streamSync(samples, now) not found")
		return
	}
	samples, now := mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	at := c.at(f.Pos())
	fr := &fronts{roundTrips(paths)}
	removal := func(p *Path, evs []*Ev) {
		for i, e := range evs {
			if !isCall(e, qRem) {
				continue
			}
			ok := fr.nan(evs, i, e.PC)
			for _, t := range fr.times(evs, i) {
				ok = ok || e.PC.entails(mkLt0(linOf(t).add(linOf(now), -1)))
			}
			c.check("discarded", "Remove in streamSync", where(c, e), ok, "a queued sample is discarded although it is neither a break marker nor late")
		}
	}
	for _, p := range paths {
		evs := p.Events()
		removal(p, evs)
		for _, e := range evs {
			if e.Kind == "store" && e.Addr != nil && addrRoot(e.Addr) == samples {
				c.fail("silence", "streamSync", where(c, e), "something else than silence is put into the block while synchronising")
			}
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		pc := p.St.pc
		n := p.Rets[0]
		var silent []*Ev
		for _, e := range evs {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "Streamer).Stream") {
				silent = append(silent, e)
			}
		}
		// the part of the block which is silenced
		full := len(silent) == 1 && silent[0].Args[1] == samples
		part := func(n *Term) bool {
			if len(silent) != 1 {
				return false
			}
			s := silent[0].Args[1]
			if s == samples {
				return pc.entails(mkEq(n, lenOf(samples)))
			}
			return s.Op == "slice" && s.Args[0] == samples && pc.entails(mkEq(s.Args[1], int0)) && pc.entails(mkEq(lenOf(s), n))
		}
		bg := true
		for _, e := range silent {
			_, fld := fieldOf(e.Args[0])
			bg = bg && fld == "background"
		}
		c.check("silence", "streamSync", at, bg, "what is played while synchronising is not the background")
		ts := fr.times(evs, len(evs))
		if !c.check("front known", "streamSync", at, len(ts) > 0, "the decision is not based on the sample which is first in the queue now") {
			continue
		}
		drained, isC := p.Rets[1].boolVal()
		if !isC {
			drained, isC = pc.entails(p.Rets[1]), pc.entails(p.Rets[1]) || pc.entails(mkNot(p.Rets[1]))
		}
		if !c.check("synchronised", "streamSync", at, isC, "it is not clear whether playback starts") {
			continue
		}
		due := func(l Lin) bool { // now+dur(len(samples)) <= t
			for _, t := range ts {
				// find the duration of the block
				d := findDur(pc, evs, lenOf(samples))
				if d != nil && pc.entails(mkNot(mkLt0(linOf(t).add(linOf(now), -1).add(linOf(d), -1)))) {
					return true
				}
			}
			return false
		}
		switch {
		case !drained:
			c.check("whole block silent", "streamSync", at, full && pc.entails(mkEq(n, lenOf(samples))), "the block is not filled with silence although playback does not start within it")
			c.check("not due", "streamSync", at, due(Lin{}), "the block is silent although the first sample may be due within it")
		case pc.entails(mkEq(n, int0)) && len(silent) == 0:
			ok := false
			for _, t := range ts {
				ok = ok || pc.entailsLe(now, t, 0)
			}
			c.check("late samples dropped", "streamSync", at, ok, "playback starts with a sample whose time has passed")
			// and it is not early: the front was late (or due) when we came here
			early := false
			for _, t := range firstTimes(fr, evs) {
				early = early || pc.entailsLe(t, now, 0)
			}
			c.check("not early", "streamSync", at, early, "playback starts before the time of the first sample")
		default:
			ok := false
			for _, t := range ts {
				arg, isN := rateApp(n, "N")
				ok = ok || isN && strip(arg) != nil && pc.entails(mkEq(arg, sub2(t, now)))
			}
			c.check("silent until due", "streamSync", at, ok && part(n), "the silence before the first sample does not last exactly until its time")
			fits, positive := false, false
			for _, t := range ts {
				if d := findDur(pc, evs, lenOf(samples)); d != nil {
					fits = fits || pc.entails(mkNot(mkLt0(linOf(now).add(linOf(d), 1).add(linOf(t), -1))))
				}
				positive = positive || pc.entailsLe(now, t, 0)
			}
			c.check("silence not negative", "streamSync", at, positive, "the silence can have a negative length")
			c.check("silence fits", "streamSync", at, fits, "the silence can be longer than the block")
		}
	}
	for _, r := range []string{"discarded", "not due", "silent until due", "late samples dropped"} {
		c.need(r, 1)
	}
	// conversions
	for _, x := range [][2]string{{"samplesDuration", "D"}, {"samplesCount", "N"}} {
		name := "(*playback.timedMultiStreamer)." + x[0]
		g := c.p.fn(name)
		for _, p := range rets(c.explore(name, opt{noSpawn: true})) {
			arg, ok := rateApp(p.Rets[0], x[1])
			c.check("durations", x[0], c.at(g.Pos()), ok && strip(arg) == mkParam(g, g.Params[1]), "%s is not the conversion by the sample rate", x[0])
		}
	}
}

// firstTimes: the times the front had at positions of the path where a late-sample loop was entered.
func firstTimes(fr *fronts, evs []*Ev) []*Term {
	var r []*Term
	for i, e := range evs {
		if e.Kind == "loophead" || isCall(e, qPeek) {
			n := i
			if e.Kind != "loophead" {
				n = i + 1
			}
			r = append(r, fr.times(evs, n)...)
		}
	}
	return r
}

// findDur: the duration of n samples as it was computed on the path.
func findDur(pc *PC, evs []*Ev, n *Term) *Term {
	for _, e := range evs {
		if e.Res != nil {
			if a, ok := rateApp(e.Res, "D"); ok && (a == n || pc.entails(mkEq(a, n))) {
				return strip(e.Res)
			}
		}
	}
	return nil
}

func directRule(c *Ctx) {
	f := c.p.fn(fnDirect)
	paths := c.explore(fnDirect, opt{noSpawn: true, opaque: opaqueSet(qPeek, qRem, qAdd)})
	if f == nil || len(f.Params) != 2 {
		c.fail("play", "streamDirect", "playback/streamer.go", "streamDirect(samples) not found")
		return
	}
	samples := mkParam(f, f.Params[1])
	at := c.at(f.Pos())
	isNaN := func(pc *PC, evs []*Ev, e *Ev) (is, not bool) {
		for _, x := range evs {
			if x.Kind == "pure" && x.Name == "math.IsNaN" && isPart(x.Args[0], comp(e, 0), 0) {
				is = is || pc.entails(x.Res)
				not = not || pc.entails(mkNot(x.Res))
			}
		}
		return
	}
	var its []iter
	round := map[*LoopInfo]bool{}
	for _, rt := range roundTrips(paths) {
		evs := rt.Evs
		rm := calls(evs, qRem)
		pc := rt.Path.St.pc
		sv := storeVisits(rt)
		var mine []iter
		for _, v := range sv {
			if v.Coll == samples {
				mine = append(mine, v)
			}
		}
		if !c.check("one by one", "streamDirect", at, len(rm) == 1 && len(mine) == 1, "an iteration takes %d samples from the queue and puts %d into the block", len(rm), len(mine)) {
			continue
		}
		_, not := isNaN(pc, evs, rm[0])
		c.check("break not played", "streamDirect", at, not, "a break marker is put into the block")
		c.check("in order", "streamDirect", at, sameArray(mine[0].At.Val, comp(rm[0], 0)), "what is put into the block is not the sample taken from the queue")
		c.check("in order", "streamDirect position", at, mine[0].Full, "the samples are not put at positions 0, 1, 2, ...")
		its = append(its, mine[0])
		round[rt.Info] = true
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		pc := p.St.pc
		h := -1
		for i, e := range evs {
			if e.Kind == "loophead" {
				h = i
			}
		}
		if h < 0 {
			c.check("block full", "streamDirect", at, pc.entailsLe(lenOf(samples), int0, 0) && len(calls(evs, qRem)) == 0, "samples are taken outside the loop")
			continue
		}
		li := evs[h].Aux.(*LoopInfo)
		var pos *Term
		for _, it := range its {
			if sameLoop(it.RT.Info, li) {
				pos = it.Idx
			}
		}
		if pos == nil {
			// no round trip with this loop: nothing was put yet
			pos = int0
		}
		rm := calls(evs[h:], qRem)
		drained, isC := p.Rets[1].boolVal()
		if !isC {
			drained, isC = pc.entails(p.Rets[1]), pc.entails(p.Rets[1]) || pc.entails(mkNot(p.Rets[1]))
		}
		c.check("count", "streamDirect", at, pc.entails(mkEq(p.Rets[0], pos)), "the number of samples returned is not the number put into the block")
		if isC && drained {
			ok := len(rm) == 1
			if ok {
				ok, _ = isNaN(pc, evs[h:], rm[0])
			}
			c.check("stops at break", "streamDirect", at, ok, "playback is interrupted although no break marker was met, or a sample is lost")
		} else {
			c.check("block full", "streamDirect", at, isC && len(rm) == 0 && pc.entailsLe(lenOf(samples), p.Rets[0], 0), "a block is left before it is full although no break marker was met, or a sample is lost")
		}
	}
	for _, r := range []string{"one by one", "break not played", "in order", "count", "stops at break", "block full"} {
		c.need(r, 1)
	}
}

func blockRule(c *Ctx) {
	name := "(*playback.timedMultiStreamer).Stream"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(fnSync, fnDirect, qPeek, qRem, qAdd)})
	if f == nil {
		return
	}
	samples := mkParam(f, f.Params[1])
	at := c.at(f.Pos())
	isClock := func(t *Term) bool {
		e, _ := resOf(strip(t))
		if e != nil {
			return e.Name == "timing.GetSyncedTime"
		}
		return false
	}
	_ = isClock
	positions := map[*Term]bool{}
	for _, rt := range roundTrips(paths) {
		evs := rt.Evs
		pc := rt.Path.St.pc
		cs := calls(evs, fnSync, fnDirect)
		if !c.check("one step", "Stream", at, len(cs) == 1, "a round of filling the block calls streamSync/streamDirect %d times", len(cs)) {
			continue
		}
		e := cs[0]
		sync := e.Name == fnSync
		// the mode
		var mode *Term
		for _, x := range evs {
			if x == e {
				break
			}
			if x.Kind == "load" && x.Addr.Op == "faddr" && fieldName(x.Addr) == "syncing" {
				mode = x.Val
			}
		}
		ok := mode != nil && (sync && e.PC.entails(mode) || !sync && e.PC.entails(mkNot(mode)))
		c.check("mode", "Stream", where(c, e), ok, "the mode in which samples are put does not follow the syncing flag")
		rest := e.Args[1]
		n, drained := comp(e, 0), comp(e, 1)
		// rest is loop-carried: starts with the whole block and shrinks by n
		init, next := rt.Info.flow(rest)
		pos := false
		if rest.Op == "slice" && rest.Args[0] == samples && pc.entails(mkEq(lenOf(rest), sub2(lenOf(samples), rest.Args[1]))) {
			i0, i1 := rt.Info.flow(rest.Args[1])
			pos = i0 != nil && i1 != nil && pc.entails(mkEq(i0, int0)) && pc.entails(mkEq(i1, add2(rest.Args[1], n)))
			if pos {
				positions[rest.Args[1]] = true
			}
		}
		ok = pos || init == samples && next != nil && next.Op == "slice" && next.Args[0] == rest && pc.entails(mkEq(next.Args[1], n)) &&
			pc.entails(mkEq(lenOf(next), sub2(lenOf(rest), n)))
		c.check("no gap", "Stream", where(c, e), ok, "the next samples are not put right behind the ones put before")
		if sync {
			t := e.Args[2]
			i0, i1 := rt.Info.flow(t)
			good := i0 != nil && i1 != nil
			if good {
				d := sub2(i1, t)
				a, isD := rateApp(d, "D")
				good = isD && a == n
			}
			c.check("clock", "Stream", where(c, e), good, "the time is not advanced by the duration of the samples put into the block")
			synced := false
			for _, x := range rt.Path.Events() {
				if x.Kind == "leave" && x.Name == "timing.GetSyncedTime" || isCall(x, "timing.GetSyncedTime") {
					if x.Res != nil && x.Res == i0 || len(x.Args) > 0 && x.Args[0] == i0 {
						synced = true
					}
				}
			}
			c.check("synchronised clock", "Stream", where(c, e), synced, "the time of the block is not the synchronised time")
		} else if ts := clockSyms(rt); true {
			for _, s := range ts {
				_, i1 := rt.Info.flow(s)
				a, isD := rateApp(sub2(i1, s), "D")
				c.check("clock", "Stream", where(c, e), isD && a == n, "the time is not advanced by the duration of the samples put into the block")
			}
		}
		// the mode afterwards
		st := lastStore(evs, tmsT, "syncing")
		isDr, notDr := pc.entails(drained), pc.entails(mkNot(drained))
		switch {
		case isDr, notDr:
			c.check("mode changes", "Stream", where(c, e), flips(evs, st, e, mode, drained, isDr, sync), "the player does not change between synchronising and playing exactly when it should")
		default:
			// decided by the value
			c.check("mode changes", "Stream", where(c, e), flips(evs, st, e, mode, drained, true, sync) && flips(evs, st, e, mode, drained, false, sync), "the player does not change between synchronising and playing exactly when it should")
		}
	}
	for _, p := range rets(paths) {
		ok := p.St.pc.entailsLe(lenOf(samples), int0, 0)
		for _, e := range p.Events() {
			if e.Kind == "loopexit" {
				for _, s := range e.Aux.(*LoopInfo).Sym {
					if s != nil && s.Typ != nil {
						if positions[s] && p.St.pc.entailsLe(lenOf(samples), s, 0) {
							ok = true
						}
						if _, isS := s.Typ.Underlying().(*types.Slice); isS && p.St.pc.entailsLe(lenOf(s), int0, 0) {
							ok = true
						}
					}
				}
			}
		}
		c.check("block filled", "Stream", at, ok, "the block is left before it is filled")
	}
	for _, r := range []string{"one step", "no gap", "clock", "mode changes", "block filled", "synchronised clock"} {
		c.need(r, 1)
	}
	// the player starts synchronising
	g := c.p.fn("playback.initStreamer")
	for _, p := range rets(c.explore("playback.initStreamer", opt{noSpawn: true})) {
		ok := false
		for _, e := range p.Events() {
			if isStoreTo(e, tmsT, "syncing") {
				b, isC := e.Val.boolVal()
				ok = isC && b
			}
		}
		c.check("starts synchronising", "initStreamer", c.at(g.Pos()), ok, "a new player does not start by synchronising")
	}
}

// flips: for this result of the step, syncing is negated (or kept).
func flips(evs []*Ev, st, step *Ev, mode, drained *Term, isDr, sync bool) bool {
	if st == nil {
		return !isDr
	}
	if st.N < step.N {
		return false
	}
	last := mode
	for _, x := range evs {
		if x == st {
			break
		}
		if x.Kind == "load" && x.Addr.Op == "faddr" && fieldName(x.Addr) == "syncing" {
			last = x.Val
		}
	}
	b := types.Typ[types.Bool]
	v := subst(st.Val, map[*Term]*Term{mode: mkConst(constant.MakeBool(sync), b), last: mkConst(constant.MakeBool(sync), b), drained: mkConst(constant.MakeBool(isDr), b)})
	r, ok := v.boolVal()
	return ok && r == (sync != isDr)
}

// clockSyms: the int64 values carried by the loop.
func clockSyms(rt roundTrip) []*Term {
	var r []*Term
	for _, s := range rt.Info.Sym {
		if s != nil && s.Typ != nil && types.Identical(s.Typ.Underlying(), types.Typ[types.Int64]) {
			r = append(r, s)
		}
	}
	return r
}

func chunkFIFO(c *Ctx) {
	// queueing
	name := "playback.QueueChunk"
	f := c.p.fn(name)
	paths := rets(c.explore(name, opt{noSpawn: true}))
	if f == nil {
		return
	}
	start, samples := mkParam(f, f.Params[0]), mkParam(f, f.Params[2])
	at := c.at(f.Pos())
	noteLoops(paths)
	for _, p := range paths {
		evs := p.Events()
		sts := storesOf(evs, tmsT, "chunks")
		if len(sts) == 0 {
			ready := true
			for _, e := range evs {
				if e.Kind == "load" && e.Addr.Op == "global" && namedPtr(e.Val.Typ) == tmsT && nilAt(p.St.pc, e.Val) {
					ready = false
				}
			}
			c.check("dropped", "QueueChunk", at, !ready, "a chunk is dropped although the player is initialised")
			continue
		}
		old := firstLoad(evs, tmsT, "chunks")
		st := sts[len(sts)-1]
		n := newNamer(f)
		_ = n
		var elem *Term
		ok, note := segCases(p.St.pc, evs, func(s *segState) bool {
			if len(sts) != 1 || old == nil {
				return false
			}
			for _, e := range evs {
				if e.N < st.N && e.Kind == "store" && e.Addr.Op == "faddr" && fieldName(e.Addr) == "startTime" {
					elem = e.Addr.Args[0]
				}
			}
			return elem != nil && s.equal(st.Val, []seg{srcSeg(int0, lenOf(old), old, int0), elemSeg(lenOf(old), elem)})
		})
		c.check("appended", "QueueChunk", where(c, st), ok, "the chunk is not appended to the chunks waiting: %s", note)
		if elem != nil {
			flds := msgFields(p, elem, nil)
			c.check("chunk content", "QueueChunk", where(c, st), flds["startTime"] == start && flds["samples"] == samples, "the chunk queued does not have the start time and samples given")
			if v := flds["sampleN"]; v != nil {
				c.check("chunk length", "QueueChunk", where(c, st), p.St.pc.entails(mkEq(v, lenOf(samples))), "the number of samples of the chunk is wrong")
			}
		}
	}
	c.need("appended", 1)
	c.need("dropped", 1)
	// dequeueing
	name = "(*playback.timedMultiStreamer).ReadChunks"
	f = c.p.fn(name)
	all := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(qPeek, qRem, qAdd, "util.IsCanceled")})
	if f == nil {
		return
	}
	at = c.at(f.Pos())
	noteLoops(all)
	its := allVisits(all)
	rts := roundTrips(all)
	// taken: the chunk taken from the front in these events
	taken := func(p *Path, evs []*Ev) *Term {
		sts := storesOf(evs, tmsT, "chunks")
		if len(sts) == 0 {
			return nil
		}
		st := sts[0]
		// the list at the beginning of the critical section
		var old *Term
		first := 0
		for _, e := range evs {
			if e.Kind == "lock" && e.N < st.N {
				old, first = nil, e.N
			}
			if old == nil && e.Kind == "load" && e.N < st.N && e.Addr.Op == "faddr" && fieldName(e.Addr) == "chunks" {
				old = e.Val
			}
		}
		var crit []*Ev
		for _, e := range evs {
			if e.N >= first {
				crit = append(crit, e)
			}
		}
		ok, note := segCases(p.St.pc, crit, func(s *segState) bool {
			return len(sts) == 1 && old != nil && s.equal(st.Val, []seg{srcSeg(int0, sub2(lenOf(old), int1), old, int1)})
		})
		c.check("taken", "ReadChunks", where(c, st), ok, "not exactly the first chunk is taken out of the chunks waiting: %s", note)
		for _, e := range evs {
			if e.N < first {
				continue
			}
			if e.Kind == "copy" || e.Kind == "store" && e.Addr.Op == "iaddr" && e.Addr.Args[0] == old {
				break
			}
			if e.Kind == "load" && e.Addr.Op == "iaddr" && e.Addr.Args[0] == old && p.St.pc.entails(mkEq(e.Addr.Args[1], int0)) {
				return e.Val
			}
		}
		return nil
	}
	isField := func(t, x *Term, fld string) bool {
		b, n := fieldOf(t)
		return b == x && n == fld
	}
	for _, rt := range rts {
		evs := rt.Evs
		pc := rt.Path.St.pc
		if add := calls(innermost(rt), qAdd); len(add) > 0 {
			// a round of queueing samples; the chunk is the one taken last on the path
			x := taken(rt.Path, sinceOuter(rt))
			if !c.check("samples queued", "ReadChunks", where(c, add[0]), len(add) == 1 && x != nil, "samples which do not belong to the chunk taken are queued") {
				continue
			}
			var v *iter
			for i := range its {
				if sameLoop(its[i].RT.Info, rt.Info) && its[i].Full && sameArray2(add[0].Args[1], its[i].Elem) {
					v = &its[i]
				}
			}
			if !c.check("samples in order", "ReadChunks", where(c, add[0]), v != nil && isField(v.Coll, x, "samples"), "the samples of the chunk are not queued one by one in order") {
				continue
			}
			st := fieldTerm(rt.Path, x, "startTime")
			ok := false
			if st != nil {
				arg, isD := rateApp(sub2(add[0].Args[2], st), "D")
				ok = isD && pc.entails(mkEq(arg, v.Idx))
			}
			c.check("sample time", "ReadChunks", where(c, add[0]), ok, "the time of a sample is not that of its chunk plus the duration of the samples before it")
			continue
		}
		for _, it := range its {
			if _, fld := fieldOf(it.Coll); fld == "samples" && sameLoop(it.RT.Info, rt.Info) {
				c.fail("every sample", "ReadChunks", at, "a sample of a chunk can be left out")
			}
		}
		if len(storesOf(evs, tmsT, "chunks")) == 0 {
			c.check("nothing waiting", "ReadChunks", at, len(calls(evs, qAdd)) == 0, "samples are queued although no chunk was taken")
			continue
		}
		x := taken(rt.Path, evs)
		if !c.check("taken chunk", "ReadChunks", at, x != nil, "the chunk taken out is not the first one") {
			continue
		}
		if nilAt(pc, x) {
			continue
		}
		whole := false
		for _, e := range evs {
			if e.Kind == "loopexit" {
				for _, it := range its {
					if isField(it.Coll, x, "samples") && sameLoop(it.RT.Info, e.Aux.(*LoopInfo)) && exhausted(its, rt.Path, e, it.Coll) {
						whole = true
					}
				}
			}
		}
		c.check("whole chunk", "ReadChunks", at, whole, "a chunk is taken but not all of its samples are queued")
	}
	for _, p := range rets(all) {
		evs := p.Events()
		if h := lastHeadOf(evs, f); h >= 0 {
			c.check("not lost at the end", "ReadChunks", at, len(storesOf(evs[h:], tmsT, "chunks")) == 0, "a chunk is taken and then dropped")
		}
	}
	for _, r := range []string{"taken", "samples in order", "sample time", "whole chunk", "nothing waiting"} {
		c.need(r, 1)
	}
	// nothing else changes the chunks waiting
	for _, g := range c.p.fns {
		for _, s := range storesToField(g, tmsT, "chunks") {
			// initStreamer creates the list; QueueChunk and what ReadChunks calls were judged above
			ok := fnName(g) == "playback.QueueChunk" || fnName(g) == name || c.onlyVia(g, "playback.QueueChunk", name) || freshObject(s)
			c.check("changed elsewhere", fnName(g), c.at(s.Pos()), ok, "the chunks waiting are changed outside QueueChunk and ReadChunks")
		}
	}
	// pairing of low and high samples
	name = "playback.CombineSamples"
	f = c.p.fn(name)
	combineRule(c)
}

// sinceOuter: the events of the path since the loop around the one of rt was entered.
func sinceOuter(rt roundTrip) []*Ev {
	evs := rt.Path.Events()
	n := 0
	for i, e := range evs {
		if e == rt.Evs[0] {
			n = i
		}
	}
	depth := 0
	for i := n - 1; i >= 0; i-- {
		switch evs[i].Kind {
		case "loopexit":
			depth++
		case "loophead":
			if depth > 0 {
				depth--
			} else {
				return evs[i:]
			}
		}
	}
	return evs
}

// lastHeadOf: the last loop head in function f itself.
func lastHeadOf(evs []*Ev, f *ssa.Function) int {
	r := -1
	for i, e := range evs {
		if e.Kind == "loophead" && e.Fn == f {
			r = i
		}
	}
	return r
}

// sameArray2: two array values which are the same array, or were loaded from the same address.
func sameArray2(a, b *Term) bool { return a == b || strip(a) == strip(b) }

// fieldTerm: the value of a field of x as it was loaded on the path.
func fieldTerm(p *Path, x *Term, fld string) *Term {
	var r *Term
	for _, e := range p.Events() {
		if e.Kind == "load" && e.Addr.Op == "faddr" && e.Addr.Args[0] == x && fieldName(e.Addr) == fld {
			r = e.Val
		}
	}
	return r
}

func namedPtr(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return namedOf(p.Elem())
	}
	return namedOf(t)
}

// storesToField lists the instructions of g which store to a field.
func storesToField(g *ssa.Function, typ, field string) []*ssa.Store {
	var r []*ssa.Store
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if namedOf(st) == typ && st.Underlying().(*types.Struct).Field(fa.Field).Name() == field {
				r = append(r, s)
			}
		}
	}
	return r
}

// freshObject: the store initialises an object allocated in the same function.
func freshObject(s *ssa.Store) bool {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok
}

// ---- the sample queue ----

// isInc: v is i+1 modulo n2, for 0 <= i < n2.
func isInc(pc *PC, v, i, n2 *Term) bool {
	in := pc.push(mkNot(mkLt0(linOf(i)))).push(mkLt0(linOf(i).add(linOf(n2), -1)))
	i1 := add2(i, int1)
	if isMod(v, i1, n2) {
		return true
	}
	if in.entails(mkEq(v, i1)) && in.entails(mkNot(mkEq(i1, n2))) {
		return true
	}
	return in.entails(mkEq(v, int0)) && (in.entails(mkEq(i1, n2)))
}

// isIdx: k is i modulo n, for 0 <= i < 2n.
func isIdx(pc *PC, k, i, n *Term) bool {
	in := pc.push(mkNot(mkLt0(linOf(i)))).push(mkLt0(linOf(i).add(linOf(n), -2)))
	if isMod(k, i, n) {
		return true
	}
	if in.entails(mkEq(k, i)) && in.entails(mkLt0(linOf(i).add(linOf(n), -1))) {
		return true
	}
	return in.entails(mkEq(k, sub2(i, n))) && in.entailsLe(n, i, 0)
}

// lenIsNot: head-tail modulo 2n is not k (0 or n).
func lenIsNot(pc *PC, h, t, n *Term, full bool) bool {
	if !full {
		return pc.entails(mkNot(mkEq(h, t)))
	}
	n2 := add2(n, n)
	in := pc.push(mkNot(mkLt0(linOf(h)))).push(mkLt0(linOf(h).add(linOf(n2), -1))).push(mkNot(mkLt0(linOf(t)))).push(mkLt0(linOf(t).add(linOf(n2), -1)))
	for _, x := range []*Term{mk("app", types.Typ[types.Int], "rem", add2(t, n), n2)} {
		if pc.entails(mkNot(mkEq(x, h))) {
			return true
		}
	}
	if x := mk("app", types.Typ[types.Int], "rem", add2(h, n), n2); pc.entails(mkNot(mkEq(x, t))) {
		return true
	}
	d := sub2(h, t)
	le, gt := in.push(mkNot(mkLt0(linOf(d)))), in.push(mkLt0(linOf(d)))
	return le.entails(mkNot(mkEq(d, n))) && gt.entails(mkNot(mkEq(add2(d, n2), n)))
}

func lastLoadOf(evs []*Ev, before int, typ, field string) *Term {
	var r *Term
	for i, e := range evs {
		if i >= before {
			break
		}
		if e.Kind == "load" && e.Addr != nil && e.Addr.Op == "faddr" && fieldName(e.Addr) == field && namedOf(e.Addr.Args[0].Typ) == typ {
			r = e.Val
		}
	}
	return r
}

func queueFIFO(c *Ctx) {
	op := func(name string, judge func(f *ssa.Function, p *Path, evs []*Ev)) {
		f := c.p.fn(name)
		paths := c.explore(name, opt{noSpawn: true})
		if f == nil {
			return
		}
		// head and tail change whenever the lock they are read under is not held, so also while waiting
		guards := map[string]string{}
		for k, v := range guardedBy {
			guards[k] = v
		}
		for _, p := range paths {
			for _, e := range p.Events() {
				if e.Kind == "load" && len(e.Held) > 0 && e.Addr.Op == "faddr" && namedOf(e.Addr.Args[0].Typ) == tsqT && (fieldName(e.Addr) == "head" || fieldName(e.Addr) == "tail") {
					guards[fieldKey(e.Addr)] = lockName(e.Held[len(e.Held)-1].L)
				}
			}
		}
		for _, p := range rets(c.explore(name, opt{noSpawn: true, guards: guards})) {
			judge(f, p, p.Events())
		}
	}
	// the elements of the buffer which are stored to or loaded from
	elem := func(a *Term) (buf, idx *Term) {
		for a.Op == "faddr" {
			a = a.Args[0]
		}
		if a.Op != "iaddr" || a.Args[0].Typ == nil {
			return nil, nil
		}
		if s, ok := a.Args[0].Typ.Underlying().(*types.Slice); !ok || namedOf(s.Elem()) != "playback.timedSample" {
			return nil, nil
		}
		return a.Args[0], a.Args[1]
	}
	wakes := func(evs []*Ev, after *Ev) bool {
		for _, e := range evs {
			if e.N > after.N && strings.HasPrefix(e.Name, "(*sync.Cond).Broadcast") {
				return true
			}
		}
		return false
	}
	op(qAdd, func(f *ssa.Function, p *Path, evs []*Ev) {
		at := c.at(f.Pos())
		pc := p.St.pc
		sts := storesOf(evs, tsqT, "head")
		if !c.check("Add: advances", "Add head", at, len(sts) == 1, "Add changes the head %d times", len(sts)) {
			return
		}
		st := sts[0]
		x := posOf(evs, st)
		h, t := lastLoadOf(evs, x, tsqT, "head"), lastLoadOf(evs, len(evs), tsqT, "tail")
		var put []*Ev
		for _, e := range evs {
			if e.Kind == "store" {
				if b, _ := elem(e.Addr); b != nil {
					put = append(put, e)
				}
			}
		}
		if !c.check("Add: stored", "Add", at, len(put) >= 1 && h != nil && t != nil, "Add does not store the sample") {
			return
		}
		buf, idx := elem(put[0].Addr)
		vals := map[string]*Term{}
		same := true
		for _, e := range put {
			b, i := elem(e.Addr)
			same = same && b == buf && i == idx
			if e.Addr.Op == "faddr" {
				vals[fieldName(e.Addr)] = e.Val
			} else if e.Val.Op == "struct" && len(e.Val.Args) == 2 {
				vals["sample"], vals["time"] = e.Val.Args[0], e.Val.Args[1]
			}
		}
		c.check("Add: stored", "Add value", at, same && sameArray(vals["sample"], mkParam(f, f.Params[1])) && vals["time"] == mkParam(f, f.Params[2]), "Add does not store the given sample and time at one place")
		c.check("Add: behind all others", "Add", where(c, put[0]), isIdx(pc, idx, h, lenOf(buf)), "the sample is not stored at the head (modulo the size)")
		c.check("Add: advances", "Add", where(c, st), isInc(pc, st.Val, h, add2(lenOf(buf), lenOf(buf))), "the head is not advanced by one (modulo twice the size)")
		c.check("Add: waits while full", "Add", where(c, put[0]), lenIsNot(put[0].PC, h, t, lenOf(buf), true), "a sample can be stored although the queue is full: it overwrites one which was not removed")
		c.check("Add: tail kept", "Add", at, len(storesOf(evs, tsqT, "tail")) == 0, "Add changes the tail")
		c.check("Add: wakes", "Add", at, wakes(evs, st), "a waiting Remove is not woken")
	})
	for _, name := range []string{qRem, qPeek} {
		remove := name == qRem
		short := name[strings.LastIndex(name, ".")+1:]
		op(name, func(f *ssa.Function, p *Path, evs []*Ev) {
			at := c.at(f.Pos())
			pc := p.St.pc
			end := len(evs)
			sts := storesOf(evs, tsqT, "tail")
			if remove {
				if !c.check("Remove: advances", "Remove tail", at, len(sts) == 1, "Remove changes the tail %d times", len(sts)) {
					return
				}
				end = posOf(evs, sts[0])
			} else {
				c.check("Peek: nothing removed", "Peek", at, len(sts) == 0, "Peek changes the tail")
			}
			h, t := lastLoadOf(evs, len(evs), tsqT, "head"), lastLoadOf(evs, end, tsqT, "tail")
			var got *Ev
			for _, e := range evs {
				if e.Kind == "load" {
					if b, _ := elem(e.Addr); b != nil {
						got = e
					}
				}
			}
			if !c.check(short+": first", short, at, got != nil && h != nil && t != nil && len(p.Rets) == 2, "nothing is taken from the buffer") {
				return
			}
			buf, idx := elem(got.Addr)
			c.check(short+": first", short+" position", where(c, got), isIdx(got.PC, idx, t, lenOf(buf)), "what is returned is not at the tail (modulo the size)")
			c.check(short+": waits while empty", short, where(c, got), lenIsNot(got.PC, h, t, lenOf(buf), false), "a sample is taken from an empty queue")
			ea := mk("iaddr", nil, nil, buf, idx)
			part := func(v *Term, fld string) bool {
				ok := true
				var walk func(v *Term) bool
				walk = func(v *Term) bool {
					switch v.Op {
					case "arr", "struct":
						for _, a := range v.Args {
							if !walk(a) {
								return false
							}
						}
						return len(v.Args) > 0
					case "fld", "elt", "index":
						return walk(v.Args[0])
					case "ld":
						a := v.Args[0]
						for a.Op == "iaddr" && a.Args[0].Op == "faddr" {
							a = a.Args[0]
						}
						return a.Op == "faddr" && fieldName(a) == fld && a.Args[0].Op == "iaddr" && a.Args[0].Args[0] == buf && a.Args[0].Args[1] == idx
					}
					return false
				}
				return ok && walk(v)
			}
			_ = ea
			c.check(short+": value", short, at, part(p.Rets[0], "sample") && part(p.Rets[1], "time"), "what is returned is not the sample and time of the first element")
			c.check(short+": head kept", short, at, len(storesOf(evs, tsqT, "head")) == 0, "%s changes the head", short)
			for _, e := range evs {
				if e.Kind == "store" {
					if b, i := elem(e.Addr); b != nil {
						c.check(short+": content kept", short, where(c, e), remove && i == idx && e.N > got.N, "%s changes the content of the queue", short)
					}
				}
			}
			if remove {
				c.check("Remove: advances", "Remove", where(c, sts[0]), isInc(pc, sts[0].Val, t, add2(lenOf(buf), lenOf(buf))), "the tail is not advanced by one (modulo twice the size)")
				c.check("Remove: wakes", "Remove", at, wakes(evs, sts[0]), "a waiting Add is not woken")
			}
		})
	}
	op("(*playback.timedSampleQueue).Len", func(f *ssa.Function, p *Path, evs []*Ev) {
		h, t := lastLoadOf(evs, len(evs), tsqT, "head"), lastLoadOf(evs, len(evs), tsqT, "tail")
		b := lastLoadOf(evs, len(evs), tsqT, "buffer")
		pc := p.St.pc
		d := sub2(h, t)
		r := p.Rets[0]
		ok := pc.entails(mkEq(r, d)) && pc.entailsLe(t, h, 0)
		if !ok && b != nil {
			n2 := add2(lenOf(b), lenOf(b))
			ok = pc.entails(mkEq(r, add2(d, n2))) && pc.entails(mkLt0(linOf(d))) || isMod(r, add2(d, n2), n2)
		}
		c.check("Len", "Len", c.at(f.Pos()), ok, "Len is not the number of samples queued")
	})
	op("(*playback.timedSampleQueue).Cap", func(f *ssa.Function, p *Path, evs []*Ev) {
		b := lastLoadOf(evs, len(evs), tsqT, "buffer")
		c.check("Cap", "Cap", c.at(f.Pos()), b != nil && p.Rets[0] == lenOf(b), "Cap is not the size of the queue")
	})
	op("playback.newTimedSampleQueue", func(f *ssa.Function, p *Path, evs []*Ev) {
		flds := msgFields(p, p.Rets[0], nil)
		zero := func(k string) bool { v := flds[k]; return v == nil || p.St.pc.entails(mkEq(v, int0)) }
		b := flds["buffer"]
		c.check("new", "newTimedSampleQueue", c.at(f.Pos()), b != nil && p.St.pc.entails(mkEq(lenOf(b), mkParam(f, f.Params[0]))) && zero("head") && zero("tail"), "a new queue is not empty with the size given")
	})
	for _, g := range c.p.fns {
		for _, k := range []string{"head", "tail", "buffer"} {
			for _, s := range storesToField(g, tsqT, k) {
				ok := freshObject(s) || k == "head" && (fnName(g) == qAdd || c.onlyVia(g, qAdd)) || k == "tail" && (fnName(g) == qRem || c.onlyVia(g, qRem))
				c.check("changed elsewhere", k+" in "+fnName(g), c.at(s.Pos()), ok, "%s is changed outside the operation it belongs to", k)
			}
		}
	}
	for _, r := range []string{"Add: stored", "Add: behind all others", "Add: waits while full", "Add: wakes", "Remove: first", "Remove: advances", "Remove: value", "Remove: waits while empty", "Peek: first", "Peek: value", "Len", "new"} {
		c.need(r, 1)
	}
}
