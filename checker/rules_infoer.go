package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "S07", Title: "The infoer's lists of chunks, songs and pauses stay complete, in order and bounded",
		Statement: "Every chunk, song and pause announced is stored with its own values, none of those stored before is lost by it, and the list is in the order of the sample index again before anyone else can see it. Only chunks which ended before now are removed, all such chunks at the front are, and only pauses before the last resume preceding the current song, which itself is kept.",
		Over:      []string{"histories", "inputs"}, Quant: "all histories of announcements, in any order, and all times", Why: "Tests use a few fixed lists; whether a removed entry was still needed depends on every one of them.",
		Files:     []string{"cmd/music-sync-infoer/infoer_package_handler.go", "cmd/music-sync-infoer/state.go"},
		Mech:      [][2]string{{"store", "infoerPackageHandler.HandleChunkInfo, HandleNewSongInfo, HandlePauseInfo"}, {"remove", "state.removeOldChunks, state.removeOldPauses"}},
		Technique: segTech, Note: "The standard library's sort is trusted; its Less, Swap and Len are analysed.", Run: infoerLists,
	})
	register(&Prop{
		ID: "S08", Title: "The infoer derives sample, song, pauses, progress and lyrics from what was announced",
		Statement: "The current sample is the first sample of the oldest chunk which has not ended plus the samples since its start; the current song is the last one which began before it; the pauses subtracted from the position in the song are exactly the paused samples between the song's first sample and now, and the state shown is that of the last toggle before now; the times shown are the samples divided by the sample rate. The newest lyrics line shown is the last one before the first line which has not begun, lines consist of the captions of all atoms which have begun, in order, and there is one line for every line of height.",
		Over:      []string{"inputs", "histories"}, Quant: "all lists, times and samples (indices below 2^63)", Why: "Tests compare a few states; the pause account is an invariant over all histories of toggles.",
		Files:     []string{"cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/main.go"},
		Mech:      [][2]string{{"state", "state.Info, currentSample, currentSong, pausesInCurrentSong"}, {"lyrics", "lyricsHistory, lyricsNextLine, lyricsBuildLine"}},
		Technique: absTech + "; the pause account is decided as an inductive invariant over the loop-carried values, compared as polynomials", Run: infoerState,
	})
}

const infT = "cmd/music-sync-infoer.state"
const infP = "(*cmd/music-sync-infoer.state)."

// elemFlds: the fields of the element of a list at position idx, as read by the events.
func (c *Ctx) elemFlds(p *Path, evs []*Ev, isColl func(*Term) bool, idx *Term) map[string]*Term {
	r := map[string]*Term{}
	hit := func(a *Term) bool {
		return a.Op == "iaddr" && isColl(a.Args[0]) && (a.Args[1] == idx || p.St.pc.entails(mkEq(a.Args[1], idx)))
	}
	put := func(k string, v *Term) {
		if r[k] == nil {
			r[k] = v
		}
	}
	for _, e := range evs {
		if e.Kind != "load" || e.Addr == nil || e.Val == nil {
			continue
		}
		switch {
		case hit(e.Addr):
			if _, isPtr := e.Val.Typ.Underlying().(*types.Pointer); isPtr {
				for _, g := range evs {
					if g.Kind == "load" && g.Addr != nil && g.Addr.Op == "faddr" && g.Addr.Args[0] == e.Val {
						put(fieldName(g.Addr), g.Val)
					}
				}
				continue
			}
			for k, v := range c.fieldsOf(p, e.Val, e) {
				put(k, v)
			}
		case e.Addr.Op == "faddr" && hit(e.Addr.Args[0]):
			put(fieldName(e.Addr), e.Val)
		}
	}
	return r
}

// isList: the list is a field of the infoer's state.
func isList(field string) func(*Term) bool {
	return func(t *Term) bool { _, f := fieldOf(t); return f == field }
}

func infoerLists(c *Ctx) {
	announced(c, "HandleChunkInfo", "Chunks", "startIndex", map[string]string{"startTime": "StartTime", "startIndex": "FirstSampleIndex", "size": "ChunkSize"})
	announced(c, "HandlePauseInfo", "Pauses", "toggleIndex", map[string]string{"playing": "Playing", "toggleIndex": "ToggleSampleIndex"})
	announced(c, "HandleNewSongInfo", "Songs", "startIndex", map[string]string{"filename": "SongFileName", "startIndex": "FirstSampleOfSongIndex", "length": "SongLength"})
	removeChunksRule(c)
	removePausesRule(c)
	allowed := map[string][]string{
		"Chunks": {infP + "removeOldChunks"}, "Pauses": {infP + "removeOldPauses"}, "Songs": nil,
	}
	for m, l := range map[string]string{"HandleChunkInfo": "Chunks", "HandlePauseInfo": "Pauses", "HandleNewSongInfo": "Songs"} {
		if t := c.handlerTypes()["cmd/music-sync-infoer"]; t != nil {
			if f := c.method(t, m); f != nil {
				allowed[l] = append(allowed[l], fnName(f))
			}
		}
	}
	n := 0
	for _, h := range c.p.fns {
		for l, via := range allowed {
			for _, s := range storesToField(h, infT, l) {
				n++
				c.check("changed elsewhere", fnName(h)+" "+l, c.at(s.Pos()), freshObject(s) || fnName(h) == "cmd/music-sync-infoer.init" || c.onlyVia(h, via...), "the infoer's %s are changed elsewhere", l)
			}
		}
	}
	c.need("changed elsewhere", 5)
	for _, r := range []string{"stored", "in order", "ordering", "old chunks", "old pauses"} {
		c.need(r, 1)
	}
}

// announced: a message handler adds exactly one element and puts the list in order again.
func announced(c *Ctx, method, list, key string, fields map[string]string) {
	f := c.infoerHandler(method)
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	m := mkParam(f, f.Params[1])
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true, init: nonNilParams})) {
		evs := p.Events()
		st, old, fl := c.appendedTo(p, list)
		if !c.check("stored", method, at, st != nil && old != nil && len(fl) > 0, "an announcement does not add exactly one element to %s", list) {
			continue
		}
		c.check("stored", method+" others", where(c, st), isList(list)(old), "what was announced earlier is lost")
		for _, d := range sortedKeys(fields) {
			b, k := fieldOf(fl[d])
			c.check("stored", method+" "+d, where(c, st), b == m && k == fields[d], "%s is not the announced %s", d, fields[d])
		}
		var by *Ev
		for _, e := range evs {
			if isCall(e, "sort.Sort") || isCall(e, "sort.Stable") || isCall(e, "sort.Slice") || isCall(e, "sort.SliceStable") {
				a := strip(e.Args[0])
				if a == st.Val || e.N > st.N && isList(list)(a) {
					by = e
				}
			}
		}
		if !c.check("in order", method, where(c, st), by != nil, "%s is not sorted after the new element was added", list) {
			continue
		}
		split := false
		for _, e := range evs {
			if e.N > st.N && e.N < by.N && (e.Kind == "unlock" || e.Kind == "runlock") {
				split = true
			}
		}
		c.check("in order", method+" at once", where(c, by), !split, "%s can be seen before it is in order", list)
		sortedBy(c, p, by, key)
	}
}

// sortedBy: the sort call orders the elements by a field.
func sortedBy(c *Ctx, p *Path, by *Ev, key string) {
	w := where(c, by)
	var less *ssa.Function
	var x, i, j *Term
	if isCall(by, "sort.Slice") || isCall(by, "sort.SliceStable") {
		var cl *Term
		if len(by.Args) == 2 {
			cl = strip(by.Args[1])
		}
		if cl != nil && cl.Op == "closure" {
			less, _ = cl.Aux.(*ssa.Function)
		}
		if less == nil && cl != nil {
			less, _ = cl.Aux.(*ssa.Function)
		}
		if !c.check("ordering", "less", w, less != nil && len(less.Params) == 2, "the order could not be determined") {
			return
		}
		i, j = mkParam(less, less.Params[0]), mkParam(less, less.Params[1])
	} else {
		ci, _ := by.Instr.(ssa.CallInstruction)
		var t types.Type
		if ci != nil {
			for v := ci.Common().Args[0]; t == nil && v != nil; {
				switch y := v.(type) {
				case *ssa.MakeInterface:
					t = y.X.Type()
				case *ssa.ChangeInterface:
					v = y.X
				default:
					v = nil
				}
			}
		}
		if !c.check("ordering", "type", w, t != nil, "the order could not be determined") {
			return
		}
		less = c.method(t, "Less")
		sw, ln := c.method(t, "Swap"), c.method(t, "Len")
		if !c.check("ordering", "type", w, less != nil && sw != nil && ln != nil && len(less.Params) == 3 && len(sw.Params) == 3, "the order could not be determined") {
			return
		}
		x, i, j = mkParam(less, less.Params[0]), mkParam(less, less.Params[1]), mkParam(less, less.Params[2])
		for _, q := range rets(c.exploreFn(ln, opt{noSpawn: true})) {
			c.check("ordering", "Len", c.at(ln.Pos()), strip(q.Rets[0]) == lenOf(mkParam(ln, ln.Params[0])), "Len is not the number of elements")
		}
		sx, si, sj := mkParam(sw, sw.Params[0]), mkParam(sw, sw.Params[1]), mkParam(sw, sw.Params[2])
		for _, q := range rets(c.exploreFn(sw, opt{noSpawn: true})) {
			ok, note := segSwap(q, sx, si, sj)
			c.check("ordering", "Swap", c.at(sw.Pos()), ok, "Swap does not exchange two elements: %s", note)
		}
	}
	mine := func(t *Term) bool { return x == nil || t == x }
	for _, q := range rets(c.exploreFn(less, opt{noSpawn: true})) {
		a, b := c.elemFlds(q, q.Events(), mine, i)[key], c.elemFlds(q, q.Events(), mine, j)[key]
		ok := a != nil && b != nil
		if ok {
			lt := mkLt0(linOf(a).add(linOf(b), -1))
			r := q.Rets[0]
			ok = (r == lt || q.St.pc.push(lt).entails(r) && q.St.pc.push(mkNot(lt)).entails(mkNot(r)))
		}
		c.check("ordering", "Less by "+key, c.at(less.Pos()), ok, "the list is not ordered by %s", key)
	}
}

// segSwap: the path exchanges the elements at i and j of x and changes nothing else.
func segSwap(p *Path, x, i, j *Term) (bool, string) {
	var l, s []*Ev
	for _, e := range p.Events() {
		if e.Addr == nil || e.Addr.Op != "iaddr" && e.Addr.Op != "faddr" {
			continue
		}
		switch e.Kind {
		case "load":
			l = append(l, e)
		case "store":
			s = append(s, e)
		}
	}
	if len(s) != 2 {
		return false, "it does not change two elements"
	}
	is := func(a *Term, k *Term) bool { return a.Op == "iaddr" && a.Args[0] == x && a.Args[1] == k }
	first := func(k *Term) *Term {
		for _, e := range l {
			if is(e.Addr, k) && e.N < s[0].N {
				return e.Val
			}
		}
		return nil
	}
	a, b := first(i), first(j)
	if a == nil || b == nil {
		return false, "it does not read both before it changes them"
	}
	for _, q := range [][2]int{{0, 1}, {1, 0}} {
		if is(s[q[0]].Addr, i) && s[q[0]].Val == b && is(s[q[1]].Addr, j) && s[q[1]].Val == a {
			return true, ""
		}
	}
	return false, "the elements are not exchanged"
}

// endOf: when the chunk with these fields ends, in the terms of the chunk's endTime method.
func endOf(c *Ctx) func(fl map[string]*Term) *Term {
	name := "(cmd/music-sync-infoer.upcomingChunk).endTime"
	f := c.p.fn(name)
	ps := rets(c.explore(name, opt{noSpawn: true}))
	if f == nil || len(ps) != 1 {
		c.fail("chunk end", name, "cmd/music-sync-infoer/state.go", "the end of a chunk is not computed by one expression")
		return nil
	}
	uc := mkParam(f, f.Params[0])
	r := ps[0].Rets[0]
	st := uc.Typ.Underlying().(*types.Struct)
	leaf := map[string]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if b, k := fieldOf(t); b == uc && (t.Op == "fld" || t.Op == "ld") {
			leaf[k] = t
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(r)
	start, size := leaf["startTime"], leaf["size"]
	ok := start != nil && size != nil && st.NumFields() >= 3
	if ok {
		d := strip(mkSub(r, start, types.Typ[types.Int64]))
		ok = perSecond(d, func(q poly) bool { return polyEq(q, polyOf(size).mul(poly{"": {1000000000, nil}})) }, false)
	}
	if !c.check("chunk end", name, c.at(f.Pos()), ok, "a chunk does not end at its start plus its samples divided by the sample rate") {
		return nil
	}
	return func(fl map[string]*Term) *Term {
		m := map[*Term]*Term{}
		for k, t := range leaf {
			if fl[k] == nil {
				return nil
			}
			m[t] = fl[k]
		}
		return subst(r, m)
	}
}

// perSecond: t is num/SampleRate (toRate false) or num/1000000000 (toRate true), as integers; num is tested as a polynomial.
func perSecond(t *Term, num func(poly) bool, toRate bool) bool {
	t = strip(t)
	if !isApp(t, "quo") || len(t.Args) != 2 {
		return false
	}
	if toRate {
		return isInt(t.Args[1], 1000000000) && num(polyOf(t.Args[0]))
	}
	return nameOf(strip(t.Args[1])) == "schedule.SampleRate" && num(polyOf(t.Args[0]))
}

func removeChunksRule(c *Ctx) {
	end := endOf(c)
	name := infP + "removeOldChunks"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil || end == nil {
		return
	}
	at := c.at(f.Pos())
	now := mkParam(f, f.Params[1])
	var its []iter
	for _, rt := range roundTrips(paths) {
		for _, v := range visits2(rt) {
			if !isList("Chunks")(v.Coll) || !v.Full || isStoreTrip(rt) {
				continue
			}
			in := map[*Ev]bool{}
			for _, e := range innermost(rt) {
				in[e] = true
			}
			if !in[v.At] {
				continue
			}
			its = append(its, v)
			e := end(c.elemFlds(rt.Path, rt.Evs, isList("Chunks"), v.Idx))
			c.check("old chunks", name+" passed", where(c, v.At), e != nil && rt.Path.St.pc.entails(mkLt0(linOf(e).add(linOf(now), -1))), "a chunk is passed over as old which has not ended")
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		sts := storesOf(evs, infT, "Chunks")
		old := firstLoad(evs, infT, "Chunks")
		var k *Term
		stop := false
		for _, x := range exits(evs) {
			for _, it := range its {
				if !sameLoop(it.RT.Info, x.Aux.(*LoopInfo)) || k != nil {
					continue
				}
				k = it.Idx
				if exhausted([]iter{it}, p, x, nil) {
					stop = true
					continue
				}
				e := end(c.elemFlds(p, evs, isList("Chunks"), k))
				stop = e != nil && p.St.pc.entailsLe(now, e, 0)
			}
		}
		if len(sts) == 0 {
			empty := old != nil && p.St.pc.entailsLe(lenOf(old), int0, 0)
			c.check("old chunks", name+" kept", at, empty || k != nil && stop && p.St.pc.entails(mkEq(k, int0)), "chunks which have ended are not removed")
			bad := false
			for _, e := range evs {
				bad = bad || e.Kind == "copy" || e.Kind == "store" && e.Addr.Op == "iaddr"
			}
			c.check("old chunks", name+" untouched", at, !bad, "chunks are overwritten")
			continue
		}
		if !c.check("old chunks", name, where(c, sts[0]), len(sts) == 1 && k != nil && old != nil, "chunks are removed without looking at when they end") {
			continue
		}
		c.check("old chunks", name+" all", where(c, sts[0]), stop, "the removal does not stop at the first chunk which has not ended")
		ok, note := segCases(p.St.pc.push(mkNot(mkLt0(linOf(k)))).push(mkNot(mkLt0(linOf(lenOf(old)).add(linOf(k), -1)))), evs, func(s *segState) bool {
			return s.equal(sts[0].Val, []seg{srcSeg(int0, sub2(lenOf(old), k), old, k)})
		})
		c.check("old chunks", name+" rest", where(c, sts[0]), ok, "what remains is not the list without the chunks passed over: %s", note)
	}
}

// visits2: elements of which only a field is loaded count, too.
func visits2(rt roundTrip) []iter {
	r := visits(rt)
	seen := map[*Term]bool{}
	for _, v := range r {
		seen[v.Idx] = true
	}
	for _, e := range rt.Evs {
		if e.Kind == "load" && e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Args[0].Op == "iaddr" && !seen[e.Addr.Args[0].Args[1]] {
			if it, ok := asVisit(rt, &Ev{Kind: "load", Addr: e.Addr.Args[0], Instr: e.Instr, Val: e.Val}); ok {
				seen[it.Idx] = true
				it.At = e
				r = append(r, it)
			}
		}
	}
	return r
}

// isStoreTrip: the iteration overwrites elements (the loop which clears the rest).
func isStoreTrip(rt roundTrip) bool {
	for _, e := range innermost(rt) {
		if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "iaddr" {
			return true
		}
	}
	return false
}

func removePausesRule(c *Ctx) {
	name := infP + "removeOldPauses"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	song := mkParam(f, f.Params[1])
	ok1 := func(p *Path, evs []*Ev, r *Term) bool {
		pc := p.St.pc
		if pc.entails(mkEq(r, int0)) {
			return true
		}
		fl := c.elemFlds(p, evs, isList("Pauses"), r)
		pl, ix := fl["playing"], fl["toggleIndex"]
		if pl == nil || ix == nil || !pc.entails(pl) {
			return false
		}
		// the resume precedes the song
		for _, g := range songStarts(evs, song) {
			if pc.entailsLe(ix, g, 0) {
				return true
			}
		}
		return false
	}
	carried := map[*Term]bool{}
	for _, rt := range roundTrips(paths) {
		if isStoreTrip(rt) {
			continue
		}
		for i, s := range rt.Info.Sym {
			nx := rt.Info.Next[i]
			if s == nil || nx == nil || !isInteger(s.Typ) || rt.Info.Init[i] == nil {
				continue
			}
			good := isInt(rt.Info.Init[i], 0) && (nx == s || ok1(rt.Path, rt.Path.Events(), nx))
			if prev, seen := carried[s]; seen {
				good = good && prev
			}
			carried[s] = good
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		sts := storesOf(evs, infT, "Pauses")
		if len(sts) == 0 {
			bad := false
			for _, e := range evs {
				bad = bad || e.Kind == "copy" || e.Kind == "store" && e.Addr.Op == "iaddr"
			}
			c.check("old pauses", name+" untouched", at, !bad, "pauses are overwritten")
			continue
		}
		old := firstLoad(evs, infT, "Pauses")
		if !c.check("old pauses", name, where(c, sts[0]), len(sts) == 1 && old != nil, "the pauses are changed more than once") {
			continue
		}
		found, note := false, ""
		var ks []*Term
		for _, x := range exits(evs) {
			ks = append(ks, x.Aux.(*LoopInfo).Sym...)
		}
		for _, e := range evs {
			if e.Kind == "load" && e.Addr.Op == "iaddr" {
				ks = append(ks, e.Addr.Args[1])
			}
			if e.Kind == "load" && e.Addr.Op == "faddr" && e.Addr.Args[0].Op == "iaddr" {
				ks = append(ks, e.Addr.Args[0].Args[1])
			}
		}
		for _, k := range ks {
			if found || k == nil || !isInteger(k.Typ) && k.Op != "lin" || !carried[k] && !ok1(p, evs, k) {
				continue
			}
			found, note = segCases(p.St.pc.push(mkNot(mkLt0(linOf(k)))).push(mkNot(mkLt0(linOf(lenOf(old)).add(linOf(k), -1)))), evs, func(s *segState) bool {
				return s.equal(sts[0].Val, []seg{srcSeg(int0, sub2(lenOf(old), k), old, k)})
			})
		}
		c.check("old pauses", name, where(c, sts[0]), found, "not exactly the pauses before the last resume preceding the current song are removed: %s", note)
	}
}

// songStarts: the start index of the song given as a parameter.
func songStarts(evs []*Ev, song *Term) []*Term {
	var r []*Term
	for _, e := range evs {
		if e.Kind == "load" && e.Val != nil {
			if b, k := fieldOf(e.Val); b == song && k == "startIndex" {
				r = append(r, e.Val)
			}
		}
	}
	return r
}

// ---- S08 ----

func infoerState(c *Ctx) {
	currentSampleRule(c)
	currentSongRule(c)
	pauseAccountRule(c)
	infoRule(c)
	c.include("S07", rules("chunk end", "old chunks"))
	nextLineRule(c)
	buildLineRule(c)
	historyRule(c)
	for _, r := range []string{"sample", "song", "pauses", "information", "lyrics: next line", "lyrics: line", "lyrics: lines"} {
		c.need(r, 1)
	}
}

func currentSampleRule(c *Ctx) {
	name := infP + "currentSample"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(infP + "removeOldChunks")})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	now := mkParam(f, f.Params[1])
	for _, p := range rets(paths) {
		evs := p.Events()
		rm := calls(evs, infP+"removeOldChunks")
		if !c.check("sample", name+" ended", at, len(rm) == 1 && rm[0].Args[1] == now, "chunks which have ended are not removed first") {
			continue
		}
		list := lastLoadOf(evs, len(evs), infT, "Chunks")
		r := strip(p.Rets[0])
		if list != nil && p.St.pc.entailsLe(lenOf(list), int0, 0) {
			c.check("sample", name+" none", at, isInt(r, 0), "the current sample is not 0 without chunks")
			continue
		}
		fl := c.elemFlds(p, evs, isList("Chunks"), int0)
		start, idx := fl["startTime"], fl["startIndex"]
		ok := start != nil && idx != nil
		for _, e := range evs {
			if e.Kind == "load" && e.Val != nil && (e.Val == start || e.Val == idx) {
				ok = ok && e.N > rm[0].N
			}
		}
		if ok {
			ok = false
			want := polyOf(now).add(polyOf(start), -1)
			for _, a := range linOf(r).atoms() {
				rest := polyOf(r).add(polyOf(a), -1)
				if polyEq(rest, polyOf(idx)) && perSecond(a, func(q poly) bool { return polyHas(q, want, "schedule.SampleRate") }, true) {
					ok = true
				}
			}
		}
		c.check("sample", name, at, ok, "the current sample is not the first sample of the oldest chunk plus the time since its start times the sample rate")
	}
}

// polyHas: q is want times the named variable.
func polyHas(q, want poly, name string) bool {
	for _, m := range q {
		for _, v := range m.at {
			if nameOf(v) == name {
				return polyEq(q, want.mul(poly{monoKey([]*Term{v}): {1, []*Term{v}}}))
			}
		}
	}
	return false
}

func currentSongRule(c *Ctx) {
	name := infP + "currentSong"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	sample := mkParam(f, f.Params[1])
	begun := func(p *Path, evs []*Ev, idx *Term) (yes, no bool, fl map[string]*Term) {
		fl = c.elemFlds(p, evs, isList("Songs"), idx)
		s := fl["startIndex"]
		if s == nil {
			return
		}
		pc := linkConv(p.St.pc, evs)
		lt := mkLt0(linOf(s).add(linOf(sample), -1))
		return pc.entails(lt), pc.entails(mkNot(lt)), fl
	}
	sameSong := func(r *Term, p *Path, fl map[string]*Term) bool {
		g := c.fieldsOf(p, r, nil)
		n := 0
		for k, v := range g {
			if v == nil || v != fl[k] {
				return false
			}
			n++
		}
		return n > 0
	}
	isNone := func(r *Term, p *Path) bool {
		g := c.fieldsOf(p, r, nil)
		return g["startIndex"] != nil && isInt(g["startIndex"], 0) && g["length"] != nil && isInt(g["length"], 0)
	}
	var its []iter
	kind := map[*Term]bool{} // song-valued loop-carried values which hold the last song begun
	part := map[*Term]map[string]bool{}
	for _, rt := range roundTrips(paths) {
		for _, v := range visits2(rt) {
			if !isList("Songs")(v.Coll) {
				continue
			}
			its = append(its, v)
			yes, no, fl := begun(rt.Path, rt.Evs, v.Idx)
			switch {
			case v.Rev:
				c.check("song", name+" passed", where(c, v.At), no, "a song which has begun is passed over")
			case v.Full:
				for s, nx := range carriedOf(rt) {
					g := yes && sameSong(nx, rt.Path, fl) || no && nx == s
					if old, ok := kind[s]; ok {
						g = g && old
					}
					kind[s] = g
					// field by field
					for k, x := range flat(fl) {
						h := yes && nx == x || no && nx == s
						if old, ok := part[s][k]; ok {
							h = h && old
						}
						if part[s] == nil {
							part[s] = map[string]bool{}
						}
						part[s][k] = h
					}
				}
			default:
				c.fail("song", name+" passed", where(c, v.At), "the songs are not looked at one after the other")
			}
		}
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		r := p.Rets[0]
		all := false
		if x := flat(c.fieldsOf(p, r, nil)); len(x) > 0 {
			all = true
			for k, v := range x {
				all = all && part[v][k]
			}
		}
		done := false
		for _, x := range exits(evs) {
			done = done || exhausted(its, p, x, nil)
		}
		if done && (kind[strip(r)] || all) {
			c.check("song", name, at, true, "")
			continue
		}
		ok := false
		list := firstLoad(evs, infT, "Songs")
		if isNone(r, p) {
			if list != nil && p.St.pc.entailsLe(lenOf(list), int0, 0) {
				ok = true
			}
			for _, x := range exits(evs) {
				ok = ok || exhausted(its, p, x, nil)
			}
			c.check("song", name+" none", at, ok, "no song is shown although one has begun")
			continue
		}
		for _, x := range exits(evs) {
			for _, it := range its {
				if sameLoop(it.RT.Info, x.Aux.(*LoopInfo)) && it.Rev {
					if yes, _, fl := begun(p, evs, it.Idx); yes && sameSong(r, p, fl) {
						ok = true
					}
				}
			}
		}
		c.check("song", name, at, ok, "the current song is not the last one which began before the current sample")
	}
}

// flat replaces struct values by their fields.
func flat(m map[string]*Term) map[string]*Term {
	r := map[string]*Term{}
	for k, v := range m {
		if v != nil && v.Op == "struct" {
			st, ok := v.Typ.Underlying().(*types.Struct)
			if ok && st.NumFields() == len(v.Args) {
				in := map[string]*Term{}
				for i, a := range v.Args {
					in[k+"."+st.Field(i).Name()] = a
				}
				for q, x := range flat(in) {
					r[q] = x
				}
				continue
			}
		}
		r[k] = v
	}
	return r
}

// carriedOf: the values an iteration carries on, and what it leaves in them.
func carriedOf(rt roundTrip) map[*Term]*Term {
	r := map[*Term]*Term{}
	for i, s := range rt.Info.Sym {
		if s != nil && rt.Info.Next[i] != nil {
			r[s] = rt.Info.Next[i]
		}
	}
	for s, n := range rt.Info.MNext {
		r[s] = n
	}
	return r
}

// linkConv adds that the conversions between signed and unsigned of indices keep their value (indices are below 2^63).
func linkConv(pc *PC, evs []*Ev) *PC {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "conv" && len(t.Args) == 1 && isUnsigned(t.Args[0].Typ) && isInteger(t.Typ) && !isUnsigned(t.Typ) && isIndexVal(t.Args[0]) {
			pc = pc.push(mkEq0(linOf(t).add(linOf(t.Args[0]), -1)))
			pc = pc.push(mkNot(mkLt0(linOf(t))))
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, l := range pc.lits() {
		walk(l)
	}
	for _, e := range evs {
		walk(e.Val)
	}
	return pc
}

// isIndexVal: a sample index announced by the server.
func isIndexVal(t *Term) bool {
	_, k := fieldOf(t)
	return k == "startIndex" || k == "toggleIndex"
}

// pauseAccountRule decides the account of paused samples by induction over the toggles.
//
// Let W be the paused samples after the song's first sample S, and b the toggle which began the current pause. The values
// carried from toggle to toggle determine the result: while playing it is P, and while paused Q plus the current sample.
// The account is right if P = W while playing and Q = W - max(b, S) while paused. As toggles are in order, W is 0 as
// long as all of them precede S. So every toggle must leave:
//
//	not yet reached, or no change of state: the account as it is
//	resume at u:  P' = Q + u if S <= u, and P' = 0 if u < S
//	pause at t:   Q' = P - t if S <= t, and Q' = -S if t < S
func pauseAccountRule(c *Ctx) {
	name := infP + "pausesInCurrentSong"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	sample, song := mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	// the result as a function of the carried values
	var state, P, Q *Term
	var its []iter
	loops := 0
	for _, rt := range roundTrips(paths) {
		for _, v := range visits2(rt) {
			if isList("Pauses")(v.Coll) && v.Full {
				its = append(its, v)
			}
		}
		loops++
	}
	if !c.check("pauses", name+" all", at, loops > 0 && len(its) > 0, "the toggles are not looked at one after the other") {
		return
	}
	var ends []*Path
	for _, p := range rets(paths) {
		ok := false
		for _, x := range exits(p.Events()) {
			ok = ok || exhausted(its, p, x, nil)
		}
		if list := firstLoad(p.Events(), infT, "Pauses"); !ok && list != nil && p.St.pc.entailsLe(lenOf(list), int0, 0) {
			c.check("pauses", name+" none", at, isInt(p.Rets[0], 0) && p.Rets[1] == mkBool(true), "without toggles, it is not playing without pauses")
			continue
		}
		if c.check("pauses", name+" all", at, ok, "not all toggles are taken into account") {
			ends = append(ends, p)
		}
	}
	carried := map[*Term]bool{}
	init := map[*Term]*Term{}
	for _, rt := range roundTrips(paths) {
		for s := range carriedOf(rt) {
			carried[s] = true
			init[s], _ = rt.Info.flow(s)
		}
	}
	for _, p := range ends {
		r, y := p.Rets[0], p.Rets[1]
		for s := range carried {
			if !isBoolT(s.Typ) {
				continue
			}
			switch {
			case p.St.pc.entails(s) && (y == s || y == mkBool(true)):
				state = s
				if P != nil && P != r {
					c.fail("pauses", name+" result", at, "the result while playing is not one expression")
				}
				P = r
			case p.St.pc.entails(mkNot(s)) && (y == s || y == mkBool(false)):
				state = s
				q := mkSub(r, sample, types.Typ[types.Int64])
				if Q != nil && Q != q {
					c.fail("pauses", name+" result", at, "the result while paused is not one expression")
				}
				Q = q
			}
		}
	}
	if !c.check("pauses", name+" result", at, state != nil && P != nil && Q != nil, "the result does not depend on whether it is playing") {
		return
	}
	onlyCarried := func(t *Term) bool {
		for _, a := range linOf(t).atoms() {
			if !carried[a] {
				return false
			}
		}
		return true
	}
	c.check("pauses", name+" account", at, onlyCarried(P) && onlyCarried(Q), "while paused, the samples since the pause began are not counted up to the current sample")
	c.check("pauses", name+" begin", at, init[state] == mkBool(true) && isInt(subst(P, init), 0), "before the first toggle, it is not playing without pauses")
	for _, rt := range roundTrips(paths) {
		evs := rt.Path.Events()
		nx := carriedOf(rt)
		w := where(c, evs[len(evs)-1])
		if nx[state] == nil {
			c.fail("pauses", name+" toggle", w, "the toggles are not looked at in one loop")
			continue
		}
		var fl map[string]*Term
		for _, v := range visits2(rt) {
			if isList("Pauses")(v.Coll) && v.Full {
				fl = c.elemFlds(rt.Path, evs, isList("Pauses"), v.Idx)
			}
		}
		play, t := fl["playing"], fl["toggleIndex"]
		if !c.check("pauses", name+" toggle", w, play != nil && t != nil, "a toggle is passed over without looking at it") {
			continue
		}
		S := conv64(fieldTermOf(song, "startIndex"))
		T := conv64(t)
		base := linkTerms(linkConv(rt.Path.St.pc, evs), S, T)
		nextOf := func(x *Term) *Term { return subst(x, nx) }
		eq := func(pc *PC, a, b *Term) bool { return pc.entails(mkEq0(linOf(a).add(linOf(b), -1))) }
		lt := func(a, b *Term) *Term { return mkLt0(linOf(a).add(linOf(b), -1)) }
		feasible := func(ls ...*Term) (*PC, bool) {
			pc := base
			for _, l := range ls {
				if pc.entails(mkNot(l)) {
					return nil, false
				}
				pc = pc.push(l)
			}
			return boolClose(pc)
		}
		note := func(ok bool, what string) {
			c.check("pauses", name+" toggle", w, ok, "%s", what)
		}
		reached := lt(T, sample)
		// nothing changes
		for _, on := range []bool{true, false} {
			cur, acc := state, P
			if !on {
				cur, acc = mkNot(state), Q
			}
			same := play
			if !on {
				same = mkNot(play)
			}
			for _, why := range [][]*Term{{mkNot(reached)}, {same}} {
				if pc, ok := feasible(append(why, cur)...); ok {
					s := nx[state]
					keep := s == state || on && pc.entails(s) || !on && pc.entails(mkNot(s))
					note(keep && eq(pc, nextOf(acc), acc), "a toggle which is not reached yet, or does not change the state, changes the account")
				}
			}
		}
		// a resume
		for _, early := range []bool{true, false} {
			sc := lt(T, S)
			if !early {
				sc = mkNot(sc)
			}
			if pc, ok := feasible(reached, mkNot(state), play, sc); ok {
				want := mkAdd(Q, T, types.Typ[types.Int64])
				if early {
					want = mkInt(0, types.Typ[types.Int64])
				}
				note(pc.entails(nx[state]) && eq(pc, nextOf(P), want), "a resume does not add the samples of the pause within the song")
			}
			if pc, ok := feasible(reached, state, mkNot(play), sc); ok {
				want := mkSub(P, T, types.Typ[types.Int64])
				if early {
					want = mkSub(mkInt(0, nil), S, types.Typ[types.Int64])
				}
				note(pc.entails(mkNot(nx[state])) && eq(pc, nextOf(Q), want), "a pause does not begin to count at the toggle, or at the beginning of the song")
			}
		}
	}
}

// fieldTermOf is the field of a struct value.
func fieldTermOf(s *Term, fld string) *Term {
	st, ok := s.Typ.Underlying().(*types.Struct)
	if !ok {
		return s
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fld {
			return mkField(s, i, st.Field(i).Type())
		}
	}
	return s
}

func linkTerms(pc *PC, ts ...*Term) *PC {
	for _, t := range ts {
		if t.Op == "conv" {
			pc = pc.push(mkEq0(linOf(t).add(linOf(t.Args[0]), -1))).push(mkNot(mkLt0(linOf(t))))
		}
	}
	return pc
}

// boolClose adds what the (in)equalities of booleans imply; false if they contradict the rest.
func boolClose(pc *PC) (*PC, bool) {
	for _, pos := range []bool{true, false} {
		for _, q := range eqLits(pc, pos) {
			if !isBoolT(q[0].Typ) || !isBoolT(q[1].Typ) {
				continue
			}
			for _, o := range [][2]*Term{{q[0], q[1]}, {q[1], q[0]}} {
				for _, v := range []bool{true, false} {
					x, y := o[0], o[1]
					if !v {
						x = mkNot(x)
					}
					if v != pos {
						y = mkNot(y)
					}
					if pc.entails(x) {
						if pc.entails(mkNot(y)) {
							return nil, false
						}
						pc = pc.push(y)
					}
				}
			}
		}
	}
	return pc, true
}

// unconv: the operand of a conversion to a float.
func unconv(t *Term) *Term {
	t = strip(t)
	if t.Op == "conv" {
		return t.Args[0]
	}
	return t
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func infoRule(c *Ctx) {
	name := infP + "Info"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(infP+"currentSample", infP+"currentSong", infP+"removeOldPauses", infP+"pausesInCurrentSong")})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	now := mkParam(f, f.Params[1])
	for _, p := range rets(paths) {
		evs := p.Events()
		cs, cg, rp, ps := calls(evs, infP+"currentSample"), calls(evs, infP+"currentSong"), calls(evs, infP+"removeOldPauses"), calls(evs, infP+"pausesInCurrentSong")
		if !c.check("information", name+" parts", at, len(cs) == 1 && len(cg) == 1 && len(ps) == 1 && len(rp) <= 1, "sample, song and pauses are not each determined once") {
			continue
		}
		sample, song := cs[0].Res, cg[0].Res
		c.check("information", name+" consistent", at, cs[0].Args[1] == now && cg[0].Args[1] == sample && ps[0].Args[1] == sample && ps[0].Args[2] == song && (len(rp) == 0 || rp[0].Args[1] == song), "song and pauses are not those of the current sample and song")
		paused, playing := comp(ps[0], 0), comp(ps[0], 1)
		fl := c.fieldsOf(p, p.Rets[0], nil)
		for k, v := range map[string]*Term{"CurrentSong": song, "CurrentSample": sample, "Now": now, "PausesInCurrentSong": paused, "Playing": playing} {
			c.check("information", name+" "+k, at, fl[k] == v, "the %s shown is not the one determined", k)
		}
		_, vf := fieldOf(fl["Volume"])
		c.check("information", name+" Volume", at, vf == "Volume", "the volume shown is not the one received")
		start := conv64(fieldTermOf(song, "startIndex"))
		length := fieldTermOf(song, "length")
		pc := linkTerms(linkConv(p.St.pc, evs), start)
		inSong := pc.entails(mkLt0(linOf(start).add(linOf(sample), -1)))
		zero := func(k string) bool {
			v := fl[k]
			if v == nil {
				return false
			}
			x, ok := floatConst(v)
			return isInt(v, 0) || ok && x == 0
		}
		if !inSong || pc.entails(mkEq0(linOf(fieldTermOf(song, "startIndex")))) {
			out := pc.entails(mkNot(mkLt0(linOf(start).add(linOf(sample), -1)))) || pc.entails(mkEq0(linOf(fieldTermOf(song, "startIndex"))))
			c.check("information", name+" no song", at, out && zero("TimeInSong") && zero("ProgressInSong") && zero("SongLength"), "a position is shown without a current song, or none with one")
			continue
		}
		in := polyOf(sample).add(polyOf(start), -1).add(polyOf(paused), -1)
		sec := poly{"": {1000000000, nil}}
		c.check("information", name+" TimeInSong", at, perSecond(fl["TimeInSong"], func(q poly) bool { return polyEq(q, in.mul(sec)) }, false), "the time in the song is not the samples since its beginning without pauses divided by the sample rate")
		c.check("information", name+" SongLength", at, perSecond(fl["SongLength"], func(q poly) bool { return polyEq(q, polyOf(length).mul(sec)) }, false), "the length shown is not that of the song")
		pr := strip(fl["ProgressInSong"])
		switch {
		case zero("ProgressInSong"):
			c.check("information", name+" ProgressInSong", at, pc.entailsLe(length, int0, 0), "no progress is shown although the song has a length")
		default:
			ok := pr != nil && isApp(pr, "f/") && polyEq(polyOf(unconv(pr.Args[0])), in) && polyEq(polyOf(unconv(pr.Args[1])), polyOf(length)) && pc.entails(mkLt0(linOf(length).scale(-1)))
			c.check("information", name+" ProgressInSong", at, ok, "the progress is not the samples since the song's beginning without pauses divided by its (positive) length")
		}
	}
}

// msOf: t is the time in milliseconds.
func msOf(t, dur *Term) bool {
	t = strip(t)
	return isApp(t, "quo") && strip(t.Args[0]) == dur && isInt(t.Args[1], 1000000)
}

// milli finds the time in milliseconds among what the path knows.
func milli(pc *PC, evs []*Ev, dur *Term) *Term {
	var r *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || r != nil {
			return
		}
		if msOf(t, dur) {
			r = t
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, l := range pc.lits() {
		walk(l)
	}
	return r
}

func nextLineRule(c *Ctx) {
	name := "cmd/music-sync-infoer.lyricsNextLine"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	song, dur := mkParam(f, f.Params[0]), mkParam(f, f.Params[1])
	lyrics := fieldTermOf(song, "lyrics")
	isLyrics := func(t *Term) bool { return strip(t) == lyrics }
	// begun: the line at idx begins after now, or not
	begin := func(p *Path, evs []*Ev, idx *Term) (later, not bool) {
		for _, e := range evs {
			if e.Kind != "load" || e.Addr == nil || e.Addr.Op != "iaddr" || !isLyrics(e.Addr.Args[0]) || e.Addr.Args[1] != idx {
				continue
			}
			line := e.Val
			if p.St.pc.entailsLe(lenOf(line), int0, 0) || nilAt(p.St.pc, line) {
				return false, true
			}
			ts := c.elemFlds(p, evs, func(t *Term) bool { return t == line }, int0)["Timestamp"]
			ms := milli(p.St.pc, evs, dur)
			if ts == nil || ms == nil {
				continue
			}
			lt := mkLt0(linOf(ms).add(linOf(ts), -1))
			return p.St.pc.entails(lt), p.St.pc.entails(mkNot(lt))
		}
		return
	}
	var its []iter
	for _, rt := range roundTrips(paths) {
		ok := false
		for _, v := range visits(rt) {
			if isLyrics(v.Coll) && v.Full {
				its = append(its, v)
				_, not := begin(rt.Path, rt.Evs, v.Idx)
				ok = not
			}
		}
		c.check("lyrics: next line", name+" passed", where(c, rt.Evs[0]), ok, "a line which has not begun is passed over")
	}
	for _, p := range rets(paths) {
		evs := p.Events()
		r := p.Rets[0]
		ok := p.St.pc.entailsLe(lenOf(lyrics), int0, 0) && p.St.pc.entails(mkEq(r, int0))
		for _, x := range exits(evs) {
			if exhausted(its, p, x, nil) {
				for _, it := range its {
					ok = ok || sameLoop(it.RT.Info, x.Aux.(*LoopInfo)) && (p.St.pc.entails(mkEq(r, lenOf(lyrics))) || it.Idx == r)
				}
				continue
			}
			for _, it := range its {
				if sameLoop(it.RT.Info, x.Aux.(*LoopInfo)) && p.St.pc.entails(mkEq(it.Idx, r)) {
					later, _ := begin(p, evs, it.Idx)
					ok = ok || later
				}
			}
		}
		c.check("lyrics: next line", name, at, ok, "the next line is not the first one which has not begun")
	}
}

func buildLineRule(c *Ctx) {
	name := "cmd/music-sync-infoer.lyricsBuildLine"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	index, song, dur := mkParam(f, f.Params[0]), mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	lyrics := fieldTermOf(song, "lyrics")
	isLine := func(t *Term) bool {
		t = strip(t)
		return t != nil && t.Op == "ld" && t.Args[0].Op == "iaddr" && strip(t.Args[0].Args[0]) == lyrics && t.Args[0].Args[1] == index
	}
	var its []iter
	good := map[*Term]bool{}
	for _, rt := range roundTrips(paths) {
		var fl map[string]*Term
		for _, v := range visits2(rt) {
			if isLine(v.Coll) && v.Full {
				its = append(its, v)
				fl = c.elemFlds(rt.Path, rt.Evs, isLine, v.Idx)
			}
		}
		w := where(c, rt.Evs[0])
		ts, capt, ms := fl["Timestamp"], fl["Caption"], milli(rt.Path.St.pc, rt.Evs, dur)
		if !c.check("lyrics: line", name+" atoms", w, ts != nil && ms != nil, "an atom is passed over without looking at it") {
			continue
		}
		// an atom is shown from 100 ms before its time, at the latest when it begins
		lead := func(k int64) *Term { return mkLt0(linOf(ts).add(linOf(ms), -1).add(linConst(k), -1)) }
		now := rt.Path.St.pc.entails(lead(100))
		not := rt.Path.St.pc.entails(mkNot(lead(100)))
		for s, nx := range carriedOf(rt) {
			if b, ok := s.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				continue
			}
			i0, _ := rt.Info.flow(s)
			v, isC := constStr(i0)
			g := isC && v == "" && (not && nx == s || now && capt != nil && nx == mkCat(s.Typ, s, capt))
			if old, ok := good[s]; ok {
				g = g && old
			}
			good[s] = g
		}
	}
	for _, p := range rets(paths) {
		r := p.Rets[0]
		pc := p.St.pc
		if v, isC := constStr(r); isC && v == "" {
			out := pc.entails(mkLt0(linOf(index))) || pc.entailsLe(lenOf(lyrics), index, 0)
			for _, e := range p.Events() {
				if e.Kind == "load" && isLine(e.Val) && pc.entailsLe(lenOf(e.Val), int0, 0) {
					out = true
				}
			}
			c.check("lyrics: line", name+" none", at, out, "a line is not shown although it exists")
			continue
		}
		ok := false
		for _, x := range exits(p.Events()) {
			ok = ok || exhausted(its, p, x, nil)
		}
		c.check("lyrics: line", name, at, ok && good[r], "a line does not consist of the captions of all atoms which have begun, in order")
	}
}

func historyRule(c *Ctx) {
	name := "cmd/music-sync-infoer.lyricsHistory"
	next, build := "cmd/music-sync-infoer.lyricsNextLine", "cmd/music-sync-infoer.lyricsBuildLine"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet(next, build)})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	height, song, dur := mkParam(f, f.Params[0]), mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
	lyrics := fieldTermOf(song, "lyrics")
	var its []mapIter
	rts := roundTrips(paths)
	for _, rt := range rts {
		ok := false
		for _, m := range c.mapIters(rt) {
			e, _ := resOf(m.Val)
			if e == nil || e.Name != build || m.Idx == nil || !m.Full {
				continue
			}
			n := calls(rt.Path.Events(), next)
			if len(n) != 1 || n[0].Res == nil {
				continue
			}
			want := mkSub(mkSub(n[0].Res, m.Idx, types.Typ[types.Int]), int1, types.Typ[types.Int])
			ok = len(n) == 1 && n[0].Args[0] == song && n[0].Args[1] == dur && subst(e.Args[0], lockstep(rts, rt.Info, m.Idx)) == want && e.Args[1] == song && e.Args[2] == dur
			its = append(its, m)
		}
		c.check("lyrics: lines", name+" line", where(c, rt.Evs[0]), ok, "a line is not the one so many before the next line")
	}
	for _, p := range rets(paths) {
		r := p.Rets[0]
		pc := p.St.pc
		c.check("lyrics: lines", name+" height", at, pc.entails(mkEq(lenOf(r), height)) || lenOf(r) == height, "there is not one line for every line of height")
		if len(exits(p.Events())) == 0 {
			c.check("lyrics: lines", name+" none", at, pc.entailsLe(lenOf(lyrics), int0, 0) || pc.entailsLe(height, int0, 0) || nilAt(pc, lyrics), "lyrics are not shown")
			continue
		}
		ok := false
		for _, x := range exits(p.Events()) {
			for _, m := range its {
				if sameLoop(m.RT.Info, x.Aux.(*LoopInfo)) && m.Dst == r && (pc.entailsLe(lenOf(r), m.Idx, 0)) && c.onEveryTrip(paths, m.RT.Info, m.Dst) {
					ok = true
				}
			}
		}
		c.check("lyrics: lines", name, at, ok, "not every line is made")
	}
}

func conv64(t *Term) *Term {
	return mk("conv", types.Typ[types.Int64], typeKey(types.Typ[types.Int64]), t)
}
