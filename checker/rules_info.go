package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "S03", Title: "Song information reaches the infoers complete and unchanged",
		Statement: "When a song starts, exactly one announcement is broadcast with the index of its first sample, its file name, its length, its lyrics and its title, artist and album, each in its own place; every lyrics line and every atom of it is passed on in order with timestamp and caption, for any lyrics. The infoer stores exactly what was announced, for announcements without metadata, too.",
		Over:      []string{"inputs"}, Quant: "all songs, lyrics (any number of lines and atoms, empty ones included) and metadata", Why: "Tests convert one example and do not follow the information through both programs.",
		Files:     []string{"schedule/server_state.go", "cmd/music-sync-infoer/infoer_package_handler.go"},
		Mech:      [][2]string{{"server", "serverState.createNewSongHandler, toWireLyrics"}, {"infoer", "infoerPackageHandler.HandleNewSongInfo"}},
		Technique: absTech + "; nested copy loops are decided by induction (every index is visited once, in order, and the element stored is made of the element read at the same index)",
		Run:       songInfo,
	})
	register(&Prop{
		ID: "S04", Title: "Pause changes are recorded in order, broadcast, and forgotten only when no longer needed",
		Statement: "Every pause or resume reported by the playlist is appended to the server's list with its state and sample index, and then broadcast, as one and the same message. Only entries at the front of the list are ever dropped, and only up to the last resume before the newest song began, which itself is kept: all pauses which can overlap the newest song remain, in order.",
		Over:      []string{"histories"}, Quant: "all histories of pauses, resumes and songs", Why: "Tests check some fixed lists.",
		Files:     []string{"schedule/server_state.go"},
		Mech:      [][2]string{{"recording", "serverState.createPauseToggleHandler"}, {"dropping", "serverState.removablePauses, removeOldPauses"}},
		Technique: segTech + "; the number of entries dropped is followed through the loop by the conditions of the iteration which set it", Run: pauseList,
	})
	register(&Prop{
		ID: "S05", Title: "A client which joins late gets the current state and misses nothing after it",
		Statement: "A client subscribing to the audio channel is sent the current volume; one subscribing to the meta channel is sent the current volume, the newest song if there is one, and all recorded pauses in order - to itself only. The subscription is entered before this state is read, and every change of it is stored before it is broadcast, so that a change is always contained in the state sent or broadcast to the new client or both.",
		Over:      []string{"histories", "schedules"}, Quant: "all interleavings of a subscription with volume, song and pause changes", Why: "A lost update needs a change exactly between subscription and state transfer; tests run these steps one after the other.",
		Files:     []string{"schedule/server_state.go", "schedule/server_state_commands.go", "comm/package_handler.go"},
		Mech:      [][2]string{{"state transfer", "serverState.createClientHandler"}, {"subscription", "serverPackageHandler.HandleSubscribeChannelRequest"}},
		Technique: "ordering rules (store before broadcast, subscribe before read) over all abstract paths, and value flow from the stored state to the messages", Run: lateJoin,
	})
	register(&Prop{
		ID: "S06", Title: "The volume set is the volume every client uses",
		Statement: "The volume command stores exactly the number given and broadcasts the same number; a player and an infoer store exactly the number they receive. Before any command the server and the players have the same volume.",
		Over:      []string{"inputs", "histories"}, Quant: "all volumes", Why: "The parts are in three programs; no test connects them.",
		Files:     []string{"schedule/server_state_commands.go", "schedule/server.go", "playback/playback.go", "cmd/music-sync-infoer/state.go"},
		Mech:      [][2]string{{"command", "serverState.volumeCommand"}, {"player", "playback.SetVolume"}, {"infoer", "infoerPackageHandler.HandleSetVolumeRequest"}},
		Technique: absTech, Note: "That messages reach the clients is C02, their handlers C01, the application of the volume P05.", Run: volumePath,
	})
}

// mapIter is an iteration of a loop which makes one element of a slice.
type mapIter struct {
	RT       roundTrip
	Dst, Val *Term
	Idx      *Term // nil if appended
	Flds     map[string]*Term
	At       *Ev
	Full     bool // positions 0, 1, 2, ... (or appended to an empty slice)
	Grown    bool
}

// mapIters lists the slices an iteration adds an element to.
func (c *Ctx) mapIters(rt roundTrip) []mapIter {
	var r []mapIter
	in := map[*Ev]bool{}
	for _, e := range innermost(rt) {
		in[e] = true
	}
	for _, e := range rt.Evs {
		if !in[e] {
			continue
		}
		switch {
		case e.Kind == "store" && e.Addr != nil && e.Addr.Op == "iaddr" && e.Addr.Args[0].Op != "alloc":
			it, ok := asVisit(rt, e)
			if !ok {
				continue
			}
			r = append(r, mapIter{RT: rt, Dst: it.Coll, Val: e.Val, Idx: it.Idx, At: e, Full: it.Full})
		case e.Kind == "store" && e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Args[0].Op == "iaddr":
			ia := e.Addr.Args[0]
			it, ok := asVisit(rt, &Ev{Kind: "store", Addr: ia, Val: e.Val, Instr: e.Instr})
			if !ok {
				continue
			}
			n := len(r) - 1
			if n < 0 || r[n].Dst != it.Coll || r[n].Idx != it.Idx || r[n].Flds == nil {
				r = append(r, mapIter{RT: rt, Dst: it.Coll, Idx: it.Idx, At: e, Full: it.Full, Flds: map[string]*Term{}})
				n = len(r) - 1
			}
			r[n].Flds[fieldName(e.Addr)] = e.Val
		case e.Kind == "append" && e.Res != nil && e.Res.Op == "append" && len(e.Res.Args) == 2 && e.Res.Aux != "spread":
			s := e.Res.Args[0]
			if init, next := rt.Info.flow(s); init != nil && next == e.Res {
				r = append(r, mapIter{RT: rt, Dst: s, Val: e.Res.Args[1], At: e, Grown: true, Full: rt.Path.St.pc.entails(mkEq(lenOf(init), int0))})
			}
		}
	}
	for i := range r {
		if r[i].Flds == nil {
			r[i].Flds = c.fieldsOf(rt.Path, r[i].Val, r[i].At)
		}
	}
	return r
}

// fieldsOf: the fields of a struct value, or of the object a pointer was made to point to.
func (c *Ctx) fieldsOf(p *Path, v *Term, at *Ev) map[string]*Term {
	r := map[string]*Term{}
	v = strip(v)
	if v == nil || v.Typ == nil {
		return r
	}
	t := v.Typ
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		switch {
		case v.Op == "struct" && i < len(v.Args):
			r[n] = v.Args[i]
		case v.Op == "alloc":
			r[n] = c.fieldIn(p, v, n, at)
		}
	}
	return r
}

// elemField: v is field fld of the element of coll at idx (idx nil: returned).
func elemField(v *Term, fld string) (coll, idx *Term) {
	b, n := fieldOf(v)
	if b == nil || n != fld {
		return nil, nil
	}
	if b.Op == "ld" {
		b = b.Args[0]
	}
	if b.Op != "iaddr" {
		return nil, nil
	}
	return b.Args[0], b.Args[1]
}

// copyLoop decides that a slice is made of the elements of another one, in order: every iteration makes one element
// whose fields are those of the element read at the same position. nested: field of the destination element -> the
// slice made by an inner loop must be made of that field of the source element.
type copied struct {
	Dst, Src *Term
	Iters    []mapIter
	SrcIt    iter
}

// copies finds the slices made element by element by a loop (of any element type).
func (c *Ctx) copies(paths []*Path, want map[string]string) []copied {
	var r []copied
	bad := map[*Term]bool{} // slices which get something else on some way round
	for _, rt := range roundTrips(paths) {
		for _, m := range c.mapIters(rt) {
			if !m.Full {
				bad[m.Dst] = true
				continue
			}
			var src, si *Term
			ok := len(want) > 0
			for d, s := range want {
				cl, ix := elemField(m.Flds[d], s)
				if cl == nil || src != nil && (cl != src || ix != si) {
					ok = false
					break
				}
				src, si = cl, ix
			}
			if !ok || m.Idx != nil && m.Idx != si {
				bad[m.Dst] = true
				continue
			}
			for _, v := range visits(rt) {
				if v.Coll == src && v.Idx == si && v.Full {
					r = append(r, copied{Dst: m.Dst, Src: src, Iters: []mapIter{m}, SrcIt: v})
					break
				}
			}
			// fields read without loading the element
			if len(r) == 0 || r[len(r)-1].Dst != m.Dst {
				for _, e := range rt.Evs {
					if e.Kind == "load" && e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Args[0].Op == "iaddr" && e.Addr.Args[0].Args[0] == src && e.Addr.Args[0].Args[1] == si {
						if it, ok := asVisit(rt, &Ev{Kind: "load", Addr: e.Addr.Args[0], Instr: e.Instr, Val: e.Val}); ok && it.Full {
							r = append(r, copied{Dst: m.Dst, Src: src, Iters: []mapIter{m}, SrcIt: it})
							break
						}
					}
				}
			}
		}
	}
	var w []copied
	for _, k := range r {
		if !bad[k.Dst] && c.onEveryTrip(paths, k.SrcIt.RT.Info, k.Dst) {
			w = append(w, k)
		}
	}
	return w
}

// onEveryTrip: every way round the loop makes an element of dst.
func (c *Ctx) onEveryTrip(paths []*Path, li *LoopInfo, dst *Term) bool {
	for _, rt := range roundTrips(paths) {
		if !sameLoop(rt.Info, li) {
			continue
		}
		ok := false
		for _, m := range c.mapIters(rt) {
			ok = ok || m.Dst == dst
		}
		if !ok {
			return false
		}
	}
	return true
}

// fromWhole: dst, at the end of path p, holds one element per element of the source it was made of; returns the source.
func (c *Ctx) fromWhole(cs []copied, p *Path, dst *Term) (*Term, *copied) {
	for i := range cs {
		k := &cs[i]
		if k.Dst != dst {
			continue
		}
		grown := k.Iters[0].Grown
		if !grown && !p.St.pc.entails(mkEq(lenOf(dst), lenOf(k.Src))) {
			continue
		}
		for _, e := range exits(p.Events()) {
			if sameLoop(e.Aux.(*LoopInfo), k.SrcIt.RT.Info) && exhausted([]iter{k.SrcIt}, p, e, k.Src) {
				return k.Src, k
			}
		}
	}
	return nil, nil
}

func songInfo(c *Ctx) {
	wireRule(c)
	songHandlerRule(c)
	infoerSongRule(c)
	songStartRule(c)
	c.include("C01", about("NewSongInfo"))
	c.include("C02", about("NewSongInfo"))
	c.include("P02", rules("index reported"))
}

// songStartRule: every song which is played is reported to the new song handler, once, before its samples are pushed.
func songStartRule(c *Ctx) {
	name := "(*playback.Playlist).StreamLoop"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, opaque: opaqueSet("playback.getStreamer", "(*playback.Playlist).nextSong", "(*playback.Playlist).shouldBreakStreamerPushLoop", "(*playback.Playlist).callPauseToggleHandler")})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	for _, rt := range roundTrips(paths) {
		pc := rt.Path.St.pc
		open := calls(rt.Evs, "playback.getStreamer")
		if len(open) == 0 {
			for _, e := range rt.Evs {
				if dynamicOf(e) == "newSongHandler" {
					c.fail("song start", "StreamLoop", where(c, e), "a song is announced in a round which plays none, or more than once")
				}
			}
			continue
		}
		song, s := open[0].Args[0], comp(open[0], 0)
		var h *Term
		var told []*Ev
		begun := false
		for _, e := range rt.Evs {
			switch {
			case e.Kind == "load" && e.Addr.Op == "faddr" && fieldName(e.Addr) == "newSongHandler":
				h = e.Val
			case isCall(e, "(github.com/faiface/beep.Streamer).Stream") || e.Kind == "send" || isCall(e, "(*playback.Playlist).callPauseToggleHandler"):
				begun = true
			case (e.Kind == "go" || e.Kind == "call") && dynamicOf(e) == "newSongHandler":
				c.check("song start", "before its samples", where(c, e), !begun, "a song is announced after its first samples were pushed")
				told = append(told, e)
			}
		}
		if notNilAt(pc, errOf(open[0])) {
			c.check("song start", "unplayable", at, len(told) == 0, "a song which cannot be played is announced")
			continue
		}
		if h != nil && nilAt(pc, h) {
			c.check("song start", "no handler", at, len(told) == 0, "a missing handler is called")
			continue
		}
		if !c.check("song start", "once", at, len(told) == 1, "a song which is played is announced %d times", len(told)) {
			continue
		}
		e := told[0]
		for _, a := range e.Args {
			switch b, ok := a.Typ.Underlying().(*types.Basic); {
			case !ok:
			case b.Kind() == types.String:
				cur := lastStore(rt.Evs, plT, "currentSong")
				l, n := fieldOf(a)
				isCur := cur != nil && strip(cur.Val) == strip(song) && cur.N < e.N && l != nil && n == "currentSong"
				c.check("song start", "name", where(c, e), strip(a) == strip(song) || isCur, "a song is announced with another name than its own")
			case b.Kind() == types.Int64 || b.Kind() == types.Int:
				x := strip(a)
				l, _ := resOf(x)
				c.check("song start", "length", where(c, e), l != nil && strings.HasSuffix(l.Name, ".Len") && len(l.Args) > 0 && strip(l.Args[0]) == strip(s), "a song is announced with another length than its own")
			}
		}
	}
	for _, k := range []string{"song start"} {
		c.need(k, 4)
	}
}

func wireRule(c *Ctx) {
	name := "schedule.toWireLyrics"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true})
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	atoms := c.copies(paths, map[string]string{"Timestamp": "Timestamp", "Caption": "Caption"})
	lyrics := mkParam(f, f.Params[0])
	lineOK := map[*Term]bool{}
	var its []iter
	for _, rt := range roundTrips(paths) {
		for _, m := range c.mapIters(rt) {
			v := m.Flds["Atoms"]
			if v == nil {
				if m.Val != nil && namedOf(strip(m.Val).Typ) == "comm.NewSongInfo_SongLyricsLine" {
					empty := false
					for _, vi := range visits(rt) {
						empty = empty || vi.Coll == lyrics && (m.Idx == nil || m.Idx == vi.Idx) && rt.Path.St.pc.entails(mkEq(lenOf(strip(vi.Elem)), int0))
					}
					c.check("lyrics line", name+" without atoms", where(c, m.At), empty, "a line can lose its atoms")
				}
				continue
			}
			src, _ := c.fromWhole(atoms, rt.Path, v)
			ok := false
			var it *iter
			for _, vi := range visits(rt) {
				if vi.Coll == lyrics && vi.Full && (m.Idx == nil || m.Idx == vi.Idx) && src != nil && strip(src) == strip(vi.Elem) {
					x := vi
					it, ok = &x, true
				}
			}
			if c.check("lyrics line", name, where(c, m.At), ok && m.Full && c.onEveryTrip(paths, rt.Info, m.Dst), "a line of the wire lyrics does not consist of all atoms of the line at the same position, in order, with timestamp and caption") {
				lineOK[m.Dst] = true
				its = append(its, *it)
			}
		}
	}
	for _, p := range rets(paths) {
		r := p.Rets[0]
		ok := false
		for _, e := range exits(p.Events()) {
			ok = ok || exhausted(its, p, e, lyrics)
		}
		if p.St.pc.entailsLe(lenOf(lyrics), int0, 0) && p.St.pc.entails(mkEq(lenOf(r), int0)) {
			continue
		}
		grown := false
		for _, e := range exits(p.Events()) {
			for _, s := range e.Aux.(*LoopInfo).Sym {
				grown = grown || s == r
			}
		}
		c.check("lyrics", name, at, ok && lineOK[r] && (grown || p.St.pc.entails(mkEq(lenOf(r), lenOf(lyrics)))), "the wire lyrics do not have one line for every line of the lyrics")
	}
	c.need("lyrics line", 1)
	c.need("lyrics", 1)
}

func songHandlerRule(c *Ctx) {
	n := 0
	for _, f := range c.builders("comm.NewSongInfo") {
		if c.p.pkgRel(f) != "schedule" {
			continue
		}
		n++
		at := c.at(f.Pos())
		name := fnName(f)
		var par []*Term
		for _, q := range f.Params {
			if _, isPtr := q.Type().Underlying().(*types.Pointer); !isPtr {
				par = append(par, mkParam(f, q))
			}
		}
		if !c.check("song announced", name, at, len(par) == 3, "the announcement is not made where the playlist reports a song") {
			continue
		}
		paths := c.exploreFn(f, opt{opaque: opaqueSet("schedule.toWireLyrics")})
		for _, p := range rets(paths) {
			if p.Root.Kind != "entry" {
				continue
			}
			var ms []sent
			for _, s := range sentAll(p.Events(), p, paths) {
				if s.Typ == "comm.NewSongInfo" {
					ms = append(ms, s)
				}
			}
			if !c.check("song announced", name, at, len(ms) == 1, "a song is announced %d times", len(ms)) {
				continue
			}
			m := ms[0]
			w := where(c, m.At)
			for i, fld := range []string{"FirstSampleOfSongIndex", "SongFileName", "SongLength"} {
				c.check("song fields", fld, w, strip(c.field(m, fld)) == par[i], "%s is not what the playlist reported", fld)
			}
			lyr := strip(c.field(m, "Lyrics"))
			ok := false
			if e, _ := resOf(lyr); e != nil && e.Name == "schedule.toWireLyrics" {
				if l, _ := resOf(e.Args[0]); l != nil && l.Name == "(metadata.LyricsProvider).CollectLyrics" {
					ok = strip(l.Args[1]) == par[1]
				}
			}
			c.check("song fields", "Lyrics", w, ok, "the lyrics announced are not those of the song")
			md := c.field(m, "Metadata")
			for _, fld := range []string{"Title", "Artist", "Album"} {
				ok := false
				if md != nil {
					b, k := fieldOf(c.fieldIn(p, md, fld, m.At))
					if e, _ := resOf(b); e != nil && e.Name == "(metadata.Provider).CollectMetadata" && k == fld {
						ok = strip(e.Args[1]) == par[1]
					}
				}
				c.check("song fields", fld, w, ok, "the %s announced is not that of the song", fld)
			}
			_, sf := fieldOf(m.Recv)
			c.check("song announced", name+" to all", w, sf == "sender", "the song is not announced with the server's sender")
		}
	}
	c.check("song announced", "schedule", "schedule/server_state.go", n == 1, "songs are announced in %d places", n)
}

func (c *Ctx) infoerHandler(method string) *ssa.Function {
	t := c.handlerTypes()["cmd/music-sync-infoer"]
	if t == nil {
		c.fail("handler", method, "cmd/music-sync-infoer", "the infoer's package handler was not found")
		return nil
	}
	f := c.method(t, method)
	c.check("handler", method, c.posOf(f), f != nil && len(f.Params) == 3, "the infoer does not handle %s", method)
	return f
}

// appendedTo: the element appended to a field of the infoer's state on path p: the store, the old list and the element's fields.
func (c *Ctx) appendedTo(p *Path, field string) (st *Ev, old *Term, flds map[string]*Term) {
	sts := storesOf(p.Events(), "cmd/music-sync-infoer.state", field)
	if len(sts) == 0 {
		sts = storesOf(p.Events(), "music-sync-infoer.state", field)
	}
	if len(sts) != 1 {
		return nil, nil, nil
	}
	st = sts[0]
	v := st.Val
	if v.Op != "append" || v.Aux == "spread" || len(v.Args) != 2 {
		return st, nil, nil
	}
	return st, v.Args[0], c.fieldsOf(p, v.Args[1], st)
}

func infoerSongRule(c *Ctx) {
	f := c.infoerHandler("HandleNewSongInfo")
	if f == nil {
		return
	}
	at := c.at(f.Pos())
	m := mkParam(f, f.Params[1])
	// decoded messages contain no nil elements
	paths := c.exploreFn(f, opt{noSpawn: true, init: nonNilParams})
	atoms := c.copies(paths, map[string]string{"Timestamp": "Timestamp", "Caption": "Caption"})
	isMsg := func(v *Term, fld string) bool { b, k := fieldOf(v); return b == m && k == fld }
	lineOK := map[*Term]bool{}
	var its []iter
	for _, rt := range roundTrips(paths) {
		for _, mi := range c.mapIters(rt) {
			if mi.Val == nil {
				continue
			}
			if s, ok := mi.Val.Typ.Underlying().(*types.Slice); !ok || namedOf(s.Elem()) != "metadata.LyricsAtom" {
				continue
			}
			src, _ := c.fromWhole(atoms, rt.Path, strip(mi.Val))
			ok := false
			for _, vi := range visits(rt) {
				b, k := fieldOf(src)
				if isMsg(vi.Coll, "Lyrics") && vi.Full && (mi.Idx == nil || mi.Idx == vi.Idx) && b != nil && k == "Atoms" && strip(b) == strip(vi.Elem) {
					ok = true
					its = append(its, vi)
				}
			}
			if c.check("infoer lyrics line", "HandleNewSongInfo", where(c, mi.At), ok && mi.Full && c.onEveryTrip(paths, rt.Info, mi.Dst), "a line of lyrics does not consist of all atoms of the line at the same position, in order, with timestamp and caption") {
				lineOK[mi.Dst] = true
			}
		}
	}
	for _, p := range rets(paths) {
		pc := p.St.pc
		st, old, fl := c.appendedTo(p, "Songs")
		if !c.check("infoer song", "HandleNewSongInfo", at, st != nil && old != nil && len(fl) > 0, "an announcement does not add exactly one song") {
			continue
		}
		_, ofld := fieldOf(old)
		c.check("infoer song", "HandleNewSongInfo others", where(c, st), ofld == "Songs", "songs announced earlier are lost")
		for d, s := range map[string]string{"filename": "SongFileName", "startIndex": "FirstSampleOfSongIndex", "length": "SongLength"} {
			c.check("infoer song fields", d, where(c, st), isMsg(fl[d], s), "%s is not the announced %s", d, s)
		}
		l := fl["lyrics"]
		ok := false
		for _, e := range exits(p.Events()) {
			for _, it := range its {
				ok = ok || exhausted([]iter{it}, p, e, it.Coll)
			}
		}
		var msgLyrics *Term
		for _, e := range p.Events() {
			if e.Kind == "load" && isMsg(e.Val, "Lyrics") {
				msgLyrics = e.Val
			}
		}
		empty := msgLyrics != nil && pc.entailsLe(lenOf(msgLyrics), int0, 0)
		c.check("infoer lyrics", "HandleNewSongInfo", where(c, st), empty && pc.entails(mkEq(lenOf(l), int0)) || ok && lineOK[l], "the lyrics stored are not the ones announced")
		md := c.fieldsOf(p, fl["metadata"], st)
		var mm *Term
		for _, e := range p.Events() {
			if e.Kind == "load" && isMsg(e.Val, "Metadata") {
				mm = e.Val
			}
		}
		if !c.check("infoer metadata", "HandleNewSongInfo", where(c, st), mm != nil, "the metadata announced is not looked at") {
			continue
		}
		for _, k := range []string{"Title", "Artist", "Album"} {
			b, fld := fieldOf(md[k])
			v, isC := constStr(md[k])
			c.check("infoer metadata", k, where(c, st), nilAt(pc, mm) && isC && v == "" || b != nil && b == strip(mm) && fld == k, "the %s stored is not the one announced", k)
		}
	}
	for _, r := range []string{"infoer lyrics line", "infoer song fields", "infoer lyrics", "infoer metadata"} {
		c.need(r, 1)
	}
}

func constStr(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if t == zeroOf(t.Typ) {
		return "", true
	}
	return t.strVal()
}

const ssT = "schedule.serverState"

func pauseList(c *Ctx) {
	n := 0
	var recorder *ssa.Function
	for _, f := range c.builders("comm.PauseInfo") {
		if c.p.pkgRel(f) != "schedule" {
			continue
		}
		n++
		recorder = f
		at, name := c.at(f.Pos()), fnName(f)
		var par []*Term
		for _, q := range f.Params {
			if _, isPtr := q.Type().Underlying().(*types.Pointer); !isPtr {
				par = append(par, mkParam(f, q))
			}
		}
		if !c.check("recorded", name, at, len(par) == 2, "pauses are not recorded where the playlist reports them") {
			continue
		}
		paths := c.exploreFn(f, opt{opaque: opaqueSet("(*schedule.serverState).removeOldPauses")})
		for _, p := range rets(paths) {
			if p.Root.Kind != "entry" {
				continue
			}
			evs := p.Events()
			var ms []sent
			for _, s := range sentAll(evs, p, paths) {
				if s.Typ == "comm.PauseInfo" {
					ms = append(ms, s)
				}
			}
			if !c.check("broadcast", name, at, len(ms) == 1, "a pause is broadcast %d times", len(ms)) {
				continue
			}
			m := ms[0]
			w := where(c, m.At)
			c.check("message", "Playing", w, strip(c.field(m, "Playing")) == par[0], "the message does not carry the new state")
			c.check("message", "ToggleSampleIndex", w, strip(c.field(m, "ToggleSampleIndex")) == par[1], "the message does not carry the sample index of the change")
			_, sf := fieldOf(m.Recv)
			c.check("broadcast", name+" to all", w, sf == "sender", "the pause is not broadcast with the server's sender")
			sts := storesOf(evs, ssT, "pauses")
			if !c.check("recorded", name, at, len(sts) == 1 && sts[0].N < m.At.N, "a pause is not recorded exactly once before it is broadcast") {
				continue
			}
			old := lastLoadOf(evs, posOf(evs, sts[0]), ssT, "pauses")
			ok, note := segCases(p.St.pc, evs, func(s *segState) bool {
				return old != nil && s.equal(sts[0].Val, []seg{srcSeg(int0, lenOf(old), old, int0), elemSeg(lenOf(old), m.Msg)})
			})
			c.check("recorded", name+" order", where(c, sts[0]), ok, "the pause is not appended to the pauses recorded: %s", note)
		}
	}
	c.check("recorded", "schedule", "schedule/server_state.go", n == 1, "pauses are recorded in %d places", n)
	// how many can be dropped
	name := "(*schedule.serverState).removablePauses"
	f := c.p.fn(name)
	paths := c.explore(name, opt{noSpawn: true, onRoot: nil})
	if f != nil {
		ok1 := func(pc *PC, evs []*Ev, r *Term) bool {
			// r is 0, or the position of a resume not after the beginning of the newest song
			if pc.entails(mkEq(r, int0)) {
				return true
			}
			xs := map[*Term]bool{} // the pause at r (the lock is held by the caller, so every load of it is the same)
			for _, e := range evs {
				if e.Kind == "load" && e.Addr.Op == "iaddr" && (e.Addr.Args[1] == r || pc.entails(mkEq(e.Addr.Args[1], r))) {
					if _, fld := fieldOf(e.Addr.Args[0]); fld == "pauses" {
						xs[e.Val] = true
					}
				}
			}
			resumed, early := false, false
			for _, e := range evs {
				if e.Kind != "load" {
					continue
				}
				b, fld := fieldOf(e.Val)
				if b == nil || !xs[b] {
					continue
				}
				if fld == "Playing" {
					resumed = resumed || pc.entails(e.Val)
				}
				if fld == "ToggleSampleIndex" {
					for _, g := range evs {
						if g.Kind == "load" {
							if sb, sf := fieldOf(g.Val); sf == "FirstSampleOfSongIndex" && sb != nil {
								if _, nf := fieldOf(sb); nf == "newestSong" && pc.entailsLe(e.Val, g.Val, 0) {
									early = true
								}
							}
						}
					}
				}
			}
			return resumed && early
		}
		carried := map[*Term]bool{}
		for _, rt := range roundTrips(paths) {
			for i, s := range rt.Info.Sym {
				nx := rt.Info.Next[i]
				if s == nil || nx == nil || !isInteger(s.Typ) || rt.Info.Init[i] == nil {
					continue
				}
				good := isInt(rt.Info.Init[i], 0) && (nx == s || ok1(rt.Path.St.pc, rt.Path.Events(), nx))
				if prev, seen := carried[s]; seen {
					good = good && prev
				}
				carried[s] = good
			}
		}
		for _, p := range rets(paths) {
			r := strip(p.Rets[0])
			c.check("droppable", name, c.at(f.Pos()), carried[r] || ok1(p.St.pc, p.Events(), r), "more can be dropped than the pauses before the last resume which precedes the newest song")
		}
		c.need("droppable", 1)
	}
	// dropping
	name = "(*schedule.serverState).removeOldPauses"
	g := c.p.fn(name)
	for _, p := range rets(c.explore(name, opt{noSpawn: true, opaque: opaqueSet("(*schedule.serverState).removablePauses")})) {
		evs := p.Events()
		sts := storesOf(evs, ssT, "pauses")
		rm := calls(evs, "(*schedule.serverState).removablePauses")
		if len(sts) == 0 {
			bad := false
			for _, e := range evs {
				if e.Kind == "store" && e.Addr.Op == "iaddr" || e.Kind == "copy" {
					bad = true
				}
			}
			c.check("dropped", name, c.at(g.Pos()), !bad, "recorded pauses are overwritten")
			continue
		}
		old := lastLoadOf(evs, posOf(evs, sts[0]), ssT, "pauses")
		if !c.check("dropped", name, where(c, sts[0]), len(sts) == 1 && len(rm) == 1 && old != nil, "pauses are dropped without looking at which can be") {
			continue
		}
		c.check("dropped", name+" at once", where(c, sts[0]), sameSection(evs, rm[0], sts[0]), "the list can change between deciding which pauses are dropped and dropping them")
		k := rm[0].Res
		ok, note := segCases(p.St.pc.push(mkNot(mkLt0(linOf(k)))).push(mkNot(mkLt0(linOf(lenOf(old)).add(linOf(k), -1)))), evs, func(s *segState) bool {
			return s.equal(sts[0].Val, []seg{srcSeg(int0, sub2(lenOf(old), k), old, k)})
		})
		c.check("dropped", name, where(c, sts[0]), ok, "not exactly the droppable pauses at the front are dropped: %s", note)
	}
	for _, h := range c.p.fns {
		for _, s := range storesToField(h, ssT, "pauses") {
			via := []string{name}
			if recorder != nil {
				via = append(via, fnName(recorder))
			}
			c.check("changed elsewhere", fnName(h), c.at(s.Pos()), freshObject(s) || c.onlyVia(h, via...), "the recorded pauses are changed elsewhere")
		}
	}
	for _, r := range []string{"recorded", "message", "dropped"} {
		c.need(r, 1)
	}
}

// ---- S05 ----

func lateJoin(c *Ctx) {
	// the state transfer
	var handler *ssa.Function
	for _, f := range c.builders("comm.SetVolumeRequest") {
		ps := f.Signature.Params()
		if ps.Len() == 2 && namedOf(ps.At(0).Type()) == "comm.Channel" && namedOf(ps.At(1).Type()) == "comm.MessageSender" {
			handler = f
		}
	}
	if !c.check("state sent", "client handler", "schedule/server_state.go", handler != nil, "no handler sends the state to new clients") {
		return
	}
	at, name := c.at(handler.Pos()), fnName(handler)
	np := len(handler.Params)
	ch, s := mkParam(handler, handler.Params[np-2]), mkParam(handler, handler.Params[np-1])
	chanVal := func(n string) *Term {
		if k, ok := c.p.by["comm"].Members["Channel_"+n].(*ssa.NamedConst); ok {
			return mkInt(k.Value.Int64(), ch.Typ)
		}
		return nil
	}
	audio, meta := chanVal("AUDIO"), chanVal("META")
	if audio == nil || meta == nil {
		c.fail("state sent", name, at, "the channels were not found")
		return
	}
	paths := c.exploreFn(handler, opt{noSpawn: true})
	// pauses sent one by one
	var its []iter
	for _, rt := range roundTrips(paths) {
		in := map[*Ev]bool{}
		for _, e := range innermost(rt) {
			in[e] = true
		}
		for _, m := range sentIn(rt.Path) {
			if !in[m.Ev] {
				continue
			}
			ok := false
			for _, v := range visits(rt) {
				if strip(v.Elem) == m.Msg && v.Full {
					ok = true
					its = append(its, v)
				}
			}
			c.check("pauses in order", name, where(c, m.Ev), ok && m.Recv == s && m.Ev.Kind != "go", "the recorded pauses are not sent one by one in order to the new client")
		}
	}
	nA, nM := 0, 0
	for _, p := range rets(paths) {
		pc := p.St.pc
		evs := p.Events()
		isA, isM := pc.entails(mkEq(ch, audio)), pc.entails(mkEq(ch, meta))
		notA, notM := pc.entails(mkNot(mkEq(ch, audio))), pc.entails(mkNot(mkEq(ch, meta)))
		vol, song := 0, 0
		pauses := false
		for _, m := range sentIn(p) {
			c.check("to itself", name, where(c, m.Ev), m.Recv == s, "the state is not sent to the new client only")
			switch m.Typ {
			case "comm.SetVolumeRequest":
				b, f := fieldOf(c.field(m, "Volume"))
				if c.check("volume sent", name, where(c, m.Ev), b != nil && namedOf(b.Typ) == ssT && f == "volume", "the volume sent is not the current one") {
					vol++
				}
			case "comm.NewSongInfo":
				b, f := fieldOf(m.Msg)
				if c.check("song sent", name, where(c, m.Ev), b != nil && namedOf(b.Typ) == ssT && f == "newestSong", "the song sent is not the newest one") {
					song++
				}
			}
		}
		for i, e := range evs {
			if e.Kind != "loopexit" {
				continue
			}
			for _, it := range its {
				if !sameLoop(it.RT.Info, e.Aux.(*LoopInfo)) || !exhausted([]iter{it}, p, e, it.Coll) {
					continue
				}
				cur := lastLoadOf(evs, i, ssT, "pauses")
				ok, _ := segCases(pc, evs, func(g *segState) bool {
					return cur != nil && (strip(it.Coll) == cur || g.equal(it.Coll, []seg{srcSeg(int0, lenOf(cur), cur, int0)}))
				})
				pauses = pauses || ok
			}
		}
		noSong := false
		for _, e := range evs {
			if e.Kind == "load" && e.Val != nil && namedOf(e.Val.Typ) == "comm.NewSongInfo" {
				if _, f := fieldOf(e.Val); f == "newestSong" && nilAt(pc, e.Val) {
					noSong = true
				}
			}
		}
		noPauses := false
		if cur := lastLoadOf(evs, len(evs), ssT, "pauses"); cur != nil {
			noPauses = pc.entailsLe(lenOf(cur), int0, 0)
		}
		if !notA {
			nA++
			c.check("state sent", "audio", at, vol == 1, "a new player is sent the volume %d times", vol)
		}
		if !notM {
			nM++
			c.check("state sent", "meta: volume", at, vol == 1, "a new infoer is sent the volume %d times", vol)
			c.check("state sent", "meta: song", at, song == 1 || noSong, "a new infoer is not sent the newest song")
			c.check("state sent", "meta: pauses", at, pauses || noPauses, "a new infoer is not sent all recorded pauses")
		}
		_, _ = isA, isM
	}
	c.check("state sent", "audio", at, nA > 0, "players are not handled")
	c.check("state sent", "meta", at, nM > 0, "infoers are not handled")
	// installed
	installed := 0
	for _, in := range c.sitesOf("comm.SetNewClientHandler") {
		installed++
		for _, a := range c.closuresOf(in.Common().Args[0]) {
			c.check("installed", "SetNewClientHandler", c.at(in.Pos()), a == handler, "another handler is called for new clients")
		}
	}
	c.check("installed", "SetNewClientHandler", "schedule/server.go", installed == 1, "the client handler is set %d times", installed)
	// subscribe before the state is read
	if t := c.handlerTypes()["comm"]; t != nil {
		f := c.method(t, "HandleSubscribeChannelRequest")
		if c.check("subscribed first", "HandleSubscribeChannelRequest", c.posOf(f), f != nil, "subscriptions are not handled") {
			req, conn := mkParam(f, f.Params[1]), mkParam(f, f.Params[2])
			for _, p := range rets(c.exploreFn(f, opt{noSpawn: true, init: nonNilParams, opaque: opaqueSet("(*comm.multiMessageSender).Subscribe", "comm.getNewClientHandler")})) {
				evs := p.Events()
				sub := calls(evs, "(*comm.multiMessageSender).Subscribe")
				if !c.check("subscribed first", "Subscribe", c.at(f.Pos()), len(sub) == 1, "a subscription request subscribes %d times", len(sub)) {
					continue
				}
				b, k := fieldOf(sub[0].Args[2])
				c.check("subscribed first", "Subscribe arguments", where(c, sub[0]), sub[0].Args[1] == conn && b == req && k == "Channel", "not the requesting connection is subscribed to the requested channel")
				for _, e := range evs {
					args := dynArgs(e)
					if (e.Kind != "call" && e.Kind != "go") || len(args) != 2 || namedOf(args[0].Typ) != "comm.Channel" {
						continue
					}
					c.check("subscribed first", "handler", where(c, e), e.N > sub[0].N, "the state is read before the client is subscribed: a change in between is lost")
					b, k := fieldOf(args[0])
					flds := c.fieldsOf(p, strip(args[1]), e)
					own := false
					for _, v := range flds {
						own = own || v == conn
					}
					c.check("handler arguments", "handler", where(c, e), b == req && k == "Channel" && own, "the handler is not called with the requested channel and a sender for the requesting connection")
					c.count["handler called"]++
				}
			}
			c.need("handler called", 1)
		}
	}
	// changes are stored before they are broadcast
	type change struct{ typ, field string }
	for _, x := range []change{{"comm.NewSongInfo", "newestSong"}, {"comm.SetVolumeRequest", "volume"}, {"comm.PauseInfo", "pauses"}} {
		n := 0
		for _, f := range c.builders(x.typ) {
			if f == handler || c.p.pkgRel(f) != "schedule" {
				continue
			}
			paths := c.exploreFn(f, opt{opaque: opaqueSet("schedule.toWireLyrics", "(*schedule.serverState).removeOldPauses")})
			for _, p := range rets(paths) {
				if p.Root.Kind != "entry" {
					continue
				}
				for _, m := range sentAll(p.Events(), p, paths) {
					if m.Typ != x.typ {
						continue
					}
					n++
					sts := storesOf(p.Events(), ssT, x.field)
					ok := false
					for _, st := range sts {
						if st.N < m.At.N {
							switch x.field {
							case "newestSong":
								ok = strip(st.Val) == m.Msg
							case "volume":
								ok = strip(st.Val) == strip(c.field(m, "Volume"))
							case "pauses":
								ok = true // S04
							}
						}
					}
					c.check("stored first", x.field, where(c, m.At), ok, "the new %s is broadcast before it is stored: a client joining in between never gets it", x.field)
				}
			}
		}
		c.check("stored first", x.field, "schedule", n > 0, "changes of %s are not broadcast", x.field)
	}
}

// sitesOf: the calls of a function in the module.
func (c *Ctx) sitesOf(name string) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && fnName(g) == name {
						r = append(r, ci)
					}
				}
			}
		}
	}
	return r
}

// closuresOf: the functions a function value can be (through calls which return closures).
func (c *Ctx) closuresOf(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{unbound(x)}
	case *ssa.MakeClosure:
		return []*ssa.Function{unbound(x.Fn.(*ssa.Function))}
	case *ssa.ChangeType:
		return c.closuresOf(x.X)
	case *ssa.MakeInterface:
		return c.closuresOf(x.X)
	case *ssa.Phi:
		var r []*ssa.Function
		for _, e := range x.Edges {
			r = append(r, c.closuresOf(e)...)
		}
		return r
	case *ssa.Call:
		var r []*ssa.Function
		if g := x.Call.StaticCallee(); g != nil {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					r = append(r, c.closuresOf(ret.Results[0])...)
				}
			}
		}
		return r
	}
	return nil
}

// unbound: the method behind a bound method value.
func unbound(f *ssa.Function) *ssa.Function {
	if !strings.HasPrefix(f.Synthetic, "bound method") {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(*ssa.Call); ok {
				if g := k.Call.StaticCallee(); g != nil {
					return g
				}
			}
		}
	}
	return f
}

// ---- S06 ----

// volumeCommandRule: a volume command stores and broadcasts the number given.
func (c *Ctx) volumeCommandRule() {
	n := 0
	for _, f := range c.builders("comm.SetVolumeRequest") {
		if ps := f.Signature.Params(); c.p.pkgRel(f) != "schedule" || ps.Len() == 2 && namedOf(ps.At(0).Type()) == "comm.Channel" {
			continue
		}
		n++
		name, at := fnName(f), c.at(f.Pos())
		paths := c.exploreFn(f, opt{})
		for _, p := range rets(paths) {
			if p.Root.Kind != "entry" {
				continue
			}
			var ms []sent
			for _, m := range sentAll(p.Events(), p, paths) {
				if m.Typ == "comm.SetVolumeRequest" {
					ms = append(ms, m)
				}
			}
			sts := storesOf(p.Events(), ssT, "volume")
			if !c.check("volume command", name, at, len(ms) == len(sts) && len(ms) <= 1, "the volume is stored %d times and broadcast %d times", len(sts), len(ms)) {
				continue
			}
			if len(ms) == 0 {
				for _, e := range calls(p.Events(), "strconv.ParseFloat") {
					c.check("volume command", name+" every number", where(c, e), notNilAt(p.St.pc, extract(e.Res, 1, types.Universe.Lookup("error").Type())), "a number given is neither stored nor broadcast")
				}
				continue
			}
			v := strip(sts[0].Val)
			num := v.Op == "ex" && v.Aux.(int) == 0 && isApp(v.Args[0], "strconv.ParseFloat") && isInt(v.Args[0].Args[1], 64)
			if c.check("volume command", name+" number", where(c, sts[0]), num, "the volume stored is not the number given") {
				c.check("volume command", name+" valid", where(c, sts[0]), nilAt(p.St.pc, extract(v.Args[0], 1, types.Universe.Lookup("error").Type())), "the volume is set although no number was given")
			}
			c.check("volume broadcast", name, where(c, ms[0].At), strip(c.field(ms[0], "Volume")) == v, "the volume broadcast is not the one stored")
			_, sf := fieldOf(ms[0].Recv)
			c.check("volume broadcast", name+" to all", where(c, ms[0].At), sf == "sender", "the volume is not broadcast with the server's sender")
		}
	}
	c.check("volume command", "schedule", "schedule", n == 1, "the volume is set in %d places", n)
	c.need("volume broadcast", 1)
}

func volumePath(c *Ctx) {
	c.volumeCommandRule()
	c.include("C01", about("SetVolumeRequest"))
	c.include("C02", about("SetVolumeRequest"))
	c.include("S05", either(rules("volume sent"), both(rules("state sent"), about("audio", "volume"))))
	c.include("P05", rules("sample", "volume set"))
	// the player
	f := c.p.fn("playback.SetVolume")
	for _, p := range rets(c.explore("playback.SetVolume", opt{noSpawn: true})) {
		sts := storesToGlobal(p.Events(), "playback.volume")
		c.check("player", "playback.SetVolume", c.at(f.Pos()), len(sts) == 1 && sts[0].Val == mkParam(f, f.Params[0]), "the player does not store the volume it receives")
	}
	c.need("player", 1)
	// the infoer
	if h := c.infoerHandler("HandleSetVolumeRequest"); h != nil {
		m := mkParam(h, h.Params[1])
		for _, p := range rets(c.exploreFn(h, opt{noSpawn: true, init: nonNilParams})) {
			var st []*Ev
			for _, e := range p.Events() {
				if e.Kind == "store" && e.Addr.Op == "faddr" && fieldName(e.Addr) == "Volume" {
					st = append(st, e)
				}
			}
			ok := false
			if len(st) == 1 {
				b, k := fieldOf(st[0].Val)
				ok = b == m && k == "Volume"
			}
			c.check("infoer", "HandleSetVolumeRequest", c.at(h.Pos()), ok, "the infoer does not store the volume it receives")
		}
	}
	// initial values
	var server, player []float64
	for _, g := range c.p.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k, isC := s.Val.(*ssa.Const)
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structField(fa) == "volume" && namedOf(ptrElem(fa.X.Type())) == ssT && isC {
					server = append(server, k.Float64())
				}
				if gl, ok := s.Addr.(*ssa.Global); ok && short(gl.Pkg.Pkg.Path())+"."+gl.Name() == "playback.volume" {
					if isC {
						player = append(player, k.Float64())
					} else {
						c.check("initial volume", fnName(g), c.at(s.Pos()), c.onlyVia(g, "playback.SetVolume"), "the player's volume is changed without being told to")
					}
				}
			}
		}
	}
	c.check("initial volume", "server and player", "schedule/server.go", len(server) == 1 && len(player) == 1 && server[0] == player[0], "server and player start with different volumes (%v and %v)", server, player)
}
