package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const segTech = "path-sensitive abstract interpretation of the SSA with a slice-content domain (segments over symbolic index ranges), compared with the specified content on every path"

const absTech = "path-sensitive abstract interpretation of the SSA (value numbering, linear path conditions, helpers inlined); every abstract path must satisfy the rule"

func init() {
	register(&Prop{
		ID: "P01", Title: "Playlist operations change exactly the song they are about",
		Statement: "For every playlist and every index: AddSong appends the song, InsertSong puts it at the index clipped to [0, length] and keeps all other songs in order, RemoveSong removes and returns exactly the song at the index clipped to [0, length-1] (nothing and \"\" on an empty playlist) and keeps the others in order, SetPos moves to the given position with negative positions clipped to 0. Songs returns all songs in order, and Pos the position within the playlist (0 if it is empty).",
		Over:      []string{"inputs", "histories"}, Quant: "all playlists, all integer indices including negative ones and ones behind the end", Why: "Tests try a few lengths and indices.",
		Files:     []string{"playback/playlist.go"},
		Mech:      [][2]string{{"operations", "Playlist.AddSong, InsertSong, RemoveSong, SetPos, Pos, Songs"}},
		Technique: segTech, Note: "Slice capacities are not tracked; an append is taken to possibly write in place behind its base.",
		Run: playlistOps,
	})
}

const plT = "playback.Playlist"

// fieldAt0: the value a field of the object base had when it was first loaded on the path.
func firstLoad(evs []*Ev, typ, field string) *Term {
	for _, e := range evs {
		if e.Kind == "load" && e.Addr != nil && e.Addr.Op == "faddr" && fieldName(e.Addr) == field && namedOf(e.Addr.Args[0].Typ) == typ {
			return e.Val
		}
	}
	return nil
}

func lastStore(evs []*Ev, typ, field string) *Ev {
	var r *Ev
	for _, e := range evs {
		if isStoreTo(e, typ, field) {
			r = e
		}
	}
	return r
}

func storesOf(evs []*Ev, typ, field string) []*Ev {
	var r []*Ev
	for _, e := range evs {
		if isStoreTo(e, typ, field) {
			r = append(r, e)
		}
	}
	return r
}

func rets(paths []*Path) []*Path {
	var r []*Path
	for _, p := range paths {
		if p.End == "ret" && p.Root.Kind == "entry" {
			r = append(r, p)
		}
	}
	return r
}

// srcSeg: elements [from, to) of src, to be placed at position at.
func srcSeg(at, n, src, from *Term) seg {
	return seg{lo: at, hi: add2(at, n), src: src, off: sub2(from, at)}
}

func elemSeg(at, e *Term) seg { return seg{lo: at, hi: add2(at, int1), elem: e} }

// clipCases: the candidates for an index clipped to [0, max], which the path condition justifies.
func (s *segState) clipCases(idx, max *Term) []*Term {
	var r []*Term
	if s.le(idx, int0) && s.le(int0, max) {
		r = append(r, int0)
	} else if s.le(max, idx) && s.le(int0, max) {
		r = append(r, max)
	} else if s.le(int0, idx) && s.le(idx, max) {
		r = append(r, idx)
	}
	if len(r) == 0 {
		if !s.le(idx, int0) && !s.le(int0, idx) {
			s.ask(idx, int0)
		} else {
			s.ask(idx, max)
		}
	}
	return r
}

func playlistOps(c *Ctx) {
	op := func(name string, body func(f *ssa.Function, p *Path, evs []*Ev, par []*Term)) {
		full := "(*" + plT + ")." + name
		f := c.p.fn(full)
		paths := c.explore(full, opt{noSpawn: true})
		if f == nil {
			return
		}
		noteLoops(paths)
		var par []*Term
		for _, p := range f.Params {
			par = append(par, mkParam(f, p))
		}
		for _, p := range paths {
			if p.End != "ret" && p.End != "back" {
				c.fail("ends", name, c.at(f.Pos()), "%s can end with %s", name, p.End)
			}
		}
		for _, p := range rets(paths) {
			body(f, p, p.Events(), par)
		}
		c.need(name, 1)
	}
	newSongs := func(evs []*Ev) (*Term, *Term) {
		s0 := firstLoad(evs, plT, "songs")
		if st := lastStore(evs, plT, "songs"); st != nil {
			return s0, st.Val
		}
		return s0, s0
	}
	noOther := func(name string, f *ssa.Function, evs []*Ev, fields ...string) {
		for _, e := range evs {
			if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "faddr" && namedOf(e.Addr.Args[0].Typ) == plT {
				ok := false
				for _, fl := range fields {
					ok = ok || fieldName(e.Addr) == fl
				}
				c.check(name+": nothing else", fnName(f)+" ."+fieldName(e.Addr), where(c, e), ok, "%s changes the field %s", name, fieldName(e.Addr))
			}
		}
	}
	op("AddSong", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		s0, s1 := newSongs(evs)
		ok, note := segCases(p.St.pc, evs, func(s *segState) bool {
			return s0 != nil && s.equal(s1, []seg{srcSeg(int0, lenOf(s0), s0, int0), elemSeg(lenOf(s0), par[1])})
		})
		c.check("AddSong", "appends", c.at(f.Pos()), ok, "the playlist is not the old one followed by the added song: %s", note)
		noOther("AddSong", f, evs, "songs")
	})
	op("InsertSong", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		s0, s1 := newSongs(evs)
		if !c.check("InsertSong", "reads the songs", c.at(f.Pos()), s0 != nil, "a path does not look at the songs") {
			return
		}
		n := lenOf(s0)
		ok, note := segCases(p.St.pc, evs, func(s *segState) bool {
			for _, k := range s.clipCases(par[2], n) {
				if s.equal(s1, []seg{srcSeg(int0, k, s0, int0), elemSeg(k, par[1]), srcSeg(add2(k, int1), sub2(n, k), s0, k)}) {
					return true
				}
			}
			return false
		})
		c.check("InsertSong", "content", c.at(f.Pos()), ok, "the playlist is not the old one with the song inserted at the clipped index: %s", note)
		noOther("InsertSong", f, evs, "songs")
	})
	op("RemoveSong", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		s0, s1 := newSongs(evs)
		if !c.check("RemoveSong", "reads the songs", c.at(f.Pos()), s0 != nil, "a path does not look at the songs") {
			return
		}
		n := lenOf(s0)
		noOther("RemoveSong", f, evs, "songs")
		if p.St.pc.entailsLe(n, int0, 0) {
			r, isStr := p.Rets[0].strVal()
			c.check("RemoveSong", "empty", c.at(f.Pos()), isStr && r == "", "removing from an empty playlist does not return \"\"")
			ok, note := segCases(p.St.pc, evs, func(s *segState) bool { return s.equal(s1, nil) })
			c.check("RemoveSong", "empty stays", c.at(f.Pos()), ok, "removing from an empty playlist changes it: %s", note)
			return
		}
		ok, note := segCases(p.St.pc, evs, func(s *segState) bool {
			for _, k := range s.clipCases(par[1], sub2(n, int1)) {
				if s.equal(s1, []seg{srcSeg(int0, k, s0, int0), srcSeg(k, sub2(sub2(n, k), int1), s0, add2(k, int1))}) {
					return true
				}
			}
			return false
		})
		okRet, _ := segCases(p.St.pc, evs, func(s *segState) bool {
			g, known := s.val[p.Rets[0]]
			for _, k := range s.clipCases(par[1], sub2(n, int1)) {
				if known && g.src == s0 && s.eq(g.off, k) {
					return true
				}
			}
			return false
		})
		c.check("RemoveSong", "content", c.at(f.Pos()), ok, "the playlist is not the old one without the song at the clipped index: %s", note)
		c.check("RemoveSong", "result", c.at(f.Pos()), okRet, "the returned song is not the one at the clipped index")
	})
	op("SetPos", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		st := lastStore(evs, plT, "position")
		ok := false
		if st != nil {
			pc := p.St.pc
			ok = pc.entailsLe(par[1], int0, 0) && pc.entails(mkEq(st.Val, int0)) || pc.entailsLe(int0, par[1], 0) && pc.entails(mkEq(st.Val, par[1]))
		}
		c.check("SetPos", "position", c.at(f.Pos()), ok, "the position is not set to the given one, clipped to 0")
		noOther("SetPos", f, evs, "position")
	})
	op("Pos", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		s0, p0 := firstLoad(evs, plT, "songs"), firstLoad(evs, plT, "position")
		pc := p.St.pc
		ok := s0 != nil && pc.entailsLe(lenOf(s0), int0, 0) && pc.entails(mkEq(p.Rets[0], int0))
		if !ok && s0 != nil && p0 != nil {
			ok = isMod(p.Rets[0], p0, lenOf(s0)) || pc.entails(mkEq(p.Rets[0], p0)) && pc.entails(mkLt0(linOf(p0).add(linOf(lenOf(s0)), -1)))
		}
		c.check("Pos", "result", c.at(f.Pos()), ok, "the result is not the position modulo the number of songs (0 for none)")
		noOther("Pos", f, evs)
	})
	op("Songs", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		s0 := firstLoad(evs, plT, "songs")
		ok, note := segCases(p.St.pc, evs, func(s *segState) bool {
			return s0 != nil && s.equal(p.Rets[0], []seg{srcSeg(int0, lenOf(s0), s0, int0)})
		})
		c.check("Songs", "result", c.at(f.Pos()), ok, "the result is not the list of all songs in order: %s", note)
		noOther("Songs", f, evs)
	})
	op("SetPlaying", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		st := lastStore(evs, plT, "playing")
		c.check("SetPlaying", "value", c.at(f.Pos()), st != nil && st.Val == par[1], "SetPlaying does not store its argument")
		noOther("SetPlaying", f, evs, "playing")
	})
	op("Playing", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		c.check("Playing", "result", c.at(f.Pos()), len(p.Rets) == 1 && p.Rets[0] == firstLoad(evs, plT, "playing"), "Playing does not return the playing state")
	})
	op("CurrentSong", func(f *ssa.Function, p *Path, evs []*Ev, par []*Term) {
		c.check("CurrentSong", "result", c.at(f.Pos()), len(p.Rets) == 1 && p.Rets[0] == firstLoad(evs, plT, "currentSong"), "CurrentSong does not return the current song")
	})
}

// isMod: t is a % m.
func isMod(t, a, m *Term) bool {
	t = strip(t)
	return t != nil && t.Op == "app" && t.Aux == "rem" && len(t.Args) == 2 && t.Args[0] == a && t.Args[1] == m
}

var _ = types.Typ
var _ = strings.Join
