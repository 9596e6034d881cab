package main

// What the infoer draws (U01).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "U01", Title: "The infoer shows the current song, its position, the volume and its lyrics",
		Statement: "The infoer redraws the whole screen, in the size it has then, from its state at the synchronised time, at least once a second until it ends. It shows the title of the current song, or its filename if it has no title; its artist, and the album behind it if there is one as well; the time passed in the song and the length of the song as m:ss, or h:mm:ss from an hour on; the volume in percent; whether the song is playing or paused; a bar which is filled up to the fraction of the song which has passed; and, wherever the screen is high enough for a line, the lyrics with the newest line at the bottom and no line above or below its frame. All characters of a text are drawn next to each other and in order, and the lines of the song do not cover each other.",
		Over:      []string{"inputs", "histories"}, Quant: "all song information, positions, volumes and screen sizes",
		Why:       "The tests of the infoer do not draw anything; what is shown depends on the song, its tags, the position and the size of the terminal.",
		Files:     []string{"cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/drawing.go"},
		Mech:      [][2]string{{"redraw", "tcellLoop, redraw"}, {"lines", "drawPlaybackInfo, drawLyrics, fmtDuration"}, {"drawing", "drawString, drawProgress"}},
		Technique: absTech + "; loops of the drawing primitives are decided by induction over the cells",
		Note:      "That the values drawn are right is S08, that the infoer ends when it should is O01. The look of frames and of the cell at the end of the bar is free.", Run: display})
}

const (
	infoerPkg = "cmd/music-sync-infoer"
	tcellScr  = "(github.com/gdamore/tcell.Screen)."
	setCell   = tcellScr + "SetContent"
)

func display(c *Ctx) {
	// functions which put something on the screen
	draws := map[*ssa.Function]bool{}
	for f := range c.callersOf(setCell) {
		draws[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f := range draws {
			for _, in := range c.cg().in[f] {
				if g := in.Parent(); !draws[g] && c.p.inModule(g) {
					draws[g] = true
					ch = true
				}
			}
		}
	}
	d := &drawn{c: c, text: map[*ssa.Function]bool{}, bar: map[*ssa.Function]bool{}}
	for f := range draws {
		s, fl := 0, 0
		for _, q := range f.Params {
			if isString(q.Type()) {
				s++
			}
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
				fl++
			}
		}
		switch {
		case s == 1 && fl == 0:
			d.text[f] = true
		case fl == 1 && s == 0:
			d.bar[f] = true
		}
	}
	c.check("drawing", "texts", "-", len(d.text) > 0, "there is no function which draws a text")
	c.check("drawing", "bar", "-", len(d.bar) > 0, "there is no function which draws the progress bar")
	for _, f := range c.p.fns {
		if d.text[f] {
			c.textDrawn(f)
		}
		if d.bar[f] {
			c.barDrawn(f)
		}
	}
	// the functions which make up the screen
	n := 0
	for _, f := range c.p.fns {
		if _, shows := c.callersOf(tcellScr + "Show")[f]; shows && c.p.inModule(f) {
			n++
			d.redraw(f)
			d.loop(f)
		}
	}
	c.check("redraw", "found", "-", n > 0, "nothing drawn is ever shown")
}

type drawn struct {
	c         *Ctx
	text, bar map[*ssa.Function]bool
}

// coords: the coordinates of a primitive are its first two parameters of type int.
func intParams(f *ssa.Function) []int {
	var r []int
	for i, q := range f.Params {
		if types.Identical(q.Type(), types.Typ[types.Int]) {
			r = append(r, i)
		}
	}
	return r
}

// steps: t starts at x and grows by one with every iteration of the loop.
func steps(rt roundTrip, t, x *Term) bool {
	first, next := map[*Term]*Term{}, map[*Term]*Term{}
	li := rt.Info
	for i, s := range li.Sym {
		if li.Init[i] != nil {
			first[s] = li.Init[i]
		}
		if li.Next[i] != nil {
			next[s] = li.Next[i]
		}
	}
	return mkSub(subst(t, first), x, t.Typ) == mkInt(0, t.Typ) && mkSub(subst(t, next), t, t.Typ) == mkInt(1, t.Typ)
}

// textDrawn: every character of the text is put into the cell next to the one before.
func (c *Ctx) textDrawn(f *ssa.Function) {
	ip := intParams(f)
	name, w := fnName(f), c.at(f.Pos())
	if !c.check("text", name+" position", w, len(ip) >= 2, "a text is not drawn at a position") {
		return
	}
	x, y := mkParam(f, f.Params[ip[0]]), mkParam(f, f.Params[ip[1]])
	var str *Term
	for _, q := range f.Params {
		if isString(q.Type()) {
			str = mkParam(f, q)
		}
	}
	ps := c.exploreFn(f, opt{noSpawn: true})
	isRunes := func(t *Term) bool {
		if t != nil && t.Op == "conv" && strip(t.Args[0]) == str {
			s, ok := t.Typ.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Int32])
		}
		return false
	}
	var its []iter
	ranged := map[*ssa.BasicBlock]bool{}
	for _, rt := range roundTrips(ps) {
		cells := calls(rt.Evs, setCell)
		ok := len(cells) == 1
		if ok {
			e := cells[0]
			ch := strip(e.Args[3])
			ok = false
			for _, v := range visits(rt) {
				if v.Full && isRunes(v.Coll) && strip(v.Elem) == ch {
					its = append(its, v)
					ok = true
				}
			}
			if !ok && isNextRune(ch, str) {
				ok = true
				ranged[rt.Info.Header] = true
			}
			ok = ok && steps(rt, e.Args[1], x) && strip(e.Args[2]) == y
		}
		c.check("text", name+" cells", w, ok, "a character of a text is left out, or not drawn next to the one before")
	}
	for _, p := range rets(ps) {
		ok := false
		for _, e := range exits(p.Events()) {
			ok = ok || exhausted(its, p, e, nil)
			if h := e.Aux.(*LoopInfo).Header; ranged[h] {
				ok = ok || e.Instr.Block() == h
			}
		}
		empty := p.St.pc.entails(mkEq(lenOf(str), int0))
		c.check("text", name+" complete", w, ok || empty, "a text can be cut off")
	}
}

// isNextRune: the character a range over the text is at.
func isNextRune(t, str *Term) bool {
	return t != nil && t.find(func(x *Term) bool { return x.Op == "next" && x.contains(str) }) != nil
}

// barDrawn: the cells before the fraction are filled, those behind it are empty.
func (c *Ctx) barDrawn(f *ssa.Function) {
	ip := intParams(f)
	name, w := fnName(f), c.at(f.Pos())
	if !c.check("bar", name+" position", w, len(ip) >= 3, "the bar is not drawn at a position and with a length") {
		return
	}
	x, y, n := mkParam(f, f.Params[ip[0]]), mkParam(f, f.Params[ip[1]]), mkParam(f, f.Params[ip[2]])
	var frac *Term
	for _, q := range f.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
			frac = mkParam(f, q)
		}
	}
	// the cell up to which the bar is filled
	isHead := func(t *Term) bool {
		if t.Op != "conv" || len(t.Args) != 1 || t.Typ == nil || !isIntType(t.Typ) {
			return false
		}
		a := t.Args[0]
		if isApp(a, "math.Floor") {
			a = a.Args[0]
		}
		if !isApp(a, "f*") || len(a.Args) != 2 {
			return false
		}
		for k := 0; k < 2; k++ {
			if l := a.Args[1-k]; strip(a.Args[k]) == frac && l.Op == "conv" && strip(l.Args[0]) == n {
				return true
			}
		}
		return false
	}
	ps := c.exploreFn(f, opt{noSpawn: true})
	kinds := map[string]bool{}
	trips := 0
	for _, rt := range roundTrips(ps) {
		cells := calls(rt.Evs, setCell)
		ok := len(cells) == 1 && strip(cells[0].Args[2]) == y
		if !c.check("bar", name+" cells", w, ok && steps(rt, cells[0].Args[1], x), "a cell of the bar is left out") {
			continue
		}
		trips++
		pc := rt.Path.St.pc
		i := mkSub(cells[0].Args[1], x, n.Typ)
		var head *Term
		for _, l := range pc.lits() {
			l.find(func(t *Term) bool {
				if isHead(t) {
					head = t
				}
				return false
			})
		}
		if !c.check("bar", name+" fraction", w, head != nil, "a cell of the bar is drawn whatever fraction of the song has passed") {
			continue
		}
		r, known := foldRune(cells[0].Args[3])
		before, at := pc.entails(mkLt0(linOf(mkSub(i, head, n.Typ)))), pc.entails(mkEq(i, head))
		after := pc.entails(mkLt0(linOf(mkSub(head, i, n.Typ))))
		switch {
		case before:
			c.check("bar", name+" before", w, known && r != ' ', "a cell before the position is not filled")
			kinds["before"] = true
		case after:
			c.check("bar", name+" behind", w, known && r == ' ', "a cell behind the position is filled")
			kinds["after"] = true
		default:
			c.check("bar", name+" at", w, at, "a cell of the bar is drawn without regard to the position")
		}
	}
	c.check("bar", name, w, trips > 0 && kinds["before"] && kinds["after"], "the bar does not show the position")
	for _, p := range rets(ps) {
		ok := p.St.pc.entailsLe(n, int0, 0)
		for _, e := range exits(p.Events()) {
			li := e.Aux.(*LoopInfo)
			for k, s := range li.Sym {
				if li.Init[k] == nil {
					continue
				}
				d := mkSub(s, li.Init[k], n.Typ)
				ok = ok || p.St.pc.entails(mkNot(mkLt0(linOf(mkSub(d, n, n.Typ)))))
			}
		}
		c.check("bar", name+" complete", w, ok, "the bar can end before its length")
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func foldRune(t *Term) (rune, bool) {
	n, ok := strip(t).intVal()
	return rune(n), ok
}

// fieldPath: t is the field of the object at base which is reached by the names returned.
func fieldPath(t, base *Term) ([]string, bool) {
	var r []string
	t = strip(t)
	for d := 0; t != nil && d < 12; d++ {
		switch {
		case t.Op == "fld":
			r = append([]string{selName(t)}, r...)
			t = strip(t.Args[0])
		case t.Op == "ld":
			a := t.Args[0]
			for a.Op == "faddr" {
				r = append([]string{fieldName(a)}, r...)
				a = a.Args[0]
			}
			if a == base {
				return r, true
			}
			t = strip(a)
		case t == base:
			return r, true
		default:
			return nil, false
		}
	}
	return nil, false
}

func pathIs(t, base *Term, path string) bool {
	r, ok := fieldPath(t, base)
	return ok && strings.Join(r, ".") == path
}

type textAt struct {
	x, y, str *Term
	parts     []*Term
	e         *Ev
}

func (d *drawn) texts(evs []*Ev) []textAt {
	var r []textAt
	for _, e := range evs {
		if e.Kind != "call" || e.Callee == nil || !d.text[e.Callee] {
			continue
		}
		ip := intParams(e.Callee)
		if len(ip) < 2 {
			continue
		}
		t := textAt{x: e.Args[ip[0]], y: e.Args[ip[1]], e: e}
		for i, q := range e.Callee.Params {
			if isString(q.Type()) {
				t.str = e.Args[i]
			}
		}
		if t.str == nil {
			continue
		}
		t.parts = textParts(t.str)
		r = append(r, t)
	}
	return r
}

// durations are formatted by functions of the infoer.
func durFn(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && isString(s.Results().At(0).Type()) && namedOf(s.Params().At(0).Type()) == "time.Duration"
}

func (d *drawn) redraw(f *ssa.Function) {
	c := d.c
	w := c.at(f.Pos())
	const info, lines = "(*" + infoerPkg + ".state).Info", infoerPkg + ".lyricsHistory"
	durs := map[*ssa.Function]bool{}
	ps := c.exploreFn(f, opt{noSpawn: true, opaque: func(g *ssa.Function) bool {
		if durFn(g) && c.p.inModule(g) {
			durs[g] = true
			return true
		}
		return opaqueSet(info, lines, "timing.GetSyncedTime")(g)
	}})
	name := fnName(f)
	n := 0
	for _, rt := range roundTrips(ps) {
		if len(calls(rt.Evs, tcellScr+"Show")) > 0 {
			n++
			d.screen(name, w, rt.Path, rt.Evs, info, lines, durs)
		}
	}
	inLoop := n > 0
	for _, p := range rets(ps) {
		if inLoop && len(calls(p.Events(), tcellScr+"Show")) == 0 {
			continue // the end of a loop which draws
		}
		n++
		d.screen(name, w, p, p.Events(), info, lines, durs)
	}
	c.check("redraw", name, w, n > 0, "the screen is never drawn")
	d.lyricsLines(name, ps, lines)
	c.check("time", name+" formats", w, len(durs) > 0, "the times are not shown")
	for _, g := range c.p.fns {
		if durs[g] {
			c.durationText(g)
		}
	}
}

func (d *drawn) screen(name, w string, p *Path, evs []*Ev, info, lines string, durs map[*ssa.Function]bool) {
	c := d.c
	pc := p.St.pc
	var clear, show, inf, size, firstCell, lastCell *Ev
	var hist *Ev
	for _, e := range evs {
		switch {
		case isCall(e, tcellScr+"Clear"):
			if firstCell == nil {
				clear = e
			}
		case isCall(e, tcellScr+"Show"):
			show = e
		case isCall(e, tcellScr+"Size"):
			size = e
		case isCall(e, info):
			inf = e
		case isCall(e, lines):
			hist = e
		}
		if isCall(e, setCell) || e.Kind == "call" && e.Callee != nil && (d.text[e.Callee] || d.bar[e.Callee]) {
			if firstCell == nil {
				firstCell = e
			}
			lastCell = e
		}
	}
	if !c.check("redraw", name+" draws", w, firstCell != nil && inf != nil, "the screen is not drawn from the current information") {
		return
	}
	c.check("redraw", name+" cleared", w, clear != nil, "what was drawn before stays on the screen")
	c.check("redraw", name+" shown", w, show != nil && show.N > lastCell.N, "something is drawn after the screen was shown")
	if e, _ := resOf(strip(inf.Args[1])); !c.check("redraw", name+" time", where(c, inf), e != nil && isCall(e, "timing.GetSyncedTime"), "the state is not the one at the synchronised time") {
		return
	}
	c.check("redraw", name+" state", where(c, inf), isGlobalLoad(inf.Args[0], infoerPkg+".currentState"), "another state than the current one is drawn")
	if !c.check("redraw", name+" size", w, size != nil && size.N < firstCell.N, "the size of the screen is not looked at before drawing") {
		return
	}
	width, height := comp(size, 0), comp(size, 1)
	I := inf.Res
	texts := d.texts(evs)
	has := func(what string, cond bool, is func(t textAt) bool) *textAt {
		for i := range texts {
			if is(texts[i]) {
				return &texts[i]
			}
		}
		if cond {
			c.fail("shown", name+" "+what, w, "the %s is not shown", what)
		}
		return nil
	}
	state := func(path string) (empty, set bool) {
		for _, l := range pc.lits() {
			x := l.find(func(x *Term) bool { return (x.Op == "ld" || x.Op == "fld") && pathIs(x, I, path) })
			if x != nil {
				return pc.entails(mkEq(lenOf(x), int0)), pc.entails(mkNot(mkEq(lenOf(x), int0)))
			}
		}
		return false, false
	}
	only := func(path string) func(t textAt) bool {
		return func(t textAt) bool { return len(t.parts) == 1 && pathIs(t.parts[0], I, path) }
	}
	var song, by *textAt
	const title, file, artist, album = "CurrentSong.metadata.Title", "CurrentSong.filename", "CurrentSong.metadata.Artist", "CurrentSong.metadata.Album"
	none, set := state(title)
	switch {
	case none:
		song = has("filename of a song without title", true, only(file))
	case set:
		song = has("title", true, only(title))
	default:
		c.fail("shown", name+" title", w, "a song without title has no name on the screen")
	}
	none, set = state(artist)
	noAlbum, setAlbum := state(album)
	switch {
	case none:
	case set && noAlbum:
		by = has("artist", true, only(artist))
	case set && setAlbum:
		by = has("artist and album", true, func(t textAt) bool {
			return len(t.parts) == 3 && pathIs(t.parts[0], I, artist) && pathIs(t.parts[2], I, album) && isLit(t.parts[1])
		})
	case set:
		by = has("album", true, func(t textAt) bool {
			return len(t.parts) >= 2 && pathIs(t.parts[0], I, artist) && pathIs(t.parts[len(t.parts)-1], I, album)
		})
	default:
		// shown whether there is one or not
		by = has("artist", true, func(t textAt) bool { return len(t.parts) >= 1 && pathIs(t.parts[0], I, artist) })
	}
	isDur := func(t *Term, path string) bool {
		e, _ := resOf(strip(t))
		return e != nil && e.Callee != nil && durs[e.Callee] && pathIs(e.Args[0], I, path)
	}
	passed := has("time passed", true, func(t textAt) bool {
		k := 0
		for k < len(t.parts) && isLit(t.parts[k]) {
			k++
		}
		return k < len(t.parts) && isDur(t.parts[k], "TimeInSong")
	})
	length := has("length of the song", true, func(t textAt) bool {
		return len(t.parts) > 0 && isDur(t.parts[len(t.parts)-1], "SongLength")
	})
	volume := has("volume", true, func(t textAt) bool {
		for k, q := range t.parts {
			if k+1 >= len(t.parts) {
				break
			}
			after, lit := foldStr(t.parts[k+1])
			if q.Op == "app" && strings.HasPrefix(q.Aux.(string), "fmt%") && strings.HasSuffix(q.Aux.(string), "f") && lit && strings.HasPrefix(after, "%") && percent(q.Args[0], I) {
				return true
			}
		}
		return false
	})
	playing := false
	for _, l := range pc.lits() {
		neg := l.Op == "not"
		if neg {
			l = l.Args[0]
		}
		if pathIs(l, I, "Playing") {
			playing = true
			word := "Playing"
			if neg {
				word = "Paused"
			}
			has("state of the playback", true, func(t textAt) bool { s, ok := foldStr(t.str); return ok && s == word })
		}
	}
	c.check("shown", name+" playing", w, playing, "it is not shown whether the song is playing")
	// where
	at := func(t *textAt) *Term {
		if t == nil {
			return nil
		}
		return mkSub(height, t.y, height.Typ)
	}
	row := func(t *textAt) int64 {
		if t == nil {
			return 0
		}
		n, ok := at(t).intVal()
		c.check("place", name+" row", where(c, t.e), ok && n >= 1, "a line is outside of the screen")
		return n
	}
	rs, rb := row(song), row(by)
	row(passed)
	row(length)
	row(volume)
	c.check("place", name+" lines", w, song == nil || by == nil || rs != rb, "the artist covers the title")
	for _, t := range []*textAt{song, by} {
		if t != nil {
			n, ok := t.x.intVal()
			c.check("place", name+" column", where(c, t.e), ok && n >= 0 && n < 4, "a line does not start at the left")
		}
	}
	for _, t := range []*textAt{passed, length, volume} {
		if t != nil {
			end := mkSub(mkAdd(t.x, lenOf(t.str), width.Typ), width, width.Typ)
			n, ok := end.intVal()
			if !ok {
				// its length is that of its parts
				sum := t.x
				for _, q := range catParts(t.str) {
					sum = mkAdd(sum, lenOf(q), width.Typ)
				}
				n, ok = mkSub(sum, width, width.Typ).intVal()
			}
			if k, left := t.x.intVal(); left && k >= 0 {
				ok, n = true, 0
			}
			c.check("place", name+" right", where(c, t.e), ok && n <= 0, "a text leaves the screen")
		}
	}
	// the bar
	var bar *Ev
	for _, e := range evs {
		if e.Kind == "call" && e.Callee != nil && d.bar[e.Callee] {
			bar = e
		}
	}
	if c.check("shown", name+" bar", w, bar != nil, "the progress bar is not shown") {
		ip := intParams(bar.Callee)
		okf := false
		for i, q := range bar.Callee.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
				okf = pathIs(bar.Args[i], I, "ProgressInSong")
			}
		}
		c.check("shown", name+" progress", where(c, bar), okf, "the bar does not show the fraction of the song which has passed")
		x, y, n := bar.Args[ip[0]], bar.Args[ip[1]], bar.Args[ip[2]]
		lo, ok1 := x.intVal()
		hi, ok2 := mkSub(mkAdd(x, n, width.Typ), width, width.Typ).intVal()
		r, ok3 := mkSub(height, y, height.Typ).intVal()
		c.check("place", name+" bar", where(c, bar), ok1 && lo >= 0 && lo < 4 && ok2 && hi <= 0 && hi > -4 && ok3 && r >= 1 && r != rs && r != rb, "the bar does not fill a line of the screen of its own")
	}
	// the lyrics
	if hist == nil {
		small := pc.entailsLe(height, mkInt(8, height.Typ), 0)
		for _, l := range pc.lits() {
			small = small || l.find(func(x *Term) bool { return isGlobalLoad(x, infoerPkg+".lyricsHistorySize") }) != nil && !l.contains(height)
		}
		c.check("lyrics", name, w, small, "the lyrics are not shown although there is room for them")
		return
	}
	c.check("lyrics", name+" song", where(c, hist), pathIsOr(c, p, hist, 1, I, "CurrentSong"), "the lyrics of another song are shown")
	c.check("lyrics", name+" time", where(c, hist), pathIs(hist.Args[2], I, "TimeInSong"), "the lyrics of another time are shown")
}

// pathIsOr: the struct given is the field, or a copy made of all its fields.
func pathIsOr(c *Ctx, p *Path, e *Ev, arg int, base *Term, path string) bool {
	t := strip(e.Args[arg])
	if pathIs(t, base, path) {
		return true
	}
	if t.Op == "struct" {
		st, ok := t.Typ.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(t.Args) {
			return false
		}
		for i := range t.Args {
			sub := path + "." + st.Field(i).Name()
			x := strip(t.Args[i])
			if pathIs(x, base, sub) {
				continue
			}
			if x.Op == "struct" && pathIsOr(c, p, &Ev{Args: []*Term{x}}, 0, base, sub) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

func isLit(t *Term) bool { _, ok := foldStr(t); return ok }

// percent: t is the volume times hundred.
func percent(t, I *Term) bool {
	t = strip(t)
	if !isApp(t, "f*") || len(t.Args) != 2 {
		return false
	}
	for k := 0; k < 2; k++ {
		if pathIs(t.Args[k], I, "Volume") && t.Args[1-k].String() == "100" {
			return true
		}
	}
	return false
}

// lyricsLines: the lines are drawn one above the other, the first one lowest, within the screen and above the song.
func (d *drawn) lyricsLines(name string, ps []*Path, lines string) {
	c := d.c
	n := 0
	var its []iter
	for _, rt := range roundTrips(ps) {
		var v *iter
		for _, x := range visits(rt) {
			if e, _ := resOf(strip(x.Coll)); e != nil && isCall(e, lines) {
				y := x
				v = &y
			}
		}
		if v == nil {
			continue
		}
		its = append(its, *v)
		e, _ := resOf(strip(v.Coll))
		var size *Ev
		for _, q := range rt.Path.Events() {
			if isCall(q, tcellScr+"Size") {
				size = q
			}
		}
		w := where(c, v.At)
		ts := d.texts(rt.Evs)
		if !c.check("lyrics", name+" line", w, (v.Full || v.Rev) && len(ts) == 1 && strip(ts[0].str) == strip(v.Elem) && size != nil, "a line of the lyrics is not drawn") {
			continue
		}
		n++
		pc := rt.Path.St.pc
		H, hist := comp(size, 1), e.Args[0]
		x, okx := ts[0].x.intVal()
		c.check("lyrics", name+" column", w, okx && x >= 0 && x < 4, "a line of the lyrics does not start at the left")
		// row of the newest line
		base := mkAdd(ts[0].y, v.Idx, H.Typ)
		k, okb := mkSub(H, base, H.Typ).intVal()
		c.check("lyrics", name+" order", w, okb, "the lines are not drawn one above the other, the newest lowest")
		c.check("lyrics", name+" below", w, okb && k >= 6, "the lyrics cover the song")
		// the topmost row: base - (hist-1) >= 1
		top := mkSub(base, hist, H.Typ)
		c.check("lyrics", name+" above", w, pc.entails(mkNot(mkLt0(linOf(top)))), "a line of the lyrics is above the screen")
	}
	c.check("lyrics", name+" lines", "-", n > 0, "the lyrics are not drawn")
	for _, p := range rets(ps) {
		for _, e := range p.Events() {
			if !isCall(e, lines) {
				continue
			}
			ok := p.St.pc.entails(mkEq(lenOf(e.Res), int0))
			for _, x := range exits(p.Events()) {
				ok = ok || exhausted(its, p, x, e.Res)
			}
			c.check("lyrics", name+" all", where(c, e), ok, "not all lines of the lyrics are drawn")
		}
	}
}

// durPart: t is (d / div) mod m seconds, minutes or hours.
func durPart(t, d *Term) (div, mod int64, ok bool) {
	t = strip(t)
	for t.Op == "conv" && len(t.Args) == 1 {
		t = strip(t.Args[0])
	}
	if t == d {
		return 1, 0, true
	}
	if t.Op != "app" || len(t.Args) != 2 {
		return 0, 0, false
	}
	n, isC := t.Args[1].intVal()
	if !isC || n <= 0 {
		return 0, 0, false
	}
	a, m, ok := durPart(t.Args[0], d)
	if !ok {
		return 0, 0, false
	}
	switch t.Aux {
	case "quo":
		return a * n, m, m == 0 || m%(a*n) == 0
	case "rem":
		if m != 0 && m%(a*n) != 0 {
			return 0, 0, false
		}
		return a, a * n, true
	}
	return 0, 0, false
}

// durationText: a duration is written as m:ss, or as h:mm:ss from an hour on.
func (c *Ctx) durationText(f *ssa.Function) {
	const s, m, h = int64(1e9), int64(60e9), int64(3600e9)
	name, w := fnName(f), c.at(f.Pos())
	d := mkParam(f, f.Params[0])
	n := 0
	for _, p := range rets(c.exploreFn(f, opt{noSpawn: true})) {
		n++
		short := p.St.pc.entails(mkLt0(linOf(d).add(linConst(h), -1)))
		long := p.St.pc.entails(mkNot(mkLt0(linOf(d).add(linConst(h), -1))))
		for _, l := range p.St.pc.lits() {
			l.find(func(q *Term) bool {
				if div, mod, ok := durPart(q, d); ok && div == h && mod == 0 && isIntType(q.Typ) {
					short = short || p.St.pc.entailsLe(q, int0, 0)
					long = long || p.St.pc.entails(mkLt0(linOf(q).scale(-1)))
				}
				return false
			})
		}
		type num struct {
			div, mod int64
			pad      bool
		}
		var got []num
		ok := true
		for i, q := range catParts(p.Rets[0]) {
			if i%2 == 1 {
				t, lit := foldStr(q)
				ok = ok && lit && t == ":"
				continue
			}
			q = strip(q)
			var g num
			known := false
			if q.Op == "app" && (q.Aux == "fmt%d" || q.Aux == "fmt%02d" || q.Aux == "fmt%v") {
				g.div, g.mod, known = durPart(q.Args[0], d)
				g.pad = q.Aux == "fmt%02d"
			}
			ok = ok && known
			got = append(got, g)
		}
		switch {
		case short:
			ok = ok && len(got) == 2 && got[0].div == m && (got[0].mod == 0 || got[0].mod == h) && !got[0].pad && got[1] == num{s, m, true}
		case long:
			ok = ok && len(got) == 3 && got[0] == num{h, 0, false} && got[1] == num{m, h, true} && got[2] == num{s, m, true}
		default:
			ok = false
		}
		c.check("time", name, w, ok, "a time is not written as m:ss below an hour and as h:mm:ss from an hour on")
	}
	c.check("time", name+" returns", w, n > 0, "a time is never written")
}

// loop: the screen is drawn again and again.
func (d *drawn) loop(f *ssa.Function) {
	c := d.c
	const tick = "time.NewTicker"
	n := 0
	opq := func(g *ssa.Function) bool {
		return d.text[g] || d.bar[g] || durFn(g) || g == f || opaqueSet("(*"+infoerPkg+".state).Info", infoerPkg+".lyricsHistory")(g)
	}
	self := false
	for _, rt := range roundTrips(c.exploreFn(f, opt{noSpawn: true, opaque: opq})) {
		self = self || len(calls(rt.Evs, tcellScr+"Show")) > 0
	}
	callers := c.callersOf(fnName(f))
	draw := fnName(f)
	if self {
		callers, draw = map[*ssa.Function][]ssa.Instruction{f: nil}, tcellScr+"Show"
	}
	for _, g := range c.p.fns {
		if _, is := callers[g]; !is || !c.p.inModule(g) {
			continue
		}
		w := c.at(g.Pos())
		ps := c.exploreFn(g, opt{noSpawn: true, opaque: opq})
		for _, rt := range roundTrips(ps) {
			waits := false
			for _, e := range rt.Evs {
				waits = waits || e.Kind == "recv"
			}
			if self && !waits && len(calls(rt.Evs, draw)) == 0 {
				continue // a loop of the drawing itself
			}
			n++
			c.check("again", fnName(g)+" each time", w, len(calls(rt.Evs, draw)) > 0, "the infoer goes on without drawing")
			// at most a second between two drawings
			c.check("again", fnName(g)+" waits", w, waits, "the screen is drawn without pause")
		}
		for _, p := range ps {
			for _, e := range p.Events() {
				if isCall(e, tick, "time.After", "time.Sleep", "time.NewTimer", "time.Tick") {
					v, ok := e.Args[0].intVal()
					c.check("again", fnName(g)+" period", where(c, e), ok && v > 0 && v <= 1e9, "the screen is drawn less than once a second")
				}
			}
		}
	}
	c.check("again", fnName(f), c.at(f.Pos()), n > 0, "the screen is drawn only once")
}
