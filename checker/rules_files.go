package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "F01", Title: "Nobody reaches files outside the music directory through the control interface",
		Statement: "Whatever pattern, directory or prefix a control user gives to queue, ls or a completion, every path which is walked, matched, opened or inspected because of it lies inside the music directory: what the user gave is made an absolute path before it is appended to the music directory, or is not used as a path at all. Nothing received from the network is used as the name of a file.",
		Over:      []string{"inputs"}, Quant: "all arguments of all commands and completions, all messages", Why: "A path can escape by .., by absolute paths, inside patterns; tests use a few harmless names.",
		Files:     []string{"util/file_utils.go", "ssh/command.go", "schedule/server_state_commands.go"},
		Mech:      [][2]string{{"confinement", "joinInside"}, {"uses", "ListAllFiles, ListGlobFiles, ListAllSubDirs"}},
		Technique: "source-to-sink analysis: every file system call reachable from commands, completions, sessions and message handlers is visited by abstract interpretation in the context of each of them, and the provenance of its path argument must be the music directory joined with a rooted path, or a result of such a call", Run: confinement,
	})
	register(&Prop{
		ID: "F02", Title: "Listings are complete and contain nothing else",
		Statement: "The files listed for a directory are exactly the non-directories the walk of it meets, each once, in the order of the walk, named relative to the music directory; the directories listed are exactly the directories below it. What cannot be accessed is left out and hides nothing else. A pattern yields exactly the files which match it, in order. Filtering keeps exactly the names ending in .mp3, in order.",
		Over:      []string{"inputs"}, Quant: "all directory trees, patterns, lists of names and access errors", Why: "Tests list one prepared directory, all of which is accessible.",
		Files:     []string{"util/file_utils.go"},
		Mech:      [][2]string{{"walk", "walker, ListAllFiles, ListAllSubDirs"}, {"patterns", "ListGlobFiles"}, {"songs", "FilterSongs"}},
		Technique: "induction over the iterations of the loops and over the calls of the walk's callback: each is decided to list its element exactly if it qualifies", Run: listings,
	})
	register(&Prop{
		ID: "F03", Title: "A song without readable metadata or lyrics is played without them",
		Statement: "The metadata and the lyrics of a song are those of its own file and of the file of the same name with .json appended, in the music directory; if a file is missing, unreadable or malformed, the result is empty and not partial, and neither the server nor the song is affected.",
		Over:      []string{"inputs", "faults"}, Quant: "all songs and all contents and failures of their files", Why: "Tests use some prepared files.",
		Files:     []string{"metadata/lyrics_provider.go", "metadata/metadata_provider.go"},
		Mech:      [][2]string{{"metadata", "basicProvider.CollectMetadata"}, {"lyrics", "basicLyricsProvider.CollectLyrics"}},
		Technique: absTech, Run: songFiles,
	})
	register(&Prop{
		ID: "F04", Title: "Every file opened is closed",
		Statement: "A file opened successfully is closed on every path, also after errors, or handed to the song streamer, which is closed after the song: no failure of a file can use up the server's file descriptors.",
		Over:      []string{"inputs", "faults", "histories"}, Quant: "all sequences of songs and all failures of their files", Why: "A leak shows only after thousands of songs.",
		Files:     []string{"playback/playback.go", "playback/playlist.go", "metadata/lyrics_provider.go", "metadata/metadata_provider.go", "ssh/ssh.go"},
		Mech:      [][2]string{{"streamer", "getStreamer, Playlist.StreamLoop"}, {"metadata", "CollectMetadata, CollectLyrics"}, {"users", "ReadUsersFile"}},
		Technique: "typestate: every call which opens a file is followed on every abstract path of its function, and of its callers when it returns the file", Run: filesClosed,
	})
}

// fsCalls are the file system calls and the argument which names the file.
var fsCalls = map[string]int{
	"os.Open": 0, "os.OpenFile": 0, "os.Create": 0, "os.Stat": 0, "os.Lstat": 0, "os.ReadFile": 0, "os.WriteFile": 0, "os.ReadDir": 0,
	"os.Remove": 0, "os.RemoveAll": 0, "os.Rename": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Chdir": 0, "os.Chmod": 0, "os.Truncate": 0, "os.Readlink": 0, "os.DirFS": 0,
	"io/ioutil.ReadFile": 0, "io/ioutil.ReadDir": 0, "io/ioutil.WriteFile": 0,
	"path/filepath.Walk": 0, "path/filepath.WalkDir": 0, "path/filepath.Glob": 0, "path/filepath.EvalSymlinks": 0,
}

func fsCall(e *Ev) (*Term, bool) {
	if e.Kind != "call" && e.Kind != "pure" {
		return nil, false
	}
	i, ok := fsCalls[e.Name]
	if !ok || i >= len(e.Args) {
		return nil, false
	}
	return strip(e.Args[i]), true
}

func isJoin(t *Term) bool { return isApp(t, "path/filepath.Join") || isApp(t, "path.Join") }

// rooted: a path which starts at / and therefore has no .. elements left when it is cleaned.
func rooted(t *Term) bool {
	t = strip(t)
	isSlash := func(x *Term) bool {
		s, ok := strip(x).strVal()
		return ok && strings.HasPrefix(s, "/")
	}
	switch {
	case isJoin(t) && len(t.Args) > 0:
		return isSlash(t.Args[0]) || rooted(t.Args[0])
	case (isApp(t, "path/filepath.Clean") || isApp(t, "path.Clean")) && len(t.Args) == 1:
		x := strip(t.Args[0])
		return isSlash(x) || x.Op == "cat" && isSlash(x.Args[0]) || rooted(x)
	}
	return false
}

// harmless: a path element which cannot lead out of the directory it is appended to.
func harmless(pc *PC, t *Term) bool {
	t = strip(t)
	if s, ok := t.strVal(); ok {
		return !strings.Contains(s, "..")
	}
	if rooted(t) {
		return true
	}
	for _, l := range pc.lits() {
		if isApp(l, "path/filepath.IsLocal") && strip(l.Args[0]) == t {
			return true
		}
		if e, _ := resOf(l); e != nil && isCall(e, "path/filepath.IsLocal") && strip(e.Args[0]) == t {
			return true
		}
	}
	return false
}

func isMusicDir(t *Term) bool { return nameOf(strip(t)) == "playback.AudioDir" }

// confined: the path lies inside the music directory.
func confined(pc *PC, t *Term, d int) bool {
	t = strip(t)
	if t == nil || d > 8 {
		return false
	}
	if isMusicDir(t) {
		return true
	}
	switch {
	case isJoin(t) && len(t.Args) > 0:
		if !confined(pc, t.Args[0], d+1) {
			return false
		}
		for _, a := range t.Args[1:] {
			if !harmless(pc, a) {
				return false
			}
		}
		return true
	case isApp(t, "path/filepath.Clean") || isApp(t, "path/filepath.FromSlash") || isApp(t, "path/filepath.ToSlash"):
		return confined(pc, t.Args[0], d+1)
	case t.Op == "ld" && t.Args[0].Op == "iaddr": // an element of what a pattern matched
		x, i := t.Args[0].Args[0], 0
		if e, k := resOf(x); e != nil {
			i = k
			if isCall(e, "path/filepath.Glob") && i == 0 {
				return confined(pc, e.Args[0], d+1)
			}
		}
	case t.Op == "ex" && t.Args[0].Op == "call":
		return false
	}
	// the path passed to the callback of a walk whose root is checked itself
	if strings.HasPrefix(t.String(), "path/filepath.Walk callback@") || strings.HasPrefix(t.String(), "path/filepath.WalkDir callback@") {
		return true
	}
	return false
}

// untrusted lists the functions which work on what a control user or a peer sent.
func (c *Ctx) untrusted() (cmds, others []*ssa.Function) {
	cmds = append(c.commandFuncs("ExecFunc"), c.commandFuncs("OptionsFunc")...)
	others = append(others, c.messageHandlers()...)
	others = append(others, c.sessionHandlers()...)
	for _, f := range c.p.fns {
		if f.Name() == "Do" && len(f.Params) == 3 && f.Signature.Recv() != nil && f.Synthetic == "" && f.Params[1].Type().String() == "[]rune" {
			others = append(others, f)
		}
	}
	return
}

func confinement(c *Ctx) {
	c.assume("the music directory contains no symbolic links leading out of it")
	cmds, others := c.untrusted()
	seen := map[ssa.Instruction]bool{}
	check := func(ps []*Path, root string) {
		for _, p := range ps {
			for _, e := range p.Events() {
				t, ok := fsCall(e)
				if !ok {
					continue
				}
				seen[e.Instr] = true
				c.check("inside", root+": "+e.Name+" in "+fnName(e.Fn), where(c, e), confined(e.PC, t, 0), "%s reaches %s with a path which can lie outside the music directory: %s", root, e.Name, cut(t.String(), 160))
			}
		}
	}
	for _, f := range cmds {
		ps := c.exploreFn(f, opt{noSpawn: true, opaque: func(f *ssa.Function) bool { return strings.HasPrefix(fnName(f), plM) }, joinMax: 40, keep: func(e *Ev) bool { _, ok := fsCall(e); return ok }})
		check(ps, fnName(f))
	}
	// every file system call they can reach was visited
	n := 0
	for _, f := range append(append([]*ssa.Function{}, cmds...), others...) {
		reach := c.cg().reachable(f)
		for g := range reach {
			if !c.p.inModule(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					sc := ci.Common().StaticCallee()
					if sc == nil {
						continue
					}
					if _, ok := fsCalls[fnName(sc)]; !ok {
						continue
					}
					n++
					via := len(cmds) > 0 && seen[in]
					isCmd := false
					for _, k := range cmds {
						isCmd = isCmd || k == f
					}
					if isCmd {
						c.check("visited", fnName(g)+": "+fnName(sc), c.at(in.Pos()), via, "the path used by %s, reached from %s, was not determined", fnName(sc), fnName(f))
						continue
					}
					// sessions and completions reach the commands, which were looked at above
					if via && c.onlyThrough(f, g, cmds) {
						continue
					}
					c.check("network", fnName(f)+": "+fnName(sc), c.at(in.Pos()), via && c.onlyThrough(f, g, cmds), "%s can reach %s in %s with something sent by a peer", fnName(f), fnName(sc), fnName(g))
				}
			}
		}
	}
	c.count["file system calls reachable"] = n
	c.need("inside", 3)
	c.need("visited", 3)
	// what is added to the playlist are names found in the music directory
	for _, m := range []string{"AddSong", "InsertSong"} {
		cs := c.callersOf(plM + m)
		for _, f := range sortedFns(cs) {
			ok := false
			for _, k := range cmds {
				ok = ok || c.cg().reachable(k)[f]
			}
			c.check("songs", m+" in "+fnName(f), c.at(cs[f][0].Pos()), ok, "a song is added by something else than a command")
		}
	}
	c.need("songs", 1)
}

func sortedFns(m map[*ssa.Function][]ssa.Instruction) []*ssa.Function {
	by := map[string]*ssa.Function{}
	for f := range m {
		by[fnName(f)] = f
	}
	var r []*ssa.Function
	for _, n := range sortedKeys(by) {
		r = append(r, by[n])
	}
	return r
}

// onlyThrough: from reaches to only through the given functions.
func (c *Ctx) onlyThrough(from, to *ssa.Function, via []*ssa.Function) bool {
	stop := map[*ssa.Function]bool{}
	for _, v := range via {
		stop[v] = true
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] || stop[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range c.cg().callees(in) {
					if walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return !walk(from)
}

// ---- F02 ----

// filterLoop decides that out(p) is the sub-sequence of src selected by the condition.
// verdict tells what the conditions of an iteration say about the element: 1 keep, -1 leave out, 0 unknown.
func (c *Ctx) filterLoop(rule, name, w string, paths []*Path, src func(*Term) bool, out func(p *Path) *Term, val func(v iter, m mapIter) bool, verdict func(pc *PC, rt roundTrip, elem *Term) int) {
	type loop struct {
		its  []iter
		syms []*Term
	}
	var loops []loop
	find := func(li *LoopInfo) *loop {
		for i := range loops {
			if sameLoop(loops[i].its[0].RT.Info, li) {
				return &loops[i]
			}
		}
		return nil
	}
	for _, rt := range roundTrips(paths) {
		var v *iter
		for _, x := range visits(rt) {
			if x.Full && src(x.Coll) {
				y := x
				v = &y
				break
			}
		}
		if v == nil {
			continue
		}
		l := find(rt.Info)
		if l == nil {
			loops = append(loops, loop{})
			l = &loops[len(loops)-1]
		}
		l.its = append(l.its, *v)
		var added []mapIter
		for _, m := range c.mapIters(rt) {
			if m.Grown {
				added = append(added, m)
			}
		}
		at := where(c, v.At)
		switch {
		case len(added) == 0:
			c.check(rule+": left out", name, at, verdict(rt.Path.St.pc, rt, v.Elem) < 0, "an element which qualifies can be left out")
		case len(added) > 1:
			c.fail(rule+": once", name, at, "an element can be added %d times", len(added))
		default:
			m := added[0]
			c.check(rule+": kept", name, at, verdict(rt.Path.St.pc, rt, v.Elem) > 0, "an element which does not qualify can be kept")
			c.check(rule+": value", name, at, val(*v, m), "something else than the element is added")
			c.check(rule+": empty at first", name, at, m.Full, "the result is not empty before the first element")
			l.syms = append(l.syms, m.Dst)
		}
	}
	n := 0
	for _, p := range rets(paths) {
		r := out(p)
		if r == nil {
			continue
		}
		n++
		ok := p.St.pc.entails(mkEq(lenOf(r), int0)) && len(exits(p.Events())) == 0
		for _, x := range exits(p.Events()) {
			l := find(x.Aux.(*LoopInfo))
			if l == nil {
				continue
			}
			for _, s := range l.syms {
				if s == r && exhausted(l.its, p, x, nil) {
					ok = true
				}
			}
		}
		c.check(rule+": complete", name, w, ok, "the result can be something else than what was kept of all elements")
	}
	c.check(rule+": found", name, w, n > 0 && len(loops) > 0, "the elements are not looked at one by one")
}

func litSays(pc *PC, is func(*Term) bool) int {
	for _, l := range pc.lits() {
		if is(l) {
			return 1
		}
		if l.Op == "not" && is(l.Args[0]) {
			return -1
		}
	}
	return 0
}

func listings(c *Ctx) {
	// songs
	name := "util.FilterSongs"
	if f := c.p.fn(name); f != nil {
		ps := c.explore(name, opt{noSpawn: true})
		files := mkParam(f, f.Params[0])
		c.filterLoop("songs", name, c.at(f.Pos()), ps, func(t *Term) bool { return t == files }, func(p *Path) *Term { return p.Rets[0] },
			func(v iter, m mapIter) bool { return m.Val == v.Elem },
			func(pc *PC, rt roundTrip, elem *Term) int {
				return litSays(pc, func(l *Term) bool {
					if isApp(l, "strings.HasSuffix") && strip(l.Args[0]) == elem {
						s, ok := l.Args[1].strVal()
						return ok && s == ".mp3"
					}
					if l.Op == "eq" {
						for i := 0; i < 2; i++ {
							if s, ok := l.Args[1-i].strVal(); ok && s == ".mp3" && (isApp(l.Args[i], "path/filepath.Ext") || isApp(l.Args[i], "path.Ext")) && strip(l.Args[i].Args[0]) == elem {
								return true
							}
						}
					}
					return false
				})
			})
	} else {
		c.fail("songs", name, "-", "%s does not exist", name)
	}
	// patterns
	name = "util.ListGlobFiles"
	if f := c.p.fn(name); f != nil {
		w := c.at(f.Pos())
		ps := c.explore(name, opt{noSpawn: true})
		dir, pattern := mkParam(f, f.Params[0]), mkParam(f, f.Params[1])
		globOf := func(evs []*Ev) *Ev {
			for _, e := range evs {
				if isCall(e, "path/filepath.Glob") {
					return e
				}
			}
			return nil
		}
		for _, p := range rets(ps) {
			g := globOf(p.Events())
			if !c.check("pattern", name, w, g != nil, "a pattern is not matched at all") {
				continue
			}
			a := strip(g.Args[0])
			c.check("pattern", name, where(c, g), isJoin(a) && strip(a.Args[0]) == dir && a.Args[len(a.Args)-1].contains(pattern), "something else than the pattern in the directory is matched")
			c.check("pattern error", name, w, notNilAt(p.St.pc, comp(g, 1)) == notNilAt(p.St.pc, p.Rets[1]) || p.Rets[1] == comp(g, 1), "an invalid pattern is not told from one which matches nothing")
		}
		c.filterLoop("pattern", name, w, ps, func(t *Term) bool {
			e, i := resOf(t)
			return e != nil && i == 0 && isCall(e, "path/filepath.Glob")
		}, func(p *Path) *Term {
			if g := globOf(p.Events()); g != nil && (notNilAt(p.St.pc, comp(g, 1)) || p.St.pc.entailsLe(lenOf(comp(g, 0)), int0, 0)) {
				c.check("nothing matches", name, w, p.St.pc.entailsLe(lenOf(p.Rets[0]), int0, 0), "files are listed although none matches")
				return nil
			}
			return p.Rets[0]
		},
			func(v iter, m mapIter) bool { return relTo(m.RT.Path.St.pc, m.Val, dir, v.Elem) },
			func(pc *PC, rt roundTrip, elem *Term) int {
				for _, e := range rt.Evs {
					switch {
					case isCall(e, "os.Stat", "os.Lstat") && strip(e.Args[0]) == elem:
						if notNilAt(pc, comp(e, 1)) {
							return -1
						}
						for _, d := range rt.Evs {
							if isDirCall(d, comp(e, 0)) {
								if pc.entails(d.Res) {
									return -1
								}
								if nilAt(pc, comp(e, 1)) && pc.entails(mkNot(d.Res)) {
									return 1
								}
							}
						}
					}
				}
				// a match named like the directory itself
				return 0
			})
	} else {
		c.fail("pattern", name, "-", "%s does not exist", name)
	}
	c.walks("util.ListAllFiles", false)
	c.walks("util.ListAllSubDirs", true)
	// nobody reorders what was listed
	for _, name := range []string{"util.ListAllFiles", "util.ListAllSubDirs", "util.ListGlobFiles", "util.FilterSongs"} {
		for _, p := range c.explore(name, opt{noSpawn: true}) {
			ok := true
			for _, e := range p.Events() {
				ok = ok && !isCall(e, "sort.S*", "slices.Sort*", "slices.Reverse*")
			}
			c.check("order kept", name, c.at(p.Root.Fn.Pos()), ok, "what is listed is put into another order")
		}
	}
}

func isDirCall(e *Ev, info *Term) bool {
	if e.Res == nil || e.Kind != "call" && e.Kind != "pure" || !strings.HasSuffix(e.Name, "FileInfo).IsDir") && !strings.HasSuffix(e.Name, "DirEntry).IsDir") {
		return false
	}
	return len(e.Args) > 0 && strip(e.Args[0]) == info || strip(e.Addr) == info
}

// relTo: v is path made relative to dir.
func relTo(pc *PC, v, dir, path *Term) bool {
	v = strip(v)
	if e, ok := appEx(v, "path/filepath.Rel"); ok {
		return strip(e.Args[0]) == dir && strip(e.Args[1]) == path
	}
	if s, ok := v.strVal(); ok && s == "" {
		// the directory itself
		for _, q := range eqLits(pc, true) {
			for i := 0; i < 2; i++ {
				if s, ok := q[1-i].strVal(); ok && s == "." {
					if e, ok := appEx(q[i], "path/filepath.Rel"); ok && strip(e.Args[0]) == dir && strip(e.Args[1]) == path {
						return true
					}
				}
			}
		}
	}
	if v == path {
		// only if it cannot be made relative
		for _, l := range pc.lits() {
			if l.Op != "not" || l.Args[0].Op != "eq" {
				continue
			}
			for _, a := range l.Args[0].Args {
				if e, ok := appExN(a, "path/filepath.Rel", 1); ok && strip(e.Args[0]) == dir && strip(e.Args[1]) == path {
					return true
				}
			}
		}
	}
	return false
}

func appEx(t *Term, name string) (*Term, bool) { return appExN(t, name, 0) }

func appExN(t *Term, name string, i int) (*Term, bool) {
	t = strip(t)
	if t == nil || t.Op != "ex" || len(t.Args) == 0 || !isApp(t.Args[0], name) {
		return nil, false
	}
	if k, ok := t.Aux.(int); ok && k != i {
		return nil, false
	}
	return t.Args[0], true
}

// walks decides one of the functions which list what a walk meets.
func (c *Ctx) walks(name string, dirs bool) {
	f := c.p.fn(name)
	if f == nil {
		c.fail("walk", name, "-", "%s does not exist", name)
		return
	}
	w := c.at(f.Pos())
	ps := c.explore(name, opt{noSpawn: true})
	dir := mkParam(f, f.Params[0])
	kept, left := 0, 0
	for _, p := range ps {
		if p.End != "ret" {
			c.fail("walk", name, w, "%s can end with %s", name, p.End)
			continue
		}
		pc := p.St.pc
		evs := p.Events()
		var walk *Ev
		var cb, ret *Ev
		n := 0
		for _, e := range evs {
			switch {
			case isCall(e, "path/filepath.Walk", "path/filepath.WalkDir"):
				walk = e
				n++
			case e.Kind == "callback":
				cb = e
			case e.Kind == "callbackret":
				ret = e
			}
		}
		if !c.check("walk", name, w, n == 1, "%s walks %d directories", name, n) {
			continue
		}
		root := strip(walk.Args[0])
		rootOK := root == dir
		if len(f.Params) > 1 {
			sub := mkParam(f, f.Params[1])
			empty := pc.entails(mkEq(sub, mkString("")))
			if !empty {
				rootOK = isJoin(root) && strip(root.Args[0]) == dir && root.Args[len(root.Args)-1].contains(sub)
			}
		}
		c.check("walk root", name, where(c, walk), rootOK, "another directory than the one asked for is walked")
		r := p.Rets[0]
		if cb == nil {
			c.check("nothing met", name, w, pc.entailsLe(lenOf(r), int0, 0), "something is listed although the walk met nothing")
			continue
		}
		path, info, werr := cb.Args[0], cb.Args[1], cb.Args[2]
		// what the callback answers
		if ret != nil && len(ret.Args) > 0 {
			a := ret.Args[0]
			c.check("walk goes on", name, where(c, cb), nilAt(pc, a) || a == werr && nilAt(pc, werr), "the walk can end or skip files before everything was met")
		}
		isDir := 0
		for _, e := range evs {
			if isDirCall(e, strip(info)) {
				isDir = litSays(pc, func(l *Term) bool { return l == e.Res })
			}
		}
		added := r.Op == "append"
		if !added {
			left++
			ok := notNilAt(pc, werr) || isDir == 1 && !dirs || isDir == -1 && dirs || pc.entailsLe(lenOf(path), int0, 0)
			for _, l := range pc.lits() {
				// the name relative to the directory is empty
				if r := l.find(func(t *Term) bool { _, is := appEx(t, "path/filepath.Rel"); return is }); r != nil && r.contains(path) && pc.entailsLe(lenOf(r), int0, 0) {
					ok = true
				}
			}
			for _, q := range eqLits(pc, true) {
				for i := 0; i < 2; i++ {
					s, is := q[1-i].strVal()
					if is && (s == "" || s == ".") && strip(q[i]).contains(path) {
						ok = true
					}
					if strip(q[i]) == path && (q[1-i] == root || q[1-i] == dir) {
						ok = true
					}
				}
			}
			c.check("left out", name, where(c, cb), ok, "something which qualifies can be left out")
			c.check("accumulated", name, w, r.Op == "ld" || pc.entailsLe(lenOf(r), int0, 0), "what was listed before can get lost")
			continue
		}
		kept++
		one := r.Op == "append" && r.Aux != "spread" && len(r.Args) == 2
		if !c.check("added", name, where(c, cb), one, "one file can be listed several times") {
			continue
		}
		c.check("accumulated", name, w, r.Args[0].Op == "ld" || pc.entailsLe(lenOf(r.Args[0]), int0, 0), "what was listed before can get lost")
		c.check("kind", name, where(c, cb), nilAt(pc, werr) && (isDir == -1 && !dirs || isDir == 1 && dirs), "something else than asked for can be listed")
		if dirs {
			itself := true
			for _, l := range pc.lits() {
				if l.Op != "not" {
					continue
				}
				l := l.Args[0]
				if l.find(func(t *Term) bool { return t == path }) != nil && (l.find(func(t *Term) bool { _, is := appEx(t, "path/filepath.Rel"); return is }) != nil || l.contains(root) || l.Op == "eq0" || pc.entailsLe(int1, lenOf(path), 0)) {
					itself = false
				}
			}
			c.check("itself", name, where(c, cb), !itself, "the directory itself can be listed among those below it")
		}
		c.check("relative name", name, where(c, cb), relTo(pc, r.Args[1], dir, path), "what is listed is not named relative to the music directory")
	}
	c.check("walk lists", name, w, kept > 0 && left > 0, "the walk does not decide what to list")
}

// ---- F03 ----

func songFiles(c *Ctx) {
	type spec struct {
		iface, method string
		suffix        string
		parse         []string // calls whose error makes the result empty
	}
	for _, s := range []spec{
		{"Provider", "CollectMetadata", "", []string{"github.com/dhowden/tag.ReadFrom"}},
		{"LyricsProvider", "CollectLyrics", ".json", []string{"(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal"}},
	} {
		n := c.p.namedType("metadata", s.iface)
		if n == nil {
			c.fail("provider", s.iface, "-", "metadata.%s does not exist", s.iface)
			continue
		}
		fs := c.impls(n.Underlying().(*types.Interface), s.method)
		c.check("provider", s.iface, "metadata", len(fs) > 0, "%s is not implemented", s.iface)
		for _, f := range fs {
			if f.Synthetic != "" || len(f.Params) == 0 {
				continue
			}
			c.provider(f, s.suffix, s.parse)
		}
	}
}

func (c *Ctx) provider(f *ssa.Function, suffix string, parse []string) {
	name := fnName(f)
	w := c.at(f.Pos())
	song := mkParam(f, f.Params[len(f.Params)-1])
	ps := c.exploreFn(f, opt{noSpawn: true, obs: func(o *Ob) {
		c.check("panic-free", o.Fn+": "+o.Key, o.Where, o.Fail == "", "%s", o.Fail)
	}})
	full := 0
	for _, p := range ps {
		if p.End != "ret" || len(p.Rets) != 1 {
			c.fail("ends", name, w, "%s can end with %s", name, p.End)
			continue
		}
		pc := p.St.pc
		var failed, opened, parsed bool
		var src *Ev
		for _, e := range p.Events() {
			if t, ok := fsCall(e); ok {
				a := strip(t)
				pathOK := isJoin(a) && len(a.Args) == 2 && isMusicDir(a.Args[0])
				if pathOK {
					x := strip(a.Args[1])
					if suffix == "" {
						pathOK = x == song
					} else {
						k := ""
						if x.Op == "cat" && len(x.Args) == 2 {
							k, _ = x.Args[1].strVal()
						}
						pathOK = x.Op == "cat" && len(x.Args) == 2 && x.Args[0] == song && k == suffix
					}
				}
				c.check("own file", name, where(c, e), pathOK, "another file than that of the song is used: %s", cut(t.String(), 120))
				if e.Name == "os.Open" || e.Name == "os.ReadFile" || e.Name == "io/ioutil.ReadFile" || e.Name == "os.OpenFile" {
					opened = true
					src = e
				}
			}
			c.check("tolerant", name+": "+e.Name, where(c, e), !isCall(e, "(*encoding/json.Decoder).DisallowUnknownFields"), "files which are not malformed are refused")
			if isCall(e, parse...) {
				parsed = true
				er := errOf(e)
				if er != nil && !nilAt(pc, er) {
					failed = true
				}
				in := strip(firstArg(e))
				c.check("reads it", name, where(c, e), src != nil && derives(p, in, src, 0), "something else than the file of the song is parsed")
			}
			if e.Kind == "call" {
				if _, ok := fsCalls[e.Name]; ok {
					if er := errOf(e); er != nil && notNilAt(pc, er) {
						failed = true
					}
				}
			}
		}
		if !opened || !parsed {
			failed = true
		}
		r := strip(p.Rets[0])
		if !failed {
			full++
			c.check("result", name, w, !emptyResult(c, p, r), "nothing is returned although the file was read")
			c.check("result", name+" content", w, c.resultOf(p, r, parse), "what is returned is not what the file contains")
			continue
		}
		c.check("empty", name, w, emptyResult(c, p, r), "something is returned although the file could not be read completely")
	}
	c.check("reads", name, w, full > 0, "the file is never read")
}

// derives: t is, or wraps, a result of e.
func derives(p *Path, t *Term, e *Ev, d int) bool {
	t = strip(t)
	if t == nil || d > 6 {
		return false
	}
	if t.contains(comp(e, 0)) {
		return true
	}
	if x, _ := resOf(t); x != nil {
		for _, a := range x.Args {
			if derives(p, a, e, d+1) {
				return true
			}
		}
	}
	return false
}

// emptyResult: the value has no content: an empty slice or a struct of zero values.
func emptyResult(c *Ctx, p *Path, r *Term) bool {
	if r.isNil() {
		return true
	}
	if r.Typ == nil {
		return false
	}
	if _, ok := r.Typ.Underlying().(*types.Slice); ok {
		return p.St.pc.entailsLe(lenOf(r), int0, 0)
	}
	zero := func(v *Term) bool {
		if v == nil {
			return false
		}
		s, ok := v.strVal()
		return ok && s == "" || v.Op == "zero"
	}
	switch r.Op {
	case "zero":
		return true
	case "struct":
		for _, a := range r.Args {
			if !zero(a) {
				return false
			}
		}
		return true
	}
	fl := c.fieldsOf(p, r, nil)
	for _, v := range fl {
		if !zero(v) {
			return false
		}
	}
	return len(fl) > 0
}

// resultOf: the fields of r are the values of the methods of the same name of what was parsed, or r is what was decoded.
func (c *Ctx) resultOf(p *Path, r *Term, parse []string) bool {
	for _, e := range p.Events() {
		if !isCall(e, parse...) {
			continue
		}
		if strings.Contains(e.Name, "json") {
			dst := strip(e.Args[len(e.Args)-1])
			return r.Op == "ld" && r.Args[0] == dst
		}
		md := comp(e, 0)
		fl := c.fieldsOf(p, r, nil)
		if len(fl) == 0 {
			return false
		}
		for n, v := range fl {
			x, _ := resOf(strip(v))
			if x == nil || !strings.HasSuffix(x.Name, ")."+n) || strip(firstArg(x)) != strip(md) && strip(x.Addr) != strip(md) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- F04 ----

func filesClosed(c *Ctx) {
	opens := map[string]bool{"os.Open": true, "os.OpenFile": true, "os.Create": true}
	owner := map[*ssa.Function]bool{} // functions which return an open file or what owns it
	for _, f := range c.p.fns {
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && opens[fnName(sc)] {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		ps := c.exploreFn(f, opt{noSpawn: true})
		if c.closedOn(f, ps, func(e *Ev) bool { return opens[e.Name] && e.Kind == "call" && e.Fn == f }) {
			owner[f] = true
		}
	}
	c.need("closed", 4)
	for _, f := range c.p.fns {
		if !owner[f] {
			continue
		}
		cs := c.callersOf(fnName(f))
		c.check("owner", fnName(f), c.at(f.Pos()), len(cs) > 0 || f.Parent() != nil, "nobody closes the file %s returns", fnName(f))
		for _, g := range sortedFns(cs) {
			op := opaqueSet(fnName(f), plM+"pushStreamer", plM+"pushNanSamples", plM+"pushNanBreak")
			ps := c.exploreFn(g, opt{noSpawn: true, opaque: op})
			if c.closedOn(g, ps, func(e *Ev) bool { return isCall(e, fnName(f)) }) {
				c.fail("owner", fnName(g), c.at(g.Pos()), "%s passes the file opened by %s on to its callers", fnName(g), fnName(f))
			}
		}
	}
}

// closedOn checks that what the opening calls return is closed at the end of every path; it reports whether it is returned on one.
func (c *Ctx) closedOn(f *ssa.Function, ps []*Path, open func(*Ev) bool) (returned bool) {
	name := fnName(f)
	for _, p := range ps {
		evs := p.Events()
		pc := p.St.pc
		for i, e := range evs {
			if !open(e) {
				continue
			}
			file, er := comp(e, 0), comp(e, 1)
			if notNilAt(pc, er) {
				continue
			}
			// owners: the file, and what was made of it
			own := []*Term{file}
			owns := func(t *Term) bool {
				for _, o := range own {
					if t != nil && strip(t) == o {
						return true
					}
				}
				return false
			}
			closed := false
			for _, x := range evs[i+1:] {
				if x.Kind != "call" && x.Kind != "defer" {
					continue
				}
				if strings.HasSuffix(x.Name, ").Close") && (owns(firstArg(x)) || owns(x.Addr)) {
					closed = closed || x.Kind == "call"
				}
				if strings.HasSuffix(x.Name, "mp3.Decode") && owns(firstArg(x)) && nilAt(pc, comp(x, 2)) {
					own = append(own, comp(x, 0))
				}
			}
			if !closed && p.End == "ret" {
				for _, r := range p.Rets {
					if owns(r) {
						returned = true
						closed = true
					}
				}
			}
			if p.End == "back" {
				// a path which goes round a loop: only if the file was opened in this iteration
				li := evs[len(evs)-1].Aux.(*LoopInfo)
				started := false
				for _, x := range evs[i:] {
					if x.Kind == "loophead" && sameLoop(x.Aux.(*LoopInfo), li) {
						started = true
					}
				}
				if started {
					continue
				}
			} else if p.End != "ret" {
				continue
			}
			c.check("closed", name+": "+e.Name, where(c, e), closed, "a file can stay open")
		}
	}
	return
}
