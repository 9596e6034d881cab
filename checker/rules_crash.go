package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID: "P09", Title: "The server, the players and the infoers never crash",
		Statement: "Once its options are accepted, no message, song file, song length, playback position, pause, terminal size or moment makes the server, a player or an infoer panic: every index and slice expression, nil dereference, map write, type assertion, division, conversion, buffer size and channel operation in what the programs run (start-up, streaming, sending and receiving messages, queueing and playing samples, tracking and drawing the current song) is safe, and option values with which one could fail (a sample rate or chunk size which is not positive) end the program with an error before anything uses them.",
		Over:      []string{"inputs", "histories"}, Quant: "all option values, messages, songs, chunk and pause histories, terminal sizes and times", Why: "A panic in any goroutine ends the program: the music stops for everyone, or on that device. Tests run the parts in isolation, with valid sizes and after a complete initialisation.",
		Files:     []string{"cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/drawing.go", "cmd/flags.go", "schedule/server_state.go", "schedule/server.go", "schedule/player.go", "playback/playback.go", "playback/streamer.go", "playback/timed_sample_queue.go", "playback/playlist.go", "comm/package_util.go"},
		Mech:      [][2]string{{"options are checked first", "CheckPositive, run"}, {"initialised before played", "playback.Init"}, {"ring buffer indices", "timedSampleQueue"}, {"lyrics and chunk indices", "lyricsBuildLine, state.Info"}, {"chunk buffers", "streamMusic, Playlist.Fill"}},
		Technique: "whole-program abstract interpretation with a proof obligation for every operation which can panic, from the functions given to the command line library through all goroutines and callbacks they start; what always holds of fields and variables (not negative, positive, not empty, never nil again) is inferred from all the stores to them (the largest set of such facts every store keeps)",
		Run:       runP09,
	})
}

// program is one of the commands: its main package and what it is built from.
type program struct {
	name    string
	pkgs    map[*types.Package]bool
	actions []*ssa.Function
}

// programs: the main packages of the module, with the functions the command line library is to run.
func (c *Ctx) programs() []*program {
	var r []*program
	for _, f := range c.p.fns {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || f.Name() != "main" || f.Parent() != nil || f.Signature.Recv() != nil || !c.p.inModule(f) {
			continue
		}
		pr := &program{name: c.p.pkgRel(f), pkgs: map[*types.Package]bool{}}
		var add func(p *types.Package)
		add = func(p *types.Package) {
			if pr.pkgs[p] || !strings.HasPrefix(p.Path(), modPath) {
				return
			}
			pr.pkgs[p] = true
			for _, q := range p.Imports() {
				add(q)
			}
		}
		add(f.Pkg.Pkg)
		r = append(r, pr)
	}
	for _, f := range c.p.fns {
		for _, pr := range r {
			if f.Pkg == nil || c.p.pkgRel(f) != pr.name {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || derefStruct(fa.X.Type()) == nil || derefStruct(fa.X.Type()).Field(fa.Field).Name() != "Action" {
						continue
					}
					v := st.Val
					for {
						if m, ok := v.(*ssa.MakeInterface); ok {
							v = m.X
						} else if m, ok := v.(*ssa.ChangeType); ok {
							v = m.X
						} else {
							break
						}
					}
					switch v := v.(type) {
					case *ssa.Function:
						pr.actions = append(pr.actions, v)
					case *ssa.MakeClosure:
						pr.actions = append(pr.actions, v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

func (pr *program) has(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return pr.pkgs[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil {
		return pr.pkgs[o.Pkg()]
	}
	return true
}

// storeSite is one place which gives a field or variable a value.
type storeSite struct {
	in   *ssa.Store
	fn   *ssa.Function
	init bool // by the initialisation of the package
}

// cells finds the fields of the module's structs and its package variables of which a simple fact may hold at all times: they
// are only read and assigned, never through their address.
func (c *Ctx) cells() (facts map[string]fact, stores map[string][]storeSite) {
	type cell struct {
		typ types.Type
		bad string
		ss  []storeSite
		of  *types.Named // the struct it is a field of
	}
	cells := map[string]*cell{}
	whole := map[string]bool{} // structs which are copied or created without being filled
	get := func(k string, t types.Type, of *types.Named) *cell {
		if cells[k] == nil {
			cells[k] = &cell{typ: t, of: of}
		}
		return cells[k]
	}
	// chain names a field of a package variable: the variable and the fields which lead to it
	var chain func(v ssa.Value) string
	chain = func(v ssa.Value) string {
		switch a := v.(type) {
		case *ssa.Global:
			if a.Pkg != nil && strings.HasPrefix(a.Pkg.Pkg.Path(), modPath) {
				return short(a.String())
			}
		case *ssa.FieldAddr:
			if b := chain(a.X); b != "" {
				return b + "#" + derefStruct(a.X.Type()).Field(a.Field).Name()
			}
		}
		return ""
	}
	parts := map[string][]storeSite{}
	keyOf := func(v ssa.Value) *cell {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			n, ok := ptrElem(a.X.Type()).(*types.Named)
			if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return nil
			}
			if types.NewMethodSet(types.NewPointer(n)).Lookup(nil, "ProtoMessage") != nil {
				return nil
			}
			fl := n.Underlying().(*types.Struct).Field(a.Field)
			return get(short(typeKey(n))+"."+fl.Name(), fl.Type(), n)
		case *ssa.Global:
			if a.Pkg == nil || !strings.HasPrefix(a.Pkg.Pkg.Path(), modPath) {
				return nil
			}
			return get(short(a.String()), ptrElem(a.Type()), nil)
		}
		return nil
	}
	for _, f := range c.p.fns {
		if f.Synthetic != "" && f.Name() != "init" || c.p.pkgRel(f) == "testutil" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if n, ok := st.Val.Type().(*types.Named); ok && derefStruct(types.NewPointer(n)) != nil {
						whole[short(typeKey(n))] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if k := chain(*op); k != "" {
						switch x := in.(type) {
						case *ssa.Store:
							parts[k] = append(parts[k], storeSite{x, f, f.Name() == "init" && f.Synthetic != ""})
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
						default:
							parts[k] = append(parts[k], storeSite{nil, f, false}, storeSite{nil, f, false})
						}
					}
					cl := keyOf(*op)
					if cl == nil {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr != *op || x.Val == *op {
							cl.bad = "its address is kept"
						} else {
							cl.ss = append(cl.ss, storeSite{x, f, f.Name() == "init" && f.Synthetic != ""})
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr:
						for _, r := range *x.Referrers() {
							switch r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								cl.bad = "the address of a part of it is used"
							}
						}
					default:
						cl.bad = "its address is passed on"
					}
				}
			}
		}
	}
	facts, stores = map[string]fact{}, map[string][]storeSite{}
	for k, ss := range parts {
		stores["#"+k] = ss
	}
	for k, cl := range cells {
		if cl.bad != "" || cl.of != nil && whole[short(typeKey(cl.of))] {
			continue
		}
		stores[k] = cl.ss
		switch t := cl.typ.Underlying().(type) {
		case *types.Slice:
			made := cl.of != nil && len(cl.ss) > 0
			for _, s := range cl.ss {
				if _, ok := s.in.Val.(*ssa.MakeSlice); !ok {
					made = false
				}
			}
			if made && c.filledWhenMade(cl.of, cl.ss) {
				facts[k] = factLen
			}
		case *types.Basic:
			if t.Info()&types.IsInteger == 0 || t.Info()&types.IsUnsigned != 0 {
				continue
			}
			facts[k] = factNonNeg
			if cl.of == nil {
				for _, s := range cl.ss {
					if !s.init {
						continue
					}
					if n, ok := initConst(s.in.Val); ok && n > 0 {
						facts[k] = factPos
					} else {
						delete(facts, k)
					}
				}
			}
		case *types.Pointer, *types.Interface:
			if cl.of == nil && len(cl.ss) > 0 {
				facts[k] = factSticky
			}
		}
	}
	return
}

// initConst: the constant a package variable is initialised with.
func initConst(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return constant.Int64Val(k.Value)
	}
	return 0, false
}

// filledWhenMade: every variable of the struct type is allocated where one of the stores fills the field, in the same block.
func (c *Ctx) filledWhenMade(n *types.Named, ss []storeSite) bool {
	filled := map[ssa.Value]bool{}
	for _, s := range ss {
		if fa, ok := s.in.Addr.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok && al.Block() == s.in.Block() {
				filled[al] = true
			}
		}
	}
	var contains func(t types.Type) bool
	contains = func(t types.Type) bool {
		if types.Identical(t, n) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if contains(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Array:
			return contains(u.Elem())
		}
		return false
	}
	for _, f := range c.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if contains(ptrElem(x.Type())) && !filled[x] {
						return false
					}
				case *ssa.MakeSlice:
					if contains(x.Type().Underlying().(*types.Slice).Elem()) {
						return false
					}
				case *ssa.MakeMap:
					if contains(x.Type().Underlying().(*types.Map).Elem()) {
						return false
					}
				}
			}
		}
	}
	return true
}

func runP09(c *Ctx) {
	facts, stores := c.cells()
	prs := c.programs()
	c.assume("libraries (cli, protobuf, tcell, beep, oto, readline, ssh, antlr and the standard library) do not panic and call the functions they are given with valid arguments; positions and sizes do not overflow 64 bits")
	for _, pr := range prs {
		c.crashFree(pr, facts, stores)
	}
	c.need("program", 3)
	c.need("panic-free", 900)
}

// crashFree explores everything a program runs. Facts about its variables are assumed, and dropped until every store keeps those
// which are left.
func (c *Ctx) crashFree(pr *program, all map[string]fact, stores map[string][]storeSite) {
	facts := map[string]fact{}
	for k, f := range all {
		facts[k] = f
	}
	for round := 0; ; round++ {
		var obs []*Ob
		c.factStores, c.factUsed = map[*ssa.Store]bool{}, map[string]bool{}
		snap := *c
		snap.obs, snap.count = nil, map[string]int{}
		roots := snap.programRoots(pr, facts, stores, func(o *Ob) { obs = append(obs, o) })
		drop := map[string]string{}
		for _, o := range obs {
			if o.Kind == "value which must not be stored" && o.Fail != "" {
				drop[o.Key[strings.LastIndex(o.Key, "|")+1:]] = o.Where
			}
		}
		for k := range facts {
			for _, s := range stores[k] {
				if !s.init && pr.has(s.fn) && !c.factStores[s.in] {
					drop[k] = "not reached: " + c.at(s.in.Pos())
				}
			}
		}
		if os.Getenv("EV") != "" {
			fmt.Println(pr.name, "round", round, roots, "facts", len(facts), drop)
		}
		n := 0
		for k := range drop {
			if _, ok := facts[k]; ok {
				delete(facts, k)
				if c.factUsed[k] {
					n++
				}
			} else {
				c.fail("fact", k, drop[k], "cannot tell which fact failed")
			}
		}
		if n > 0 {
			continue
		}
		c.check("program", pr.name, "-", len(pr.actions) > 0 && len(roots) > 0, "the function the program runs was not found")
		for _, o := range obs {
			if o.Kind == "value which must not be stored" && drop[o.Key[strings.LastIndex(o.Key, "|")+1:]] != "" {
				continue // no longer assumed
			}
			c.check("panic-free", o.Fn+": "+o.Key, o.Where, o.Fail == "", "%s", o.Fail)
		}
		c.obs = append(c.obs, snap.obs...)
		c.paths = snap.paths
		return
	}
}

// programRoots explores what a program runs: the functions it gives to the command line library, the goroutines and the
// functions which those leave to be called later. It returns the names of the functions explored from the start.
func (c *Ctx) programRoots(pr *program, facts map[string]fact, stores map[string][]storeSite, obs func(*Ob)) []string {
	seenFns := c.fns
	c.fns = map[string]bool{}
	defer func() {
		for f := range c.fns {
			seenFns[f] = true
		}
		c.fns = seenFns
	}()
	var names []string
	seen := map[*ssa.Function]bool{}
	var later []*ssa.Function
	var paths []*Path
	st0 := c.initState("cmd")
	first := true // the goroutines the program starts with are explored on their own
	o := opt{obs: obs, facts: facts, keep: func(*Ev) bool { return false }, joinMax: 10}
	o.onRoot = func(r *Root) bool {
		if first && r.Fn != nil && len(r.binds) == 0 && r.Kind == "go" {
			if !seen[r.Fn] {
				seen[r.Fn] = true
				later = append(later, r.Fn)
			}
			return false
		}
		if r.init != nil {
			forgetShared(r.init, pr, facts, stores)
		}
		return true
	}
	for _, a := range pr.actions {
		names = append(names, fnName(a))
		o := o
		o.unroll = true
		o.init = func(ex *Exec, st *State, args []*Term) {
			// the tables of options as they were initialised
			if st0 != nil {
				from := st0.clone()
				for k, v := range from.mem {
					st.mem[k] = v
				}
				for k := range from.dirty {
					st.dirty[k] = true
				}
				st.pc = from.pc
			}
			nonNilParams(ex, st, args)
		}
		paths = append(paths, c.exploreFn(a, o)...)
	}
	first = false
	for n := 0; n < len(later); n++ {
		names = append(names, fnName(later[n]))
		o := o
		o.init = nonNilParams
		paths = append(paths, c.exploreFn(later[n], o)...)
	}
	// functions which are called later, by whoever they were given to
	for len(paths) > 0 {
		type made struct {
			p *Path
			t *Term
		}
		var found []made
		dup := map[*Term]bool{}
		for _, p := range paths {
			look := func(t *Term) {
				t.find(func(x *Term) bool {
					if f, ok := x.Aux.(*ssa.Function); ok && (x.Op == "closure" || x.Op == "func") && len(f.Blocks) > 0 && pr.has(f) && c.p.inModule(f) && !c.fns[fnName(f)] && !dup[x] {
						dup[x] = true
						found = append(found, made{p, x})
					}
					return false
				})
			}
			for _, v := range p.St.mem {
				look(v)
			}
			for _, e := range p.Events() {
				for _, a := range e.Args {
					look(a)
				}
				if e.Val != nil {
					look(e.Val)
				}
			}
		}
		sort.Slice(found, func(i, j int) bool {
			return fnName(found[i].t.Aux.(*ssa.Function)) < fnName(found[j].t.Aux.(*ssa.Function))
		})
		paths = nil
		for _, m := range found {
			o := o
			o.init = nonNilParams
			names = append(names, fnName(m.t.Aux.(*ssa.Function)))
			q := &Path{St: m.p.St.clone()}
			forgetShared(q.St, pr, facts, stores)
			paths = append(paths, c.invoke(q, m.t, o)...)
		}
	}
	return names
}

// forgetShared drops what another goroutine may have changed since: everything but local variables, and the fields and variables
// which are assigned in a single place.
func forgetShared(st *State, pr *program, facts map[string]fact, stores map[string][]storeSite) {
	for a, v := range st.mem {
		root := addrRoot(a)
		if root.Op == "alloc" && (a == root || localVar(root)) {
			continue
		}
		k := fieldKey(a)
		var ss []storeSite
		ok := false
		if root.Op == "global" {
			g := globalChain(a)
			for q, l := range stores {
				if !strings.HasPrefix(q, "#") {
					continue
				}
				if q = q[1:]; q == g || strings.HasPrefix(q, g+"#") || strings.HasPrefix(g, q+"#") {
					ok = true
					ss = append(ss, l...)
				}
			}
		} else {
			for x := a; x.Op == "faddr" && !ok; x = x.Args[0] {
				ss, ok = stores[fieldKey(x)]
			}
		}
		n := 0
		for _, s := range ss {
			if pr.has(s.fn) && !s.init {
				n++
			}
		}
		if ok && n <= 1 {
			continue
		}
		if root.Op == "alloc" || root.Op == "makeslice" {
			st.dirty[root] = true
		}
		delete(st.mem, a)
		if facts[k] == factSticky && v.Typ != nil && st.pc.entails(mkNot(mkEq(v, mkNil(v.Typ)))) {
			n := fresh("cell", v.Typ)
			st.addFact(mkNot(mkEq(n, mkNil(v.Typ))))
			st.mem[a] = n
		}
	}
	for a := range st.mem {
		if r := addrRoot(a); r != a && !localVar(r) && (r.Op == "alloc" || r.Op == "makeslice") {
			st.dirty[r] = true
		}
	}
}

func globalChain(a *Term) string {
	if a.Op == "faddr" {
		return globalChain(a.Args[0]) + "#" + fieldName(a)
	}
	if a.Op == "global" {
		return globalKey(a)
	}
	return "?"
}

var allocSite = map[*Term]*ssa.Alloc{}

// localVar: the memory is that of a variable, not of an object created with new or a composite literal.
func localVar(root *Term) bool {
	a := allocSite[root]
	return a != nil && a.Comment != "complit" && a.Comment != "new"
}
