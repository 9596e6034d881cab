package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Held is a lock held at some point of a path.
type Held struct {
	L *Term
	W bool
}

// Ev is one event of a path; events form a persistent list.
type Ev struct {
	up     *Ev
	N      int
	Kind   string // call go lock unlock send recv close select store load mapupd delete wait ret panic loophead loopback loopexit branch callback enter leave
	Instr  ssa.Instruction
	Fn     *ssa.Function // function containing Instr
	Frame  *Frame
	Name   string // callee (calls), lock kind ...
	Callee *ssa.Function
	Args   []*Term // call arguments (receiver first), channel operands ...
	Var    []*Term // resolved variadic elements, if any
	HasVar bool
	Res    *Term
	Addr   *Term
	Val    *Term
	Held   []Held
	PC     *PC
	Aux    interface{}
	Def    bool // executed as a deferred call
}

// State is the abstract state of one path.
type State struct {
	mem   map[*Term]*Term
	dirty map[*Term]bool // roots whose unset cells hold unknown values
	vol   map[*Term]bool // roots written by another goroutine: every load is fresh
	pc    *PC
	held  []Held
	ev    *Ev
	epoch int
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, dirty: map[*Term]bool{}, vol: map[*Term]bool{}}
}

func (s *State) clone() *State {
	c := &State{pc: s.pc, held: s.held, ev: s.ev, epoch: s.epoch}
	c.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		c.mem[k] = v
	}
	c.dirty = make(map[*Term]bool, len(s.dirty))
	for k := range s.dirty {
		c.dirty[k] = true
	}
	c.vol = s.vol
	return c
}

func (s *State) markVol(t *Term) {
	n := map[*Term]bool{t: true}
	for k := range s.vol {
		n[k] = true
	}
	s.vol = n
}

// assume adds a literal; false means the path is infeasible.
func (s *State) assume(t *Term) bool {
	if b, ok := t.boolVal(); ok {
		return b
	}
	if s.pc.has(t) {
		return true
	}
	if s.pc.entails(mkNot(t)) {
		return false
	}
	s.pc = s.pc.push(t)
	// contracts of pure predicates
	if t.Op == "app" {
		switch t.Aux.(string) {
		case "strings.HasPrefix", "strings.HasSuffix":
			s.pc = s.pc.push(mkLt0(linOf(lenOf(t.Args[1])).add(linOf(lenOf(t.Args[0])), -1).add(linConst(1), -1)))
		}
	}
	// a == b for strings gives equal lengths
	if t.Op == "eq" && isString(t.Args[0].Typ) {
		s.addFact(mkEq(lenOf(t.Args[0]), lenOf(t.Args[1])))
	}
	return true
}

func (s *State) addFact(t *Term) {
	if _, ok := t.boolVal(); ok {
		return
	}
	if !s.pc.has(t) {
		s.pc = s.pc.push(t)
	}
}

// ---- addresses ----

func addrRoot(a *Term) *Term {
	for {
		switch a.Op {
		case "faddr", "iaddr":
			a = a.Args[0]
		case "slice":
			a = a.Args[0]
		default:
			return a
		}
	}
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func addrType(a *Term) types.Type {
	if a.Typ == nil {
		return nil
	}
	return ptrElem(a.Typ)
}

func typeKey(t types.Type) string {
	return types.TypeString(t, nil)
}

// addrClass groups addresses which may alias.
func addrClass(a *Term) string {
	if a.class == "" {
		a.class = addrClass1(a)
	}
	return a.class
}

func addrClass1(a *Term) string {
	switch a.Op {
	case "faddr":
		st := ptrElem(a.Args[0].Typ)
		return fmt.Sprintf("F:%s.%d", typeKey(st), a.Aux.(int))
	case "iaddr":
		return "E:" + typeKey(addrType(a))
	case "global":
		return "G:" + a.key
	}
	return "P:" + typeKey(addrType(a))
}

// fieldKey names the field a faddr term addresses: "playback.Playlist.position".
func fieldKey(a *Term) string {
	if a.Op != "faddr" {
		if a.Op == "global" {
			return globalKey(a)
		}
		return ""
	}
	if a.fkey == "" {
		a.fkey = short(typeKey(ptrElem(a.Args[0].Typ))) + "." + fieldName(a)
	}
	return a.fkey
}

func globalKey(a *Term) string {
	g := a.Aux.(*ssa.Global)
	return short(g.String())
}

func freshRoot(r *Term) bool {
	return r.Op == "alloc" || r.Op == "makeslice" || r.Op == "append"
}

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := addrRoot(a), addrRoot(b)
	if ra != rb && (freshRoot(ra) || freshRoot(rb) || ra.Op == "global" && rb.Op == "global") {
		return false
	}
	if a.Op == "iaddr" && b.Op == "iaddr" && a.Args[0] == b.Args[0] {
		if s.pc.entails(mkNot(mkEq(a.Args[1], b.Args[1]))) {
			return false
		}
	}
	if a.Op == "faddr" && b.Op == "faddr" && a.Args[0].Op == b.Args[0].Op && (a.Args[0].Op == "iaddr" || a.Args[0].Op == "faddr") {
		return s.mayAlias(a.Args[0], b.Args[0])
	}
	return true
}

func expandable(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "time", "reflect", "math/big":
			return nil
		}
	}
	if st.NumFields() > 40 {
		return nil
	}
	return st
}

func smallArray(t types.Type) (*types.Array, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() > 8 {
		return nil, false
	}
	return a, true
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkInt(0, t)
		case u.Info()&types.IsFloat != 0:
			return mkFloat(0, t)
		case u.Info()&types.IsString != 0:
			return mkString("")
		}
		return mk("zero", t, typeKey(t))
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return mkNil(t)
	case *types.Struct:
		if st := expandable(t); st != nil {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = zeroOf(st.Field(i).Type())
			}
			return mk("struct", t, typeKey(t), args...)
		}
	case *types.Array:
		if a, ok := smallArray(t); ok {
			args := make([]*Term, a.Len())
			for i := range args {
				args[i] = zeroOf(a.Elem())
			}
			return mk("arr", t, typeKey(t), args...)
		}
	}
	return mk("zero", t, typeKey(t))
}

func mkFaddr(base *Term, i int, ft types.Type) *Term {
	return mk("faddr", types.NewPointer(ft), i, base)
}

func mkIaddr(base, idx *Term, et types.Type) *Term {
	if base.Op == "slice" {
		// element i of b[lo:hi] is element lo+i of b
		return mkIaddr(base.Args[0], mkAdd(base.Args[1], idx, nil), et)
	}
	return mk("iaddr", types.NewPointer(et), nil, base, idx)
}

func mkField(v *Term, i int, ft types.Type) *Term {
	if v.Op == "struct" {
		return v.Args[i]
	}
	if v.Op == "zero" {
		return zeroOf(ft)
	}
	return mk("fld", ft, i, v)
}

// load reads the cell at addr.
func (ex *Exec) load(st *State, addr *Term, t types.Type) *Term {
	if s := expandable(t); s != nil {
		args := make([]*Term, s.NumFields())
		same := true
		var src *Term
		for i := range args {
			args[i] = ex.load(st, mkFaddr(addr, i, s.Field(i).Type()), s.Field(i).Type())
			if args[i].Op == "fld" && args[i].Aux.(int) == i && (src == nil || src == args[i].Args[0]) {
				src = args[i].Args[0]
			} else {
				same = false
			}
		}
		if same && src != nil && types.Identical(src.Typ, t) {
			return src
		}
		return mk("struct", t, typeKey(t), args...)
	}
	if a, ok := smallArray(t); ok {
		args := make([]*Term, a.Len())
		for i := range args {
			args[i] = ex.load(st, mkIaddr(addr, mkInt(int64(i), nil), a.Elem()), a.Elem())
		}
		return mk("arr", t, typeKey(t), args...)
	}
	root := addrRoot(addr)
	if st.vol[root] {
		v := fresh("vol", t)
		return v
	}
	if v, ok := st.mem[addr]; ok && !ex.unstable(st, addr) {
		return v
	}
	if ex.unstable(st, addr) {
		st.epoch = nextEpoch()
		v := mk("ld", t, st.epoch, addr)
		ex.onLoad(st, addr, v)
		return v
	}
	if (root.Op == "alloc" || root.Op == "makeslice") && !st.dirty[root] {
		// never written: the zero value, unless a symbolic element may have been written
		if addr.Op == "iaddr" {
			for b := range st.mem {
				if b.Op == "iaddr" && b.Args[0] == addr.Args[0] && st.mayAlias(addr, b) {
					v := mk("ld", t, st.epoch, addr)
					st.mem[addr] = v
					return v
				}
			}
		}
		return zeroOf(t)
	}
	if root.Op == "append" && addr.Op == "iaddr" && addr.Args[0] == root && !st.dirty[root] {
		if v := ex.appendElem(st, root, addr.Args[1], t); v != nil {
			return v
		}
	}
	ep := st.epoch
	if ex.immutable(addr) {
		ep = 0
	}
	v := mk("ld", t, ep, addr)
	st.mem[addr] = v
	ex.onLoad(st, addr, v)
	return v
}

func (ex *Exec) appendElem(st *State, ap, idx *Term, t types.Type) *Term {
	if ap.Aux == "spread" {
		return nil
	}
	l := lenOf(ap.Args[0])
	for i := 1; i < len(ap.Args); i++ {
		if st.pc.entails(mkEq(idx, linOf(l).add(linConst(int64(i-1)), 1).term(nil))) {
			return ap.Args[i]
		}
	}
	if st.pc.entails(mkLt0(linOf(idx).add(linOf(l), -1))) {
		return ex.load(st, mkIaddr(ap.Args[0], idx, t), t)
	}
	return nil
}

var epochSeq int

func nextEpoch() int { epochSeq++; return epochSeq }

// store writes v to the cell at addr.
func (ex *Exec) store(st *State, addr, v *Term, t types.Type) {
	if s := expandable(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ex.store(st, mkFaddr(addr, i, s.Field(i).Type()), mkField(v, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	if a, ok := smallArray(t); ok {
		for i := int64(0); i < a.Len(); i++ {
			var e *Term
			if v.Op == "arr" {
				e = v.Args[i]
			} else if v.Op == "zero" {
				e = zeroOf(a.Elem())
			} else {
				e = mk("elt", a.Elem(), int(i), v)
			}
			ex.store(st, mkIaddr(addr, mkInt(i, nil), a.Elem()), e, a.Elem())
		}
		return
	}
	cl := addrClass(addr)
	deref := cl[0] == 'P' && addr.Op != "alloc"
	for b := range st.mem {
		if b == addr {
			continue
		}
		if addrClass(b) == cl || deref && addrType(b) != nil && types.Identical(addrType(b), t) && addrRoot(b).Op != "alloc" {
			if st.mayAlias(addr, b) {
				delete(st.mem, b)
				st.epoch = nextEpoch()
				if freshRoot(addrRoot(b)) {
					st.dirty[addrRoot(b)] = true
				}
			}
		}
	}
	st.mem[addr] = v
	if r := addrRoot(addr); r.Op == "append" {
		st.dirty[r] = true // its elements are no longer those it was made of
	}
}

// havocRoot forgets everything stored below root.
func (st *State) havocRoot(root *Term) {
	st.epoch = nextEpoch()
	for b := range st.mem {
		if addrRoot(b) == root {
			delete(st.mem, b)
		}
	}
	st.dirty[root] = true
}

// reach walks the roots reachable from a term through memory.
func (st *State) reach(t *Term, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	switch t.Op {
	case "faddr", "iaddr", "slice":
		st.reach(t.Args[0], seen)
		return
	case "alloc", "makeslice", "makemap":
		seen[t] = true
		for b, v := range st.mem {
			if addrRoot(b) == t {
				st.reach(v, seen)
			}
		}
	case "iface", "struct", "arr", "closure", "append", "tuple", "vargs":
		seen[t] = true
		for _, a := range t.Args {
			st.reach(a, seen)
		}
		if t.Op == "append" {
			for b, v := range st.mem {
				if addrRoot(b) == t {
					st.reach(v, seen)
				}
			}
		}
	default:
		if t.Typ != nil {
			switch t.Typ.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
				seen[t] = true
				for b, v := range st.mem {
					if addrRoot(b) == t {
						st.reach(v, seen)
					}
				}
			}
		}
	}
}
