package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func mkFloat(f float64, t types.Type) *Term {
	if t == nil {
		t = types.Typ[types.Float64]
	}
	return mkConst(constant.MakeFloat64(f), t)
}

type CallRes struct {
	Name string
	N    int
	Fn   *ssa.Function
	Ev   *Ev
}

// Frame is an activation of a function on a path.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	up     *Frame
	site   ssa.Instruction
	depth  int
	loops  map[*ssa.BasicBlock]*LoopCtx
	k      kont
	inDef  bool
}

type kont func(st *State, rets []*Term)

type deferred struct {
	instr *ssa.Defer
	fnT   *Term
	args  []*Term
}

func (fr *Frame) clone() *Frame {
	c := *fr
	c.env = make(map[ssa.Value]*Term, len(fr.env)+8)
	for k, v := range fr.env {
		c.env[k] = v
	}
	c.defers = append([]deferred{}, fr.defers...)
	c.loops = make(map[*ssa.BasicBlock]*LoopCtx, len(fr.loops))
	for k, v := range fr.loops {
		c.loops[k] = v
	}
	return &c
}

// Path is a maximal explored path of a root.
type Path struct {
	Root *Root
	End  string // ret panic back exit block
	St   *State
	Rets []*Term
	evs  []*Ev
}

func (p *Path) Events() []*Ev {
	if p.evs == nil {
		n := 0
		for e := p.St.ev; e != nil; e = e.up {
			n++
		}
		p.evs = make([]*Ev, n)
		for e := p.St.ev; e != nil; e = e.up {
			n--
			p.evs[n] = e
		}
	}
	return p.evs
}

// Root is a function explored from the outside, or a goroutine/callback explored in the context which created it.
type Root struct {
	Name   string
	Fn     *ssa.Function
	Args   []*Term
	Kind   string // entry go callback
	Spawn  *Ev
	Parent *Root
	Multi  bool // several instances may run at once
	init   *State
	binds  []*Term
}

// Ob is a proof obligation: key identifies the construct, ok is false if it failed on some path.
type Ob struct {
	Key   string
	Kind  string
	Where string
	Count int
	Fail  string
	Pkg   string
	Fn    string
	Root  string
}

type Exec struct {
	p          *Prog
	quiet      int
	obs        map[string]*Ob
	sink       func(*Path)
	spawn      func(r *Root)
	cur        *Root
	steps      int
	maxSteps   int
	overflow   bool
	opaqueFn   func(fn *ssa.Function) bool
	loopInfo   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	imm        map[string]bool
	guards     map[string]string // field key -> guard descriptor
	cuts       map[*ssa.Function]map[*ssa.BasicBlock]loopCut
	unroll     bool                // loops whose tests are decided are followed iteration by iteration
	facts      map[string]fact     // what always holds of fields and variables
	factStores map[*ssa.Store]bool // the stores to them which were checked
	factUsed   map[string]bool     // those which were assumed
	allocOf    map[*Term]*ssa.Alloc
	notes      []string
	fnsSeen    map[*ssa.Function]bool
	callsN     int
	trace      bool
	keep       func(*Ev) bool // events which keep paths apart when a call returns; nil: paths are never joined
	joinMax    int            // more return paths than this (without kept events) are joined even if their effects differ
}

func newExec(p *Prog) *Exec {
	return &Exec{p: p, obs: map[string]*Ob{}, maxSteps: 4000000,
		loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		allocOf:  map[*Term]*ssa.Alloc{}, fnsSeen: map[*ssa.Function]bool{}}
}

func (ex *Exec) emit(fr *Frame, st *State, e *Ev) *Ev {
	e.up = st.ev
	if st.ev != nil {
		e.N = st.ev.N + 1
	}
	e.Held = st.held
	e.PC = st.pc
	if fr != nil {
		e.Fn = fr.fn
		e.Frame = fr
		e.Def = fr.inDef
	}
	st.ev = e
	return e
}

func (ex *Exec) end(st *State, how string, rets []*Term) {
	if ex.quiet > 0 {
		return
	}
	if ex.sink != nil {
		ex.sink(&Path{Root: ex.cur, End: how, St: st, Rets: rets})
	}
}

func (ex *Exec) where(i ssa.Instruction, fr *Frame) string {
	pos := token.NoPos
	if i != nil {
		pos = i.Pos()
		if !pos.IsValid() {
			// search operands
			for _, o := range i.Operands(nil) {
				if *o != nil && (*o).Pos().IsValid() {
					pos = (*o).Pos()
				}
			}
		}
	}
	return ex.p.pos(pos)
}

// oblige records a proof obligation.
func (ex *Exec) oblige(fr *Frame, st *State, kind string, instr ssa.Instruction, what string, ok bool) {
	if ex.quiet > 0 {
		return
	}
	key := kind + "|" + fnName(fr.fn) + "|" + what
	o := ex.obs[key]
	if o == nil {
		o = &Ob{Key: key, Kind: kind, Where: ex.where(instr, fr), Pkg: ex.p.pkgRel(fr.fn), Fn: fnName(fr.fn)}
		ex.obs[key] = o
	}
	o.Count++
	if !ok && o.Fail == "" {
		o.Where = ex.where(instr, fr)
		o.Root = ex.cur.Name
		o.Fail = fmt.Sprintf("%s at %s (reached from %s): %s", kind, o.Where, ex.cur.Name, what)
		if ex.trace {
			for _, l := range st.pc.lits() {
				o.Fail += "\n      pc " + l.String()
			}
		}
	}
}

// run explores a root.
func (ex *Exec) run(r *Root) {
	ex.cur = r
	st := r.init
	if st == nil {
		st = newState()
	}
	args := r.Args
	if args == nil {
		for _, p := range r.Fn.Params {
			args = append(args, mkParam(r.Fn, p))
		}
	}
	ex.call(nil, st, r.Fn, args, r.binds, nil, false, func(st *State, rets []*Term) {
		ex.end(st, "ret", rets)
	})
}

func mkParam(fn *ssa.Function, p *ssa.Parameter) *Term {
	return mk("param", p.Type(), p.Name()+"@"+fnName(fn))
}

func inStack(fr *Frame, fn *ssa.Function) int {
	n := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (ex *Exec) call(up *Frame, st *State, fn *ssa.Function, args, binds []*Term, site ssa.Instruction, inDef bool, k kont) {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, up: up, site: site, k: k, loops: map[*ssa.BasicBlock]*LoopCtx{}, inDef: inDef}
	if up != nil {
		fr.depth = up.depth + 1
		fr.inDef = fr.inDef || up.inDef
	}
	if ex.quiet == 0 {
		ex.fnsSeen[fn] = true
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = fresh("arg", p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			fr.env[fv] = binds[i]
		} else {
			fr.env[fv] = mk("param", fv.Type(), fv.Name()+"@free:"+fnName(fn))
		}
	}
	if up != nil {
		ex.emit(fr, st, &Ev{Kind: "enter", Instr: site, Name: fnName(fn), Callee: fn, Args: args})
	}
	if up == nil || ex.keep == nil {
		ex.block(fr, st, fn.Blocks[0], nil)
		return
	}
	// explore the callee, then continue once per distinguishable outcome
	var outs []*outcome
	pc0, ev0 := st.pc, st.ev
	fr.k = func(st *State, rets []*Term) {
		o := &outcome{st: st, rets: rets}
		for e := st.ev; e != nil && e != ev0; e = e.up {
			if ex.keep(e) {
				o.kept = true
				break
			}
		}
		outs = append(outs, o)
	}
	ex.block(fr, st, fn.Blocks[0], nil)
	for _, o := range ex.join(outs, pc0) {
		k(o.st, o.rets)
	}
}

func (ex *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return mk("global", v.Type(), v)
	case *ssa.Function:
		return mk("func", v.Type(), v)
	case *ssa.Builtin:
		return mk("builtin", v.Type(), v.Name())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	t := fresh("undef:"+v.Name(), v.Type())
	fr.env[v] = t
	return t
}

// ---- control flow ----

// LoopCtx is an active loop.
type LoopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	disc   bool
	onBack func(fr *Frame, st *State, prev *ssa.BasicBlock)
	info   *LoopInfo
}

// LoopInfo describes an explored loop (attached to loophead/loopback/loopexit events).
type LoopInfo struct {
	Header *ssa.BasicBlock
	Phis   []*ssa.Phi
	Init   []*Term
	Sym    []*Term
	Next   []*Term         // on loopback
	Mod    map[*Term]*Term // changed memory cells and their value at the loop head
	MInit  map[*Term]*Term // by that value: the value on entry
	MNext  map[*Term]*Term // by that value: the value on loopback
}

// flow gives the values a loop-carried value comes from (nil, nil if sym is not carried by the loop).
func (li *LoopInfo) flow(sym *Term) (init, next *Term) {
	for i, s := range li.Sym {
		if s == sym {
			if li.Next != nil {
				next = li.Next[i]
			}
			return li.Init[i], next
		}
	}
	return li.MInit[sym], li.MNext[sym]
}

func (ex *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := ex.loopInfo[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := l[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					l[h] = body
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	cuts := map[*ssa.BasicBlock]loopCut{}
	for h, body := range l {
		if b, i := readAhead(h, body); b != nil && (l[b] == nil || b == h) {
			cuts[b] = loopCut{i, body}
			delete(l, h)
		}
	}
	ex.loopInfo[fn] = l
	if ex.cuts == nil {
		ex.cuts = map[*ssa.Function]map[*ssa.BasicBlock]loopCut{}
	}
	ex.cuts[fn] = cuts
	return l
}

// loopCut is where a loop is cut other than at its header: before an instruction.
type loopCut struct {
	at   int
	body map[*ssa.BasicBlock]bool
}

// readAhead: the loop ends each iteration with getting what the next one works on (x := f(); for x.ok() { use(x); x = f() }).
// Such a loop is cut where it gets the next thing instead of where it tests it, so that getting and using are seen together.
func readAhead(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (*ssa.BasicBlock, int) {
	var latch *ssa.BasicBlock
	for _, p := range h.Preds {
		if body[p] {
			if latch != nil {
				return nil, 0
			}
			latch = p
		}
	}
	if latch == nil || len(latch.Succs) != 1 {
		return nil, 0
	}
	index := map[ssa.Instruction]int{}
	for i, in := range latch.Instrs {
		index[in] = i
	}
	// from where what is carried into the next iteration is made
	at := -1
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		d, ok := v.(ssa.Instruction)
		if !ok || !body[d.Block()] {
			return true
		}
		if _, phi := d.(*ssa.Phi); phi || d.Block() != latch {
			return false
		}
		if i := index[d]; at < 0 || i < at {
			at = i
		}
		for _, o := range d.Operands(nil) {
			if *o != nil && !from(*o) {
				return false
			}
		}
		return true
	}
	li := predIndex(h, latch)
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !from(phi.Edges[li]) {
			return nil, 0
		}
	}
	if at < 0 {
		return nil, 0
	}
	gets := false
	for _, in := range latch.Instrs[at:] {
		if c, ok := in.(*ssa.Call); ok {
			if _, bi := c.Call.Value.(*ssa.Builtin); !bi {
				gets = true
			}
		}
		// nothing of the iteration is used
		for _, o := range in.Operands(nil) {
			if *o == nil {
				continue
			}
			if d, ok := (*o).(ssa.Instruction); ok && body[d.Block()] && (d.Block() != latch || index[d] < at) {
				return nil, 0
			}
		}
	}
	if !gets {
		return nil, 0
	}
	return latch, at
}

func (ex *Exec) block(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	ex.steps++
	if ex.steps > ex.maxSteps {
		ex.overflow = true
		return
	}
	// leaving loops
	if prev != nil {
		var hs []*ssa.BasicBlock
		for h, c := range fr.loops {
			if c.body[prev] && !c.body[b] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index > hs[j].Index })
		for _, h := range hs {
			c := fr.loops[h]
			if c.disc {
				return
			}
			delete(fr.loops, h)
			ex.emit(fr, st, &Ev{Kind: "loopexit", Aux: c.info, Instr: lastInstr(prev)})
		}
	}
	if body := ex.loopsOf(fr.fn)[b]; body != nil {
		if c := fr.loops[b]; c != nil && prev != nil && body[prev] {
			if flag, val := flagLeaves(b, body); flag != nil {
				// the loop ends when a flag is set: like leaving it where it is set
				leave := ex.val(fr, flag.Edges[predIndex(b, prev)])
				if !val {
					leave = mkNot(leave)
				}
				ex.branch(fr, st, leave, func(fr *Frame, st *State) {
					ex.phis(fr, b, prev)
					ex.instrs(fr, st, b, 0)
				}, func(fr *Frame, st *State) { c.onBack(fr, st, prev) })
				return
			}
			c.onBack(fr, st, prev)
			return
		}
		if ex.unroll && ex.decided(fr, st, b, prev) {
			ex.phis(fr, b, prev)
			ex.instrs(fr, st, b, 0)
			return
		}
		ex.enterLoop(fr, st, b, prev, 0, body)
		return
	}
	ex.phis(fr, b, prev)
	ex.instrs(fr, st, b, 0)
}

// decided: the loop header does nothing but test, and the outcome is known.
func (ex *Exec) decided(fr *Frame, st *State, b, prev *ssa.BasicBlock) bool {
	iff, ok := lastInstr(b).(*ssa.If)
	if !ok || prev == nil {
		return false
	}
	f, s := fr.clone(), st.clone()
	ex.phis(f, b, prev)
	ex.quiet++
	defer func() { ex.quiet-- }()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			if !ex.simple(f, s, x) {
				return false
			}
			continue
		case *ssa.UnOp:
			if x.Op == token.ARROW || !ex.simple(f, s, x) {
				return false
			}
			continue
		case *ssa.FieldAddr, *ssa.Field:
			if !ex.simple(f, s, in) {
				return false
			}
			continue
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" && bi.Name() != "cap" {
				return false
			}
			switch x.Call.Args[0].Type().Underlying().(type) {
			case *types.Chan, *types.Map:
				return false
			}
			f.env[x] = ex.builtin(f, s, x, bi.Name(), []*Term{ex.val(f, x.Call.Args[0])}, &x.Call)
			continue
		}
		return false
	}
	_, known := ex.val(f, iff.Cond).boolVal()
	return known
}

// flagLeaves finds a flag of the loop with header b which ends it: once it has the value val, every way from the header
// leaves the loop without doing anything but testing.
func flagLeaves(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (flag *ssa.Phi, val bool) {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := phi.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsBoolean == 0 {
			continue
		}
		for _, v := range []bool{true, false} {
			if flagEnds(b, b, body, phi, v, 0) {
				return phi, v
			}
		}
	}
	return nil, false
}

func flagEnds(h, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, flag *ssa.Phi, val bool, depth int) bool {
	if !body[b] {
		return true
	}
	if depth > 0 && b == h || depth > 6 {
		return false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi:
			if b != h {
				return false
			}
		case *ssa.DebugRef, *ssa.BinOp, *ssa.Field, *ssa.Extract:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	switch x := lastInstr(b).(type) {
	case *ssa.Jump:
		return flagEnds(h, b.Succs[0], body, flag, val, depth+1)
	case *ssa.If:
		cond, v := x.Cond, val
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, v = u.X, !v
		}
		if cond == ssa.Value(flag) {
			if v {
				return flagEnds(h, b.Succs[0], body, flag, val, depth+1)
			}
			return flagEnds(h, b.Succs[1], body, flag, val, depth+1)
		}
		return flagEnds(h, b.Succs[0], body, flag, val, depth+1) && flagEnds(h, b.Succs[1], body, flag, val, depth+1)
	}
	return false
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[len(b.Instrs)-1] }

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (ex *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := predIndex(b, prev)
	var vs []*Term
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, ex.val(fr, p.Edges[pi]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

type backState struct {
	st   *State
	next []*Term
}

func variant(t *Term, seq0, epoch int, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	switch t.Op {
	case "const", "fconst", "nil", "global", "func", "param", "builtin", "zero":
		r = false
	case "sym", "call", "alloc", "makeslice", "makemap", "makechan", "lookup", "recv":
		r = t.ID > seq0
	case "ld":
		r = t.ID > seq0 && t.Aux.(int) != epoch && t.Aux.(int) != 0 || variant(t.Args[0], seq0, epoch, memo)
	default:
		for _, a := range t.Args {
			if variant(a, seq0, epoch, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

func (ex *Exec) enterLoop(fr *Frame, st *State, h, prev *ssa.BasicBlock, start int, body map[*ssa.BasicBlock]bool) {
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok || start > 0 {
			break
		}
		phis = append(phis, p)
	}
	if start == 0 {
		start = len(phis)
	}
	pi := predIndex(h, prev)
	info := &LoopInfo{Header: h, Phis: phis}
	for _, p := range phis {
		var v *Term
		if pi >= 0 {
			v = ex.val(fr, p.Edges[pi])
		} else {
			v = fresh("undef", p.Type())
		}
		info.Init = append(info.Init, v)
	}
	seq0 := termSeq
	for _, p := range phis {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		info.Sym = append(info.Sym, fresh(n, p.Type()))
	}
	cells := map[*Term]*Term{}   // exact modified cells -> havoc symbol
	bases := map[*Term]bool{}    // element bases modified at a varying index
	classes := map[string]bool{} // classes modified at a varying base
	droots := map[*Term]bool{}
	changedEpoch := false

	prepare := func() (*Frame, *State) {
		f, s := fr.clone(), st.clone()
		for i, p := range phis {
			f.env[p] = info.Sym[i]
		}
		if len(cells)+len(bases)+len(classes)+len(droots) > 0 || changedEpoch {
			s.epoch = nextEpoch()
		}
		for b := range bases {
			for a := range s.mem {
				if a.Op == "iaddr" && a.Args[0] == b || hasBase(a, b) {
					delete(s.mem, a)
				}
			}
			s.dirty[addrRoot(b)] = true
		}
		for a := range s.mem {
			if classes[addrClass(a)] {
				delete(s.mem, a)
				if freshRoot(addrRoot(a)) {
					s.dirty[addrRoot(a)] = true
				}
			}
		}
		for r := range droots {
			s.dirty[r] = true
		}
		for a, v := range cells {
			s.mem[a] = v
			ex.onLoad(s, a, v)
			if ex.facts[fieldKey(a)] == factSticky {
				if iv, ok := st.mem[a]; ok && ex.notNil(st, iv) {
					s.addFact(mkNot(mkEq(v, mkNil(addrType(a)))))
				}
			}
		}
		return f, s
	}
	discover := func(assume []*Term) (backs []backState, s0 *State, ok bool) {
		f, s := prepare()
		for _, a := range assume {
			if !s.assume(a) {
				return nil, s, false
			}
		}
		s0 = s.clone()
		f.loops[h] = &LoopCtx{header: h, body: body, disc: true, info: info, onBack: func(bf *Frame, bs *State, bp *ssa.BasicBlock) {
			bi := predIndex(h, bp)
			next := make([]*Term, len(phis))
			for i, p := range phis {
				next[i] = ex.val(bf, p.Edges[bi])
			}
			backs = append(backs, backState{bs, next})
		}}
		ex.quiet++
		ex.instrsFrom(f, s, h, start, true)
		ex.quiet--
		return backs, s0, true
	}
	var backs []backState
	for round := 0; round < 8; round++ {
		var s0 *State
		backs, s0, _ = discover(nil)
		grew := false
		for _, b := range backs {
			if b.st.epoch != s0.epoch && !changedEpoch {
				changedEpoch = true
				grew = true
			}
			memo := map[*Term]bool{}
			mark := func(a *Term) {
				root := addrRoot(a)
				if freshRoot(root) && root.ID > seq0 {
					return // created inside the iteration
				}
				if !variant(a, seq0, s0.epoch, memo) {
					if _, ok := cells[a]; !ok {
						cells[a] = fresh("cell", cellType(a))
						grew = true
					}
					return
				}
				// varying address
				x := a
				for x.Op == "faddr" {
					x = x.Args[0]
				}
				if x.Op == "iaddr" && !variant(x.Args[0], seq0, s0.epoch, memo) {
					if !bases[x.Args[0]] {
						bases[x.Args[0]] = true
						grew = true
					}
					return
				}
				if c := addrClass(a); !classes[c] {
					classes[c] = true
					grew = true
				}
			}
			for a, v := range b.st.mem {
				sv, ok := s0.mem[a]
				if ok && sv == v {
					continue
				}
				if !ok && v.Op == "ld" && v.Args[0] == a {
					continue // only read
				}
				mark(a)
			}
			for a := range s0.mem {
				if _, ok := b.st.mem[a]; !ok {
					mark(a)
				}
			}
			for r := range b.st.dirty {
				if !s0.dirty[r] && !(freshRoot(r) && r.ID > seq0) && !droots[r] {
					droots[r] = true
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	// candidate invariants
	cands := map[*Term]bool{}
	cand := func(t *Term) {
		if t.Op != "const" {
			cands[t] = true
		}
	}
	type iv struct {
		sym, init *Term
		phi       bool
	}
	var ivs []iv
	for i, p := range phis {
		if isInteger(p.Type()) {
			ivs = append(ivs, iv{info.Sym[i], info.Init[i], true})
		}
	}
	for a, s := range cells {
		if isInteger(addrType(a)) {
			v, ok := st.mem[a]
			if !ok {
				v = ex.load(st, a, addrType(a))
			}
			ivs = append(ivs, iv{s, v, false})
		}
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].sym.ID < ivs[j].sym.ID })
	for i, x := range ivs {
		d := linOf(x.sym).add(linOf(x.init), -1)
		cand(mkNot(mkLt0(d)))           // sym >= init
		cand(mkNot(mkLt0(d.scale(-1)))) // sym <= init
		cand(mkNot(mkLt0(linOf(x.sym))))
		for _, y := range ivs[i+1:] {
			e := d.add(linOf(y.sym), -1).add(linOf(y.init), 1)
			cand(mkNot(mkLt0(e)))
			cand(mkNot(mkLt0(e.scale(-1))))
			e = d.add(linOf(y.sym), 1).add(linOf(y.init), -1)
			cand(mkNot(mkLt0(e)))
			cand(mkNot(mkLt0(e.scale(-1))))
			if x.phi && y.phi {
				// one counter is a small multiple of another
				for _, k := range []int64{2, 4} {
					e = d.scale(k).add(linOf(y.sym), -1).add(linOf(y.init), 1)
					cand(mkNot(mkLt0(e)))
					cand(mkNot(mkLt0(e.scale(-1))))
					e = d.add(linOf(y.sym), -k).add(linOf(y.init), k)
					cand(mkNot(mkLt0(e)))
					cand(mkNot(mkLt0(e.scale(-1))))
				}
			}
		}
	}
	// comparisons met in the loop, and their non-strict forms
	loopAtoms := map[*Term]bool{}
	for _, x := range ivs {
		loopAtoms[x.sym] = true
	}
	memo := map[*Term]bool{}
	for _, b := range backs {
		for q := b.st.pc; q != nil && q != st.pc; q = q.up {
			t := q.lit
			if t.Op != "lt0" {
				continue
			}
			l := linOf(t.Args[0])
			okc, hit := true, false
			for a := range l.Coefs {
				if loopAtoms[a] {
					hit = true
				} else if variant(a, seq0, st.epoch, memo) {
					okc = false
				}
			}
			if okc && hit {
				cand(t)
				m := l
				m.C--
				cand(mkLt0(m))
			}
		}
	}
	// slices which only shrink or non-nil phis: phi != nil
	for i, p := range phis {
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature:
			cand(mkNot(mkEq(info.Sym[i], mkNil(p.Type()))))
		case *types.Basic:
			if isBool(p.Type()) {
				cand(info.Sym[i])
				cand(mkNot(info.Sym[i]))
			}
		}
	}
	// keep those which hold initially
	order := func() []*Term {
		var r []*Term
		for t := range cands {
			r = append(r, t)
		}
		sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
		return r
	}
	subInit := map[*Term]*Term{}
	for i := range phis {
		subInit[info.Sym[i]] = info.Init[i]
	}
	for a, s := range cells {
		v, ok := st.mem[a]
		if !ok {
			v = ex.load(st, a, addrType(a))
		}
		subInit[s] = v
	}
	for _, t := range order() {
		if !st.pc.entails(subst(t, subInit)) {
			delete(cands, t)
		}
	}
	for len(cands) > 0 {
		bs, _, ok := discover(order())
		if !ok {
			cands = map[*Term]bool{}
			break
		}
		dropped := false
		for _, b := range bs {
			sub := map[*Term]*Term{}
			for i := range phis {
				sub[info.Sym[i]] = b.next[i]
			}
			for a, s := range cells {
				if v, ok := b.st.mem[a]; ok {
					sub[s] = v
				} else {
					sub[s] = ex.load(b.st, a, addrType(a))
				}
			}
			for _, t := range order() {
				if !b.st.pc.entails(subst(t, sub)) {
					delete(cands, t)
					dropped = true
				}
			}
		}
		if !dropped {
			break
		}
	}
	info.Mod = cells
	info.MInit = map[*Term]*Term{}
	for _, s := range cells {
		info.MInit[s] = subInit[s]
	}
	f, s := prepare()
	for _, t := range order() {
		s.assume(t)
	}
	// equal bounds mean the phi is its initial value
	ex.emit(f, s, &Ev{Kind: "loophead", Aux: info, Instr: h.Instrs[0]})
	f.loops[h] = &LoopCtx{header: h, body: body, info: info, onBack: func(bf *Frame, bs *State, bp *ssa.BasicBlock) {
		bi := predIndex(h, bp)
		ni := *info
		ni.Next = make([]*Term, len(phis))
		for i, p := range phis {
			ni.Next[i] = ex.val(bf, p.Edges[bi])
		}
		ni.MNext = map[*Term]*Term{}
		for a, s := range cells {
			v, ok := bs.mem[a]
			if !ok {
				v = ex.load(bs, a, addrType(a))
			}
			ni.MNext[s] = v
		}
		ex.emit(bf, bs, &Ev{Kind: "loopback", Aux: &ni, Instr: lastInstr(bp)})
		ex.end(bs, "back", nil)
	}}
	ex.instrsFrom(f, s, h, start, true)
}

func hasBase(a, b *Term) bool {
	for a.Op == "faddr" || a.Op == "iaddr" {
		if a.Op == "iaddr" && a.Args[0] == b {
			return true
		}
		a = a.Args[0]
	}
	return false
}

// subst replaces terms and renormalises.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		l := t.Aux.(*linAux)
		r := linConst(l.C)
		for i, a := range args {
			r = r.add(linOf(a), l.K[i])
		}
		return r.term(t.Typ)
	case "lt0":
		return mkLt0(linOf(args[0]))
	case "eq0":
		return mkEq0(linOf(args[0]))
	case "not":
		return mkNot(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "len":
		return lenOf(args[0])
	case "cap":
		return capOf(args[0])
	case "slice":
		return mkSlice(args[0], args[1], args[2], t.Typ)
	}
	return mk(t.Op, t.Typ, t.Aux, args...)
}

// ---- instructions ----

func (ex *Exec) branch(fr *Frame, st *State, c *Term, yes, no func(fr *Frame, st *State)) {
	if b, ok := c.boolVal(); ok {
		if b {
			yes(fr, st)
		} else {
			no(fr, st)
		}
		return
	}
	nc := mkNot(c)
	if st.pc.entails(c) {
		yes(fr, st)
		return
	}
	if st.pc.entails(nc) {
		no(fr, st)
		return
	}
	s2, f2 := st.clone(), fr.clone()
	if st.assume(c) {
		yes(fr, st)
	}
	if s2.assume(nc) {
		no(f2, s2)
	}
}

func (ex *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	ex.instrsFrom(fr, st, b, i, false)
}

func (ex *Exec) instrsFrom(fr *Frame, st *State, b *ssa.BasicBlock, i int, resume bool) {
	for ; i < len(b.Instrs); i++ {
		if cut, ok := ex.cuts[fr.fn][b]; ok && i == cut.at && !resume {
			if c := fr.loops[b]; c != nil {
				c.onBack(fr, st, b)
			} else {
				ex.enterLoop(fr, st, b, nil, i, cut.body)
			}
			return
		}
		resume = false
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ex.val(fr, in.Cond)
			ex.branch(fr, st, c,
				func(fr *Frame, st *State) { ex.block(fr, st, b.Succs[0], b) },
				func(fr *Frame, st *State) { ex.block(fr, st, b.Succs[1], b) })
			return
		case *ssa.Jump:
			ex.block(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			rets := make([]*Term, len(in.Results))
			for j, r := range in.Results {
				rets[j] = ex.val(fr, r)
			}
			for _, c := range fr.loops {
				if c.disc {
					return
				}
			}
			if len(fr.defers) > 0 {
				// only possible without RunDefers in panicking code
			}
			ex.emit(fr, st, &Ev{Kind: "leave", Instr: in, Name: fnName(fr.fn), Callee: fr.fn, Args: rets})
			fr.k(st, rets)
			return
		case *ssa.Panic:
			for _, c := range fr.loops {
				if c.disc {
					return
				}
			}
			if nonZeroPanic(in) {
				ex.oblige(fr, st, "explicit panic", in, "panic "+ex.val(fr, in.X).String(), false)
			}
			ex.emit(fr, st, &Ev{Kind: "panic", Instr: in, Val: ex.val(fr, in.X)})
			ex.end(st, "panic", nil)
			return
		case *ssa.RunDefers:
			ex.runDefers(fr, st, func(fr *Frame, st *State) { ex.instrs(fr, st, b, i+1) })
			return
		case *ssa.Call:
			done := false
			ex.doCall(fr, st, in, in.Common(), func(fr2 *Frame, st2 *State, res *Term, inline bool) {
				if inline {
					f := fr2.clone()
					f.env[in] = res
					ex.instrs(f, st2, b, i+1)
				} else {
					fr2.env[in] = res
					fr, st = fr2, st2
					done = true
				}
			})
			if !done {
				return
			}
		case *ssa.Go:
			ex.doGo(fr, st, in)
		case *ssa.Defer:
			c := in.Common()
			d := deferred{instr: in}
			d.fnT, d.args = ex.callOperands(fr, c)
			if c.IsInvoke() || !isBuiltinVal(c.Value) {
				ex.oblige(fr, st, "nil function or interface called", in, "deferred "+callDesc(c), ex.notNil(st, firstOf(d.fnT, d.args, c)))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Select:
			ex.doSelect(fr, st, in, func(fr *Frame, st *State) { ex.instrs(fr, st, b, i+1) })
			return
		case *ssa.TypeAssert:
			ex.doTypeAssert(fr, st, in, func(fr *Frame, st *State) { ex.instrs(fr, st, b, i+1) })
			return
		default:
			if !ex.simple(fr, st, in) {
				return
			}
		}
	}
}

func nonZeroPanic(in *ssa.Panic) bool { return true }

func isBuiltinVal(v ssa.Value) bool { _, ok := v.(*ssa.Builtin); return ok }

func firstOf(fnT *Term, args []*Term, c *ssa.CallCommon) *Term {
	if c.IsInvoke() {
		return args[0]
	}
	return fnT
}

func callDesc(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return c.Value.Name()
}

func (ex *Exec) runDefers(fr *Frame, st *State, k func(fr *Frame, st *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr = fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	ex.invoke(fr, st, d.instr, d.instr.Common(), d.fnT, d.args, true, func(fr2 *Frame, st2 *State, res *Term, inline bool) {
		f := fr2
		if inline {
			f = fr2.clone()
		}
		ex.runDefers(f, st2, k)
	})
}

func (ex *Exec) simple(fr *Frame, st *State, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		freshSeq++
		t := mk("alloc", in.Type(), freshSeq)
		ex.allocOf[t] = in
		allocSite[t] = in
		fr.env[in] = t
	case *ssa.BinOp:
		fr.env[in] = ex.binop(fr, st, in, in.Op, ex.val(fr, in.X), ex.val(fr, in.Y), in.Type())
	case *ssa.UnOp:
		return ex.unop(fr, st, in)
	case *ssa.ChangeType:
		fr.env[in] = retype(ex.val(fr, in.X), in.Type())
	case *ssa.ChangeInterface:
		fr.env[in] = ex.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = ex.convert(fr, st, ex.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[in] = mk("conv", in.Type(), typeKey(in.Type()), ex.val(fr, in.X))
	case *ssa.SliceToArrayPointer:
		fr.env[in] = mk("conv", in.Type(), typeKey(in.Type()), ex.val(fr, in.X))
	case *ssa.MakeInterface:
		fr.env[in] = mk("iface", in.Type(), in.X.Type(), ex.val(fr, in.X))
	case *ssa.MakeClosure:
		args := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			args[i] = ex.val(fr, b)
		}
		fr.env[in] = mk("closure", in.Type(), in.Fn.(*ssa.Function), args...)
	case *ssa.MakeSlice:
		l, c := ex.val(fr, in.Len), ex.val(fr, in.Cap)
		freshSeq++
		t := mk("makeslice", in.Type(), freshSeq, l, c)
		ex.oblige(fr, st, "make size may be negative", in, "make "+shortType(in.Type()), st.pc.entails(mkNot(mkLt0(linOf(l)))) && st.pc.entailsLe(l, c, 0))
		fr.env[in] = t
		ex.emit(fr, st, &Ev{Kind: "make", Instr: in, Res: t, Args: []*Term{l, c}})
	case *ssa.MakeMap:
		freshSeq++
		fr.env[in] = mk("makemap", in.Type(), freshSeq)
	case *ssa.MakeChan:
		freshSeq++
		fr.env[in] = mk("makechan", in.Type(), freshSeq, ex.val(fr, in.Size))
	case *ssa.FieldAddr:
		x := ex.val(fr, in.X)
		ft := ptrElem(in.Type())
		ex.oblige(fr, st, "nil dereference", in, "field "+derefStruct(in.X.Type()).Field(in.Field).Name()+" of "+descVal(in.X), ex.notNil(st, x))
		fr.env[in] = mkFaddr(x, in.Field, ft)
	case *ssa.Field:
		fr.env[in] = mkField(ex.val(fr, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		x, i := ex.val(fr, in.X), ex.val(fr, in.Index)
		n := lenOf(x)
		ok := st.pc.entails(mkNot(mkLt0(linOf(i)))) && st.pc.entails(mkLt0(linOf(i).add(linOf(n), -1)))
		ex.oblige(fr, st, "index out of range", in, "index of "+descVal(in.X)+" by "+descVal(in.Index), ok)
		if !ok {
			// continue on the executions which do not fail
			st.addFact(mkNot(mkLt0(linOf(i))))
			st.addFact(mkLt0(linOf(i).add(linOf(n), -1)))
		}
		fr.env[in] = mkIaddr(x, i, ptrElem(in.Type()))
	case *ssa.Index:
		x, i := ex.val(fr, in.X), ex.val(fr, in.Index)
		n := lenOf(x)
		ok := st.pc.entails(mkNot(mkLt0(linOf(i)))) && st.pc.entails(mkLt0(linOf(i).add(linOf(n), -1)))
		ex.oblige(fr, st, "index out of range", in, "index of "+descVal(in.X)+" by "+descVal(in.Index), ok)
		if !ok {
			st.addFact(mkNot(mkLt0(linOf(i))))
			st.addFact(mkLt0(linOf(i).add(linOf(n), -1)))
		}
		if x.Op == "arr" {
			if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(x.Args) {
				fr.env[in] = x.Args[k]
				break
			}
		}
		fr.env[in] = mk("index", in.Type(), nil, x, i)
	case *ssa.Lookup:
		ex.lookup(fr, st, in)
	case *ssa.Slice:
		return ex.slice(fr, st, in)
	case *ssa.Store:
		a, v := ex.val(fr, in.Addr), ex.val(fr, in.Val)
		ex.oblige(fr, st, "nil dereference", in, "store through "+descVal(in.Addr), ex.notNil(st, a))
		ex.checkFact(fr, st, in, a, v)
		e := ex.emit(fr, st, &Ev{Kind: "store", Instr: in, Addr: a, Val: v})
		e.Aux = st.shadowed(a)
		ex.store(st, a, v, in.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := ex.val(fr, in.Map), ex.val(fr, in.Key), ex.val(fr, in.Value)
		ex.oblige(fr, st, "write to nil map", in, "map "+descVal(in.Map), ex.notNil(st, m))
		ex.emit(fr, st, &Ev{Kind: "mapupd", Instr: in, Addr: m, Args: []*Term{m, k}, Val: v})
		st.epoch = nextEpoch()
		ex.forgetMap(st, m)
		st.mem[mk("maddr", types.NewPointer(in.Value.Type()), nil, m, k)] = v
	case *ssa.Send:
		c, v := ex.val(fr, in.Chan), ex.val(fr, in.X)
		ex.emit(fr, st, &Ev{Kind: "send", Instr: in, Addr: c, Val: v})
	case *ssa.Range:
		fr.env[in] = mk("range", in.Type(), nil, ex.val(fr, in.X))
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			ex.emit(fr, st, &Ev{Kind: "maprange", Instr: in, Addr: ex.val(fr, in.X)})
		}
	case *ssa.Next:
		freshSeq++
		rt := ex.val(fr, in.Iter)
		t := mk("next", in.Type(), freshSeq, rt)
		fr.env[in] = t
		if in.IsString {
			k := mk("ex", types.Typ[types.Int], 1, t)
			okT := mk("ex", types.Typ[types.Bool], 0, t)
			_ = okT
			st.addFact(mkNot(mkLt0(linOf(k))))
			if len(rt.Args) > 0 {
				st.addFact(mkLt0(linOf(k).add(linOf(lenOf(rt.Args[0])), -1)))
			}
		}
	case *ssa.Extract:
		t := ex.val(fr, in.Tuple)
		fr.env[in] = extract(t, in.Index, in.Type())
	default:
		ex.notes = append(ex.notes, fmt.Sprintf("unsupported instruction %T in %s", in, fnName(fr.fn)))
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = fresh("unknown", v.Type())
		}
	}
	return true
}

// shadowed: whether the cell is only visible to this path (a local which has not been shared).
func (s *State) shadowed(a *Term) bool { return false }

func extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	return mk("ex", typ, i, t)
}

func retype(t *Term, typ types.Type) *Term {
	if t.Typ != nil && types.Identical(t.Typ, typ) {
		return t
	}
	switch t.Op {
	case "nil":
		return mkNil(typ)
	case "const", "fconst":
		if v, ok := t.constVal(); ok {
			return mkConst(v, typ)
		}
	}
	return t
}

func descVal(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return descVal(v.X)
		}
		return v.Op.String() + descVal(v.X)
	case *ssa.FieldAddr:
		return descVal(v.X) + "." + derefStruct(v.X.Type()).Field(v.Field).Name()
	case *ssa.Field:
		return descVal(v.X) + "." + v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.IndexAddr:
		return descVal(v.X) + "[" + descVal(v.Index) + "]"
	case *ssa.Global:
		return v.Name()
	case *ssa.Parameter:
		return v.Name()
	case *ssa.FreeVar:
		return v.Name()
	case *ssa.Const:
		return v.Name()
	case *ssa.Alloc:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.Phi:
		if v.Comment != "" {
			return v.Comment
		}
		return "phi"
	case *ssa.Call:
		return callDesc(v.Common()) + "()"
	case *ssa.Extract:
		return descVal(v.Tuple) + fmt.Sprintf("#%d", v.Index)
	case *ssa.BinOp:
		return "(" + descVal(v.X) + v.Op.String() + descVal(v.Y) + ")"
	case *ssa.Convert:
		return descVal(v.X)
	case *ssa.Slice:
		return descVal(v.X) + "[:]"
	}
	return fmt.Sprintf("%T", v)
}

func (ex *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) bool {
	x := ex.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		if x.Op != "alloc" && x.Op != "global" && x.Op != "faddr" && x.Op != "iaddr" {
			ex.oblige(fr, st, "nil dereference", in, "load through "+descVal(in.X), ex.notNil(st, x))
		}
		v := ex.load(st, x, in.Type())
		ex.emit(fr, st, &Ev{Kind: "load", Instr: in, Addr: x, Val: v})
		fr.env[in] = v
	case token.NOT:
		fr.env[in] = mkNot(x)
	case token.SUB:
		if isInteger(in.Type()) && !isUnsigned(in.Type()) {
			fr.env[in] = linOf(x).scale(-1).term(in.Type())
		} else if v, ok := x.constVal(); ok {
			fr.env[in] = mkConst(constant.UnaryOp(token.SUB, v, 0), in.Type())
		} else {
			fr.env[in] = mk("app", in.Type(), "neg", x)
		}
	case token.XOR:
		fr.env[in] = mk("app", in.Type(), "compl", x)
	case token.ARROW:
		freshSeq++
		r := mk("recv", in.Type(), freshSeq, x)
		ex.emit(fr, st, &Ev{Kind: "recv", Instr: in, Addr: x, Res: r})
		fr.env[in] = r
	}
	return true
}

func (ex *Exec) binop(fr *Frame, st *State, in ssa.Instruction, op token.Token, x, y *Term, typ types.Type) *Term {
	xt := x.Typ
	if b, ok := in.(*ssa.BinOp); ok {
		xt = b.X.Type()
	}
	if cx, ok := x.constVal(); ok {
		if cy, ok := y.constVal(); ok {
			switch op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return mkBool(constant.Compare(cx, op, cy))
			case token.ADD, token.SUB, token.MUL:
				return mkConst(constant.BinaryOp(cx, op, cy), typ)
			case token.QUO:
				if constant.Sign(cy) != 0 {
					if isInteger(typ) {
						return mkConst(constant.BinaryOp(cx, token.QUO_ASSIGN, cy), typ)
					}
					return mkConst(constant.BinaryOp(cx, op, cy), typ)
				}
			}
		}
	}
	switch op {
	case token.EQL:
		return ex.eq(st, x, y, xt)
	case token.NEQ:
		return mkNot(ex.eq(st, x, y, xt))
	}
	if isInteger(xt) {
		lx, ly := linOf(x), linOf(y)
		switch op {
		case token.LSS:
			return mkLt0(lx.add(ly, -1))
		case token.GTR:
			return mkLt0(ly.add(lx, -1))
		case token.LEQ:
			return mkNot(mkLt0(ly.add(lx, -1)))
		case token.GEQ:
			return mkNot(mkLt0(lx.add(ly, -1)))
		case token.ADD:
			return lx.add(ly, 1).term(typ)
		case token.SUB:
			if isUnsigned(typ) && !st.pc.entailsLe(y, x, 0) {
				return mk("app", typ, "usub", x, y)
			}
			return lx.add(ly, -1).term(typ)
		case token.MUL:
			if k, ok := x.intVal(); ok {
				return ly.scale(k).term(typ)
			}
			if k, ok := y.intVal(); ok {
				return lx.scale(k).term(typ)
			}
			if x.ID > y.ID {
				x, y = y, x
			}
			t := mk("app", typ, "mul", x, y)
			if st.pc.entails(mkNot(mkLt0(linOf(x)))) && st.pc.entails(mkNot(mkLt0(linOf(y)))) {
				st.addFact(mkNot(mkLt0(linOf(t))))
				if st.pc.entails(mkLt0(linConst(0).add(linOf(x), -1))) && st.pc.entails(mkLt0(linConst(0).add(linOf(y), -1))) {
					st.addFact(mkLt0(linConst(0).add(linOf(t), -1)))
				}
			}
			return t
		case token.QUO, token.REM:
			nz := st.pc.entails(mkNot(mkEq0(ly)))
			ex.oblige(fr, st, "division by zero", in, "by "+descOperandY(in), nz)
			if op == token.QUO {
				if k, ok := y.intVal(); ok && k == 1 {
					return x
				}
				t := mk("app", typ, "quo", x, y)
				if st.pc.entails(mkNot(mkLt0(lx))) && st.pc.entails(mkLt0(linConst(0).add(ly, -1))) {
					st.addFact(mkNot(mkLt0(linOf(t))))
					st.addFact(mkNot(mkLt0(lx.add(linOf(t), -1)))) // t <= x
					if k, ok := y.intVal(); ok {
						// k*t <= x < k*t+k
						st.addFact(mkNot(mkLt0(lx.add(linOf(t), -k))))
						st.addFact(mkLt0(lx.add(linOf(t), -k).add(linConst(k), -1)))
					}
				}
				return t
			}
			t := mk("app", typ, "rem", x, y)
			if st.pc.entails(mkNot(mkLt0(lx))) && st.pc.entails(mkLt0(linConst(0).add(ly, -1))) {
				st.addFact(mkNot(mkLt0(linOf(t))))
				st.addFact(mkLt0(linOf(t).add(ly, -1)))
				st.addFact(mkNot(mkLt0(lx.add(linOf(t), -1))))
			}
			return t
		}
		return mk("app", typ, "i"+op.String(), x, y)
	}
	if isString(xt) && op == token.ADD {
		return mkCat(typ, x, y)
	}
	if op == token.GTR {
		return mk("app", typ, "flt", y, x)
	}
	if op == token.GEQ {
		return mk("app", typ, "fle", y, x)
	}
	if op == token.LSS {
		return mk("app", typ, "flt", x, y)
	}
	if op == token.LEQ {
		return mk("app", typ, "fle", x, y)
	}
	if op == token.ADD || op == token.MUL {
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	return mk("app", typ, "f"+op.String(), x, y)
}

func descOperandY(in ssa.Instruction) string {
	if b, ok := in.(*ssa.BinOp); ok {
		return descVal(b.Y)
	}
	return "?"
}

// cellType: the type of the value kept for an address (the text, for that of a strings.Builder).
func cellType(a *Term) types.Type {
	t := addrType(a)
	if a.Op == "alloc" && t != nil && typeKey(t) == "strings.Builder" {
		return types.Typ[types.String]
	}
	return t
}

func mkCat(typ types.Type, xs ...*Term) *Term {
	var parts []*Term
	for _, x := range xs {
		if x.Op == "cat" {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, x)
		}
	}
	var out []*Term
	for _, p := range parts {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if q, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = mkString(q + s)
					continue
				}
			}
			p = mkString(s)
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return mkString("")
	case 1:
		return out[0]
	}
	return mk("cat", typ, nil, out...)
}

func (ex *Exec) eq(st *State, x, y *Term, t types.Type) *Term {
	if isFloat(t) {
		if x.ID > y.ID {
			x, y = y, x
		}
		if x == y {
			return mkNot(mk("app", types.Typ[types.Bool], "math.IsNaN", x))
		}
		return mk("app", types.Typ[types.Bool], "feq", x, y)
	}
	if x.Op == "iface" && y.Op == "iface" && types.Identical(x.Aux.(types.Type), y.Aux.(types.Type)) {
		return ex.eq(st, x.Args[0], y.Args[0], x.Aux.(types.Type))
	}
	if x.isNil() || y.isNil() {
		o := x
		if x.isNil() {
			o = y
		}
		if nonNil(o) || ex.provNotNil(st, o) {
			return mkBool(false)
		}
	}
	return mkEq(x, y)
}

func (ex *Exec) convert(fr *Frame, st *State, x *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if v, ok := x.constVal(); ok && fok && tok {
		if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			if n, ok := constant.Int64Val(constant.ToInt(v)); ok && fitsInt(n, tb) {
				return mkInt(n, to)
			}
		} else if tb.Info()&types.IsFloat != 0 && fb.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return mkConst(v, to)
		}
	}
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if valuePreserving(fb, tb) {
			return retypeInt(x, to)
		}
		// same width or narrower: preserved when the value is known to fit
		if tb.Info()&types.IsUnsigned != 0 && intBits(tb) >= intBits(fb) && st.pc.entails(mkNot(mkLt0(linOf(x)))) {
			return retypeInt(x, to)
		}
		if tb.Info()&types.IsUnsigned == 0 && intBits(tb) == 64 && fb.Info()&types.IsUnsigned != 0 && st.pc.entails(mkNot(mkLt0(linConst(1<<60).add(linOf(x), -1)))) {
			return retypeInt(x, to)
		}
		if lo, hi, ok := intRange(tb); ok {
			l := linOf(x)
			if st.pc.entails(mkNot(mkLt0(l.add(linConst(lo), -1)))) && st.pc.entails(mkNot(mkLt0(linConst(hi).add(l, -1)))) {
				return retypeInt(x, to)
			}
		}
		t := mk("conv", to, typeKey(to), x)
		return t
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return mk("conv", to, typeKey(to), x)
}

func retypeInt(x *Term, to types.Type) *Term { return x }

func fitsInt(n int64, b *types.Basic) bool {
	if b.Info()&types.IsUnsigned != 0 && n < 0 {
		return false
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return true
	}
	return lo <= n && n <= hi
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func intRange(b *types.Basic) (int64, int64, bool) {
	n := intBits(b)
	if n == 64 {
		return 0, 0, false
	}
	if b.Info()&types.IsUnsigned != 0 {
		return 0, 1<<uint(n) - 1, true
	}
	return -(1 << uint(n-1)), 1<<uint(n-1) - 1, true
}

func valuePreserving(f, t *types.Basic) bool {
	fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
	fb, tb := intBits(f), intBits(t)
	if fu == tu {
		return tb >= fb
	}
	if fu && !tu {
		return tb > fb
	}
	return false
}

func (ex *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	m, k := ex.val(fr, in.X), ex.val(fr, in.Index)
	if isString(in.X.Type()) {
		n := lenOf(m)
		ok := st.pc.entails(mkNot(mkLt0(linOf(k)))) && st.pc.entails(mkLt0(linOf(k).add(linOf(n), -1)))
		ex.oblige(fr, st, "index out of range", in, "index of string "+descVal(in.X), ok)
		fr.env[in] = mk("index", in.Type(), nil, m, k)
		return
	}
	ex.emit(fr, st, &Ev{Kind: "mapread", Instr: in, Addr: m, Args: []*Term{m, k}})
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	if v, ok := st.mem[mk("maddr", types.NewPointer(vt), nil, m, k)]; ok {
		if in.CommaOk {
			fr.env[in] = mk("tuple", in.Type(), nil, v, mkBool(true))
		} else {
			fr.env[in] = v
		}
		return
	}
	t := mk("lookup", in.Type(), st.epoch, m, k)
	if m.isNil() {
		if in.CommaOk {
			t = mk("tuple", in.Type(), nil, zeroOf(vt), mkBool(false))
		} else {
			t = zeroOf(vt)
		}
	}
	fr.env[in] = t
}

func (ex *Exec) forgetMap(st *State, m *Term) {
	for a := range st.mem {
		if a.Op == "maddr" {
			ra, rm := a.Args[0], m
			if ra != rm && (ra.Op == "makemap" || rm.Op == "makemap") {
				continue
			}
			delete(st.mem, a)
		}
	}
}

func (ex *Exec) slice(fr *Frame, st *State, in *ssa.Slice) bool {
	x := ex.val(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = ex.val(fr, in.Low)
	}
	if in.High != nil {
		hi = ex.val(fr, in.High)
	}
	if in.Max != nil {
		mx = ex.val(fr, in.Max)
	}
	if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
		ex.oblige(fr, st, "nil dereference", in, "slice of "+descVal(in.X), ex.notNil(st, x))
	}
	l := lo
	if l == nil {
		l = mkInt(0, nil)
	}
	h := hi
	if h == nil {
		h = lenOf(x)
	}
	bound := lenOf(x)
	if !isString(in.X.Type()) {
		bound = capOf(x)
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			bound = lenOf(x)
		}
	}
	ok := (lo == nil || st.pc.entails(mkNot(mkLt0(linOf(l))))) &&
		st.pc.entailsLe(l, h, 0) &&
		(hi == nil || st.pc.entailsLe(h, lenOf(x), 0) || st.pc.entailsLe(h, bound, 0))
	if mx != nil {
		ok = ok && st.pc.entailsLe(h, mx, 0) && st.pc.entailsLe(mx, bound, 0)
	}
	d := descVal(in.X) + "["
	if in.Low != nil {
		d += descVal(in.Low)
	}
	d += ":"
	if in.High != nil {
		d += descVal(in.High)
	}
	d += "]"
	ex.oblige(fr, st, "slice bounds out of range", in, d, ok)
	if !ok {
		st.addFact(mkNot(mkLt0(linOf(l))))
		st.addFact(mkNot(mkLt0(linOf(h).add(linOf(l), -1))))
	}
	fr.env[in] = mkSlice(x, l, h, in.Type())
	return true
}

func (ex *Exec) doTypeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(fr *Frame, st *State)) {
	x := ex.val(fr, in.X)
	T := in.AssertedType
	isI := types.IsInterface(T)
	res := func(v *Term, ok bool, fr *Frame, st *State) {
		if in.CommaOk {
			fr.env[in] = mk("tuple", in.Type(), nil, v, mkBool(ok))
		} else {
			fr.env[in] = v
		}
		k(fr, st)
	}
	fail := func(fr *Frame, st *State) {
		if in.CommaOk {
			res(zeroOf(T), false, fr, st)
			return
		}
		ex.oblige(fr, st, "type assertion may fail", in, descVal(in.X)+".("+shortType(T)+")", false)
	}
	if x.Op == "iface" {
		dt := x.Aux.(types.Type)
		if isI {
			if types.Implements(dt, T.Underlying().(*types.Interface)) {
				res(x, true, fr, st)
			} else {
				fail(fr, st)
			}
		} else if types.Identical(dt, T) {
			res(x.Args[0], true, fr, st)
		} else {
			fail(fr, st)
		}
		return
	}
	if x.isNil() {
		fail(fr, st)
		return
	}
	c := mk("typeis", types.Typ[types.Bool], T, x)
	if !in.CommaOk {
		ok := st.pc.entails(c) || ex.provType(st, x, T)
		ex.oblige(fr, st, "type assertion may fail", in, descVal(in.X)+".("+shortType(T)+")", ok)
		if st.assume(c) {
			v := x
			if !isI {
				v = mk("unbox", T, typeKey(T), x)
			}
			res(v, true, fr, st)
		}
		return
	}
	ex.branch(fr, st, c, func(fr *Frame, st *State) {
		v := x
		if !isI {
			v = mk("unbox", T, typeKey(T), x)
		}
		res(v, true, fr, st)
	}, fail)
}

// provType: the dynamic type is known from where the value comes from.
func (ex *Exec) provType(st *State, x *Term, T types.Type) bool {
	if cr, ok := x.Aux.(*CallRes); ok && x.Op == "call" && cr.Name == "(*sync.Pool).Get" && cr.Ev != nil && len(cr.Ev.Args) == 1 && cr.Ev.Args[0].Op == "global" {
		if pt := ex.p.poolType(cr.Ev.Args[0].Aux.(*ssa.Global)); pt != nil && types.Identical(pt, T) {
			st.addFact(mkNot(mkEq(mk("unbox", T, typeKey(T), x), mkNil(T))))
			return true
		}
	}
	// reflect.New(t.Elem()).Interface() with t registered by proto: a proto.Message
	if types.IsInterface(T) && x.Op == "call" {
		if x.Aux.(*CallRes).Name == "(reflect.Value).Interface" && shortType(T) == "proto.Message" {
			return x.find(func(t *Term) bool { return false }) == nil && ex.fromProtoType(st, x)
		}
	}
	return false
}

func (ex *Exec) doSelect(fr *Frame, st *State, in *ssa.Select, k func(fr *Frame, st *State)) {
	n := len(in.States)
	var chans, vals []*Term
	for _, s := range in.States {
		chans = append(chans, ex.val(fr, s.Chan))
		if s.Send != nil {
			vals = append(vals, ex.val(fr, s.Send))
		} else {
			vals = append(vals, nil)
		}
	}
	mkRes := func(idx int) (*Term, *Term) {
		args := []*Term{mkInt(int64(idx), nil)}
		freshSeq++
		args = append(args, fresh("selok", types.Typ[types.Bool]))
		var got *Term
		j := 0
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				v := zeroOf(et)
				if i == idx {
					freshSeq++
					v = mk("recv", et, freshSeq, chans[i])
					got = v
				}
				args = append(args, v)
				j++
			}
		}
		return mk("tuple", in.Type(), nil, args...), got
	}
	alts := n
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for idx := lo; idx < alts; idx++ {
		f, s := fr.clone(), st.clone()
		r, got := mkRes(idx)
		f.env[in] = r
		ev := ex.emit(f, s, &Ev{Kind: "select", Instr: in, Args: chans, Aux: idx, Name: map[bool]string{true: "blocking", false: "nonblocking"}[in.Blocking]})
		_ = ev
		if idx >= 0 {
			if in.States[idx].Dir == types.SendOnly {
				ex.emit(f, s, &Ev{Kind: "send", Instr: in, Addr: chans[idx], Val: vals[idx], Name: "select"})
			} else {
				ex.emit(f, s, &Ev{Kind: "recv", Instr: in, Addr: chans[idx], Res: got, Name: "select"})
			}
		}
		k(f, s)
	}
}
