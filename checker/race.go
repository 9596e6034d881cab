package main

// Lockset analysis: for every thread of every program, which locks are (certainly, possibly) held at every access of
// shared memory, at every lock operation and at every operation which may block. Flow-sensitive inside functions,
// context-sensitive in the locks held on entry.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks is the result of the lockset analysis of the whole module.
type Locks struct {
	p       *Prog
	cg      *CG
	pathTab map[ssa.Value]string
	busy    map[ssa.Value]bool
	retTab  map[*ssa.Function][]string
	closes  map[*ssa.Function][]*ssa.MakeClosure
	cbOf    map[*ssa.Function][]*Callback
	once    map[string]map[*ssa.Function]bool // per program: functions executed at most once
	progs   map[string]*Program
	esc     map[ssa.Value][]ssa.Instruction
	leakTab map[*ssa.Parameter]int
	anyFns  map[*ssa.Function]bool // functions used by some program
	class   map[string]string      // lock path -> type of the lock
	ctx     *Thread                // contents are resolved for this thread
	derTab  map[*ssa.Alloc]map[ssa.Value]bool
}

// Program is one of the module's binaries.
type Program struct {
	Name     string
	Threads  []*Thread
	Accesses []*Access
	raw      []rawAccess
	main     int // number of real threads
	Ops      []*LockOp
	Fns      map[*ssa.Function]bool
	liveT    map[string]bool
	ls       *Locks
	memo     map[string]*lkSummary
	byRoot   map[string]*Thread
	afters   map[*Thread]map[ssa.Instruction]map[ssa.Instruction]bool
}

// Thread is a goroutine entry: the main function, the target of a go statement, or a callback run by a library's own goroutine.
type Thread struct {
	Name    string
	Fn      *ssa.Function
	Multi   bool
	Parents []spawnAt
	fns     map[*ssa.Function]bool
	callers map[*ssa.Function][]ssa.Instruction
}

type spawnAt struct {
	T    *Thread
	Site ssa.Instruction
}

// Access is one access of possibly shared memory.
type Access struct {
	Loc   string
	Base  string
	Write bool
	At    ssa.Instruction
	Fn    *ssa.Function
	T     *Thread
	Held  lset // locks certainly held: path -> mode
	Fresh bool
}

type rawAccess struct {
	v        ssa.Value
	elems, w bool
	at       ssa.Instruction
	f        *ssa.Function
	t        *Thread
	held     lset
}

// resolve turns the recorded accesses into accesses of locations, once the threads are known.
func (pr *Program) resolve() {
	l := pr.ls
	for _, r := range pr.raw {
		l.ctx = r.t
		var locs []loc
		if r.elems {
			locs = l.contents(r.v, 0, map[ssa.Value]bool{})
		} else {
			locs = l.locsOf(r.v, 0)
		}
		l.ctx = nil
		seen := map[loc]bool{}
		for _, q := range locs {
			if skipLoc(q.key) || seen[q] {
				continue
			}
			seen[q] = true
			pr.Accesses = append(pr.Accesses, &Access{Loc: q.key, Base: q.base, Write: r.w, At: r.at, Fn: r.f, T: r.t, Held: r.held, Fresh: l.fresh(q.base, r.at)})
		}
	}
}

// LockOp is a lock, an unlock, a possibly blocking operation or the end of a function.
type LockOp struct {
	Kind string // lock, rlock, unlock, runlock, block, exit, wait
	Lock string
	What string
	At   ssa.Instruction
	Fn   *ssa.Function
	T    *Thread
	Must lset
	May  lset
	Own  lset // for exit: the locks possibly held on entry
}

type lset map[string]byte // 'R' or 'W'

func (a lset) key() string {
	var ks []string
	for k, m := range a {
		ks = append(ks, k+":"+string(m))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (a lset) clone() lset {
	r := lset{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

func meet(a, b lset) lset {
	r := lset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w == 'R' {
				v = 'R'
			}
			r[k] = v
		}
	}
	return r
}

func union(a, b lset) lset {
	r := a.clone()
	for k, v := range b {
		if r[k] != 'W' {
			r[k] = v
		}
	}
	return r
}

type lkSummary struct {
	must, may lset
	done      bool
}

// locks computes the analysis once per run.
func (c *Ctx) locks() *Locks {
	if c.lsv == nil {
		c.lsv = newLocks(c.p, c.cg())
	}
	return c.lsv
}

func newLocks(p *Prog, cg *CG) *Locks {
	l := &Locks{p: p, cg: cg, pathTab: map[ssa.Value]string{}, busy: map[ssa.Value]bool{}, retTab: map[*ssa.Function][]string{}, closes: map[*ssa.Function][]*ssa.MakeClosure{}, cbOf: map[*ssa.Function][]*Callback{}, once: map[string]map[*ssa.Function]bool{}, progs: map[string]*Program{}, esc: map[ssa.Value][]ssa.Instruction{}, leakTab: map[*ssa.Parameter]int{}, derTab: map[*ssa.Alloc]map[ssa.Value]bool{}}
	for _, f := range cg.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					k := mc.Fn.(*ssa.Function)
					l.closes[k] = append(l.closes[k], mc)
				}
			}
		}
	}
	for _, cb := range cg.cbs {
		l.cbOf[cb.Fn] = append(l.cbOf[cb.Fn], cb)
	}
	var rels []string
	for r := range p.by {
		if strings.HasPrefix(r, "cmd/music-sync-") {
			rels = append(rels, r)
		}
	}
	sort.Strings(rels)
	l.anyFns = map[*ssa.Function]bool{}
	l.class = map[string]string{}
	for _, r := range rels {
		if m := p.by[r].Func("main"); m != nil {
			pr := &Program{ls: l}
			for f := range pr.reach(m) {
				l.anyFns[f] = true
			}
		}
	}
	for _, r := range rels {
		if m := p.by[r].Func("main"); m != nil {
			l.progs[r] = l.program(strings.TrimPrefix(r, "cmd/"), m)
		}
	}
	return l
}

// ---- access paths

// path names the value v: the same name in one dynamic context means the same value.
func (l *Locks) path(v ssa.Value) string {
	if s, ok := l.pathTab[v]; ok {
		return s
	}
	if l.busy[v] {
		return l.reg(v)
	}
	l.busy[v] = true
	ctx := l.ctx
	l.ctx = nil
	s := l.path1(v)
	l.ctx = ctx
	delete(l.busy, v)
	l.pathTab[v] = s
	return s
}

func (l *Locks) reg(v ssa.Value) string {
	if v == nil {
		return "#nil"
	}
	if f := v.Parent(); f != nil {
		if p, ok := v.(*ssa.Parameter); ok {
			for i, q := range f.Params {
				if q == p {
					return fmt.Sprintf("$%s.%d", fnName(f), i)
				}
			}
		}
		return "#" + fnName(f) + ":" + v.Name()
	}
	return "#" + v.Name()
}

func (l *Locks) path1(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return shortPkg(x)
	case *ssa.Function:
		return "fn:" + fnName(x)
	case *ssa.Const:
		return "const:" + x.String()
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		res := ""
		for _, a := range l.argsOf(f, idx) {
			if a == nil {
				return l.reg(v)
			}
			s := l.path(a)
			if res != "" && res != s {
				return l.reg(v)
			}
			res = s
		}
		if res == "" {
			return l.reg(v)
		}
		return res
	case *ssa.FreeVar:
		b := l.binding(x)
		if b == nil {
			return l.reg(v)
		}
		return l.path(b)
	case *ssa.Alloc:
		return "new:" + fnName(x.Parent()) + ":" + x.Name()
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return "new:" + fnName(v.Parent()) + ":" + v.Name()
	case *ssa.MakeInterface:
		return l.path(x.X)
	case *ssa.ChangeType:
		return l.path(x.X)
	case *ssa.ChangeInterface:
		return l.path(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return l.path(x.X)
		}
	case *ssa.FieldAddr:
		return l.path(x.X) + "." + fldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return l.path(x.X) + "." + fldName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if cell := l.cell(x.X); cell != nil {
				if s := l.onlyStore(cell); s != nil {
					return l.path(s)
				}
				return l.reg(v)
			}
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.Global:
				return l.path(x.X)
			}
		}
	case *ssa.Phi:
		res := ""
		for _, e := range x.Edges {
			if l.busy[e] {
				continue
			}
			s := l.path(e)
			if res != "" && res != s {
				return l.reg(v)
			}
			res = s
		}
		if res != "" {
			return res
		}
	case *ssa.Call:
		if s := l.resPath(x, 0); s != "" {
			return s
		}
	case *ssa.Extract:
		if k, ok := x.Tuple.(*ssa.Call); ok {
			if s := l.resPath(k, x.Index); s != "" {
				return s
			}
		}
	}
	return l.reg(v)
}

// resPath: the path of a result, if the callee returns something with a name outside of itself.
func (l *Locks) resPath(k *ssa.Call, i int) string {
	outs := l.cg.outs[k]
	if len(outs) != 1 || len(l.cg.ext[k]) > 0 && !k.Call.IsInvoke() || l.p.isGenerated(outs[0]) {
		return ""
	}
	f := outs[0]
	res := ""
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(r.Results) {
			continue
		}
		rv := r.Results[i]
		if l.busy[rv] {
			return ""
		}
		s := l.path(rv)
		if res != "" && res != s {
			return ""
		}
		res = s
	}
	switch {
	case res == "" || strings.HasPrefix(res, "#") || strings.HasPrefix(res, "new:"+fnName(f)+":") || strings.HasPrefix(res, "const:"):
		return ""
	case strings.HasPrefix(res, "$"):
		pre := "$" + fnName(f) + "."
		if !strings.HasPrefix(res, pre) {
			return ""
		}
		rest := res[len(pre):]
		for j := range f.Params {
			d := fmt.Sprint(j)
			if rest == d || strings.HasPrefix(rest, d+".") {
				if a := argAt(k, f, j); a != nil {
					return l.path(a) + rest[len(d):]
				}
			}
		}
		return ""
	}
	return res
}

// argAt: the value passed for parameter j of callee f at a call.
func argAt(ci ssa.CallInstruction, f *ssa.Function, j int) ssa.Value {
	cc := ci.Common()
	if cc.IsInvoke() {
		if j == 0 {
			return cc.Value
		}
		j--
	}
	if j < len(cc.Args) {
		return cc.Args[j]
	}
	return nil
}

// argsOf: the values parameter idx of f can have; a nil element stands for an unknown one.
func (l *Locks) argsOf(f *ssa.Function, idx int) []ssa.Value {
	var r []ssa.Value
	for _, cb := range l.cbOf[f] {
		if idx == 0 && f.Signature.Recv() != nil {
			if ci, ok := cb.Site.(ssa.CallInstruction); ok {
				var hit ssa.Value
				for _, a := range ci.Common().Args {
					if mi, ok := a.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), f.Params[0].Type()) {
						hit = mi.X
					}
				}
				r = append(r, hit)
				continue
			}
		}
		r = append(r, nil)
	}
	for _, ci := range l.cg.in[f] {
		if l.p.isGenerated(ci.Parent()) {
			continue
		}
		if t := l.ctx; t != nil && t.fns[f] && f != t.Fn {
			in := false
			for _, c := range t.callers[f] {
				in = in || c == ci.(ssa.Instruction)
			}
			if !in {
				continue
			}
		}
		if t := l.ctx; t != nil && f == t.Fn && len(t.Parents) > 0 {
			in := false
			for _, s := range t.Parents {
				in = in || s.Site == ci.(ssa.Instruction)
			}
			for _, c := range t.callers[f] {
				in = in || c == ci.(ssa.Instruction)
			}
			if !in {
				continue
			}
		}
		r = append(r, argAt(ci, f, idx))
	}
	return r
}

// binding resolves a captured variable to the value bound where the closure is made.
func (l *Locks) binding(x *ssa.FreeVar) ssa.Value {
	f := x.Parent()
	idx := -1
	for i, q := range f.FreeVars {
		if q == x {
			idx = i
		}
	}
	ms := l.closes[f]
	if len(ms) == 0 || idx < 0 {
		return nil
	}
	if len(ms) == 1 {
		return ms[0].Bindings[idx]
	}
	// bound methods: the same value everywhere
	s := l.path(ms[0].Bindings[idx])
	for _, m := range ms[1:] {
		if l.path(m.Bindings[idx]) != s {
			return nil
		}
	}
	return ms[0].Bindings[idx]
}

// cell resolves an address to the local variable it is the address of.
func (l *Locks) cell(a ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := a.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			b := l.binding(x)
			if b == nil {
				return nil
			}
			a = b
		default:
			return nil
		}
	}
	return nil
}

// onlyStore: the value of a variable which is assigned once (including by the closures capturing it).
func (l *Locks) onlyStore(c *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var walk func(v ssa.Value, depth int) bool
	walk = func(v ssa.Value, depth int) bool {
		if v.Referrers() == nil || depth > 6 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == v {
					n++
					val = y.Val
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				k := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == v && !walk(k.FreeVars[i], depth+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if walk(c, 0) && n == 1 {
		return val
	}
	return nil
}

func shortPkg(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return short(g.Pkg.Pkg.Path()) + "." + g.Name()
}

func fldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		s := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			s = short(n.Obj().Pkg().Path()) + "." + s
		}
		return s
	}
	return ""
}

// ---- memory locations

type loc struct{ key, base string }

// locsOf: the locations an address may denote.
func (l *Locks) locsOf(a ssa.Value, depth int) []loc {
	if depth > 8 {
		return nil
	}
	switch x := a.(type) {
	case *ssa.Global:
		return []loc{{shortPkg(x), shortPkg(x)}}
	case *ssa.Alloc, *ssa.FreeVar:
		if c := l.cell(a); c != nil {
			s := l.path(c)
			if n := typeName(c.Type()); n != "" && c.Heap && isStruct(c.Type()) && strings.HasPrefix(n, "") {
				return []loc{{n + ".*", s}}
			}
			return []loc{{strings.Replace(s, "new:", "var ", 1), s}}
		}
		return nil
	case *ssa.FieldAddr:
		// inner struct values belong to the outermost object
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return l.locsOf(y, depth+1)
		case *ssa.IndexAddr:
			return l.locsOf(y, depth+1)
		case *ssa.Global:
			return l.locsOf(y, depth+1)
		}
		n := typeName(x.X.Type())
		if n == "" {
			n = "struct"
		}
		return []loc{{n + "." + fldName(x.X.Type(), x.Field), l.path(x.X)}}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array
			return l.locsOf(x.X, depth+1)
		}
		return l.contents(x.X, 0, map[ssa.Value]bool{})
	case *ssa.UnOp, *ssa.Phi, *ssa.Parameter, *ssa.Call, *ssa.Extract, *ssa.Lookup:
		// a pointer value: the object it points to
		n := typeName(a.Type())
		if n != "" && isStruct(a.Type()) {
			return []loc{{n + ".*", l.path(a)}}
		}
		if p, ok := a.(*ssa.Parameter); ok {
			var r []loc
			idx := 0
			for i, q := range p.Parent().Params {
				if q == p {
					idx = i
				}
			}
			for _, v := range l.argsOf(p.Parent(), idx) {
				if v != nil {
					r = append(r, l.locsOf(v, depth+1)...)
				}
			}
			return r
		}
	}
	return nil
}

// hasLock: values of the type are meant to be used by several goroutines.
func hasLock(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch typeName(s.Field(i).Type()) {
		case "sync.Mutex", "sync.RWMutex", "sync.Cond", "sync.Locker":
			return true
		}
	}
	return false
}

func isStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_, ok := p.Elem().Underlying().(*types.Struct)
		return ok
	}
	return false
}

// contents: the locations of the elements of a slice or map value.
func (l *Locks) contents(v ssa.Value, depth int, seen map[ssa.Value]bool) []loc {
	if v == nil || seen[v] || depth > 12 {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if c := l.cell(x.X); c != nil {
				var r []loc
				for _, s := range l.storesTo(c) {
					r = append(r, l.contents(s, depth+1, seen)...)
				}
				return r
			}
			var r []loc
			for _, q := range l.locsOf(x.X, 0) {
				r = append(r, loc{q.key + "[]", q.base})
			}
			return r
		}
	case *ssa.Phi:
		var r []loc
		for _, e := range x.Edges {
			r = append(r, l.contents(e, depth+1, seen)...)
		}
		return r
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return l.locsOf(x.X, 0)
		}
		return l.contents(x.X, depth+1, seen)
	case *ssa.ChangeType:
		return l.contents(x.X, depth+1, seen)
	case *ssa.MakeInterface:
		return l.contents(x.X, depth+1, seen)
	case *ssa.TypeAssert:
		return l.contents(x.X, depth+1, seen)
	case *ssa.Convert:
		return l.contents(x.X, depth+1, seen)
	case *ssa.MakeSlice, *ssa.MakeMap:
		s := l.path(v)
		return []loc{{strings.Replace(s, "new:", "var ", 1) + "[]", s}}
	case *ssa.Parameter:
		idx := 0
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		var r []loc
		for _, a := range l.argsOf(x.Parent(), idx) {
			if a != nil {
				r = append(r, l.contents(a, depth+1, seen)...)
			}
		}
		return r
	case *ssa.FreeVar:
		return l.contents(l.binding(x), depth+1, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return l.contents(x.Call.Args[0], depth+1, seen)
			}
			return nil
		}
		return l.resContents(x, 0, depth, seen)
	case *ssa.Extract:
		if k, ok := x.Tuple.(*ssa.Call); ok {
			return l.resContents(k, x.Index, depth, seen)
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			var r []loc
			for _, q := range l.contents(lk.X, depth+1, seen) {
				r = append(r, loc{q.key + "[]", q.base})
			}
			return r
		}
	case *ssa.Lookup:
		var r []loc
		for _, q := range l.contents(x.X, depth+1, seen) {
			r = append(r, loc{q.key + "[]", q.base})
		}
		return r
	case *ssa.Field:
		if n := typeName(x.X.Type()); n != "" {
			return []loc{{n + "." + fldName(x.X.Type(), x.Field) + "[]", l.path(x.X)}}
		}
	}
	return nil
}

func (l *Locks) resContents(k *ssa.Call, i, depth int, seen map[ssa.Value]bool) []loc {
	var r []loc
	for _, f := range l.cg.outs[k] {
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				for _, q := range l.contents(ret.Results[i], depth+1, seen) {
					// the base is the callee's; it keeps its meaning only if it is rooted outside of it
					r = append(r, q)
				}
			}
		}
	}
	return r
}

func (l *Locks) storesTo(c *ssa.Alloc) []ssa.Value {
	var r []ssa.Value
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if v.Referrers() == nil || depth > 6 {
			return
		}
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == v {
					r = append(r, y.Val)
				}
			case *ssa.MakeClosure:
				k := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == v {
						walk(k.FreeVars[i], depth+1)
					}
				}
			}
		}
	}
	walk(c, 0)
	return r
}

// ---- freshness: an object still known only to the function which made it

// escapes: the instructions of the allocating function at which a new object can become known to others.
func (l *Locks) escapes(a ssa.Value) []ssa.Instruction {
	if r, ok := l.esc[a]; ok {
		return r
	}
	l.esc[a] = nil
	var r []ssa.Instruction
	der := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if der[v] || v.Referrers() == nil {
			return
		}
		der[v] = true
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Val == v {
					// stored into a variable of this function which is not shared either?
					if c, ok := y.Addr.(*ssa.Alloc); ok {
						walk(c)
						continue
					}
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok && der[fa.X] {
						continue
					}
					r = append(r, y)
				}
			case *ssa.UnOp:
				if y.Op == token.MUL {
					if _, ok := v.(*ssa.Alloc); ok && v != a {
						walk(y)
					}
				}
			case *ssa.FieldAddr:
				// the address of a part: only its use as a value matters
				for _, r2 := range *y.Referrers() {
					switch z := r2.(type) {
					case *ssa.Store:
						if z.Val == y {
							r = append(r, z)
						}
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Slice:
					case ssa.CallInstruction:
						if !isSyncOp(z) {
							r = append(r, z)
						}
					default:
						r = append(r, r2)
					}
				}
			case *ssa.IndexAddr, *ssa.DebugRef, *ssa.BinOp:
			case *ssa.Return:
			case *ssa.MakeClosure, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Phi, *ssa.Slice:
				walk(y.(ssa.Value))
			case *ssa.Call:
				if l.leaks(y, v, 0) {
					r = append(r, y)
				} else {
					walk(y)
				}
			case *ssa.Defer:
				if l.leaks(y, v, 0) {
					r = append(r, y)
				}
			case *ssa.Extract:
				walk(y)
			default:
				r = append(r, ref)
			}
		}
	}
	walk(a)
	l.esc[a] = r
	return r
}

func isSyncOp(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	if f == nil {
		return false
	}
	n := fnName(f)
	return strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync.")
}

// leaks: the call can make the argument v (or what it captures) known to another goroutine or store it somewhere.
func (l *Locks) leaks(ci ssa.CallInstruction, v ssa.Value, depth int) bool {
	if isSyncOp(ci) {
		return false
	}
	if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
		n := ci.Common().Value.Name()
		return n == "append" || n == "copy"
	}
	outs := l.cg.outs[ci]
	if len(outs) == 0 || len(l.cg.ext[ci]) > 0 || depth > 8 {
		return true
	}
	for _, f := range outs {
		if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok && ssa.Value(mc) == v {
			for i, fv := range f.FreeVars {
				_ = i
				if l.valueLeaks(fv, depth+1) {
					return true
				}
			}
			continue
		}
		for j, q := range f.Params {
			if argAt(ci, f, j) == v && l.paramLeaks(q, depth+1) {
				return true
			}
		}
	}
	return false
}

func (l *Locks) paramLeaks(q *ssa.Parameter, depth int) bool {
	if s, ok := l.leakTab[q]; ok {
		return s == 1
	}
	l.leakTab[q] = 1
	r := l.valueLeaks(q, depth)
	l.leakTab[q] = 2
	if r {
		l.leakTab[q] = 1
	}
	return r
}

func (l *Locks) valueLeaks(v ssa.Value, depth int) bool {
	if depth > 8 {
		return true
	}
	der := map[ssa.Value]bool{}
	leak := false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if der[v] || leak || v.Referrers() == nil {
			return
		}
		der[v] = true
		for _, ref := range *v.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Val == v {
					switch a := y.Addr.(type) {
					case *ssa.Alloc:
						walk(a)
					case *ssa.FieldAddr:
						if al, ok := a.X.(*ssa.Alloc); ok {
							walk(al)
						} else {
							leak = true
						}
					default:
						leak = true
					}
				}
			case *ssa.UnOp:
				if _, ok := v.(*ssa.Alloc); ok {
					walk(y)
				}
				if _, ok := v.(*ssa.FreeVar); ok {
					walk(y)
				}
			case *ssa.FieldAddr:
				if isSyncType(y.Type()) {
					continue
				}
				for _, r2 := range *y.Referrers() {
					switch z := r2.(type) {
					case *ssa.Store:
						if z.Val == y {
							leak = true
						}
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					case ssa.CallInstruction:
						leak = leak || !isSyncOp(z)
					default:
						leak = true
					}
				}
			case *ssa.IndexAddr, *ssa.DebugRef, *ssa.BinOp, *ssa.Return, *ssa.If, *ssa.TypeAssert, *ssa.Field:
			case *ssa.MakeClosure:
				walk(y)
				k := y.Fn.(*ssa.Function)
				_ = k
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Phi, *ssa.Slice:
				walk(y.(ssa.Value))
			case *ssa.Call:
				if l.leaks(y, v, depth+1) {
					leak = true
				} else {
					walk(y)
				}
			case *ssa.Defer:
				leak = leak || l.leaks(y, v, depth+1)
			case *ssa.Extract:
				walk(y)
			default:
				leak = true
			}
		}
	}
	walk(v)
	return leak
}

func isSyncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// fresh: at this instruction the object base is known to this function only.
func (l *Locks) fresh(base string, at ssa.Instruction) bool {
	f := at.Parent()
	pre := "new:" + fnName(f) + ":"
	if !strings.HasPrefix(base, pre) {
		return false
	}
	name := base[len(pre):]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch a := in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				v := a.(ssa.Value)
				if v.Name() == name {
					for _, e := range l.escapes(v) {
						if goesAround(e, at, in) {
							return false
						}
					}
					return true
				}
			}
		}
	}
	return false
}

// reaches: b can be executed after a (in the same function).
func reaches(a, b ssa.Instruction) bool {
	ba, bb := a.Block(), b.Block()
	if ba == bb {
		for _, in := range ba.Instrs {
			if in == a {
				if a != b {
					// a first, then b
					for _, i2 := range ba.Instrs {
						if i2 == a {
							return true
						}
						if i2 == b {
							break
						}
					}
				}
				break
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, ba.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == bb {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// goesAround: b can be executed after a without executing avoid in between.
func goesAround(a, b, avoid ssa.Instruction) bool {
	// within one block
	scan := func(blk *ssa.BasicBlock, from int) (found, stop bool) {
		for _, in := range blk.Instrs[from:] {
			if in == b {
				return true, true
			}
			if in == avoid {
				return false, true
			}
		}
		return false, false
	}
	at := -1
	for i, in := range a.Block().Instrs {
		if in == a {
			at = i
		}
	}
	if f, stop := scan(a.Block(), at+1); stop {
		return f
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if f, stop := scan(x, 0); stop {
			if f {
				return true
			}
			continue
		}
		work = append(work, x.Succs...)
	}
	return false
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// ---- threads

func (l *Locks) program(name string, main *ssa.Function) *Program {
	pr := &Program{Name: name, ls: l, Fns: map[*ssa.Function]bool{}, memo: map[string]*lkSummary{}, byRoot: map[string]*Thread{}, afters: map[*Thread]map[ssa.Instruction]map[ssa.Instruction]bool{}}
	pr.reach(main)
	pr.thread("main", main, false, nil, nil)
	run := func(from int) {
		for i := from; i < len(pr.Threads); i++ {
			t := pr.Threads[i]
			pr.enter(t, t.Fn, lset{}, lset{})
		}
	}
	run(0)
	// operations the program itself does not use may be called from anywhere
	pr.main = len(pr.Threads)
	for _, f := range l.p.fns {
		if rel := l.p.pkgRel(f); f.Parent() == nil && !pr.Fns[f] && !l.anyFns[f] && f.Signature.Recv() != nil && hasLock(f.Signature.Recv().Type()) && rel != "" && !strings.HasPrefix(rel, "testutil") && !l.p.isGenerated(f) && len(l.cg.in[f]) == 0 && len(l.cbOf[f]) == 0 {
			n := len(pr.Threads)
			pr.thread("unused "+fnName(f), f, true, nil, nil)
			run(n)
		}
	}
	// multiplicity: a thread started in a loop, by a thread with several instances, or by a function called several times
	for changed := true; changed; {
		changed = false
		for _, t := range pr.Threads {
			if t.Multi || t.Parents == nil {
				continue
			}
			if t.Name == "main" {
				continue
			}
			m := len(t.Parents) > 1
			for _, s := range t.Parents {
				m = m || s.T.Multi || !pr.oncePerThread(s.T, s.Site)
			}
			if m {
				t.Multi = true
				changed = true
			}
		}
	}
	pr.resolve()
	return pr
}

// reach computes the functions and interface types which are live in this program.
func (pr *Program) reach(main *ssa.Function) map[*ssa.Function]bool {
	l := pr.ls
	pr.liveT = map[string]bool{}
	for {
		n := len(pr.liveT)
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mi, ok := in.(*ssa.MakeInterface); ok {
						pr.liveT[mi.X.Type().String()] = true
					}
					for _, k := range pr.outs(in) {
						walk(k)
					}
				}
			}
			for _, cb := range l.cg.cbs {
				if cb.Site.Parent() == f {
					walk(cb.Fn)
				}
			}
		}
		walk(main)
		if pk := main.Pkg; pk != nil {
			imports := map[*types.Package]bool{}
			var imp func(q *types.Package)
			imp = func(q *types.Package) {
				if imports[q] {
					return
				}
				imports[q] = true
				for _, i := range q.Imports() {
					imp(i)
				}
				if sp := l.p.ssa.Package(q); sp != nil && strings.HasPrefix(q.Path(), modPath) {
					walk(sp.Func("init"))
				}
			}
			imp(pk.Pkg)
		}
		if len(pr.liveT) == n {
			return seen
		}
	}
}

// outs: the module functions a call can reach in this program.
func (pr *Program) outs(in ssa.Instruction) []*ssa.Function {
	all := pr.ls.cg.outs[in]
	ci, ok := in.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() {
		return all
	}
	var r []*ssa.Function
	for _, f := range all {
		if len(f.Params) > 0 && pr.liveT[f.Params[0].Type().String()] || len(all) == 1 {
			r = append(r, f)
		}
	}
	return r
}

// oncePerThread: the instruction is executed at most once by the thread.
func (pr *Program) oncePerThread(t *Thread, at ssa.Instruction) bool {
	for i := 0; i < 20; i++ {
		if inLoop(at.Block()) {
			return false
		}
		f := at.Parent()
		if f == t.Fn && len(t.callers[f]) == 0 {
			return true
		}
		cs := t.callers[f]
		if len(cs) != 1 {
			return false
		}
		at = cs[0]
	}
	return false
}

func (pr *Program) thread(name string, f *ssa.Function, multi bool, from *Thread, site ssa.Instruction) *Thread {
	key := name + "|" + f.String()
	t := pr.byRoot[key]
	if t == nil {
		t = &Thread{Name: name, Fn: f, Multi: multi, fns: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.Instruction{}}
		pr.byRoot[key] = t
		pr.Threads = append(pr.Threads, t)
	}
	if from != nil {
		for _, s := range t.Parents {
			if s.T == from && s.Site == site {
				return t
			}
		}
		t.Parents = append(t.Parents, spawnAt{from, site})
	}
	return t
}

func (pr *Program) enter(t *Thread, f *ssa.Function, must, may lset) *lkSummary {
	key := fmt.Sprintf("%p|%s|%s|%s", t, f.String(), must.key(), may.key())
	if s := pr.memo[key]; s != nil {
		return s
	}
	s := &lkSummary{must: must, may: may}
	pr.memo[key] = s
	if pr.ls.p.isGenerated(f) {
		return s
	}
	t.fns[f] = true
	pr.Fns[f] = true
	pr.flow(t, f, must, may, s)
	s.done = true
	return s
}

// flow is the dataflow over one function.
func (pr *Program) flow(t *Thread, f *ssa.Function, must, may lset, sum *lkSummary) {
	type io struct{ must, may lset }
	in := map[*ssa.BasicBlock]*io{f.Blocks[0]: {must, may}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for n := 0; len(work) > 0 && n < 5000; n++ {
		b := work[0]
		work = work[1:]
		st := in[b]
		mu, ma := pr.block(t, f, b, st.must, st.may, nil)
		for _, s := range b.Succs {
			o := in[s]
			if o == nil {
				in[s] = &io{mu, ma}
				work = append(work, s)
				continue
			}
			m2, a2 := meet(o.must, mu), union(o.may, ma)
			if m2.key() != o.must.key() || a2.key() != o.may.key() {
				in[s] = &io{m2, a2}
				work = append(work, s)
			}
		}
	}
	first := true
	for _, b := range f.Blocks {
		st := in[b]
		if st == nil {
			continue
		}
		mu, ma := pr.block(t, f, b, st.must, st.may, &collect{must, may})
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if first {
				sum.must, sum.may = mu, ma
				first = false
			} else {
				sum.must, sum.may = meet(sum.must, mu), union(sum.may, ma)
			}
		}
	}
}

type collect struct{ entryMust, entryMay lset }

func (pr *Program) block(t *Thread, f *ssa.Function, b *ssa.BasicBlock, must, may lset, col *collect) (lset, lset) {
	l := pr.ls
	acc := func(at ssa.Instruction, v ssa.Value, elems, w bool) {
		if col == nil {
			return
		}
		pr.raw = append(pr.raw, rawAccess{v, elems, w, at, f, t, must.clone()})
	}
	op := func(kind, lock, what string, at ssa.Instruction) {
		if col == nil {
			return
		}
		pr.Ops = append(pr.Ops, &LockOp{Kind: kind, Lock: lock, What: what, At: at, Fn: f, T: t, Must: must.clone(), May: may.clone(), Own: col.entryMay})
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if !isSyncType(x.X.Type()) {
					acc(in, x.X, false, false)
				}
			} else if x.Op == token.ARROW {
				op("block", l.path(x.X), "receive from a channel", in)
			}
		case *ssa.Store:
			acc(in, x.Addr, false, true)
		case *ssa.MapUpdate:
			acc(in, x.Map, true, true)
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				acc(in, x.X, true, false)
			}
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				acc(in, x.X, true, false)
			}
		case *ssa.Send:
			op("block", l.path(x.Chan), "send to a channel", in)
		case *ssa.Select:
			if x.Blocking {
				op("block", "", "select", in)
			}
		case *ssa.Go:
			pr.spawn(t, in)
		case *ssa.Call:
			must, may = pr.call(t, f, in, x, must, may, acc, op)
		case *ssa.Defer:
			if col != nil { // callbacks and accesses are recorded where the deferred calls run
				_ = x
			}
		case *ssa.RunDefers:
			ds := defersOf(f)
			for i := len(ds) - 1; i >= 0; i-- {
				if reaches(ds[i], in) || ds[i].Block() == in.Block() {
					if k, lk := lockOp(ds[i]); k == "unlock" || k == "runlock" {
						// only locks taken before the defer statement are its concern
						p := l.path(lk)
						if !dominates(ds[i].Block(), in.Block()) {
							delete(must, "") // conditional defers: the unlock may not run
							m2 := may.clone()
							must = must.clone()
							delete(must, p)
							may = m2
							op(k, p, l.lockClass(lk), ds[i])
							continue
						}
					}
					must, may = pr.call(t, f, ds[i], ds[i], must, may, acc, op)
				}
			}
		case *ssa.Return:
			op("exit", "", "", in)
		}
		// callbacks handed to libraries
		for _, cb := range l.cg.cbs {
			if cb.Site != in {
				continue
			}
			if cb.Sync {
				t.call(cb.Fn, in)
				pr.enter(t, cb.Fn, must, may)
			} else {
				pr.thread("callback of "+cb.To, cb.Fn, true, t, in)
			}
		}
	}
	return must, may
}

func (t *Thread) call(f *ssa.Function, at ssa.Instruction) {
	for _, c := range t.callers[f] {
		if c == at {
			return
		}
	}
	t.callers[f] = append(t.callers[f], at)
}

func dominates(a, b *ssa.BasicBlock) bool { return a == b || a.Dominates(b) }

func skipLoc(k string) bool {
	return strings.HasPrefix(k, "sync.") || k == "" || strings.Contains(k, "pb.")
}

func defersOf(f *ssa.Function) []*ssa.Defer {
	var r []*ssa.Defer
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				r = append(r, d)
			}
		}
	}
	return r
}

// lockOp classifies calls of the sync package's lock methods.
func lockOp(ci ssa.CallInstruction) (kind string, lock ssa.Value) {
	cc := ci.Common()
	name := ""
	if cc.IsInvoke() {
		if typeName(cc.Value.Type()) != "sync.Locker" {
			return "", nil
		}
		name, lock = cc.Method.Name(), cc.Value
	} else if f := cc.StaticCallee(); f != nil {
		n := fnName(f)
		if !strings.HasPrefix(n, "(*sync.Mutex).") && !strings.HasPrefix(n, "(*sync.RWMutex).") {
			return "", nil
		}
		name, lock = f.Name(), cc.Args[0]
	} else {
		return "", nil
	}
	switch name {
	case "Lock":
		return "lock", lock
	case "RLock":
		return "rlock", lock
	case "Unlock":
		return "unlock", lock
	case "RUnlock":
		return "runlock", lock
	}
	return "try", lock
}

// lockClass: the field or variable a lock is.
func (l *Locks) lockClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return typeName(x.X.Type()) + "." + fldName(x.X.Type(), x.Field)
	case *ssa.Global:
		return shortPkg(x)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if typeName(fa.X.Type()) == "sync.Cond" {
				return l.lockClass(fa.X) + ".L"
			}
			return typeName(fa.X.Type()) + "." + fldName(fa.X.Type(), fa.Field)
		}
		return l.lockClass(x.X)
	case *ssa.Parameter, *ssa.FreeVar:
		return l.path(v)
	}
	return l.path(v)
}

// blockingExt: library calls which can wait for another party.
func blockingExt(n string) bool {
	for _, s := range []string{"(*sync.WaitGroup).Wait", "time.Sleep", "(net.Conn).Read", "(net.Conn).Write", "(net.Listener).Accept", "net.Dial", "net.Listen", "(io.Writer).Write", "(io.Reader).Read", "io.Copy", "io.ReadFull", "(*github.com/hajimehoshi/oto.Player).Write", "(*golang.org/x/crypto/ssh/terminal.Terminal).ReadLine", "(*golang.org/x/crypto/ssh/terminal.Terminal).Write", "(github.com/gliderlabs/ssh.Session)", "io.WriteString", "(github.com/gdamore/tcell.Screen).PollEvent"} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return false
}

func (pr *Program) call(t *Thread, f *ssa.Function, in ssa.Instruction, ci ssa.CallInstruction, must, may lset, acc func(ssa.Instruction, ssa.Value, bool, bool), op func(string, string, string, ssa.Instruction)) (lset, lset) {
	l := pr.ls
	cc := ci.Common()
	if k, lk := lockOp(ci); k != "" {
		p := l.path(lk)
		l.class[p] = l.lockClass(lk)
		op(k, p, l.class[p], in)
		must, may = must.clone(), may.clone()
		switch k {
		case "lock":
			must[p], may[p] = 'W', 'W'
		case "rlock":
			if must[p] != 'W' {
				must[p] = 'R'
			}
			if may[p] != 'W' {
				may[p] = 'R'
			}
		case "unlock", "runlock":
			delete(must, p)
			delete(may, p)
		case "try":
			may[p] = 'W'
		}
		return must, may
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			acc(in, cc.Args[0], true, true)
			acc(in, cc.Args[1], true, false)
		case "append":
			if len(cc.Args) > 1 {
				acc(in, cc.Args[0], true, false)
				acc(in, cc.Args[1], true, false)
			}
		case "delete":
			acc(in, cc.Args[0], true, true)
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				acc(in, cc.Args[0], true, false)
			}
		}
		return must, may
	}
	for _, n := range l.cg.ext[ci] {
		if n == "(*sync.Cond).Wait" {
			op("wait", l.path(cc.Args[0])+".L", "wait for a condition", in)
		} else if blockingExt(n) {
			op("block", "", n, in)
			break
		}
	}
	outs := pr.outs(in)
	if len(outs) == 0 {
		// library code may read and write what its arguments point to
		if !isSyncOp(ci) {
			for _, a := range cc.Args {
				switch a.Type().Underlying().(type) {
				case *types.Pointer:
					if !isSyncType(a.Type()) {
						switch a.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Alloc:
							acc(in, a, false, true)
						}
					}
				case *types.Slice, *types.Map:
					acc(in, a, true, false)
				}
			}
		}
		return must, may
	}
	for _, k := range outs {
		if l.p.isGenerated(k) {
			op("gen", "", fnName(k), in)
		}
	}
	rm, ra := lset(nil), lset(nil)
	for _, k := range outs {
		t.call(k, in)
		cm, ca := l.intoCallee(ci, k, must), l.intoCallee(ci, k, may)
		s := pr.enter(t, k, cm, ca)
		om, oa := l.outOf(ci, k, s.must, must, cm), l.outOf(ci, k, s.may, may, ca)
		if rm == nil {
			rm, ra = om, oa
		} else {
			rm, ra = meet(rm, om), union(ra, oa)
		}
	}
	if len(l.cg.ext[ci]) > 0 && !cc.IsInvoke() {
		rm, ra = meet(rm, must), union(ra, may)
	}
	return rm, ra
}

// intoCallee renames held locks to the callee's view of them.
func (l *Locks) intoCallee(ci ssa.CallInstruction, f *ssa.Function, s lset) lset {
	r := lset{}
	for p, m := range s {
		r[l.rename(ci, f, p, true)] = m
	}
	return r
}

func (l *Locks) outOf(ci ssa.CallInstruction, f *ssa.Function, s, before, entry lset) lset {
	r := lset{}
	for p, m := range s {
		r[l.rename(ci, f, p, false)] = m
	}
	return r
}

func (l *Locks) rename(ci ssa.CallInstruction, f *ssa.Function, p string, in bool) string {
	for j, q := range f.Params {
		a := argAt(ci, f, j)
		if a == nil {
			continue
		}
		from, to := l.path(a), l.path(q)
		if !in {
			from, to = to, from
		}
		if from == to {
			continue
		}
		if p == from || strings.HasPrefix(p, from+".") {
			return to + p[len(from):]
		}
	}
	return p
}

func (pr *Program) spawn(t *Thread, in ssa.Instruction) {
	g := in.(*ssa.Go)
	for _, k := range pr.outs(in) {
		pr.thread("go at "+pr.ls.p.pos(in.Pos()), k, false, t, in)
	}
	_ = g
}

// ---- ordering

// after: the instructions thread t can execute after instruction s.
func (pr *Program) after(t *Thread, s ssa.Instruction) map[ssa.Instruction]bool {
	m := pr.afters[t]
	if m == nil {
		m = map[ssa.Instruction]map[ssa.Instruction]bool{}
		pr.afters[t] = m
	}
	if r := m[s]; r != nil {
		return r
	}
	r := map[ssa.Instruction]bool{}
	m[s] = r
	l := pr.ls
	whole := map[*ssa.Function]bool{}
	var all func(f *ssa.Function)
	visit := func(in ssa.Instruction) {
		if r[in] {
			return
		}
		r[in] = true
		switch in.(type) {
		case *ssa.Go:
			return
		case *ssa.RunDefers:
			for _, d := range defersOf(in.Parent()) {
				r[d] = true
				for _, k := range pr.outs(d) {
					all(k)
				}
			}
		}
		for _, k := range pr.outs(in) {
			if _, ok := in.(*ssa.Defer); !ok {
				all(k)
			}
		}
		for _, cb := range l.cg.cbs {
			if cb.Site == in && cb.Sync {
				all(cb.Fn)
			}
		}
	}
	all = func(f *ssa.Function) {
		if whole[f] {
			return
		}
		whole[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				visit(in)
			}
		}
	}
	done := map[ssa.Instruction]bool{}
	var from func(s ssa.Instruction)
	from = func(s ssa.Instruction) {
		if done[s] {
			return
		}
		done[s] = true
		f := s.Parent()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if reaches(s, in) {
					visit(in)
				}
			}
		}
		for _, c := range t.callers[f] {
			from(c)
		}
	}
	from(s)
	return r
}

// chains: the sites in ancestor p from which thread t descends.
func (pr *Program) chains(p, t *Thread, seen map[*Thread]bool) []ssa.Instruction {
	if seen[t] {
		return nil
	}
	seen[t] = true
	var r []ssa.Instruction
	for _, s := range t.Parents {
		if s.T == p {
			r = append(r, s.Site)
		}
		if s.T != t {
			r = append(r, pr.chains(p, s.T, seen)...)
		}
	}
	return r
}

// before: access a (of thread a.T) certainly happens before everything thread t does.
func (pr *Program) before(a *Access, t *Thread) bool {
	if a.T == t || a.T.Multi {
		return false
	}
	// every way t is started goes through a.T
	if !pr.descends(t, a.T, map[*Thread]bool{}) {
		return false
	}
	for _, s := range pr.chains(a.T, t, map[*Thread]bool{}) {
		if a.At == s || pr.after(a.T, s)[a.At] {
			return false
		}
	}
	return true
}

// descends: every instance of t is (transitively) started by thread p.
func (pr *Program) descends(t, p *Thread, seen map[*Thread]bool) bool {
	if t == p {
		return true
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	if len(t.Parents) == 0 {
		return false
	}
	for _, s := range t.Parents {
		if !pr.descends(s.T, p, seen) {
			return false
		}
	}
	return true
}

// ---- races

// Race is a pair of accesses not ordered by anything.
type Race struct {
	Loc  string
	A, B *Access
	Why  string
}

// guards: the names of the locks an access is protected by, relative to the object accessed.
func (pr *Program) guards(a *Access) map[string]byte {
	r := map[string]byte{}
	for p, m := range a.Held {
		put := func(k string) {
			if r[k] != 'W' {
				r[k] = m
			}
		}
		if strings.HasPrefix(p, a.Base+".") {
			put("self" + p[len(a.Base):])
		}
		root := p
		if i := strings.Index(p, "."); i >= 0 && strings.HasPrefix(p, "new:") {
			// new:fn:reg.path ; function names contain dots: cut after the register
			root = p
		}
		if pr.singleton(root) {
			put("abs " + p)
		}
		if i := strings.LastIndex(p, "."); i > 0 {
			q, mname := p[:i], p[i+1:]
			if strings.HasPrefix(a.Base, q+".") {
				put("own " + mname + a.Base[len(q):])
			}
		}
	}
	return r
}

// singleton: the path denotes one object of the whole program.
func (pr *Program) singleton(p string) bool {
	if strings.HasPrefix(p, "#") || strings.HasPrefix(p, "$") || strings.HasPrefix(p, "^") {
		return false
	}
	if !strings.HasPrefix(p, "new:") {
		return true // rooted at a package variable
	}
	// the allocating function runs once
	for f := range pr.Fns {
		pre := "new:" + fnName(f) + ":"
		if !strings.HasPrefix(p, pre) {
			continue
		}
		reg := p[len(pre):]
		if i := strings.IndexAny(reg, ".["); i >= 0 {
			reg = reg[:i]
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && v.Name() == reg {
					n := 0
					for _, t := range pr.Threads {
						if t.fns[f] {
							n++
							if t.Multi || !pr.oncePerThread(t, in) {
								return false
							}
						}
					}
					return n == 1
				}
			}
		}
	}
	return false
}

func overlap(a, b string) bool {
	if a == b {
		return true
	}
	star := func(x, y string) bool {
		return strings.HasSuffix(x, ".*") && strings.HasPrefix(y, x[:len(x)-1]) && !strings.Contains(y, "[]")
	}
	return star(a, b) || star(b, a)
}

// races finds all conflicting pairs on locations accepted by keep.
func (pr *Program) races(keep func(loc string) bool) (races []Race, pairs int, locs map[string]int) {
	locs = map[string]int{}
	by := map[string][]*Access{}
	for _, a := range pr.Accesses {
		if a.Fresh || !keep(a.Loc) {
			continue
		}
		by[a.Loc] = append(by[a.Loc], a)
	}
	for k, as := range by {
		if strings.HasSuffix(k, ".*") {
			for k2 := range by {
				if k2 != k && overlap(k, k2) {
					by[k2] = append(by[k2], as...)
				}
			}
		}
	}
	for _, k := range sortedKeys(by) {
		as := by[k]
		hasW := false
		for _, a := range as {
			hasW = hasW || a.Write
		}
		seen := map[string]bool{}
		shared := false
		for i, a := range as {
			for _, b := range as[i:] {
				if a.T == b.T && !a.T.Multi {
					continue
				}
				shared = true
				if !a.Write && !b.Write {
					continue
				}
				if strings.HasPrefix(k, "var ") && pr.ownFrame(a) && pr.ownFrame(b) {
					continue // two activations
				}
				if a.T == b.T && pr.ownFrame(a) && pr.ownFrame(b) && exactBase(a.Base) && exactBase(b.Base) {
					continue // each instance has its own object
				}
				if a.T == b.T && pr.joined(a.T) {
					continue // the instances do not overlap
				}
				pairs++
				if pr.before(a, b.T) || pr.before(b, a.T) {
					continue
				}
				ga, gb := pr.guards(a), pr.guards(b)
				ok := false
				for g, m := range ga {
					if n, has := gb[g]; has && (m == 'W' || !a.Write) && (n == 'W' || !b.Write) {
						ok = true
					}
				}
				if ok {
					continue
				}
				x, y := a, b
				if !x.Write {
					x, y = y, x
				}
				id := pr.ls.p.pos(x.At.Pos()) + pr.ls.p.pos(y.At.Pos())
				if seen[id] {
					continue
				}
				seen[id] = true
				races = append(races, Race{Loc: k, A: x, B: y})
			}
		}
		if shared && hasW {
			locs[k] = len(as)
		}
	}
	return races, pairs, locs
}

// ownFrame: the variable accessed belongs to an activation of the accessing thread itself.
func (pr *Program) ownFrame(a *Access) bool {
	for f := range a.T.fns {
		if !strings.HasPrefix(a.Base, "new:"+fnName(f)+":") {
			continue
		}
		for g := a.T.Fn; g != nil; g = g.Parent() {
			if g != a.T.Fn && g == f {
				return a.Fn == f // the thread's entry is a closure of f: what it captured is not its own
			}
		}
		// the entry function's own parameters may lead to another activation of f
		return a.Fn == f || !pr.handedOver(f, a.T)
	}
	return false
}

// exactBase: the path names a new object itself, not something it refers to.
func exactBase(p string) bool {
	i := strings.LastIndex(p, ":")
	return strings.HasPrefix(p, "new:") && !strings.ContainsAny(p[i:], ".[")
}

// handedOver: f starts threads of this kind itself, so that their arguments may be f's variables.
func (pr *Program) handedOver(f *ssa.Function, t *Thread) bool {
	for _, s := range t.Parents {
		if s.Site.Parent() == f {
			return true
		}
	}
	return false
}

// joined: the (only) starter of the thread waits for its end before it can start another instance.
func (pr *Program) joined(t *Thread) bool {
	if len(t.Parents) != 1 {
		return false
	}
	s := t.Parents[0]
	if s.T.Multi {
		return false
	}
	w := pr.ls.joinOf(s.Site, t.Fn)
	if w == nil {
		return false
	}
	// no way from the site back to itself without the wait
	return !goesAround(s.Site, s.Site, w)
}

// joinOf: the WaitGroup.Wait which every way from the go statement to the end of the function passes, if the goroutine
// signals its end on that WaitGroup.
func (l *Locks) joinOf(site ssa.Instruction, fn *ssa.Function) ssa.Instruction {
	done := ""
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if k := d.Call.StaticCallee(); k != nil && fnName(k) == "(*sync.WaitGroup).Done" && b == fn.Blocks[0] {
				done = l.path(d.Call.Args[0])
			}
		}
	}
	var waits []ssa.Instruction
	if done != "" {
		for _, b := range site.Parent().Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if k := c.Call.StaticCallee(); k != nil && fnName(k) == "(*sync.WaitGroup).Wait" && l.path(c.Call.Args[0]) == done {
						waits = append(waits, in)
					}
				}
			}
		}
	} else if in := l.collected(site, fn); in != nil {
		waits = append(waits, in)
	}
	for _, in := range waits {
		all := true
		for _, b2 := range site.Parent().Blocks {
			last := b2.Instrs[len(b2.Instrs)-1]
			if _, ok := last.(*ssa.Return); ok && goesAround(site, last, in) {
				all = false
			}
		}
		if all {
			return in
		}
	}
	return nil
}

// endSignal: the channel the goroutine closes, or sends its only value to, as the last thing it does.
func (l *Locks) endSignal(fn *ssa.Function) (ch string, closes bool) {
	n := 0
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			v, cl, ok := chanSignal(in)
			if !ok {
				continue
			}
			n++
			switch in.(type) {
			case *ssa.Defer:
				if b != fn.Blocks[0] {
					continue
				}
			case *ssa.Go:
				continue
			default:
				last := true
				for _, x := range b.Instrs[i+1:] {
					switch x.(type) {
					case *ssa.Return, *ssa.DebugRef, *ssa.RunDefers:
					default:
						last = false
					}
				}
				rets := 0
				for _, b2 := range fn.Blocks {
					if _, ok := b2.Instrs[len(b2.Instrs)-1].(*ssa.Return); ok {
						rets++
					}
				}
				if !last || rets != 1 {
					continue
				}
			}
			ch, closes = l.path(v), cl
		}
	}
	if n != 1 {
		return "", false
	}
	return ch, closes
}

// chanSignal: the channel sent to or closed by the instruction.
func chanSignal(in ssa.Instruction) (ssa.Value, bool, bool) {
	switch x := in.(type) {
	case *ssa.Send:
		return x.Chan, false, true
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return x.Common().Args[0], true, true
		}
	}
	return nil, false, false
}

// collected: the instruction at which the spawner has received the end signals of all goroutines it started which
// report on the same channel as fn; the channel is made by the spawner and used for nothing else.
func (l *Locks) collected(site ssa.Instruction, fn *ssa.Function) ssa.Instruction {
	ch, closes := l.endSignal(fn)
	if ch == "" {
		return nil
	}
	sp := site.Parent()
	var made ssa.Instruction
	var recvs []ssa.Instruction
	var goes int
	for _, b := range sp.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeChan:
				if l.path(x) == ch {
					made = in
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && l.path(x.X) == ch {
					recvs = append(recvs, in)
				}
			case *ssa.Go:
				k := x.Call.StaticCallee()
				if k == nil {
					continue
				}
				if c2, _ := l.endSignal(k); c2 == ch {
					goes++
				}
			}
		}
	}
	if made == nil || goes == 0 || len(recvs) == 0 {
		return nil
	}
	for _, b := range sp.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				if k := g.Call.StaticCallee(); k != nil {
					if c2, _ := l.endSignal(k); c2 == ch && goesAround(in, in, made) {
						return nil // any number of them
					}
				}
			}
		}
	}
	// nobody else reports on the channel
	for _, f := range l.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, _, ok := chanSignal(in); ok && l.path(v) == ch {
					if c2, _ := l.endSignal(f); c2 != ch {
						return nil
					}
				}
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				if c2, _ := l.endSignal(mc.Fn.(*ssa.Function)); c2 != ch {
					continue
				}
				for _, r := range *mc.Referrers() {
					switch r.(type) {
					case *ssa.Go, *ssa.DebugRef:
					default:
						return nil
					}
				}
			}
		}
	}
	if closes {
		if goes == 1 {
			return recvs[0]
		}
		return nil
	}
	if len(recvs) == goes {
		for _, r := range recvs {
			if r.Block() != recvs[0].Block() {
				return nil
			}
		}
		return recvs[len(recvs)-1]
	}
	if len(recvs) == 1 {
		if n, exit := constTrips(recvs[0].Block()); exit != nil && n == int64(goes) {
			return exit.Instrs[0]
		}
	}
	return nil
}

// constTrips: b is the body of a loop which counts from 0 to a constant and is only left at its head; exit: the block after it.
func constTrips(b *ssa.BasicBlock) (n int64, exit *ssa.BasicBlock) {
	if len(b.Preds) != 1 {
		return 0, nil
	}
	h := b.Preds[0]
	cond, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || h.Succs[0] != b || len(b.Succs) != 1 {
		return 0, nil
	}
	post := b
	if b.Succs[0] != h {
		return 0, nil
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0, nil
	}
	k, ok := cmp.Y.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, nil
	}
	phi, ok := cmp.X.(*ssa.Phi)
	if !ok || len(phi.Edges) != 2 {
		return 0, nil
	}
	for i, e := range phi.Edges {
		if h.Preds[i] == post {
			inc, ok := e.(*ssa.BinOp)
			if !ok || inc.Op != token.ADD || inc.X != ssa.Value(phi) {
				return 0, nil
			}
			if d, ok := inc.Y.(*ssa.Const); !ok || d.Int64() != 1 {
				return 0, nil
			}
		} else if z, ok := e.(*ssa.Const); !ok || z.Int64() != 0 {
			return 0, nil
		}
	}
	if len(h.Succs[1].Preds) != 1 {
		return 0, nil
	}
	return k.Int64(), h.Succs[1]
}

func debugRaces(l *Locks) {
	for _, n := range sortedKeys(l.progs) {
		pr := l.progs[n]
		fmt.Println("==", n, len(pr.Threads), "threads", len(pr.Fns), "functions", len(pr.Accesses), "accesses", len(pr.Ops), "ops")
		for _, t := range pr.Threads {
			var ps []string
			for _, s := range t.Parents {
				ps = append(ps, s.T.Name+"@"+l.p.pos(s.Site.Pos()))
			}
			fmt.Println("  thread", t.Name, fnName(t.Fn), t.Multi, ps)
		}
		rs, pairs, locs := pr.races(func(string) bool { return true })
		fmt.Println("  pairs", pairs)
		for _, k := range sortedKeys(locs) {
			fmt.Println("  shared", k, locs[k])
		}
		for _, r := range rs {
			f := func(a *Access) string {
				w := "read"
				if a.Write {
					w = "WRITE"
				}
				return fmt.Sprintf("%s %s in %s [%s] base=%s held=%s", w, l.p.pos(a.At.Pos()), fnName(a.Fn), a.T.Name, a.Base, a.Held.key())
			}
			fmt.Println("  RACE", r.Loc, "\n     ", f(r.A), "\n     ", f(r.B))
		}
	}
}
