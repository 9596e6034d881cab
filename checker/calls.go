package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 14

func (ex *Exec) callOperands(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fnT *Term
	if c.IsInvoke() {
		args = append(args, ex.val(fr, c.Value))
	} else {
		fnT = ex.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	return fnT, args
}

type callK func(fr *Frame, st *State, res *Term, inline bool)

func (ex *Exec) doCall(fr *Frame, st *State, in *ssa.Call, c *ssa.CallCommon, k callK) {
	fnT, args := ex.callOperands(fr, c)
	ex.invoke(fr, st, in, c, fnT, args, false, k)
}

func methodName(m *types.Func) string { return short(m.FullName()) }

// resolve finds the function a call dispatches to: (fn, args incl. receiver, bindings, name).
func (ex *Exec) resolve(st *State, c *ssa.CallCommon, fnT *Term, args []*Term) (*ssa.Function, []*Term, []*Term, string) {
	if c.IsInvoke() {
		recv := args[0]
		if recv.Op == "iface" {
			dt := recv.Aux.(types.Type)
			if f := ex.p.ssa.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); f != nil {
				a := append([]*Term{recv.Args[0]}, args[1:]...)
				return f, a, nil, fnName(f)
			}
		}
		return nil, args, nil, methodName(c.Method)
	}
	switch fnT.Op {
	case "func":
		f := fnT.Aux.(*ssa.Function)
		return f, args, nil, fnName(f)
	case "closure":
		f := fnT.Aux.(*ssa.Function)
		return f, args, fnT.Args, fnName(f)
	}
	return nil, args, nil, "dynamic"
}

func (ex *Exec) inlinable(fr *Frame, f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if ex.p.isGenerated(f) && f.Name() != "ProtoMessage" && !strings.HasPrefix(f.Name(), "Get") {
		return false
	}
	rel := ex.p.pkgRel(f)
	if rel == "logging" && ex.p.pkgRel(ex.cur.Fn) != "logging" {
		return false
	}
	if ex.opaqueFn != nil && ex.opaqueFn(f) {
		return false
	}
	d := 0
	if fr != nil {
		d = fr.depth
	}
	if d >= maxDepth || inStack(fr, f) > 0 {
		return false
	}
	return true
}

// invoke performs a call, a deferred call, or (through doGo) prepares a goroutine.
func (ex *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term, isDef bool, k callK) {
	ex.callsN++
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		res := ex.builtin(fr, st, in, b.Name(), args, c)
		if res == nil {
			return // the path ends
		}
		k(fr, st, res, false)
		return
	}
	if c.IsInvoke() {
		ex.oblige(fr, st, "nil function or interface called", in, callDesc(c)+" on "+descVal(c.Value), ex.notNil(st, args[0]))
	} else if c.StaticCallee() == nil {
		ex.oblige(fr, st, "nil function or interface called", in, "call of "+descVal(c.Value), ex.notNil(st, fnT))
	}
	f, fargs, binds, name := ex.resolve(st, c, fnT, args)
	if f != nil && ex.inlinable(fr, f) {
		ev := ex.emit(fr, st, &Ev{Kind: "call", Instr: in, Name: name, Callee: f, Args: fargs, Aux: "inline", Def: isDef})
		ev.Def = ev.Def || isDef
		caller := fr
		ex.call(fr, st, f, fargs, binds, in, isDef, func(st2 *State, rets []*Term) {
			var res *Term
			switch len(rets) {
			case 0:
				res = mk("void", nil, nil)
			case 1:
				res = rets[0]
			default:
				res = mk("tuple", f.Signature.Results(), nil, rets...)
			}
			k(caller, st2, res, true)
		})
		return
	}
	if f == nil && fnT != nil && fnT.Op != "func" && fnT.Op != "closure" {
		name = "dynamic"
	}
	sig := c.Signature()
	ex.external(fr, st, in, c, f, name, fargs, fnT, sig, isDef, k)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// resolveVar returns the elements of the variadic slice passed as last argument, if they are known.
func (ex *Exec) resolveVar(st *State, sig *types.Signature, args []*Term) ([]*Term, bool) {
	if !sig.Variadic() || len(args) == 0 {
		return nil, false
	}
	v := args[len(args)-1]
	if v.isNil() {
		return []*Term{}, true
	}
	n, ok := lenOf(v).intVal()
	if !ok || n > 64 {
		return nil, false
	}
	if v.Op != "slice" || v.Args[0].Op != "alloc" {
		return nil, false
	}
	et := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, ex.load(st, mkIaddr(v, mkInt(i, nil), et), et))
	}
	return out, true
}

var callSeq int

func (ex *Exec) external(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, f *ssa.Function, name string, args []*Term, fnT *Term, sig *types.Signature, isDef bool, k callK) {
	rt := resultType(sig)
	vr, hasVar := ex.resolveVar(st, sig, args)
	if name == "dynamic" {
		args = append([]*Term{fnT}, args...)
	}
	if isPure(name) {
		pargs := args
		if hasVar {
			pargs = append(append([]*Term{}, args[:len(args)-1]...), vr...)
		} else if sig.Variadic() {
			pargs = append(append([]*Term{}, args[:len(args)-1]...), mk("vargs", nil, st.epoch, args[len(args)-1]))
		}
		// slices read by a pure function are read now
		for i, a := range pargs {
			if a.Typ != nil {
				if _, ok := a.Typ.Underlying().(*types.Slice); ok && a.Op != "vargs" {
					pargs = append([]*Term{}, pargs...)
					pargs[i] = a
				}
			}
		}
		res := ex.pureApp(fr, st, name, rt, pargs)
		e := ex.emit(fr, st, &Ev{Kind: "pure", Instr: in, Name: name, Callee: f, Args: args, Var: vr, HasVar: hasVar, Res: res})
		e.Def = e.Def || isDef
		k(fr, st, res, false)
		return
	}
	callSeq++
	cr := &CallRes{Name: name, N: callSeq, Fn: f}
	if rt == nil {
		rt = types.NewTuple()
	}
	res := mk("call", rt, cr, args...)
	e := ex.emit(fr, st, &Ev{Kind: "call", Instr: in, Name: name, Callee: f, Args: args, Var: vr, HasVar: hasVar, Res: res})
	e.Def = e.Def || isDef
	cr.Ev = e
	switch name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "syscall.Exit":
		for f := fr; f != nil; f = f.up {
			for _, l := range f.loops {
				if l.disc {
					return
				}
			}
		}
		ex.end(st, "exit", nil)
		return
	}
	if ex.lockOp(fr, st, in, e, name, args) {
		ex.afterCall(st, e, name, args, res)
		if name == "(*sync.Mutex).TryLock" || name == "(*sync.RWMutex).TryLock" {
			res = mk("call", rt, cr, args...)
		}
		k(fr, st, res, false)
		return
	}
	if v, ok := ex.builder(fr, st, name, args, vr, hasVar); ok {
		if v == nil {
			v = res
		}
		ex.afterCall(st, e, name, args, res)
		k(fr, st, v, false)
		return
	}
	// closures handed to functions which call them synchronously
	if cb := syncCallback(name, args); cb != nil {
		ex.callback(fr, st, in, e, cb, args, res, k)
		return
	}
	// closures and method values handed to anything else may be called later: explore them in this context
	for _, a := range append(append([]*Term{}, args...), vr...) {
		ex.registerCallbacks(fr, st, e, a, name)
	}
	if !pureFn(f) {
		ex.havocArgs(st, name, args, vr)
	}
	ex.afterCall(st, e, name, args, res)
	k(fr, st, res, false)
}

func (ex *Exec) registerCallbacks(fr *Frame, st *State, e *Ev, a *Term, name string) {
	if ex.spawn == nil || ex.quiet > 0 {
		return
	}
	seen := map[*Term]bool{}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || seen[t] || d > 4 {
			return
		}
		seen[t] = true
		switch t.Op {
		case "closure":
			f := t.Aux.(*ssa.Function)
			if len(f.Blocks) > 0 {
				ex.spawnRoot(fr, st, e, f, nil, t.Args, "callback")
			}
		case "func":
			f := t.Aux.(*ssa.Function)
			if len(f.Blocks) > 0 && !ex.p.isGenerated(f) {
				ex.spawnRoot(fr, st, e, f, nil, nil, "callback")
			}
		case "struct", "iface", "vargs", "slice", "faddr":
			for _, x := range t.Args {
				walk(x, d+1)
			}
		case "alloc", "makeslice":
			for a, v := range st.mem {
				if addrRoot(a) == t {
					walk(v, d+1)
				}
			}
		}
	}
	walk(a, 0)
}

func (ex *Exec) spawnRoot(fr *Frame, st *State, e *Ev, f *ssa.Function, args, binds []*Term, kind string) {
	init := st.clone()
	init.ev = nil
	init.held = nil
	multi := kind == "callback"
	// captured variables which may be written after this point are not stable
	for _, b := range append(append([]*Term{}, binds...), args...) {
		if b.Op == "alloc" {
			if a := ex.allocOf[b]; a != nil && ex.writtenAfter(a, e.Instr) {
				init.markVol(b)
			}
		}
	}
	r := &Root{Name: ex.cur.Name + "→" + fnName(f), Fn: f, Args: args, binds: binds, Kind: kind, Spawn: e, Parent: ex.cur, Multi: multi, init: init}
	if args == nil {
		for _, p := range f.Params {
			r.Args = append(r.Args, mkParam(f, p))
		}
	}
	ex.spawn(r)
}

// writtenAfter: a store to the local a may execute after the instruction at, on the same instance of a.
func (ex *Exec) writtenAfter(a *ssa.Alloc, at ssa.Instruction) bool {
	var stores []ssa.Instruction
	inClosure := false
	var refs func(v ssa.Value, self bool)
	refs = func(v ssa.Value, self bool) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					if self {
						stores = append(stores, r)
					} else {
						inClosure = true
					}
				}
			case *ssa.MakeClosure:
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						refs(f.FreeVars[i], false)
					}
				}
			}
		}
	}
	refs(a, true)
	if inClosure {
		return true
	}
	if at == nil || at.Parent() != a.Parent() {
		return len(stores) > 1
	}
	for _, s := range stores {
		if reachesAvoiding(at, s, a) {
			return true
		}
	}
	return false
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// reachesAvoiding: control can go from after "from" to "to" without executing "avoid".
func reachesAvoiding(from, to, avoid ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == avoid {
				return false
			}
			if b.Instrs[i] == to {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), instrIndex(from)+1)
}

func (ex *Exec) doGo(fr *Frame, st *State, in *ssa.Go) {
	c := in.Common()
	fnT, args := ex.callOperands(fr, c)
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		ex.emit(fr, st, &Ev{Kind: "go", Instr: in, Name: "builtin " + b.Name(), Args: args})
		return
	}
	if c.IsInvoke() {
		ex.oblige(fr, st, "nil function or interface called", in, "go "+callDesc(c)+" on "+descVal(c.Value), ex.notNil(st, args[0]))
	} else if c.StaticCallee() == nil {
		ex.oblige(fr, st, "nil function or interface called", in, "go call of "+descVal(c.Value), ex.notNil(st, fnT))
	}
	f, fargs, binds, name := ex.resolve(st, c, fnT, args)
	vr, hasVar := ex.resolveVar(st, c.Signature(), args)
	if name == "dynamic" {
		fargs = append([]*Term{fnT}, fargs...)
	}
	e := ex.emit(fr, st, &Ev{Kind: "go", Instr: in, Name: name, Callee: f, Args: fargs, Var: vr, HasVar: hasVar, Aux: binds})
	if f != nil && len(f.Blocks) > 0 && ex.spawn != nil && ex.quiet == 0 {
		ex.spawnRoot(fr, st, e, f, fargs, binds, "go")
	}
	if name == "dynamic" || f == nil {
		for _, a := range fargs {
			ex.registerCallbacks(fr, st, e, a, name)
		}
	}
	// locals the goroutine writes are volatile from now on
	if f != nil {
		for i, b := range binds {
			if b.Op == "alloc" && i < len(f.FreeVars) && writesThrough(f.FreeVars[i], 0) {
				st.havocRoot(b)
				st.markVol(b)
			}
		}
	}
}

// writesThrough: the function stores through the captured variable v directly.
func writesThrough(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && writesThrough(f.FreeVars[i], d+1) {
					return true
				}
			}
		}
	}
	return false
}

// ---- locks ----

func isLockMethod(name string) (op string, ok bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "lock", true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return "unlock", true
	case "(*sync.RWMutex).RLock":
		return "rlock", true
	case "(*sync.RWMutex).RUnlock":
		return "runlock", true
	case "(*sync.Cond).Wait":
		return "wait", true
	}
	return "", false
}

// lockTerm canonicalises the lock operand: the iface around &mutex is removed.
func lockTerm(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func (ex *Exec) lockOp(fr *Frame, st *State, in ssa.Instruction, e *Ev, name string, args []*Term) bool {
	op, ok := isLockMethod(name)
	if !ok {
		return false
	}
	L := lockTerm(args[0])
	e.Addr = L
	switch op {
	case "lock", "rlock":
		e.Kind = op
		for _, h := range st.held {
			if h.L == L {
				ex.oblige(fr, st, "lock acquired twice", in, "lock "+L.String(), false)
			}
		}
		e.Held = st.held
		st.held = append(append([]Held{}, st.held...), Held{L, op == "lock"})
		ex.havocGuarded(st, L)
	case "unlock", "runlock":
		e.Kind = op
		found := false
		var nh []Held
		for i := len(st.held) - 1; i >= 0; i-- {
			if !found && st.held[i].L == L && st.held[i].W == (op == "unlock") {
				found = true
				nh = append(append([]Held{}, st.held[:i]...), st.held[i+1:]...)
			}
		}
		ex.oblige(fr, st, "unlock of a lock which is not held", in, "unlock "+lockName(L), found)
		if found {
			st.held = nh
		}
		ex.havocGuarded(st, L)
	case "wait":
		e.Kind = "wait"
		ex.havocGuarded(st, nil)
	}
	return true
}

func lockName(L *Term) string {
	switch L.Op {
	case "faddr":
		return fieldKey(L)
	case "global":
		return globalKey(L)
	case "ld":
		return lockName(L.Args[0])
	}
	return L.String()
}

// havocGuarded forgets cells other goroutines may change while L is not held.
func (ex *Exec) havocGuarded(st *State, L *Term) {
	if ex.guards == nil {
		return
	}
	st.epoch = nextEpoch()
	for a := range st.mem {
		if g, ok := ex.guardOf(a); ok {
			if L != nil && g != lockName(L) && ex.heldByName(st, g) {
				continue
			}
			if addrRoot(a).Op == "alloc" {
				// a local object not shared yet keeps its value
				if !ex.sharedAlloc(st, addrRoot(a)) {
					continue
				}
				st.dirty[addrRoot(a)] = true
			}
			if v := st.mem[a]; ex.facts[fieldKey(a)] == factSticky && ex.notNil(st, v) {
				if ex.factUsed != nil {
					ex.factUsed[fieldKey(a)] = true
				}
				n := fresh("cell", v.Typ)
				st.addFact(mkNot(mkEq(n, mkNil(v.Typ))))
				st.mem[a] = n
				continue
			}
			delete(st.mem, a)
		}
	}
}

func (ex *Exec) sharedAlloc(st *State, r *Term) bool {
	for e := st.ev; e != nil; e = e.up {
		if e.Kind == "go" {
			seen := map[*Term]bool{}
			for _, a := range e.Args {
				st.reach(a, seen)
			}
			if b, ok := e.Aux.([]*Term); ok {
				for _, a := range b {
					st.reach(a, seen)
				}
			}
			if seen[r] {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) guardOf(a *Term) (string, bool) {
	if ex.guards == nil {
		return "", false
	}
	for x := a; ; x = x.Args[0] {
		if x.Op == "faddr" || x.Op == "global" {
			if g, ok := ex.guards[fieldKey(x)]; ok {
				return g, true
			}
		}
		if x.Op != "faddr" && x.Op != "iaddr" {
			return "", false
		}
	}
}

// unstable: the cell is guarded by a lock which is not held, so every load may see another value.
func (ex *Exec) unstable(st *State, a *Term) bool {
	g, ok := ex.guardOf(a)
	if !ok {
		return false
	}
	r := addrRoot(a)
	if r.Op == "alloc" && !ex.sharedAlloc(st, r) {
		return false
	}
	return !ex.heldByName(st, g)
}

func (ex *Exec) heldByName(st *State, g string) bool {
	for _, h := range st.held {
		if lockName(h.L) == g {
			return true
		}
	}
	return false
}

func (ex *Exec) immutable(a *Term) bool {
	if ex.imm == nil {
		return false
	}
	switch a.Op {
	case "faddr", "global":
		if ex.imm[fieldKey(a)] {
			return true
		}
	}
	// a field of a package variable which is only ever read
	for x := a; x.Op == "faddr"; x = x.Args[0] {
		if y := x.Args[0]; y.Op == "global" {
			return ex.imm["all of "+fieldKey(y)]
		}
	}
	return false
}

// fact is what holds of a field or variable at all times; every store to it is checked to keep it.
type fact int

const (
	factNonNeg fact = 1 << iota // an integer >= 0
	factPos                     // an integer > 0
	factLen                     // a slice which is not empty
	factSticky                  // never becomes nil again
)

func (f fact) holds(ex *Exec, st *State, v *Term) bool {
	switch f {
	case factNonNeg:
		return st.pc.entails(mkNot(mkLt0(linOf(v))))
	case factPos:
		return st.pc.entails(mkNot(mkLt0(linOf(v).add(linConst(1), -1))))
	case factLen:
		return st.pc.entails(mkNot(mkLt0(linOf(lenOf(v)).add(linConst(1), -1))))
	case factSticky:
		return ex.notNil(st, v)
	}
	return true
}

func (ex *Exec) onLoad(st *State, a, v *Term) {
	k := fieldKey(a)
	f, ok := ex.facts[k]
	if ok && ex.factUsed != nil {
		ex.factUsed[k] = true
	}
	switch f {
	case factNonNeg:
		st.addFact(mkNot(mkLt0(linOf(v))))
	case factPos:
		st.addFact(mkNot(mkLt0(linOf(v).add(linConst(1), -1))))
	case factLen:
		st.addFact(mkNot(mkLt0(linOf(lenOf(v)).add(linConst(1), -1))))
	}
}

func (ex *Exec) checkFact(fr *Frame, st *State, in *ssa.Store, a, v *Term) {
	if f, ok := ex.facts[fieldKey(a)]; ok && ex.quiet == 0 {
		ex.oblige(fr, st, "value which must not be stored", in, fieldKey(a), f.holds(ex, st, v))
		if ex.factStores != nil {
			ex.factStores[in] = true
		}
	}
}

// ---- builtins ----

func (ex *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, name string, args []*Term, c *ssa.CallCommon) *Term {
	void := mk("void", nil, nil)
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
			t := fresh("chanlen", types.Typ[types.Int])
			st.addFact(mkNot(mkLt0(linOf(t))))
			ex.emit(fr, st, &Ev{Kind: "chanlen", Instr: in, Addr: args[0], Res: t})
			return t
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ex.emit(fr, st, &Ev{Kind: "mapread", Instr: in, Addr: args[0]})
			return mk("len", types.Typ[types.Int], st.epoch, args[0])
		}
		return lenOf(args[0])
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return lenOf(args[0])
		}
		return capOf(args[0])
	case "append":
		rt := c.Args[0].Type()
		if v, ok := in.(*ssa.Call); ok {
			rt = v.Type()
		}
		base := args[0]
		if len(args) < 2 {
			return base
		}
		x := args[1]
		var res *Term
		n, known := lenOf(x).intVal()
		freshSeq++
		if known && n == 0 {
			res = base
		} else if known && n <= 16 && x.Op == "slice" && x.Args[0].Op == "alloc" {
			et := rt.Underlying().(*types.Slice).Elem()
			as := []*Term{base}
			for i := int64(0); i < n; i++ {
				as = append(as, ex.load(st, mkIaddr(x, mkInt(i, nil), et), et))
			}
			res = mk("append", rt, freshSeq, as...)
		} else {
			res = mk("append", rt, "spread", base, x)
		}
		ex.emit(fr, st, &Ev{Kind: "append", Instr: in, Args: args, Res: res})
		// the backing array of base may be written beyond its length
		return res
	case "copy":
		t := fresh("copied", types.Typ[types.Int])
		st.addFact(mkNot(mkLt0(linOf(t))))
		a, b := linOf(lenOf(args[0])), linOf(lenOf(args[1]))
		st.addFact(mkNot(mkLt0(a.add(linOf(t), -1))))
		st.addFact(mkNot(mkLt0(b.add(linOf(t), -1))))
		// min: if len(a) <= len(b) is known the result is known
		if st.pc.entailsLe(lenOf(args[0]), lenOf(args[1]), 0) {
			t = lenOf(args[0])
		} else if st.pc.entailsLe(lenOf(args[1]), lenOf(args[0]), 0) {
			t = lenOf(args[1])
		}
		if ex.copied(fr, st, in, args[0], args[1]) {
			return t
		}
		ex.emit(fr, st, &Ev{Kind: "copy", Instr: in, Args: args, Res: t})
		base := args[0]
		if base.Op == "slice" {
			base = base.Args[0]
		}
		for m := range st.mem {
			if hasBase(m, base) {
				delete(st.mem, m)
			} else if m.Op == "iaddr" && args[0].Typ != nil && addrClass(m) == addrClass(mkIaddr(args[0], mkInt(0, nil), args[0].Typ.Underlying().(*types.Slice).Elem())) && !freshRoot(addrRoot(m)) && !freshRoot(addrRoot(base)) {
				delete(st.mem, m)
			}
		}
		st.dirty[addrRoot(base)] = true
		st.epoch = nextEpoch()
		return t
	case "delete":
		ex.emit(fr, st, &Ev{Kind: "delete", Instr: in, Addr: args[0], Args: args})
		ex.forgetMap(st, args[0])
		st.epoch = nextEpoch()
		return void
	case "close":
		ex.oblige(fr, st, "close of nil channel", in, "close "+descVal(c.Args[0]), ex.notNil(st, args[0]))
		ex.emit(fr, st, &Ev{Kind: "close", Instr: in, Addr: args[0]})
		return void
	case "min", "max":
		if len(args) == 2 && isInteger(args[0].Typ) {
			t := fresh(name, args[0].Typ)
			a, b, l := linOf(args[0]), linOf(args[1]), linOf(t)
			if name == "max" {
				a, b, l = a.scale(-1), b.scale(-1), l.scale(-1)
			}
			st.addFact(mkNot(mkLt0(a.add(l, -1))))
			st.addFact(mkNot(mkLt0(b.add(l, -1))))
			if st.pc.entails(mkNot(mkLt0(b.add(a, -1)))) {
				return args[0]
			}
			if st.pc.entails(mkNot(mkLt0(a.add(b, -1)))) {
				return args[1]
			}
			if v, ok := in.(ssa.Value); ok {
				_ = v
			}
			return t
		}
		return mk("app", args[0].Typ, name, args...)
	case "print", "println":
		return void
	case "recover":
		return mkNil(types.Universe.Lookup("any").Type())
	}
	if v, ok := in.(ssa.Value); ok {
		return fresh("builtin:"+name, v.Type())
	}
	return void
}

// ---- synchronous callbacks ----

func syncCallback(name string, args []*Term) *Term {
	idx := -1
	switch name {
	case "path/filepath.Walk", "path/filepath.WalkDir", "io/fs.WalkDir":
		idx = len(args) - 1
	case "sort.Slice", "sort.SliceStable", "sort.Search", "slices.SortFunc", "slices.IndexFunc", "slices.ContainsFunc", "slices.DeleteFunc":
		idx = len(args) - 1
	case "(*sync.Once).Do":
		idx = 1
	case "strings.Map", "strings.FieldsFunc", "strings.IndexFunc", "strings.TrimFunc":
		idx = 0
		if name != "strings.Map" {
			idx = 1
		}
	}
	if idx >= 0 && idx < len(args) && (args[idx].Op == "closure" || args[idx].Op == "func") {
		if f, ok := args[idx].Aux.(*ssa.Function); ok && len(f.Blocks) > 0 {
			return args[idx]
		}
	}
	return nil
}

// callback models a call which runs cb any number of times: never, or with the captured state havocked before a generic last call.
func (ex *Exec) callback(fr *Frame, st *State, in ssa.Instruction, e *Ev, cb *Term, args []*Term, res *Term, k callK) {
	f := cb.Aux.(*ssa.Function)
	// not called
	s0, f0 := st.clone(), fr.clone()
	ex.afterCall(s0, e, e.Name, args, res)
	k(f0, s0, res, true)
	if !ex.inlinable(fr, f) {
		ex.havocArgs(st, e.Name, args, nil)
		k(fr.clone(), st, res, true)
		return
	}
	for i, b := range cb.Args {
		if b.Op == "alloc" && i < len(f.FreeVars) && writesThrough(f.FreeVars[i], 0) {
			st.havocRoot(b)
		}
	}
	if e.Name == "sort.Slice" || e.Name == "sort.SliceStable" {
		ex.havocArgs(st, e.Name, args[:1], nil)
	}
	var cargs []*Term
	for i, p := range f.Params {
		callSeq++
		cargs = append(cargs, mk("ex", p.Type(), 1000+i, mk("call", nil, &CallRes{Name: e.Name + " callback", N: callSeq, Fn: f})))
	}
	if (e.Name == "sort.Slice" || e.Name == "sort.SliceStable") && len(cargs) == 2 {
		sl := args[0]
		if sl.Op == "iface" {
			sl = sl.Args[0]
		}
		for _, c := range cargs {
			st.addFact(mkNot(mkLt0(linOf(c))))
			st.addFact(mkLt0(linOf(c).add(linOf(lenOf(sl)), -1)))
		}
	}
	ex.emit(fr, st, &Ev{Kind: "callback", Instr: in, Name: e.Name, Callee: f, Args: cargs})
	caller := fr
	ex.call(fr, st, f, cargs, cb.Args, in, false, func(st2 *State, rets []*Term) {
		ex.emit(caller, st2, &Ev{Kind: "callbackret", Instr: in, Name: e.Name, Callee: f, Args: rets})
		ex.afterCall(st2, e, e.Name, args, res)
		k(caller, st2, res, true)
	})
}

func (ex *Exec) havocArgs(st *State, name string, args, vr []*Term) {
	if readOnlyCall(name) {
		return
	}
	seen := map[*Term]bool{}
	for i, a := range args {
		if roArg(name, i) {
			continue
		}
		st.reach(a, seen)
	}
	for _, a := range vr {
		st.reach(a, seen)
	}
	for r := range seen {
		switch r.Op {
		case "alloc", "makeslice", "append", "ld", "param", "call", "ex", "sym", "unbox":
			any := freshRoot(r)
			for m := range st.mem {
				if addrRoot(m) == r {
					any = true
				}
			}
			if any {
				st.havocRootKeepImm(ex, r)
			}
		case "makemap":
			ex.forgetMap(st, r)
			st.epoch = nextEpoch()
		}
	}
}

// havocRootKeepImm forgets everything below root but fields which are never written after construction.
func (st *State) havocRootKeepImm(ex *Exec, root *Term) {
	st.epoch = nextEpoch()
	for b := range st.mem {
		if addrRoot(b) == root && !ex.immutable(b) {
			delete(st.mem, b)
		}
	}
	st.dirty[root] = true
}

// copied: a slice this function just made, and filled completely with a copy of another, is the same as that one appended to nothing.
func (ex *Exec) copied(fr *Frame, st *State, in ssa.Instruction, dst, src *Term) bool {
	if dst.Op != "makeslice" || dst.Typ == nil || src.Typ == nil || !types.Identical(dst.Typ.Underlying(), src.Typ.Underlying()) || !st.pc.entails(mkEq(lenOf(dst), lenOf(src))) {
		return false
	}
	var vs []ssa.Value
	for v, t := range fr.env {
		if t == dst {
			vs = append(vs, v)
		}
	}
	for a, v := range st.mem {
		if v == dst && a.Op != "alloc" || addrRoot(a) == dst {
			return false
		}
	}
	made := false
	for _, v := range vs {
		_, ok := v.(*ssa.MakeSlice)
		made = made || ok
	}
	if !made {
		return false
	}
	n := mk("append", dst.Typ, "spread", mkNil(dst.Typ), src)
	for _, v := range vs {
		fr.env[v] = n
	}
	for a, v := range st.mem {
		if v == dst {
			st.mem[a] = n
		}
	}
	ex.emit(fr, st, &Ev{Kind: "append", Instr: in, Args: n.Args, Res: n})
	return true
}

// builder models the text collected in a local strings.Builder: it is the value of the variable's memory cell. It returns the
// result, or nil for that of the call.
func (ex *Exec) builder(fr *Frame, st *State, name string, args, vr []*Term, hasVar bool) (res *Term, ok bool) {
	const sb = "(*strings.Builder)."
	if len(args) == 0 || !strings.HasPrefix(name, sb) && !strings.HasPrefix(name, "fmt.Fprint") && name != "io.WriteString" {
		return nil, false
	}
	b := strip(args[0])
	if b.Op != "alloc" || b.Typ == nil || typeKey(ptrElem(b.Typ)) != "strings.Builder" {
		return nil, false
	}
	str := types.Typ[types.String]
	text, known := st.mem[b]
	if !known && !st.dirty[b] {
		text, known = mkString(""), true
	}
	if known && text.Typ != nil && !isString(text.Typ) {
		known = false
	}
	var add *Term
	switch name {
	case sb + "String":
		if !known {
			text = fresh("text", str)
			st.mem[b] = text
		}
		return text, true
	case sb + "Len":
		if !known {
			return nil, true
		}
		return lenOf(text), true
	case sb + "Grow":
		return nil, true
	case sb + "Reset":
		st.mem[b] = mkString("")
		return nil, true
	case sb + "WriteString", "io.WriteString":
		add = args[1]
	case sb + "WriteByte", sb + "WriteRune":
		if n, ok := args[1].intVal(); ok && n >= 0 && (n < 128 || name == sb+"WriteRune") {
			add = mkString(string(rune(n)))
		} else {
			add = mk("conv", str, typeKey(str), args[1])
		}
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if hasVar {
			add = ex.pureApp(fr, st, "fmt.S"+strings.TrimPrefix(name, "fmt.F"), str, append(append([]*Term{}, args[1:len(args)-1]...), vr...))
		}
	}
	if add == nil || !known {
		delete(st.mem, b)
		st.dirty[b] = true
		return nil, true
	}
	st.mem[b] = mkCat(str, text, add)
	return nil, true
}
