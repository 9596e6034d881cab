package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// iter is the visit of one element of a collection by an arbitrary iteration of a loop.
type iter struct {
	RT   roundTrip
	Coll *Term // the slice (or array, string)
	Idx  *Term // position visited
	Elem *Term
	Addr *Term // its address
	At   *Ev
	Full bool // positions 0, 1, 2, ... are visited in turn
	Rev  bool // positions len-1, ..., 0 are visited in turn
}

// visits lists the slice elements loaded in an iteration at a position which depends on the loop's counter.
func visits(rt roundTrip) []iter {
	var r []iter
	for _, e := range rt.Evs {
		if e.Kind != "load" || e.Addr == nil {
			continue
		}
		a := e.Addr
		for a.Op == "faddr" {
			a = a.Args[0]
		}
		if a.Op != "iaddr" {
			continue
		}
		if a == e.Addr {
			if it, ok := asVisit(rt, e); ok {
				r = append(r, it)
			}
			continue
		}
		// a field of the element is read in place
		var ep any
		if e.Val != nil && e.Val.Op == "ld" {
			ep = e.Val.Aux
		}
		var typ types.Type
		if pt, ok := a.Typ.(*types.Pointer); ok {
			typ = pt.Elem()
		}
		if it, ok := asVisit(rt, &Ev{Kind: "load", Addr: a, Val: mk("ld", typ, ep, a), Instr: e.Instr, Fn: e.Fn, PC: e.PC}); ok {
			it.At = e
			r = append(r, it)
		}
	}
	return r
}

func asVisit(rt roundTrip, e *Ev) (iter, bool) {
	idx := e.Addr.Args[1]
	l := linOf(idx)
	for i, s := range rt.Info.Sym {
		if s == nil || !isInteger(s.Typ) || l.Coefs[s] == 0 {
			continue
		}
		coll := e.Addr.Args[0]
		it := iter{RT: rt, Coll: coll, Idx: idx, Elem: e.Val, Addr: e.Addr, At: e}
		if e.Val == nil {
			it.Elem = e.Res
		}
		pc := rt.Path.St.pc
		init, next := rt.Info.Init[i], rt.Info.Next[i]
		if init == nil || next == nil {
			return it, true
		}
		first := subst(idx, map[*Term]*Term{s: init})
		then := subst(idx, map[*Term]*Term{s: next})
		if pc.entails(mkEq(first, mkInt(0, nil))) && pc.entails(mkEq(then, mkAdd(idx, mkInt(1, nil), nil))) {
			it.Full = true
		}
		if pc.entails(mkEq(first, mkSub(lenOf(coll), mkInt(1, nil), nil))) && pc.entails(mkEq(then, mkAdd(idx, mkInt(-1, nil), nil))) {
			it.Rev = true
		}
		return it, true
	}
	return iter{}, false
}

func sameLoop(a, b *LoopInfo) bool {
	if a.Header != b.Header || len(a.Sym) != len(b.Sym) {
		return false
	}
	for i := range a.Sym {
		if a.Sym[i] != b.Sym[i] {
			return false
		}
	}
	return true
}

// exhausted: the loop left by event exit has visited every element of coll (any collection if coll is nil).
func exhausted(its []iter, p *Path, exit *Ev, coll *Term) bool {
	li := exit.Aux.(*LoopInfo)
	for _, it := range its {
		if !sameLoop(it.RT.Info, li) || coll != nil && it.Coll != coll {
			continue
		}
		if it.Full && (p.St.pc.entailsLe(lenOf(it.Coll), it.Idx, 0) || exit.PC.entailsLe(lenOf(it.Coll), it.Idx, 0)) {
			return true
		}
		if it.Rev && (p.St.pc.entails(mkLt0(linOf(it.Idx))) || exit.PC.entails(mkLt0(linOf(it.Idx)))) {
			return true
		}
	}
	if isMapLoop(li.Header) {
		return exit.Instr.Block() == li.Header
	}
	return false
}

// emptyColl: the loop was left at its head because the collection it ranges over is empty
// (no iteration of it was found at all).
func isMapLoop(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

// allVisits of a set of paths.
func allVisits(paths []*Path) []iter {
	var r []iter
	for _, rt := range roundTrips(paths) {
		r = append(r, visits(rt)...)
	}
	return r
}

// exits lists the loopexit events of a path (loops which were entered and left on it).
func exits(evs []*Ev) []*Ev {
	var r []*Ev
	for _, e := range evs {
		if e.Kind == "loopexit" {
			r = append(r, e)
		}
	}
	return r
}

// eqLits lists pairs known to be equal (pos) or different (!pos) by the literals of pc.
func eqLits(pc *PC, pos bool) [][2]*Term {
	var r [][2]*Term
	for _, l := range pc.lits() {
		t := l
		if !pos {
			if t.Op != "not" {
				continue
			}
			t = t.Args[0]
		}
		switch t.Op {
		case "eq":
			r = append(r, [2]*Term{t.Args[0], t.Args[1]})
		case "eq0":
			// a - b == 0
			lf := linOf(t.Args[0])
			if lf.C == 0 && len(lf.Coefs) == 2 {
				as := lf.atoms()
				if lf.Coefs[as[0]] == -lf.Coefs[as[1]] {
					r = append(r, [2]*Term{as[0], as[1]})
				}
			}
		}
	}
	return r
}

// search checks that a function decides "some element satisfies match" by looking at all elements:
// it answers yes only after a match, goes on only after a mismatch, and answers no only when all loops ran to their end.
// match tells whether a pair of equal terms is the match looked for.
func (c *Ctx) search(rule string, f *ssa.Function, paths []*Path, yes func(p *Path) (val, known bool), match func(a, b *Term) bool, absent func(p *Path) bool) {
	its := allVisits(paths)
	has := func(pc *PC, pos bool) bool {
		for _, q := range eqLits(pc, pos) {
			if !pos && (fixedElem(q[0]) || fixedElem(q[1])) {
				continue // a mismatch of one fixed element says nothing about the others
			}
			if match(q[0], q[1]) || match(q[1], q[0]) {
				return true
			}
		}
		return false
	}
	n := fnName(f)
	for _, p := range paths {
		pos := c.at(f.Pos())
		switch p.End {
		case "ret":
			v, known := yes(p)
			if !c.check(rule+": definite", n, pos, known, "%s gives an answer which does not follow from comparing elements", n) {
				continue
			}
			if v {
				c.check(rule+": yes", n, pos, has(p.St.pc, true), "%s answers yes without having found a match", n)
				continue
			}
			ok := absent != nil && absent(p)
			evs := p.Events()
			xs := exits(evs)
			if len(xs) > 0 {
				ok = true
				for _, x := range xs {
					if x.Fn.Synthetic == "" && !exhausted(its, p, x, nil) {
						ok = false
					}
				}
			}
			c.check(rule+": no", n, pos, ok && !has(p.St.pc, true), "%s can answer no without having compared all elements", n)
		case "back":
			evs := p.Events()
			last := evs[len(evs)-1]
			li := last.Aux.(*LoopInfo)
			innermost := true
			for i := len(evs) - 2; i >= 0; i-- {
				if evs[i].Kind == "loophead" && sameLoop(evs[i].Aux.(*LoopInfo), li) {
					break
				}
				if evs[i].Kind == "loopexit" {
					innermost = false
					c.check(rule+": inner", n, pos, exhausted(its, p, evs[i], nil), "%s goes on to the next element before all comparisons of this one are done", n)
				}
			}
			if innermost {
				c.check(rule+": go on", n, pos, has(p.St.pc, false), "%s goes on without having compared an element, or after a match", n)
			}
		default:
			c.fail(rule+": end", n, pos, "%s can end with %s", n, p.End)
		}
	}
	c.need(rule+": yes", 1)
	c.need(rule+": no", 1)
	c.need(rule+": go on", 1)
}

// fixedElem: t is the element of a collection at a constant index.
func fixedElem(t *Term) bool {
	t = strip(t)
	if t == nil || t.Op != "ld" || t.Args[0].Op != "iaddr" {
		return false
	}
	_, is := t.Args[0].Args[1].intVal()
	return is
}

func boolRet(p *Path) (bool, bool) {
	if len(p.Rets) == 0 {
		return false, false
	}
	r := p.Rets[len(p.Rets)-1]
	if v, ok := r.boolVal(); ok {
		return v, true
	}
	if p.St.pc.entails(r) {
		return true, true
	}
	if p.St.pc.entails(mkNot(r)) {
		return false, true
	}
	return false, false
}

// elemOf: t is an element of the collection rendered as coll by n.
func elemOf(n *namer, t *Term, coll string) bool {
	t = strip(t)
	if t != nil && t.Op == "ld" && t.Args[0].Op == "iaddr" {
		return n.p(t.Args[0].Args[0]) == coll
	}
	return false
}

var _ = types.Typ

// lockstep expresses the counters of a loop by one of them: a counter which starts at s0 and changes by b in every round
// is s0 + b*(i-i0) while i, which grows by one in every round, starts at i0.
func lockstep(rts []roundTrip, li *LoopInfo, i *Term) map[*Term]*Term {
	step := func(k int) (int64, bool) {
		var by int64
		n := 0
		for _, rt := range rts {
			if !sameLoop(rt.Info, li) {
				continue
			}
			nx := rt.Info.Next[k]
			if nx == nil {
				return 0, false
			}
			d := linOf(nx).add(linOf(li.Sym[k]), -1)
			if len(d.Coefs) != 0 || n > 0 && d.C != by {
				return 0, false
			}
			by = d.C
			n++
		}
		return by, n > 0
	}
	at := -1
	for k, s := range li.Sym {
		if s != nil && isInteger(s.Typ) && linOf(i).Coefs[s] == 1 {
			i, at = s, k
			break
		}
	}
	m := map[*Term]*Term{}
	if at < 0 || li.Init[at] == nil {
		return m
	}
	if b, ok := step(at); !ok || b != 1 {
		return m
	}
	rounds := linOf(i).add(linOf(li.Init[at]), -1)
	for k, s := range li.Sym {
		if k == at || s == nil || !isInteger(s.Typ) || li.Init[k] == nil {
			continue
		}
		if b, ok := step(k); ok {
			m[s] = linOf(li.Init[k]).add(rounds, b).term(s.Typ)
		}
	}
	return m
}
