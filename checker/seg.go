package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is an abstract domain for the content of slices: the backing array of every slice value is described by
// segments over symbolic index ranges, each of which holds a run of the elements an array had when the function
// was entered, or one known element.

type seg struct {
	lo, hi *Term
	src    *Term // elements src[i+off] of the initial content of src
	off    *Term
	elem   *Term // one element
	zero   bool
} // none of them: unknown elements

type segState struct {
	pc   *PC
	mem  map[*Term][]seg // content by root
	bad  map[*Term]bool  // roots whose content is not known any more
	old  map[*Term][]*Term
	val  map[*Term]seg // loaded values which are elements of known places
	note string
	// an order of two indices which is needed but not known
	sa, sb *Term
}

// segCases runs body with the content after the events, in all cases of the index orders which the path condition
// leaves open; body must hold in all of them.
func segCases(pc *PC, evs []*Ev, body func(s *segState) bool) (bool, string) {
	return segSplit(pc, evs, body, 5)
}

func segSplit(pc *PC, evs []*Ev, body func(s *segState) bool, d int) (bool, string) {
	s := newSegState(pc)
	s.run(evs, nil)
	ok := body(s)
	if ok || s.sa == nil || d == 0 {
		return ok, s.note
	}
	l := linOf(s.sa).add(linOf(s.sb), -1)
	note := ""
	for _, lit := range []*Term{mkLt0(l), mkNot(mkLt0(l))} {
		if b, isC := lit.boolVal(); isC {
			if !b {
				continue
			}
		}
		q := pc.push(lit)
		if q.inconsistent() {
			continue
		}
		ok, n := segSplit(q, evs, body, d-1)
		if !ok {
			return false, n
		}
		note = n
	}
	return true, note
}

func newSegState(pc *PC) *segState {
	return &segState{pc: pc, mem: map[*Term][]seg{}, bad: map[*Term]bool{}, old: map[*Term][]*Term{}, val: map[*Term]seg{}}
}

func (s *segState) le(a, b *Term) bool { return a == b || s.pc.entailsLe(a, b, 0) }
func (s *segState) eq(a, b *Term) bool { return a == b || s.pc.entails(mkEq(a, b)) }
func add2(a, b *Term) *Term            { return mkAdd(a, b, types.Typ[types.Int]) }
func sub2(a, b *Term) *Term            { return mkSub(a, b, types.Typ[types.Int]) }

var int0 = mkInt(0, nil)
var int1 = mkInt(1, nil)

func (s *segState) view(t *Term) (root, lo, hi *Term) {
	t = strip(t)
	if t.Op == "slice" {
		return t.Args[0], t.Args[1], t.Args[2]
	}
	return t, int0, lenOf(t)
}

func (s *segState) content(root *Term) ([]seg, bool) {
	if s.bad[root] {
		return nil, false
	}
	if c, ok := s.mem[root]; ok {
		return c, true
	}
	switch root.Op {
	case "nil":
		return nil, true
	case "makeslice", "alloc":
		return []seg{{lo: int0, hi: lenOf(root), zero: true}}, true
	}
	return []seg{{lo: int0, hi: lenOf(root), src: root, off: int0}}, true
}

// cut splits the content at index x.
func (s *segState) cut(c []seg, x *Term) ([]seg, bool) {
	var out []seg
	done := false
	for i, g := range c {
		if done || s.le(g.hi, x) {
			out = append(out, g)
			continue
		}
		if s.le(x, g.lo) {
			out = append(out, c[i:]...)
			return out, true
		}
		if !s.le(g.lo, x) {
			s.ask(x, g.lo)
			return nil, false
		}
		if !s.le(x, g.hi) {
			s.ask(x, g.hi)
			return nil, false
		}
		a, b := g, g
		a.hi, b.lo = x, x
		out = append(out, a, b)
		done = true
	}
	return out, true
}

func (s *segState) ask(a, b *Term) {
	if s.sa == nil {
		s.sa, s.sb = a, b
	}
}

// between: the segments of root between lo and hi, renumbered from 0.
func (s *segState) between(t *Term) ([]seg, bool) {
	root, lo, hi := s.view(t)
	if s.le(hi, lo) {
		return nil, true
	}
	c, ok := s.content(root)
	if !ok {
		return nil, false
	}
	if c, ok = s.cut(c, lo); !ok {
		return nil, false
	}
	if c, ok = s.cut(c, hi); !ok {
		return nil, false
	}
	var out []seg
	for _, g := range c {
		if s.le(lo, g.lo) && s.le(g.hi, hi) {
			if s.le(g.hi, g.lo) {
				continue
			}
			out = append(out, s.move(g, sub2(int0, lo)))
		}
	}
	return out, true
}

func (s *segState) move(g seg, by *Term) seg {
	g.lo, g.hi = add2(g.lo, by), add2(g.hi, by)
	if g.src != nil {
		g.off = sub2(g.off, by)
	}
	return g
}

// put replaces root[lo:lo+len(new)] by new (numbered from 0; n is its length).
func (s *segState) put(root, lo, n *Term, nw []seg) {
	for _, o := range s.old[root] {
		if o != root {
			s.bad[o] = true
		}
	}
	c, ok := s.content(root)
	if !ok {
		return
	}
	hi := add2(lo, n)
	if c, ok = s.cut(c, lo); ok {
		c, ok = s.cut(c, hi)
	}
	if !ok {
		s.bad[root] = true
		return
	}
	var out []seg
	placed := false
	place := func() {
		if !placed {
			for _, g := range nw {
				out = append(out, s.move(g, lo))
			}
			placed = true
		}
	}
	for _, g := range c {
		switch {
		case s.le(g.hi, g.lo):
		case s.le(g.hi, lo):
			out = append(out, g)
		case s.le(hi, g.lo):
			place()
			out = append(out, g)
		default:
			// inside the replaced part
			place()
		}
	}
	place()
	s.mem[root] = out
}

func (s *segState) one(e *Term) seg {
	if g, ok := s.val[e]; ok {
		return seg{lo: int0, hi: int1, src: g.src, off: g.off, elem: g.elem, zero: g.zero}
	}
	if c, ok := e.constVal(); ok && c != nil && (e == zeroOf(e.Typ)) {
		return seg{lo: int0, hi: int1, zero: true}
	}
	if e.isNil() {
		return seg{lo: int0, hi: int1, zero: true}
	}
	return seg{lo: int0, hi: int1, elem: e}
}

// at: the element at index i of root.
func (s *segState) at(root, i *Term) (seg, bool) {
	c, ok := s.content(root)
	if !ok {
		return seg{}, false
	}
	for _, g := range c {
		if s.le(g.lo, i) && s.pc.entailsLe(add2(i, int1), g.hi, 0) {
			return s.move(seg{lo: i, hi: add2(i, int1), src: g.src, off: g.off, elem: g.elem, zero: g.zero}, sub2(int0, i)), true
		}
	}
	return seg{}, false
}

// run interprets the events up to (not including) event end (all if nil).
func (s *segState) run(evs []*Ev, end *Ev) {
	for i, e := range evs {
		if e == end {
			return
		}
		switch e.Kind {
		case "append":
			s.append(e)
		case "copy":
			dr, dl, dh := s.view(e.Args[0])
			n := e.Res
			src := strip(e.Args[1])
			sr, sl, _ := s.view(src)
			if isString(src.Typ) {
				s.put(dr, dl, n, []seg{{lo: int0, hi: n}})
				continue
			}
			sub := mk("slice", src.Typ, nil, sr, sl, add2(sl, n))
			c, ok := s.between(sub)
			if !ok || s.bad[dr] {
				s.spoil(dr)
				_ = dh
				continue
			}
			s.put(dr, dl, n, c)
		case "load":
			if e.Addr != nil && e.Addr.Op == "iaddr" {
				v := e.Val
				if v == nil {
					v = e.Res
				}
				if v == nil {
					continue
				}
				if g, ok := s.at(e.Addr.Args[0], e.Addr.Args[1]); ok {
					s.val[v] = g
				}
			}
		case "store":
			if e.Addr == nil || e.Addr.Op != "iaddr" {
				continue
			}
			if e.Addr.Args[0].Op == "alloc" {
				if _, isArr := ptrElem(e.Addr.Args[0].Typ).Underlying().(*types.Array); isArr {
					// an array behind a slice literal or argument list
				}
			}
			root, idx := e.Addr.Args[0], e.Addr.Args[1]
			s.put(root, idx, int1, []seg{s.one(e.Val)})
		case "loophead":
			s.loop(e, evs[i:])
		}
	}
}

func (s *segState) spoil(root *Term) {
	s.bad[root] = true
	for _, o := range s.old[root] {
		s.bad[o] = true
	}
}

func (s *segState) append(e *Ev) {
	if e.Res == e.Args[0] {
		return
	}
	base := strip(e.Args[0])
	br, bl, bh := s.view(base)
	n := sub2(bh, bl)
	pre, ok := s.between(base)
	var add []seg
	cnt := int0
	if ok {
		if e.Res.Aux == "spread" {
			cnt = lenOf(strip(e.Args[1]))
			add, ok = s.between(e.Args[1])
		} else {
			for _, x := range e.Res.Args[1:] {
				add = append(add, s.move(s.one(x), cnt))
				cnt = add2(cnt, int1)
			}
		}
	}
	// the elements may be written behind base in its own array
	if br.Op != "nil" && !(s.le(lenOf(br), bh)) {
		save := s.old[br]
		s.put(br, bh, cnt, []seg{{lo: int0, hi: cnt}})
		s.old[br] = save
	}
	if !ok {
		s.bad[e.Res] = true
		return
	}
	out := append([]seg{}, pre...)
	for _, g := range add {
		out = append(out, s.move(g, n))
	}
	s.mem[e.Res] = out
	s.old[e.Res] = append(append([]*Term{}, s.old[br]...), br)
}

// loop summarises what the iterations of a loop before the current one stored, or forgets it.
func (s *segState) loop(head *Ev, _ []*Ev) {
	li := head.Aux.(*LoopInfo)
	var ws []loopWrite
	for _, w := range loopWriteTab[li.Header] {
		if sameLoop(w.li, li) {
			ws = append(ws, w)
		}
	}
	trips := tripsOf(li)
	if len(trips) == 0 {
		return
	}
	for i, sym := range li.Sym {
		if sym != nil && sym.Typ != nil {
			if _, ok := sym.Typ.Underlying().(*types.Slice); ok {
				s.loopAppend(li, i, trips)
			}
		}
	}
	byRoot := map[*Term][]loopWrite{}
	var order []*Term
	for _, w := range ws {
		if byRoot[w.root] == nil {
			order = append(order, w.root)
		}
		byRoot[w.root] = append(byRoot[w.root], w)
	}
	for _, r := range order {
		l := byRoot[r]
		isSym := false
		for _, sym := range li.Sym {
			isSym = isSym || sym == r
		}
		if isSym {
			continue // a slice which grows in the loop
		}
		if len(l) == len(trips) && s.loopCopy(li, l, len(order) == 1) {
			continue
		}
		for _, w := range l {
			s.spoilLoop(li, w)
		}
	}
}

func tripsOf(li *LoopInfo) []*LoopInfo {
	var r []*LoopInfo
	for _, x := range loopTrips[li.Header] {
		if sameLoop(x, li) {
			r = append(r, x)
		}
	}
	return r
}

// counter: the loop counter of li an index is made of, how it changes and the constant distance to it.
func (s *segState) counter(li *LoopInfo, idx *Term) (k int, off *Term, step int64) {
	l := linOf(idx)
	for i, sym := range li.Sym {
		if sym == nil || !isInteger(sym.Typ) || l.Coefs[sym] != 1 || li.Init[i] == nil {
			continue
		}
		step := int64(0)
		for _, rt := range tripsOf(li) {
			if i >= len(rt.Next) || rt.Next[i] == nil || i >= len(rt.Sym) || rt.Sym[i] != sym {
				return -1, nil, 0
			}
			d, ok := sub2(rt.Next[i], sym).intVal()
			if !ok || step != 0 && d != step {
				return -1, nil, 0
			}
			step = d
		}
		return i, sub2(idx, sym), step
	}
	return -1, nil, 0
}

// loopCopy: every iteration stores dst[i+a] = src[i+b].
func (s *segState) loopCopy(li *LoopInfo, l []loopWrite, only bool) bool {
	w := l[0]
	for _, x := range l[1:] {
		if x.idx != w.idx || x.val != w.val {
			return false
		}
	}
	if w.idx == nil || w.val == nil {
		return false
	}
	k, a, step := s.counter(li, w.idx)
	if k < 0 || step != 1 && step != -1 {
		return false
	}
	sym, init := li.Sym[k], li.Init[k]
	v := strip(w.val)
	lo, hi := add2(init, a), add2(sym, a)
	if step == -1 {
		lo, hi = add2(hi, int1), add2(lo, int1)
	}
	n := sub2(hi, lo)
	if cv := s.one(v); cv.zero {
		s.put(w.root, lo, n, []seg{{lo: int0, hi: n, zero: true}})
		return true
	}
	if v.Op != "ld" || v.Args[0].Op != "iaddr" {
		return false
	}
	src, si := v.Args[0].Args[0], v.Args[0].Args[1]
	b := sub2(si, sym)
	for _, x := range linOf(b).atoms() {
		if x == sym {
			return false
		}
	}
	if src == w.root {
		// reads must stay ahead of the writes
		if step == 1 && !s.le(a, b) || step == -1 && !s.le(b, a) {
			return false
		}
	} else if !only {
		return false
	}
	from := add2(lo, sub2(b, a))
	c, ok := s.between(mk("slice", src.Typ, nil, src, from, add2(from, n)))
	if !ok {
		return false
	}
	s.put(w.root, lo, n, c)
	return true
}

// loopAppend: every iteration appends src[i+b] to a slice variable.
func (s *segState) loopAppend(li *LoopInfo, k int, trips []*LoopInfo) {
	sym, init := li.Sym[k], li.Init[k]
	s.bad[sym] = true
	if init == nil {
		return
	}
	var elem *Term
	for _, rt := range trips {
		if k >= len(rt.Next) || rt.Next[k] == nil {
			return
		}
		nx := strip(rt.Next[k])
		if nx == sym && len(trips) == 1 {
			return
		}
		if nx.Op != "append" || nx.Aux == "spread" || len(nx.Args) != 2 || nx.Args[0] != sym || elem != nil && elem != nx.Args[1] {
			return
		}
		elem = nx.Args[1]
	}
	v := strip(elem)
	if v == nil || v.Op != "ld" || v.Args[0].Op != "iaddr" {
		return
	}
	src, si := v.Args[0].Args[0], v.Args[0].Args[1]
	ci, b, step := s.counter(li, si)
	if ci < 0 || step != 1 {
		return
	}
	from := add2(li.Init[ci], b)
	n := sub2(li.Sym[ci], li.Init[ci])
	s.pc = s.pc.push(mkEq(lenOf(sym), add2(lenOf(init), n)))
	pre, ok1 := s.between(init)
	c, ok2 := s.between(mk("slice", src.Typ, nil, src, from, add2(from, n)))
	if !ok1 || !ok2 {
		return
	}
	out := append([]seg{}, pre...)
	for _, g := range c {
		out = append(out, s.move(g, lenOf(init)))
	}
	delete(s.bad, sym)
	s.mem[sym] = out
}

// loopWrite is a store to an element inside a loop, found in the paths which go round it.
type loopWrite struct {
	root, idx, val *Term
	li             *LoopInfo
}

var loopWriteTab = map[*ssa.BasicBlock][]loopWrite{}
var loopTrips = map[*ssa.BasicBlock][]*LoopInfo{}

// noteLoops remembers the element stores of the loops of a set of paths.
func noteLoops(paths []*Path) {
	loopWriteTab = map[*ssa.BasicBlock][]loopWrite{}
	loopTrips = map[*ssa.BasicBlock][]*LoopInfo{}
	for _, rt := range roundTrips(paths) {
		h := rt.Info.Header
		loopTrips[h] = append(loopTrips[h], rt.Info)
		for _, e := range rt.Evs {
			switch e.Kind {
			case "store":
				if e.Addr != nil && e.Addr.Op == "iaddr" && e.Addr.Args[0].Op != "alloc" {
					loopWriteTab[h] = append(loopWriteTab[h], loopWrite{e.Addr.Args[0], e.Addr.Args[1], e.Val, rt.Info})
				}
			case "copy", "append":
				if e.Kind == "append" && e.Res == e.Args[0] {
					continue
				}
				r, _, _ := (&segState{}).view(e.Args[0])
				loopWriteTab[h] = append(loopWriteTab[h], loopWrite{r, nil, nil, rt.Info})
			}
		}
	}
}

// spoilLoop: an unknown number of iterations store to root at idx.
func (s *segState) spoilLoop(li *LoopInfo, w loopWrite) {
	if w.idx == nil {
		s.spoil(w.root)
		return
	}
	k, a, step := s.counter(li, w.idx)
	if k < 0 || step < 1 {
		s.spoil(w.root)
		return
	}
	// an ascending counter: everything from the first index on
	first := add2(li.Init[k], a)
	c, ok := s.content(w.root)
	if !ok {
		return
	}
	if c, ok = s.cut(c, first); !ok {
		s.spoil(w.root)
		return
	}
	for _, o := range s.old[w.root] {
		s.bad[o] = true
	}
	var out []seg
	for _, g := range c {
		if !s.le(g.hi, first) {
			g = seg{lo: g.lo, hi: g.hi}
		}
		out = append(out, g)
	}
	s.mem[w.root] = out
}

// norm merges neighbouring runs.
func (s *segState) norm(c []seg) []seg {
	var out []seg
	for _, g := range c {
		if s.le(g.hi, g.lo) {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.src != nil && p.src == g.src && s.eq(p.off, g.off) && s.eq(p.hi, g.lo) || p.zero && g.zero && s.eq(p.hi, g.lo) {
				p.hi = g.hi
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// equal: slice value t has exactly the expected content (segments numbered from 0, in order).
func (s *segState) equal(t *Term, want []seg) bool {
	c, ok := s.between(t)
	if !ok {
		s.note = "content not known"
		return false
	}
	c = s.norm(c)
	want = s.norm(want)
	if len(c) != len(want) {
		s.note = s.show(c)
		return false
	}
	for i := range c {
		a, b := c[i], want[i]
		ok := s.eq(a.lo, b.lo) && s.eq(a.hi, b.hi)
		if b.src != nil {
			ok = ok && a.src == b.src && s.eq(a.off, b.off)
		} else if b.elem != nil {
			ok = ok && a.elem == b.elem
		} else if b.zero {
			ok = ok && a.zero
		}
		if !ok {
			s.note = s.show(c)
			return false
		}
	}
	return true
}

func (s *segState) show(c []seg) string {
	n := newNamer(nil)
	var p []string
	for _, g := range c {
		w := "?"
		switch {
		case g.src != nil:
			w = n.p(g.src) + "+" + n.p(g.off)
		case g.elem != nil:
			w = n.p(g.elem)
		case g.zero:
			w = "zero"
		}
		p = append(p, fmt.Sprintf("[%s,%s)=%s", n.p(g.lo), n.p(g.hi), w))
	}
	return cut(strings.Join(p, " "), 300)
}
