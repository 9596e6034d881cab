package main

import (
	"go/types"
	"sort"
)

// PC is a path condition: a persistent list of boolean literals which hold.
type PC struct {
	up  *PC
	lit *Term
	n   int

	memo map[*Term]bool
}

func (p *PC) has(t *Term) bool {
	for q := p; q != nil; q = q.up {
		if q.lit == t {
			return true
		}
	}
	return false
}

func (p *PC) lits() []*Term {
	var r []*Term
	for q := p; q != nil; q = q.up {
		r = append(r, q.lit)
	}
	return r
}

func (p *PC) push(t *Term) *PC {
	n := 1
	if p != nil {
		n = p.n + 1
	}
	return &PC{up: p, lit: t, n: n}
}

// ---- polyhedral domain: emptiness of a conjunction of linear integer constraints, by elimination of one variable after the other ----

func litConstraint(t *Term) (Lin, bool) { // as l <= 0
	if t.Op == "lt0" {
		return linOf(t.Args[0]).add(linConst(1), 1), true
	}
	return Lin{}, false
}

type kv struct {
	a int
	k int64
}

// ineq is sum(k*a) + c <= 0, v sorted by atom.
type ineq struct {
	c int64
	v []kv
}

func (q ineq) coef(a int) int64 {
	for _, x := range q.v {
		if x.a == a {
			return x.k
		}
	}
	return 0
}

func toIneq(l Lin) ineq {
	q := ineq{c: l.C, v: make([]kv, 0, len(l.Coefs))}
	for a, k := range l.Coefs {
		q.v = append(q.v, kv{a.ID, k})
	}
	sort.Slice(q.v, func(i, j int) bool { return q.v[i].a < q.v[j].a })
	return q
}

// comb is m*p + n*q.
func comb(p ineq, m int64, q ineq, n int64) ineq {
	r := ineq{c: p.c*m + q.c*n, v: make([]kv, 0, len(p.v)+len(q.v))}
	i, j := 0, 0
	for i < len(p.v) || j < len(q.v) {
		switch {
		case j == len(q.v) || i < len(p.v) && p.v[i].a < q.v[j].a:
			r.v = append(r.v, kv{p.v[i].a, p.v[i].k * m})
			i++
		case i == len(p.v) || q.v[j].a < p.v[i].a:
			r.v = append(r.v, kv{q.v[j].a, q.v[j].k * n})
			j++
		default:
			if k := p.v[i].k*m + q.v[j].k*n; k != 0 {
				r.v = append(r.v, kv{p.v[i].a, k})
			}
			i++
			j++
		}
	}
	return r
}

// tighten divides by the gcd of the coefficients, rounding the constant (integers).
func (q ineq) tighten() ineq {
	var g int64
	for _, x := range q.v {
		g = gcd(g, x.k)
	}
	if g > 1 {
		r := ineq{c: -floorDiv(-q.c, g), v: make([]kv, len(q.v))}
		for i, x := range q.v {
			r.v[i] = kv{x.a, x.k / g}
		}
		return r
	}
	return q
}

type ineqSet struct {
	by  map[uint64][]int
	all []ineq
}

func hashV(v []kv) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range v {
		h = (h ^ uint64(x.a)) * 1099511628211
		h = (h ^ uint64(x.k)) * 1099511628211
	}
	return h
}

// add keeps the strongest constant per coefficient vector; true when the set became trivially empty.
func (s *ineqSet) add(q ineq) bool {
	if len(q.v) == 0 {
		return q.c > 0
	}
	q = q.tighten()
	for _, x := range q.v {
		if x.k > 1<<30 || x.k < -(1<<30) {
			return false // drop: sound, less precise
		}
	}
	if q.c > 1<<61 || q.c < -(1<<61) {
		return false
	}
	h := hashV(q.v)
outer:
	for _, i := range s.by[h] {
		o := s.all[i]
		if len(o.v) != len(q.v) {
			continue
		}
		for j := range o.v {
			if o.v[j] != q.v[j] {
				continue outer
			}
		}
		if q.c > o.c {
			s.all[i] = q
		}
		return false
	}
	s.by[h] = append(s.by[h], len(s.all))
	s.all = append(s.all, q)
	return false
}

const fmMax = 160

// infeasible reports whether the conjunction of the constraints (l<=0) is empty over the integers, as far as
// elimination over the rationals with tightening shows; false means "not shown to be empty".
func infeasible(cs []ineq) bool {
	set := &ineqSet{by: map[uint64][]int{}}
	for _, c := range cs {
		if set.add(c) {
			return true
		}
	}
	for {
		if len(set.all) == 0 || len(set.all) > fmMax {
			return false
		}
		cnt := map[int][2]int{}
		for _, c := range set.all {
			for _, x := range c.v {
				n := cnt[x.a]
				if x.k > 0 {
					n[0]++
				} else {
					n[1]++
				}
				cnt[x.a] = n
			}
		}
		best, bc := -1, 0
		for a, n := range cnt {
			c := n[0]*n[1] - n[0] - n[1]
			if best < 0 || c < bc || c == bc && a < best {
				best, bc = a, c
			}
		}
		next := &ineqSet{by: map[uint64][]int{}}
		var pos, neg []ineq
		for _, c := range set.all {
			switch k := c.coef(best); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				if next.add(c) {
					return true
				}
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				if next.add(comb(p, -n.coef(best), n, p.coef(best))) {
					return true
				}
			}
		}
		set = next
	}
}

func unsignedAtom(t *Term) bool {
	return t.Op == "len" || t.Op == "cap" || isUnsigned(t.Typ)
}

var atomOf = map[int]*Term{}

func regAtoms(l Lin) {
	for a := range l.Coefs {
		atomOf[a.ID] = a
	}
}

// relevant collects the constraints connected to the goal, nearest first.
func (p *PC) relevant(goal []Lin) (out, neqs []ineq) {
	var all, nq []ineq
	for q := p; q != nil; q = q.up {
		t := q.lit
		switch {
		case t.Op == "lt0":
			l, _ := litConstraint(t)
			regAtoms(l)
			all = append(all, toIneq(l))
		case t.Op == "eq0":
			l := linOf(t.Args[0])
			regAtoms(l)
			all = append(all, toIneq(l), toIneq(l.scale(-1)))
		case t.Op == "not" && t.Args[0].Op == "eq0":
			l := linOf(t.Args[0].Args[0])
			regAtoms(l)
			nq = append(nq, toIneq(l))
		}
	}
	reach := map[int]bool{}
	var order []int
	add := func(a int) {
		if !reach[a] {
			reach[a] = true
			order = append(order, a)
		}
	}
	for _, g := range goal {
		regAtoms(g)
		q := toIneq(g)
		for _, x := range q.v {
			add(x.a)
		}
		out = append(out, q)
	}
	used := make([]bool, len(all))
	done := 0
	for layer := 0; layer < 8 && len(out) < 90; layer++ {
		// implicit facts bring in new atoms
		for ; done < len(order); done++ {
			a := atomOf[order[done]]
			if unsignedAtom(a) {
				out = append(out, ineq{0, []kv{{a.ID, -1}}})
			}
			if a.Op == "cap" {
				l := linOf(lenOf(a.Args[0])).add(linOf(a), -1)
				regAtoms(l)
				q := toIneq(l)
				for _, x := range q.v {
					add(x.a)
				}
				out = append(out, q)
			}
			if b, ok := smallRange(a.Typ); ok && a.Op != "len" && a.Op != "cap" {
				out = append(out, ineq{-b, []kv{{a.ID, 1}}})
			}
		}
		cur := map[int]bool{}
		for a := range reach {
			cur[a] = true
		}
		grew := false
		for i, l := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, x := range l.v {
				if cur[x.a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				grew = true
				for _, x := range l.v {
					add(x.a)
				}
				out = append(out, l)
			}
		}
		if !grew && done == len(order) {
			break
		}
	}
	for _, n := range nq {
		for _, x := range n.v {
			if reach[x.a] {
				neqs = append(neqs, n)
				break
			}
		}
	}
	return
}

// empty reports whether pc together with the goal constraints (<= 0) has no integer solution.
func (p *PC) empty(goal ...Lin) bool {
	out, neqs := p.relevant(goal)
	if infeasible(out) {
		return true
	}
	// disequalities sharpen a non-strict bound to a strict one
	changed := false
	for i, n := range neqs {
		if i >= 8 {
			break
		}
		lo := ineq{n.c + 1, n.v} // n <= -1
		m := comb(n, -1, ineq{}, 0)
		hi := ineq{m.c + 1, m.v} // n >= 1
		if infeasible(append(append([]ineq{}, out...), lo)) {
			out = append(out, hi)
			changed = true
		} else if infeasible(append(append([]ineq{}, out...), hi)) {
			out = append(out, lo)
			changed = true
		}
	}
	return changed && infeasible(out)
}

func smallRange(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 255, true
	case types.Uint16:
		return 65535, true
	}
	return 0, false
}

// entails reports whether pc implies the literal t.
func (p *PC) entails(t *Term) bool {
	if p == nil || t.Op == "const" {
		return p.entails0(t)
	}
	if v, ok := p.memo[t]; ok {
		return v
	}
	v := p.entails0(t)
	if p.memo == nil {
		p.memo = map[*Term]bool{}
	}
	p.memo[t] = v
	return v
}

func (p *PC) entails0(t *Term) bool {
	if b, ok := t.boolVal(); ok {
		return b || p.inconsistent()
	}
	if p.has(t) {
		return true
	}
	switch {
	case t.Op == "lt0":
		n := mkNot(t)
		l, _ := litConstraint(n)
		return p.empty(l)
	case t.Op == "eq0":
		l := linOf(t.Args[0])
		return p.entails(mkLt0(l.add(linConst(1), -1))) && p.entails(mkLt0(l.scale(-1).add(linConst(1), -1)))
	case t.Op == "not" && t.Args[0].Op == "eq0":
		l := linOf(t.Args[0].Args[0])
		return p.empty(l, l.scale(-1))
	}
	// equality facts: eq(x,const) excludes eq(x,otherconst)
	if t.Op == "not" && t.Args[0].Op == "eq" {
		a, b := t.Args[0].Args[0], t.Args[0].Args[1]
		if p.distinct(a, b) {
			return true
		}
	}
	if t.Op == "not" && t.Args[0].Op == "typeis" {
		want := t.Args[0].Aux.(types.Type)
		x := t.Args[0].Args[0]
		for q := p; q != nil; q = q.up {
			if q.lit.Op == "typeis" && q.lit.Args[0] == x {
				have := q.lit.Aux.(types.Type)
				if !types.IsInterface(want) && !types.IsInterface(have) && !types.Identical(have, want) {
					return true
				}
				if types.IsInterface(want) && !types.IsInterface(have) && !types.Implements(have, want.Underlying().(*types.Interface)) {
					return true
				}
			}
			if q.lit.Op == "eq" && (q.lit.Args[0] == x && q.lit.Args[1].isNil() || q.lit.Args[1] == x && q.lit.Args[0].isNil()) {
				return true
			}
		}
	}
	if t.Op == "typeis" {
		want := t.Aux.(types.Type)
		for q := p; q != nil; q = q.up {
			if q.lit.Op == "typeis" && q.lit.Args[0] == t.Args[0] {
				have := q.lit.Aux.(types.Type)
				if types.IsInterface(want) && types.Implements(have, want.Underlying().(*types.Interface)) {
					return true
				}
			}
		}
	}
	return false
}

func (p *PC) distinct(a, b *Term) bool {
	// a or b known equal to a constant different from the other
	val := func(x *Term) *Term {
		for q := p; q != nil; q = q.up {
			if q.lit.Op == "eq" {
				if q.lit.Args[0] == x && isConstLike(q.lit.Args[1]) {
					return q.lit.Args[1]
				}
				if q.lit.Args[1] == x && isConstLike(q.lit.Args[0]) {
					return q.lit.Args[0]
				}
			}
		}
		return nil
	}
	va, vb := a, b
	if !isConstLike(va) {
		va = val(a)
	}
	if !isConstLike(vb) {
		vb = val(b)
	}
	if va != nil && vb != nil {
		if e := mkEq(va, vb); e.Op == "const" {
			v, _ := e.boolVal()
			return !v
		}
	}
	// typeis(x, T) means x is not nil
	for _, pr := range [][2]*Term{{a, b}, {b, a}} {
		if pr[1].isNil() {
			for q := p; q != nil; q = q.up {
				if q.lit.Op == "typeis" && q.lit.Args[0] == pr[0] {
					return true
				}
			}
		}
	}
	// strings of different length
	if isString(a.Typ) && isString(b.Typ) {
		return p.entails(mkNot(mkEq0(linOf(lenOf(a)).add(linOf(lenOf(b)), -1))))
	}
	return false
}

func isConstLike(t *Term) bool {
	return t.Op == "const" || t.Op == "fconst" || t.Op == "nil" || t.Op == "alloc" || t.Op == "iface" || t.Op == "global"
}

func (p *PC) inconsistent() bool {
	for q := p; q != nil; q = q.up {
		if q.lit.Op == "const" {
			if b, _ := q.lit.boolVal(); !b {
				return true
			}
		}
	}
	return false
}

// entailsLe: a <= b + k
func (p *PC) entailsLe(a, b *Term, k int64) bool {
	l := linOf(a).add(linOf(b), -1)
	l.C -= k
	// l <= 0  <=> l - 1 < 0
	l.C--
	return p.entails(mkLt0(l))
}
