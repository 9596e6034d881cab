package main

import (
	"go/types"
)

// outcome is one way a call returned.
type outcome struct {
	st   *State
	rets []*Term
	kept bool
}

// join merges the outcomes of a call which cannot be told apart by the property under analysis: outcomes
// with the same effects always, and, beyond joinMax outcomes, outcomes with different effects too
// (cells and results which differ become unknown).
func (ex *Exec) join(outs []*outcome, pc0 *PC) []*outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []*outcome
	var groups [][]*outcome
	for _, o := range outs {
		if o.kept {
			res = append(res, o)
			continue
		}
		found := false
		for i, g := range groups {
			if sameEffects(g[0], o) {
				groups[i] = append(g, o)
				found = true
				break
			}
		}
		if !found {
			groups = append(groups, []*outcome{o})
		}
	}
	var merged []*outcome
	for _, g := range groups {
		merged = append(merged, ex.mergeGroup(g, pc0))
	}
	if ex.joinMax > 0 && len(merged) > ex.joinMax {
		byHeld := map[string][]*outcome{}
		for _, m := range merged {
			k := ""
			for _, h := range m.st.held {
				k += h.L.key + "|"
			}
			for _, r := range m.rets {
				// results which decide control flow stay apart
				if b, ok := r.boolVal(); ok {
					if b {
						k += "T"
					} else {
						k += "F"
					}
				} else if r.isNil() {
					k += "N"
				} else {
					k += "."
				}
			}
			byHeld[k] = append(byHeld[k], m)
		}
		merged = nil
		for _, k := range sortedKeys(byHeld) {
			merged = append(merged, ex.mergeGroup(byHeld[k], pc0))
		}
	}
	return append(res, merged...)
}

func sameHeld(a, b *State) bool {
	if len(a.held) != len(b.held) {
		return false
	}
	for i := range a.held {
		if a.held[i] != b.held[i] {
			return false
		}
	}
	return true
}

func sameEffects(a, b *outcome) bool {
	if len(a.rets) != len(b.rets) || !sameHeld(a.st, b.st) {
		return false
	}
	for i := range a.rets {
		if a.rets[i] != b.rets[i] {
			return false
		}
	}
	half := func(x, y *State) bool {
		for k, v := range x.mem {
			w, ok := y.mem[k]
			if ok && w == v {
				continue
			}
			if !ok && v.Op == "ld" && v.Args[0] == k {
				continue // a value read on one path only
			}
			if ok && v.Op == "ld" && v.Args[0] == k && w.Op == "ld" && w.Args[0] == k {
				continue // unknown either way
			}
			return false
		}
		for r := range x.dirty {
			if !y.dirty[r] {
				return false
			}
		}
		return true
	}
	return half(a.st, b.st) && half(b.st, a.st)
}

func (ex *Exec) mergeGroup(g []*outcome, pc0 *PC) *outcome {
	if len(g) == 1 {
		return g[0]
	}
	base := g[0]
	n := base.st.clone()
	out := &outcome{st: n, rets: append([]*Term{}, base.rets...)}
	// facts which hold on all outcomes
	var facts []*Term
	for q := base.st.pc; q != nil && q != pc0; q = q.up {
		facts = append(facts, q.lit)
	}
	n.pc = pc0
	for i := len(facts) - 1; i >= 0; i-- {
		all := true
		for _, o := range g[1:] {
			if !o.st.pc.has(facts[i]) && (len(g) > 12 || !o.st.pc.entails(facts[i])) {
				all = false
				break
			}
		}
		if all && !n.pc.has(facts[i]) {
			n.pc = n.pc.push(facts[i])
		}
	}
	epochs := false
	for _, o := range g[1:] {
		if o.st.epoch != n.epoch {
			epochs = true
		}
		for r := range o.st.dirty {
			n.dirty[r] = true
		}
		if len(o.st.vol) > len(n.vol) {
			n.vol = o.st.vol
		}
		for a, v := range n.mem {
			w, ok := o.st.mem[a]
			if ok && w == v {
				continue
			}
			delete(n.mem, a)
			if r := addrRoot(a); freshRoot(r) {
				n.dirty[r] = true
			}
			epochs = true
		}
		for a := range o.st.mem {
			if _, ok := n.mem[a]; !ok {
				if r := addrRoot(a); freshRoot(r) {
					n.dirty[r] = true
				}
			}
		}
	}
	if epochs {
		n.epoch = nextEpoch()
	}
	for i, r := range out.rets {
		for _, o := range g[1:] {
			if o.rets[i] != r {
				out.rets[i] = ex.joinVal(n, g, i)
				break
			}
		}
	}
	return out
}

// joinVal is an unknown value with what is known about all the results.
func (ex *Exec) joinVal(n *State, g []*outcome, i int) *Term {
	t := g[0].rets[i].Typ
	for _, o := range g {
		if o.rets[i].Typ != nil {
			t = o.rets[i].Typ
		}
	}
	s := fresh("join", t)
	if t == nil {
		return s
	}
	all := func(p func(o *outcome) bool) bool {
		for _, o := range g {
			if !p(o) {
				return false
			}
		}
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan, *types.Slice:
		if all(func(o *outcome) bool { return ex.notNil(o.st, o.rets[i]) }) {
			n.addFact(mkNot(mkEq(s, mkNil(t))))
		}
	}
	if isInteger(t) && all(func(o *outcome) bool { return o.st.pc.entails(mkNot(mkLt0(linOf(o.rets[i])))) }) {
		n.addFact(mkNot(mkLt0(linOf(s))))
	}
	return s
}
