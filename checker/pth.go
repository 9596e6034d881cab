package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// namer renders terms in a normal form which does not depend on names of parameters and locals:
// $0, $1, ... are the parameters of the root function, ^0, ^1 its captured variables.
type namer struct {
	par map[*Term]string
	sub map[*Term]string // further names
}

func newNamer(f *ssa.Function) *namer {
	n := &namer{par: map[*Term]string{}, sub: map[*Term]string{}}
	if f != nil {
		for i, p := range f.Params {
			n.par[mkParam(f, p)] = fmt.Sprintf("$%d", i)
		}
	}
	return n
}

// p renders t.
func (n *namer) p(t *Term) string { return n.pp(t, 14) }

func (n *namer) list(ts []*Term, d int) string {
	var s []string
	for _, t := range ts {
		s = append(s, n.pp(t, d-1))
	}
	return strings.Join(s, ", ")
}

func (n *namer) pp(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if s, ok := n.sub[t]; ok {
		return s
	}
	if s, ok := n.par[t]; ok {
		return s
	}
	if d == 0 {
		return "…"
	}
	switch t.Op {
	case "const":
		v := t.Aux.(constant.Value)
		if v.Kind() == constant.String {
			return fmt.Sprintf("%q", constant.StringVal(v))
		}
		return v.ExactString()
	case "fconst":
		return fconstVals[t].String()
	case "nil":
		return "nil"
	case "global":
		g := t.Aux.(*ssa.Global)
		return "&" + short(g.Pkg.Pkg.Path()) + "." + g.Name()
	case "func":
		return fnName(t.Aux.(*ssa.Function))
	case "faddr":
		return "&" + n.pp(t.Args[0], d-1) + "." + fieldName(t)
	case "fld":
		return n.pp(t.Args[0], d-1) + "." + fieldName(t)
	case "ld":
		a := t.Args[0]
		switch a.Op {
		case "faddr":
			return strings.TrimPrefix(n.pp(a.Args[0], d-1), "&") + "." + fieldName(a)
		case "global":
			g := a.Aux.(*ssa.Global)
			return short(g.Pkg.Pkg.Path()) + "." + g.Name()
		case "iaddr":
			return n.pp(a.Args[0], d-1) + "[" + n.pp(a.Args[1], d-1) + "]"
		}
		return "*" + n.pp(a, d-1)
	case "lin":
		l := t.Aux.(*linAux)
		var p []string
		for i, a := range t.Args {
			s := n.pp(a, d-1)
			switch l.K[i] {
			case 1:
			case -1:
				s = "-" + s
			default:
				s = fmt.Sprintf("%d*%s", l.K[i], s)
			}
			p = append(p, s)
		}
		sortStrings(p)
		if l.C != 0 {
			p = append(p, fmt.Sprint(l.C))
		}
		return "(" + strings.Join(p, "+") + ")"
	case "app":
		return short(t.Aux.(string)) + "(" + n.list(t.Args, d) + ")"
	case "call":
		c := t.Aux.(*CallRes)
		return c.Name + "(" + n.list(c.Ev.Args, d) + ")"
	case "ex":
		return n.pp(t.Args[0], d-1) + "#" + fmt.Sprint(t.Aux)
	case "iface", "unbox":
		return n.pp(t.Args[0], d)
	case "conv":
		return "conv<" + shortType(t.Typ) + ">(" + n.pp(t.Args[0], d-1) + ")"
	case "slice":
		return n.pp(t.Args[0], d-1) + "[" + n.pp(t.Args[1], d-1) + ":" + n.pp(t.Args[2], d-1) + "]"
	case "iaddr":
		return "&" + n.pp(t.Args[0], d-1) + "[" + n.pp(t.Args[1], d-1) + "]"
	case "alloc":
		return "new:" + namedOf(t.Typ)
	case "closure":
		return "closure " + fnName(t.Aux.(*ssa.Function))
	case "sym":
		return "?" + strings.SplitN(t.Aux.(string), "#", 2)[0]
	case "lt0":
		return n.pp(t.Args[0], d-1) + "<0"
	case "eq0":
		return n.pp(t.Args[0], d-1) + "==0"
	case "eq":
		return n.pp(t.Args[0], d-1) + "==" + n.pp(t.Args[1], d-1)
	case "not":
		return "!" + n.pp(t.Args[0], d-1)
	case "void":
		return "()"
	}
	return t.Op + "(" + n.list(t.Args, d) + ")"
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// sink is a call which has an effect a property is about.
type sinkCall struct {
	Name string
	Args []string
	Ev   *Ev
}

func (s sinkCall) String() string { return s.Name + "(" + strings.Join(s.Args, ", ") + ")" }

// sinks lists the calls (and go statements) of functions selected by sel on a path, rendered by n.
func (n *namer) sinks(p *Path, sel func(e *Ev) bool) []sinkCall {
	var r []sinkCall
	for _, e := range p.Events() {
		if e.Kind != "call" && e.Kind != "go" && e.Kind != "pure" {
			continue
		}
		if !sel(e) {
			continue
		}
		s := sinkCall{Name: e.Name, Ev: e}
		for _, a := range e.Args {
			s.Args = append(s.Args, n.p(a))
		}
		r = append(r, s)
	}
	return r
}

func nameIn(names ...string) func(e *Ev) bool {
	return func(e *Ev) bool {
		for _, n := range names {
			if e.Name == n {
				return true
			}
		}
		return false
	}
}

// opaqueSet: keep calls of the named functions as single events.
func opaqueSet(names ...string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool { return m[fnName(f)] }
}

// msgFields: the values stored in the fields of a freshly allocated struct before event at.
func msgFields(p *Path, obj *Term, at *Ev) map[string]*Term {
	r := map[string]*Term{}
	obj = strip(obj)
	for _, e := range p.Events() {
		if at != nil && e.N > at.N && e != at {
			break
		}
		if e.Kind == "store" && e.Addr != nil && e.Addr.Op == "faddr" && e.Addr.Args[0] == obj {
			r[fieldName(e.Addr)] = e.Val
		}
		if li, ok := e.Aux.(*LoopInfo); ok && e.Kind == "loophead" {
			// what a loop makes of a field
			for a, v := range li.Mod {
				if a.Op == "faddr" && a.Args[0] == obj {
					r[fieldName(a)] = v
				}
			}
		}
		if e.Kind == "store" && e.Addr == obj && e.Val != nil && e.Val.Op == "struct" {
			// the whole object
			if st := derefStruct(obj.Typ); st != nil {
				for i := 0; i < st.NumFields() && i < len(e.Val.Args); i++ {
					r[st.Field(i).Name()] = e.Val.Args[i]
				}
			}
		}
	}
	return r
}
