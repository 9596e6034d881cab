package main

import (
	"fmt"
	"sort"
	"strings"
)

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (e *Ev) String() string {
	var as []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	s := e.Kind
	if e.Name != "" {
		s += " " + e.Name
	}
	if e.Addr != nil {
		s += " @" + e.Addr.String()
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	if e.HasVar {
		s += fmt.Sprintf(" var%v", e.Var)
	}
	if e.Val != nil {
		s += " = " + e.Val.String()
	}
	if e.Res != nil {
		s += " -> " + e.Res.String()
	}
	if len(e.Held) > 0 {
		s += " held["
		for _, h := range e.Held {
			s += lockName(h.L) + " "
		}
		s += "]"
	}
	if e.Fn != nil {
		s += "   {" + fnName(e.Fn) + "}"
	}
	return s
}
