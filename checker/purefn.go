package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var pureMemo = map[*ssa.Function]bool{}

// pureFn: the function and everything it calls only reads memory (its own locals apart).
func pureFn(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if r, ok := pureMemo[f]; ok {
		return r
	}
	pureMemo[f] = false // recursion is not looked into
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure:
				return false
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
						continue
					}
					return false
				}
				if !pureFn(x.Call.StaticCallee()) {
					return false
				}
			}
		}
	}
	pureMemo[f] = true
	return true
}

// poolType: every value a package-level sync.Pool can hold or make is a fresh or returned value of this one type
// (nil if that is not certain): its New function is set once, by the initialiser, and always makes that type, and only
// non-nil values of that type are put into it.
func (p *Prog) poolType(g *ssa.Global) types.Type {
	if t, ok := p.pools[g]; ok {
		return t
	}
	if p.pools == nil {
		p.pools = map[*ssa.Global]types.Type{}
	}
	p.pools[g] = nil
	var typ types.Type
	good := true
	note := func(v ssa.Value) {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok || typ != nil && !types.Identical(typ, mi.X.Type()) {
			good = false
			return
		}
		typ = mi.X.Type()
	}
	made := false
	setNew := func(fn *ssa.Function, in ssa.Instruction, v ssa.Value) {
		if made || fn.Synthetic == "" && fn.Name() != "init" {
			good = false
		}
		made = true
		if mc, ok := v.(*ssa.MakeClosure); ok {
			v = mc.Fn
		}
		nf, ok := v.(*ssa.Function)
		if !ok || len(nf.Blocks) == 0 {
			good = false
			return
		}
		for _, b := range nf.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				note(r.Results[0])
				if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
					if c, ok := mi.X.(*ssa.Const); ok && c.IsNil() {
						good = false
					}
				}
			}
		}
	}
	fns := append([]*ssa.Function{}, p.fns...)
	if g.Pkg != nil {
		if i := g.Pkg.Func("init"); i != nil {
			fns = append(fns, i)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						uses = true
					}
				}
				if !uses {
					continue
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					for _, r := range *x.Referrers() {
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						st, ok := r.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(x) {
							good = false
							continue
						}
						setNew(f, r, st.Val)
					}
				case *ssa.Store:
					// the initialiser copies a composite literal built in a local
					var src *ssa.Alloc
					if ld, ok := x.Val.(*ssa.UnOp); ok && x.Addr == ssa.Value(g) {
						src, _ = ld.X.(*ssa.Alloc)
					}
					if src == nil {
						good = false
						continue
					}
					for _, r := range *src.Referrers() {
						switch y := r.(type) {
						case *ssa.FieldAddr:
							for _, q := range *y.Referrers() {
								if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
									setNew(f, q, st.Val)
								} else if _, ok := q.(*ssa.DebugRef); !ok {
									good = false
								}
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							good = false
						}
					}
				case *ssa.Call, *ssa.Defer:
					cc := x.(ssa.CallInstruction).Common()
					switch c := cc.StaticCallee(); {
					case c == nil || len(cc.Args) == 0 || cc.Args[0] != ssa.Value(g):
						good = false
					case c.String() == "(*sync.Pool).Get":
					case c.String() == "(*sync.Pool).Put":
						note(cc.Args[1])
						if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok && !neverNil(mi.X, g, 0) {
							good = false
						}
					default:
						good = false
					}
				case *ssa.DebugRef:
				default:
					good = false
				}
			}
		}
	}
	if good && made {
		p.pools[g] = typ
	}
	return p.pools[g]
}

// neverNil: v is a new object, or one taken out of the pool g.
func neverNil(v ssa.Value, g *ssa.Global, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.TypeAssert:
		return neverNil(x.X, g, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !neverNil(e, g, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		c := x.Call.StaticCallee()
		return c != nil && (c.String() == "(*sync.Pool).Get" && len(x.Call.Args) == 1 && x.Call.Args[0] == ssa.Value(g) ||
			c.String() == "bytes.NewBuffer" || c.String() == "bytes.NewBufferString")
	}
	return false
}
