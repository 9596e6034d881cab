package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// CG is the call graph of the module (variable type analysis), with the functions which are handed to
// libraries as callbacks.
type CG struct {
	p    *Prog
	outs map[ssa.Instruction][]*ssa.Function // resolved module callees per call site (Call, Defer, Go)
	in   map[*ssa.Function][]ssa.CallInstruction
	ext  map[ssa.Instruction][]string // external callees (names)
	cbs  []*Callback
	fns  []*ssa.Function
}

// Callback is a module function a library may call.
type Callback struct {
	Fn   *ssa.Function
	Site ssa.Instruction // where it is handed out
	Sync bool            // only called before the call at Site returns, on the same goroutine
	To   string
}

func buildCG(p *Prog) *CG {
	c := &CG{p: p, outs: map[ssa.Instruction][]*ssa.Function{}, in: map[*ssa.Function][]ssa.CallInstruction{}, ext: map[ssa.Instruction][]string{}}
	all := ssautil.AllFunctions(p.ssa)
	g := vta.CallGraph(all, cha.CallGraph(p.ssa))
	for f := range all {
		if f.Pkg != nil && len(f.Blocks) > 0 || f.Synthetic != "" && len(f.Blocks) > 0 {
			if p.inModule(f) {
				c.fns = append(c.fns, f)
			}
		}
	}
	sort.Slice(c.fns, func(i, j int) bool { return c.fns[i].String() < c.fns[j].String() })
	for _, f := range c.fns {
		n := g.Nodes[f]
		edges := map[ssa.Instruction][]*ssa.Function{}
		if n != nil {
			for _, e := range n.Out {
				if e.Site != nil {
					edges[e.Site] = append(edges[e.Site], e.Callee.Func)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
					continue
				}
				var callees []*ssa.Function
				if sc := cc.StaticCallee(); sc != nil {
					callees = []*ssa.Function{sc}
				} else {
					callees = edges[in]
				}
				for _, k := range callees {
					if p.inModule(k) && len(k.Blocks) > 0 {
						c.outs[in] = append(c.outs[in], k)
						c.in[k] = append(c.in[k], ci)
					} else {
						c.ext[in] = append(c.ext[in], fnName(k))
					}
				}
				if cc.IsInvoke() {
					c.ext[in] = append(c.ext[in], methodName(cc.Method))
				} else if len(callees) == 0 {
					c.ext[in] = append(c.ext[in], "dynamic")
				}
			}
		}
	}
	_ = callgraph.CalleesOf
	c.findCallbacks()
	return c
}

// inModule: the function (or the function it wraps) is part of the module.
func (p *Prog) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	// wrappers of promoted methods: by receiver
	if r := f.Signature.Recv(); r != nil {
		return strings.Contains(r.Type().String(), modPath)
	}
	return false
}

// syncIfaces: library interfaces whose methods are only called while the call they are passed to runs.
func syncLib(to string) bool {
	for _, p := range []string{"sort.", "fmt.", "path/filepath.", "io.", "io/ioutil.", "encoding/json.", "github.com/antlr/", "strings.", "github.com/golang/protobuf/", "google.golang.org/protobuf", "(*github.com/urfave/cli.App).Run", "errors.", "(*encoding/json", "(*sync.Once).Do", "reflect.", "(*github.com/urfave/cli.Context)", "github.com/urfave/cli.", "(github.com/antlr/", "(*github.com/antlr/"} {
		if strings.HasPrefix(to, p) {
			return true
		}
	}
	return false
}

func (c *CG) findCallbacks() {
	type key struct {
		f  *ssa.Function
		at ssa.Instruction
	}
	seen := map[key]bool{}
	add := func(f *ssa.Function, site ssa.Instruction, to string) {
		if f == nil || len(f.Blocks) == 0 || !c.p.inModule(f) || c.p.isGenerated(f) || seen[key{f, site}] {
			return
		}
		seen[key{f, site}] = true
		c.cbs = append(c.cbs, &Callback{Fn: f, Site: site, Sync: syncLib(to), To: to})
	}
	fnOf := func(v ssa.Value) *ssa.Function {
		for {
			switch x := v.(type) {
			case *ssa.Function:
				return x
			case *ssa.MakeClosure:
				return x.Fn.(*ssa.Function)
			case *ssa.ChangeType:
				v = x.X
			default:
				return nil
			}
		}
	}
	for _, f := range c.fns {
		if c.p.isGenerated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// functions passed to external calls
				if ci, ok := in.(ssa.CallInstruction); ok {
					if len(c.outs[in]) == 0 {
						to := strings.Join(c.ext[in], ",")
						for _, a := range ci.Common().Args {
							add(fnOf(a), in, to)
							if mi, ok := a.(*ssa.MakeInterface); ok {
								c.ifaceCallbacks(mi, in, to, add)
							}
						}
					}
				}
				// functions stored in fields of library structs
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						sn, _ := ptrElem(fa.X.Type()).(*types.Named)
						if sn == nil || sn.Obj().Pkg() == nil || strings.HasPrefix(sn.Obj().Pkg().Path(), modPath) {
							continue
						}
						to := sn.Obj().Pkg().Path() + "." + sn.Obj().Name()
						if sn.Obj().Name() == "App" {
							to = "(*github.com/urfave/cli.App).Run"
						}
						v := st.Val
						if mi, ok := v.(*ssa.MakeInterface); ok {
							add(fnOf(mi.X), in, to)
							c.ifaceCallbacks(mi, in, to, add)
						}
						add(fnOf(v), in, to)
					}
				}
			}
		}
	}
}

// ifaceCallbacks: the methods of a module type which a library can call through the interface it gets.
func (c *CG) ifaceCallbacks(mi *ssa.MakeInterface, in ssa.Instruction, to string, add func(*ssa.Function, ssa.Instruction, string)) {
	it, ok := mi.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	xt := mi.X.Type()
	n, _ := xt.(*types.Named)
	if pt, ok := xt.(*types.Pointer); ok {
		n, _ = pt.Elem().(*types.Named)
	}
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if f := c.p.ssa.LookupMethod(xt, m.Pkg(), m.Name()); f != nil {
			add(f, in, to)
		}
	}
}

// callees of a call site inside the module.
func (c *CG) callees(in ssa.Instruction) []*ssa.Function { return c.outs[in] }

// reachable functions from f through calls (not go statements).
func (c *CG) reachable(from ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				for _, k := range c.outs[in] {
					walk(k)
				}
			}
		}
		for _, cb := range c.cbs {
			if cb.Sync && cb.Site.Parent() == f {
				walk(cb.Fn)
			}
		}
	}
	for _, f := range from {
		walk(f)
	}
	return seen
}
