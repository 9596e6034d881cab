package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const tokEQL = token.EQL
const modPath = "github.com/LogicalOverflow/music-sync"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	pools map[*ssa.Global]types.Type
	dir   string
	fset  *token.FileSet
	pkgs  []*packages.Package
	ssa   *ssa.Program
	by    map[string]*ssa.Package // by path relative to the module ("comm", "cmd/music-sync-server", ...)
	fns   []*ssa.Function         // all functions with a body, declared and anonymous, in a stable order
	decl  map[*ssa.Function]bool
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax,
		Dir:   dir,
		Tests: false,
		Env:   os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Prog{dir: dir, pkgs: pkgs, ssa: prog, by: map[string]*ssa.Package{}, decl: map[*ssa.Function]bool{}}
	p.fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		p.by[rel] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.fns = append(p.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var rels []string
	for r := range p.by {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		sp := p.by[r]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				p.decl[m] = true
				add(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					if f := prog.FuncValue(named.Method(i)); f != nil {
						p.decl[f] = true
						add(f)
					}
				}
			}
		}
	}
	return p, nil
}

// short strips the module path from names.
func short(s string) string {
	s = strings.Replace(s, modPath+"/", "", -1)
	return s
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return short(f.String())
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.fset.Position(pos)
	if r, err := filepath.Rel(p.dir, ps.Filename); err == nil {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// pkgRel is the module-relative path of the package declaring f ("" for functions outside the module).
func (p *Prog) pkgRel(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			path := g.Pkg.Pkg.Path()
			if strings.HasPrefix(path, modPath+"/") {
				return path[len(modPath)+1:]
			}
			return ""
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		path := o.Pkg().Path()
		if strings.HasPrefix(path, modPath+"/") {
			return path[len(modPath)+1:]
		}
	}
	return ""
}

func (p *Prog) isGenerated(f *ssa.Function) bool {
	r := p.pkgRel(f)
	if r == "ssh/parser/shell_parser" {
		return true
	}
	if f.Pos().IsValid() {
		return strings.HasSuffix(p.fset.Position(f.Pos()).Filename, ".pb.go")
	}
	return false
}

// fn finds a function by its short name, e.g. "comm.sendWire" or "(*playback.Playlist).SetPos".
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.fns {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

func (p *Prog) namedType(rel, name string) *types.Named {
	sp := p.by[rel]
	if sp == nil {
		return nil
	}
	if t, ok := sp.Members[name].(*ssa.Type); ok {
		n, _ := t.Type().(*types.Named)
		return n
	}
	return nil
}

func (p *Prog) global(rel, name string) *ssa.Global {
	sp := p.by[rel]
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[name].(*ssa.Global)
	return g
}
