package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the type-checked program in SSA form.
type World struct {
	repo  string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by short name: "permission", "trie", "utils", "ds", "v1", "v2"
	tpkgs map[string]*packages.Package
	li    map[*ssa.Function]*loopInfo
	all   map[*ssa.Function]bool
	nsrc  int
}

const modPath = "github.com/oarkflow/permission"

func short(path string) string {
	if path == modPath {
		return "permission"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// specMark is part of the name of the files that hold the reference functions.
const specMark = "zz_verif_spec"

// loadWorld type-checks the repository's working tree together with the reference
// functions of specDir (added through an overlay, so /repo is never written).
func loadWorld(repo, specDir string, specs ...string) (*World, error) {
	overlay := map[string][]byte{}
	for _, d := range specs {
		src := filepath.Join(specDir, d+".go.txt")
		b, err := os.ReadFile(src)
		if err != nil {
			continue
		}
		dir := filepath.Join(repo, d)
		if d == "permission" {
			dir = repo
		}
		overlay[filepath.Join(dir, specMark+".go")] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule | packages.NeedCompiledGoFiles,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0"),
		Fset:    token.NewFileSet(),
	}
	ps, err := packages.Load(cfg, ".", "./trie", "./utils", "./ds", "./v1", "./v2")
	if err != nil {
		return nil, err
	}
	w := &World{repo: repo, fset: cfg.Fset, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, li: map[*ssa.Function]*loopInfo{}}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("type checking failed:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range ps {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		w.pkgs[short(p.PkgPath)] = spkgs[i]
		w.tpkgs[short(p.PkgPath)] = p
		w.nsrc += len(p.CompiledGoFiles)
	}
	w.all = ssautil.AllFunctions(prog)
	return w, nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fn finds "pkg.Func" or "pkg.Type.Method".
func (w *World) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	p := w.pkgs[parts[0]]
	if p == nil {
		return nil
	}
	if len(parts) == 2 {
		return p.Func(parts[1])
	}
	t := p.Type(parts[1])
	if t == nil {
		return nil
	}
	for _, recv := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := w.prog.MethodSets.MethodSet(recv)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == parts[2] {
				f := w.prog.MethodValue(ms.At(i))
				if f != nil && f.Synthetic != "" && f.Pkg == nil {
					// wrapper: use the declared method
					if o, ok := ms.At(i).Obj().(*types.Func); ok {
						if d := w.prog.FuncValue(o); d != nil {
							return d
						}
					}
				}
				return f
			}
		}
	}
	return nil
}

// inRepo reports whether a function is part of the analysed module.
func inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (w *World) isSpec(f *ssa.Function) bool {
	p := f.Pos()
	if !p.IsValid() {
		return false
	}
	return strings.Contains(w.fset.Position(p).Filename, specMark)
}

// ---------------------------------------------------------------------------
// Natural loops
// ---------------------------------------------------------------------------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	loops []*loop
	inner map[*ssa.BasicBlock]*loop
}

func (w *World) loops(fn *ssa.Function) *loopInfo {
	if li, ok := w.li[fn]; ok {
		return li
	}
	li := &loopInfo{inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		// later successors first, so that the body of a loop comes before its exit in rpo
		for i := len(b.Succs) - 1; i >= 0; i-- {
			walk(b.Succs[i])
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	byHeader := map[*ssa.BasicBlock]*loop{}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					li.loops = append(li.loops, l)
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	// nesting
	for _, l := range li.loops {
		for _, m := range li.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, b := range li.rpo {
		for _, l := range li.loops {
			if l.blocks[b] && (li.inner[b] == nil || len(l.blocks) < len(li.inner[b].blocks)) {
				li.inner[b] = l
			}
		}
	}
	w.li[fn] = li
	return li
}

// childOf is the loop directly inside level that contains b.
func (li *loopInfo) childOf(level *loop, b *ssa.BasicBlock) *loop {
	l := li.inner[b]
	if l == level {
		return nil
	}
	for l != nil && l.parent != level {
		l = l.parent
	}
	return l
}

// headed is the loop whose header is b, or nil.
func (li *loopInfo) headed(b *ssa.BasicBlock) *loop {
	for _, l := range li.loops {
		if l.header == b {
			return l
		}
	}
	return nil
}

// neverNil gives the names of the fields that are given something at every place where one of
// their structs is made, and never nil anywhere: a test of such a field against nil decides
// nothing.
func (w *World) neverNil() map[string]bool {
	ok, bad := map[string]bool{}, map[string]bool{}
	fieldOf := func(fa *ssa.FieldAddr) (string, bool) {
		p, isp := fa.X.Type().Underlying().(*types.Pointer)
		if !isp {
			return "", false
		}
		st, iss := p.Elem().Underlying().(*types.Struct)
		if !iss {
			return "", false
		}
		return st.Field(fa.Field).Name(), true
	}
	nilable := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Interface, *types.Chan:
			return true
		}
		return false
	}
	var fresh func(v ssa.Value, depth int) bool
	fresh = func(v ssa.Value, depth int) bool {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
			return true
		case *ssa.MakeInterface:
			return !nilable(x.X.Type()) || fresh(x.X, depth)
		case *ssa.ChangeInterface:
			return fresh(x.X, depth)
		case *ssa.ChangeType:
			return fresh(x.X, depth)
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || depth > 3 {
				return false
			}
			if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || len(f.Blocks) == 0 {
				return strings.HasPrefix(f.Name(), "New")
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if r, isr := i.(*ssa.Return); isr && (len(r.Results) != 1 || !fresh(r.Results[0], depth+1)) {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	for f := range w.all {
		if f.Pkg == nil && f.Origin() == nil || w.isSpec(f) {
			continue
		}
		pkg := f.Pkg
		if pkg == nil {
			pkg = f.Origin().Pkg
		}
		if pkg == nil || !strings.HasPrefix(pkg.Pkg.Path(), modPath) || strings.HasSuffix(w.fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		given := map[ssa.Value]map[string]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, iss := i.(*ssa.Store)
				if !iss {
					continue
				}
				if fa, isf := st.Addr.(*ssa.FieldAddr); isf {
					n, k := fieldOf(fa)
					if !k || !nilable(st.Val.Type()) {
						continue
					}
					if !fresh(st.Val, 0) {
						bad[n] = true
						continue
					}
					ok[n] = true
					if given[fa.X] == nil {
						given[fa.X] = map[string]bool{}
					}
					given[fa.X][n] = true
				} else if s, k := st.Val.Type().Underlying().(*types.Struct); k {
					// a whole struct: what it holds is what it was made with, unless it is the zero one
					if _, zero := st.Val.(*ssa.Const); zero {
						for j := 0; j < s.NumFields(); j++ {
							bad[s.Field(j).Name()] = true
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				a, isa := i.(*ssa.Alloc)
				if !isa {
					continue
				}
				s, k := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if !k {
					continue
				}
				for _, r := range *a.Referrers() {
					if st, isst := r.(*ssa.Store); isst && st.Addr == a {
						s = nil // a copy of another one
						break
					}
				}
				for j := 0; s != nil && j < s.NumFields(); j++ {
					if n := s.Field(j).Name(); !given[a][n] {
						bad[n] = true
					}
				}
			}
		}
	}
	for n := range bad {
		delete(ok, n)
	}
	return ok
}
