package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func secs(n int) time.Duration { return time.Duration(n) * time.Second }

// Program is the SSA form of the code under verification.
type Program struct {
	Prog      *ssa.Program
	Fset      *token.FileSet
	Root      string
	Module    string
	Pkgs      map[string]*ssa.Package // by path relative to the module
	Contracts map[string]*Contract

	mu    sync.Mutex
	loops map[*ssa.Function][]*Loop
}

// Load translates the packages below root to SSA form.
func Load(root string) (*Program, error) {
	root, _ = filepath.Abs(root)
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: root, Env: env}
	pats := []string{}
	for _, d := range []string{"internal", "parallel", "sequential", "speculative", "sync", "sort", "pipeline"} {
		if _, err := os.Stat(filepath.Join(root, d)); err == nil {
			pats = append(pats, "./"+d+"/...")
		}
	}
	cfg.Env = append(os.Environ(), "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=readonly")
	// the protocol of sources, written in Go, is translated together with the code
	cfg.Overlay = map[string][]byte{filepath.Join(root, "verifdriver", "driver.go"): []byte(driverSrc)}
	pats = append(pats, "./verifdriver")
	ps, err := packages.Load(cfg, pats...)
	if err == nil {
		err = firstError(ps)
	}
	if err != nil {
		// without the protocol of sources
		cfg.Overlay = nil
		ps, err = packages.Load(cfg, pats[:len(pats)-1]...)
	}
	if err == nil {
		err = firstError(ps)
	}
	if err != nil {
		return nil, err
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Fset: prog.Fset, Root: root, Pkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function][]*Loop{}, Contracts: map[string]*Contract{}}
	for i, s := range sp {
		if s == nil {
			continue
		}
		if ps[i].Module != nil {
			p.Module = ps[i].Module.Path
		}
		p.Pkgs[strings.TrimPrefix(s.Pkg.Path(), p.Module+"/")] = s
	}
	return p, nil
}

func firstError(ps []*packages.Package) error {
	for _, p := range ps {
		for _, e := range p.Errors {
			return fmt.Errorf("%s", e)
		}
	}
	return nil
}

// FuncByName finds "pkg.Name" or "pkg.Type.Method".
func (p *Program) FuncByName(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	pkg := p.Pkgs[parts[0]]
	if pkg == nil {
		return nil
	}
	if len(parts) == 2 {
		return pkg.Func(parts[1])
	}
	t := pkg.Type(parts[1])
	if t == nil {
		return nil
	}
	return p.methodOf(t, parts[2])
}

func (p *Program) relName(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil && fn.Parent() == nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name() + "."
		}
	}
	return strings.TrimPrefix(fn.Pkg.Pkg.Path(), p.Module+"/") + "." + recv + fn.Name()
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	probe  bool
}

func (p *Program) loopsOf(fn *ssa.Function) []*Loop {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	var res []*Loop
	byHead := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				res = append(res, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[c] {
					continue
				}
				l.body[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	p.loops[fn] = res
	return res
}

func (p *Program) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	for _, l := range p.loopsOf(fn) {
		if l.header == b {
			return l
		}
	}
	return nil
}
