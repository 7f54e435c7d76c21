package main

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// UnitResult is what verification of one unit gave.
type UnitResult struct {
	Unit     string
	Obls     []*Obl
	Verified []string
	Paths    int
	Time     time.Duration
	Err      string // the unit could not be translated
	Tags     []string
}

// UnitDef is a verification unit that can be run on its own.
type UnitDef struct {
	Name string
	Tags []string // properties it contributes to
	Run  func(x *Exec)
	Unit *Unit
}

func (u *Unit) allTags(c *Contract) []string {
	seen := map[string]bool{}
	var r []string
	add := func(ts []string) {
		for _, t := range ts {
			if !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
		}
	}
	for _, t := range u.Tags {
		add(t)
	}
	if c != nil {
		for _, cl := range c.Fam.Clauses {
			add(cl.Tags)
		}
	}
	return r
}

// unitTime bounds the time for one unit; an undecided unit is reported as not translated.
var unitTime = 6 * time.Minute

func runUnit(p *Program, d *UnitDef) (res *UnitResult) {
	res = &UnitResult{Unit: d.Name, Tags: d.Tags}
	t0 := time.Now()
	_, quant := d.Unit.Theory.(*sortTheory)
	x := &Exec{prog: p, sol: NewSolver(3000, quant), unit: d.Unit, deadline: t0.Add(unitTime)}
	if quant || d.Unit.lean {
		for i := 0; i < 6 && i < runtime.NumCPU(); i++ {
			x.pool = append(x.pool, NewSolver(3000, quant))
		}
	}
	defer func() {
		var wg sync.WaitGroup
		for _, s := range append(x.pool, x.sol) {
			wg.Add(1)
			go func(s *Solver) {
				defer wg.Done()
				s.Close()
			}(s)
		}
		wg.Wait()
	}()
	defer func() {
		res.Time = time.Since(t0)
		res.Obls = x.obls
		res.Verified = x.verified
		res.Paths = x.steps
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = e.msg
			default:
				res.Err = fmt.Sprintf("%v", r)
				if needs, ok := r.(needSchema); ok {
					res.Err = "recursion through " + needs.fn.String()
				} else if debugMode {
					debug.PrintStack()
				}
			}
		}
	}()
	d.Run(x)
	return
}

// forkjoinUnits are the API functions under a family contract.
func forkjoinUnits(p *Program) []*UnitDef {
	var ds []*UnitDef
	for name, c := range p.Contracts {
		c := c
		if strings.HasPrefix(name, "sync.") {
			continue
		}
		u := &Unit{Name: name, Mode: c.Fam.Mode, Comb: c.Comb, Sig: c.Sig, Ident: c.Ident, Tags: c.Fam.Tags, C: c}
		d := &UnitDef{Name: name, Unit: u, Tags: u.allTags(c)}
		d.Run = func(x *Exec) { x.verifyAPI(c) }
		ds = append(ds, d)
	}
	return ds
}

func (x *Exec) verifyAPI(c *Contract) {
	fn := x.prog.FuncByName(c.Name)
	if fn == nil {
		panic(unsup("function %s does not exist", c.Name))
	}
	u := x.unit
	u.X = Fresh("X", SInt)
	if r := fn.Signature.Results(); r.Len() > 0 {
		u.sort = sortOf(r.At(0).Type())
	}
	if len(fn.Params) != len(c.Roles) {
		panic(unsup("parameters of %s", c.Name))
	}
	st := &State{heap: map[*Obj]Val{}, log: newLog()}
	u.wrapInts = true
	st.assume(And(Ge(gmp, IntT(1)), Lt(gmp, bigPow(31))))
	st.g = Ghost{S: IntT(0), D: IntT(0), N: IntT(0)}
	P := Fresh("P", SInt)
	args := make([]Val, len(c.Roles))
	hasFirst := false
	for _, r := range c.Roles {
		if r == "first" {
			hasFirst = true
		}
	}
	for i, r := range c.Roles {
		pt := fn.Params[i].Type()
		switch r {
		case "leaf", "join":
			args[i] = &OpaqueFn{Role: r, Name: r, Sig: pt.Underlying().(*types.Signature)}
		case "first":
			args[i] = &OpaqueFn{Role: "elem", Name: "elem", Pos: P, Sig: pt.Underlying().(*types.Signature)}
		case "list":
			et := pt.Underlying().(*types.Slice).Elem()
			o := NewObj("leaves", "functions", et)
			o.Elem = func(i *Term) Val {
				return &OpaqueFn{Role: "elem", Name: "elem", Pos: i, Sig: et.Underlying().(*types.Signature)}
			}
			l := &SliceV{Obj: o, Off: P, Len: Fresh("len", SInt)}
			if hasFirst {
				l.Off = Add(P, IntT(1))
			}
			st.assume(And(Ge(l.Len, IntT(0)), machineInt(l.Len)))
			args[i] = l
		default:
			v := Fresh(r, SInt)
			st.assume(machineInt(v))
			args[i] = tv(v)
		}
	}
	env, ok := x.roleArgs(c, args)
	if !ok {
		panic(unsup("contract roles of %s", c.Name))
	}
	fe := x.famEnv(c, env)
	// ranges with more than 2^62 indices are not considered
	st.assume(Implies(Le(fe["lo"], fe["hi"]), Le(Sub(fe["hi"], fe["lo"]), bigPow(62))))
	st.g.Pos = fe["lo"]
	var valid *Term
	if c.Valid != nil {
		valid = (&evalCtx{x: x, env: env}).eval(c.Valid)
	}
	inst := x.newInst(fn, c.Fam, fe)
	x.active = append(x.active, inst)
	outs := x.runFn(st, fn, nil, args, nil)
	x.checkOutcomes(inst, outs, valid, fn.Pos())
	x.note(fn, c.Fam)
}

// methodOf finds a method of a named type (value or pointer receiver).
func (p *Program) methodOf(t *ssa.Type, name string) *ssa.Function {
	for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.Prog.MethodSets.MethodSet(rt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}
