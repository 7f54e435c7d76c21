package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one line of a contract.
type Clause struct {
	Kind  string // ensures, panics, candidate, decreases
	Tags  []string
	Label string
	Expr  ast.Expr
	Text  string
}

// Family is a contract shared by several functions and by their recursive helpers.
type Family struct {
	Name    string
	Params  []string
	Mode    string
	Lists   bool
	Tags    map[string][]string
	Clauses []*Clause
}

// Contract binds a function to a family.
type Contract struct {
	Name    string
	Roles   []string
	Fam     *Family
	FamArgs []ast.Expr
	Comb    string
	Sig     string
	Ident   bool
	Valid   ast.Expr
	Line    string
	Leaf    *Family // contract of closures passed to range functions
	Locked  string  // "no": callbacks run without a lock
	Stop    string  // "all": nothing is visited after a callback returned false
}

func (f *Family) kind(k string) []*Clause {
	var r []*Clause
	for _, c := range f.Clauses {
		if c.Kind == k {
			r = append(r, c)
		}
	}
	return r
}

func (p *Program) LoadContracts(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gocv"))
	sort.Strings(files)
	for _, f := range files {
		if err := p.parseContracts(f); err != nil {
			return err
		}
	}
	return nil
}

func splitHead(s string) (name string, params []string, rest string) {
	i := strings.IndexByte(s, '(')
	j := strings.IndexByte(s, ')')
	name = strings.TrimSpace(s[:i])
	for _, a := range strings.Split(s[i+1:j], ",") {
		if a = strings.TrimSpace(a); a != "" {
			params = append(params, a)
		}
	}
	return name, params, strings.TrimSpace(s[j+1:])
}

func (p *Program) parseContracts(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	fams := map[string]*Family{}
	var fam *Family
	var cons []*Contract
	for ln, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		bad := func(err interface{}) error { return fmt.Errorf("%s:%d: %v", file, ln+1, err) }
		word, rest := line, ""
		if i := strings.IndexByte(line, ' '); i > 0 {
			word, rest = line[:i], strings.TrimSpace(line[i+1:])
		}
		switch word {
		case "family":
			n, ps, r := splitHead(rest)
			fam = &Family{Name: n, Params: ps, Tags: map[string][]string{}, Lists: r == "list"}
			fams[n] = fam
			cons = nil
		case "mode":
			fam.Mode = rest
		case "tags":
			f := strings.Fields(rest)
			fam.Tags[f[0]] = f[1:]
		case "candidate", "decreases", "ensures", "entry", "panics":
			c := &Clause{Kind: word, Text: rest}
			if strings.HasPrefix(rest, "[") {
				i := strings.IndexByte(rest, ']')
				c.Tags = strings.Fields(rest[1:i])
				rest = strings.TrimSpace(rest[i+1:])
				i = strings.IndexByte(rest, ':')
				c.Label = rest[:i]
				rest = strings.TrimSpace(rest[i+1:])
			}
			e, err := parser.ParseExpr(rest)
			if err != nil {
				return bad(err)
			}
			c.Expr = e
			fam.Clauses = append(fam.Clauses, c)
		case "contract":
			cons = nil
			i := strings.LastIndex(rest, ":")
			spec := strings.TrimSpace(rest[i+1:])
			e, err := parser.ParseExpr(spec)
			if err != nil {
				return bad(err)
			}
			call := e.(*ast.CallExpr)
			fm := fams[call.Fun.(*ast.Ident).Name]
			if fm == nil {
				return bad("unknown family")
			}
			n, ps, _ := splitHead(rest[:i])
			for _, nm := range strings.Fields(n) {
				c := &Contract{Name: nm, Roles: ps, Fam: fm, FamArgs: call.Args, Comb: "none", Sig: "none", Line: line}
				p.Contracts[nm] = c
				cons = append(cons, c)
			}
		case "mapop":
			n, ps, _ := splitHead(rest)
			fam = &Family{Name: n, Tags: map[string][]string{}, Mode: "map"}
			c := &Contract{Name: n, Roles: ps, Fam: fam, Comb: "none", Sig: "none", Line: line}
			p.Contracts[n] = c
			cons = []*Contract{c}
		case "comb", "sig", "ident", "valid", "leaf", "locked", "stop":
			for _, c := range cons {
				switch word {
				case "comb":
					c.Comb = rest
				case "sig":
					c.Sig = rest
				case "leaf":
					if c.Leaf = fams[rest]; c.Leaf == nil {
						return bad("unknown family")
					}
				case "locked":
					c.Locked = rest
				case "stop":
					c.Stop = rest
				case "ident":
					c.Ident = true
				case "valid":
					e, err := parser.ParseExpr(rest)
					if err != nil {
						return bad(err)
					}
					c.Valid = e
				}
			}
		default:
			return bad("unknown directive " + word)
		}
	}
	return nil
}

// Inst is an instance of a family contract that is being verified.
type Inst struct {
	fn     *ssa.Function
	fam    *Family
	env    map[string]*Term
	Lo, Hi *Term
	meas   []*Term
	measOK []bool
	recs   int
	apply  func(st *State, fv *FnV, args []Val, in ssa.Instruction) []Outcome
}

type evalCtx struct {
	x    *Exec
	st   *State
	env  map[string]*Term
	v    *Term // result value
	flag *Term
	pan  Val
	// in assume mode the special predicates turn into facts
	assume bool
	facts  []*Fact
}

var gmp = Const("GOMAXPROCS", SInt)

func nbatches(n *Term) *Term {
	return Ite(Gt(n, IntT(0)), n, Mul(IntT(2), gmp))
}

func (c *evalCtx) eval(e ast.Expr) *Term {
	x := c.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.BasicLit:
		n, _ := strconv.ParseInt(e.Value, 10, 64)
		return IntT(n)
	case *ast.Ident:
		switch e.Name {
		case "true":
			return TTrue
		case "false":
			return TFalse
		case "flag":
			return c.flag
		case "none":
			return UNil
		}
		if t, ok := c.env[e.Name]; ok {
			return t
		}
		panic(fmt.Sprintf("contract: unknown name %s", e.Name))
	case *ast.UnaryExpr:
		t := c.eval(e.X)
		if e.Op == token.NOT {
			return Not(t)
		}
		return Sub(IntT(0), t)
	case *ast.BinaryExpr:
		a, b := c.eval(e.X), c.eval(e.Y)
		switch e.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Ne(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		case token.LAND:
			return And(a, b)
		case token.LOR:
			return Or(a, b)
		}
	case *ast.CallExpr:
		name := e.Fun.(*ast.Ident).Name
		var as []*Term
		for _, a := range e.Args {
			as = append(as, c.eval(a))
		}
		switch name {
		case "cov":
			return x.cov(as[0], as[1])
		case "implies":
			return Implies(as[0], as[1])
		case "nbatches":
			return nbatches(as[0])
		case "ite":
			return Ite(as[0], as[1], as[2])
		case "value":
			if c.assume {
				c.facts = append(c.facts, &Fact{V: c.v, Flag: c.flag, Lo: as[0], Hi: as[1]})
				return TTrue
			}
			return BoolT(x.deriveVal(c.st, c.v, c.flag, as[0], as[1], false))
		case "completed":
			if c.assume {
				return TTrue
			}
			return BoolT(x.deriveVal(c.st, c.v, c.flag, as[0], as[1], true))
		case "leftmost":
			if c.assume {
				c.facts = append(c.facts, &Fact{Pan: true, V: x.term(c.pan), Flag: TFalse, Lo: as[0], Hi: as[1]})
				return TTrue
			}
			return BoolT(x.derivePan(c.st, c.pan, as[0], as[1]))
		}
		panic("contract: unknown function " + name)
	}
	panic(fmt.Sprintf("contract: cannot evaluate %T", e))
}

// roleArgs binds the arguments of a call to the roles of a contract.
func (x *Exec) roleArgs(c *Contract, args []Val) (map[string]*Term, bool) {
	env := map[string]*Term{}
	var list Val
	var first *OpaqueFn
	haveList := false
	if len(args) != len(c.Roles) {
		return nil, false
	}
	for i, r := range c.Roles {
		switch r {
		case "leaf":
			f, ok := args[i].(*OpaqueFn)
			if !ok || f.Role != "leaf" {
				return nil, false
			}
		case "join":
			f, ok := args[i].(*OpaqueFn)
			if !ok || f.Role != "join" {
				return nil, false
			}
		case "first":
			f, ok := args[i].(*OpaqueFn)
			if !ok || f.Role != "elem" {
				return nil, false
			}
			first = f
		case "list":
			list = args[i]
			haveList = true
		default:
			t, ok := args[i].(*TermV)
			if !ok || t.T.Sort != SInt {
				return nil, false
			}
			env[r] = t.T
		}
	}
	if haveList {
		switch l := list.(type) {
		case *SliceV:
			if l.Obj.Kind != "leaves" && l.Obj.Kind != "splits" {
				return nil, false
			}
			env["start"], env["count"] = l.Off, l.Len
			if first != nil {
				env["start"], env["count"] = first.Pos, Add(l.Len, IntT(1))
				env["adjacent"] = Or(Eq(Add(first.Pos, IntT(1)), l.Off), Eq(l.Len, IntT(0)))
			}
		case *NilV:
			if first == nil {
				lo, _ := x.curRange()
				if lo == nil {
					lo = IntT(0)
				}
				env["start"], env["count"] = lo, IntT(0)
			} else {
				env["start"], env["count"] = first.Pos, IntT(1)
			}
		default:
			return nil, false
		}
	}
	return env, true
}

func (x *Exec) famEnv(c *Contract, env map[string]*Term) map[string]*Term {
	ec := &evalCtx{x: x, env: env}
	m := map[string]*Term{"batch": Const("batch", SInt)}
	for i, p := range c.Fam.Params {
		m[p] = ec.eval(c.FamArgs[i])
	}
	return m
}

func (x *Exec) ghostEnv(st *State, env map[string]*Term) map[string]*Term {
	m := map[string]*Term{}
	for k, v := range env {
		m[k] = v
	}
	m["starts"], m["ends"], m["calls"], m["pos"] = st.g.S, st.g.D, st.g.N, st.g.Pos
	x.th().GhostEnv(x, st, m)
	return m
}

// useFamily replaces a call by the family contract.
func (x *Exec) useFamily(st *State, fam *Family, env map[string]*Term, fn *ssa.Function, in ssa.Instruction) []Outcome {
	lo, hi := env["lo"], env["hi"]
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	clo, chi := x.curRange()
	if clo != nil && !x.unit.Ident {
		x.oblige(st, x.unit.tagsFor("leaf"), "part-nonempty", Or(Lt(lo, hi), And(Eq(lo, hi), Eq(clo, chi), Eq(lo, clo))), pos)
	}
	x.leafStart(st, lo, hi, false, pos)
	fresh := func(s *State) (dS, dD, dN *Term, env2 map[string]*Term) {
		dS, dD, dN = Fresh("dS", SInt), Fresh("dD", SInt), Fresh("dN", SInt)
		s.assume(And(Le(IntT(0), dD), Le(dD, dS), Le(IntT(0), dN)))
		env2 = map[string]*Term{}
		for k, v := range env {
			env2[k] = v
		}
		env2["starts"], env2["ends"], env2["calls"] = dS, dD, dN
		env2["pos"] = Fresh("pos", SInt)
		x.th().FreshGhost(x, s, env2)
		return
	}
	// normal return
	s1 := st.clone()
	dS, dD, dN, e1 := fresh(s1)
	var ret []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		ret = append(ret, freshVal("res", res.At(i).Type()))
	}
	ec := &evalCtx{x: x, st: s1, env: e1, assume: true}
	ec.v, ec.flag = x.decode(ret)
	for _, c := range fam.kind("ensures") {
		s1.assume(ec.eval(c.Expr))
	}
	s1.g.S, s1.g.D, s1.g.N = Add(s1.g.S, dS), Add(s1.g.D, dD), Add(s1.g.N, dN)
	s1.g.Pos = e1["pos"]
	s1.g.facts = append(s1.g.facts, ec.facts...)
	s1.g.hb = true
	// panic
	s2 := st
	dS, dD, dN, e2 := fresh(s2)
	o := Fresh("pan", SU)
	s2.assume(Ne(o, UNil))
	ec = &evalCtx{x: x, st: s2, env: e2, assume: true, pan: tv(o), flag: TFalse}
	for _, c := range fam.kind("panics") {
		s2.assume(ec.eval(c.Expr))
	}
	s2.g.S, s2.g.D, s2.g.N = Add(s2.g.S, dS), Add(s2.g.D, dD), Add(s2.g.N, dN)
	s2.g.facts = append(s2.g.facts, ec.facts...)
	s2.g.hb, s2.g.dead = true, true
	return []Outcome{{St: s1, Kind: ORet, Ret: ret}, {St: s2, Kind: OPanic, Pan: tv(o)}}
}

// tryContract uses the contract of fn at a call site if it applies there.
func (x *Exec) tryContract(st *State, f *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	c := x.prog.Contracts[x.prog.relName(f.Fn)]
	if c == nil || f.Fn.Parent() != nil {
		return nil, false
	}
	u := x.unit
	if c.Fam.Mode != u.Mode || c.Comb != u.Comb || c.Sig != u.Sig {
		return nil, false
	}
	env, ok := x.roleArgs(c, args)
	if !ok {
		return nil, false
	}
	if a := env["adjacent"]; a != nil {
		x.oblige(st, u.tagsFor("adjacent"), "parts-adjacent", a, in.Pos())
	}
	fe := x.famEnv(c, env)
	ec := &evalCtx{x: x, env: env}
	var outs []Outcome
	if c.Valid != nil {
		v := ec.eval(c.Valid)
		if x.feasible(st, Not(v)) {
			s := st.clone()
			s.assume(Not(v))
			o := Fresh("invalid", SU)
			s.assume(Ne(o, UNil))
			outs = append(outs, Outcome{St: s, Kind: OPanic, Pan: tv(o)})
		}
		st.assume(v)
	}
	for i := len(x.active) - 1; i >= 0; i-- {
		if a := x.active[i]; a.fn == f.Fn {
			x.checkMeasure(st, a, fe)
			break
		}
	}
	return append(outs, x.useFamily(st, c.Fam, fe, f.Fn, in)...), true
}

func (x *Exec) measures(fam *Family, env map[string]*Term) []*Term {
	var r []*Term
	ec := &evalCtx{x: x, env: env}
	for _, c := range fam.kind("decreases") {
		r = append(r, ec.eval(c.Expr))
	}
	return r
}

func (x *Exec) checkMeasure(st *State, a *Inst, env map[string]*Term) {
	a.recs++
	for i, m := range x.measures(a.fam, env) {
		if a.measOK[i] && !x.proves(st, And(Le(IntT(0), m), Lt(m, a.meas[i]))) {
			a.measOK[i] = false
		}
	}
}

func (x *Exec) newInst(fn *ssa.Function, fam *Family, env map[string]*Term) *Inst {
	a := &Inst{fn: fn, fam: fam, env: env, Lo: env["lo"], Hi: env["hi"]}
	a.meas = x.measures(fam, env)
	for range a.meas {
		a.measOK = append(a.measOK, true)
	}
	return a
}

// checkOutcomes discharges the postconditions of the family for all outcomes of a body.
func (x *Exec) checkOutcomes(a *Inst, outs []Outcome, valid *Term, pos token.Pos) {
	any := false
	for _, o := range outs {
		switch o.Kind {
		case ORet:
			st := o.St
			if valid != nil {
				x.oblige(st, x.unit.tagsFor("valid"), "rejects-invalid-arguments", valid, pos)
			}
			any = true
			ec := &evalCtx{x: x, st: st, env: x.ghostEnv(st, a.env)}
			ec.v, ec.flag = x.decode(o.Ret)
			for _, c := range a.fam.kind("ensures") {
				x.clause(st, ec, c, pos)
			}
			if valid != nil {
				for _, c := range a.fam.kind("entry") {
					x.clause(st, ec, c, pos)
				}
			}
		case OPanic:
			st := o.St
			if valid != nil && x.feasible(st, Not(valid)) {
				s2 := st.clone()
				s2.assume(Not(valid))
				x.oblige(s2, x.unit.tagsFor("valid"), "rejected-before-any-callback", Eq(s2.g.N, IntT(0)), pos)
				if !x.feasible(st, valid) {
					continue
				}
				st.assume(valid)
			}
			ec := &evalCtx{x: x, st: st, env: x.ghostEnv(st, a.env), pan: o.Pan, flag: TFalse}
			for _, c := range a.fam.kind("panics") {
				x.clause(st, ec, c, pos)
			}
		}
	}
	if a.recs > 0 {
		ok := false
		for _, b := range a.measOK {
			ok = ok || b
		}
		if ok {
			x.pass(x.unit.tagsFor("termination"), "recursion-terminates", pos)
		} else {
			x.record(&Obl{Tags: x.unit.tagsFor("termination"), Label: "recursion-terminates", Pos: x.posOf(pos), Detail: "no termination measure decreases at every recursive call"})
		}
	}
	if !any && x.probe == 0 {
		x.record(&Obl{Tags: x.unit.Tags["default"], Label: "reachable", Pos: x.posOf(pos), Detail: "no normal return is reachable"})
	}
}

func (x *Exec) clause(st *State, ec *evalCtx, c *Clause, pos token.Pos) {
	goal := ec.eval(c.Expr)
	tags := c.Tags
	if Same(goal, TFalse) {
		x.fail(st, tags, c.Label, "cannot be established: "+c.Text, pos)
		return
	}
	x.oblige(st, tags, c.Label, goal, pos)
}
