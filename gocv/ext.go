package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Theory adds library-specific semantics (locks, maps, slices of user data, ...) to the
// executor. A unit without a theory uses only the callback theory.
type Theory interface {
	Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool)
	Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool
	Len(x *Exec, st *State, v Val) (*Term, bool)
	TypeAssert(x *Exec, st *State, in *ssa.TypeAssert, v Val) (Val, bool)
	Instr(x *Exec, fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool)
	Opaque(x *Exec, st *State, f *OpaqueFn, args []Val, in ssa.Instruction) ([]Outcome, bool)
	Call(x *Exec, fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool)
	Bound(x *Exec, fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool)
	Loop(x *Exec, fr *Frame, st *State, lp *Loop, prev *ssa.BasicBlock) ([]Outcome, bool)
	Forked(x *Exec, parent, after, child *State, t *Task)
	Joined(x *Exec, st *State, t *Task, ev *Ev)
	Back(x *Exec, entry, back *State)                                                     // end of a loop iteration
	Cands(l *loopRun)                                                                     // further candidate loop invariants
	Schema(x *Exec, st *State, fv *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) // recursive functions
	Returning(x *Exec, fr *Frame, st *State)                                              // the deferred calls of fr run
	GhostEnv(x *Exec, st *State, m map[string]*Term)
	FreshGhost(x *Exec, st *State, m map[string]*Term)
}

// Ext is the theory's part of a state.
type Ext interface {
	clone() Ext
	onFork()
}

// ExtLog is the theory's part of a task.
type ExtLog struct{ v interface{} }

// NoTheory does nothing; theories embed it.
type NoTheory struct{}

func (NoTheory) Load(x *Exec, st *State, p *PtrV, pos token.Pos) (Val, bool)  { return nil, false }
func (NoTheory) Store(x *Exec, st *State, p *PtrV, v Val, pos token.Pos) bool { return false }
func (NoTheory) Len(x *Exec, st *State, v Val) (*Term, bool)                  { return nil, false }
func (NoTheory) TypeAssert(*Exec, *State, *ssa.TypeAssert, Val) (Val, bool)   { return nil, false }
func (NoTheory) Instr(*Exec, *Frame, *State, *ssa.BasicBlock, int, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (NoTheory) Opaque(*Exec, *State, *OpaqueFn, []Val, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (NoTheory) Call(*Exec, *Frame, *State, *FnV, []Val, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (NoTheory) Bound(*Exec, *Frame, *State, *BoundV, []Val, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (NoTheory) Loop(*Exec, *Frame, *State, *Loop, *ssa.BasicBlock) ([]Outcome, bool) {
	return nil, false
}
func (NoTheory) Forked(x *Exec, parent, after, child *State, t *Task) {}
func (NoTheory) Joined(x *Exec, st *State, t *Task, ev *Ev)           {}
func (NoTheory) Back(x *Exec, entry, back *State)                     {}
func (NoTheory) Cands(l *loopRun)                                     {}
func (NoTheory) Schema(*Exec, *State, *FnV, []Val, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (NoTheory) Returning(*Exec, *Frame, *State)            {}
func (NoTheory) GhostEnv(*Exec, *State, map[string]*Term)   {}
func (NoTheory) FreshGhost(*Exec, *State, map[string]*Term) {}

func (x *Exec) th() Theory {
	if x.unit.Theory != nil {
		return x.unit.Theory
	}
	return NoTheory{}
}

func (x *Exec) extLoad(st *State, p *PtrV, pos token.Pos) (Val, bool) {
	return x.th().Load(x, st, p, pos)
}
func (x *Exec) extStore(st *State, p *PtrV, v Val, pos token.Pos) bool {
	return x.th().Store(x, st, p, v, pos)
}
func (x *Exec) extLen(st *State, v Val) (*Term, bool) { return x.th().Len(x, st, v) }
func (x *Exec) extConvInt(st *State, v Val, from, to types.Type) Val {
	if x.unit.Theory == nil {
		return v
	}
	return tv(x.convInt(st, x.term(v), from, to))
}
func (x *Exec) extTypeAssert(st *State, in *ssa.TypeAssert, v Val) (Val, bool) {
	return x.th().TypeAssert(x, st, in, v)
}
func (x *Exec) extInstr(fr *Frame, st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) ([]Outcome, bool) {
	return x.th().Instr(x, fr, st, b, i, in)
}
func (x *Exec) extOpaque(st *State, f *OpaqueFn, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	return x.th().Opaque(x, st, f, args, in)
}
func (x *Exec) extCall(fr *Frame, st *State, f *FnV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	return x.th().Call(x, fr, st, f, args, in)
}
func (x *Exec) extBound(fr *Frame, st *State, b *BoundV, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	return x.th().Bound(x, fr, st, b, args, in)
}
func (x *Exec) extForked(parent, after, child *State, t *Task) {
	x.th().Forked(x, parent, after, child, t)
}
func (x *Exec) extJoined(st *State, t *Task, ev *Ev) { x.th().Joined(x, st, t, ev) }

func cloneExt(e Ext) Ext {
	if e == nil {
		return nil
	}
	return e.clone()
}
