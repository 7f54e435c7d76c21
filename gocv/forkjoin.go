package main

import (
	"fmt"
	"go/token"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

var taskSeq int64

// fork runs a goroutine body to completion on a clone of the state; its effects
// stay pending until a join.
func (x *Exec) fork(st *State, f Val, args []Val, in *ssa.Go) []*State {
	pos := in.Pos()
	if x.unit.Mode == "sequential" {
		x.fail(st, x.unit.tagsFor("order"), "no-goroutines", "a sequential function starts a goroutine", pos)
	}
	child := st.clone()
	child.log = newLog()
	child.task = atomic.AddInt64(&taskSeq, 1)
	child.g.S, child.g.D, child.g.N = IntT(0), IntT(0), IntT(0)
	if child.ext != nil {
		child.ext.onFork()
	}
	nf := len(child.g.facts)
	oldPend := map[*Task]bool{}
	for _, t := range st.pend {
		oldPend[t] = true
	}
	name := "goroutine"
	if fv, ok := f.(*FnV); ok {
		name = fv.Fn.Name()
	}
	var res []*State
	for _, o := range x.call(nil, child, f, args, in) {
		if o.Kind == OPanic {
			x.fail(o.St, x.unit.tagsFor("panic"), "goroutine-panic-recovered", "a panic escapes from a goroutine and crashes the program", pos)
			continue
		}
		c := o.St
		t := &Task{nf0: nf, id: c.task, fn: name, reads: c.log.reads, writes: c.log.writes, events: c.log.events, facts: c.g.facts[nf:], N: c.g.N}
		t.final = map[*Obj]Val{}
		for w := range c.log.writes {
			t.final[w] = c.heap[w]
		}
		ns := st.clone()
		ns.pc = c.pc
		for k, v := range c.heap {
			if _, ok := ns.heap[k]; !ok {
				ns.heap[k] = v
			}
		}
		for k := range t.reads {
			ns.log.reads[k] = true
		}
		for k := range t.writes {
			ns.log.writes[k] = true
		}
		ns.g.S = Add(ns.g.S, c.g.S)
		ns.g.N = Add(ns.g.N, c.g.N)
		for _, e := range t.events {
			if e.wg == nil {
				continue
			}
			if e.adds > 0 {
				x.fail(ns, x.unit.tagsFor("wait"), "add-before-go", "WaitGroup.Add is called by the goroutine that is waited for", pos)
			}
			if x.wgCount(ns, e.wg)-e.dones < 0 {
				x.fail(ns, x.unit.tagsFor("wait"), "done-after-add", "WaitGroup.Done may be called before the matching Add", pos)
			}
		}
		ns.pend = append(ns.pend, t)
		for _, p := range c.pend {
			if !oldPend[p] {
				ns.pend = append(ns.pend, p)
			}
		}
		x.extForked(st, ns, c, t)
		res = append(res, ns)
	}
	return res
}

// wgCount is the counter of a WaitGroup if no pending Done has happened yet, minus pending ones.
func (x *Exec) wgCount(st *State, o *Obj) int {
	w := st.heap[o].(*WGV)
	n := w.Adds - w.Dones
	for _, t := range st.pend {
		for _, e := range t.events {
			if e.wg == o {
				n -= e.dones
			}
		}
	}
	return n
}

func (x *Exec) wgObj(v Val) *Obj {
	p, ok := v.(*PtrV)
	if !ok || len(p.Path) > 0 {
		panic(unsup("WaitGroup that is not a variable"))
	}
	return p.Obj
}

func (x *Exec) wgAdd(st *State, o *Obj, n int, pos token.Pos) {
	w, ok := st.heap[o].(*WGV)
	if !ok {
		panic(unsup("WaitGroup in unexpected object"))
	}
	if n >= 0 {
		st.heap[o] = &WGV{w.Adds + n, w.Dones}
		if o.Task != st.task {
			st.log.events = append(st.log.events, &Ev{wg: o, adds: n, vals: map[*Obj]Val{}, D: IntT(0)})
		}
		return
	}
	st.heap[o] = &WGV{w.Adds, w.Dones - n}
	if o.Task != st.task {
		vals := map[*Obj]Val{}
		for k := range st.log.writes {
			vals[k] = st.heap[k]
		}
		st.log.events = append(st.log.events, &Ev{wg: o, dones: -n, vals: vals, nfacts: len(st.g.facts), D: st.g.D, hb: st.g.hb})
	}
	if st.heap[o].(*WGV).Dones > st.heap[o].(*WGV).Adds {
		x.fail(st, x.unit.tagsFor("wait"), "counter-nonnegative", "WaitGroup counter becomes negative", pos)
		panic(deadPath{})
	}
}

func (x *Exec) wgWait(st *State, o *Obj, pos token.Pos) {
	w, ok := st.heap[o].(*WGV)
	if !ok {
		panic(unsup("WaitGroup in unexpected object"))
	}
	if w.Adds-w.Dones == 0 {
		return
	}
	n := x.wgCount(st, o)
	if n > 0 {
		x.fail(st, x.unit.tagsFor("wait"), "wait-terminates", fmt.Sprintf("Wait blocks forever: %d Done calls are missing", n), pos)
		panic(deadPath{})
	}
	if n < 0 {
		x.fail(st, x.unit.tagsFor("wait"), "counter-nonnegative", "WaitGroup counter becomes negative", pos)
		panic(deadPath{})
	}
	x.pass(x.unit.tagsFor("wait"), "wait-terminates", pos)
	// join
	var rest []*Task
	for _, t := range st.pend {
		var ev *Ev
		for _, e := range t.events {
			if e.wg == o && e.dones > 0 {
				ev = e
			}
		}
		if ev == nil {
			rest = append(rest, t)
			continue
		}
		x.joinTask(st, t, ev, pos)
		late := map[*Obj]bool{}
		for k := range t.writes {
			v, ok := ev.vals[k]
			if !ok || !sameVal(v, t.final[k]) {
				late[k] = true
			}
		}
		if len(late) > 0 {
			rest = append(rest, &Task{id: t.id, fn: t.fn, writes: late, reads: map[*Obj]bool{}, final: t.final})
		}
	}
	st.heap[o] = &WGV{w.Adds, w.Adds}
	st.pend = rest
}

func (x *Exec) joinTask(st *State, t *Task, ev *Ev, pos token.Pos) {
	// the facts the goroutine had gathered when it released
	k := ev.nfacts - t.nf0
	if k > len(t.facts) {
		k = len(t.facts)
	}
	if k < 0 {
		k = 0
	}
	fs := t.facts[:k]
	if x.unit.Mode == "speculative" && len(x.unit.tagsFor("early")) > 0 {
		for _, f := range st.g.facts {
			if f.Pan || x.proves(st, Not(f.Flag)) {
				continue
			}
			for _, c := range fs {
				if !x.proves(st, Le(c.Hi, f.Lo)) {
					x.fail(st, x.unit.tagsFor("early"), "no-wait-after-decision", "the call waits for work to the right although it may be decided by "+f.String(), pos)
				}
			}
		}
		x.pass(x.unit.tagsFor("early"), "no-wait-after-decision", pos)
	}
	st.g.facts = append(st.g.facts, fs...)
	for k, v := range ev.vals {
		st.heap[k] = v
	}
	st.g.D = Add(st.g.D, ev.D)
	st.g.hb = st.g.hb || ev.hb
	x.extJoined(st, t, ev)
}
