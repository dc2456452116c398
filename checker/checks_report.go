package main

// What a swarm and its client report is how things stand.

import (
	"fmt"
	"go/types"
	"maps"
	"slices"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C38", run: checkC38,
		rules: []string{"Swarms of 1, 2, 3 and 101 agents, built by New for goals of 0.3 to 0.6: CurrentCoherence and the client's Coherence are the coherence of the agents' phases, and both IsConverged hold exactly when it reaches the goal's; the same again after all phases were set anew.",
			"Size is the number of agents asked for, the client's Size the swarm's and the client's Agents exactly the swarm's.",
			"In an attempt of two ticks, every tick records on a monitor the coherence measured in it; ConvergenceTime is what the swarm's monitor says, which counts as converged what reaches the goal the swarm was built for."},
		assume: []string{"other goals in reach are treated like these", "the monitors report what was recorded: C26", "summaries are compared with the reference at random points, on the path taken there"},
		floor:  map[string]int{"now": 12, "reached": 12, "size": 8, "recorded": 1, "time": 1}})
}

func checkC38(c *Ctx) {
	c.standings()
	c.recordings()
}

// truth is a truth value as numbers: 0 and 1, or 2 (3) and a number that is at most (above) 0 when it holds.
func truth(it *Interp, st *State, v Value) []*Num {
	b, ok := v.(*BoolV)
	if !ok {
		return nil
	}
	switch st.decide(b) {
	case 0:
		return []*Num{it.constNum(0)}
	case 1:
		return []*Num{it.constNum(1)}
	}
	if b.cond != nil && b.cond.L != nil {
		k := 2.0
		if b.cond.neg {
			k = 3
		}
		return []*Num{it.constNum(k), {b.cond.L, ivTop}}
	}
	return nil
}

func isTrue(v []float64) bool {
	if v[0] >= 2 {
		return (v[1] <= 0) == (v[0] == 2)
	}
	return v[0] == 1
}

func (c *Ctx) standings() {
	const cl = "client/emerge"
	nw, co, con, sz := c.fn(swarmPkg, "New"), c.fn(swarmPkg, "Swarm.CurrentCoherence"), c.fn(swarmPkg, "Swarm.IsConverged"), c.fn(swarmPkg, "Swarm.Size")
	cco, ccon, csz, cag := c.fn(cl, "Client.Coherence"), c.fn(cl, "Client.IsConverged"), c.fn(cl, "Client.Size"), c.fn(cl, "Client.Agents")
	set := c.fn(agentPkg, "Agent.SetPhase")
	if nw == nil || co == nil || con == nil || sz == nil || cco == nil || ccon == nil || csz == nil || cag == nil || set == nil {
		return
	}
	for k, n := range []int{1, 2, 3, 3, 101} {
		goalCoherence := []float64{0.3, 0.45, 0.6}[k%3]
		it := c.exactInterp(256)
		if n > 100 {
			it = c.exactInterp(16)
		}
		it.pubLocal = true
		st := newState()
		args := lazyArgs(it, nw)
		args[0] = it.constNum(float64(n))
		goal, ok := it.force(st, args[1]).(*StructV)
		if !ok {
			c.missing("the goal of a swarm")
			return
		}
		target := it.constNum(goalCoherence)
		for i := 0; i < structOf(goal.typ).NumFields(); i++ {
			if structOf(goal.typ).Field(i).Name() == "Coherence" {
				goal.f[i] = target
			}
		}
		args[1] = goal
		args[2] = it.sliceOf(st, nw.Signature.Params().At(2).Type().(*types.Slice).Elem(), []Value{c.noTopology(it, st)})
		found := false
		for _, r := range c.run(it, nw, args, nil, st, nil) {
			if r.panicked || errNil(r.st, it.ret(r, 1)) == 2 {
				continue
			}
			found = true
			s := it.ret(r, 0)
			client := it.nonNil(r.st, it.force(r.st, it.lazy(cco.Signature.Recv().Type(), "client", false)))
			cs, isS := it.deref(r.st, client).(*StructV)
			for i := 0; isS && i < len(cs.f); i++ {
				if f := structOf(cs.typ).Field(i); types.Identical(f.Type(), con.Signature.Recv().Type()) {
					it.setField(r.st, client, f.Name(), s)
				}
			}
			c.thresholdOf(it, r.st, s, n, goalCoherence)
			for _, q := range []struct {
				f    *ssa.Function
				recv Value
			}{{sz, s}, {csz, client}} {
				for _, o := range c.run(it, q.f, []Value{q.recv}, nil, r.st.clone(), nil) {
					v := it.numRet(o, 0)
					c.ob("size", fmt.Sprintf("%s of %d", fname(q.f), n), !o.panicked && v != nil && sameLin(o.st, v.L, it.constNum(float64(n)).L), o.pos, "the size of a swarm of %d is %s", n, it.show(o.st, v))
				}
			}
			c.agentsOf(it, r.st, s, "agents", n, func(st *State, as map[string]Value) {
				for _, o := range c.run(it, cag, []Value{client}, nil, st.clone(), nil) {
					m, _ := it.ret(o, 0).(*MapV)
					same := !o.panicked && m != nil && m.o != nil
					if same {
						mc, _ := it.content(o.st, m.o).(*MapC)
						same = mc != nil && mc.sum == nil && !mc.unknown && len(mc.keys) == n
						for id, a := range as {
							e, has := [2]Value{}, false
							if same {
								e, has = mc.entries["s:"+id]
							}
							same = same && has && ptrObj(it.force(o.st, e[1])) == ptrObj(a)
						}
					}
					c.ob("size", fmt.Sprintf("%s of %d", fname(cag), n), same, o.pos, "the client's agents are not the swarm's %d", n)
				}
				var list []Value
				for _, id := range slices.Sorted(maps.Keys(as)) {
					list = append(list, as[id])
				}
				for round := 0; round < 2; round++ {
					if round == 1 { // an attempt converged, then the agents moved
						if st = c.recordAt(it, st, s, 1); st == nil {
							return
						}
						for i, a := range list {
							if st = c.setPhase(it, st, a, it.freshNum(fmt.Sprintf("new phase %d", i), Iv{0, 6}, false, false)); st == nil {
								return
							}
						}
					}
					in := c.phasesOf(it, st, list)
					if in == nil {
						return
					}
					for i := range in {
						in[i].hi = 6
					}
					for _, q := range []struct {
						name   string
						co, is *ssa.Function
						recv   Value
					}{{"a swarm", co, con, s}, {"the client of a swarm", cco, ccon, client}} {
						what := fmt.Sprintf("%s of %d with goal %g", q.name, n, goalCoherence)
						if round == 1 {
							what += ", phases set anew"
						}
						// asked twice: the first answer must not be kept
						for _, o := range c.run(it, q.co, []Value{q.recv}, nil, st.clone(), nil) {
							if round == 0 && !o.panicked && q.recv == client {
								st = o.st
							}
							break
						}
						c.equals("now", "the coherence of "+what, it, c.run(it, q.co, []Value{q.recv}, nil, st.clone(), nil), in, func(r Outcome) *Num { return it.numRet(r, 0) }, order, false)
						ins := append([]input{{target, 0, 1}}, in...)
						c.matches("reached", "convergence of "+what, c.run(it, q.is, []Value{q.recv}, nil, st.clone(), nil), ins, func(r Outcome) []*Num { return truth(it, r.st, it.ret(r, 0)) }, func(x, v []float64) (bool, string) {
							want := order(x[1:]) >= x[0]
							return isTrue(v) == want, fmt.Sprintf("(coherence %g, goal %g)", order(x[1:]), x[0])
						})
					}
				}
			})
		}
		if !found {
			c.missing(fmt.Sprintf("a swarm of %d", n))
		}
	}
}

func (c *Ctx) recordings() {
	f, nw, ct := c.fn(swarmPkg, "GoalDirectedSync.AchieveSynchronization"), c.fn(swarmPkg, "NewGoalDirectedSyncWithConfig"), c.fn(swarmPkg, "Swarm.ConvergenceTime")
	if f == nil || nw == nil || ct == nil {
		return
	}
	w := c.anAttempt(nw, attemptCfg{size: 20, target: Iv{0.5, 0.5}, script: []string{seeTick, seeTick, seeCancel}, factor: 100, measure: Iv{0, 1}, dist: Iv{0, 1}, quiet: true})
	if w == nil {
		return
	}
	it, st := w.it, w.st
	args := lazyArgs(it, f)
	args[0] = w.gds
	args[1] = it.force(st, args[1])
	it.nonNil(st, args[1])
	it.nonNil(st, args[2])
	it.setField(st, args[2], "Phase", it.constNum(0.75))
	it.setField(st, args[2], "Coherence", it.constNum(0.5))
	script := []string{seeTick, seeTick, seeCancel}
	it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		i := len(selections(st))
		return func(k int) bool { return k >= 0 && happening(x, k, chans[k]) == script[min(i, len(script)-1)] }
	}
	for _, r := range c.run(it, f, args, nil, st, nil) {
		if r.panicked {
			continue // C29
		}
		type tick struct{ coh, rec []*Num }
		var ticks []*tick
		for _, e := range r.st.events() {
			if e.kind == "select" {
				if se := e.data.(*SelectEv); happening(se.ins, se.idx, se.chans[se.idx]) == seeTick {
					ticks = append(ticks, &tick{})
				}
			}
			if len(ticks) == 0 || e.kind != "coherence" && e.kind != "recorded" {
				continue
			}
			v, _ := e.data.([]Value)[0].(*Num)
			if e.kind == "recorded" {
				ticks[len(ticks)-1].rec = append(ticks[len(ticks)-1].rec, v)
			} else {
				ticks[len(ticks)-1].coh = append(ticks[len(ticks)-1].coh, v)
			}
		}
		for i, t := range ticks {
			ok := len(t.rec) > 0
			for _, v := range t.rec {
				ok = ok && v != nil && slices.ContainsFunc(t.coh, func(m *Num) bool { return m != nil && sameLin(r.st, m.L, v.L) })
			}
			c.ob("recorded", fmt.Sprintf("tick %d", i+1), ok, r.pos, "in tick %d of an attempt %d coherences are measured and %d recorded, or others", i+1, len(t.coh), len(t.rec))
		}
	}
	mt := c.exactInterp(8)
	st = newState()
	took := mt.freshNum("time to converge", Iv{0, 1e15}, false, true)
	mt.models[method("emerge/monitoring", "ConvergenceMonitor", "ConvergenceTime")] = func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: took}} }
	a := lazyArgs(mt, ct)
	mt.pointersSet(st, a[0])
	for _, r := range c.run(mt, ct, a, nil, st, nil) {
		v := mt.numRet(r, 0)
		c.ob("time", "Swarm.ConvergenceTime", !r.panicked && v != nil && sameLin(r.st, v.L, took.L), r.pos, "ConvergenceTime is %s, not what the monitor says", mt.show(r.st, v))
	}
}

// thresholdOf: the monitor of a new swarm counts it as converged from its goal on.
func (c *Ctx) thresholdOf(it *Interp, st *State, s Value, n int, goal float64) {
	rec, con := c.fn("emerge/monitoring", "ConvergenceMonitor.Record"), c.fn("emerge/monitoring", "ConvergenceMonitor.IsConverged")
	sv, ok := it.deref(st, s).(*StructV)
	if rec == nil || con == nil || !ok {
		return
	}
	for i := range sv.f {
		f := structOf(sv.typ).Field(i)
		if !types.Identical(f.Type(), rec.Signature.Recv().Type()) {
			continue
		}
		m := it.force(st, it.field(st, sv, f.Name()))
		for _, d := range []float64{-1e-9, 1e-9} {
			for _, r := range c.run(it, rec, []Value{m, it.constNum(goal + d)}, nil, st.clone(), nil) {
				if r.panicked {
					c.ob("threshold", "no panic", false, r.pos, "recording panics")
					continue
				}
				for _, o := range c.run(it, con, []Value{m}, nil, r.st, nil) {
					b, isB := it.ret(o, 0).(*BoolV)
					want := 0
					if d > 0 {
						want = 1
					}
					c.ob("threshold", fmt.Sprintf("swarm of %d, goal %g", n, goal), !o.panicked && isB && o.st.decide(b) == want, o.pos, "the monitor of a swarm with goal %g sees coherence %g as converged: %s", goal, goal+d, it.show(o.st, it.ret(o, 0)))
				}
			}
		}
	}
}

// recordAt lets the monitor of a swarm see a coherence.
func (c *Ctx) recordAt(it *Interp, st *State, s Value, coherence float64) *State {
	rec := c.fn("emerge/monitoring", "ConvergenceMonitor.Record")
	sv, ok := it.deref(st, s).(*StructV)
	if rec == nil || !ok {
		return nil
	}
	for i := range sv.f {
		if f := structOf(sv.typ).Field(i); types.Identical(f.Type(), rec.Signature.Recv().Type()) {
			for _, r := range c.run(it, rec, []Value{it.force(st, it.field(st, sv, f.Name())), it.constNum(coherence)}, nil, st, nil) {
				if !r.panicked {
					return r.st
				}
			}
		}
	}
	return st
}
