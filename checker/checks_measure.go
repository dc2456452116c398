package main

// What is measured is what the phases say.

import (
	"fmt"
	"go/types"
	"maps"
	"math"
	"slices"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C36", run: checkC36,
		rules: []string{"The summaries of core.MeasureCoherence and MeasureCoherenceWeighted for lists of none to three unknown phases and weights are the (weighted) length of the mean of the unit vectors; nothing has coherence 0.",
			"Swarm.MeasureCoherence over swarms of 1, 2, 3 (by map) and 101 (by slice) agents with unknown phases is that of all the agents' phases; MeasurePhaseConvergence is 1 less the mean shortest distance to an unknown target in units of half a turn, MeasurePhaseVariance the mean squared shortest distance to the phases' mean direction.",
			"Agent.UpdateContext with one to three neighbors of unknown phases perceives the coherence of the neighbors and sets as its local goal the own phase moved towards their mean direction, by half of the way and the other half in proportion to that coherence; Agent.calculateLocalCoherence is the coherence of the neighbors."},
		assume: []string{"summaries are compared with the reference at random points, on the path taken there (random interpretation); limits between paths themselves are not sampled", "the random generator's contract (C11)"},
		floor:  map[string]int{"coherence": 4, "weighted": 2, "swarm": 4, "convergence": 2, "variance": 2, "perceived": 3, "goal": 3}})
}

func order(x []float64) float64 {
	c, s := 0.0, 0.0
	for _, v := range x {
		c += math.Cos(v)
		s += math.Sin(v)
	}
	return math.Hypot(c, s) / float64(len(x))
}

func direction(x []float64) float64 {
	c, s := 0.0, 0.0
	for _, v := range x {
		c += math.Cos(v)
		s += math.Sin(v)
	}
	return math.Atan2(s, c)
}

func checkC36(c *Ctx) {
	c.coherences()
	c.swarmMeasures()
	c.perceptions()
}

func (c *Ctx) coherences() {
	mc, mw := c.fn(corePkg, "MeasureCoherence"), c.fn(corePkg, "MeasureCoherenceWeighted")
	if mc == nil || mw == nil {
		return
	}
	ft := types.Typ[types.Float64]
	for n := 0; n <= 3; n++ {
		for m := -1; m <= n+1; m++ { // weights; -1: not weighted
			if m >= 0 && m < n-1 {
				continue
			}
			it := c.exactInterp(64)
			st := newState()
			var ps, ws []Value
			var in []input
			for i := 0; i < n; i++ {
				p := it.freshNum(fmt.Sprintf("phase %d", i), Iv{-100, 100}, false, false)
				ps = append(ps, p)
				in = append(in, input{p, -10, 10})
			}
			for i := 0; i < m; i++ {
				w := it.freshNum(fmt.Sprintf("weight %d", i), Iv{0.01, 100}, false, false)
				ws = append(ws, w)
				in = append(in, input{w, 0.01, 3})
			}
			got := func(r Outcome) *Num { return it.numRet(r, 0) }
			if m < 0 {
				rs := c.run(it, mc, []Value{it.sliceOf(st, ft, ps)}, nil, st, nil)
				c.equals("coherence", fmt.Sprintf("the coherence of %d phases", n), it, rs, in, got, func(x []float64) float64 {
					if n == 0 {
						return 0
					}
					return order(x)
				}, false)
				continue
			}
			rs := c.run(it, mw, []Value{it.sliceOf(st, ft, ps), it.sliceOf(st, ft, ws)}, nil, st, nil)
			c.equals("weighted", fmt.Sprintf("the coherence of %d phases with %d weights", n, m), it, rs, in, got, func(x []float64) float64 {
				if m == 0 || n == 0 {
					return 0
				}
				re, im, sum := 0.0, 0.0, 0.0
				for i := 0; i < min(n, m); i++ {
					re += x[n+i] * math.Cos(x[i])
					im += x[n+i] * math.Sin(x[i])
					sum += x[n+i]
				}
				return math.Hypot(re, im) / sum
			}, false)
		}
	}
}

// phasesOf reads the agents' phases, which must be unknown and distinct, or known.
func (c *Ctx) phasesOf(it *Interp, st *State, as []Value) []input {
	f := c.fn(agentPkg, "Agent.Phase")
	if f == nil {
		return nil
	}
	var in []input
	for _, a := range as {
		rs := c.run(it, f, []Value{a}, nil, st.clone(), nil)
		if len(rs) != 1 || rs[0].panicked {
			c.missing("Agent.Phase outcome")
			return nil
		}
		n := it.numRet(rs[0], 0)
		if n == nil || !n.L.isConst() && n.L.unit() == nil {
			c.missing("Agent.Phase as set")
			return nil
		}
		in = append(in, input{n, 0, twoPi})
	}
	return in
}

func (c *Ctx) setPhase(it *Interp, st *State, a Value, n *Num) *State {
	f := c.fn(agentPkg, "Agent.SetPhase")
	if f == nil {
		return nil
	}
	rs := c.run(it, f, []Value{a, n}, nil, st, nil)
	if len(rs) != 1 || rs[0].panicked {
		c.missing("Agent.SetPhase outcome")
		return nil
	}
	return rs[0].st
}

func (c *Ctx) swarmMeasures() {
	co, cv, va := c.fn(swarmPkg, "Swarm.MeasureCoherence"), c.fn(swarmPkg, "Swarm.MeasurePhaseConvergence"), c.fn(swarmPkg, "Swarm.MeasurePhaseVariance")
	if co == nil || cv == nil || va == nil {
		return
	}
	for _, n := range []int{1, 2, 3, 101} {
		it := c.exactInterp(256)
		if n > 100 {
			it = c.exactInterp(16)
		}
		it.pubLocal = true
		st := newState()
		c.newSwarm(it, st, n, []Value{c.noTopology(it, st)}, func(st *State, s Value) {
			c.agentsOf(it, st, s, "agents", n, func(st *State, as map[string]Value) {
				var list []Value
				for _, id := range slices.Sorted(maps.Keys(as)) {
					list = append(list, as[id])
				}
				in := c.phasesOf(it, st, list)
				if in == nil {
					return
				}
				got := func(r Outcome) *Num { return it.numRet(r, 0) }
				c.equals("swarm", fmt.Sprintf("the coherence of a swarm of %d", n), it, c.run(it, co, []Value{s}, nil, st.clone(), nil), in, got, order, false)
				if n == 3 {
					return
				}
				if n > 100 { // most agents' phases known: the way to each has two cases
					for i, a := range list[1:] {
						if st = c.setPhase(it, st, a, it.constNum(1+float64(i)/50)); st == nil {
							return
						}
					}
					if in = c.phasesOf(it, st, list); in == nil {
						return
					}
				}
				t := it.freshNum("target", Iv{-1e6, 1e6}, false, false)
				ti := input{t, -20, 20}
				if n > 100 {
					t = it.constNum(0.5)
					ti = input{t, 0.5, 0.5}
				}
				c.equals("convergence", fmt.Sprintf("the phase convergence of a swarm of %d", n), it, c.run(it, cv, []Value{s, t}, nil, st.clone(), nil), append([]input{ti}, in...), got, func(x []float64) float64 {
					d := 0.0
					for _, v := range x[1:] {
						d += math.Abs(math.Remainder(v-x[0], twoPi))
					}
					return 1 - d/float64(n)/math.Pi
				}, false)
				if n > 100 {
					return
				}
				c.equals("variance", fmt.Sprintf("the phase variance of a swarm of %d", n), it, c.run(it, va, []Value{s}, nil, st.clone(), nil), in, got, func(x []float64) float64 {
					m, d := direction(x), 0.0
					for _, v := range x {
						e := math.Remainder(v-m, twoPi)
						d += e * e
					}
					return d / float64(n)
				}, false)
			})
		})
	}
}

func (c *Ctx) perceptions() {
	nw, conn, upd := c.fn(agentPkg, "New"), c.fn(agentPkg, "Agent.ConnectTo"), c.fn(agentPkg, "Agent.UpdateContext")
	goal, loc := c.fn(agentPkg, "Agent.LocalGoal"), c.P.method(agentPkg, "Agent", "calculateLocalCoherence")
	if nw == nil || conn == nil || upd == nil || goal == nil {
		return
	}
	ot := nw.Signature.Params().At(1).Type().(*types.Slice).Elem()
	for n := 1; n <= 3; n++ {
		it := c.exactInterp(64)
		it.pubLocal = true
		st := newState()
		one := func(f *ssa.Function, args ...Value) Value {
			if st == nil {
				return nil
			}
			rs := c.run(it, f, args, nil, st, nil)
			if len(rs) != 1 || rs[0].panicked {
				c.missing(f.Name() + " outcome")
				st = nil
				return nil
			}
			st = rs[0].st
			return it.ret(rs[0], 0)
		}
		var as []Value
		var in []input
		for i := 0; i <= n && st != nil; i++ {
			a := one(nw, it.strK(fmt.Sprintf("a%d", i)), it.sliceOf(st, ot, nil))
			p := it.freshNum(fmt.Sprintf("phase of %d", i), Iv{0, 6.28}, false, false)
			if st == nil {
				return
			}
			st = c.setPhase(it, st, a, p)
			as = append(as, a)
		}
		for i := 1; i <= n && st != nil; i++ {
			one(conn, as[0], it.strK(fmt.Sprintf("a%d", i)), as[i])
		}
		if st == nil {
			return
		}
		for _, q := range c.phasesOf(it, st, as) {
			in = append(in, input{q.n, 0, 6.28})
		}
		if len(in) != n+1 {
			return
		}
		who := fmt.Sprintf("an agent with %d neighbors", n)
		rs := c.run(it, upd, []Value{as[0]}, nil, st.clone(), nil)
		var goals []Outcome
		for _, r := range rs {
			if r.panicked {
				goals = append(goals, r)
				continue
			}
			goals = append(goals, c.run(it, goal, []Value{as[0]}, nil, r.st.clone(), nil)...)
		}
		c.equals("goal", "the local goal of "+who, it, goals, in, func(r Outcome) *Num { return it.numRet(r, 0) }, func(x []float64) float64 {
			var d []float64
			for _, v := range x[1:] {
				d = append(d, v-x[0])
			}
			return x[0] + direction(d)*(0.5+0.5*order(d))
		}, true)
		see := func(x []float64) float64 { return order(x[1:]) }
		c.equals("perceived", "the coherence perceived by "+who, it, rs, in, func(r Outcome) (v *Num) {
			for _, e := range since(r.st, st.ev, "publish") {
				if rec := recordOf(it.force(r.st, e.data.(*PubEv).v), corePkg, "Context"); rec != nil {
					v = it.numField(r.st, rec, "LocalCoherence")
				}
			}
			return v
		}, see, false)
		if loc != nil && loc.Blocks != nil {
			c.fns[loc] = true
			c.equals("perceived", "the local coherence of "+who, it, c.run(it, loc, []Value{as[0]}, nil, st.clone(), nil), in, func(r Outcome) *Num { return it.numRet(r, 0) }, see, false)
		}
	}
}
