package main

// The agent pool: a recycled agent carries nothing over.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C39", run: checkC39,
		rules: []string{"An agent with unknown attributes and none to three neighbors, updated and returned with Put: what is handed to the pool is that agent, without id and neighbors, and its context empty.",
			"What Get hands out next, if it is that agent: the id asked for, no neighbors (by count and by the neighbors' ids), energy 100, a frequency of 100ms, phase and local goal on the circle, influence in [0.1, 0.2] and stubbornness in [0, 0.3], independent of what they were, and an empty context.",
			"Gets, puts and agents in use are counted; Put(nil) pools and counts nothing."},
		assume: []string{"sync.Pool hands out what was put into it", "the contracts of internal/random (C11)"},
		floor:  map[string]int{"put": 4, "forgotten": 8, "counted": 4}})
}

func checkC39(c *Ctx) {
	nw, conn, upd, cnt, is := c.fn(agentPkg, "New"), c.fn(agentPkg, "Agent.ConnectTo"), c.fn(agentPkg, "Agent.UpdateContext"), c.fn(agentPkg, "Agent.NeighborCount"), c.fn(agentPkg, "Agent.IsConnectedTo")
	get, put, stats := c.fn(agentPkg, "PoolManager.Get"), c.fn(agentPkg, "PoolManager.Put"), c.fn(agentPkg, "PoolManager.Stats")
	if nw == nil || conn == nil || upd == nil || cnt == nil || is == nil || get == nil || put == nil || stats == nil {
		return
	}
	type attr struct {
		name string
		iv   Iv // set to
		want Iv
		f    *ssa.Function
	}
	attrs := []attr{{"Phase", Iv{0, 6}, Iv{0, twoPi}, nil}, {"LocalGoal", Iv{0, 6}, Iv{0, twoPi}, nil}, {"Energy", Iv{0, 1e6}, Iv{100, 100}, nil},
		{"Frequency", Iv{1, 1e12}, Iv{1e8, 1e8}, nil}, {"Influence", Iv{0, 1}, Iv{0.1, 0.2 + 1e-9}, nil}, {"Stubbornness", Iv{0, 1}, Iv{0, 0.3 + 1e-9}, nil}}
	for i, a := range attrs {
		if attrs[i].f = c.fn(agentPkg, "Agent."+a.name); attrs[i].f == nil || c.fn(agentPkg, "Agent.Set"+a.name) == nil {
			return
		}
	}
	ot := nw.Signature.Params().At(1).Type().(*types.Slice).Elem()
	for n := 0; n <= 3; n++ {
		it := c.exactInterp(64)
		it.pubLocal = true
		st := newState()
		bad := false
		one := func(f *ssa.Function, args ...Value) Value {
			if bad {
				return nil
			}
			rs := c.run(it, f, args, nil, st, nil)
			if len(rs) == 0 || f != upd && len(rs) != 1 || rs[0].panicked {
				c.missing(f.Name() + " outcome")
				bad = true
				return nil
			}
			st = rs[0].st
			return it.ret(rs[0], 0)
		}
		var pooled Value
		it.models["(*sync.Pool).Put"] = func(k *callCtx) []Outcome {
			k.st.event("pooled", k.pos, k.args[1])
			pooled = k.args[1]
			return []Outcome{{st: k.st}}
		}
		it.models["(*sync.Pool).Get"] = func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: pooled}} }
		a := one(nw, it.strK("former"), it.sliceOf(st, ot, nil))
		var former []*Num
		for _, x := range attrs {
			v := it.freshNum("former "+x.name, x.iv, false, x.name == "Frequency")
			former = append(former, v)
			one(c.fn(agentPkg, "Agent.Set"+x.name), a, v)
		}
		for i := 0; i < n; i++ {
			b := one(nw, it.strK(fmt.Sprintf("n%d", i)), it.sliceOf(st, ot, nil))
			one(conn, a, it.strK(fmt.Sprintf("n%d", i)), b)
		}
		if n > 0 && n < 3 {
			one(upd, a)
		}
		pm := it.force(st, it.lazy(get.Signature.Recv().Type(), "pool", false))
		it.pointersSet(st, pm)
		counts := func(st *State) []*Num {
			rs := c.run(it, stats, []Value{pm}, nil, st.clone(), nil)
			if len(rs) != 1 || rs[0].panicked {
				return nil
			}
			return []*Num{it.numRet(rs[0], 0), it.numRet(rs[0], 1), it.numRet(rs[0], 2), it.numRet(rs[0], 3)}
		}
		if bad {
			return
		}
		who := fmt.Sprintf("an agent with %d neighbors", n)
		before := counts(st)
		counted := func(what string, r Outcome, want [4]float64) {
			after := counts(r.st)
			ok := len(before) == 4 && len(after) == 4
			for i := 0; ok && i < 4; i++ {
				if i == 2 {
					continue // agents made: known only to the pool
				}
				ok = before[i] != nil && after[i] != nil && sameLin(r.st, after[i].L, linAdd(before[i].L, linConst(want[i]), 1))
			}
			c.ob("counted", what, ok, r.pos, "after %s the counts (gets, puts, made, in use) changed from %s to %s", what, showNums(it, st, before), showNums(it, r.st, after))
		}
		if n == 0 {
			for _, r := range c.run(it, put, []Value{pm, it.zero(put.Signature.Params().At(0).Type())}, nil, st.clone(), nil) {
				c.ob("put", "nil", !r.panicked && len(since(r.st, st.ev, "pooled")) == 0, r.pos, "Put(nil) pools something or panics")
				if !r.panicked {
					counted("Put(nil)", r, [4]float64{})
				}
			}
		}
		empty := func(r Outcome, rule, what string, from *Ev) {
			v, has := Value(nil), false
			for _, e := range since(r.st, from, "publish") {
				if rec := recordOf(it.force(r.st, e.data.(*PubEv).v), corePkg, "Context"); rec != nil {
					v, has = rec, true
				}
			}
			ok := has
			if has {
				for _, f := range []string{"Density", "LocalCoherence"} {
					x := it.numField(r.st, v, f)
					ok = ok && x != nil && x.L.isConst() && x.L.c == 0
				}
			}
			c.ob(rule, what+": context", ok, r.pos, "%s keeps what it perceived", what)
		}
		alone := func(st0 *State, a Value, rule, what string) {
			for _, r := range c.run(it, cnt, []Value{a}, nil, st0.clone(), nil) {
				v := it.numRet(r, 0)
				c.ob(rule, what+": neighbors", !r.panicked && v != nil && v.L.isConst() && v.L.c == 0, r.pos, "%s still has %s neighbors", what, it.show(r.st, v))
			}
			for i := 0; i < n; i++ {
				for _, r := range c.run(it, is, []Value{a, it.strK(fmt.Sprintf("n%d", i))}, nil, st0.clone(), nil) {
					b, isB := it.ret(r, 0).(*BoolV)
					c.ob(rule, what+": neighbors", !r.panicked && isB && r.st.decide(b) == 0, r.pos, "%s is still connected to its neighbor n%d", what, i)
				}
			}
		}
		reborn := func(r Outcome, rule, what string) {
			g := it.ret(r, 0)
			if nilPtr(g) != 2 && nilPtr(g) != 0 {
				c.ob(rule, what, false, r.pos, "Get returns %s", it.show(r.st, g))
				return
			}
			id, known := strOf(r.st, it.field(r.st, it.deref(r.st, g), "ID"))
			c.ob(rule, what+": id", known && id == "latter", r.pos, "%s is called %q", what, id)
			for _, x := range attrs {
				for _, o := range c.run(it, x.f, []Value{g}, nil, r.st.clone(), nil) {
					v := it.numRet(o, 0)
					var iv Iv
					if v != nil {
						iv = best(o.st, v)
					}
					kept := false
					for _, w := range former {
						kept = kept || v != nil && w.L.unit() != nil && (v.L.has(w.L.unit()) || v.L.allDeps()[w.L.unit()])
					}
					c.ob(rule, what+": "+x.name, !kept && !o.panicked && v != nil && iv.lo >= x.want.lo && iv.hi <= x.want.hi, o.pos, "%s has %s %s, expected a new one in %v", what, x.name, it.show(o.st, v), x.want)
				}
			}
			alone(r.st, g, rule, what)
		}
		for _, r := range c.run(it, put, []Value{pm, a}, nil, st.clone(), nil) {
			if r.panicked {
				c.ob("put", who, false, r.pos, "Put panics")
				continue
			}
			evs := since(r.st, st.ev, "pooled")
			same := len(evs) == 1
			if same {
				iv, isI := evs[0].data.(*IfaceV)
				same = isI && len(iv.alts) == 1 && ptrObj(it.force(r.st, iv.alts[0].v)) == ptrObj(a)
			}
			c.ob("put", who, same, r.pos, "Put hands %d things, or another agent, to the pool", len(evs))
			if !same {
				continue
			}
			counted("Put, "+who, r, [4]float64{0, 1, 0, -1})
			id, known := strOf(r.st, it.field(r.st, it.deref(r.st, a), "ID"))
			c.ob("put", who+": id", known && id == "", r.pos, "in the pool %s is still called %q", who, id)
			alone(r.st, a, "put", "in the pool "+who)
			empty(r, "put", "in the pool "+who, st.ev)
			for _, g := range c.run(it, get, []Value{pm, it.strK("latter")}, nil, r.st.clone(), nil) {
				if g.panicked {
					c.ob("forgotten", who, false, g.pos, "Get panics")
					continue
				}
				c.ob("forgotten", who+": same", ptrObj(it.ret(g, 0)) == ptrObj(a), g.pos, "Get does not return what the pool gave it")
				counted("Put and Get, "+who, g, [4]float64{1, 1, 0, 0})
				reborn(g, "forgotten", "after Get "+who)
				empty(g, "forgotten", "after Get "+who, r.st.ev)
			}
		}
	}
}

func showNums(it *Interp, st *State, ns []*Num) string {
	s := ""
	for _, n := range ns {
		s += it.show(st, n) + " "
	}
	return s
}
