package main

// The swarm as a collection: every operation reaches every agent, whichever storage holds them.

import (
	"fmt"
	"go/types"
	"math"
)

func init() {
	register(&Check{id: "C18", run: checkC18,
		rules:  []string{"Swarms are built by the public constructor, analysed for small sizes (sync.Map storage) and for 101 agents (slice storage, the first size that uses it), with default agents and with a builder's agents; every agent's phase is then set to its own unknown. Agents, Agent, ForEachAgent, MeasureCoherence, DisruptAgents and Size are analysed on the constructed swarm and must account for exactly those agents."},
		assume: []string{"sync.Map.Range visits every entry of a map nobody changes once, in some order (the analysis uses insertion order)", "DisruptAgents is given a number"},
		floor:  map[string]int{"built": 3, "all agents": 3, "each agent": 3, "lookup": 3, "coherence": 3, "disrupted": 3}})
}

// hostFn: a function value implemented by the analysis.
func (it *Interp) hostFn(name string, f func(c *callCtx) []Outcome) *FuncV {
	return &FuncV{host: f, id: it.id(), name: name}
}

func (it *Interp) strK(s string) *StrV { return &StrV{known: true, s: s} }

// sliceOf builds a fresh slice holding the values.
func (it *Interp) sliceOf(st *State, elem types.Type, vs []Value) Value {
	at := types.NewArray(elem, int64(len(vs)))
	o := &Obj{id: it.id(), name: "slice", typ: at}
	st.mem[o] = &ArrV{typ: at, e: vs}
	n := it.constNum(float64(len(vs)))
	return &SliceV{o: o, n: n, cp: n, typ: types.NewSlice(elem)}
}

// exactInterp follows loops over known collections element by element.
func (c *Ctx) exactInterp(paths int) *Interp {
	it := NewInterp(c.P)
	it.exactMaps, it.freshAlloc, it.unrollJoin, it.mapOrder = true, true, true, 1
	it.unrollMax, it.unrollBoth, it.unrollPaths, it.maxPath = 300, 300, paths, 4*paths+100
	it.maxSteps, it.maxElems = 100000000, 300
	rnd := modPath + "/internal/random."
	num := func(name string, iv Iv, isInt bool) Model {
		return func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: k.it.freshNum(name, iv, false, isInt)}} }
	}
	// contracts proved by C11
	it.models[rnd+"Float64"] = num("random", Iv{0, math.Nextafter(1, 0)}, false)
	it.models[rnd+"Phase"] = num("random phase", Iv{0, twoPi}, false)
	it.models[rnd+"Intn"] = func(k *callCtx) []Outcome {
		n, _ := k.args[0].(*Num)
		r := k.it.freshNum("random index", Iv{0, 1e15}, false, true)
		if n != nil {
			k.st.assume(linSub(r.L, n.L), Iv{math.Inf(-1), -1})
		}
		return []Outcome{{st: k.st, ret: r}}
	}
	return it
}

// option applies an exported option constructor of the swarm package.
func (c *Ctx) option(it *Interp, st *State, name string, args ...Value) Value {
	f := c.fn(swarmPkg, name)
	if f == nil {
		return nil
	}
	rs := c.run(it, f, args, nil, st.clone(), nil)
	if len(rs) != 1 || rs[0].panicked {
		c.missing(name + " as an option")
		return nil
	}
	v := it.ret(rs[0], 0)
	*st = *rs[0].st
	return v
}

// newSwarm runs the constructor; each sees the successful outcomes.
func (c *Ctx) newSwarm(it *Interp, st *State, n int, opts []Value, each func(st *State, s Value)) {
	nw := c.fn(swarmPkg, "New")
	if nw == nil {
		return
	}
	args := lazyArgs(it, nw)
	args[0] = it.constNum(float64(n))
	ot := nw.Signature.Params().At(2).Type().(*types.Slice).Elem()
	args[2] = it.sliceOf(st, ot, opts)
	for _, r := range c.run(it, nw, args, nil, st, nil) {
		if r.panicked {
			c.ob("no panic", "New", false, r.pos, "New can panic for size %d", n)
			continue
		}
		if errNil(r.st, it.ret(r, 1)) == 2 {
			continue
		}
		each(r.st, it.ret(r, 0))
	}
}

func (c *Ctx) noTopology(it *Interp, st *State) Value {
	return c.option(it, st, "WithTopology", it.hostFn("no topology", func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: &IfaceV{nilp: 2}}}
	}))
}

// agentsOf: the agents a swarm reports, by id.
func (c *Ctx) agentsOf(it *Interp, st *State, s Value, what string, n int, each func(st *State, as map[string]Value)) {
	f := c.fn(swarmPkg, "Swarm.Agents")
	if f == nil {
		return
	}
	idf := "ID"
	for _, r := range c.run(it, f, []Value{s}, nil, st, nil) {
		m, _ := it.ret(r, 0).(*MapV)
		ok := !r.panicked && m != nil && m.o != nil
		out := map[string]Value{}
		if ok {
			mc, _ := it.content(r.st, m.o).(*MapC)
			ok = mc != nil && mc.sum == nil && !mc.unknown && len(mc.keys) == n
			seen := map[*Obj]bool{}
			for _, k := range mc.keys {
				v := it.force(r.st, mc.entries[k][1])
				p, isP := v.(*PtrV)
				if !isP || len(p.ts) != 1 || p.nilp != 0 || seen[p.ts[0].o] {
					ok = false
					continue
				}
				seen[p.ts[0].o] = true
				id, known := strOf(r.st, it.field(r.st, it.deref(r.st, v), idf))
				if !known || k != "s:"+id {
					ok = false
				}
				out[id] = v
			}
		}
		c.ob("all agents", "Swarm.Agents, "+what, ok, r.pos, "Agents does not return exactly the %d agents under their ids: %s", n, showMap(it, r.st, m))
		if ok {
			each(r.st, out)
		}
	}
}

func showMap(it *Interp, st *State, m *MapV) string {
	if m == nil || m.o == nil {
		return "nil"
	}
	mc, _ := it.content(st, m.o).(*MapC)
	if mc == nil {
		return "?"
	}
	return fmt.Sprintf("%d known keys %v, other keys %v", len(mc.keys), mc.keys, mc.sum != nil || mc.unknown)
}

// phase reads an agent's phase through its exported accessor.
func (c *Ctx) phaseOf(it *Interp, st *State, a Value) *Num {
	f := c.fn(agentPkg, "Agent.Phase")
	if f == nil {
		return nil
	}
	rs := c.run(it, f, []Value{a}, nil, st.clone(), nil)
	if len(rs) != 1 {
		return nil
	}
	return it.numRet(rs[0], 0)
}

type kase struct {
	what  string
	n     int
	build bool
}

func checkC18(c *Ctx) {
	agents := c.fn(swarmPkg, "Swarm.Agents")
	lookup := c.fn(swarmPkg, "Swarm.Agent")
	each := c.fn(swarmPkg, "Swarm.ForEachAgent")
	coh := c.fn(swarmPkg, "Swarm.MeasureCoherence")
	dis := c.fn(swarmPkg, "Swarm.DisruptAgents")
	size := c.fn(swarmPkg, "Swarm.Size")
	set := c.fn(agentPkg, "Agent.SetPhase")
	newAgent := c.fn(agentPkg, "New")
	ref := c.fn(corePkg, "MeasureCoherence")
	if agents == nil || lookup == nil || each == nil || coh == nil || dis == nil || size == nil || set == nil || ref == nil || newAgent == nil {
		return
	}
	ks := []kase{{"1 agent", 1, false}, {"3 agents", 3, false}, {"3 agents from a builder", 3, true}, {"101 agents", 101, false}, {"101 agents from a builder", 101, true}}
	for _, k := range ks {
		k := k
		it := c.exactInterp(1)
		st := newState()
		opts := []Value{c.noTopology(it, st)}
		var made []*Obj
		if k.build {
			opts = append(opts, c.option(it, st, "WithAgentBuilder", it.hostFn("builder", func(q *callCtx) []Outcome {
				rs := q.it.Call(newAgent, []Value{q.args[0], &SliceV{nilp: 2, n: q.it.constNum(0), cp: q.it.constNum(0)}}, nil, q.st, q.pos)
				var out []Outcome
				for _, r := range rs {
					if p, ok := r.ret.(*PtrV); ok && len(p.ts) == 1 {
						made = append(made, p.ts[0].o)
						out = append(out, r)
					}
				}
				return out
			})))
		}
		for _, o := range opts {
			if o == nil {
				return
			}
		}
		built := 0
		c.newSwarm(it, st, k.n, opts, func(st *State, s Value) {
			built++
			c.agentsOf(it, st, s, k.what, k.n, func(st *State, as map[string]Value) {
				c.swarmOps(it, st, s, as, k, made)
			})
		})
		c.ob("built", k.what, built > 0, 0, "the constructor has no successful outcome for %s", k.what)
	}
}

func (c *Ctx) swarmOps(it *Interp, st *State, s Value, as map[string]Value, k kase, made []*Obj) {
	if k.build {
		m := map[*Obj]bool{}
		for _, o := range made {
			m[o] = true
		}
		ok := true
		for _, v := range as {
			ok = ok && m[v.(*PtrV).ts[0].o]
		}
		c.ob("built", "WithAgentBuilder, "+k.what, ok, 0, "the swarm holds agents the builder did not make")
	}
	// every agent gets its own phase
	set := c.fn(agentPkg, "Agent.SetPhase")
	ids := keysSorted(as)
	phases := map[string]*Num{}
	for _, id := range ids {
		p := it.freshNum("phase of "+id, Iv{0, 6}, false, false)
		st.assume(p.L, Iv{0, 6})
		rs := c.run(it, set, []Value{as[id], p}, nil, st, nil)
		if len(rs) == 0 {
			c.missing("Agent.SetPhase outcome")
			return
		}
		st = rs[0].st
		phases[id] = c.phaseOf(it, st, as[id])
		if phases[id] == nil {
			c.missing("Agent.Phase outcome")
			return
		}
	}
	method := func(name string, st *State, args []Value, each func(r Outcome)) {
		f := c.fn(swarmPkg, "Swarm."+name)
		for _, r := range c.run(it, f, append([]Value{s}, args...), nil, st, nil) {
			if r.panicked {
				c.ob("no panic", name+", "+k.what, false, r.pos, "%s can panic", name)
				continue
			}
			each(r)
		}
	}
	same := func(v Value, id string) bool {
		p, ok := v.(*PtrV)
		return ok && len(p.ts) == 1 && p.nilp == 0 && p.ts[0].o == as[id].(*PtrV).ts[0].o
	}
	method("Size", st.clone(), nil, func(r Outcome) {
		n := it.numRet(r, 0)
		c.ob("size", "Swarm.Size, "+k.what, n != nil && eqConst(r.st, n, float64(k.n)), r.pos, "Size is %s", it.show(r.st, n))
	})
	// lookup by an arbitrary id
	q := &StrV{id: it.id(), name: "id"}
	hits := map[string]bool{}
	method("Agent", st.clone(), []Value{q}, func(r Outcome) {
		b, _ := it.ret(r, 1).(*BoolV)
		id, known := strOf(r.st, q)
		ok := b != nil && r.st.decide(b) != 2
		if ok && r.st.decide(b) == 1 {
			ok = known && as[id] != nil && same(it.ret(r, 0), id)
			hits[id] = true
		} else if ok {
			// a miss excludes every id
			p, _ := it.ret(r, 0).(*PtrV)
			ok = p != nil && p.nilp == 2
			for _, i := range ids {
				if known && id == i || !known && !r.st.strNeq[q.id][i] {
					ok = false
				}
			}
		}
		c.ob("lookup", "Swarm.Agent, "+k.what, ok, r.pos, "Agent(%s) returns %s, %s", it.show(r.st, q), it.show(r.st, it.ret(r, 0)), it.show(r.st, b))
	})
	c.ob("lookup", "Swarm.Agent, "+k.what, len(hits) == k.n, 0, "Agent finds %d of %d agents", len(hits), k.n)
	// iteration, stopped by the callback at any point
	for _, stopAt := range []int{1, 2, k.n, k.n + 1} {
		stopAt := stopAt
		cb := it.hostFn("visitor", func(q *callCtx) []Outcome {
			q.st.event("visit", q.pos, q.args[0])
			return []Outcome{{st: q.st, ret: boolK(countEv(q.st, "visit") < stopAt)}}
		})
		method("ForEachAgent", st.clone(), []Value{cb}, func(r Outcome) {
			seen := map[string]bool{}
			ok := true
			for _, e := range r.st.events() {
				if e.kind != "visit" {
					continue
				}
				hit := false
				for _, id := range ids {
					if same(e.data, id) && !seen[id] {
						seen[id], hit = true, true
						break
					}
				}
				ok = ok && hit
			}
			want := stopAt
			if want > k.n {
				want = k.n
			}
			c.ob("each agent", "Swarm.ForEachAgent, "+k.what, ok && len(seen) == want, r.pos, "ForEachAgent visits %d of %d agents when stopped at visit %d", len(seen), k.n, stopAt)
		})
	}
	// coherence is that of all phases
	var ps []Value
	for _, id := range ids {
		ps = append(ps, phases[id])
	}
	method("MeasureCoherence", st.clone(), nil, func(r Outcome) {
		got := it.numRet(r, 0)
		for _, w := range c.run(it, c.fn(corePkg, "MeasureCoherence"), []Value{it.sliceOf(r.st, types.Typ[types.Float64], ps)}, nil, r.st, nil) {
			want := it.numRet(w, 0)
			c.ob("coherence", "Swarm.MeasureCoherence, "+k.what, sameNum(w.st, got, want), r.pos, "coherence %s is not that of all %d phases", it.show(w.st, got), k.n)
		}
	})
	// disruption
	if k.n > 3 {
		for _, p := range []float64{-1, 0, 0.1, 0.5, 1, 3} {
			c.disrupt(it, st.clone(), s, as, phases, ids, k, it.constNum(p))
		}
	} else {
		for _, iv := range []Iv{{-1e9, 0}, {0, 1}, {1, 1e9}} {
			s2 := st.clone()
			p := it.freshNum("percentage", iv, false, false)
			s2.assume(p.L, iv)
			c.disrupt(it, s2, s, as, phases, ids, k, p)
		}
	}
}

func countEv(st *State, kind string) int {
	n := 0
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == kind {
			n++
		}
	}
	return n
}

func (c *Ctx) disrupt(it *Interp, st *State, s Value, as map[string]Value, phases map[string]*Num, ids []string, k kase, p *Num) {
	f := c.fn(swarmPkg, "Swarm.DisruptAgents")
	oldPaths := it.unrollPaths
	it.unrollPaths = 20
	defer func() { it.unrollPaths = oldPaths }()
	for _, r := range c.run(it, f, []Value{s, p}, nil, st, nil) {
		if r.panicked {
			c.ob("no panic", "DisruptAgents, "+k.what, false, r.pos, "DisruptAgents can panic")
			continue
		}
		changed := 0
		unknown := ""
		for _, id := range ids {
			now := c.phaseOf(it, r.st, as[id])
			switch {
			case now == nil:
				unknown = id
			case now.L.key != phases[id].L.key:
				changed++
			}
		}
		b := best(r.st, p)
		n, kf := float64(k.n), float64(changed)
		ok := unknown == "" && !r.st.dead
		switch {
		case b.hi <= 0:
			ok = ok && changed == 0
		case b.lo >= 1:
			ok = ok && changed == k.n
		default:
			// changed = trunc(n·p)
			ok = ok && kf <= n*math.Min(b.hi, 1)+1e-9 && n*math.Max(b.lo, 0) >= kf-1e-9
			if changed < k.n {
				ok = ok && n*b.hi <= kf+1+1e-9
			}
		}
		c.ob("disrupted", "Swarm.DisruptAgents, "+k.what, ok, r.pos, "percentage %s changes the phase of %d of %d agents", it.show(r.st, p), changed, k.n)
	}
}
