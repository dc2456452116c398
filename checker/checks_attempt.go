package main

// A synchronization attempt: succeeds exactly when the target is reached, ends when cancelled or out of budget.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C29", run: checkC29,
		rules: []string{"AchieveSynchronization of a constructed synchronizer is followed for swarms on both sides of every size class, along every script of up to two measurements followed by cancellation, with unknown measurements, an unknown pattern distance and an unknown target coherence.",
			"It returns nil exactly after a measurement at which the coherence is within the size's tolerance of the effective target (twice that close to the practical limit), the pattern distance is below the threshold and, for a high target, the phase convergence reaches its goal; the context's error exactly when cancelled; otherwise it goes on.",
			"The effective target is the one given, at most the theoretical limit; the distance is taken between the measured pattern and that target.",
			"Measured against a target that is never reached, it gives up with an error after exactly its budget: the configured factor times 1, 2, 4 or 8 (target below 80, 90, 95 % of the practical limit, or more), without limit above it, at most 1000 measurements, one per update interval.",
			"Run attempts the swarm's own goal and returns the attempt's result."},
		assume: []string{"measurements and distances in [0, 1] (proved by other properties)", "moving agents does not change the target (followed with one representative agent)"},
		floor:  map[string]int{"achieved": 4, "goes on": 4, "cancelled": 2, "budget": 5, "interval": 1, "target": 3, "run": 2}})
}

// pkgPath of a method model
func method(rel, typ, name string) string {
	return "(*" + modPath + "/" + rel + "." + typ + ")." + name
}

type attemptCfg struct {
	size    int
	target  Iv
	script  []string
	factor  float64
	measure Iv // coherences
	dist    Iv
	quiet   bool // never switching strategies
	stuck   bool
	agents  int // agents followed, 1 by default
	config  func(it *Interp, st *State, cfg Value)
}

const (
	tolSmall, tolMedium, tolLarge = 0.03125, 0.015625, 0.0078125
	nearPattern, phaseGoal, high  = 0.125, 0.84375, 0.90625
)

func checkC29(c *Ctx) {
	f := c.fn(swarmPkg, "GoalDirectedSync.AchieveSynchronization")
	nw := c.fn(swarmPkg, "NewGoalDirectedSyncWithConfig")
	lim := c.fn(swarmPkg, "GetCoherenceLimits")
	run := c.fn(swarmPkg, "Swarm.Run")
	if f == nil || nw == nil || lim == nil || run == nil {
		return
	}
	steps := 1
	sizes := []int{1, 4, 9, 10, 49, 50, 200}
	if c.tier == "thorough" {
		steps = 2
		sizes = []int{1, 2, 4, 5, 9, 10, 19, 20, 49, 50, 99, 100, 200, 1000}
	}
	for _, n := range sizes {
		for k := 0; k <= steps; k++ {
			var s []string
			for i := 0; i < k; i++ {
				s = append(s, seeTick)
			}
			c.attempts(f, nw, lim, attemptCfg{size: n, target: Iv{0, 1}, script: append(s, seeCancel), factor: 100, measure: Iv{0, 1}, dist: Iv{0, 1}, quiet: true})
		}
	}
	// a second measurement, a strategy switch
	c.attempts(f, nw, lim, attemptCfg{size: 20, target: Iv{0.5, 0.5}, script: []string{seeTick, seeTick, seeCancel}, factor: 100, measure: Iv{0, 1}, dist: Iv{0, 1}, quiet: true})
	c.attempts(f, nw, lim, attemptCfg{size: 20, target: Iv{0.5, 0.5}, script: []string{seeTick, seeTick, seeCancel}, factor: 100, measure: Iv{0.1, 0.1}, dist: Iv{0, 1}})
	// the budget
	for _, q := range []struct {
		n         int
		target, f float64
	}{{20, 0.5, 3}, {20, 0.5, 1}, {20, 0.8, 2}, {20, 0.88, 1.5}, {20, 0.77, 2.5}, {20, 0.78, 2.5}, {20, 0.87, 2.5}, {20, 0.875, 2.5}, {20, 0.92, 2.5}, {20, 0.925, 2.5}, {20, 0.95, 1}, {20, 0.985, 1}, {20, 1, 5}, {4, 1, 3}, {60, 0.3, 1200}} {
		s := make([]string, 1100)
		for i := range s {
			s[i] = seeTick
		}
		c.attempts(f, nw, lim, attemptCfg{size: q.n, target: Iv{q.target, q.target}, script: s, factor: q.f, measure: Iv{0.1, 0.1}, dist: Iv{1, 1}, quiet: true})
		if q.f == 3 {
			c.attempts(f, nw, lim, attemptCfg{size: q.n, target: Iv{q.target, q.target}, script: s, factor: q.f, measure: Iv{0.1, 0.1}, dist: Iv{1, 1}, stuck: true})
		}
	}
	c.runsGoal(run)
}

type attemptWorld struct {
	it       *Interp
	st       *State
	gds      Value
	interval *Num
	agents   []*PtrV
}

// anAttempt prepares a synchronizer whose measurements are unknown.
func (c *Ctx) anAttempt(nw *ssa.Function, q attemptCfg) *attemptWorld {
	it := c.exactInterp(1)
	it.unrollJoin, it.keepHeads = false, true
	it.unrollMax, it.unrollBoth = 2000, 2000
	it.unrollPaths, it.maxPath = 100000, 400000
	circleModels(it)
	m := it.models
	num := func(ev string, iv Iv) Model {
		return func(k *callCtx) []Outcome {
			n := it.constNum(iv.lo)
			if iv.lo != iv.hi {
				n = it.freshNum(ev, iv, false, false)
			}
			if ev != "" {
				k.st.event(ev, k.pos, append([]Value{n}, k.args...))
			}
			return []Outcome{{st: k.st, ret: n}}
		}
	}
	none := func(k *callCtx) []Outcome { return []Outcome{{st: k.st}} }
	rnd := modPath + "/internal/random."
	m[rnd+"Float64"] = num("", Iv{0.5, 0.5})
	m["time.Since"] = num("", Iv{6e9, 6e9})
	m["(time.Time).Sub"] = m["time.Since"]
	m[rnd+"Phase"] = num("", Iv{0.5, 0.5})
	m[rnd+"Intn"] = num("", Iv{0, 0})
	m[method(swarmPkg, "Swarm", "MeasureCoherence")] = num("coherence", q.measure)
	m[method(swarmPkg, "Swarm", "MeasurePhaseConvergence")] = num("convergence", Iv{0, 1})
	m[method(swarmPkg, "Swarm", "MeasurePhaseVariance")] = num("", Iv{0, 0})
	m[method(swarmPkg, "Swarm", "Size")] = num("", Iv{float64(q.size), float64(q.size)})
	m[method("emerge/agent", "Agent", "Phase")] = num("", Iv{1, 1})
	m[method("emerge/agent", "Agent", "Frequency")] = num("", Iv{1e8, 1e8})
	m[method("emerge/agent", "Agent", "SetPhase")] = none
	m[method("emerge/agent", "Agent", "SetFrequency")] = none
	m[method(donePkg, "CompletedPattern", "GetPhaseAdjustment")] = num("", Iv{0, 0})
	m[method(donePkg, "CompletedPattern", "GetFrequencyAdjustment")] = num("", Iv{0, 0})
	m[method(donePkg, "Engine", "CompletePattern")] = func(k *callCtx) []Outcome {
		p := it.nonNil(k.st, it.lazy(k.sig.Results().At(0).Type(), "completed", false))
		return []Outcome{{st: k.st, ret: p}}
	}
	mon := "emerge/convergence"
	m[method(mon, "Monitor", "SetTarget")] = none
	m[method(mon, "Monitor", "RecordSample")] = none
	m[method("emerge/monitoring", "ConvergenceMonitor", "Record")] = func(k *callCtx) []Outcome {
		k.st.event("recorded", k.pos, append([]Value{}, k.args[1:]...))
		return []Outcome{{st: k.st}}
	}
	m[method(mon, "Monitor", "GetConvergenceRate")] = num("", Iv{0, 0})
	m[method(mon, "Monitor", "ShouldSwitchStrategy")] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: boolK(!q.quiet)}}
	}
	m[method(mon, "Monitor", "IsStuck")] = func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: boolK(q.stuck)}} }
	m[modPath+"/emerge/core.PatternDistance"] = num("distance", q.dist)
	m[modPath+"/emerge/core.IdentifyGaps"] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: &SliceV{nilp: 2, n: it.constNum(0), cp: it.constNum(0), typ: k.sig.Results().At(0).Type()}}}
	}
	agT := c.P.typ("emerge/agent", "Agent")
	if agT == nil {
		return nil
	}
	st := newState()
	w := &attemptWorld{it: it}
	entries, keys := map[string][2]Value{}, []string{}
	for i := 0; i < max(1, q.agents); i++ {
		a := &PtrV{ts: []PtrT{{o: &Obj{id: it.id(), name: fmt.Sprintf("agent%d", i+1), typ: agT}}}, typ: agT}
		st.mem[a.ts[0].o] = it.force(st, it.lazy(agT, a.ts[0].o.name, false))
		k := fmt.Sprintf("a%d", i)
		entries["s:"+k] = [2]Value{it.strK(k), a}
		keys = append(keys, "s:"+k)
		w.agents = append(w.agents, a)
	}
	m[method(swarmPkg, "Swarm", "Agents")] = func(k *callCtx) []Outcome {
		mt, ok := k.sig.Results().At(0).Type().Underlying().(*types.Map)
		if !ok {
			return []Outcome{{st: k.st, ret: it.lazy(k.sig.Results().At(0).Type(), "agents", false)}}
		}
		// the agents named stand for all
		o := &Obj{id: it.id(), name: "agents", typ: mt}
		own := map[string][2]Value{}
		for k, e := range entries {
			own[k] = e
		}
		k.st.mem[o] = &MapC{typ: mt, keys: append([]string{}, keys...), entries: own, n: it.constNum(float64(q.size)), name: "agents"}
		return []Outcome{{st: k.st, ret: &MapV{o: o, typ: mt}}}
	}
	args := lazyArgs(it, nw)
	it.pointersSet(st, args[0])
	cfg := it.deref(st, it.nonNil(st, args[1]))
	set := func(f string, v float64) {
		parts := strings.Split(f, ".")
		s, ok := it.field(st, cfg, parts[0]).(*StructV)
		if !ok {
			return
		}
		u := structOf(s.typ)
		for i := 0; u != nil && i < u.NumFields(); i++ {
			if u.Field(i).Name() == parts[1] {
				s.f[i] = it.constNum(v)
			}
		}
	}
	for k, v := range map[string]float64{"ToleranceSmall": tolSmall, "ToleranceMedium": tolMedium, "ToleranceLarge": tolLarge,
		"PhaseConvergenceGoal": phaseGoal, "PatternDistanceThreshold": nearPattern, "BaseAdjustmentScale": 0.65} {
		set("Convergence."+k, v)
	}
	for k, v := range map[string]float64{"PhaseVariance": 0.5, "HighCoherence": high, "VeryHighCoherence": 0.95, "ModerateCoherence": 0.85} {
		set("Thresholds."+k, v)
	}
	set("Resonance.AffectedAgents", 0.1)
	set("Resonance.NoiseMagnitude", 0.4)
	for k, v := range map[string]float64{"CoherenceFactor": 0.2, "RandomWalkMagnitude": 0.1, "PerturbationMagnitude": 0.08, "PerturbationChance": 0.15} {
		set("Variation."+k, v)
	}
	set("Strategy.MaxIterationsFactor", q.factor)
	set("Strategy.ExplorationTimeWindow", 6e10)
	w.interval = it.restrict(st, cfg, "Strategy.UpdateInterval", Iv{1, 1e15})
	if q.config != nil {
		q.config(it, st, cfg)
	}
	rs := c.run(it, nw, args, nil, st, nil)
	if len(rs) != 1 || rs[0].panicked {
		c.missing("outcome of NewGoalDirectedSyncWithConfig")
		return nil
	}
	w.gds, w.st = it.ret(rs[0], 0), rs[0].st
	return w
}

func (c *Ctx) attempts(f, nw, lim *ssa.Function, q attemptCfg) {
	what := fmt.Sprintf("%d agents", q.size)
	w := c.anAttempt(nw, q)
	if w == nil {
		return
	}
	it, st, gds, interval := w.it, w.st, w.gds, w.interval
	limits := func(n int) (theory, practical float64, ok bool) {
		rs := c.run(it, lim, []Value{it.constNum(float64(n))}, nil, newState(), nil)
		if len(rs) != 1 || rs[0].panicked {
			return 0, 0, false
		}
		a, b := it.numField(rs[0].st, it.ret(rs[0], 0), "Theoretical"), it.numField(rs[0].st, it.ret(rs[0], 0), "Practical")
		if a == nil || b == nil {
			return 0, 0, false
		}
		x, y := best(rs[0].st, a), best(rs[0].st, b)
		return x.lo, y.lo, x.lo == x.hi && y.lo == y.hi
	}
	theory, practical, ok := limits(q.size)
	if !ok {
		c.missing("the limits of a given size")
		return
	}
	args := lazyArgs(it, f)
	args[0] = gds
	args[1] = it.force(st, args[1])
	it.nonNil(st, args[1])
	it.nonNil(st, args[2])
	given := it.numField(st, it.deref(st, args[2]), "Coherence")
	st.assume(given.L, q.target)
	it.setField(st, args[2], "Phase", it.constNum(0.75))
	if q.target.lo == q.target.hi {
		given = it.constNum(q.target.lo)
		it.setField(st, args[2], "Coherence", given)
	}
	it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		i := len(selections(st))
		return func(k int) bool {
			if k < 0 {
				return false
			}
			want := seeCancel
			if i < len(q.script) {
				want = q.script[i]
			}
			return happening(x, k, chans[k]) == want
		}
	}
	tol := tolLarge
	switch {
	case q.size < 10:
		tol = tolSmall
	case q.size < 50:
		tol = tolMedium
	}
	sure := q.target.lo == q.target.hi && q.dist.lo == q.dist.hi
	budget := 0.0
	if sure {
		eff := math.Min(q.target.lo, theory)
		longer := 8.0
		switch u := eff / practical; {
		case u > 1:
			longer = math.Inf(1)
		case u < 0.8:
			longer = 1
		case u < 0.9:
			longer = 2
		case u < 0.95:
			longer = 4
		}
		budget = math.Trunc(math.Min(1000, q.factor*longer))
		what = fmt.Sprintf("%s, target %g, factor %g", what, q.target.lo, q.factor)
		if q.stuck {
			what += ", stuck"
		}
	}
	ctx := ctxName(args[1])
	for _, r := range c.run(it, f, args, nil, st, nil) {
		if r.panicked {
			c.ob("achieved", "no panic", false, r.pos, "an attempt of %s panics: %s", what, r.st.why)
			continue
		}
		s := r.st
		// what happened
		type tick struct {
			kind             string
			coh, dist, phase []*Ev
		}
		ticks := []*tick{{kind: "start"}}
		for _, e := range s.events() {
			cur := ticks[len(ticks)-1]
			switch e.kind {
			case "select":
				se := e.data.(*SelectEv)
				ticks = append(ticks, &tick{kind: happening(se.ins, se.idx, se.chans[se.idx])})
			case "coherence":
				cur.coh = append(cur.coh, e)
			case "distance":
				cur.dist = append(cur.dist, e)
			case "convergence":
				cur.phase = append(cur.phase, e)
			case "newticker":
				n, _ := e.data.(*Num)
				c.ob("interval", "ticker", n != nil && sameLin(s, n.L, interval.L), e.pos, "the swarm is measured every %s", it.show(s, n))
			}
		}
		last := ticks[len(ticks)-1]
		nilErr := errNil(s, it.ret(r, 0)) == 0
		anErr := errNil(s, it.ret(r, 0)) == 2
		isCtx := isCtxErr(it.ret(r, 0), ctx)
		if sure {
			n := float64(len(ticks) - 1)
			c.ob("budget", what, anErr && !isCtx && n == budget && last.kind != seeCancel, r.pos, "%s: an attempt that never succeeds returns %s after %g measurements, expected an error after %g", what, it.show(s, it.ret(r, 0)), n, budget)
			continue
		}
		if last.kind == seeCancel {
			c.ob("cancelled", fmt.Sprintf("%s, %d measurements", what, len(ticks)-2), anErr && isCtx, r.pos, "%s: after cancellation the attempt returns %s", what, it.show(s, it.ret(r, 0)))
		} else {
			c.ob("achieved", what+": result", nilErr, r.pos, "%s: the attempt ends with %s after %d (%s; target %v) although neither cancelled nor out of budget", what, it.show(s, it.ret(r, 0)), len(ticks), last.kind, s.entail(given.L))
			if !nilErr {
				continue
			}
		}
		value := func(e *Ev) *Num { n, _ := e.data.([]Value)[0].(*Num); return n }
		bigger := func(st *State, a *Lin, b float64, k func(st *State, yes bool)) {
			split(it, st, token.GTR, &Num{a, ivTop}, it.constNum(b), k)
		}
		bigger(s, given.L, theory, func(s *State, above bool) {
			eff := given.L
			if above {
				eff = linConst(theory)
			}
			bigger(s, linScale(eff, -1), -practical*0.95, func(s *State, below bool) {
				tol := tol
				if !below {
					tol *= 2
				}
				bigger(s, linScale(eff, -1), -high, func(s *State, low bool) {
					for i, t := range ticks {
						if t.kind != seeTick {
							continue
						}
						// the distance is between what was measured and the effective target
						for _, e := range t.dist {
							a := e.data.([]Value)
							x, y := it.numField(s, it.deref(s, a[1]), "Coherence"), it.numField(s, it.deref(s, a[2]), "Coherence")
							good := x != nil && y != nil && sameLin(s, y.L, eff)
							if good {
								good = false
								for _, m := range t.coh {
									good = good || sameLin(s, x.L, value(m).L)
								}
							}
							c.ob("target", what, good, e.pos, "%s: the distance is taken from %s to %s, the target is %s", what, it.show(s, a[1]), it.show(s, a[2]), eff)
						}
						ended := i == len(ticks)-1 && last.kind == seeTick
						coh, dist, phase := false, false, low
						noCoh, noDist, noPhase := false, false, false
						for _, m := range t.coh {
							d := s.entail(addC(linSub(value(m).L, eff), tol))
							coh = coh || d.lo >= -1e-9
							noCoh = noCoh || d.hi <= 1e-9
						}
						for _, m := range t.dist {
							d := s.entail(value(m).L)
							dist = dist || d.hi <= nearPattern+1e-9
							noDist = noDist || d.lo >= nearPattern-1e-9
						}
						for _, m := range t.phase {
							if a, ok := m.data.([]Value)[2].(*Num); !ok || !eqConst(s, a, 0.75) {
								c.ob("target", what+": phase", false, m.pos, "%s: the convergence is measured towards %s, the target phase is 0.75", what, it.show(s, m.data.([]Value)[2]))
								continue
							}
							d := s.entail(value(m).L)
							phase = phase || d.lo >= phaseGoal-1e-9
							noPhase = noPhase || d.hi <= phaseGoal+1e-9
						}
						if ended {
							c.ob("achieved", what, coh && dist && phase, r.pos, "%s: the attempt succeeds although not shown to be at the target %s: coherence %v, distance %v, phases %v", what, eff, coh, dist, phase)
						} else {
							c.ob("goes on", what, noCoh || noDist || noPhase && !low, r.pos, "%s: the attempt goes on although the target %s may be reached", what, eff)
						}
					}
				})
			})
		})
	}
}

// runsGoal: Run attempts the swarm's goal and returns the result.
func (c *Ctx) runsGoal(run *ssa.Function) {
	it := c.exactInterp(1)
	it.unrollJoin, it.keepHeads = false, true
	it.models[method(swarmPkg, "GoalDirectedSync", "AchieveSynchronization")] = func(k *callCtx) []Outcome {
		r := resultOf(k, "attempt")
		k.st.event("attempt", k.pos, append(append([]Value{}, k.args...), r))
		return []Outcome{{st: k.st, ret: r}}
	}
	st := newState()
	args := lazyArgs(it, run)
	it.pointersSet(st, args[0])
	args[1] = it.force(st, args[1])
	goal := it.typedField(st, it.deref(st, args[0]), corePkg, "State")
	if goal == nil {
		c.missing("the goal of a swarm")
		return
	}
	for _, r := range c.run(it, run, args, nil, st, nil) {
		if r.panicked {
			c.ob("run", "no panic", false, r.pos, "Run can panic")
			continue
		}
		var a []Value
		for _, e := range r.st.events() {
			if e.kind == "attempt" {
				a = e.data.([]Value)
			}
		}
		if a == nil {
			c.ob("run", "attempts", false, r.pos, "Run returns without an attempt")
			continue
		}
		t := it.deref(r.st, a[2])
		same := true
		for _, fl := range []string{"Phase", "Coherence", "Frequency"} {
			x, y := it.numField(r.st, t, fl), it.numField(r.st, goal, fl)
			same = same && x != nil && y != nil && sameLin(r.st, x.L, y.L)
		}
		c.ob("run", "goal", same, r.pos, "Run does not work towards the swarm's goal")
		c.ob("run", "context", strings.Contains(ctxName(a[1]), ctxName(args[1])), r.pos, "Run attempts under %s", ctxName(a[1]))
		c.ob("run", "result", it.show(r.st, it.ret(r, 0)) == it.show(r.st, a[len(a)-1]), r.pos, "Run returns %s, the attempt %s", it.show(r.st, it.ret(r, 0)), it.show(r.st, a[len(a)-1]))
	}
}
