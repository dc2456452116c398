package main

// The corrections of an attempt: every agent is pulled the short way, or shifted by a little noise.

import (
	"fmt"
	"go/token"
	"math"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C30", run: checkC30,
		rules: []string{"AchieveSynchronization is followed through one measurement of named agents with unknown phases, an unknown coherence, phase variance, target and completed pattern, and with unknown random numbers and configured scales; every phase it sets is compared with the agent's phase and its shortest difference to the target.",
			"An agent far from the target is pulled: at least 0.5 % of the short way and at most twice the difference (so it ends no farther away), give or take 0.6 of the completion's own adjustment; while the swarm is settled this holds for exactly one of every three agents.",
			"Every other change of phase is noise: at most half the configured walk or perturbation, or at most 0.15π while spreading agents out below a low target.",
			"A frequency changes by exactly the completed adjustment and stays positive; with an agent that is pulled, a significant adjustment is applied.",
			"Noise against being stuck moves the configured share of the agents (at least one) by at most half the configured magnitude."},
		assume: []string{"base scale in [0.1, 1], variation range within [0, 0.5], coherence factor in [0, 0.3]", "measurements are the same within one pass"},
		floor:  map[string]int{"phase": 6, "pulled": 3, "frequency": 2, "noise": 2}})
}

type correctCfg struct {
	name      string
	agents    int
	size      int
	coh, vari Iv
	target    Iv
	adj, fadj Iv
	stuck     bool
	atTarget  bool
	share     float64
}

const (
	walkMag, nudgeMag, noiseMag = 0.109375, 0.078125, 0.4375
	farAway                     = 0.13
)

func checkC30(c *Ctx) {
	f := c.fn(swarmPkg, "GoalDirectedSync.AchieveSynchronization")
	nw := c.fn(swarmPkg, "NewGoalDirectedSyncWithConfig")
	if f == nil || nw == nil {
		return
	}
	zero, unit := Iv{0, 0}, Iv{0, 1}
	anyAdj := Iv{-math.Pi, math.Pi}
	for _, n := range []int{1, 30, 200} {
		c.corrections(f, nw, correctCfg{name: "any coherence", agents: 1, size: n, coh: unit, vari: Iv{0, 10}, target: unit, adj: zero, fadj: zero})
	}
	c.corrections(f, nw, correctCfg{name: "any coherence, adjusted", agents: 1, size: 20, coh: unit, vari: Iv{0, 10}, target: unit, adj: anyAdj, fadj: Iv{-1e12, 1e12}})
	c.corrections(f, nw, correctCfg{name: "two agents", agents: 2, size: 2, coh: Iv{0.5, 0.85}, vari: Iv{0, 10}, target: Iv{0.5, 1}, adj: zero, fadj: zero})
	c.corrections(f, nw, correctCfg{name: "settled", agents: 4, size: 4, coh: Iv{0.951, 1}, vari: Iv{0, 0.499}, target: Iv{0.5, 1}, adj: zero, fadj: zero})
	for _, share := range []float64{0.1, 0.5, 1} {
		c.corrections(f, nw, correctCfg{name: fmt.Sprintf("stuck, share %g", share), agents: 3, size: 3, coh: Iv{0.5, 0.5}, vari: Iv{0, 0}, target: Iv{0.9, 0.9}, adj: zero, fadj: zero, stuck: true, atTarget: true, share: share})
	}
}

func (c *Ctx) corrections(f, nw *ssa.Function, q correctCfg) {
	what := fmt.Sprintf("%s, %d agents", q.name, q.size)
	w := c.anAttempt(nw, attemptCfg{size: q.size, agents: q.agents, factor: 100, measure: q.coh, dist: Iv{1, 1}, quiet: true, stuck: q.stuck, config: func(it *Interp, st *State, cfg Value) {
		fresh := func(group, name string, iv Iv) *Num {
			s, ok := it.field(st, cfg, group).(*StructV)
			if !ok {
				return nil
			}
			u := structOf(s.typ)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					s.f[i] = it.freshNum(name, iv, false, false)
					return s.f[i].(*Num)
				}
			}
			return nil
		}
		fresh("Convergence", "BaseAdjustmentScale", Iv{0.1, 1})
		fresh("Variation", "CoherenceFactor", Iv{0, 0.3})
		if s, ok := it.field(st, cfg, "Variation").(*StructV); ok {
			u := structOf(s.typ)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				switch u.Field(i).Name() {
				case "BaseRange":
					lo := it.freshNum("least variation", Iv{0, 0.5}, false, false)
					hi := it.freshNum("largest variation", Iv{0, 0.5}, false, false)
					st.assume(linSub(hi.L, lo.L), Iv{0, 1})
					if a, ok := it.force(st, s.f[i]).(*ArrV); ok && len(a.e) == 2 {
						a.e[0], a.e[1] = lo, hi
						s.f[i] = a
					}
				case "RandomWalkMagnitude":
					s.f[i] = it.constNum(walkMag)
				case "PerturbationMagnitude":
					s.f[i] = it.constNum(nudgeMag)
				case "PerturbationChance":
					s.f[i] = it.constNum(0.25)
				}
			}
		}
		if s, ok := it.field(st, cfg, "Resonance").(*StructV); ok {
			u := structOf(s.typ)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				switch u.Field(i).Name() {
				case "NoiseMagnitude":
					s.f[i] = it.constNum(noiseMag)
				case "AffectedAgents":
					s.f[i] = it.constNum(q.share)
				}
			}
		}
	}})
	if w == nil {
		return
	}
	it, st, m := w.it, w.st, w.it.models
	coh := it.freshNum("coherence", q.coh, false, false)
	vari := it.freshNum("variance", q.vari, false, false)
	same := func(n *Num) Model {
		return func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: n}} }
	}
	m[method(swarmPkg, "Swarm", "MeasureCoherence")] = same(coh)
	m[method(swarmPkg, "Swarm", "MeasurePhaseVariance")] = same(vari)
	adj := it.freshNum("adjustment", q.adj, false, false)
	fadj := it.freshNum("frequency adjustment", q.fadj, false, true)
	if q.adj.lo == q.adj.hi {
		adj = it.constNum(q.adj.lo)
	}
	if q.fadj.lo == q.fadj.hi {
		fadj = it.constNum(q.fadj.lo)
	}
	m[method(donePkg, "CompletedPattern", "GetPhaseAdjustment")] = same(adj)
	m[method(donePkg, "CompletedPattern", "GetFrequencyAdjustment")] = same(fadj)
	rnd := modPath + "/internal/random."
	m[rnd+"Float64"] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: it.freshNum("random", Iv{0, 1}, false, false)}}
	}
	m[rnd+"Phase"] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: it.freshNum("random phase", Iv{0, twoPi}, false, false)}}
	}
	m[rnd+"Intn"] = func(k *callCtx) []Outcome {
		k.st.event("intn", k.pos, k.args[0])
		if q.size > 3 {
			return []Outcome{{st: k.st, ret: it.freshNum("random", Iv{0, float64(q.size - 1)}, false, true)}}
		}
		var out []Outcome
		for i := 0; i < q.size; i++ {
			out = append(out, Outcome{st: k.st.clone(), ret: it.constNum(float64(i))})
		}
		return out
	}
	var phase, freq []*Num
	for i := range w.agents {
		iv := Iv{0, twoPi}
		if q.agents > 2 || i > 0 {
			iv = Iv{0.25, 1.25} // the way round is left to the single agents
		}
		p := it.freshNum(fmt.Sprintf("phase%d", i+1), iv, false, false)
		if q.atTarget {
			p = it.constNum(1)
		}
		phase = append(phase, p)
		freq = append(freq, it.freshNum(fmt.Sprintf("frequency%d", i+1), Iv{1, 1e12}, false, true))
	}
	which := func(v Value) int {
		p, ok := v.(*PtrV)
		for i, a := range w.agents {
			if ok && len(p.ts) == 1 && p.ts[0].o == a.ts[0].o {
				return i
			}
		}
		return -1
	}
	get := func(kind string, base []*Num) Model {
		return func(k *callCtx) []Outcome {
			i := which(it.force(k.st, k.args[0]))
			if i < 0 {
				return []Outcome{{st: k.st, ret: it.freshNum(kind, Iv{0, 1e12}, false, false)}}
			}
			v := base[i]
			for _, e := range k.st.events() {
				if e.kind == kind {
					if a := e.data.([]Value); which(a[0]) == i {
						v, _ = a[1].(*Num)
					}
				}
			}
			return []Outcome{{st: k.st, ret: v}}
		}
	}
	set := func(kind string) Model {
		return func(k *callCtx) []Outcome {
			k.st.event(kind, k.pos, []Value{it.force(k.st, k.args[0]), it.force(k.st, k.args[1])})
			return []Outcome{{st: k.st}}
		}
	}
	ag := func(n string) string { return method("emerge/agent", "Agent", n) }
	m[ag("Phase")], m[ag("SetPhase")] = get("setphase", phase), set("setphase")
	m[ag("Frequency")], m[ag("SetFrequency")] = get("setfreq", freq), set("setfreq")
	args := lazyArgs(it, f)
	args[0] = w.gds
	args[1] = it.nonNil(st, it.force(st, args[1]))
	it.nonNil(st, args[2])
	target := it.freshNum("target coherence", q.target, false, false)
	goal := it.freshNum("target phase", Iv{0, twoPi}, false, false)
	if q.agents > 1 {
		goal = it.freshNum("target phase", Iv{2, 3}, false, false)
	}
	if q.atTarget {
		goal = it.constNum(1)
	}
	it.setField(st, args[2], "Coherence", target)
	it.setField(st, args[2], "Phase", goal)
	it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		i := len(selections(st))
		return func(k int) bool {
			if k < 0 {
				return false
			}
			want := seeCancel
			if i == 0 {
				want = seeTick
			}
			return happening(x, k, chans[k]) == want
		}
	}
	for _, r := range c.run(it, f, args, nil, st, nil) {
		if r.panicked {
			c.ob("phase", "no panic", false, r.pos, "correcting panics (%s): %s", what, r.st.why)
			continue
		}
		s := r.st
		if len(selections(s)) < 2 {
			continue
		}
		sets := make([][]*Ev, len(w.agents))
		fsets := make([][]*Ev, len(w.agents))
		picks := 0
		for _, e := range s.events() {
			switch e.kind {
			case "setphase", "setfreq":
				i := which(e.data.([]Value)[0])
				if i < 0 {
					c.ob("phase", "agents of the swarm", false, e.pos, "a correction of an agent not in the swarm")
				} else if e.kind == "setphase" {
					sets[i] = append(sets[i], e)
				} else {
					fsets[i] = append(fsets[i], e)
				}
			case "intn":
				picks++
				n, _ := e.data.(Value).(*Num)
				c.ob("noise", "among the agents", n != nil && best(s, n).lo >= 1 && best(s, n).hi <= float64(q.size), e.pos, "an agent is picked among %s of %d", it.show(s, n), q.size)
			}
		}
		if q.stuck {
			want := int(math.Max(1, math.Trunc(q.share*float64(q.size))))
			n := 0
			for i := range w.agents {
				prev := phase[i]
				for _, e := range sets[i] {
					n++
					v, _ := e.data.([]Value)[1].(*Num)
					c.ob("noise", "magnitude", v != nil && it.shift(s, v, prev, noiseMag/2), e.pos, "noise moves an agent from %s to %s (%s)", it.show(s, prev), it.show(s, v), what)
					prev = v
				}
			}
			c.ob("noise", what, n == want, r.pos, "noise is added to %d agents, expected %d (%s)", n, want, what)
			continue
		}
		// what is certain about the pass
		yes := func(op token.Token, a *Num, b *Num) func(st *State) int {
			return func(st *State) int { return st.decide(it.cmp(st, op, a, b)) }
		}
		spread1, spread2 := yes(token.LSS, target, it.constNum(0.4)), yes(token.GTR, coh, target)
		spreading := spread1(s) == 1 && spread2(s) == 1
		notSpreading := spread1(s) == 0 || spread2(s) == 0
		settled := yes(token.GTR, coh, it.constNum(0.95))(s) != 0 && yes(token.LSS, vari, it.constNum(0.5))(s) != 0
		pulled := make([]bool, len(w.agents))
		far := make([]bool, len(w.agents))
		for i := range w.agents {
			e := linSub(goal.L, phase[i].L)
			d := it.wrapAngle(s, e).L
			for _, turn := range []float64{0, -twoPi, twoPi} {
				if x := addC(e, turn); s.entail(x).in(Iv{-math.Pi, math.Pi}) {
					d = x
				}
			}
			pos, neg := s.clone(), s.clone()
			far[i] = true // unless certainly near
			if !pos.assume(d, Iv{farAway, math.Inf(1)}) && !neg.assume(d, Iv{math.Inf(-1), -farAway}) {
				far[i] = false
			}
			name := fmt.Sprintf("%s: agent %d", what, i+1)
			if len(sets[i]) == 0 {
				c.ob("frequency", name, len(fsets[i]) == 0 || freqRight(it, s, fsets[i], freq[i], fadj), r.pos, "the frequency of an agent is not changed by the adjustment")
				continue
			}
			last := sets[i][len(sets[i])-1]
			v, _ := last.data.([]Value)[1].(*Num)
			ok := v != nil && len(sets[i]) == 1
			pull, noise, spread := false, false, false
			if ok {
				delta := it.moved(s, v, phase[i])
				pull = delta != nil && it.pulledShort(s, delta, e, d, adj.L)
				noise = it.shift(s, v, phase[i], math.Max(walkMag, nudgeMag)/2)
				spread = spreading && it.shift(s, v, phase[i], 0.15*math.Pi)
			}
			pulled[i] = pull
			c.ob("phase", name, ok && (pull || noise || spread), last.pos, "agent at %s with the target at %s is moved to %s: neither pulled the short way nor a little noise (%s)", it.show(s, phase[i]), it.show(s, goal), it.show(s, v), what)
			c.ob("frequency", name, freqRight(it, s, fsets[i], freq[i], fadj), last.pos, "the frequency of an agent is not changed by the adjustment (%s)", what)
		}
		if notSpreading {
			if !settled {
				for i := range w.agents {
					if far[i] {
						c.ob("pulled", fmt.Sprintf("%s: agent %d", what, i+1), pulled[i], r.pos, "agent %d may be far from the target and is not pulled (%s)", i+1, what)
					}
				}
			} else if len(w.agents) >= 3 {
				for i := 0; i+3 <= len(w.agents); i++ {
					if far[i] && far[i+1] && far[i+2] {
						n := 0
						for _, p := range pulled[i : i+3] {
							if p {
								n++
							}
						}
						c.ob("pulled", what, n == 1, r.pos, "%d of three agents are pulled in a settled swarm, expected one (%s)", n, what)
					}
				}
			}
		}
	}
}

// freqRight: the frequency is set to the old one plus the adjustment, and positive.
func freqRight(it *Interp, s *State, sets []*Ev, old, adj *Num) bool {
	if len(sets) == 0 {
		return true
	}
	v, _ := sets[len(sets)-1].data.([]Value)[1].(*Num)
	return len(sets) == 1 && v != nil && sameLin(s, v.L, linAdd(old.L, adj.L, 1)) && best(s, v).lo >= 1
}

// moved: how far a phase set is from the one before, as written.
func (it *Interp) moved(s *State, v, from *Num) *Lin {
	if v == nil || s.mayNaN(v.L) {
		return nil
	}
	l := v.L
	if u := l.unit(); u != nil && u.cong != nil && !from.L.has(u) {
		l = u.cong
	}
	return linSub(l, from.L)
}

// shift: the phase is moved by at most m.
func (it *Interp) shift(s *State, v, from *Num, m float64) bool {
	d := it.moved(s, v, from)
	if d == nil {
		return false
	}
	s = s.clone()
	s.envelopes(d, 3)
	return s.entail(d).in(Iv{-m - 1e-9, m + 1e-9})
}

// pulledShort: v is between 0.005 and 2 times the shortest difference, give or
// take 0.6 of adj; e is the plain difference and d the shortest one.
func (it *Interp) pulledShort(s *State, v, e, d, adj *Lin) bool {
	kd, ka, rest, ok := parts(s, v, e, d, adj, 8)
	return ok && kd.lo >= 0.005 && kd.hi <= 2 && ka.in(Iv{-0.6, 0.6}) && rest.in(Iv{-1e-6, 1e-6})
}

// parts writes v as kd*d + ka*adj + rest, with intervals for the factors.
func parts(s *State, v, e, d, adj *Lin, depth int) (kd, ka, rest Iv, ok bool) {
	if depth == 0 {
		return
	}
	// the plain difference, a whole turn taken off, is the shortest one where it is within half a turn
	if u := firstShared(v, e); u != 0 {
		for _, turn := range []float64{0, -twoPi, twoPi} {
			x := addC(e, turn)
			if s.entail(x).in(Iv{-math.Pi - 1e-9, math.Pi + 1e-9}) && (turn == 0 || math.Abs(v.c-u*turn) < 1e-6) {
				kd = plus(kd, Iv{u, u})
				v = linAdd(v, x, -u)
				break
			}
		}
	}
	rest = Iv{v.c, v.c}
	au := adj.unit()
	for _, t := range v.t {
		c := Iv{t.c, t.c}
		one := 1.0
		if len(d.t) == 1 {
			one = d.t[0].c
		}
		switch {
		case len(d.t) == 1 && t.s == d.t[0].s:
			kd = plus(kd, Iv{t.c / one, t.c / one})
		case au != nil && t.s == au:
			ka = plus(ka, c)
		case t.s.kind == "mul" && len(t.s.args) == 2:
			done := false
			for i := range t.s.args {
				f := s.entail(t.s.args[1-i])
				d1, a1, r1, ok1 := parts(s, t.s.args[i], e, d, adj, depth-1)
				if ok1 && (d1 != Iv{} || a1 != Iv{}) {
					kd = plus(kd, times(c, times(f, d1)))
					ka = plus(ka, times(c, times(f, a1)))
					rest = plus(rest, times(c, times(f, r1)))
					done = true
					break
				}
			}
			if !done {
				rest = plus(rest, times(c, s.entail(linSym(t.s))))
			}
		default:
			rest = plus(rest, times(c, s.entail(linSym(t.s))))
		}
	}
	return kd, ka, rest, true
}

// firstShared: the factor with which v contains the difference e, 0 if it does not.
func firstShared(v, e *Lin) float64 {
	u := 0.0
	for _, t := range e.t {
		c := 0.0
		for _, x := range v.t {
			if x.s == t.s {
				c = x.c / t.c
			}
		}
		if c == 0 || u != 0 && c != u {
			return 0
		}
		u = c
	}
	return u
}

func plus(a, b Iv) Iv  { r, _ := ivAdd(a, b); return r }
func times(a, b Iv) Iv { r, _ := ivMul(a, b); return r }
