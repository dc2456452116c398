package main

// The continuous run: it recovers exactly when it must and stops only when told.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C27", run: checkC27,
		rules: []string{"RunContinuous is followed along every order of checks and attempt ends with up to two checks (three with given thresholds; one more in the thorough tier), followed by cancellation, with unknown measurements, an unknown goal and an unknown clock. The thresholds are the documented defaults for every goal, or given ones.",
			"At each check an attempt is started exactly when none is running, more than the minimum interval has passed since the last one began, and the measured coherence is below the minimum viable one, below the accepted share of the target, fell from the recent peak by more than the large share (or by more than the small one while below the target), or fell by more than the small share since the previous check.",
			"It begins with one attempt; every attempt works towards the swarm's goal under a context of its own derived from the caller's and reports its end; the run returns only when the context is done, and then its error; the check interval is the configured one.",
			"The default thresholds: see the recovery rules of the scale property; those given as an option are used unchanged."},
		assume: []string{"measurements lie in [0, 1] (proved by the coherence property)", "a run longer than the schedules explored goes on like them"},
		floor:  map[string]int{"recovers": 2, "leaves alone": 4, "begins": 2, "returns": 2, "attempt": 2, "interval": 2, "option": 1}})
}

func (c *Ctx) constVal(rel, name string) (float64, bool) {
	p := c.P.pkg(rel)
	if p == nil {
		return 0, false
	}
	k, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		c.missing(rel + "." + name)
		return 0, false
	}
	f, _ := constant.Float64Val(constant.ToFloat(k.Val()))
	return f, true
}

const (
	seeTick   = "check"
	seeEnd    = "attempt ends"
	seeCancel = "cancelled"
)

// happening: which of the three a select case waits for.
func happening(x *ssa.Select, i int, ch Value) string {
	if i < 0 {
		return ""
	}
	if o, ok := ch.(*OpaqueV); ok && strings.HasPrefix(o.name, "done:") {
		return seeCancel
	}
	if ct, ok := x.States[i].Chan.Type().Underlying().(*types.Chan); ok {
		if n, ok := ct.Elem().(*types.Named); ok && n.Obj().Name() == "Time" {
			return seeTick
		}
	}
	return seeEnd
}

func selections(st *State) []*SelectEv {
	var r []*SelectEv
	for _, e := range st.events() {
		if e.kind == "select" {
			r = append(r, e.data.(*SelectEv))
		}
	}
	return r
}

// clockModels: time passes only while waiting.
func clockModels(it *Interp) {
	var T []*Num
	at := func(st *State, k int) *Num {
		for len(T) <= k {
			T = append(T, it.freshNum(fmt.Sprintf("time%d", len(T)), Iv{0, 1e17}, false, true))
		}
		for i := 1; i <= k; i++ {
			st.assume(linSub(T[i].L, T[i-1].L), Iv{0, math.Inf(1)})
		}
		return T[k]
	}
	now := func(st *State) int {
		n := 0
		for e := st.ev; e != nil; e = e.prev {
			if e.kind == "select" {
				n++
			}
		}
		return n
	}
	moment := func(v Value) (int, bool) {
		o, ok := v.(*OpaqueV)
		k := 0
		if !ok {
			return 0, false
		}
		n, err := fmt.Sscanf(o.name, "now:%d", &k)
		return k, n == 1 && err == nil
	}
	m := it.models
	m["time.Now"] = func(c *callCtx) []Outcome {
		return []Outcome{{st: c.st, ret: &OpaqueV{typ: c.sig.Results().At(0).Type(), id: it.id(), name: fmt.Sprintf("now:%d", now(c.st))}}}
	}
	diff := func(c *callCtx, a, b int) []Outcome {
		x, y := at(c.st, a), at(c.st, b)
		return []Outcome{{st: c.st, ret: &Num{linSub(x.L, y.L), Iv{-1e17, 1e17}}}}
	}
	m["time.Since"] = func(c *callCtx) []Outcome {
		if k, ok := moment(c.args[0]); ok {
			return diff(c, now(c.st), k)
		}
		return []Outcome{{st: c.st, ret: it.freshNum("since", Iv{0, 1e17}, false, true)}}
	}
	m["(time.Time).Sub"] = func(c *callCtx) []Outcome {
		a, ok1 := moment(c.args[0])
		b, ok2 := moment(c.args[1])
		if ok1 && ok2 {
			return diff(c, a, b)
		}
		return []Outcome{{st: c.st, ret: it.freshNum("sub", Iv{-1e17, 1e17}, false, true)}}
	}
	it.clockAt = at
}

func checkC27(c *Ctx) {
	run := c.fn(swarmPkg, "Swarm.RunContinuous")
	def := c.fn(swarmPkg, "DefaultRecoveryConfig")
	with := c.fn(swarmPkg, "WithRecoveryConfig")
	if run == nil || def == nil || with == nil {
		return
	}
	decay, ok1 := c.constVal(swarmPkg, "PeakCoherenceDecayRate")
	gap, ok2 := c.constVal(swarmPkg, "MinResyncInterval")
	if !ok1 || !ok2 {
		return
	}
	checks, long := 2, 3
	if c.tier == "thorough" {
		checks, long = 3, 4
	}
	// every order of checks and ends, an attempt ending at most once between two checks
	var gen func(s []string, n int, do func(s []string))
	gen = func(s []string, n int, do func(s []string)) {
		if n == 0 {
			do(append([]string{}, s...))
			if len(s) == 0 || s[len(s)-1] == seeTick {
				do(append(append([]string{}, s...), seeEnd))
			}
			return
		}
		gen(append(append([]string{}, s...), seeTick), n-1, do)
		if len(s) == 0 || s[len(s)-1] == seeTick {
			gen(append(append([]string{}, s...), seeEnd, seeTick), n-1, do)
		}
	}
	n := 0
	for k := 0; k <= checks; k++ {
		gen(nil, k, func(s []string) {
			n++
			c.continuous(run, def, s, false, Iv{0, 1}, decay, gap)
			c.continuous(run, def, s, true, Iv{0, 1}, decay, gap)
		})
	}
	for k := checks + 1; k <= long; k++ {
		gen(nil, k, func(s []string) { n++; c.continuous(run, def, s, true, Iv{0, 1}, decay, gap) })
	}
	c.extra["schedules"] = n
	c.recoveryOption(with)
}

// pointersSet: the object's pointers refer to something.
func (it *Interp) pointersSet(st *State, v Value) {
	s, ok := it.deref(st, it.nonNil(st, v)).(*StructV)
	if !ok {
		return
	}
	for i := range s.f {
		if u := structOf(s.typ); u != nil {
			if _, isP := u.Field(i).Type().Underlying().(*types.Pointer); isP {
				it.nonNil(st, it.field(st, s, u.Field(i).Name()))
			}
		}
	}
}

type contStep struct {
	what    string
	coh     *Num
	started bool
	sel     *SelectEv
}

func (c *Ctx) continuous(run, def *ssa.Function, script []string, given bool, goals Iv, decay, gap float64) {
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 100000, 400000
	clockModels(it)
	meas := func(k *callCtx) []Outcome {
		n := it.freshNum("measured", Iv{0, 1}, false, false)
		k.st.event("measured", k.pos, n)
		return []Outcome{{st: k.st, ret: n}}
	}
	it.models["(*"+modPath+"/"+swarmPkg+".Swarm).MeasureCoherence"] = meas
	it.models["(*"+modPath+"/"+swarmPkg+".GoalDirectedSync).AchieveSynchronization"] = func(k *callCtx) []Outcome {
		k.st.event("attempt", k.pos, append([]Value{}, k.args...))
		return []Outcome{{st: k.st, ret: resultOf(k, "attempt")}}
	}
	it.models["(*"+modPath+"/emerge/convergence.Monitor).Reset"] = func(k *callCtx) []Outcome { return []Outcome{{st: k.st}} }
	it.models["(*"+modPath+"/emerge/monitoring.ConvergenceMonitor).Reset"] = it.models["(*"+modPath+"/emerge/convergence.Monitor).Reset"]
	it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		i := len(selections(st))
		return func(k int) bool {
			if k < 0 {
				return false
			}
			if i >= len(script) {
				return happening(x, k, chans[k]) == seeCancel
			}
			if happening(x, k, chans[k]) != script[i] {
				return false
			}
			if script[i] == seeEnd { // an attempt ends once
				for _, s := range selections(st) {
					if happening(s.ins, s.idx, s.chans[s.idx]) == seeEnd && s.chans[s.idx] == chans[k] {
						return false
					}
				}
			}
			return true
		}
	}
	st := newState()
	args := lazyArgs(it, run)
	it.pointersSet(st, args[0])
	args[len(args)-1] = it.force(st, args[len(args)-1])
	sw := it.deref(st, args[0])
	goal := it.typedField(st, sw, corePkg, "State")
	rec := it.typedField(st, sw, swarmPkg, "RecoveryConfig")
	if goal == nil || rec == nil {
		c.missing("the goal and the recovery configuration of a swarm")
		return
	}
	target := it.restrict(st, goal, "Coherence", goals)
	set := func(f string, v float64) {
		if n := it.numField(st, rec, f); n != nil {
			st.assume(n.L, Iv{v, v})
		}
	}
	name := "defaults"
	if given {
		name = "given thresholds"
		set("MinimumViableCoherence", 0.25)
		set("TargetMarginRatio", 0.75)
		set("SmallDropRatio", 0.0625)
		set("LargeDropRatio", 0.25)
		it.restrict(st, rec, "StuckThreshold", Iv{0, 100})
		it.restrict(st, rec, "CheckInterval", Iv{1, 1e15})
	} else {
		set("CheckInterval", 0)
	}
	goFn := func(e *Ev) *FuncV {
		v, ok := e.data.([]Value)
		if !ok || len(v) == 0 {
			return nil
		}
		f, _ := v[0].(*FuncV)
		return f
	}
	for _, r := range c.run(it, run, args, nil, st, nil) {
		if r.panicked {
			c.ob("no panic", "RunContinuous", false, r.pos, "RunContinuous can panic")
			continue
		}
		h := strings.Join(script, ", ")
		// what happened
		var first *Num
		steps := []*contStep{{what: "start"}}
		var gos []*Ev
		for _, e := range r.st.events() {
			cur := steps[len(steps)-1]
			switch e.kind {
			case "measured":
				if first == nil && len(steps) == 1 {
					first = e.data.(*Num)
				}
				if cur.coh == nil {
					cur.coh = e.data.(*Num)
				}
			case "select":
				se := e.data.(*SelectEv)
				steps = append(steps, &contStep{what: happening(se.ins, se.idx, se.chans[se.idx]), sel: se})
			case "go":
				cur.started = true
				gos = append(gos, e)
			case "newticker":
				n, _ := e.data.(*Num)
				now := it.typedField(r.st, it.deref(r.st, args[0]), swarmPkg, "RecoveryConfig")
				iv := it.numField(r.st, now, "CheckInterval")
				c.ob("interval", name, n != nil && iv != nil && sameLin(r.st, n.L, iv.L), e.pos, "checks come every %s", it.show(r.st, n))
			}
		}
		last := steps[len(steps)-1]
		c.ob("returns", name, last.what == seeCancel && errNil(r.st, it.ret(r, 0)) == 2 && isCtxErr(it.ret(r, 0), ctxName(args[len(args)-1])), r.pos, "along %s: the run returns %s after %s", h, it.show(r.st, it.ret(r, 0)), last.what)
		c.ob("begins", name, steps[0].started && len(steps) > 1, r.pos, "the run does not begin with an attempt")
		if !steps[0].started {
			continue
		}
		// the effective thresholds
		now := it.typedField(r.st, it.deref(r.st, args[0]), swarmPkg, "RecoveryConfig")
		th := func(f string) float64 {
			n := it.numField(r.st, now, f)
			if n == nil {
				return math.NaN()
			}
			b := best(r.st, n)
			if b.lo != b.hi {
				return math.NaN()
			}
			return b.lo
		}
		minV, marg, small, large := th("MinimumViableCoherence"), th("TargetMarginRatio"), th("SmallDropRatio"), th("LargeDropRatio")
		if math.IsNaN(minV + marg + small + large) {
			c.ob("recovers", name, false, r.pos, "the thresholds in use are not the configured ones")
			continue
		}
		// what should have happened, at the last check
		judged := 0
		for i, s := range steps {
			if s.what == seeTick {
				judged = i
			}
		}
		zero := it.constNum(0)
		var walk func(st *State, i int, last, peak *Num, active bool, begun int)
		walk = func(st *State, i int, prev, peak *Num, active bool, begun int) {
			if i == len(steps) {
				return
			}
			s := steps[i]
			if s.what == seeCancel {
				c.ob("leaves alone", name+", cancelled", !s.started, r.pos, "an attempt is started after cancellation")
				return
			}
			if s.what == seeEnd {
				c.ob("leaves alone", name+", attempt ends", !s.started, r.pos, "along %s: an attempt is started when one ends", h)
				walk(st, i+1, prev, peak, false, begun)
				return
			}
			if s.coh == nil {
				c.ob("recovers", name, false, r.pos, "along %s: a check does not measure the coherence", h)
				return
			}
			v := s.coh
			lin := func(l *Lin) *Num { return &Num{l, Iv{math.Inf(-1), math.Inf(1)}} }
			gt := func(st *State, a, b *Lin, k func(st *State, yes bool)) {
				split(it, st, token.GTR, lin(a), lin(b), k)
			}
			gt(st, v.L, peak.L, func(st *State, higher bool) {
				p := lin(linScale(peak.L, decay))
				if higher {
					p = v
				}
				follow := func(st *State) {
					if s.started {
						walk(st, i+1, v, v, true, i)
					} else {
						walk(st, i+1, v, p, active, begun)
					}
				}
				if i != judged {
					follow(st) // judged by a shorter schedule
					return
				}
				if active {
					c.ob("leaves alone", name+", attempt running", !s.started, r.pos, "along %s, check %d: an attempt is started while one is running", h, i)
					return
				}
				finish := func(st *State, want bool, why string) {
					elapsed := linSub(it.clockAt(st, i).L, it.clockAt(st, begun).L)
					gt(st, elapsed, linConst(gap), func(st *State, due bool) {
						want := want && due
						rule := "leaves alone"
						if want {
							rule = "recovers"
						}
						c.ob(rule, name, s.started == want, r.pos, "along %s, check %d: measured %s after %s with peak %s, due: %v, %s: an attempt is started: %v", h, i, it.show(st, v), it.show(st, prev), it.show(st, p), due, why, s.started)
					})
				}
				gt(st, linConst(minV), v.L, func(st *State, b bool) {
					if b {
						finish(st, true, "below the minimum")
						return
					}
					gt(st, linScale(target.L, marg), v.L, func(st *State, b bool) {
						if b {
							finish(st, true, "below the margin")
							return
						}
						drop := linSub(p.L, v.L)
						gt(st, drop, linScale(p.L, large), func(st *State, b bool) {
							if b {
								finish(st, true, "large drop")
								return
							}
							gt(st, drop, linScale(p.L, small), func(st *State, b1 bool) {
								gt(st, target.L, v.L, func(st *State, b2 bool) {
									if b1 && b2 {
										finish(st, true, "small drop below the target")
										return
									}
									gt(st, linScale(prev.L, 1-small), v.L, func(st *State, b bool) {
										finish(st, b, "sudden drop")
									})
								})
							})
						})
					})
				})
			})
		}
		if first == nil {
			first = zero
		}
		walk(r.st, 1, first, zero, true, 0)
		// the attempts
		for gi, g := range gos {
			f := goFn(g)
			if f == nil {
				c.ob("attempt", name, false, g.pos, "an attempt is not a known function")
				continue
			}
			tv, _ := g.data.([]Value)[1].(TupleV)
			it.onSelect = nil
			c.attempt(it, name, run, f, []Value(tv), r.st, g, steps, gi, args, goal)
		}
	}
}

func split(it *Interp, st *State, op token.Token, a, b *Num, k func(st *State, yes bool)) {
	cond := it.cmp(st, op, a, b)
	d := st.decide(cond)
	if d != 0 {
		s := st.clone()
		if d == 1 || s.assumeBool(cond, true) {
			k(s, true)
		}
	}
	if d != 1 {
		s := st.clone()
		if d == 0 || s.assumeBool(cond, false) {
			k(s, false)
		}
	}
}

func isCtxErr(v Value, ctx string) bool {
	i, ok := v.(*IfaceV)
	if !ok || len(i.alts) == 0 {
		return false
	}
	for _, a := range i.alts {
		e, ok := a.v.(*ErrV)
		if !ok || e.desc != "ctx.Err:"+ctx {
			return false
		}
	}
	return true
}

// attempt: a goroutine the run starts synchronizes towards the goal and reports its end.
func (c *Ctx) attempt(it *Interp, name string, run *ssa.Function, f *FuncV, args []Value, st *State, g *Ev, steps []*contStep, gi int, runArgs []Value, goal Value) {
	var sig *types.Signature
	if len(f.alts) == 1 {
		sig = f.alts[0].fn.Signature
	}
	if sig == nil {
		c.ob("attempt", name, false, g.pos, "an attempt is not a known function")
		return
	}
	before := st.ev
	rs := c.exec(it, "attempt", nil, func() []Outcome { return it.CallFunc(st.clone(), f, args, sig, g.pos) })
	for _, r := range rs {
		n, reported := 0, Value(nil)
		for e := r.st.ev; e != nil && e != before; e = e.prev {
			switch e.kind {
			case "attempt":
				n++
				a := e.data.([]Value)
				ctx := ctxName(a[1])
				t := it.deref(r.st, a[2])
				same := true
				for _, fl := range []string{"Phase", "Coherence", "Frequency"} {
					x, y := it.numField(r.st, t, fl), it.numField(r.st, goal, fl)
					same = same && x != nil && y != nil && sameLin(r.st, x.L, y.L)
				}
				c.ob("attempt", name+", goal", same, e.pos, "an attempt does not work towards the swarm's goal")
				c.ob("attempt", name+", context", strings.HasPrefix(ctx, "child(") && strings.Contains(ctx, ctxName(runArgs[len(runArgs)-1])), e.pos, "an attempt runs under %s", ctx)
			case "send", "close":
				reported, _ = e.data.(Value)
			}
		}
		c.ob("attempt", name+", synchronizes", n == 1 && !r.panicked, g.pos, "an attempt synchronizes %d times", n)
		// the channel the run waits on from then until the next attempt
		seen := 0
		for _, s := range steps {
			if s.sel != nil && seen == gi+1 {
				good := false
				for k, ch := range s.sel.chans {
					good = good || happening(s.sel.ins, k, ch) == seeEnd && ch == reported
				}
				c.ob("attempt", name+", reports", good, g.pos, "the run does not wait for the end of the attempt it started")
			}
			if s.started {
				seen++
			}
		}
	}
}

// recoveryOption: thresholds given as an option are used unchanged.
func (c *Ctx) recoveryOption(with *ssa.Function) {
	it := c.exactInterp(1)
	st := newState()
	args := lazyArgs(it, with)
	rs := c.run(it, with, args, nil, st, nil)
	for _, r := range rs {
		f, ok := it.ret(r, 0).(*FuncV)
		if !ok || len(f.alts) != 1 {
			c.missing("WithRecoveryConfig as an option")
			return
		}
		fn := f.alts[0].fn
		a := lazyArgs(it, fn)
		it.nonNil(r.st, a[0])
		for _, o := range c.run(it, fn, a, f.alts[0].binds, r.st, nil) {
			got := it.typedField(o.st, it.deref(o.st, a[0]), swarmPkg, "RecoveryConfig")
			want := it.force(o.st, args[0])
			ws, ok := want.(*StructV)
			good := ok && !o.panicked && errNil(o.st, it.ret(o, 0)) != 2
			for i := 0; good && i < len(ws.f); i++ {
				n := structOf(ws.typ).Field(i).Name()
				x, y := it.numField(o.st, got, n), it.numField(o.st, ws, n)
				good = x != nil && y != nil && sameLin(o.st, x.L, y.L)
			}
			c.ob("option", "WithRecoveryConfig", good, o.pos, "the thresholds given are not the ones stored")
		}
	}
}
