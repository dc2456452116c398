package main

// Autonomy, strategies, decisions, resources, phase arithmetic, randomness.

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const corePkg = "emerge/core"

// restrict assumes a numeric field of an input lies in iv.
func (it *Interp) restrict(st *State, v Value, field string, iv Iv) *Num {
	n := it.numField(st, v, field)
	if n != nil {
		st.assume(n.L, iv)
	}
	return n
}

func strOf(st *State, v Value) (string, bool) {
	s, ok := v.(*StrV)
	if !ok {
		return "", false
	}
	if s.known {
		return s.s, true
	}
	x, ok := st.strEq[s.id]
	return x, ok
}

// implementers: named types of the package whose pointer (or value) has the interface's methods.
func (c *Ctx) implementers(rel string, ifRel, ifName string) []*types.Named {
	it := c.P.typ(ifRel, ifName)
	p := c.P.pkg(rel)
	if it == nil || p == nil {
		c.missing(ifRel + "." + ifName)
		return nil
	}
	u, _ := it.Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range keysSorted(p.Members) {
		t, ok := p.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := t.Type().(*types.Named)
		if !ok || types.IsInterface(nt) || u == nil {
			continue
		}
		if types.Implements(types.NewPointer(nt), u) || types.Implements(nt, u) {
			out = append(out, nt)
		}
	}
	return out
}

func init() {
	register(&Check{id: "C06", run: checkC06,
		rules: []string{"No path of ProposeAdjustment publishes to the agent: proposing never changes it.",
			"A refusal (false) returns a costless 'maintain'; an acceptance returns exactly what the decision maker chose, from options containing the strategy's proposal and 'maintain', at a cost the loaded state's energy covers.",
			"With stubbornness 1, or zero confidence, or zero acceptance there is no accepting path; with stubbornness 0, full confidence and acceptance every affordable choice is accepted."},
		assume: []string{"finite numbers", "the random source yields a number in [0, 1) (proved by the randomness property)"},
		floor:  map[string]int{"accepted": 2, "refused": 1, "never accepts": 3}})
	register(&Check{id: "C07", run: checkC07,
		rules: []string{"For every strategy, any states, and any context in [0, 1]: cost >= 0, confidence in [0, 1], the adjustment lies between zero and the signed shortest difference from the current to the target phase, the type is an executable one, and 'maintain' moves nothing.",
			"Everything that creates a strategy leaves its rate in [0, 1] (threshold not negative); no path indexes the strategy list out of range."},
		assume: []string{"context measurements in [0, 1]", "finite phases", "inner strategies of an adaptive strategy honour the same contract"},
		floor:  map[string]int{"proposal": 15, "rates": 4}})
	register(&Check{id: "C08", run: checkC08,
		rules:  []string{"For 1..3 options with symbolic cost and benefit: the chosen action is one of the options (all fields), no option has a better benefit/max(cost, 0.1) ratio, and the acceptance lies in [0, 1]; with none, 'maintain' is chosen."},
		assume: []string{"finite numbers", "option lists of length 0 to 3 are decided exactly; longer ones by the loop invariant of membership and range"},
		floor:  map[string]int{"chosen": 3, "best": 3, "acceptance": 3}})
	register(&Check{id: "C09", run: checkC09,
		rules: []string{"Every write of the token count leaves it in [0, max]; Request grants min(amount, available) and takes exactly that; Release adds the amount capped at the maximum; non-positive amounts change nothing.",
			"A write computed from a read of the count happens in the same exclusive critical section as the read (or is a compare-and-swap on it), and all writers use the same lock."},
		assume: []string{"finite amounts"},
		floor:  map[string]int{"bounded": 3, "request": 2, "release": 1, "atomic": 2}})
}

func isOption(sig *types.Signature) bool { return isAgentOption(sig) }

func checkC06(c *Ctx) {
	f := c.fn(agentPkg, "Agent.ProposeAdjustment")
	if f == nil {
		return
	}
	type variant struct {
		name       string
		stub       Iv
		conf, acc  Iv
		mustAccept int // 0 any, -1 never, 1 always when affordable
	}
	inf := math.Inf(1)
	_ = inf
	unit := Iv{0, 1}
	for _, v := range []variant{
		{"any", unit, unit, unit, 0},
		{"stubbornness 1", Iv{1, 1}, unit, unit, -1},
		{"confidence 0", unit, Iv{0, 0}, unit, -1},
		{"acceptance 0", unit, unit, Iv{0, 0}, -1},
		{"willing", Iv{0, 0}, Iv{1, 1}, Iv{1, 1}, 1},
	} {
		it := newAgentInterp(c)
		it.maxPath = 120
		base := it.numInv
		it.numInv = func(p types.Type, fl string) (Iv, bool, bool) {
			if fieldIn(p, agentPkg, "BehaviorData") && fl == "Stubbornness" {
				return v.stub, false, true
			}
			return base(p, fl)
		}
		type decided struct {
			opts   Value
			chosen Value
		}
		actT := c.P.typ(corePkg, "Action")
		it.models["iface:("+modPath+"/emerge/core.SyncStrategy).Propose"] = func(k *callCtx) []Outcome {
			a := k.it.force(k.st, k.it.lazy(actT, "proposal", false))
			k.st.event("proposed", k.pos, a)
			return []Outcome{{st: k.st, ret: TupleV{copyV(a), k.it.freshNum("confidence", v.conf, false, false)}}}
		}
		it.models["iface:("+modPath+"/emerge/core.DecisionMaker).Decide"] = func(k *callCtx) []Outcome {
			a := k.it.force(k.st, k.it.lazy(actT, "chosen", false))
			k.st.event("decided", k.pos, &decided{k.args[1], a})
			return []Outcome{{st: k.st, ret: TupleV{copyV(a), k.it.freshNum("acceptance", v.acc, false, false)}}}
		}
		rs := c.run(it, f, lazyArgs(it, f), nil, newState(), nil)
		acc := 0
		for _, r := range rs {
			s := r.st
			if r.panicked {
				continue
			}
			evs, _ := flat(s)
			var prop, chosen Value
			var opts Value
			n := 0
			for _, e := range evs {
				switch d := e.data.(type) {
				case *PubEv:
					it.observe(func() {})
					c.ob("proposing changes nothing", "ProposeAdjustment", d.local, e.pos, "proposing an adjustment writes the agent's state")
				case *decided:
					opts, chosen = d.opts, d.chosen
					n++
				default:
					if e.kind == "proposed" {
						prop = e.data
					}
				}
			}
			b, _ := it.ret(r, 1).(*BoolV)
			d := 2
			if b != nil {
				d = s.decide(b)
			}
			ra := it.ret(r, 0)
			cost := it.numField(s, ra, "Cost")
			val := it.numField(s, ra, "Value")
			switch d {
			case 1:
				acc++
				c.ob("accepted", v.name+": decided", chosen != nil && prop != nil && n == 1, r.pos, "an adjustment is accepted without consulting the strategy and the decision maker once")
				if chosen == nil {
					continue
				}
				same := true
				for _, fn := range fieldNames(actT) {
					same = same && sameValue(s, it.field(s, ra, fn), it.field(s, chosen, fn))
				}
				c.ob("accepted", v.name+": the choice", same, r.pos, "the accepted action is not the one the decision maker chose")
				okE := false
				for _, l := range loadsOf(s) {
					if rec := it.loadedRecord(s, l.v); rec != nil && fieldIn(rec.typ, agentPkg, "StateData") && cost != nil {
						if e := it.numField(s, rec, "Energy"); e != nil && le(s, cost, e) {
							okE = true
						}
					}
				}
				c.ob("accepted", v.name+": affordable", okE, r.pos, "an action is accepted although its cost may exceed the agent's energy")
				// the decision maker saw the proposal and 'maintain'
				hasP, hasM := false, false
				if sl, ok := it.force(s, opts).(*SliceV); ok && sl.o != nil {
					if av, ok := it.content(s, sl.o).(*ArrV); ok {
						for _, e := range av.e {
							e = it.force(s, e)
							eq := prop != nil
							for _, fn := range fieldNames(actT) {
								eq = eq && sameValue(s, it.field(s, e, fn), it.field(s, prop, fn))
							}
							if eq {
								hasP = true
							} else if t, _ := strOf(s, it.field(s, e, "Type")); t == "maintain" {
								hasM = true
							}
						}
					}
				}
				c.ob("accepted", v.name+": offered the proposal", hasP, r.pos, "the decision maker is not offered the strategy's proposal")
				c.ob("accepted", v.name+": offered to maintain", hasM, r.pos, "the decision maker is not offered to leave things as they are")
			case 0:
				t, _ := strOf(s, it.field(s, ra, "Type"))
				c.ob("refused", v.name, t == "maintain" && cost != nil && best(s, cost).in(Iv{0, 0}) && val != nil && best(s, val).in(Iv{0, 0}), r.pos, "a refusal returns an action other than a costless 'maintain'")
				if v.mustAccept == 1 && n > 0 {
					cc := it.numField(s, chosen, "Cost")
					un := false
					for _, l := range loadsOf(s) {
						if rec := it.loadedRecord(s, l.v); rec != nil && fieldIn(rec.typ, agentPkg, "StateData") && cc != nil {
							if e := it.numField(s, rec, "Energy"); e != nil && st2lt(s, e, cc) {
								un = true
							}
						}
					}
					c.ob("always accepts", v.name, un, r.pos, "an agent without stubbornness refuses an affordable choice made with full confidence")
				}
				if v.mustAccept == 1 && n == 0 {
					c.ob("always accepts", v.name, false, r.pos, "an agent without stubbornness refuses without considering the proposal")
				}
			default:
				c.ob("decided", v.name, false, r.pos, "acceptance undetermined")
			}
		}
		switch {
		case v.mustAccept < 0:
			c.ob("never accepts", v.name, acc == 0, f.Pos(), "with %s an adjustment can still be accepted", v.name)
		default:
			c.ob("can accept", v.name, acc > 0, f.Pos(), "no path accepts an adjustment")
		}
	}
}

func copyV(v Value) Value {
	if s, ok := v.(*StructV); ok {
		n := &StructV{typ: s.typ, f: append([]Value(nil), s.f...)}
		return n
	}
	return v
}

// sameValue: equal numbers (as linear forms), strings or identities.
func sameValue(s *State, a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Num:
		y, ok := b.(*Num)
		return ok && sameLin(s, x.L, y.L)
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return false
		}
		if x.known || y.known {
			p, ok1 := strOf(s, x)
			q, ok2 := strOf(s, y)
			return ok1 && ok2 && p == q
		}
		return x.id == y.id
	case *BoolV:
		y, ok := b.(*BoolV)
		return ok && s.decide(x) != 2 && s.decide(x) == s.decide(y)
	}
	return false
}

var actionTypes = map[string]bool{"adjust_phase": true, "phase_nudge": true, "frequency_lock": true, "energy_save": true, "pulse": true, "maintain": true}

// angleModel: core.PhaseDifference as the canonical angle (its own property is checked separately).
func angleModel(it *Interp) {
	it.models[modPath+"/emerge/core.PhaseDifference"] = func(k *callCtx) []Outcome {
		a, ok1 := k.it.force(k.st, k.args[0]).(*Num)
		b, ok2 := k.it.force(k.st, k.args[1]).(*Num)
		if !ok1 || !ok2 {
			return []Outcome{{st: k.st, ret: k.it.freshNum("diff", Iv{-math.Pi, math.Pi}, false, false)}}
		}
		return []Outcome{{st: k.st, ret: k.it.wrapAngle(k.st, linSub(a.L, b.L))}}
	}
}

// anglesFor: symbols among deps that denote the angle d (mod 2π) within [-π, π].
func anglesFor(st *State, v *Num, d *Lin) []*Lin {
	want := d.residue().key
	wneg := linScale(d, -1).residue().key
	var out []*Lin
	seen := map[*Sym]bool{}
	add := func(s *Sym) {
		if seen[s] || s.cong == nil {
			return
		}
		seen[s] = true
		l := linSym(s)
		iv := st.symIv(s)
		if !iv.in(Iv{-math.Pi - 1e-9, math.Pi + 1e-9}) {
			return
		}
		switch l.residue().key {
		case want:
			out = append(out, l)
		case wneg:
			out = append(out, linScale(l, -1))
		}
	}
	for s := range v.L.allDeps() {
		add(s)
	}
	for _, t := range v.L.t {
		add(t.s)
	}
	return out
}

// between0: v lies between 0 and some representative of the angle d.
func between0(it *Interp, st *State, v *Num, d *Lin) bool {
	if best(st, v).in(Iv{0, 0}) {
		return true
	}
	for _, a := range anglesFor(st, v, d) {
		ok := true
		// case split on the sign of the angle
		for _, side := range []Iv{{0, math.Inf(1)}, {math.Inf(-1), 0}} {
			s := st.clone()
			if !s.assume(a, side) {
				continue
			}
			vi := best(s, v)
			diff := s.entail(linSub(v.L, a))
			if side.lo == 0 {
				ok = ok && vi.lo >= -1e-12 && diff.hi <= 1e-9
			} else {
				ok = ok && vi.hi <= 1e-12 && diff.lo >= -1e-9
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func checkC07(c *Ctx) {
	rateOK := func(name string) Iv {
		if strings.Contains(strings.ToLower(name), "threshold") {
			return Iv{0, maxFinite}
		}
		return Iv{0, 1}
	}
	impl := c.implementers("emerge/strategy", corePkg, "SyncStrategy")
	actT := c.P.typ(corePkg, "Action")
	for _, t := range impl {
		f := c.fn("emerge/strategy", t.Obj().Name()+".Propose")
		if f == nil {
			continue
		}
		it := NewInterp(c.P)
		it.maxPath = 200
		it.P.splitMul = true
		angleModel(it)
		it.numInv = func(p types.Type, fl string) (Iv, bool, bool) {
			if fieldIn(p, "emerge/strategy", t.Obj().Name()) {
				return rateOK(fl), false, true
			}
			if fieldIn(p, corePkg, "Context") {
				return Iv{0, 1}, false, true
			}
			return Iv{}, false, false
		}
		st := newState()
		args := lazyArgs(it, f)
		cur, tgt := args[1], args[2]
		cp0, tp0 := it.numField(st, cur, "Phase"), it.numField(st, tgt, "Phase")
		if cp0 == nil || tp0 == nil {
			c.missing("state phases")
			continue
		}
		d := linSub(tp0.L, cp0.L)
		innerTypes := map[int]bool{}
		it.models["iface:("+modPath+"/emerge/core.SyncStrategy).Propose"] = func(k *callCtx) []Outcome {
			// the inner strategy's contract, for the arguments it is given
			a := k.it.force(k.st, k.it.lazy(actT, "inner", false)).(*StructV)
			i1, i2 := k.it.numField(k.st, k.args[0], "Phase"), k.it.numField(k.st, k.args[1], "Phase")
			rate := k.it.freshNum("innerRate", Iv{0, 1}, false, false)
			conf := k.it.freshNum("innerConf", Iv{0, 1}, false, false)
			if ty, ok := k.it.field(k.st, a, "Type").(*StrV); ok {
				innerTypes[ty.id] = true
			}
			k.it.restrict(k.st, a, "Cost", Iv{0, maxFinite})
			var outs []Outcome
			if i1 == nil || i2 == nil {
				return []Outcome{{st: k.st, ret: TupleV{a, conf}}}
			}
			ang := k.it.wrapAngle(k.st, linSub(i2.L, i1.L))
			for _, side := range []Iv{{0, math.Pi}, {-math.Pi, 0}} {
				s := k.st.clone()
				if !s.assume(ang.L, side) {
					continue
				}
				b := copyV(a).(*StructV)
				b.f[fieldIndex(actT, "Value")] = k.it.mulNum(s, ang, rate)
				outs = append(outs, Outcome{st: s, ret: TupleV{b, conf}})
			}
			return outs
		}
		rs := c.run(it, f, args, nil, st, nil)
		n := t.Obj().Name()
		for _, r := range rs {
			s := r.st
			if r.panicked {
				if strings.Contains(n, "Adaptive") && selectorPanic(r) {
					continue
				}
				c.ob("proposal", n+": no panic", false, r.pos, "proposing can panic")
				continue
			}
			a := it.ret(r, 0)
			conf := it.numRet(r, 1)
			val, cost := it.numField(s, a, "Value"), it.numField(s, a, "Cost")
			ty, known := strOf(s, it.field(s, a, "Type"))
			if x, ok := it.field(s, a, "Type").(*StrV); ok && !known && innerTypes[x.id] {
				known, ty = true, "phase_nudge"
			}
			c.ob("proposal", n+": confidence", conf != nil && within(s, conf, Iv{0, 1}), r.pos, "confidence %s outside [0, 1]", it.show(s, it.ret(r, 1)))
			c.ob("proposal", n+": cost", cost != nil && within(s, cost, Iv{0, math.Inf(1)}), r.pos, "cost may be negative: %s", it.show(s, it.field(s, a, "Cost")))
			c.ob("proposal", n+": type", known && actionTypes[ty], r.pos, "proposes an action type that cannot be executed: %q", ty)
			c.ob("proposal", n+": towards the target", val != nil && between0(it, s, val, d), r.pos, "the adjustment %s does not lie between zero and the shortest phase difference to the target", it.show(s, it.field(s, a, "Value")))
			if ty == "maintain" {
				c.ob("proposal", n+": maintain moves nothing", val != nil && best(s, val).in(Iv{0, 0}), r.pos, "'maintain' with a value")
			}
		}
		// every creation keeps the rate in range
		u := structOf(t)
		for i := 0; u != nil && i < u.NumFields(); i++ {
			fl := u.Field(i)
			if !isFloatT(fl.Type()) {
				continue
			}
			c.checkFieldStores("rates", t, fl.Name(), rateOK(fl.Name()))
		}
	}
}

func selectorPanic(r Outcome) bool { return r.st.why == "nil func" }

// checkFieldStores: every store to the field, in any function of the module, is in iv.
func (c *Ctx) checkFieldStores(rule string, t *types.Named, field string, iv Iv) {
	for _, f := range c.P.funcs {
		hit := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if ft, fl, ok := fieldOfAddr(s.Addr); ok && fl == field && types.Identical(deref(ft), t) {
						hit = true
					}
				}
			}
		}
		if !hit {
			continue
		}
		it := newAgentInterp(c)
		it.maxPath = 32
		it.allStores = true
		var binds []Value
		for _, fv := range f.FreeVars {
			binds = append(binds, it.lazy(fv.Type(), fv.Name(), false))
		}
		c.run(it, f, lazyArgs(it, f), binds, newState(), func(s *State, e *Ev) {
			if e.kind != "store" {
				return
			}
			se := e.data.(*StoreEv)
			pt, fl := parentField(se.t.o.typ, se.t.path)
			if pt == nil || fl != field || !types.Identical(deref(pt), t) {
				return
			}
			n, ok := it.force(s, se.v).(*Num)
			good := ok && within(s, n, iv)
			d := it.show(s, se.v)
			pos := e.pos
			it.observe(func() {
				c.ob(rule, t.Obj().Name()+"."+field+" in "+fname(f), good, pos, "stores %s, required %s", d, iv)
			})
		})
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkC08(c *Ctx) {
	f := c.fn("emerge/decision", "SimpleDecisionMaker.Decide")
	if f == nil {
		return
	}
	actT := c.P.typ(corePkg, "Action")
	for n := 0; n <= 3; n++ {
		it := NewInterp(c.P)
		it.maxPath = 1500
		it.unrollPaths = 600
		it.unrollMax = 8
		st := newState()
		args := lazyArgs(it, f)
		av := &ArrV{typ: types.NewArray(actT, int64(n))}
		var opts []*StructV
		var ratio []*Num
		for i := 0; i < n; i++ {
			a := it.force(st, it.lazy(actT, string(rune('a'+i)), false)).(*StructV)
			for j := range a.f {
				a.f[j] = it.force(st, a.f[j])
			}
			opts = append(opts, a)
			av.e = append(av.e, copyV(a))
		}
		o := &Obj{id: it.id(), name: "options", typ: av.typ}
		st.mem[o] = av
		args[2] = &SliceV{o: o, n: it.constNum(float64(n)), cp: it.constNum(float64(n)), nilp: 0, typ: f.Signature.Params().At(1).Type()}
		it.restrict(st, args[1], "Coherence", Iv{0, 1})
		_ = ratio
		rs := c.run(it, f, args, nil, st, nil)
		nm := string(rune('0'+n)) + " options"
		for _, r := range rs {
			s := r.st
			if r.panicked {
				c.ob("chosen", nm+": no panic", false, r.pos, "deciding can panic")
				continue
			}
			act := it.ret(r, 0)
			acc := it.numRet(r, 1)
			c.ob("acceptance", nm, acc != nil && within(s, acc, Iv{0, 1}), r.pos, "acceptance %s outside [0, 1]", it.show(s, it.ret(r, 1)))
			if n == 0 {
				t, _ := strOf(s, it.field(s, act, "Type"))
				cost, val := it.numField(s, act, "Cost"), it.numField(s, act, "Value")
				c.ob("chosen", nm, t == "maintain" && best(s, cost).in(Iv{0, 0}) && best(s, val).in(Iv{0, 0}), r.pos, "with no option the choice is not a costless 'maintain'")
				continue
			}
			which := -1
			for i, a := range opts {
				same := true
				for _, fn := range fieldNames(actT) {
					same = same && sameValue(s, it.field(s, act, fn), it.field(s, a, fn))
				}
				if same {
					which = i
					break
				}
			}
			c.ob("chosen", nm, which >= 0, r.pos, "the chosen action %s is none of the options", it.show(s, act))
			if which < 0 {
				continue
			}
			// in every refinement of the costs around 0.1 the chosen ratio is the best one
			good, why := true, ""
			var rec func(i int, s *State, rr []*Num)
			rec = func(i int, s *State, rr []*Num) {
				if i == n {
					for j := range rr {
						if j != which && !(s.entail(linSub(rr[j].L, rr[which].L)).hi <= 1e-9) {
							good = false
							why = it.show(s, rr[j]) + " vs " + it.show(s, rr[which])
						}
					}
					return
				}
				cost := it.numField(s, opts[i], "Cost")
				ben := it.numField(s, opts[i], "Benefit")
				for _, x := range it.minmax(s.clone(), cost, it.constNum(0.1), true) {
					m := x.ret.(*Num)
					q := it.divNum(x.st, ben, m, token.NoPos)
					rec(i+1, x.st, append(append([]*Num(nil), rr...), q))
				}
			}
			rec(0, s, nil)
			c.ob("best", nm, good, r.pos, "an option with a better benefit/cost ratio is passed over (%s)", why)
		}
	}
}

func checkC09(c *Ctx) {
	const rel = "internal/resource"
	nt := c.P.typ(rel, "TokenManager")
	if nt == nil {
		c.missing("TokenManager")
		return
	}
	maxF, tokF := "", ""
	u := structOf(nt)
	for i := 0; i < u.NumFields(); i++ {
		if isFloatT(u.Field(i).Type()) {
			maxF = u.Field(i).Name()
		}
		if strings.Contains(u.Field(i).Type().String(), "atomic.Float64") {
			tokF = u.Field(i).Name()
		}
	}
	_ = tokF
	if maxF == "" || tokF == "" {
		c.missing("token count and maximum")
		return
	}
	mk := func() *Interp {
		it := NewInterp(c.P)
		it.maxPath = 200
		it.pubLocal = true
		it.numInv = func(p types.Type, fl string) (Iv, bool, bool) {
			if p != nil && fieldIn(p, rel, "TokenManager") && fl == maxF {
				return Iv{0, maxFinite}, false, true
			}
			return Iv{}, false, false
		}
		return it
	}
	lockOf := map[string]string{}
	type pub struct {
		p    *PubEv
		load *LoadEv
		how  string
	}
	var fns []*ssa.Function
	for _, f := range c.P.api(rel) {
		fns = append(fns, f)
	}
	for _, f := range fns {
		it := mk()
		st := newState()
		args := lazyArgs(it, f)
		var amount *Num
		for _, a := range args {
			if n, ok := it.force(st, a).(*Num); ok {
				amount = n
			}
		}
		var mx *Num
		isM := f.Signature.Recv() != nil
		if isM {
			mx = it.numField(st, it.deref(st, args[0]), maxF)
		}
		rs := c.run(it, f, args, nil, st, func(s *State, e *Ev) {
			if e.kind == "aload" && mx != nil {
				// what every write establishes
				l := e.data.(*LoadEv)
				if n, ok := it.force(s, l.v).(*Num); ok {
					s.assume(n.L, Iv{0, maxFinite})
					s.assume(linSub(n.L, mx.L), Iv{math.Inf(-1), 0})
				}
			}
		})
		for _, r := range rs {
			s := r.st
			if r.panicked {
				c.ob("no panic", fname(f), false, r.pos, "can panic")
				continue
			}
			loads := loadsOf(s)
			var pubs []pub
			evs, inl := flat(s)
			for i, e := range evs {
				p, ok := e.data.(*PubEv)
				if !ok {
					continue
				}
				n, isN := it.force(s, p.v).(*Num)
				if !isN {
					continue
				}
				lim := mx
				if lim == nil {
					lim = it.numField(s, it.content(s, p.cell.o), maxF)
				}
				c.ob("bounded", fname(f), within(s, n, Iv{0, math.Inf(1)}) && lim != nil && le(s, n, lim), e.pos, "the token count becomes %s, outside [0, max]", numStr(s, n))
				l, how := numBasis(it, s, p, loads)
				deps := map[int]bool{}
				origOf(p.v, deps)
				if len(deps) > 0 || isM {
					ok := l != nil && !inl[i]
					if len(deps) == 0 {
						// does not depend on what was read: only a reset, must still be ordered with the others
						ok = p.cas || len(heldLocks(p.locks)) > 0
						how = "lock:"
						for k, m := range heldLocks(p.locks) {
							if strings.HasPrefix(m, "2@") {
								how = "lock:" + it.lockName[k]
							}
						}
					}
					c.ob("atomic", fname(f), ok, e.pos, "the token count is rewritten from an earlier read without excluding other writers: tokens can be granted twice or lost")
					lockOf[fname(f)] = how
				}
				pubs = append(pubs, pub{p, l, how})
			}
			switch f.Name() {
			case "NewTokenManager":
				o := it.deref(s, it.ret(r, 0))
				m := it.numField(s, o, maxF)
				a := best(s, amount)
				ok := m != nil && (sameLin(s, m.L, amount.L) && a.lo >= 0 || a.hi <= 0 && best(s, m).in(Iv{0, 0}))
				full := len(pubs) == 1 && m != nil
				if full {
					n := it.force(s, pubs[0].p.v).(*Num)
					full = sameLin(s, n.L, m.L)
				}
				c.ob("created full", fname(f), ok && full, r.pos, "a new manager does not hold exactly max(0, given) tokens")
			case "Request":
				g := it.numRet(r, 0)
				if g == nil {
					c.ob("request", "grant", false, r.pos, "grant unresolved")
					continue
				}
				switch {
				case len(pubs) > 1:
					c.ob("request", "taken once", false, r.pos, "a request changes the count more than once")
				case len(pubs) == 0:
					// nothing taken: nothing may be granted, and that must be right
					c.ob("request", "nothing taken, nothing granted", best(s, g).in(Iv{0, 0}), r.pos, "%s is granted without being taken from the pool", numStr(s, g))
					just := best(s, amount).hi <= 0
					for _, l := range loads {
						if n, ok := it.force(s, l.v).(*Num); ok && best(s, n).hi <= 0 {
							just = true
						}
					}
					c.ob("request", "refused only when empty or not positive", just, r.pos, "a positive request is refused although tokens may be available")
				default:
					n := it.force(s, pubs[0].p.v).(*Num)
					var av *Num
					if pubs[0].load != nil {
						av, _ = it.force(s, pubs[0].load.v).(*Num)
					} else {
						for _, l := range loads {
							av, _ = it.force(s, l.v).(*Num)
						}
					}
					ok := av != nil
					if ok {
						taken := linSub(av.L, n.L)
						c.ob("request", "grant equals what is taken", sameLin(s, taken, g.L), r.pos, "takes %s but grants %s", taken, g.L)
						isMin := sameLin(s, g.L, amount.L) && le(s, amount, av) || sameLin(s, g.L, av.L) && le(s, av, amount) || best(s, amount).hi <= 0 && best(s, g).in(Iv{0, 0})
						c.ob("request", "min(amount, available)", isMin, r.pos, "grants %s for a request of %s with %s available", g.L, amount.L, av.L)
					} else {
						c.ob("request", "grant equals what is taken", false, r.pos, "the new count does not derive from the current one")
					}
				}
			case "Release":
				for _, p := range pubs {
					n := it.force(s, p.p.v).(*Num)
					var av *Num
					if p.load != nil {
						av, _ = it.force(s, p.load.v).(*Num)
					} else {
						for _, l := range loads {
							av, _ = it.force(s, l.v).(*Num)
						}
					}
					ok := false
					if av != nil {
						sum := linAdd(av.L, amount.L, 1)
						ok = sameLin(s, n.L, sum) && best(s, amount).lo >= 0 || sameLin(s, n.L, mx.L) && s.entail(linSub(sum, mx.L)).lo >= -1e-9 || best(s, amount).hi <= 0 && sameLin(s, n.L, av.L)
					}
					c.ob("release", "capped sum", ok, r.pos, "after releasing %s the count is %s", amount.L, numStr(s, n))
				}
				if len(pubs) == 0 {
					c.ob("release", "not ignored", best(s, amount).hi <= 0, r.pos, "a positive release is ignored")
				}
			case "Available":
				g := it.numRet(r, 0)
				ok := false
				for _, l := range loads {
					if n, k := it.force(s, l.v).(*Num); k && g != nil && sameLin(s, n.L, g.L) {
						ok = true
					}
				}
				c.ob("available", fname(f), ok && len(pubs) == 0, r.pos, "does not report the current token count")
			}
		}
	}
	lk := ""
	for _, k := range keysSorted(lockOf) {
		if lk == "" {
			lk = lockOf[k]
		}
		c.obAt("one discipline", k, lockOf[k] == lk, "-", "writers of the token count use different synchronisation (%s vs %s)", lockOf[k], lk)
	}
}

// numBasis: the load a numeric publication replaces atomically.
func numBasis(it *Interp, s *State, p *PubEv, loads loadIndex) (*LoadEv, string) {
	if p.cas {
		e, _ := it.force(s, p.expected).(*Num)
		for _, l := range loads {
			if n, ok := it.force(s, l.v).(*Num); ok && e != nil && l.cell.o == p.cell.o && n.L.key == e.L.key {
				return l, "cas"
			}
		}
		return nil, ""
	}
	deps := map[int]bool{}
	origOf(p.v, deps)
	var best *LoadEv
	how := ""
	for _, l := range loads {
		if l.cell.o != p.cell.o || !samePath(l.cell.path, p.cell.path) {
			continue
		}
		in := ""
		hl, hp := heldLocks(l.locks), heldLocks(p.locks)
		for k, m := range hl {
			if hp[k] == m && strings.HasPrefix(m, "2@") {
				in = "lock:" + it.lockName[k]
			}
		}
		if deps[l.id] && in == "" {
			return nil, ""
		}
		if in != "" && (best == nil || deps[l.id]) {
			best, how = l, in
		}
	}
	return best, how
}
