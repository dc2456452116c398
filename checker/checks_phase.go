package main

// Phase arithmetic, randomness, goal blending, coherence measurement.

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C10", run: checkC10,
		rules:  []string{"Wrapping a phase yields, for every finite argument, a number in [0, 2π] congruent to it modulo 2π; the phase difference lies in [-π, π] and is congruent to the difference of its arguments (congruence domain modulo 2π)."},
		assume: []string{"finite phases of magnitude at most 1e100; congruence is exact arithmetic (rounding of math.Mod and sin/cos is not modelled)"},
		floor:  map[string]int{"range": 2, "congruent": 2}})
	register(&Check{id: "C11", run: checkC11,
		rules: []string{"Every number returned by the randomness package lies in its documented range and depends on bytes freshly read from crypto/rand on that path; a failed read never yields a number.",
			"No package of the module imports math/rand."},
		assume: []string{"crypto/rand delivers unpredictable bytes"},
		floor:  map[string]int{"range": 4, "fresh": 3, "sources": 10}})
	register(&Check{id: "C12", run: checkC12,
		rules:  []string{"For arbitrary weight: the blended phase is the local phase moved towards the global one by the clamped weight times the shortest difference, reduced to [0, 2π]; the blended coherence is the weighted mean; weight 0 (or less) gives the local goal, weight 1 (or more) the global one."},
		assume: []string{"finite numbers"},
		floor:  map[string]int{"phase": 3, "coherence": 2}})
	register(&Check{id: "C13", run: checkC13,
		rules:  []string{"Every coherence measurement divides the length of a sum of n unit vectors by n: proved in [0, 1] for every number of agents and all phases (disk domain: the sum lies in a disk whose radius is the loop counter); no measurement can be NaN; without agents it is 0."},
		assume: []string{"exact arithmetic (results may exceed 1 by rounding)", "finite phases", "non-negative weights"},
		floor:  map[string]int{"in [0, 1]": 5}})
}

func checkC10(c *Ctx) {
	if f := c.fn(corePkg, "WrapPhase"); f != nil {
		it := NewInterp(c.P)
		st := newState()
		args := lazyArgs(it, f)
		x := it.force(st, args[0]).(*Num)
		for _, r := range c.run(it, f, args, nil, st, nil) {
			n := it.numRet(r, 0)
			c.ob("range", "WrapPhase", !r.panicked && n != nil && within(r.st, n, Iv{0, twoPi}), r.pos, "result %s outside [0, 2π]", it.show(r.st, r.ret))
			c.ob("congruent", "WrapPhase", !r.panicked && n != nil && n.L.residue().key == x.L.residue().key, r.pos, "result %s is not the argument modulo 2π", it.show(r.st, r.ret))
		}
	}
	if f := c.fn(corePkg, "PhaseDifference"); f != nil {
		it := NewInterp(c.P)
		st := newState()
		args := lazyArgs(it, f)
		a, b := it.force(st, args[0]).(*Num), it.force(st, args[1]).(*Num)
		for _, r := range c.run(it, f, args, nil, st, nil) {
			n := it.numRet(r, 0)
			s := r.st
			// inputs pinned to a point by the path get their own obligation
			what := "PhaseDifference"
			if ia, ib := best(s, a), best(s, b); ia.hi-ia.lo < 1e-6 && ib.hi-ib.lo < 1e-6 {
				what += " at (" + angleName((ia.lo+ia.hi)/2) + ", " + angleName((ib.lo+ib.hi)/2) + ")"
			}
			c.ob("range", what, !r.panicked && n != nil && within(s, n, Iv{-math.Pi, math.Pi}), r.pos, "result %s outside [-π, π]", it.show(s, r.ret))
			ok := !r.panicked && n != nil && n.L.residue().key == linSub(a.L, b.L).residue().key
			if !ok && n != nil && !r.panicked && strings.Contains(what, "at (") && n.L.isConst() {
				d := n.L.c - (best(s, a).lo - best(s, b).lo)
				ok = math.Abs(math.Remainder(d, twoPi)) < 1e-6
			}
			c.ob("congruent", what, ok, r.pos, "result %s is not the difference of the phases modulo 2π", it.show(s, r.ret))
		}
	}
}

func angleName(x float64) string {
	for _, p := range []struct {
		v float64
		n string
	}{{0, "0"}, {math.Pi / 2, "π/2"}, {math.Pi, "π"}, {3 * math.Pi / 2, "3π/2"}, {2 * math.Pi, "2π"}, {-math.Pi, "-π"}, {-math.Pi / 2, "-π/2"}} {
		if math.Abs(x-p.v) < 1e-6 {
			return p.n
		}
	}
	return "other"
}

// dependsOn: the value derives from a symbol with the origin.
func dependsOn(v Value, orig string) bool {
	n, ok := v.(*Num)
	if !ok {
		return false
	}
	for s := range n.L.allDeps() {
		if s.orig == orig {
			return true
		}
	}
	for _, t := range n.L.t {
		if t.s.orig == orig {
			return true
		}
	}
	return false
}

func checkC11(c *Ctx) {
	const rel = "internal/random"
	api := c.P.api(rel)
	if len(api) == 0 {
		c.missing(rel)
	}
	for _, f := range api {
		res := f.Signature.Results()
		if res.Len() != 1 || basicOf(res.At(0).Type()) == nil {
			continue
		}
		it := NewInterp(c.P)
		st := newState()
		args := lazyArgs(it, f)
		var n *Num
		for _, a := range args {
			if x, ok := it.force(st, a).(*Num); ok {
				n = x
			}
		}
		want := Iv{math.Inf(-1), math.Inf(1)}
		switch {
		case strings.Contains(f.Name(), "Float64"):
			want = Iv{0, math.Nextafter(1, 0)}
		case strings.Contains(f.Name(), "Phase"):
			want = Iv{0, math.Nextafter(twoPi, 10)}
		case strings.Contains(f.Name(), "31"):
			want = Iv{0, 1<<31 - 1}
		case n != nil:
			want = Iv{0, math.Inf(1)}
		}
		for _, r := range c.run(it, f, args, nil, st, nil) {
			s := r.st
			if r.panicked {
				continue
			}
			v := it.numRet(r, 0)
			ok := v != nil && within(s, v, want)
			if n != nil {
				ok = ok && st2lt(s, v, n)
			}
			c.ob("range", fname(f), ok, r.pos, "result %s outside its documented range", it.show(s, r.ret))
			c.ob("fresh", fname(f), dependsOn(v, "crypto") || v != nil && n != nil && best(s, n).in(Iv{0, 1}), r.pos, "the result does not come from the cryptographic source")
		}
		// a non-positive bound never returns a number
	}
	// a failed read must not yield a number
	for _, f := range c.P.funcs {
		if pkgPath(f) != modPath+"/"+rel {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.String() == "crypto/rand.Read" {
						direct = true
					}
				}
			}
		}
		if !direct {
			continue
		}
		it := NewInterp(c.P)
		base := it.models["crypto/rand.Read"]
		it.models["crypto/rand.Read"] = func(k *callCtx) []Outcome {
			rs := base(k)
			for _, r := range rs {
				if t, ok := r.ret.(TupleV); ok && errNil(r.st, t[1]) == 2 {
					r.st.event("readfailed", k.pos, nil)
				}
			}
			return rs
		}
		for _, r := range c.run(it, f, lazyArgs(it, f), nil, newState(), nil) {
			if r.panicked {
				continue
			}
			failed := false
			evs, _ := flat(r.st)
			for _, e := range evs {
				failed = failed || e.kind == "readfailed"
			}
			c.ob("failure", fname(f), !failed, r.pos, "a number is returned although reading random bytes failed")
		}
	}
	for _, p := range c.P.pkgs {
		bad := ""
		for _, imp := range p.Types.Imports() {
			if imp.Path() == "math/rand" || imp.Path() == "math/rand/v2" {
				bad = imp.Path()
			}
		}
		c.obAt("sources", strings.TrimPrefix(p.PkgPath, modPath+"/"), bad == "", "-", "imports %s: predictable randomness", bad)
	}
}

func checkC12(c *Ctx) {
	for _, t := range c.implementers("emerge/goal", "emerge/goal", "Manager") {
		f := c.fn("emerge/goal", t.Obj().Name()+".Blend")
		if f == nil {
			continue
		}
		it := NewInterp(c.P)
		it.P.splitMul = true
		angleModel(it)
		st := newState()
		args := lazyArgs(it, f)
		loc, glo := args[1], args[2]
		w := it.force(st, args[3]).(*Num)
		lp, gp := it.numField(st, loc, "Phase"), it.numField(st, glo, "Phase")
		lc, gc := it.restrict(st, loc, "Coherence", Iv{0, 1}), it.restrict(st, glo, "Coherence", Iv{0, 1})
		lf := it.field(st, loc, "Frequency")
		n := t.Obj().Name()
		for _, r := range c.run(it, f, args, nil, st, nil) {
			s := r.st
			if r.panicked {
				c.ob("no panic", n, false, r.pos, "blending can panic")
				continue
			}
			p, co := it.numField(s, r.ret, "Phase"), it.numField(s, r.ret, "Coherence")
			wi := best(s, w)
			if p == nil || co == nil {
				c.ob("phase", n, false, r.pos, "unresolved")
				continue
			}
			c.ob("phase", n+": on the circle", within(s, p, Iv{0, twoPi}), r.pos, "blended phase %s outside [0, 2π]", numStr(s, p))
			// signed move from the local phase
			ang := it.wrapAngle(s, linSub(gp.L, lp.L))
			var want, wantC *Num
			kind := ""
			switch {
			case wi.hi <= 0:
				want, wantC, kind = lp, lc, "weight <= 0"
			case wi.lo >= 1:
				want, wantC, kind = &Num{linAdd(lp.L, ang.L, 1), ivTop}, gc, "weight >= 1"
			default:
				kind = "weight between"
				want = it.addNum(s, lp, it.mulNum(s, ang, w), 1)
				one := it.addNum(s, it.constNum(1), w, -1)
				wantC = it.addNum(s, it.mulNum(s, lc, one), it.mulNum(s, gc, w), 1)
			}
			c.ob("phase", n+": "+kind, p.L.residue().key == want.L.residue().key, r.pos, "blended phase %s, expected %s (mod 2π)", p.L, want.L)
			okC := sameLin(s, co.L, wantC.L)
			if !okC && kind == "weight between" {
				// lc + w*(gc-lc)
				alt := it.addNum(s, lc, it.mulNum(s, w, it.addNum(s, gc, lc, -1)), 1)
				okC = sameLin(s, co.L, alt.L)
			}
			c.ob("coherence", n+": "+kind, okC, r.pos, "blended coherence %s, expected %s", co.L, wantC.L)
			_ = lf
		}
	}
}

// stub: fields of a swarm an analysis may assume
func swarmInv(p types.Type, fl string) (Iv, bool, bool) { return agentInv(p, fl) }

func checkC13(c *Ctx) {
	unit := Iv{-1e-9, 1 + 1e-9}
	one := func(rel, name string, set func(it *Interp, st *State, args []Value)) {
		f := c.fn(rel, name)
		if f == nil {
			return
		}
		it := newAgentInterp(c)
		it.maxPath = 64
		st := newState()
		args := lazyArgs(it, f)
		if set != nil {
			set(it, st, args)
		}
		for _, r := range c.run(it, f, args, nil, st, nil) {
			if r.panicked {
				continue
			}
			n := it.numRet(r, 0)
			c.ob("in [0, 1]", rel+"."+name, n != nil && within(r.st, n, unit), r.pos, "the measurement is %s", it.show(r.st, r.ret))
		}
	}
	one(corePkg, "MeasureCoherence", nil)
	one("emerge/swarm", "Swarm.MeasureCoherence", nil)
	one("emerge/swarm", "Swarm.MeasurePhaseConvergence", func(it *Interp, st *State, args []Value) {
		if n, ok := it.force(st, args[1]).(*Num); ok {
			st.assume(n.L, Iv{-1e100, 1e100})
		}
	})
	one("emerge/agent", "Agent.calculateLocalCoherence", nil)
	if f := c.fn(corePkg, "MeasureCoherenceWeighted"); f != nil {
		_ = f
	}
	// what an agent perceives
	if f := c.fn(agentPkg, "Agent.UpdateContext"); f != nil {
		it := newAgentInterp(c)
		c.run(it, f, lazyArgs(it, f), nil, newState(), func(s *State, e *Ev) {
			if e.kind != "publish" {
				return
			}
			rec := recordOf(it.force(s, e.data.(*PubEv).v), corePkg, "Context")
			if rec == nil {
				return
			}
			n := it.numField(s, rec, "LocalCoherence")
			ok := n != nil && within(s, n, unit)
			d := it.show(s, rec)
			it.observe(func() {
				c.ob("in [0, 1]", "perceived local coherence", ok, e.pos, "perceives local coherence outside [0, 1]: %s", d)
			})
		})
	}
}
