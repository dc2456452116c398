package main

// Patterns: distance, gaps, completion.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const donePkg = "emerge/completion"

func init() {
	register(&Check{id: "C28", run: checkC28,
		rules: []string{"PatternDistance of two unknown patterns is in [0, 1], 0 for a pattern and itself, positive as soon as the phase, the frequency or the coherence differs by more than a given amount, and the largest number for a missing pattern.",
			"IdentifyGaps of two unknown patterns lists, on every path, at most one gap of each kind, exactly the kinds whose documented condition holds there, with the two values compared and a severity in [0, 1] that is the size of the gap on the kind's scale.",
			"CompletePattern with up to two unknown templates, the unchanged current pattern and gaps of unknown size: the template used is the nearest one closer than 0.7; what the completed pattern tells to apply lies between nothing and the way to that template (half the way to the target without one), zero for a kind of gap not listed; nothing passed in is changed.",
			"A waveform completed towards a template lies between the two, sample by sample, and its length is the longer one."},
		assume: []string{"coherences in [0, 1], frequencies (periods) from 0 to 100 days, finite phases", "sin²+cos²=1 style angle facts: PhaseDifference is the canonical angle (proved by the phase property)"},
		floor:  map[string]int{"distance": 5, "gap": 6, "no gap": 3, "severity": 3, "phase": 2, "frequency": 2, "coherence": 2, "waveform": 2, "unchanged": 3}})
}

const longest = 100 * 86400e9

// circleModels: WrapPhase and PhaseDifference by their contracts; an angle already known to be small stays itself.
func circleModels(it *Interp) {
	num := func(k *callCtx, i int) *Num {
		n, ok := k.it.force(k.st, k.args[i]).(*Num)
		if !ok {
			return k.it.freshNum("phase", ivTop, false, false)
		}
		return n
	}
	it.models[modPath+"/emerge/core.PhaseDifference"] = func(k *callCtx) []Outcome {
		d := linSub(num(k, 0).L, num(k, 1).L)
		r := d.residue()
		if k.st.entail(r).in(Iv{-math.Pi, math.Pi}) {
			return []Outcome{{st: k.st, ret: &Num{r, Iv{-math.Pi, math.Pi}}}}
		}
		return []Outcome{{st: k.st, ret: k.it.wrapAngle(k.st, d)}}
	}
	it.models[modPath+"/emerge/core.WrapPhase"] = func(k *callCtx) []Outcome {
		d := num(k, 0).L
		if d.isConst() {
			m := math.Mod(d.c, twoPi)
			if m < 0 {
				m += twoPi
			}
			return []Outcome{{st: k.st, ret: k.it.constNum(m)}}
		}
		n := k.it.consNum(k.st, "circle("+d.key+")", "phase("+d.String()+")", Iv{0, twoPi}, false, d)
		s := n.L.t[0].s
		s.kind = "wrap"
		s.cong = d
		return []Outcome{{st: k.st, ret: n}}
	}
}

// setField gives a field of the structure a pointer refers to a value.
func (it *Interp) setField(st *State, v Value, name string, x Value) {
	s, ok := it.deref(st, v).(*StructV)
	if !ok {
		return
	}
	u := structOf(s.typ)
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			s.f[i] = x
		}
	}
}

// aPattern: an unknown pattern with the documented ranges.
func aPattern(it *Interp, st *State, v Value) {
	v = it.deref(st, it.nonNil(st, v))
	it.restrict(st, v, "Phase", Iv{-1e6, 1e6})
	it.restrict(st, v, "Coherence", Iv{0, 1})
	if n, ok := it.force(st, it.field(st, v, "Frequency")).(*Num); ok {
		st.assume(n.L, Iv{0, longest})
	}
}

func checkC28(c *Ctx) {
	c.patternDistance()
	c.patternGaps()
	c.completion()
}

func (c *Ctx) patternDistance() {
	f := c.fn(corePkg, "PatternDistance")
	if f == nil {
		return
	}
	setup := func() (*Interp, *State, []Value) {
		it := NewInterp(c.P)
		circleModels(it)
		st := newState()
		args := lazyArgs(it, f)
		aPattern(it, st, args[0])
		aPattern(it, st, args[1])
		return it, st, args
	}
	each := func(what string, it *Interp, st *State, args []Value, good func(s *State, n *Num) bool, msg string) {
		for _, r := range c.run(it, f, args, nil, st, nil) {
			if r.panicked {
				c.ob("distance", what, false, r.pos, "the distance panics")
				continue
			}
			n := it.numRet(r, 0)
			c.ob("distance", what, n != nil && !r.st.mayNaN(n.L) && good(r.st, n), r.pos, "%s: %s", msg, it.show(r.st, r.ret))
		}
	}
	it, st, args := setup()
	each("range", it, st, args, func(s *State, n *Num) bool { return within(s, n, Iv{0, 1}) }, "the distance of two patterns is not in [0, 1]")
	it, st, args = setup()
	args[1] = args[0]
	each("itself", it, st, args, func(s *State, n *Num) bool { return eqConst(s, n, 0) }, "the distance of a pattern to itself is not 0")
	for i := 0; i < 2; i++ {
		it, st, args = setup()
		args[i] = &PtrV{nilp: 2, typ: deref(f.Signature.Params().At(i).Type())}
		each(fmt.Sprintf("missing %d", i), it, st, args, func(s *State, n *Num) bool { return best(s, n).lo > 1 }, "a missing pattern is not far")
	}
	for _, kind := range []string{"Phase", "Frequency", "Coherence"} {
		for _, up := range []bool{true, false} {
			it, st, args = setup()
			if kind == "Frequency" {
				it.setField(st, args[1], kind, it.constNum(25e7))
			}
			a, b := it.numField(st, it.deref(st, args[0]), kind), it.numField(st, it.deref(st, args[1]), kind)
			d := linSub(a.L, b.L)
			if !up {
				d = linScale(d, -1)
			}
			switch kind {
			case "Phase":
				st.assume(a.L, Iv{0, 3})
				st.assume(b.L, Iv{0, 3})
				st.assume(d, Iv{0.3, 3})
			case "Frequency":
				st.assume(d, Iv{1e5, math.Inf(1)})
			default:
				st.assume(d, Iv{0.1, 1})
			}
			each(kind, it, st, args, func(s *State, n *Num) bool { return best(s, n).lo > 1e-5 }, "a difference in "+strings.ToLower(kind)+" does not count")
		}
	}
}

type aGap struct{ cur, tgt, sev *Num }

// gapsOf reads a list of gaps of known length.
func (it *Interp) gapsOf(st *State, v Value) (map[string]aGap, string) {
	out := map[string]aGap{}
	sl, ok := it.force(st, v).(*SliceV)
	if !ok {
		return nil, "unknown list"
	}
	if sl.o == nil || sl.nilp == 2 {
		return out, ""
	}
	n := best(st, sl.n)
	if n.lo != n.hi {
		return nil, "list of unknown length"
	}
	arr, ok := it.content(st, sl.o).(*ArrV)
	if !ok || len(arr.e) < sl.lo+int(n.lo) {
		return nil, "unknown list"
	}
	for i := 0; i < int(n.lo); i++ {
		e := arr.e[sl.lo+i]
		k, known := strOf(st, it.field(st, e, "Type"))
		if !known {
			return nil, "gap of unknown kind"
		}
		if _, dup := out[k]; dup {
			return nil, "two gaps of kind " + k
		}
		out[k] = aGap{it.numField(st, e, "Current"), it.numField(st, e, "Target"), it.numField(st, e, "Severity")}
	}
	return out, ""
}

func (c *Ctx) patternGaps() {
	for _, target := range []float64{0, 1, 1e6, 25e7, 36e11, -1} {
		c.gapsFor(target)
	}
}

// gapsFor: the gaps towards a target of the given frequency (-1: unknown).
func (c *Ctx) gapsFor(target float64) {
	f := c.fn(corePkg, "IdentifyGaps")
	if f == nil {
		return
	}
	pat := c.P.typ(corePkg, "TargetPattern")
	it := NewInterp(c.P)
	circleModels(it)
	it.maxPath = 400
	st := newState()
	args := lazyArgs(it, f)
	aPattern(it, st, args[0])
	aPattern(it, st, args[1])
	fl := func(s *State, i int, n string) *Num { return it.numField(s, it.deref(s, args[i]), n) }
	if target >= 0 {
		it.setField(st, args[1], "Frequency", it.constNum(target))
	}
	before := it.snapshot(st, pat, args[:2])
	for _, r := range c.run(it, f, args, nil, st, nil) {
		s := r.st
		if r.panicked {
			c.ob("gap", "no panic", false, r.pos, "looking for gaps panics")
			continue
		}
		got, why := it.gapsOf(s, r.ret)
		if got == nil {
			c.ob("gap", "list", false, r.pos, "%s: %s", why, it.show(s, r.ret))
			continue
		}
		c.ob("unchanged", "IdentifyGaps", it.snapshot(s, pat, args[:2]) == before, r.pos, "looking for gaps changes a pattern")
		for k := range got {
			c.ob("gap", "kinds", k == "phase" || k == "frequency" || k == "coherence", r.pos, "gap of kind %q", k)
		}
		for _, kind := range []string{"phase", "frequency", "coherence"} {
			name := strings.ToUpper(kind[:1]) + kind[1:]
			a, b := fl(s, 0, name), fl(s, 1, name)
			// a gap is there when one of these is positive
			var apart []*Lin
			eps := 1e-9
			switch kind {
			case "phase":
				d := it.wrapAngle(s, linSub(b.L, a.L)).L
				apart = []*Lin{addC(d, -0.1), addC(linScale(d, -1), -0.1)}
			case "frequency":
				eps = 1e-6 * math.Max(target, 1)
				apart = []*Lin{addC(a.L, -1.05*target), addC(linScale(a.L, -1), 0.95*target)}
			default:
				apart = []*Lin{addC(linSub(b.L, a.L), -0.05)}
			}
			g, has := got[kind]
			if has {
				ok := kind == "frequency" && target < 0
				for _, o := range apart {
					ok = ok || s.entail(o).lo >= -eps
				}
				if kind == "frequency" {
					ok = ok && s.entail(a.L).lo > 0 && s.entail(b.L).lo > 0
				}
				c.ob("gap", kind, ok, r.pos, "a %s gap is reported where the values are close: %s and %s", kind, it.show(s, a), it.show(s, b))
				c.ob("gap", kind+": values", g.cur != nil && g.tgt != nil && sameLin(s, g.cur.L, a.L) && sameLin(s, g.tgt.L, b.L), r.pos, "the %s gap does not go from the current value to the target's", kind)
				c.ob("severity", kind, g.sev != nil && !s.mayNaN(g.sev.L) && within(s, g.sev, Iv{0, 1}), r.pos, "the severity of the %s gap is not in [0, 1]: %s", kind, it.show(s, g.sev))
				continue
			}
			if kind == "frequency" && (target < 0 || target == 0 || s.entail(a.L).hi <= 0) {
				continue // nothing to compare, or not with unknown numbers
			}
			none := true
			for _, o := range apart {
				none = none && s.entail(o).hi <= eps
			}
			c.ob("no gap", kind, none, r.pos, "no %s gap is reported although the values may be apart: %s and %s", kind, it.show(s, a), it.show(s, b))
		}
	}
}

func addC(l *Lin, c float64) *Lin { return linAdd(l, linConst(c), 1) }

// snapshot renders everything reachable from the values one level deep.
func (it *Interp) snapshot(st *State, t types.Type, vs []Value) string {
	var b strings.Builder
	for _, v := range vs {
		for _, fl := range fieldNames(t) {
			x := it.force(st, it.field(st, it.deref(st, v), fl))
			if num, ok := x.(*Num); ok {
				fmt.Fprintf(&b, "%s=%s;", fl, num.L.key)
				continue
			}
			fmt.Fprintf(&b, "%s=%s;", fl, it.show(st, x))
		}
	}
	return b.String()
}

func (c *Ctx) completion() {
	nw := c.fn(donePkg, "NewEngine")
	add := c.fn(donePkg, "Engine.AddTemplate")
	complete := c.fn(donePkg, "Engine.CompletePattern")
	ph := c.fn(donePkg, "CompletedPattern.GetPhaseAdjustment")
	fr := c.fn(donePkg, "CompletedPattern.GetFrequencyAdjustment")
	if nw == nil || add == nil || complete == nil || ph == nil || fr == nil {
		return
	}
	pat := c.P.typ(corePkg, "TargetPattern")
	gap := c.P.typ(corePkg, "PatternGap")
	if pat == nil || gap == nil {
		return
	}
	for templates := 0; templates <= 2; templates++ {
		for _, kinds := range [][]string{{}, {"phase"}, {"frequency"}, {"coherence"}, {"phase", "frequency", "coherence"}} {
			c.completionCase(nw, add, complete, ph, fr, pat, gap, templates, kinds)
		}
	}
	for _, q := range [][2]int{{0, 0}, {0, 3}, {3, 0}, {1, 1}, {3, 3}, {2, 4}, {4, 2}, {2, 3}, {5, 2}} {
		c.waveforms(nw, add, complete, pat, gap, q[0], q[1])
	}
}

// envelopes assumes the linear bounds of the products and roundings in l that follow from the ranges of their operands.
func (st *State) envelopes(l *Lin, depth int) {
	if depth == 0 {
		return
	}
	for _, t := range l.t {
		s := t.s
		for _, a := range s.args {
			st.envelopes(a, depth-1)
		}
		switch {
		case s.kind == "mul" && len(s.args) == 2:
			p, q := s.args[0], s.args[1]
			pi, qi := st.entail(p), st.entail(q)
			snap := func(i Iv) Iv { // bounds next to zero
				if i.lo > 0 && i.lo < 1e-12 {
					i.lo = 0
				}
				if i.hi < 0 && i.hi > -1e-12 {
					i.hi = 0
				}
				return i
			}
			pi, qi = snap(pi), snap(qi)
			// m = p*q; (p-u)(q-w) has a known sign for bounds u, w
			put := func(u, w float64, sign float64) {
				if math.IsInf(u, 0) || math.IsInf(w, 0) {
					return
				}
				e := linAdd(linAdd(linSym(s), q, -u), p, -w)
				st.assume(addC(linScale(e, sign), sign*u*w), Iv{0, math.Inf(1)})
			}
			put(pi.lo, qi.lo, 1)
			put(pi.hi, qi.hi, 1)
			put(pi.lo, qi.hi, -1)
			put(pi.hi, qi.lo, -1)
		}
	}
}

// partWay: v lies between 0 and k times d, give or take tol.
func (it *Interp) partWay(st *State, v, d *Lin, k, tol float64) bool {
	ok := true
	// roundings: the number rounded, one more unit of tolerance
	for i := 0; i < 4; i++ {
		for _, t := range v.t {
			if t.s.kind == "trunc" && len(t.s.args) == 1 {
				v = linAdd(linAdd(v, linSym(t.s), -t.c), t.s.args[0], t.c)
				tol += math.Abs(t.c)
				break
			}
		}
	}
	for _, side := range []float64{1, -1} {
		s := st.clone()
		if !s.assume(linScale(d, side), Iv{0, math.Inf(1)}) {
			continue
		}
		x := linScale(v, side)
		s.envelopes(v, 3)
		ok = ok && s.entail(x).lo >= -tol && s.entail(linAdd(x, d, -side*k)).hi <= tol
	}
	return ok
}

func (c *Ctx) completionCase(nw, add, complete, ph, fr *ssa.Function, pat, gap *types.Named, templates int, kinds []string) {
	what := fmt.Sprintf("%d templates, gaps %v", templates, kinds)
	it := c.exactInterp(200)
	it.unrollJoin = false
	circleModels(it)
	st := newState()
	rs := c.run(it, nw, nil, nil, st, nil)
	if len(rs) != 1 || rs[0].panicked {
		c.missing("outcome of NewEngine")
		return
	}
	e, st := it.ret(rs[0], 0), rs[0].st
	obj := func(name string) (Value, *Obj) {
		o := &Obj{id: it.id(), name: name, typ: pat}
		st.mem[o] = it.force(st, it.lazy(pat, name, false))
		v := &PtrV{ts: []PtrT{{o: o}}, typ: pat}
		aPattern(it, st, v)
		return v, o
	}
	cur, curO := obj("current")
	var tpl []Value
	dist := map[*Obj]*Num{}
	var objs []*Obj
	for i := 0; i < templates; i++ {
		v, o := obj(fmt.Sprintf("template%d", i+1))
		rs := c.run(it, add, []Value{e, it.strK(fmt.Sprintf("t%d", i+1)), v}, nil, st, nil)
		if len(rs) != 1 || rs[0].panicked {
			c.missing("outcome of AddTemplate")
			return
		}
		st = rs[0].st
		tpl, objs = append(tpl, v), append(objs, o)
		dist[o] = it.freshNum(fmt.Sprintf("distance%d", i+1), Iv{0, 1}, false, false)
	}
	it.models[modPath+"/emerge/core.PatternDistance"] = func(k *callCtx) []Outcome {
		var o *Obj
		mine := 0
		for _, a := range k.args {
			p, ok := k.it.force(k.st, a).(*PtrV)
			if !ok || len(p.ts) != 1 {
				continue
			}
			if p.ts[0].o == curO {
				mine++
			} else if dist[p.ts[0].o] != nil {
				o = p.ts[0].o
			}
		}
		if o == nil || mine != 1 {
			return []Outcome{{st: k.st, ret: k.it.freshNum("distance", Iv{0, 1}, false, false)}}
		}
		return []Outcome{{st: k.st, ret: dist[o]}}
	}
	var gv []Value
	gaps := map[string]aGap{}
	curS := it.deref(st, cur)
	for _, k := range kinds {
		g := it.force(st, it.lazy(gap, k+" gap", false)).(*StructV)
		name := strings.ToUpper(k[:1]) + k[1:]
		t := it.freshNum(k+" target", Iv{0, 1}, false, false)
		switch k {
		case "phase":
			t = it.freshNum(k+" target", Iv{-1e6, 1e6}, false, false)
		case "frequency":
			t = it.freshNum(k+" target", Iv{0, longest}, false, true)
		}
		w := it.freshNum(k+" severity", Iv{0, 1}, false, false)
		x := aGap{it.numField(st, curS, name), t, w}
		gaps[k] = x
		u := structOf(gap)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Type":
				g.f[i] = it.strK(k)
			case "Current":
				g.f[i] = x.cur
			case "Target":
				g.f[i] = t
			case "Severity":
				g.f[i] = w
			}
		}
		gv = append(gv, g)
	}
	list := it.sliceOf(st, gap, gv)
	before := it.snapshot(st, pat, append([]Value{cur}, tpl...))
	for _, r := range c.run(it, complete, []Value{e, cur, list}, nil, st, nil) {
		if r.panicked {
			c.ob("phase", "no panic", false, r.pos, "completing panics with %s", what)
			continue
		}
		s := r.st
		c.ob("unchanged", "CompletePattern", it.snapshot(s, pat, append([]Value{cur}, tpl...)) == before && it.sameGaps(s, list, gaps), r.pos, "completing changes the current pattern, a template or the gaps (%s)", what)
		done := it.ret(r, 0)
		// the template: nearest one closer than the threshold; several may tie
		var near []int
		for i, o := range objs {
			ok := s.entail(dist[o].L).hi <= 0.7
			for j, p := range objs {
				ok = ok && (j == i || s.entail(dist[p].L).lo >= 0.7 || s.entail(linSub(dist[p].L, dist[o].L)).lo >= 0)
			}
			if ok {
				near = append(near, i)
			}
		}
		none := true
		for _, o := range objs {
			none = none && s.entail(dist[o].L).lo >= 0.7
		}
		if none {
			near = append(near, -1)
		}
		for _, k := range []string{"phase", "frequency"} {
			f := ph
			tol := 1e-6
			if k == "frequency" {
				f, tol = fr, 2
			}
			for _, q := range c.run(it, f, []Value{done}, nil, s.clone(), nil) {
				if q.panicked {
					c.ob(k, "no panic", false, q.pos, "reading the adjustment panics")
					continue
				}
				v := it.numRet(q, 0)
				g, listed := gaps[k]
				if !listed {
					c.ob(k, "no gap", v != nil && eqConst(q.st, v, 0), q.pos, "without a %s gap the adjustment is %s (%s)", k, it.show(q.st, v), what)
					continue
				}
				ok := v != nil && !q.st.mayNaN(v.L)
				if ok {
					ok = false
					for _, i := range near {
						to, share := g.tgt, 0.5
						if i >= 0 {
							name := strings.ToUpper(k[:1]) + k[1:]
							to, share = it.numField(q.st, it.deref(q.st, tpl[i]), name), 1.0
						}
						d := linSub(to.L, g.cur.L)
						if k == "phase" {
							d = it.wrapAngle(q.st, d).L
						}
						ok = ok || it.partWay(q.st, v.L, d, share, tol)
					}
				}
				c.ob(k, "part of the way", ok, q.pos, "the %s adjustment %s is not part of the way to the nearest template (or half the way to the target) with %s", k, it.show(q.st, v), what)
			}
		}
		boost, has := it.filled(s, done, "coherence_boost")
		if g, listed := gaps["coherence"]; listed {
			n, _ := boost.(*Num)
			ok := false
			for _, i := range near {
				if n == nil {
					break
				}
				if i >= 0 {
					t := it.numField(s, it.deref(s, tpl[i]), "Coherence")
					ok = ok || it.partWay(s, n.L, t.L, 1, 1e-9)
				} else {
					ok = ok || it.partWay(s, n.L, linSub(g.tgt.L, g.cur.L), 0.5, 1e-9)
				}
			}
			c.ob("coherence", "boost", ok, r.pos, "the coherence boost %s is more than the gap or the template calls for (%s)", it.show(s, boost), what)
		} else {
			c.ob("coherence", "no gap", !has, r.pos, "a coherence boost without a gap")
		}
	}
}

// filled reads an entry of a completed pattern.
func (it *Interp) filled(st *State, v Value, key string) (Value, bool) {
	m, ok := it.force(st, it.field(st, it.deref(st, v), "Filled")).(*MapV)
	if !ok || m.o == nil {
		return nil, false
	}
	mc, ok := it.content(st, m.o).(*MapC)
	if !ok {
		return nil, false
	}
	e, ok := mc.entries["s:"+key]
	if !ok {
		return nil, false
	}
	x := it.force(st, e[1])
	if i, ok := x.(*IfaceV); ok && len(i.alts) == 1 {
		x = it.force(st, i.alts[0].v)
	}
	return x, true
}

// sameGaps: the list still holds these gaps.
func (it *Interp) sameGaps(st *State, list Value, want map[string]aGap) bool {
	got, _ := it.gapsOf(st, list)
	if got == nil || len(got) != len(want) {
		return false
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok || g.cur == nil || g.tgt == nil || g.sev == nil || !sameLin(st, g.cur.L, w.cur.L) || !sameLin(st, g.tgt.L, w.tgt.L) || !sameLin(st, g.sev.L, w.sev.L) {
			return false
		}
	}
	return true
}

// waveforms: completing a waveform of n samples towards a template of m.
func (c *Ctx) waveforms(nw, add, complete *ssa.Function, pat, gap *types.Named, n, m int) {
	what := fmt.Sprintf("%d samples towards %d", n, m)
	it := c.exactInterp(200)
	it.unrollJoin = false
	circleModels(it)
	it.models[modPath+"/emerge/core.PatternDistance"] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: k.it.constNum(0.1)}}
	}
	st := newState()
	rs := c.run(it, nw, nil, nil, st, nil)
	if len(rs) != 1 || rs[0].panicked {
		return
	}
	e, st := it.ret(rs[0], 0), rs[0].st
	fl := types.Typ[types.Float64]
	mk := func(name string, n int) (Value, []*Num) {
		o := &Obj{id: it.id(), name: name, typ: pat}
		st.mem[o] = it.force(st, it.lazy(pat, name, false))
		v := &PtrV{ts: []PtrT{{o: o}}, typ: pat}
		aPattern(it, st, v)
		var ns []*Num
		var vs []Value
		for i := 0; i < n; i++ {
			x := it.freshNum(fmt.Sprintf("%s[%d]", name, i), Iv{-10, 10}, false, false)
			ns, vs = append(ns, x), append(vs, x)
		}
		it.setField(st, v, "Waveform", it.sliceOf(st, fl, vs))
		return v, ns
	}
	cur, a := mk("current", n)
	tpl, b := mk("template", m)
	rs = c.run(it, add, []Value{e, it.strK("t"), tpl}, nil, st, nil)
	if len(rs) != 1 || rs[0].panicked {
		return
	}
	st = rs[0].st
	w := it.freshNum("severity", Iv{0, 1}, false, false)
	g := it.force(st, it.lazy(gap, "gap", false)).(*StructV)
	u := structOf(gap)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "Type":
			g.f[i] = it.strK("waveform")
		case "Severity":
			g.f[i] = w
		}
	}
	list := it.sliceOf(st, gap, []Value{g})
	samples := func(s *State, v Value) []*Num {
		sl, ok := it.force(s, it.field(s, it.deref(s, v), "Waveform")).(*SliceV)
		if !ok {
			return nil
		}
		return it.numbers(s, sl)
	}
	for _, r := range c.run(it, complete, []Value{e, cur, list}, nil, st, nil) {
		if r.panicked {
			c.ob("waveform", "no panic", false, r.pos, "completing a waveform of %s panics", what)
			continue
		}
		s := r.st
		same := func(v Value, want []*Num) bool {
			got := samples(s, v)
			ok := len(got) == len(want)
			for i := 0; ok && i < len(got); i++ {
				ok = sameLin(s, got[i].L, want[i].L)
			}
			return ok
		}
		c.ob("unchanged", "waveforms", same(cur, a) && same(tpl, b), r.pos, "completing a waveform changes the current one or the template's (%s)", what)
		x, has := it.filled(s, it.ret(r, 0), "waveform")
		if m == 0 {
			c.ob("waveform", "no template", !has, r.pos, "a waveform comes out of nothing")
			continue
		}
		sl, _ := x.(*SliceV)
		got := it.numbers(s, sl)
		long := max(n, m)
		ok := len(got) == long
		j, k := 0, 0
		for i := 0; ok && i < long; i++ {
			if n == 0 {
				ok = sameLin(s, got[i].L, b[i].L)
				continue
			}
			// a blend of one sample of each, in order
			hit := false
			for jj := j; !hit && jj < n; jj++ {
				for kk := k; !hit && kk < m; kk++ {
					up := linSub(b[kk].L, a[jj].L)
					one := it.addNum(s, a[jj], it.mulNum(s, &Num{up, s.entail(up)}, w), 1)
					rest := it.addNum(s, it.constNum(1), w, -1)
					two := it.addNum(s, it.mulNum(s, a[jj], rest), it.mulNum(s, b[kk], w), 1)
					if sameLin(s, got[i].L, one.L) || sameLin(s, got[i].L, two.L) {
						hit, j, k = true, jj, kk
						if i == 0 && (jj != 0 || kk != 0) {
							hit = false
						}
					}
				}
			}
			ok = hit
		}
		if ok && n > 0 {
			ok = j == n-1 && k == m-1
		}
		c.ob("waveform", "blend", ok, r.pos, "completing %s gives %s, not a blend of the two by the severity", what, it.show(s, x))
	}
}

// numbers: the elements of a list of numbers.
func (it *Interp) numbers(st *State, sl *SliceV) []*Num {
	if sl == nil || sl.o == nil {
		return nil
	}
	n := best(st, sl.n)
	arr, ok := it.content(st, sl.o).(*ArrV)
	if !ok || n.lo != n.hi || len(arr.e) < sl.lo+int(n.lo) {
		return nil
	}
	var out []*Num
	for i := 0; i < int(n.lo); i++ {
		x, ok := it.force(st, arr.e[sl.lo+i]).(*Num)
		if !ok {
			return nil
		}
		out = append(out, x)
	}
	return out
}
