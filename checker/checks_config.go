package main

// Configuration: validation, normalisation, presets, limits.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C14", run: checkC14,
		rules: []string{"Validate returns an error on every path when any one documented range is violated, whatever the other fields, and nil on every path when all hold.",
			"NormalizeAndValidate: a nil result leaves every field in its range; for a size of at least 1 within the configured maximum the result is always nil; fields of a valid configuration are unchanged (automatic batch parameters aside).",
			"AutoScaleConfig and ForBatching are valid (after normalisation) for every size from 1 to their own maximum; the fixed presets are valid for the sizes they are meant for."},
		assume: []string{"finite field values", "maps with known entries are analysed in insertion order and in its reverse"},
		floor:  map[string]int{"rejects": 18, "accepts": 1, "normalised": 15, "preset": 4}})
	register(&Check{id: "C15", run: checkC15,
		rules: []string{"For every goal, every trait (or none) and every size, the tuned and sized configuration passes Validate, in either order of tuning and sizing.",
			"Validate returns an error on every path when one of its documented ranges is violated and nil when all hold."},
		assume: []string{"finite field values"},
		floor:  map[string]int{"preset": 2, "rejects": 13, "accepts": 1}})
	register(&Check{id: "C16", run: checkC16,
		rules: []string{"0 <= Recommended <= Practical <= Theoretical <= 1 for every size; all three never decrease as a swarm of at least two agents grows.",
			"The convergence time factor is at least 1, never decreases with the target, and is infinite exactly when the target exceeds the practical limit; the minimum size never decreases with the target; an adjusted target never exceeds the request or the theoretical limit.",
			"Recovery thresholds: ratios in (0, 1], the small drop below the large one, and never looser for a higher target."},
		assume: []string{"finite targets"},
		floor:  map[string]int{"ordered": 2, "monotone": 5, "factor": 2, "capped": 1, "warned": 1, "recovery": 11}})
}

func init() {
	register(&Check{id: "C17", run: checkC17,
		rules: []string{"FromCount never decreases as the count grows, and maps each category's default agent count back to that category.",
			"For each category: the default target is in (0, 1] and at most the recommended limit for its default agent count, which reaches it in finite expected time; neighbors lie between 1 and the count minus one; intervals and the time factor are positive.",
			"Larger categories: more agents, lower or equal targets, intervals and time factors that never shrink."},
		floor: map[string]int{"monotone": 5, "round trip": 1, "reachable": 2, "range": 6}})
}

func checkC17(c *Ctx) {
	const pk = "emerge/scale"
	from := c.fn(pk, "FromCount")
	names := []string{"DefaultAgentCount", "DefaultTargetCoherence", "DefaultUpdateIntervalMs", "DefaultConvergenceTimeFactor", "MaxNeighbors", "UpdateInterval"}
	fs := map[string]*ssa.Function{}
	for _, n := range names {
		fs[n] = c.fn(pk, "Size."+n)
	}
	lim, fac := c.fn(swarmPkg, "GetCoherenceLimits"), c.fn(swarmPkg, "GetConvergenceTimeFactor")
	sizes := c.P.consts(pk, "Size")
	if from == nil || lim == nil || fac == nil || len(sizes) == 0 {
		return
	}
	for _, f := range fs {
		if f == nil {
			return
		}
	}
	it := NewInterp(c.P)
	it.maxPath = 1000
	// counts
	st := newState()
	a := it.freshNum("count", Iv{-1e15, 1e15}, false, true)
	c.eachRun(it, from, []Value{a}, st, "FromCount", func(r Outcome) {
		x := it.numRet(r, 0)
		c.ob("range", "FromCount", best(r.st, x).lo >= sizes[0].v && best(r.st, x).hi <= sizes[len(sizes)-1].v, r.pos, "category %s for count %s", it.show(r.st, x), it.show(r.st, a))
		b := it.freshNum("larger count", Iv{-1e15, 1e15}, false, true)
		if !r.st.assume(linSub(b.L, a.L), Iv{0, 1e16}) {
			return
		}
		c.eachRun(it, from, []Value{b}, r.st, "FromCount", func(q Outcome) {
			y := it.numRet(q, 0)
			c.ob("monotone", "FromCount", le(q.st, x, y), q.pos, "count %s is category %s, count %s is category %s", it.show(q.st, a), it.show(q.st, x), it.show(q.st, b), it.show(q.st, y))
		})
	})
	type row map[string]Iv
	var rows []row
	for _, sz := range sizes {
		rw := row{}
		for _, n := range names {
			iv := ivEmpty
			c.eachRun(it, fs[n], []Value{it.constNum(sz.v)}, newState(), n, func(r Outcome) {
				iv = iv.join(best(r.st, it.numRet(r, 0)))
			})
			rw[n] = iv
		}
		rows = append(rows, rw)
		cnt, tgt := rw["DefaultAgentCount"], rw["DefaultTargetCoherence"]
		pos := fs["DefaultAgentCount"].Pos()
		c.eachRun(it, from, []Value{it.constNum(cnt.lo)}, newState(), "FromCount", func(r Outcome) {
			c.ob("round trip", sz.name, cnt.isConst() && eqConst(r.st, it.numRet(r, 0), sz.v), pos, "%g agents, the default of %s, are not %s", cnt.lo, sz.name, sz.name)
		})
		c.eachRun(it, lim, []Value{it.constNum(cnt.lo)}, newState(), "GetCoherenceLimits", func(r Outcome) {
			m := it.numField(r.st, it.ret(r, 0), "Recommended")
			c.ob("reachable", sz.name+": target within the recommended limit", m != nil && tgt.lo > 0 && tgt.hi <= best(r.st, m).lo, fs["DefaultTargetCoherence"].Pos(), "default target %g of %s (%g agents) exceeds the recommended limit %s", tgt.hi, sz.name, cnt.lo, it.show(r.st, m))
		})
		c.eachRun(it, fac, []Value{it.constNum(cnt.lo), it.constNum(tgt.hi)}, newState(), "GetConvergenceTimeFactor", func(r Outcome) {
			c.ob("reachable", sz.name+": finite time factor", best(r.st, it.numRet(r, 0)).hi < 1e300, fs["DefaultTargetCoherence"].Pos(), "infinite convergence time factor")
		})
		c.ob("range", sz.name+" MaxNeighbors", rw["MaxNeighbors"].lo >= 1 && rw["MaxNeighbors"].hi <= cnt.lo-1, fs["MaxNeighbors"].Pos(), "%v neighbors for %g agents", rw["MaxNeighbors"], cnt.lo)
		for _, n := range []string{"DefaultUpdateIntervalMs", "UpdateInterval"} {
			c.ob("range", sz.name+" "+n, rw[n].lo > 0, fs[n].Pos(), "interval %v", rw[n])
		}
		c.ob("range", sz.name+" DefaultConvergenceTimeFactor", rw["DefaultConvergenceTimeFactor"].lo >= 1, fs["DefaultConvergenceTimeFactor"].Pos(), "factor %v", rw["DefaultConvergenceTimeFactor"])
	}
	for i := 1; i < len(rows); i++ {
		for _, n := range names {
			p, q := rows[i-1][n], rows[i][n]
			ok := true
			switch n {
			case "DefaultAgentCount":
				ok = p.hi < q.lo
			case "DefaultTargetCoherence":
				ok = p.lo >= q.hi
			case "MaxNeighbors":
				continue
			default:
				ok = p.hi <= q.lo
			}
			c.ob("monotone", n, ok, fs[n].Pos(), "%s: %v for %s, %v for %s", n, p, sizes[i-1].name, q, sizes[i].name)
		}
	}
	// an unknown category still gets usable values
	unk := it.freshNum("unknown category", Iv{sizes[len(sizes)-1].v + 1, 1e15}, false, true)
	for _, n := range names {
		c.eachRun(it, fs[n], []Value{unk}, newState(), n, func(r Outcome) {
			c.ob("range", "unknown category: "+n, best(r.st, it.numRet(r, 0)).lo > 0, r.pos, "%s for an unknown category", it.show(r.st, it.numRet(r, 0)))
		})
	}
}

type namedConst struct {
	name string
	v    float64
}

// consts: the integer constants declared with a named type, by value.
func (P *Program) consts(rel, typ string) []namedConst {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	var out []namedConst
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		nt, ok := k.Type().(*types.Named)
		if !ok || nt.Obj().Name() != typ || nt.Obj().Pkg() != p.Pkg {
			continue
		}
		v, _ := constant.Float64Val(constant.ToFloat(k.Val()))
		out = append(out, namedConst{n, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].v < out[j].v })
	return out
}

const cfgPkg = "internal/config"

type rangeCond struct {
	name string
	// bad: assumptions (one per way of violating), each adds to the state
	bad  []func(it *Interp, st *State, cfg Value, size *Num)
	good func(it *Interp, st *State, cfg Value, size *Num)
	ok   func(it *Interp, st *State, cfg Value, size *Num) bool
}

const hugeN = 9.3e18

// fieldRange: the field lies in [lo, hi] (strict: lo excluded).
func fieldRange(f string, lo, hi float64, strict, integer bool) rangeCond {
	sLo := lo
	if strict {
		if integer {
			sLo = lo + 1
		} else {
			sLo = 1e-12
		}
	}
	rc := rangeCond{name: f}
	below := lo - 1e-12
	if integer {
		below = lo - 1
	}
	if strict {
		below = lo
	}
	rc.bad = append(rc.bad, func(it *Interp, st *State, cfg Value, _ *Num) {
		it.restrict(st, cfg, f, Iv{-maxFinite, below})
	})
	if hi < 1e17 {
		rc.bad = append(rc.bad, func(it *Interp, st *State, cfg Value, _ *Num) {
			it.restrict(st, cfg, f, Iv{hi + 1e-12, maxFinite})
		})
	}
	rc.good = func(it *Interp, st *State, cfg Value, _ *Num) {
		it.restrict(st, cfg, f, Iv{sLo, math.Min(hi, maxFinite)})
	}
	rc.ok = func(it *Interp, st *State, cfg Value, _ *Num) bool {
		n := it.numField(st, cfg, f)
		if n == nil {
			return false
		}
		b := best(st, n)
		if strict {
			return st.strictlyAbove(n, lo) && b.hi <= math.Max(hi, maxFinite)
		}
		return b.lo >= lo && b.hi <= hi
	}
	return rc
}

// strictlyAbove: n > c is known.
func (s *State) strictlyAbove(n *Num, c float64) bool {
	if s.iv(n).lo > c {
		return true
	}
	return s.entail(n.L).lo > c
}

func swarmConds() []rangeCond {
	var out []rangeCond
	for _, f := range []string{"ConnectionProbability", "CouplingStrength", "Stubbornness", "BasinStrength", "BaseConfidence", "InfluenceDefault"} {
		out = append(out, fieldRange(f, 0, 1, false, false))
	}
	for _, f := range []string{"InitialEnergy", "BasinWidth"} {
		out = append(out, fieldRange(f, 0, 1e18, true, false))
	}
	for _, f := range []string{"AgentUpdateInterval", "MonitoringInterval"} {
		out = append(out, fieldRange(f, 0, 1e19, true, true))
	}
	for _, f := range []string{"MaxConcurrentAgents", "BatchSize", "WorkerPoolSize", "ConnectionOptimThreshold"} {
		out = append(out, fieldRange(f, 0, 1e19, false, true))
	}
	diff := func(it *Interp, st *State, cfg Value, a, b string, size *Num, k float64) *Lin {
		x := it.numField(st, cfg, a)
		var y *Lin
		if b == "" {
			y = size.L
		} else {
			y = it.numField(st, cfg, b).L
		}
		return linAdd(linSub(x.L, y), linConst(k), 1)
	}
	rel := func(name, a, b string, k float64) rangeCond { // a - b + k <= 0
		return rangeCond{name: name,
			bad: []func(*Interp, *State, Value, *Num){func(it *Interp, st *State, cfg Value, size *Num) {
				st.assume(diff(it, st, cfg, a, b, size, k), Iv{1, hugeN * 2})
			}},
			good: func(it *Interp, st *State, cfg Value, size *Num) {
				st.assume(diff(it, st, cfg, a, b, size, k), Iv{-hugeN * 2, 0})
			},
			ok: func(it *Interp, st *State, cfg Value, size *Num) bool {
				return leL(st, diff(it, st, cfg, a, b, size, k))
			}}
	}
	out = append(out, fieldRange("MinNeighbors", 0, 1e19, false, true), rel("MinNeighbors <= MaxNeighbors", "MinNeighbors", "MaxNeighbors", 0), rel("MaxNeighbors < size", "MaxNeighbors", "", 1))
	return out
}

// configRun runs a method on a symbolic configuration and size, in both map orders.
func (c *Ctx) configRun(rel, name string, set func(it *Interp, st *State, cfg Value, size *Num), each func(it *Interp, r Outcome, ptr, cfg Value, size *Num)) {
	f := c.fn(rel, name)
	if f == nil {
		return
	}
	for order := 1; order <= 2; order++ {
		it := NewInterp(c.P)
		it.mapOrder, it.unrollJoin, it.unrollPaths, it.maxPath, it.unrollMax = order, true, 2, 8, 16
		st := newState()
		args := lazyArgs(it, f)
		ptr := it.nonNil(st, args[0])
		args[0] = ptr
		cfg := it.deref(st, ptr)
		var size *Num
		if len(args) > 1 {
			size, _ = it.force(st, args[1]).(*Num)
			if size != nil {
				st.assume(size.L, Iv{-1e15, 1e15})
			}
		}
		for _, fl := range []string{"MinNeighbors", "MaxNeighbors", "MaxSwarmSize"} {
			if n := it.numField(st, cfg, fl); n != nil {
				st.assume(n.L, Iv{-1e15, 1e15})
			}
		}
		if set != nil {
			set(it, st, cfg, size)
		}
		if st.conflict {
			continue // the case is empty
		}
		before := copyV(cfg)
		for _, r := range c.run(it, f, args, nil, st, nil) {
			each(it, r, before, it.deref(r.st, ptr), size)
		}
	}
}

// nonNil: the pointer argument, assumed not nil.
func (it *Interp) nonNil(st *State, v Value) Value {
	v = it.force(st, v)
	if p, ok := v.(*PtrV); ok && p.id != 0 {
		st.nilK[p.id] = 0
	}
	return v
}

func sizeBad(lo, hi float64) func(it *Interp, st *State, cfg Value, size *Num) {
	return func(it *Interp, st *State, cfg Value, size *Num) { st.assume(size.L, Iv{lo, hi}) }
}

func checkC14(c *Ctx) {
	conds := swarmConds()
	// soundness: one violated range is enough
	reject := func(what string, set func(it *Interp, st *State, cfg Value, size *Num)) {
		c.configRun(cfgPkg, "Swarm.Validate", set, func(it *Interp, r Outcome, _, _ Value, _ *Num) {
			c.ob("rejects", what, !r.panicked && errNil(r.st, it.ret(r, 0)) == 2, r.pos, "a configuration violating %s can be accepted", what)
		})
	}
	for _, rc := range conds {
		for i, b := range rc.bad {
			name := rc.name
			if len(rc.bad) > 1 {
				name += []string{" too small", " too large"}[i]
			}
			reject(name, b)
		}
	}
	reject("size not positive", sizeBad(-1e15, 0))
	reject("size above the configured maximum", aboveMax)
	reject("no neighbors in a multi-agent swarm", func(it *Interp, st *State, cfg Value, size *Num) {
		st.assume(size.L, Iv{2, 1e15})
		it.restrict(st, cfg, "MaxNeighbors", Iv{-1e15, 0})
	})
	allGood := func(single, limited bool) func(it *Interp, st *State, cfg Value, size *Num) {
		return func(it *Interp, st *State, cfg Value, size *Num) {
			for _, rc := range conds {
				rc.good(it, st, cfg, size)
			}
			if single {
				st.assume(size.L, Iv{1, 1})
				it.restrict(st, cfg, "MaxNeighbors", Iv{0, 0})
			} else {
				st.assume(size.L, Iv{2, 1e15})
				it.restrict(st, cfg, "MaxNeighbors", Iv{1, 1e15})
			}
			okSize(it, st, cfg, size, limited)
		}
	}
	for _, single := range []bool{true, false} {
		for _, limited := range []bool{true, false} {
			nm := fmt.Sprintf("valid configuration (single agent %v, size limit %v)", single, limited)
			c.configRun(cfgPkg, "Swarm.Validate", allGood(single, limited), func(it *Interp, r Outcome, _, _ Value, _ *Num) {
				c.ob("accepts", nm, !r.panicked && errNil(r.st, it.ret(r, 0)) == 0, r.pos, "a configuration within all ranges can be rejected")
			})
			// normalisation leaves a valid configuration alone
			c.configRun(cfgPkg, "Swarm.NormalizeAndValidate", allGood(single, limited), func(it *Interp, r Outcome, before, after Value, _ *Num) {
				c.ob("accepts", "NormalizeAndValidate: "+nm, !r.panicked && errNil(r.st, it.ret(r, 0)) == 0, r.pos, "a valid configuration can be rejected")
				b, a := before.(*StructV), after.(*StructV)
				u := structOf(b.typ)
				for i := 0; i < u.NumFields(); i++ {
					fl := u.Field(i).Name()
					if fl == "BatchSize" || fl == "WorkerPoolSize" {
						continue
					}
					same := sameValue(r.st, it.force(r.st, b.f[i]), it.force(r.st, a.f[i]))
					if x, ok := it.force(r.st, b.f[i]).(*Num); ok && !same {
						if y, ok := it.force(r.st, a.f[i]).(*Num); ok {
							d := r.st.entail(linSub(x.L, y.L))
							same = d.lo >= -1e-12 && d.hi <= 1e-12
							if bx, by := best(r.st, x), best(r.st, y); bx == by && bx.lo == bx.hi {
								same = true
							}
						}
					}
					c.ob("unchanged", "NormalizeAndValidate: "+fl, same, r.pos, "normalising changes %s of a valid configuration: %s becomes %s", fl, it.show(r.st, b.f[i]), it.show(r.st, a.f[i]))
				}
			})
		}
	}
	// normalisation repairs everything else; the neighbor limits and the size
	// are split into the cases that decide how they are repaired
	for _, limited := range []bool{true, false} {
		for _, cs := range neighborCases() {
			c.configRun(cfgPkg, "Swarm.NormalizeAndValidate", func(it *Interp, st *State, cfg Value, size *Num) {
				cs(it, st, cfg, size)
				okSize(it, st, cfg, size, limited)
			}, func(it *Interp, r Outcome, _, after Value, size *Num) {
				c.ob("repairs", "NormalizeAndValidate", !r.panicked && errNil(r.st, it.ret(r, 0)) == 0, r.pos, "a configuration for a valid size can be rejected after normalisation")
				if r.panicked || errNil(r.st, it.ret(r, 0)) == 2 {
					return
				}
				for _, rc := range conds {
					c.ob("normalised", rc.name, rc.ok(it, r.st, after, size), r.pos, "accepted although %s may be violated: %s", rc.name, it.show(r.st, it.field(r.st, after, strings.Fields(rc.name)[0])))
				}
			})
		}
	}
	// a size that is not positive or above the maximum is never accepted
	never := func(what string, set func(it *Interp, st *State, cfg Value, size *Num)) {
		c.configRun(cfgPkg, "Swarm.NormalizeAndValidate", set, func(it *Interp, r Outcome, _, _ Value, _ *Num) {
			c.ob("rejects", "NormalizeAndValidate: "+what, !r.panicked && errNil(r.st, it.ret(r, 0)) == 2, r.pos, "%s can be accepted", what)
		})
	}
	never("size not positive", sizeBad(-1e15, 0))
	never("size above the configured maximum", aboveMax)
	// presets
	c.presets(conds)
}

func aboveMax(it *Interp, st *State, cfg Value, size *Num) {
	m := it.restrict(st, cfg, "MaxSwarmSize", Iv{1, 1e15})
	st.assume(linSub(size.L, m.L), Iv{1, 1e16})
}

// neighborCases: an exhaustive split of (size >= 1, MaxNeighbors, MinNeighbors).
func neighborCases() []func(it *Interp, st *State, cfg Value, size *Num) {
	var out []func(it *Interp, st *State, cfg Value, size *Num)
	for sz := 0; sz < 2; sz++ {
		for mx := 0; mx < 3; mx++ {
			for mn := 0; mn < 3; mn++ {
				sz, mx, mn := sz, mx, mn
				out = append(out, func(it *Interp, st *State, cfg Value, size *Num) {
					st.assume(size.L, []Iv{{1, 1}, {2, 1e15}}[sz])
					x := it.numField(st, cfg, "MaxNeighbors")
					y := it.numField(st, cfg, "MinNeighbors")
					lim := linAdd(size.L, linConst(1), -1)
					var eff *Lin
					switch mx {
					case 0:
						st.assume(x.L, Iv{-1e15, 0})
						eff = linConst(float64(sz))
					case 1:
						st.assume(x.L, Iv{1, 1e15})
						st.assume(linSub(x.L, lim), Iv{-1e16, 0})
						eff = x.L
					case 2:
						st.assume(linSub(x.L, lim), Iv{1, 1e16})
						st.assume(x.L, Iv{1, 1e15})
						eff = lim
					}
					switch mn {
					case 0:
						st.assume(y.L, Iv{-1e15, -1})
					case 1:
						st.assume(y.L, Iv{0, 1e15})
						st.assume(linSub(y.L, eff), Iv{-1e16, 0})
					case 2:
						st.assume(y.L, Iv{0, 1e15})
						st.assume(linSub(y.L, eff), Iv{1, 1e16})
					}
				})
			}
		}
	}
	return out
}

func okSize(it *Interp, st *State, cfg Value, size *Num, limited bool) {
	if limited {
		m := it.restrict(st, cfg, "MaxSwarmSize", Iv{1, 1e15})
		st.assume(linSub(size.L, m.L), Iv{-1e16, 0})
	} else {
		it.restrict(st, cfg, "MaxSwarmSize", Iv{-1e15, 0})
	}
}

func (c *Ctx) presets(conds []rangeCond) {
	ctors := []struct {
		name string
		lo   float64
		hi   float64
		norm bool
	}{{"AutoScaleConfig", 1, 1e6, false}, {"ForBatching", 1, 1e6, true}, {"DefaultConfig", 100, 1e6, false}, {"SmallSwarmConfig", 1, 19, true}, {"MediumSwarmConfig", 20, 99, false}}
	for _, p := range ctors {
		f := c.fn(cfgPkg, p.name)
		norm := c.fn(cfgPkg, "Swarm.NormalizeAndValidate")
		val := c.fn(cfgPkg, "Swarm.Validate")
		if f == nil || norm == nil || val == nil {
			continue
		}
		for k := 1; k < len(sizeSplits); k++ {
			lo, hi := math.Max(sizeSplits[k-1], p.lo), math.Min(sizeSplits[k]-1, p.hi)
			if lo <= hi {
				c.preset(p.name, f, norm, val, p.norm, lo, hi)
			}
		}
	}
}

// sizeSplits: the sizes are analysed range by range (all of them together cover every size).
var sizeSplits = []float64{1, 2, 3, 10, 20, 31, 100, 101, 1000, 1e6 + 1}

func (c *Ctx) preset(name string, f, norm, val *ssa.Function, useNorm bool, lo, hi float64) {
	it := NewInterp(c.P)
	it.mapOrder, it.unrollJoin, it.unrollPaths, it.maxPath, it.unrollMax = 1, true, 6, 40, 16
	st := newState()
	args := lazyArgs(it, f)
	var size *Num
	if len(args) > 0 {
		size, _ = it.force(st, args[0]).(*Num)
	} else {
		size = it.freshNum("size", ivTop, false, true)
	}
	st.assume(size.L, Iv{lo, hi})
	for _, r := range c.run(it, f, args, nil, st, nil) {
		if r.panicked {
			c.ob("preset", name, false, r.pos, "can panic")
			continue
		}
		cfgV, ok := it.ret(r, 0).(*StructV)
		if !ok {
			c.ob("preset", name, false, r.pos, "unresolved")
			continue
		}
		o := &Obj{id: it.id(), name: "cfg", typ: cfgV.typ}
		r.st.mem[o] = cfgV
		check := val
		if useNorm {
			check = norm
		}
		ptr := &PtrV{ts: []PtrT{{o: o}}}
		for _, q := range c.run(it, check, []Value{ptr, size}, nil, r.st, nil) {
			c.ob("preset", name, !q.panicked && errNil(q.st, it.ret(q, 0)) == 0, r.pos, "the preset is rejected for some size in [%g, %g]: %s", lo, hi, it.show(q.st, size))
		}
	}
}

const swarmPkg = "emerge/swarm"

func syncConds() []rangeCond {
	var out []rangeCond
	for _, f := range []string{"Convergence.BaseAdjustmentScale", "Convergence.PhaseConvergenceGoal", "Variation.PerturbationChance", "Resonance.AffectedAgents", "Resonance.ActivationRate"} {
		out = append(out, fieldRange(f, 0, 1, false, false))
	}
	for _, f := range []string{"Strategy.UpdateInterval", "Strategy.ExplorationTimeWindow"} {
		out = append(out, fieldRange(f, 0, 1e19, true, true))
	}
	for i := 0; i < 2; i++ {
		rc := fieldRange(fmt.Sprintf("Variation.BaseRange[%d]", i), 0, 1e18, false, false)
		out = append(out, rc)
	}
	rel := func(name, a, b string) rangeCond { // a <= b
		d := func(it *Interp, st *State, cfg Value) *Lin {
			return linSub(it.numField(st, cfg, a).L, it.numField(st, cfg, b).L)
		}
		return rangeCond{name: name,
			bad: []func(*Interp, *State, Value, *Num){func(it *Interp, st *State, cfg Value, _ *Num) {
				st.assume(d(it, st, cfg), Iv{1e-12, math.Inf(1)})
			}},
			good: func(it *Interp, st *State, cfg Value, _ *Num) {
				st.assume(d(it, st, cfg), Iv{math.Inf(-1), 0})
			},
			ok: func(it *Interp, st *State, cfg Value, _ *Num) bool { return leL(st, d(it, st, cfg)) }}
	}
	return append(out, rel("ModerateCoherence <= HighCoherence", "Thresholds.ModerateCoherence", "Thresholds.HighCoherence"),
		rel("HighCoherence <= VeryHighCoherence", "Thresholds.HighCoherence", "Thresholds.VeryHighCoherence"),
		rel("BaseRange[0] <= BaseRange[1]", "Variation.BaseRange[0]", "Variation.BaseRange[1]"))
}

func checkC15(c *Ctx) {
	conds := syncConds()
	finite := func(it *Interp, st *State, cfg Value) bool {
		for _, rc := range conds {
			n := rc.name
			if i := strings.Index(n, " "); i > 0 {
				continue
			}
			x := it.numField(st, cfg, n)
			if x == nil {
				c.missing("configuration field " + n)
				return false
			}
			st.assume(x.L, Iv{-maxFinite, maxFinite})
		}
		for _, n := range []string{"ModerateCoherence", "HighCoherence", "VeryHighCoherence"} {
			x := it.numField(st, cfg, "Thresholds."+n)
			if x == nil {
				c.missing("configuration field " + n)
				return false
			}
			st.assume(x.L, Iv{-maxFinite, maxFinite})
		}
		return true
	}
	validate := func(set func(it *Interp, st *State, cfg Value), want int, rule, what, msg string) {
		c.configRun(swarmPkg, "Config.Validate", func(it *Interp, st *State, cfg Value, _ *Num) {
			if finite(it, st, cfg) {
				set(it, st, cfg)
			}
		}, func(it *Interp, r Outcome, _, _ Value, _ *Num) {
			c.ob(rule, what, !r.panicked && errNil(r.st, it.ret(r, 0)) == want, r.pos, msg, what)
		})
	}
	for _, rc := range conds {
		for i, b := range rc.bad {
			name := rc.name
			if len(rc.bad) > 1 {
				name += []string{" too small", " too large"}[i]
			}
			b := b
			validate(func(it *Interp, st *State, cfg Value) { b(it, st, cfg, nil) }, 2, "rejects", name, "a configuration violating %s can be accepted")
		}
	}
	validate(func(it *Interp, st *State, cfg Value) {
		for _, rc := range conds {
			rc.good(it, st, cfg, nil)
		}
	}, 0, "accepts", "valid configuration", "a configuration within all ranges can be rejected (%s)")

	// presets, tuned and sized
	forF, tune, size, val := c.fn(swarmPkg, "For"), c.fn(swarmPkg, "Config.TuneFor"), c.fn(swarmPkg, "Config.WithSize"), c.fn(swarmPkg, "Config.Validate")
	if forF == nil || tune == nil || size == nil || val == nil {
		return
	}
	it := NewInterp(c.P)
	it.maxPath = 4000
	check := func(what string, st *State, cfg Value) {
		for _, r := range c.run(it, val, []Value{cfg}, nil, st, nil) {
			c.ob("preset", what, !r.panicked && errNil(r.st, it.ret(r, 0)) == 0, r.pos, "the configuration can be invalid: %s", cfgOf(it, r.st, it.deref(r.st, cfg), conds))
		}
	}
	step := func(f *ssa.Function, st *State, cfg Value, then func(st *State, cfg Value)) {
		args := lazyArgs(it, f)
		args[0] = cfg
		n, _ := it.force(st, args[1]).(*Num)
		if n != nil {
			st.assume(n.L, Iv{-1e15, 1e15})
		}
		for _, r := range c.run(it, f, args, nil, st, nil) {
			if r.panicked {
				c.ob("preset", f.Name(), false, r.pos, "can panic")
				continue
			}
			then(r.st, it.ret(r, 0))
		}
	}
	st := newState()
	for _, r := range c.run(it, forF, lazyArgs(it, forF), nil, st, nil) {
		cfg := it.nonNil(r.st, it.ret(r, 0))
		check("goal", r.st.clone(), cfg)
		step(tune, r.st.clone(), cfg, func(s *State, v Value) {
			check("goal, trait", s.clone(), v)
			step(size, s, v, func(s *State, v Value) { check("goal, trait, size", s, v) })
		})
		step(size, r.st.clone(), cfg, func(s *State, v Value) {
			check("goal, size", s.clone(), v)
			step(tune, s, v, func(s *State, v Value) { check("goal, size, trait", s, v) })
		})
	}
}

// cfgOf: the values a failing preset has.
func cfgOf(it *Interp, st *State, cfg Value, conds []rangeCond) string {
	var out []string
	for _, rc := range conds {
		if strings.Contains(rc.name, " ") || rc.ok(it, st, cfg, nil) {
			continue
		}
		out = append(out, fmt.Sprintf("%s = %s", rc.name, it.show(st, it.field(st, cfg, rc.name))))
	}
	return strings.Join(out, ", ")
}

// then runs f from a state, and again from every outcome of a previous run.
func (c *Ctx) eachRun(it *Interp, f *ssa.Function, args []Value, st *State, name string, each func(r Outcome)) {
	for _, r := range c.run(it, f, args, nil, st, nil) {
		if r.panicked {
			c.ob("no panic", name, false, r.pos, "%s can panic", name)
			continue
		}
		each(r)
	}
}

func eqConst(st *State, n *Num, k float64) bool {
	b := best(st, n)
	return b.lo == k && b.hi == k
}

func checkC16(c *Ctx) {
	lim := c.fn(swarmPkg, "GetCoherenceLimits")
	fac := c.fn(swarmPkg, "GetConvergenceTimeFactor")
	min := c.fn(swarmPkg, "GetMinimumSwarmSize")
	val := c.fn(swarmPkg, "ValidateCoherenceTarget")
	rec := c.fn(swarmPkg, "DefaultRecoveryConfig")
	if lim == nil || fac == nil || min == nil || val == nil || rec == nil {
		return
	}
	mk := func() (*Interp, *State) {
		it := NewInterp(c.P)
		it.maxPath = 4000
		return it, newState()
	}
	num := func(it *Interp, st *State, name string, iv Iv, isInt bool) *Num {
		n := it.freshNum(name, iv, false, isInt)
		st.assume(n.L, iv)
		return n
	}
	sizes := Iv{-1e15, 1e15}
	three := []string{"Recommended", "Practical", "Theoretical"}
	// limits
	it, st := mk()
	n1 := num(it, st, "size", sizes, true)
	c.eachRun(it, lim, []Value{n1}, st, "GetCoherenceLimits", func(r Outcome) {
		s := r.st
		var ns []*Num
		for _, f := range three {
			ns = append(ns, it.numField(s, it.ret(r, 0), f))
		}
		if ns[0] == nil || ns[1] == nil || ns[2] == nil {
			c.missing("CoherenceLimits fields")
			return
		}
		ok := best(s, ns[0]).lo >= 0 && le(s, ns[0], ns[1]) && le(s, ns[1], ns[2]) && best(s, ns[2]).hi <= 1
		c.ob("ordered", "GetCoherenceLimits", ok, r.pos, "limits %s out of order for size %s", it.show(s, it.ret(r, 0)), it.show(s, n1))
		// a bigger swarm
		n2 := num(it, s, "larger size", sizes, true)
		s.assume(n1.L, Iv{2, 1e15})
		if !s.assume(linSub(n2.L, n1.L), Iv{0, 1e16}) || s.iv(n1).empty() || s.iv(n1).hi < 2 {
			return
		}
		c.eachRun(it, lim, []Value{n2}, s, "GetCoherenceLimits", func(q Outcome) {
			for i, f := range three {
				m := it.numField(q.st, it.ret(q, 0), f)
				c.ob("monotone", f+" limit", m != nil && le(q.st, ns[i], m), q.pos, "%s limit falls from %s (size %s) to %s (size %s)", f, it.show(q.st, ns[i]), it.show(q.st, n1), it.show(q.st, m), it.show(q.st, n2))
			}
		})
	})
	// time factor
	it, st = mk()
	n := num(it, st, "size", sizes, true)
	c.eachRun(it, lim, []Value{n}, st, "GetCoherenceLimits", func(r Outcome) {
		pr := it.numField(r.st, it.ret(r, 0), "Practical")
		for _, above := range []bool{false, true} {
			s := r.st.clone()
			t := num(it, s, "target", Iv{-1e100, 1e100}, false)
			d := Iv{math.Inf(-1), 0}
			if above {
				d = Iv{tiny, math.Inf(1)}
			}
			if !s.assume(linSub(t.L, pr.L), d) {
				continue
			}
			c.eachRun(it, fac, []Value{n, t}, s, "GetConvergenceTimeFactor", func(q Outcome) {
				f := it.numRet(q, 0)
				b := q.st.iv(f)
				if above {
					c.ob("factor", "unreachable target", math.IsInf(b.lo, 1), q.pos, "factor %s for a target above the practical limit", it.show(q.st, f))
					return
				}
				c.ob("factor", "reachable target", b.lo >= 1 && b.hi < 1e300, q.pos, "factor %s for a reachable target", it.show(q.st, f))
				t2 := num(it, q.st, "higher target", Iv{-1e100, 1e100}, false)
				if !q.st.assume(linSub(t2.L, t.L), Iv{0, math.Inf(1)}) || !q.st.assume(linSub(t2.L, pr.L), Iv{math.Inf(-1), 0}) {
					return
				}
				c.eachRun(it, fac, []Value{n, t2}, q.st, "GetConvergenceTimeFactor", func(w Outcome) {
					g := it.numRet(w, 0)
					c.ob("monotone", "GetConvergenceTimeFactor", le(w.st, f, g), w.pos, "a higher target (%s after %s) has a lower factor: %s after %s", it.show(w.st, t2), it.show(w.st, t), it.show(w.st, g), it.show(w.st, f))
				})
			})
		}
	})
	// minimum size
	it, st = mk()
	t := num(it, st, "target", Iv{-1e100, 1e100}, false)
	c.eachRun(it, min, []Value{t}, st, "GetMinimumSwarmSize", func(r Outcome) {
		a := it.numRet(r, 0)
		c.ob("ordered", "GetMinimumSwarmSize", best(r.st, a).lo >= 2, r.pos, "minimum size %s", it.show(r.st, a))
		t2 := num(it, r.st, "higher target", Iv{-1e100, 1e100}, false)
		if !r.st.assume(linSub(t2.L, t.L), Iv{0, math.Inf(1)}) {
			return
		}
		c.eachRun(it, min, []Value{t2}, r.st, "GetMinimumSwarmSize", func(q Outcome) {
			b := it.numRet(q, 0)
			c.ob("monotone", "GetMinimumSwarmSize", le(q.st, a, b), q.pos, "a higher target needs fewer agents: %s after %s", it.show(q.st, b), it.show(q.st, a))
		})
	})
	// adjusted target: the request, capped at the theoretical limit; a warning exactly above the recommended one
	it, st = mk()
	n = num(it, st, "size", sizes, true)
	c.eachRun(it, lim, []Value{n}, st, "GetCoherenceLimits", func(r Outcome) {
		th := it.numField(r.st, it.ret(r, 0), "Theoretical")
		rc := it.numField(r.st, it.ret(r, 0), "Recommended")
		for k := 0; k < 3; k++ {
			s := r.st.clone()
			q := num(it, s, "requested", Iv{-1e100, 1e100}, false)
			var ok bool
			switch k {
			case 0:
				ok = s.assume(linSub(q.L, rc.L), Iv{math.Inf(-1), 0})
			case 1:
				ok = s.assume(linSub(q.L, rc.L), Iv{tiny, math.Inf(1)}) && s.assume(linSub(q.L, th.L), Iv{math.Inf(-1), 0})
			case 2:
				ok = s.assume(linSub(q.L, th.L), Iv{tiny, math.Inf(1)})
			}
			if !ok {
				continue
			}
			c.eachRun(it, val, []Value{n, q}, s, "ValidateCoherenceTarget", func(w Outcome) {
				adj := it.numRet(w, 0)
				want := q
				if k == 2 {
					want = th
				}
				c.ob("capped", "ValidateCoherenceTarget", sameNum(w.st, adj, want), w.pos, "request %s (limit %s) becomes %s", it.show(w.st, q), it.show(w.st, th), it.show(w.st, adj))
				msg, known := strOf(w.st, it.ret(w, 1))
				c.ob("warned", "ValidateCoherenceTarget", known && (msg == "") == (k == 0), w.pos, "request %s with recommended limit %s: warning %q", it.show(w.st, q), it.show(w.st, rc), msg)
			})
		}
	})
	// recovery
	it, st = mk()
	t = num(it, st, "target", Iv{-1e100, 1e100}, false)
	ratio := []string{"MinimumViableCoherence", "TargetMarginRatio", "SmallDropRatio", "LargeDropRatio"}
	c.eachRun(it, rec, []Value{t}, st, "DefaultRecoveryConfig", func(r Outcome) {
		s := r.st
		cfg := it.ret(r, 0)
		var a []*Num
		for _, f := range append(append([]string{}, ratio...), "StuckThreshold", "CheckInterval") {
			x := it.numField(s, cfg, f)
			if x == nil {
				c.missing("RecoveryConfig." + f)
				return
			}
			c.ob("recovery", f+" in range", best(s, x).lo > 0 && (len(a) >= 4 || best(s, x).hi <= 1), r.pos, "%s is %s", f, it.show(s, x))
			a = append(a, x)
		}
		c.ob("recovery", "small drop below large drop", best(s, a[2]).hi < best(s, a[3]).lo, r.pos, "small drop %s, large drop %s", it.show(s, a[2]), it.show(s, a[3]))
		t2 := num(it, s, "higher target", Iv{-1e100, 1e100}, false)
		if !s.assume(linSub(t2.L, t.L), Iv{0, math.Inf(1)}) {
			return
		}
		c.eachRun(it, rec, []Value{t2}, s, "DefaultRecoveryConfig", func(q Outcome) {
			for i, f := range ratio {
				b := it.numField(q.st, it.ret(q, 0), f)
				ok := b != nil && (i < 2 && le(q.st, a[i], b) || i >= 2 && le(q.st, b, a[i]))
				c.ob("recovery", f+" never looser for a higher target", ok, q.pos, "%s goes from %s to %s for a higher target", f, it.show(q.st, a[i]), it.show(q.st, b))
			}
		})
	})
}

func sameNum(st *State, a, b *Num) bool {
	if a == nil || b == nil {
		return false
	}
	if a.L.key == b.L.key {
		return true
	}
	d := st.entail(linSub(a.L, b.L))
	return d.lo == 0 && d.hi == 0
}
