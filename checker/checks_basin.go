package main

// The attractor basin: nearer is stronger, outside is nothing.

import (
	"fmt"
	"math"
)

func init() {
	register(&Check{id: "C40", run: checkC40,
		rules: []string{"A basin made for any target, strength (also outside [0, 1]) and radius (also 0), and any state on the circle: the distance is the shortest way round, a state is in the basin exactly when it is at most the radius, the force is the clamped strength in proportion to the nearness inside and 0 outside, a number also for radius 0.",
			"The rate is the force in proportion to the agreement of the frequencies, 0 outside and never above the force; the adjustment goes the short way, by the share the force says, or by a hundredth where there is none."},
		assume: []string{"phases on the circle (C01)", "summaries are compared with the reference at random points, on the path taken there"},
		floor:  map[string]int{"distance": 3, "inside": 3, "force": 3, "rate": 3, "adjustment": 3}})
}

func checkC40(c *Ctx) {
	const rel = "internal/emerge"
	nw, dist, in, force, rate, adj := c.fn(rel, "NewAttractorBasin"), c.fn(rel, "AttractorBasin.DistanceToTarget"), c.fn(rel, "AttractorBasin.IsInBasin"), c.fn(rel, "AttractorBasin.AttractionForce"), c.fn(rel, "AttractorBasin.ConvergenceRate"), c.fn(rel, "AttractorBasin.OptimalAdjustment")
	if nw == nil || dist == nil || in == nil || force == nil || rate == nil || adj == nil {
		return
	}
	circle := Iv{0, 6.28}
	for _, q := range []struct {
		r    Iv
		freq Iv
		same bool // the state at the target
		t, s Iv
	}{{Iv{0.1, 4}, Iv{1e6, 1e9}, false, circle, circle}, {Iv{0.1, 4}, Iv{0, 0}, false, circle, circle}, {Iv{0.1, 4}, Iv{1e6, 1e9}, true, circle, circle}, {Iv{0, 0}, Iv{1e6, 1e9}, true, circle, circle}, {Iv{0, 0}, Iv{1e6, 1e9}, false, circle, circle},
		// across the seam, both ways, and close by
		{Iv{0.1, 2}, Iv{1e6, 1e9}, false, Iv{6, 6.28}, Iv{0, 0.4}}, {Iv{0.1, 2}, Iv{1e6, 1e9}, false, Iv{0, 0.4}, Iv{6, 6.28}}, {Iv{0.01, 0.2}, Iv{1e6, 1e9}, false, Iv{3, 3.1}, Iv{3, 3.1}}} {
		it := c.exactInterp(1024)
		circleModels(it)
		st := newState()
		var ins []input
		num := func(name string, iv Iv, isInt bool) *Num {
			n := it.constNum(iv.lo)
			if iv.lo != iv.hi {
				n = it.freshNum(name, iv, false, isInt)
			}
			ins = append(ins, input{n, iv.lo, iv.hi})
			return n
		}
		state := func(name string, phase *Num) Value {
			v := it.force(st, it.lazy(nw.Signature.Params().At(0).Type(), name, false))
			s, ok := v.(*StructV)
			if !ok {
				return v
			}
			f := num(name+" frequency", q.freq, true)
			for i := 0; i < structOf(s.typ).NumFields(); i++ {
				switch structOf(s.typ).Field(i).Name() {
				case "Phase":
					s.f[i] = phase
				case "Frequency":
					s.f[i] = f
				}
			}
			return s
		}
		tp := num("target", q.t, false)
		sp := tp
		if !q.same {
			sp = num("phase", q.s, false)
		} else {
			ins = append(ins, input{tp, q.t.lo, q.t.hi})
		}
		strength, radius := num("strength", Iv{-1, 2}, false), num("radius", q.r, false)
		target, now := state("target", tp), state("now", sp)
		// inputs: target, phase, strength, radius, the target's and the state's frequency
		bs := c.run(it, nw, []Value{target, strength, radius}, nil, st.clone(), nil)
		what := fmt.Sprintf("radius in %v, frequencies in %v, phases in %v and %v, at the target %t", q.r, q.freq, q.t, q.s, q.same)
		all := func(f string) (rs []Outcome) {
			for _, b := range bs {
				if b.panicked {
					rs = append(rs, b)
					continue
				}
				rs = append(rs, c.run(it, c.fn(rel, "AttractorBasin."+f), []Value{it.ret(b, 0), now}, nil, b.st.clone(), nil)...)
			}
			return
		}
		d := func(x []float64) float64 { return math.Abs(math.Remainder(x[1]-x[0], twoPi)) }
		pull := func(x []float64) float64 {
			if d(x) > x[3] || x[3] == 0 {
				return 0
			}
			return math.Max(0, math.Min(1, x[2])) * (1 - d(x)/x[3])
		}
		ret := func(r Outcome) *Num { return it.numRet(r, 0) }
		c.equals("distance", "the distance, "+what, it, all("DistanceToTarget"), ins, ret, d, false)
		c.matches("inside", "being in the basin, "+what, all("IsInBasin"), ins, func(r Outcome) []*Num { return truth(it, r.st, it.ret(r, 0)) }, func(x, v []float64) (bool, string) {
			return isTrue(v) == (d(x) <= x[3]), fmt.Sprintf("at distance %g", d(x))
		})
		c.equals("force", "the force, "+what, it, all("AttractionForce"), ins, ret, pull, false)
		c.equals("rate", "the rate, "+what, it, all("ConvergenceRate"), ins, ret, func(x []float64) float64 {
			if m := math.Max(x[4], x[5]); m > 0 {
				return pull(x) * (1 - math.Abs(x[4]-x[5])/m)
			}
			return pull(x)
		}, false)
		c.equals("adjustment", "the adjustment, "+what, it, all("OptimalAdjustment"), ins, ret, func(x []float64) float64 {
			p := pull(x)
			if p == 0 {
				p = 0.01
			}
			return math.Remainder(x[0]-x[1], twoPi) * p
		}, false)
	}
}
