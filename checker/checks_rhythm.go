package main

// Observed rhythms: gaps are found and filled, likeness is a share, trends are slopes.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C37", run: checkC37,
		rules: []string{"Both packages' NewTargetPattern over none to three unknown phases and periods: the amplitude is the standard deviation of the phases on the circle's [0, 2π], the period the mean of the periods, both 0 for none, and the phases are kept.",
			"Detect over up to four phases with no, too few and enough periods reports exactly the neighboring phases more than a quarter turn apart, with their positions and, where known, the period at the first; it cannot panic.",
			"Complete over five unknown phases and every pair of positions from -1 to 5: nothing for positions outside or not in order, otherwise one phase in [0, 2π] per missing position, evenly spaced along the short way.",
			"Similarity over up to two phases, with amplitudes and periods that are 0 or positive: a number in [0, 1], the same from both sides, 1 for a pattern of known period and its equal, 0 without phases on both sides or any known period.",
			"Matches holds exactly when the base pattern or a variation is similar enough for the tolerance; Identify returns the largest similarity of a library of up to two templates, and the name of one that has it.",
			"Both convergence monitors' ConvergenceRate, over one to twelve recordings, is the least-squares slope of the last ten."},
		assume: []string{"finite phases, amplitudes and periods that are not negative", "summaries are compared with the reference at random points, on the path taken there (random interpretation); limits between paths are not sampled"},
		floor:  map[string]int{"amplitude": 6, "period": 6, "gaps": 10, "filled": 10, "likeness": 10, "same": 4, "template": 4, "library": 4, "slope": 8}})
}

func checkC37(c *Ctx) {
	for _, rel := range []string{"emerge/monitoring", "internal/emerge"} {
		c.rhythms(rel)
		c.likeness(rel)
		c.templates(rel)
	}
	for _, cp := range monitorCopies {
		c.slopes(cp[0], cp[1])
	}
}

// elems: the elements of a list whose length is known.
func (it *Interp) elems(st *State, v Value) ([]Value, bool) {
	sl, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	n := best(st, sl.n)
	if sl.nilp == 2 || n.hi == 0 {
		return nil, true
	}
	if n.lo != n.hi || sl.o == nil {
		return nil, false
	}
	a, ok := it.content(st, sl.o).(*ArrV)
	if !ok || sl.lo+int(n.lo) > len(a.e) {
		return nil, false
	}
	var out []Value
	for k := sl.lo; k < sl.lo+int(n.lo); k++ {
		out = append(out, it.force(st, a.e[k]))
	}
	return out, true
}

func unknowns(it *Interp, what string, n int, iv Iv, isInt bool, lo, hi float64) (vs []Value, in []input) {
	for i := 0; i < n; i++ {
		v := it.freshNum(fmt.Sprintf("%s %d", what, i), iv, false, isInt)
		vs = append(vs, v)
		in = append(in, input{v, lo, hi})
	}
	return
}

var angles, spans = Iv{-1e6, 1e6}, Iv{0, 1e15}

// aRhythm is a pattern of the given phases and periods, without its constructor.
func (c *Ctx) aRhythm(it *Interp, st *State, f *ssa.Function, name string, phases, periods []Value, amp, period Value) Value {
	p := it.nonNil(st, it.force(st, it.lazy(f.Signature.Recv().Type(), name, false)))
	it.setField(st, p, "Phases", it.sliceOf(st, types.Typ[types.Float64], phases))
	if u := structOf(it.deref(st, p).(*StructV).typ); u != nil {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "Frequencies" {
				it.setField(st, p, "Frequencies", it.sliceOf(st, u.Field(i).Type().(*types.Slice).Elem(), periods))
			}
		}
	}
	it.setField(st, p, "Amplitude", amp)
	it.setField(st, p, "Period", period)
	return p
}

func (c *Ctx) rhythms(rel string) {
	nw, det, com := c.fn(rel, "NewTargetPattern"), c.fn(rel, "TargetPattern.Detect"), c.fn(rel, "TargetPattern.Complete")
	if nw == nil || det == nil || com == nil {
		return
	}
	pt := nw.Signature.Params().At(1).Type().(*types.Slice).Elem()
	for n := 0; n <= 3; n++ {
		it := c.exactInterp(256)
		st := newState()
		ph, in := unknowns(it, "phase", n, angles, false, -10, 10)
		pe, pin := unknowns(it, "period", n, spans, true, 0, 1e9)
		rs := c.run(it, nw, []Value{it.sliceOf(st, types.Typ[types.Float64], ph), it.sliceOf(st, pt, pe)}, nil, st, nil)
		what := fmt.Sprintf("%s: a pattern of %d phases", rel, n)
		in = append(in, pin...)
		get := func(f string) func(r Outcome) *Num {
			return func(r Outcome) *Num { return it.numField(r.st, it.deref(r.st, it.ret(r, 0)), f) }
		}
		c.equals("amplitude", what, it, rs, in, get("Amplitude"), func(x []float64) float64 {
			m, v := 0.0, 0.0
			for i := 0; i < n; i++ {
				m += onCircle(x[i]) / float64(n)
			}
			for i := 0; i < n; i++ {
				v += (onCircle(x[i]) - m) * (onCircle(x[i]) - m) / float64(n)
			}
			if n < 2 {
				return 0
			}
			return math.Sqrt(v)
		}, false)
		c.equals("period", what, it, rs, in, get("Period"), func(x []float64) float64 {
			sum := 0.0
			for i := 0; i < n; i++ {
				sum += x[n+i]
			}
			if n == 0 {
				return 0
			}
			return math.Trunc(sum / float64(n))
		}, false)
		if n > 0 {
			c.matches("kept", what, rs, in, func(r Outcome) []*Num {
				return nums(it.elems(r.st, it.force(r.st, it.field(r.st, it.deref(r.st, it.ret(r, 0)), "Phases"))))
			}, func(x, v []float64) (bool, string) {
				ok := len(v) == n
				for i := 0; ok && i < n; i++ {
					ok = close9(v[i], x[i], false)
				}
				return ok, "instead of the phases given"
			})
		}
	}
	for n := 0; n <= 4; n++ {
		for m := 0; m <= n; m++ {
			if m > 1 && m < n-1 {
				continue
			}
			it := c.exactInterp(256)
			circleModels(it)
			st := newState()
			ph, in := unknowns(it, "phase", n, angles, false, -10, 10)
			pe, pin := unknowns(it, "period", m, spans, true, 1, 1e9)
			in = append(in, pin...)
			p := c.aRhythm(it, st, det, "pattern", ph, pe, it.constNum(1), it.constNum(1))
			c.matches("gaps", fmt.Sprintf("%s: the gaps of %d phases with %d periods", rel, n, m), c.run(it, det, []Value{p}, nil, st, nil), in, func(r Outcome) []*Num {
				gs, ok := it.elems(r.st, it.ret(r, 0))
				if !ok {
					return nil
				}
				out := []*Num{}
				for _, g := range gs {
					for _, f := range []string{"StartIdx", "EndIdx", "Duration"} {
						k := it.numField(r.st, g, f)
						if k == nil {
							return nil
						}
						out = append(out, k)
					}
				}
				return out
			}, func(x, v []float64) (bool, string) {
				w := []float64{}
				for i := 1; i < n; i++ {
					if math.Abs(math.Remainder(x[i]-x[i-1], twoPi)) > math.Pi/2 {
						d := 0.0
						if i-1 < m {
							d = x[n+i-1]
						}
						w = append(w, float64(i-1), float64(i), d)
					}
				}
				ok := len(v) == len(w)
				for i := 0; ok && i < len(v); i++ {
					ok = close9(v[i], w[i], false)
				}
				return ok, fmt.Sprintf("instead of %v (from, to, period)", w)
			})
		}
	}
	for s := -1; s <= 5; s++ {
		for e := -1; e <= 5; e++ {
			it := c.exactInterp(64)
			circleModels(it)
			st := newState()
			ph, in := unknowns(it, "phase", 5, angles, false, -10, 10)
			p := c.aRhythm(it, st, com, "pattern", ph, nil, it.constNum(1), it.constNum(1))
			g := it.deref(st, it.nonNil(st, it.force(st, it.lazy(types.NewPointer(com.Signature.Params().At(0).Type()), "gap", false))))
			gs, ok := g.(*StructV)
			if !ok {
				c.missing(rel + ".PatternGap")
				return
			}
			for i := 0; i < structOf(gs.typ).NumFields(); i++ {
				switch structOf(gs.typ).Field(i).Name() {
				case "StartIdx":
					gs.f[i] = it.constNum(float64(s))
				case "EndIdx":
					gs.f[i] = it.constNum(float64(e))
				}
			}
			c.matches("filled", fmt.Sprintf("%s: the gap from %d to %d of 5 phases", rel, s, e), c.run(it, com, []Value{p, gs}, nil, st, nil), in, func(r Outcome) []*Num {
				return nums(it.elems(r.st, it.ret(r, 0)))
			}, func(x, v []float64) (bool, string) {
				if s < 0 || e > 4 || s >= e {
					return len(v) == 0, "instead of nothing"
				}
				ok := len(v) == e-s-1
				for i := 0; ok && i < len(v); i++ {
					w := x[s] + math.Remainder(x[e]-x[s], twoPi)*float64(i+1)/float64(e-s)
					ok = close9(v[i], w, true) && v[i] >= 0 && v[i] <= twoPi
				}
				return ok, "instead of even steps along the short way"
			})
		}
	}
}

func onCircle(v float64) float64 {
	if v = math.Mod(v, twoPi); v < 0 {
		v += twoPi
	}
	return v
}

// nums: a list of numbers; nil when it is not one.
func nums(vs []Value, ok bool) []*Num {
	out := []*Num{}
	for _, v := range vs {
		n, is := v.(*Num)
		ok = ok && is
		out = append(out, n)
	}
	if !ok {
		return nil
	}
	return out
}

func (c *Ctx) likeness(rel string) {
	sim := c.fn(rel, "TargetPattern.Similarity")
	if sim == nil {
		return
	}
	pos := Iv{1e-6, 1e6}
	type likeCase struct{ n, m, bits int } // bits: whether amplitudes and periods are positive
	cases := []likeCase{{0, 0, 0}, {0, 1, 15}, {1, 0, 15}, {1, 2, 5}, {1, 2, 10}, {2, 2, 10}, {2, 2, 2}}
	for b := 0; b < 16; b++ {
		cases = append(cases, likeCase{1, 1, b})
	}
	for _, k := range cases {
		sz, bits := [2]int{k.n, k.m}, k.bits
		for _, ranges := range [][2]Iv{{{0.1, 6}, {0.1, 6}}, {{-6, -4}, {0.001, 0.1}}} {
			it := c.exactInterp(3000)
			circleModels(it)
			st := newState()
			var in []input
			mk := func(name string, n, b int) (Value, []Value) {
				iv := ranges[0]
				if name == "second" {
					iv = ranges[1]
				}
				ph, pin := unknowns(it, name+" phase", n, iv, false, iv.lo, iv.hi)
				in = append(in, pin...)
				amp, per := it.constNum(0), it.constNum(0)
				if b&1 != 0 {
					av := pos
					if bits == 15 && name == "second" { // all of it open: more than the larger
						av = Iv{3, 1e6}
					} else if bits == 15 {
						av = Iv{1e-6, 3}
					}
					amp = it.freshNum(name+" amplitude", av, false, false)
					in = append(in, input{amp, math.Max(av.lo, 0.1), math.Min(av.hi, 6)})
				}
				if b&2 != 0 {
					per = it.freshNum(name+" period", Iv{1, 1e15}, false, true)
					in = append(in, input{per, 1e6, 1e9})
				}
				return c.aRhythm(it, st, sim, name, ph, nil, amp, per), []Value{amp, per, it.sliceOf(st, types.Typ[types.Float64], ph)}
			}
			p, parts := mk("first", sz[0], bits&3)
			q, _ := mk("second", sz[1], bits>>2)
			what := fmt.Sprintf("%s: patterns of %d phases in %v and %d in %v (amplitudes %t %t, periods %t %t)", rel, sz[0], ranges[0], sz[1], ranges[1], bits&1 != 0, bits&4 != 0, bits&2 != 0, bits&8 != 0)

			var both []Outcome
			for _, r := range c.run(it, sim, []Value{p, q}, nil, st.clone(), nil) {
				if r.panicked {
					both = append(both, r)
					continue
				}
				for _, b := range c.run(it, sim, []Value{q, p}, nil, r.st.clone(), nil) {
					if !b.panicked {
						b.ret = TupleV{it.ret(r, 0), it.ret(b, 0)}
					}
					both = append(both, b)
				}
			}
			two := func(r Outcome) []*Num {
				t, ok := r.ret.(TupleV)
				if !ok {
					return nil
				}
				return nums([]Value(t), true)
			}
			c.matches("likeness", what, both, in, two, func(x, v []float64) (bool, string) {
				if sz[0] == 0 || sz[1] == 0 || bits&10 == 0 { // nothing to compare
					return v[0] == 0 && v[1] == 0, "instead of 0"
				}
				return v[0] >= -1e-12 && v[0] <= 1+1e-12 && close9(v[0], v[1], false), "(from either side), not one number in [0, 1]"
			})
			if bits > 3 || bits&2 == 0 || ranges[0] != ranges[1] || sz[0] != sz[1] || sz[0] == 0 {
				continue
			}
			eq := it.nonNil(st, it.force(st, it.lazy(sim.Signature.Recv().Type(), "equal", false)))
			for i, f := range []string{"Amplitude", "Period", "Phases"} {
				it.setField(st, eq, f, parts[i])
			}
			c.equals("same", what+", equal", it, c.run(it, sim, []Value{p, eq}, nil, st.clone(), nil), in, func(r Outcome) *Num { return it.numRet(r, 0) }, func([]float64) float64 { return 1 }, false)
		}
	}
	it := c.exactInterp(16)
	st := newState()
	ph, in := unknowns(it, "phase", 2, angles, false, -10, 10)
	p := c.aRhythm(it, st, sim, "pattern", ph, nil, it.constNum(1), it.constNum(1))
	none := it.zero(sim.Signature.Params().At(0).Type())
	c.equals("same", rel+": nothing to compare with", it, c.run(it, sim, []Value{p, none}, nil, st, nil), in, func(r Outcome) *Num { return it.numRet(r, 0) }, func([]float64) float64 { return 0 }, false)
}

// templates: similarities are opaque, told apart by the amplitude of their receiver.
func (c *Ctx) templates(rel string) {
	mt, nl, add, id := c.fn(rel, "PatternTemplate.Matches"), c.fn(rel, "NewPatternLibrary"), c.fn(rel, "PatternLibrary.Add"), c.fn(rel, "PatternLibrary.Identify")
	sim := c.fn(rel, "TargetPattern.Similarity")
	if mt == nil || nl == nil || add == nil || id == nil || sim == nil {
		return
	}
	setup := func() (*Interp, *State, []input, Value) {
		it := c.exactInterp(64)
		st := newState()
		_, in := unknowns(it, "similarity", 3, Iv{0, 1}, false, 0, 1)
		other := it.nonNil(st, it.force(st, it.lazy(sim.Signature.Recv().Type(), "observed", false)))
		it.models[method(rel, "TargetPattern", "Similarity")] = func(k *callCtx) []Outcome {
			own, with := k.args[0], k.args[1]
			if ptrObj(own) == ptrObj(other) { // it is symmetric: rule likeness
				own, with = with, own
			}
			a := it.numField(k.st, it.deref(k.st, own), "Amplitude")
			if a == nil || !a.L.isConst() || a.L.c < 0 || int(a.L.c) >= len(in) || ptrObj(with) != ptrObj(other) {
				return []Outcome{{st: k.st, ret: it.freshNum("similarity of something else", Iv{0, 1}, false, false)}}
			}
			return []Outcome{{st: k.st, ret: in[int(a.L.c)].n}}
		}
		return it, st, in, other
	}
	pat := func(it *Interp, st *State, i int) Value {
		return it.deref(st, c.aRhythm(it, st, sim, fmt.Sprintf("known %d", i), nil, nil, it.constNum(float64(i)), it.constNum(1)))
	}
	for n := 0; n <= 2; n++ { // variations
		it, st, in, other := setup()
		t := it.nonNil(st, it.force(st, it.lazy(mt.Signature.Recv().Type(), "template", false)))
		it.setField(st, t, "BasePattern", pat(it, st, 0))
		var vs []Value
		for i := 1; i <= n; i++ {
			vs = append(vs, pat(it, st, i))
		}
		it.setField(st, t, "Variations", it.sliceOf(st, sim.Signature.Recv().Type().(*types.Pointer).Elem(), vs))
		tol := it.freshNum("tolerance", Iv{0, 1}, false, false)
		it.setField(st, t, "Tolerance", tol)
		ins := append(append([]input{}, in[:n+1]...), input{tol, 0, 1})
		c.matches("template", fmt.Sprintf("%s: a template with %d variations", rel, n), c.run(it, mt, []Value{t, other}, nil, st, nil), ins, func(r Outcome) []*Num {
			return truth(it, r.st, it.ret(r, 0))
		}, func(x, v []float64) (bool, string) {
			want := false
			for _, s := range x[:n+1] {
				want = want || s >= 1-x[n+1]
			}
			return isTrue(v) == want, fmt.Sprintf("(should it match: %t)", want)
		})
	}
	for n := 0; n <= 2; n++ {
		for order := 1; order <= 2; order++ {
			it, st, in, other := setup()
			it.mapOrder = order
			rs := c.run(it, nl, nil, nil, st, nil)
			if len(rs) != 1 || rs[0].panicked {
				c.missing("NewPatternLibrary outcome")
				return
			}
			lib, st := it.ret(rs[0], 0), rs[0].st
			for i := 0; i < n && st != nil; i++ {
				t := it.nonNil(st, it.force(st, it.lazy(mt.Signature.Recv().Type(), "template", false)))
				it.setField(st, t, "BasePattern", pat(it, st, i))
				ar := c.run(it, add, []Value{lib, it.strK(fmt.Sprintf("t%d", i)), t}, nil, st, nil)
				if len(ar) != 1 || ar[0].panicked {
					c.missing("PatternLibrary.Add outcome")
					return
				}
				st = ar[0].st
			}
			c.matches("library", fmt.Sprintf("%s: a library of %d (order %d)", rel, n, order), c.run(it, id, []Value{lib, other}, nil, st, nil), in[:n], func(r Outcome) []*Num {
				s, ok := strOf(r.st, it.ret(r, 0))
				v, isN := it.ret(r, 1).(*Num)
				if !ok || !isN {
					return nil
				}
				k := -1.0
				if i := strings.TrimPrefix(s, "t"); len(i) == 1 && i != s {
					k = float64(i[0] - '0')
				}
				return []*Num{it.constNum(k), v}
			}, func(x, v []float64) (bool, string) {
				b, k := 0.0, -1
				for i, s := range x {
					if s > b {
						b, k = s, i
					}
				}
				return v[0] == float64(k) && close9(v[1], b, false), fmt.Sprintf("instead of %d, %g", k, b)
			})
		}
	}
}

func (c *Ctx) slopes(rel, ctor string) {
	nw, rec, rate := c.fn(rel, ctor), c.fn(rel, "ConvergenceMonitor.Record"), c.fn(rel, "ConvergenceMonitor.ConvergenceRate")
	if nw == nil || rec == nil || rate == nil {
		return
	}
	for _, n := range []int{0, 1, 2, 3, 9, 10, 11, 12} {
		it := c.exactInterp(8)
		st := newState()
		args := lazyArgs(it, nw)
		args[len(args)-1] = it.constNum(0.9)
		rs := c.run(it, nw, args, nil, st, nil)
		if len(rs) != 1 || rs[0].panicked {
			c.missing(rel + "." + ctor + " outcome")
			return
		}
		m, st := it.ret(rs[0], 0), rs[0].st
		var in []input
		for i := 0; i < n; i++ {
			lo := 0.01 + float64((i*5)%13)*0.06 // each in a range of its own, so that the extremes are decided
			v := it.freshNum(fmt.Sprintf("coherence %d", i), Iv{lo, lo + 0.05}, false, false)
			in = append(in, input{v, lo, lo + 0.05})
			rr := c.run(it, rec, []Value{m, v}, nil, st, nil)
			if len(rr) != 1 || rr[0].panicked {
				c.missing(rel + ".Record outcome")
				return
			}
			st = rr[0].st
		}
		c.equals("slope", fmt.Sprintf("%s: the rate after %d recordings", rel, n), it, c.run(it, rate, []Value{m}, nil, st, nil), in, func(r Outcome) *Num { return it.numRet(r, 0) }, func(x []float64) float64 {
			if len(x) < 2 {
				return 0
			}
			if len(x) > 10 {
				x = x[len(x)-10:]
			}
			mx, my := float64(len(x)-1)/2, 0.0
			for _, v := range x {
				my += v / float64(len(x))
			}
			a, b := 0.0, 0.0
			for i, v := range x {
				a += (float64(i) - mx) * (v - my)
				b += (float64(i) - mx) * (float64(i) - mx)
			}
			return a / b
		}, false)
	}
}
