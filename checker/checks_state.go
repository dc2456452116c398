package main

// Target states: accepted exactly when they are valid, and repaired to valid ones.

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

func init() {
	register(&Check{id: "C35", run: checkC35,
		rules: []string{"State.Validate over every combination of a frequency that is positive or not, a coherence that is NaN, below, in or above [0, 1], and a phase that is NaN, infinite or finite: the result is nil exactly when all three are valid, otherwise it lists exactly the fields that are not; the state is left as it is.",
			"State.NormalizeAndValidate over the same combinations fails exactly when the coherence is NaN or the phase not finite. Otherwise the period is positive and kept if it was, the coherence is the nearest one in [0, 1], and the phase is the same angle in [0, 2π]."},
		assume: []string{"WrapPhase yields the same angle in [0, 2π] (proved by the phase property)"},
		floor:  map[string]int{"accepts": 2, "rejects": 6, "names": 4, "unchanged": 3, "repairs": 2, "refuses": 3, "period": 2, "coherence": 3, "phase": 1}})
}

type stateCase struct {
	name string
	set  func(it *Interp, st *State, n *Num) bool
	iv   Iv
	nan  bool
	ok   bool
}

func checkC35(c *Ctx) {
	inf := math.Inf(1)
	periods := []stateCase{{name: "period not positive", iv: Iv{-longest, 0}}, {name: "period positive", iv: Iv{1, longest}, ok: true}}
	cohs := []stateCase{{name: "coherence NaN", nan: true}, {name: "coherence below 0", iv: Iv{-1e300, -1e-300}}, {name: "coherence -Inf", iv: Iv{-inf, -inf}},
		{name: "coherence in range", iv: Iv{0, 1}, ok: true}, {name: "coherence 0", iv: Iv{0, 0}, ok: true}, {name: "coherence 1", iv: Iv{1, 1}, ok: true},
		{name: "coherence above 1", iv: Iv{math.Nextafter(1, 2), 1e300}}, {name: "coherence +Inf", iv: Iv{inf, inf}}}
	phases := []stateCase{{name: "phase NaN", nan: true}, {name: "phase -Inf", iv: Iv{-inf, -inf}}, {name: "phase +Inf", iv: Iv{inf, inf}}, {name: "phase finite", iv: Iv{-1e100, 1e100}, ok: true}}
	for _, name := range []string{"Validate", "NormalizeAndValidate"} {
		f := c.fn(corePkg, "State."+name)
		if f == nil {
			return
		}
		for _, pe := range periods {
			for _, co := range cohs {
				for _, ph := range phases {
					it := NewInterp(c.P)
					circleModels(it)
					it.maxPath = 32
					st := newState()
					args := lazyArgs(it, f)
					args[0] = it.nonNil(st, args[0])
					num := func(what string, k stateCase, isInt bool) *Num {
						if k.nan {
							n := it.freshNum(what, ivTop, true, false)
							st.forceNaN(n.L)
							return n
						}
						return it.freshNum(what, k.iv, false, isInt)
					}
					freq, coh, phase := num("period", pe, true), num("coherence", co, false), num("phase", ph, false)
					it.setField(st, args[0], "Frequency", freq)
					it.setField(st, args[0], "Coherence", coh)
					it.setField(st, args[0], "Phase", phase)
					before := copyV(it.deref(st, args[0]))
					what := pe.name + ", " + co.name + ", " + ph.name
					var bad []string
					for i, k := range []stateCase{co, pe, ph} {
						if !k.ok {
							bad = append(bad, []string{"Coherence", "Frequency", "Phase"}[i])
						}
					}
					rs := c.run(it, f, args, nil, st, nil)
					if len(rs) == 0 {
						c.ob("accepts", what, false, f.Pos(), "%s has no outcome for %s", name, what)
					}
					for _, r := range rs {
						after := it.deref(r.st, args[0])
						e := errNil(r.st, it.ret(r, 0))
						if name == "Validate" {
							c.valid(it, r, e, what, bad)
							for _, fl := range []string{"Frequency", "Coherence", "Phase"} {
								c.ob("unchanged", fl, !r.panicked && sameValue(r.st, it.field(r.st, before, fl), it.field(r.st, after, fl)), r.pos, "validating changes %s (%s)", fl, what)
							}
							continue
						}
						if co.nan || !ph.ok {
							c.ob("refuses", strings.Join(bad, " "), !r.panicked && e == 2, r.pos, "a state that cannot be repaired is accepted (%s)", what)
							continue
						}
						c.ob("repairs", strings.Join(bad, " "), !r.panicked && e == 0, r.pos, "a state that can be repaired is refused (%s)", what)
						if r.panicked || e == 2 {
							continue
						}
						p, q, w := it.numField(r.st, after, "Frequency"), it.numField(r.st, after, "Coherence"), it.numField(r.st, after, "Phase")
						if p == nil || q == nil || w == nil {
							c.missing("fields of the repaired state")
							continue
						}
						if pe.ok {
							c.ob("period", pe.name, sameNum(r.st, p, freq), r.pos, "a valid period becomes %s (%s)", it.show(r.st, p), what)
						} else {
							c.ob("period", pe.name, !r.st.mayNaN(p.L) && best(r.st, p).lo > 0, r.pos, "the repaired period is %s (%s)", it.show(r.st, p), what)
						}
						want := coh
						if co.iv.hi < 0 {
							want = it.constNum(0)
						} else if co.iv.lo > 1 {
							want = it.constNum(1)
						}
						c.ob("coherence", co.name, sameNum(r.st, q, want), r.pos, "coherence becomes %s (%s)", it.show(r.st, q), what)
						b := best(r.st, w)
						c.ob("phase", ph.name, !r.st.mayNaN(w.L) && b.lo >= 0 && b.hi <= twoPi+1e-9 && w.L.residue().key == phase.L.residue().key, r.pos, "phase becomes %s (%s)", it.show(r.st, w), what)
					}
				}
			}
		}
	}
}

// valid: the error lists exactly the fields that are wrong.
func (c *Ctx) valid(it *Interp, r Outcome, e int, what string, bad []string) {
	if len(bad) == 0 {
		c.ob("accepts", what, !r.panicked && e == 0, r.pos, "a valid state is refused (%s)", what)
		return
	}
	c.ob("rejects", what, !r.panicked && e == 2, r.pos, "a state that is not valid is accepted (%s)", what)
	if r.panicked || e != 2 {
		return
	}
	names := map[string]bool{}
	known := false
	if i, ok := it.ret(r, 0).(*IfaceV); ok && len(i.alts) == 1 {
		if sl, ok := it.force(r.st, i.alts[0].v).(*SliceV); ok && sl.o != nil {
			if a, ok := it.content(r.st, sl.o).(*ArrV); ok {
				known = true
				n := best(r.st, sl.n)
				if n.lo != n.hi {
					known = false
				}
				for k := sl.lo; known && k < sl.lo+int(n.lo); k++ {
					s, ok := strOf(r.st, it.field(r.st, it.force(r.st, a.e[k]), "Field"))
					known = known && ok
					names[s] = true
				}
			}
		}
	}
	if !known {
		return // an error of another kind: that it is one is decided above
	}
	var got []string
	for s := range names {
		got = append(got, s)
	}
	sort.Strings(got)
	c.ob("names", strings.Join(bad, " "), fmt.Sprint(got) == fmt.Sprint(bad), r.pos, "the error lists %v (%s)", got, what)
}
