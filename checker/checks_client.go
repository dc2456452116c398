package main

// The client: what the options ask for is what the swarm is built with.

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C34", run: checkC34,
		rules: []string{"Every sequence of up to three of the builder's settings, with unknown goals, scales and coherences, is followed by Build over an opaque swarm: the swarm is created once, with the agents and coherence of the last scale chosen (the documented counts), the last coherence that is positive, and the configuration of the last goal chosen; without settings the documented defaults are used.",
			"The same for sequences of options, where a refused option (a coherence not in (0, 1], or any option's own error) is returned and no swarm is created, and for the one-line constructors.",
			"A client or an error is returned, never both or neither; an error of the swarm is passed on. The client keeps the swarm and the configuration it was built with, and each of its methods asks that swarm, under the context it is given, and returns its answer.",
			"A simulation's client is built for the goal, scale and coherence of the simulation's configuration; a failure is passed on."},
		assume: []string{"the swarm's constructor is decided by C19, the scales' figures by the table in the documentation"},
		floor:  map[string]int{"built": 30, "options": 20, "whole": 3, "asks": 6, "simulation": 4}})
}

type clientWorld struct {
	c    *Ctx
	it   *Interp
	fail bool
}

func (w *clientWorld) models() {
	it := w.it
	m := it.models
	m[modPath+"/"+swarmPkg+".For"] = func(k *callCtx) []Outcome {
		r := it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "configuration", false)))
		k.st.event("for", k.pos, []Value{k.args[0], r})
		return []Outcome{{st: k.st, ret: r}}
	}
	for _, f := range []string{"With", "WithSize"} {
		m[method(swarmPkg, "Config", f)] = func(k *callCtx) []Outcome {
			k.st.event("sized", k.pos, []Value{k.args[0], k.args[1], boolK(f == "With")})
			return []Outcome{{st: k.st, ret: k.args[0]}}
		}
	}
	m[modPath+"/"+swarmPkg+".WithGoalConfig"] = func(k *callCtx) []Outcome {
		cfg := k.args[0]
		return []Outcome{{st: k.st, ret: it.hostFn("goal configuration", func(k *callCtx) []Outcome {
			k.st.event("goalconfig", k.pos, cfg)
			return []Outcome{{st: k.st, ret: it.okResult(k)}}
		})}}
	}
	m[modPath+"/"+swarmPkg+".New"] = func(k *callCtx) []Outcome {
		s := it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "swarm", false)))
		k.st.event("swarm", k.pos, []Value{k.args[0], it.force(k.st, k.args[1]), s})
		if sl, ok := k.args[2].(*SliceV); ok && sl.o != nil {
			if a, ok := it.content(k.st, sl.o).(*ArrV); ok {
				for _, o := range a.e {
					if f, ok := it.force(k.st, o).(*FuncV); ok && f.host != nil {
						f.host(&callCtx{it: it, st: k.st, sig: f.sigOf(), pos: k.pos, args: []Value{s}})
					} else {
						k.st.event("otheroption", k.pos, nil)
					}
				}
			}
		}
		if w.fail {
			return []Outcome{{st: k.st, ret: TupleV{it.zero(k.sig.Results().At(0).Type()), it.anError("no swarm")}}}
		}
		return []Outcome{{st: k.st, ret: TupleV{s, it.zero(k.sig.Results().At(1).Type())}}}
	}
	for _, f := range []string{"Agents", "CurrentCoherence", "MeasureCoherence", "IsConverged", "Size", "Run"} {
		m[method(swarmPkg, "Swarm", f)] = func(k *callCtx) []Outcome {
			r := resultOf(k, f)
			k.st.event("asked", k.pos, append(append([]Value{it.strK(f)}, k.args...), r))
			return []Outcome{{st: k.st, ret: r}}
		}
	}
}

// sigOf: options return an error.
func (f *FuncV) sigOf() *types.Signature {
	e := types.Universe.Lookup("error").Type()
	return types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", e)), false)
}

// asked for: the choices a client is to be built with.
type asked struct {
	goal, scale Value
	coh         *Num
}

type aSwarm struct {
	goal    *Num
	n, coh  *Num
	swarm   Value
	config  Value
	created int
}

func (w *clientWorld) created(st *State) (r aSwarm) {
	it := w.it
	evs := since(st, nil, "swarm")
	r.created = len(evs)
	if len(evs) != 1 {
		return
	}
	d := evs[0].data.([]Value)
	r.n, _ = d[0].(*Num)
	r.coh = it.numField(st, d[1], "Coherence")
	r.swarm = d[2]
	for _, g := range since(st, nil, "goalconfig") {
		r.config = g.data.(Value)
	}
	for _, f := range since(st, nil, "for") {
		d := f.data.([]Value)
		if r.config != nil && ptrObj(d[1]) != nil && ptrObj(d[1]) == ptrObj(r.config) {
			r.goal, _ = d[0].(*Num)
		}
	}
	return
}

var scaleCounts = []struct {
	name string
	n    float64
}{{"Tiny", 20}, {"Small", 50}, {"Medium", 200}, {"Large", 1000}, {"Huge", 2000}}

// match: the swarm is what was asked for ("" = yes).
func (w *clientWorld) match(st *State, a asked) string {
	it, c := w.it, w.c
	r := w.created(st)
	if r.created != 1 {
		return fmt.Sprintf("%d swarms are created", r.created)
	}
	g, ok := a.goal.(*Num)
	if !ok || r.goal == nil || !sameLin(st, g.L, r.goal.L) {
		return "the swarm is configured for another goal"
	}
	sc, _ := a.scale.(*Num)
	if sc == nil || r.n == nil || r.coh == nil {
		return "the swarm's size or coherence is unknown"
	}
	sized := 0
	for _, e := range since(st, nil, "sized") {
		d := e.data.([]Value)
		if r.config == nil || ptrObj(d[0]) != ptrObj(r.config) {
			continue
		}
		sized++
		n, ok := d[1].(*Num)
		want := r.n
		if d[2].(*BoolV).k == 1 {
			want = sc
		}
		if !ok || !sameLin(st, n.L, want.L) {
			return "the configuration is adapted to another size than the swarm has"
		}
	}
	if sized != 1 {
		return fmt.Sprintf("the configuration is adapted to the swarm's size %d times", sized)
	}
	of := func(f string) (nums []*Num, sts []*State) {
		fn := c.fn("emerge/scale", "Size."+f)
		if fn == nil {
			return
		}
		for _, o := range c.run(it, fn, []Value{sc}, nil, st.clone(), nil) {
			if n := it.numRet(o, 0); n != nil && !o.panicked {
				nums, sts = append(nums, n), append(sts, o.st)
			}
		}
		return
	}
	ns, sts := of("DefaultAgentCount")
	for i, n := range ns {
		if !sameLin(sts[i], n.L, r.n.L) {
			return "the swarm has another number of agents than the scale"
		}
	}
	if len(ns) == 0 {
		return "the scale's number of agents is unknown"
	}
	for _, k := range scaleCounts {
		v, ok := c.constVal("emerge/scale", k.name)
		if ok && eqConst(st, sc, v) && !eqConst(st, r.n, k.n) {
			return fmt.Sprintf("the swarm of a scale of %v agents has another number", k.n)
		}
	}
	if a.coh != nil && st.entail(a.coh.L).lo > 0 {
		if !sameLin(st, a.coh.L, r.coh.L) {
			return "the swarm's target is not the coherence asked for"
		}
		return ""
	}
	if a.coh != nil && st.entail(a.coh.L).hi > 0 {
		return "it is not known whether a coherence was asked for"
	}
	cs, sts := of("DefaultTargetCoherence")
	for i, n := range cs {
		if !sameLin(sts[i], n.L, r.coh.L) {
			return "the swarm's target is not the scale's own"
		}
	}
	if len(cs) == 0 {
		return "the scale's coherence is unknown"
	}
	return ""
}

func checkC34(c *Ctx) {
	w := &clientWorld{c: c}
	fresh := func() *State {
		w.it = c.exactInterp(1)
		w.it.unrollJoin = false
		w.it.unrollPaths, w.it.maxPath = 4000, 20000
		w.models()
		return newState()
	}
	names := []string{"New", "Custom", "NewWithOptions", "MinimizeAPICalls", "DistributeLoad", "Default", "WithGoalOption", "WithScaleOption", "WithCoherenceOption",
		"Builder.WithGoal", "Builder.WithScale", "Builder.WithTargetCoherence", "Builder.Build"}
	fns := map[string]*ssa.Function{}
	for _, n := range names {
		if fns[n] = c.fn(clientPkg, n); fns[n] == nil {
			return
		}
	}
	goalOf := func(n string) *Num { v, _ := c.constVal("emerge/goal", n); return w.it.constNum(v) }
	scaleOf := func(n string) *Num { v, _ := c.constVal("emerge/scale", n); return w.it.constNum(v) }
	defaults := func() asked { return asked{goal: goalOf("MinimizeAPICalls"), scale: scaleOf("Tiny")} }
	whole := func(what string, r Outcome) (client Value, ok bool) {
		if r.panicked {
			c.ob("whole", what, false, r.pos, "%s can panic", what)
			return nil, false
		}
		cl, e := nilPtr(w.it.ret(r, 0)), errNil(r.st, w.it.ret(r, 1))
		c.ob("whole", what, cl+e == 2 && cl != 1, r.pos, "%s returns both a client and an error, or neither", what)
		return w.it.ret(r, 0), e == 0
	}
	value := func(st *State, kind byte, i int) Value {
		switch kind {
		case 'g':
			n := w.it.freshNum(fmt.Sprintf("goal%d", i), Iv{0, 20}, false, true)
			return n
		case 's':
			return w.it.freshNum(fmt.Sprintf("scale%d", i), Iv{-1, 10}, false, true)
		}
		return w.it.freshNum(fmt.Sprintf("coherence%d", i), Iv{-maxFinite, maxFinite}, false, false)
	}
	note := func(a *asked, kind byte, v Value) {
		switch kind {
		case 'g':
			a.goal = v
		case 's':
			a.scale = v
		default:
			a.coh = v.(*Num)
		}
	}
	// the builder
	build := func(st *State, b Value, what string, a asked) {
		some := false
		for _, r := range c.run(w.it, fns["Builder.Build"], []Value{b}, nil, st, nil) {
			if cl, ok := whole("Build", r); ok {
				some = true
				why := w.match(r.st, a)
				c.ob("built", what, why == "", r.pos, "%s (%s)", why, what)
				w.keeps(r.st, cl)
			}
		}
		c.ob("built", what, some, fns["Builder.Build"].Pos(), "no client is built (%s)", what)
	}
	setters := map[byte]string{'g': "WithGoal", 's': "WithScale", 'c': "WithTargetCoherence"}
	var seqs []string
	var grow func(s string)
	grow = func(s string) {
		seqs = append(seqs, s)
		if len(s) < 3 {
			for _, k := range "gsc" {
				grow(s + string(k))
			}
		}
	}
	grow("")
	for _, start := range []string{"New", "Custom"} {
		for _, s := range seqs {
			if start == "Custom" && len(s) > 1 {
				continue
			}
			what := fmt.Sprintf("%s, %q", start, s)
			st := fresh()
			a := defaults()
			cur := []Outcome{}
			for _, r := range c.run(w.it, fns[start], nil, nil, st, nil) {
				cur = append(cur, r)
			}
			for i := range s {
				v := value(st, s[i], i)
				note(&a, s[i], v)
				var next []Outcome
				for _, o := range cur {
					next = append(next, c.run(w.it, fns["Builder."+setters[s[i]]], []Value{w.it.ret(o, 0), v}, nil, o.st, nil)...)
				}
				cur = next
			}
			c.ob("built", what, len(cur) > 0, fns[start].Pos(), "no builder is left (%s)", what)
			for _, o := range cur {
				// split on whether a coherence was asked for
				b := w.it.ret(o, 0)
				if a.coh == nil {
					build(o.st, b, what, a)
					continue
				}
				up, down := o.st.clone(), o.st
				up.assume(a.coh.L, Iv{math.SmallestNonzeroFloat64, maxFinite})
				down.assume(a.coh.L, Iv{-maxFinite, 0})
				build(up, b, what, a)
				build(down, b, what+" (not positive)", a)
			}
		}
	}
	// options
	optT := fns["WithGoalOption"].Signature.Results().At(0).Type()
	options := map[byte]string{'g': "WithGoalOption", 's': "WithScaleOption", 'c': "WithCoherenceOption"}
	run := func(what string, st *State, opts []Value, each func(r Outcome, ok bool)) {
		n := 0
		for _, r := range c.run(w.it, fns["NewWithOptions"], []Value{w.it.sliceOf(st, optT, opts)}, nil, st, nil) {
			if cl, ok := whole("NewWithOptions", r); !r.panicked {
				n++
				each(r, ok)
				if ok {
					w.keeps(r.st, cl)
				}
			}
		}
		c.ob("options", what, n > 0, fns["NewWithOptions"].Pos(), "NewWithOptions does not return (%s)", what)
	}
	for _, s := range seqs {
		what := fmt.Sprintf("options %q", s)
		st := fresh()
		a := defaults()
		var opts []Value
		var cohs []*Num
		for i := range s {
			v := value(st, s[i], i)
			note(&a, s[i], v)
			if s[i] == 'c' {
				cohs = append(cohs, v.(*Num))
			}
			for _, r := range c.run(w.it, fns[options[s[i]]], []Value{v}, nil, st, nil) {
				opts = append(opts, w.it.ret(r, 0))
				st = r.st
			}
		}
		run(what, st, opts, func(r Outcome, ok bool) {
			if ok {
				why := ""
				for _, n := range cohs {
					if b := best(r.st, n); b.lo < 0 || b.hi > 1 || r.st.entail(n.L).lo < 0 || r.st.evalLin(n.L).lo <= 0 && !(b.lo > 0) {
						why = fmt.Sprintf("a coherence that is not in (0, 1] is accepted: %v", b)
					}
				}
				if why == "" {
					if a.coh != nil {
						r.st.assume(a.coh.L, Iv{math.SmallestNonzeroFloat64, 1})
					}
					why = w.match(r.st, a)
				}
				c.ob("options", what, why == "", r.pos, "%s (%s)", why, what)
				return
			}
			bad := false
			for _, n := range cohs {
				b := best(r.st, n)
				bad = bad || b.hi <= 0 || b.lo >= 1
			}
			c.ob("options", what+" refused", bad && len(since(r.st, nil, "swarm")) == 0, r.pos, "an option is refused although every coherence is in (0, 1], or a swarm is created all the same (%s)", what)
		})
	}
	for _, v := range []float64{-1, -1e-9, 0, 1e-9, 0.5, 0.999, 1, 1 + 1e-9, 2, 100} {
		st := fresh()
		a := defaults()
		a.coh = w.it.constNum(v)
		what := fmt.Sprintf("coherence %v", v)
		for _, o := range c.run(w.it, fns["WithCoherenceOption"], []Value{a.coh}, nil, st, nil) {
			run(what, o.st, []Value{w.it.ret(o, 0)}, func(r Outcome, ok bool) {
				why := ""
				if ok {
					why = w.match(r.st, a)
				}
				c.ob("options", what, ok == (v > 0 && v <= 1) && why == "", r.pos, "%s is accepted: %v %s", what, ok, why)
			})
		}
	}
	st := fresh()
	own := w.it.hostFn("failing", func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: w.it.anError("refused")}} })
	for at := 0; at < 3; at++ {
		st = fresh()
		var opts []Value
		for i := 0; i < 3; i++ {
			if i == at {
				opts = append(opts, own)
				continue
			}
			for _, r := range c.run(w.it, fns["WithScaleOption"], []Value{value(st, 's', i)}, nil, st, nil) {
				opts = append(opts, w.it.ret(r, 0))
				st = r.st
			}
		}
		what := fmt.Sprintf("failing option %d", at+1)
		run(what, st, opts, func(r Outcome, ok bool) {
			c.ob("options", what, !ok && isError(r.st, w.it.ret(r, 1), "refused") && len(since(r.st, nil, "swarm")) == 0, r.pos, "an option's error is lost, or a swarm is created all the same (%s)", what)
		})
	}
	// one line
	for _, k := range []string{"MinimizeAPICalls", "DistributeLoad", "Default"} {
		st := fresh()
		a := defaults()
		var args []Value
		if k != "Default" {
			v := value(st, 's', 0)
			a.goal, a.scale = goalOf(k), v
			args = []Value{v}
		}
		n := 0
		for _, r := range c.run(w.it, fns[k], args, nil, st, nil) {
			if cl, ok := whole(k, r); ok {
				n++
				why := w.match(r.st, a)
				c.ob("built", k, why == "", r.pos, "%s (%s)", why, k)
				w.keeps(r.st, cl)
			}
		}
		c.ob("built", k, n > 0, fns[k].Pos(), "no client is built (%s)", k)
	}
	// failures of the swarm
	for _, k := range []string{"MinimizeAPICalls", "DistributeLoad", "Default", "NewWithOptions"} {
		st := fresh()
		w.fail = true
		args := lazyArgs(w.it, fns[k])
		if k == "NewWithOptions" {
			args = []Value{w.it.sliceOf(st, optT, nil)}
		}
		for _, r := range c.run(w.it, fns[k], args, nil, st, nil) {
			_, ok := whole(k, r)
			c.ob("whole", k+", failing", !ok && !r.panicked && isError(r.st, w.it.ret(r, 1), "no swarm"), r.pos, "the swarm's error is not passed on by %s", k)
		}
		w.fail = false
	}
	w.simulation(fresh)
}

// keeps: the client asks the swarm it was built with.
func (w *clientWorld) keeps(st *State, client Value) {
	c, it := w.c, w.it
	made := w.created(st)
	for f, to := range map[string]string{"Agents": "Agents", "Coherence": "CurrentCoherence", "IsConverged": "IsConverged", "Size": "Size", "Start": "Run", "Swarm": "", "Config": ""} {
		fn := c.fn(clientPkg, "Client."+f)
		if fn == nil {
			return
		}
		args := lazyArgs(it, fn)
		args[0] = client
		s := st.clone()
		if f == "Start" {
			args[1] = it.nonNil(s, it.force(s, args[1]))
		}
		for _, r := range c.run(it, fn, args, nil, s, nil) {
			if r.panicked {
				c.ob("asks", f, false, r.pos, "%s can panic", f)
				continue
			}
			got := it.ret(r, 0)
			if to == "" {
				want := made.swarm
				if f == "Config" {
					want = made.config
				}
				c.ob("asks", f, ptrObj(got) != nil && ptrObj(got) == ptrObj(want), r.pos, "%s does not return what the client was built with", f)
				continue
			}
			evs := since(r.st, st.ev, "asked")
			good := false
			for _, e := range evs {
				d := e.data.([]Value)
				n, _ := strOf(r.st, d[0])
				if (n == to || f == "Coherence" && n == "MeasureCoherence") && ptrObj(d[1]) != nil && ptrObj(d[1]) == ptrObj(made.swarm) && same(r.st, it.force(r.st, d[len(d)-1]), got) && (f != "Start" || ctxName(d[2]) == ctxName(args[1])) {
					good = true
				}
			}
			c.ob("asks", f, good && len(evs) == 1, r.pos, "%s does not return the answer of the client's swarm", f)
		}
	}
}

func same(st *State, a, b Value) bool {
	if alike(st, a, b) {
		return true
	}
	switch x := a.(type) {
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.o == y.o
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.id == y.id && x.id != 0
	}
	return false
}

func (w *clientWorld) simulation(fresh func() *State) {
	c := w.c
	nw := c.fn(simPkg, "New")
	if nw == nil {
		return
	}
	for _, fail := range []bool{false, true} {
		for _, sc := range []string{"Tiny", "Huge", ""} {
			st := fresh()
			it := w.it
			w.fail = fail
			it.models[modPath+"/"+simPkg+".NewWorkloadWithEmerge"] = func(k *callCtx) []Outcome {
				return []Outcome{{st: k.st, ret: it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "workload", false)))}}
			}
			args := lazyArgs(it, nw)
			cfg, ok := it.force(st, args[0]).(*StructV)
			if !ok {
				c.missing("the configuration New takes")
				return
			}
			a := asked{goal: it.freshNum("goal", Iv{0, 20}, false, true), scale: it.freshNum("scale", Iv{-1, 10}, false, true), coh: it.freshNum("coherence", Iv{0, 1}, false, false)}
			st.assume(a.coh.L, Iv{math.SmallestNonzeroFloat64, 1})
			if sc != "" {
				v, _ := c.constVal("emerge/scale", sc)
				a.scale = it.constNum(v)
			}
			u := structOf(cfg.typ)
			for i := 0; i < u.NumFields(); i++ {
				switch u.Field(i).Name() {
				case "Goal":
					cfg.f[i] = a.goal
				case "Scale":
					cfg.f[i] = a.scale
				case "TargetCoherence":
					cfg.f[i] = a.coh
				}
			}
			args[0] = cfg
			n := 0
			what := fmt.Sprintf("scale %q", sc)
			for _, r := range c.run(it, nw, args, nil, st, nil) {
				if r.panicked {
					c.ob("simulation", what, false, r.pos, "New can panic")
					continue
				}
				n++
				e := it.ret(r, 1)
				if fail {
					c.ob("simulation", what+", failing", nilPtr(it.ret(r, 0)) == 0 && isError(r.st, e, "no swarm"), r.pos, "the swarm's error is not passed on by New")
					continue
				}
				why := "an error is returned"
				if errNil(r.st, e) == 0 {
					why = w.match(r.st, a)
				}
				c.ob("simulation", what, why == "", r.pos, "%s (%s)", why, what)
			}
			c.ob("simulation", what, n > 0, nw.Pos(), "New does not return")
		}
	}
	w.fail = false
}
