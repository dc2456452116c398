package main

// Construction of swarms and of the networks that connect their agents.

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C19", run: checkC19,
		rules: []string{"Every outcome of both constructors is either an error and no swarm, or a swarm and no error; a size below 1, an invalid goal, configuration or goal configuration, a failing option, a failing topology or a size over the configured maximum is always an error.",
			"Every successful outcome: the size is the requested one, the configuration passes Validate for it, the goal keeps phase and frequency, and its coherence is the requested one capped at the practical limit."},
		assume: []string{"finite numbers", "agents built for the sizes named (1, 2 and 101); error handling also for every size below 1"},
		floor:  map[string]int{"whole or not at all": 2, "rejected": 6, "size": 2, "config": 2, "goal": 2}})
}

// typedField: the (unique) field of a struct with the given type.
func (it *Interp) typedField(st *State, v Value, rel, name string) Value {
	s, ok := it.force(st, v).(*StructV)
	if !ok {
		return nil
	}
	u := structOf(s.typ)
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if n, ok := u.Field(i).Type().(*types.Named); ok && fieldIn(n, rel, name) {
			s.f[i] = it.force(st, s.f[i])
			return s.f[i]
		}
	}
	return nil
}

func nilPtr(v Value) int { // 0 nil, 1 maybe, 2 not nil
	p, ok := v.(*PtrV)
	if !ok {
		return 1
	}
	switch p.nilp {
	case 2:
		return 0
	case 0:
		return 2
	}
	return 1
}

func checkC19(c *Ctx) {
	nw := c.fn(swarmPkg, "New")
	fc := c.fn(swarmPkg, "NewSwarmFromConfig")
	valid := c.fn(corePkg, "State.Validate")
	cfgValid := c.fn(cfgPkg, "Swarm.Validate")
	norm := c.fn(cfgPkg, "Swarm.NormalizeAndValidate")
	goalValid := c.fn(swarmPkg, "Config.Validate")
	limits := c.fn(swarmPkg, "GetCoherenceLimits")
	if nw == nil || fc == nil || valid == nil || cfgValid == nil || norm == nil || goalValid == nil || limits == nil {
		return
	}
	mk := func(symCfg bool) *Interp {
		it := c.exactInterp(1)
		if symCfg {
			c.normContract(it, norm)
			it.maxPath = 1000
		}
		return it
	}
	ot := nw.Signature.Params().At(2).Type().(*types.Slice).Elem()
	fail := func(it *Interp) Value {
		return it.hostFn("failing", func(k *callCtx) []Outcome {
			return []Outcome{{st: k.st, ret: &IfaceV{nilp: 0, id: k.it.id(), alts: []IfT{{nil, &ErrV{desc: "option failed"}}}}}}
		})
	}
	type build struct {
		name string
		run  func(it *Interp, st *State, size *Num, goal Value, cfg Value, opts []Value) []Outcome
	}
	builds := []build{
		{"New", func(it *Interp, st *State, size *Num, goal Value, cfg Value, opts []Value) []Outcome {
			if cfg != nil {
				opts = append([]Value{c.option(it, st, "WithConfig", cfg)}, opts...)
			}
			return c.run(it, nw, []Value{size, goal, it.sliceOf(st, ot, opts)}, nil, st, nil)
		}},
		{"NewSwarmFromConfig", func(it *Interp, st *State, size *Num, goal Value, cfg Value, opts []Value) []Outcome {
			return c.run(it, fc, []Value{size, goal, cfg}, nil, st, nil)
		}},
	}
	symGoal := func(it *Interp) Value { return it.lazy(nw.Signature.Params().At(1).Type(), "goal", true) }
	symCfg := func(it *Interp) Value { return it.lazy(fc.Signature.Params().At(2).Type(), "config", true) }
	// outcome kinds
	kind := func(it *Interp, r Outcome) (int, int) { // swarm nil-ness, error nil-ness (0 nil, 2 not nil)
		return nilPtr(it.ret(r, 0)), errNil(r.st, it.ret(r, 1))
	}
	whole := func(b build, it *Interp, r Outcome) bool {
		if r.panicked {
			c.ob("no panic", b.name, false, r.pos, "%s can panic", b.name)
			return false
		}
		s, e := kind(it, r)
		c.ob("whole or not at all", b.name, s+e == 2 && s != 1, r.pos, "%s returns swarm %s with error %s", b.name, it.show(r.st, it.ret(r, 0)), it.show(r.st, it.ret(r, 1)))
		return s == 2
	}
	finite := func(it *Interp, st *State, v Value, fs ...string) {
		for _, f := range fs {
			if n := it.numField(st, v, f); n != nil {
				st.assume(n.L, Iv{-maxFinite, maxFinite})
			}
		}
	}
	rejected := func(b build, what string, it *Interp, rs []Outcome) {
		for _, r := range rs {
			if r.panicked {
				c.ob("no panic", b.name+", "+what, false, r.pos, "%s can panic", b.name)
				continue
			}
			s, e := kind(it, r)
			c.ob("rejected", b.name+", "+what, s == 0 && e == 2, r.pos, "%s accepts %s", b.name, what)
		}
	}
	for _, b := range builds {
		for _, n := range []int{0, 1, 2, 101} {
			if n > 1 && b.name != "New" {
				continue // connecting agents under any configuration is C20's subject
			}
			for _, custom := range []bool{false, true} {
				if !custom && b.name != "New" || custom && n > 2 {
					continue
				}
				it := mk(custom)
				st := newState()
				size := it.constNum(float64(n))
				if n == 0 {
					size = it.freshNum("size", Iv{-1e15, 0}, false, true)
					st.assume(size.L, Iv{-1e15, 0})
				}
				goal := it.force(st, symGoal(it))
				finite(it, st, goal, "Phase", "Coherence")
				var cfg Value
				if custom {
					cfg = it.force(st, symCfg(it))
				}
				var opts []Value
				if b.name == "New" {
					opts = []Value{c.noTopology(it, st)}
				}
				rs := b.run(it, st, size, goal, cfg, opts)
				what := fmt.Sprintf("%s, %d agents", b.name, n)
				if custom {
					what += ", any configuration"
				}
				if n == 0 {
					rejected(b, "size below 1", it, rs)
					for _, r := range rs {
						if !r.panicked {
							c.ob("rejected", b.name+", named error", c.isSentinel(it.ret(r, 1), swarmPkg, "ErrInvalidSwarmSize"), r.pos, "the error for a size below 1 is not ErrInvalidSwarmSize")
						}
					}
					continue
				}
				good := 0
				for _, r := range rs {
					if !whole(b, it, r) {
						continue
					}
					good++
					sw := it.ret(r, 0)
					c.eachRun(it, c.fn(swarmPkg, "Swarm.Size"), []Value{sw}, r.st.clone(), "Size", func(q Outcome) {
						m := it.numRet(q, 0)
						c.ob("size", what, m != nil && eqConst(q.st, m, float64(n)), q.pos, "Size is %s", it.show(q.st, m))
					})
					c.eachRun(it, c.fn(swarmPkg, "Swarm.Config"), []Value{sw}, r.st.clone(), "Config", func(q Outcome) {
						got := it.ret(q, 0)
						recv := c.recvOf(it, q.st, cfgValid, got)
						if custom {
							// the configuration is one NormalizeAndValidate accepted for this size, unchanged since
							last := lastEv(q.st, "validated")
							ok := last != nil
							if ok {
								v := last.data.(*validated)
								ok = v.ok && eqConst(q.st, v.size, float64(n)) && sameStruct(it, q.st, v.cfg, got)
							}
							c.ob("config", what, ok, q.pos, "the swarm's configuration is not the one accepted by NormalizeAndValidate for %d agents", n)
							return
						}
						c.eachRun(it, cfgValid, []Value{recv, size}, q.st, "Validate", func(w Outcome) {
							c.ob("config", what, errNil(w.st, it.ret(w, 0)) == 0, w.pos, "the swarm's configuration can be invalid: %s", cfgOf(it, w.st, got, swarmConds()))
						})
					})
					// goal
					c.eachRun(it, valid, []Value{c.recvOf(it, r.st, valid, goal)}, r.st.clone(), "State.Validate", func(q Outcome) {
						c.ob("goal", what+", valid", errNil(q.st, it.ret(q, 0)) == 0, q.pos, "a swarm is built for an invalid goal")
					})
					g := it.typedField(r.st, it.deref(r.st, sw), corePkg, "State")
					if g == nil {
						c.missing("the goal state a swarm keeps")
						continue
					}
					for _, f := range []string{"Phase", "Frequency"} {
						c.ob("goal", what+", "+f, sameNum(r.st, it.numField(r.st, g, f), it.numField(r.st, goal, f)), r.pos, "the swarm's goal has another %s: %s", f, it.show(r.st, it.field(r.st, g, f)))
					}
					if b.name == "New" {
						c.eachRun(it, limits, []Value{size}, r.st.clone(), "GetCoherenceLimits", func(q Outcome) {
							pr := it.numField(q.st, it.ret(q, 0), "Practical")
							for i, above := range []Iv{{math.Inf(-1), 0}, {tiny, math.Inf(1)}} {
								s := q.st.clone()
								asked, got := it.numField(s, goal, "Coherence"), it.numField(s, g, "Coherence")
								if !s.assume(linSub(asked.L, pr.L), above) {
									continue
								}
								want := asked
								if i == 1 {
									want = pr
								}
								c.ob("goal", what+", Coherence", got != nil && (sameNum(s, got, want) || eqConst(s, linNum(linSub(got.L, want.L)), 0)), r.pos, "a request for coherence %s (practical limit %s) gives the goal %s", it.show(s, asked), it.show(s, pr), it.show(s, got))
							}
						})
					}
				}
				c.ob("size", what+", possible", good > 0, 0, "%s never succeeds", what)
			}
		}
		// rejections
		reject := func(what string, n int, prep func(it *Interp, st *State) (goal Value, cfg Value, opts []Value, ok bool)) {
			it := mk(true)
			st := newState()
			goal, cfg, opts, ok := prep(it, st)
			if !ok {
				return
			}
			if b.name != "New" && cfg == nil {
				return
			}
			rejected(b, what, it, b.run(it, st, it.constNum(float64(n)), goal, cfg, opts))
		}
		okGoal := func(it *Interp, st *State) Value {
			g := it.force(st, symGoal(it))
			finite(it, st, g, "Phase", "Coherence")
			return g
		}
		// an invalid goal: whatever State.Validate refuses
		{
			it := mk(false)
			st := newState()
			g := okGoal(it, st)
			for _, r := range c.run(it, valid, []Value{c.recvOf(it, st, valid, g)}, nil, st, nil) {
				if r.panicked || errNil(r.st, it.ret(r, 0)) != 2 {
					continue
				}
				cfg := it.force(r.st, symCfg(it))
				if b.name == "New" {
					cfg = nil
				}
				rejected(b, "an invalid goal", it, b.run(it, r.st, it.constNum(2), g, cfg, nil))
			}
		}
		if b.name == "New" {
			reject("a failing option", 2, func(it *Interp, st *State) (Value, Value, []Value, bool) {
				return okGoal(it, st), nil, []Value{c.noTopology(it, st), fail(it)}, true
			})
			reject("a failing topology", 2, func(it *Interp, st *State) (Value, Value, []Value, bool) {
				o := c.option(it, st, "WithTopology", fail(it))
				return okGoal(it, st), nil, []Value{o}, o != nil
			})
			// an invalid goal configuration: whatever Config.Validate refuses
			it := mk(false)
			st := newState()
			gc := it.nonNil(st, it.lazy(goalValid.Params[0].Type(), "goal configuration", true))
			for i, r := range c.run(it, goalValid, []Value{gc}, nil, st, nil) {
				if r.panicked || errNil(r.st, it.ret(r, 0)) != 2 || i > 3 && c.tier == "quick" {
					continue
				}
				f := c.fn(swarmPkg, "WithGoalConfig")
				if f == nil {
					break
				}
				for _, q := range c.run(it, f, []Value{gc}, nil, r.st, nil) {
					s2 := q.st
					nt := c.noTopology(it, s2)
					rejected(b, "an invalid goal configuration", it, b.run(it, s2, it.constNum(1), okGoal(it, s2), nil, []Value{nt, it.ret(q, 0)}))
				}
			}
		}
		// an invalid configuration: NormalizeAndValidate refuses it whenever it is asked
		it := mk(true)
		it.models[norm.String()] = func(k *callCtx) []Outcome {
			return []Outcome{{st: k.st, ret: &IfaceV{nilp: 0, id: k.it.id(), alts: []IfT{{nil, &ErrV{desc: "invalid configuration"}}}}}}
		}
		st := newState()
		rejected(b, "an invalid configuration", it, b.run(it, st, it.constNum(2), okGoal(it, st), it.force(st, symCfg(it)), nil))
	}
}

// recvOf: the value as a receiver of the method, boxed if the method wants a pointer.
func (c *Ctx) recvOf(it *Interp, st *State, f *ssa.Function, v Value) Value {
	pt, ok := f.Params[0].Type().(*types.Pointer)
	if !ok {
		return v
	}
	o := &Obj{id: it.id(), name: "recv", typ: pt.Elem()}
	st.mem[o] = v
	return &PtrV{ts: []PtrT{{o, nil}}, typ: pt.Elem()}
}

// normContract replaces NormalizeAndValidate by what C14 proves about it: an error,
// or a configuration within all documented ranges.
func (c *Ctx) normContract(it *Interp, norm *ssa.Function) {
	it.models[norm.String()] = func(k *callCtx) []Outcome {
		p, _ := k.args[0].(*PtrV)
		size, _ := k.args[1].(*Num)
		if p == nil || len(p.ts) != 1 || size == nil {
			return defaultExternal(k)
		}
		bad := k.st.clone()
		fresh := func(st *State) Value {
			return k.it.force(st, k.it.lazy(norm.Params[0].Type().(*types.Pointer).Elem(), "validated configuration", false))
		}
		v := fresh(k.st)
		for _, rc := range swarmConds() {
			rc.good(k.it, k.st, v, size)
		}
		k.it.write(k.st, p.ts[0], v)
		k.st.event("validated", k.pos, &validated{true, v, size})
		bad.event("validated", k.pos, &validated{false, nil, size})
		k.it.write(bad, p.ts[0], fresh(bad))
		return []Outcome{{st: k.st, ret: &IfaceV{nilp: 2}}, {st: bad, ret: &IfaceV{nilp: 0, id: k.it.id(), alts: []IfT{{nil, &ErrV{desc: "invalid configuration"}}}}}}
	}
}

type validated struct {
	ok   bool
	cfg  Value
	size *Num
}

func lastEv(st *State, kind string) *Ev {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == kind {
			return e
		}
	}
	return nil
}

// sameStruct: both structs hold the same values field by field.
func sameStruct(it *Interp, st *State, a, b Value) bool {
	x, ok := it.force(st, a).(*StructV)
	y, ok2 := it.force(st, b).(*StructV)
	if !ok || !ok2 || len(x.f) != len(y.f) {
		return false
	}
	for i := range x.f {
		u, v := it.force(st, x.f[i]), it.force(st, y.f[i])
		if u == v {
			continue
		}
		switch p := u.(type) {
		case *Num:
			q, ok := v.(*Num)
			if !ok || !sameNum(st, p, q) {
				return false
			}
		case *StructV:
			if !sameStruct(it, st, u, v) {
				return false
			}
		case *StrV:
			q, ok := v.(*StrV)
			if !ok || p.id != q.id || p.known != q.known || p.s != q.s {
				return false
			}
		case *BoolV:
			q, ok := v.(*BoolV)
			if !ok || p.k != q.k || p.k == 2 && (p.cond == nil || q.cond == nil || p.cond.sym != q.cond.sym || p.cond.neg != q.cond.neg) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func linNum(l *Lin) *Num { return &Num{l, ivTop} }
