package main

// Properties of a single agent: state ranges, actions, atomic updates, autonomy.

import (
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const agentPkg = "emerge/agent"

func fieldIn(t types.Type, rel, typ string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if p, ok2 := t.(*types.Pointer); ok2 {
			return fieldIn(p.Elem(), rel, typ)
		}
		return false
	}
	return n.Obj().Name() == typ && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+rel
}

// agentInv: invariants of published agent records, assumed at loads and proved at publications.
func agentInv(parent types.Type, field string) (Iv, bool, bool) {
	if parent == nil {
		return Iv{}, false, false
	}
	if fieldIn(parent, agentPkg, "StateData") {
		switch field {
		case "Phase", "LocalGoal":
			return Iv{0, 2 * math.Pi}, false, true
		case "Energy":
			return Iv{0, maxFinite}, false, true
		}
	}
	if fieldIn(parent, agentPkg, "BehaviorData") {
		switch field {
		case "Influence", "Stubbornness":
			return Iv{0, 1}, false, true
		}
	}
	return Iv{}, false, false
}

const maxFinite = 1e100

// cells of the agent's shared state, found by the type of the record they hold.
func (c *Ctx) cellsHolding(rel, typ string) []string {
	var out []string
	for k, tys := range c.P.atomTypes {
		for _, t := range tys {
			if fieldIn(t, rel, typ) {
				out = append(out, k)
			}
		}
	}
	return out
}

func newAgentInterp(c *Ctx) *Interp {
	it := NewInterp(c.P)
	it.numInv = agentInv
	it.maxPath = 24
	it.atomNonNil = map[string]bool{}
	for _, k := range append(c.cellsHolding(agentPkg, "StateData"), c.cellsHolding(agentPkg, "BehaviorData")...) {
		it.atomNonNil[k] = true
	}
	// contract of the resource interface: the available amount is a non-negative number
	it.models["iface:("+modPath+"/emerge/core.ResourceManager).Available"] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: k.it.freshNum("rm.Available", Iv{0, maxFinite}, false, false)}}
	}
	// agent options are analysed one by one; applying one keeps the invariants
	it.skipDyn = func(st *State, f *FuncV, args []Value, sig *types.Signature) bool {
		return isAgentOption(sig) && len(it.stack) > 0
	}
	return it
}

func isAgentOption(sig *types.Signature) bool {
	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return false
	}
	return fieldIn(sig.Params().At(0).Type(), agentPkg, "Agent")
}

// isRecord: the published value is (a pointer to) the named record.
func recordOf(v Value, rel, typ string) *StructV {
	s, ok := v.(*StructV)
	if ok && fieldIn(s.typ, rel, typ) {
		return s
	}
	return nil
}

// agentEntries: everything outside code can call on an agent.
func (c *Ctx) agentEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.api(agentPkg) {
		if r := f.Signature.Recv(); r != nil {
			// the cells themselves are encapsulated in the agent
			if fieldIn(r.Type(), agentPkg, "AtomicState") || fieldIn(r.Type(), agentPkg, "AtomicBehavior") {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// exposes: no exported agent API hands out the cell type, so only the package writes it.
func (c *Ctx) checkEncapsulated(rel string, typs ...string) {
	leak := func(t types.Type) bool {
		for _, n := range typs {
			if fieldIn(t, rel, n) {
				return true
			}
		}
		return false
	}
	at := c.P.typ(rel, "Agent")
	if at == nil {
		c.missing("type Agent")
		return
	}
	s := structOf(at)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if leak(f.Type()) {
			c.ob("encapsulated", "Agent."+f.Name(), !f.Exported(), f.Pos(), "the cell of the agent's state is an exported field: any code can overwrite it")
		}
	}
	for _, f := range c.agentEntries() {
		if f.Signature.Recv() == nil {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if leak(f.Signature.Results().At(i).Type()) {
				c.ob("encapsulated", fname(f), false, f.Pos(), "returns the agent's internal state cell")
			}
		}
	}
}

// runEntries drives every entry point (and every option it returns) with arbitrary arguments.
func (c *Ctx) runAgentEntries(hook func(it *Interp, entry *ssa.Function, s *State, e *Ev), done func(it *Interp, entry *ssa.Function, rs []Outcome)) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	for _, f := range c.agentEntries() {
		it := newAgentInterp(c)
		it.pubLocal = true
		h := func(s *State, e *Ev) {
			if hook != nil {
				hook(it, f, s, e)
			}
		}
		rs := c.run(it, f, lazyArgs(it, f), nil, newState(), h)
		res := f.Signature.Results()
		if res.Len() == 1 {
			if sig, ok := res.At(0).Type().Underlying().(*types.Signature); ok && isAgentOption(sig) {
				for _, r := range rs {
					if r.panicked {
						continue
					}
					fv, ok := it.force(r.st, r.ret).(*FuncV)
					if !ok || fv.unknown {
						c.ob("analysis", fname(f), false, f.Pos(), "the option returned cannot be resolved")
						continue
					}
					ag := it.lazy(types.NewPointer(c.P.typ(agentPkg, "Agent")), "a", true)
					st := r.st
					st.regs = nil
					rs2 := c.exec(it, fname(f), h, func() []Outcome {
						it.stack = nil
						return it.CallFunc(st, fv, []Value{it.force(st, ag)}, sig, f.Pos())
					})
					if done != nil {
						done(it, f, rs2)
					}
				}
			}
		}
		if done != nil {
			done(it, f, rs)
		}
		for g := range it.seenFn {
			seen[g] = true
		}
	}
	// option literals not produced by an exported option constructor
	for _, f := range c.P.funcs {
		if f.Parent() == nil || !isAgentOption(f.Signature) || seen[f] || !c.P.inScope(f) {
			continue
		}
		it := newAgentInterp(c)
		it.pubLocal = true
		var b []Value
		for _, fv := range f.FreeVars {
			b = append(b, it.lazy(fv.Type(), fv.Name(), false))
		}
		f := f
		rs := c.run(it, f, lazyArgs(it, f), b, newState(), func(s *State, e *Ev) {
			if hook != nil {
				hook(it, f, s, e)
			}
		})
		if done != nil {
			done(it, f, rs)
		}
		for g := range it.seenFn {
			seen[g] = true
		}
	}
	return seen
}

// publishers: functions that directly write an atomic cell holding the record type.
func (c *Ctx) checkPublishersCovered(seen map[*ssa.Function]bool, typs ...string) {
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				n := g.String()
				if !(strings.HasSuffix(n, ".Store") || strings.HasSuffix(n, ".CompareAndSwap") || strings.HasSuffix(n, ".Swap")) || !strings.Contains(n, "atomic.") {
					continue
				}
				ft, _, ok := fieldOfAddr(call.Common().Args[0])
				if !ok {
					continue
				}
				for _, t := range typs {
					if fieldIn(ft, agentPkg, t) {
						// constructors of the bare cell and its raw writer are analysed through their callers
						c.ob("writer covered", fname(f), seen[f] || rawWriterUnused(c, f), ins.Pos(), "a writer of the agent state is not reached from any analysed entry point")
					}
				}
			}
		}
	}
}

// rawWriterUnused: an exported raw writer of the encapsulated cell that nothing calls.
func rawWriterUnused(c *Ctx, f *ssa.Function) bool {
	for _, g := range c.P.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(f) {
						return false
					}
				}
			}
		}
	}
	return true
}

func rangeHook(c *Ctx, typ string, want map[string]Iv, why map[string]string) func(it *Interp, entry *ssa.Function, s *State, e *Ev) {
	return func(it *Interp, entry *ssa.Function, s *State, e *Ev) {
		if e.kind != "publish" {
			return
		}
		p := e.data.(*PubEv)
		pt, _ := parentField(p.cell.o.typ, p.cell.path)
		if pt == nil {
			return
		}
		cellT := map[string]string{"StateData": "AtomicState", "BehaviorData": "AtomicBehavior"}[typ]
		rec := recordOf(p.v, agentPkg, typ)
		if rec == nil {
			if fieldIn(pt, agentPkg, cellT) {
				d := it.show(s, p.raw)
				it.observe(func() {
					c.ob("record published", fname(entry), false, e.pos, "the published value cannot be resolved to one %s record: %s", typ, d)
				})
			}
			return
		}
		for _, f := range keysSorted(want) {
			n := it.numField(s, rec, f)
			ok := n != nil && within(s, n, want[f])
			d := "unresolved"
			if n != nil {
				d = numStr(s, n)
			}
			f := f
			it.observe(func() {
				c.ob(f+" "+why[f], fname(entry), ok, e.pos, "publishes %s = %s, required %s", f, d, want[f].String())
			})
		}
	}
}

func init() {
	register(&Check{id: "C01", run: checkC01,
		rules: []string{"At every publication of an agent's state record, for arbitrary finite arguments, phase and preferred phase lie in [0, 2π] (interval + modular abstract domain); loads may assume what every publication establishes.",
			"The state cell is encapsulated: no exported field or method hands it out, and every writer of the cell is reached by an analysed entry point."},
		assume: []string{"arguments are finite numbers of magnitude at most 1e100 (NaN and infinities excluded)", "custom resource managers report a non-negative amount"},
		floor:  map[string]int{"Phase in [0, 2π]": 8, "LocalGoal in [0, 2π]": 8, "writer covered": 1}})
	register(&Check{id: "C02", run: checkC02,
		rules: []string{"At every publication of an agent's records, for arbitrary finite arguments, energy is >= 0 and influence and stubbornness lie in [0, 1].",
			"The cells are encapsulated and every writer is reached by an analysed entry point."},
		assume: []string{"arguments are finite numbers of magnitude at most 1e100 (NaN and infinities excluded)", "custom resource managers report a non-negative amount"},
		floor:  map[string]int{"Energy not negative": 8, "Influence in [0, 1]": 4, "Stubbornness in [0, 1]": 4, "writer covered": 1}})
}

func checkC01(c *Ctx) {
	seen := c.runAgentEntries(rangeHook(c, "StateData",
		map[string]Iv{"Phase": {0, 2 * math.Pi}, "LocalGoal": {0, 2 * math.Pi}},
		map[string]string{"Phase": "in [0, 2π]", "LocalGoal": "in [0, 2π]"}), nil)
	c.checkEncapsulated(agentPkg, "AtomicState")
	c.checkPublishersCovered(seen, "AtomicState")
	c.checkConstructed("AtomicState", "StateData")
}

func checkC02(c *Ctx) {
	h1 := rangeHook(c, "StateData", map[string]Iv{"Energy": {0, math.Inf(1)}}, map[string]string{"Energy": "not negative"})
	h2 := rangeHook(c, "BehaviorData", map[string]Iv{"Influence": {0, 1}, "Stubbornness": {0, 1}},
		map[string]string{"Influence": "in [0, 1]", "Stubbornness": "in [0, 1]"})
	seen := c.runAgentEntries(func(it *Interp, entry *ssa.Function, s *State, e *Ev) { h1(it, entry, s, e); h2(it, entry, s, e) }, nil)
	c.checkEncapsulated(agentPkg, "AtomicState", "AtomicBehavior")
	c.checkPublishersCovered(seen, "AtomicState", "AtomicBehavior")
	c.checkConstructed("AtomicState", "StateData")
	c.checkConstructed("AtomicBehavior", "BehaviorData")
}

// checkConstructed: every place that creates an agent leaves both cells holding a record.
func (c *Ctx) checkConstructed(cell, rec string) {
	at := c.P.typ(agentPkg, "Agent")
	for _, f := range c.P.funcs {
		makes := false
		var pos token.Pos
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), at) {
					makes, pos = true, a.Pos()
				}
			}
		}
		if !makes {
			continue
		}
		it := newAgentInterp(c)
		rs := c.run(it, f, lazyArgs(it, f), nil, newState(), nil)
		for _, r := range rs {
			if r.panicked {
				continue
			}
			for o, v := range r.st.mem {
				if !types.Identical(o.typ, at) || o.input {
					continue
				}
				ok := false
				u := structOf(at)
				for i := 0; i < u.NumFields(); i++ {
					if !fieldIn(u.Field(i).Type(), agentPkg, cell) {
						continue
					}
					inner := it.deref(r.st, it.getPath(r.st, v, []int{i}))
					if sv, k := inner.(*StructV); k {
						for j := range sv.f {
							switch x := it.force(r.st, sv.f[j]).(type) {
							case *IfaceV:
								ok = ok || x.nilp == 0 && len(x.alts) > 0
							case *PtrV:
								ok = ok || x.nilp == 0 && len(x.ts) > 0
							}
						}
					}
				}
				c.ob("constructed with "+rec, fname(f), ok, pos, "an agent is created whose %s holds no record: its accessors fail or report zero values", cell)
			}
		}
	}
}
