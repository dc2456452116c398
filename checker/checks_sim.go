package main

// The simulation's controls: pause, resume, reset and disrupt do what they say, and the snapshot tells it.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C32", run: checkC32,
		rules: []string{"A simulation is built by New over an opaque client of a few agents and driven through every sequence of up to three pauses, resumes and disruptions, before and during a start. Every goroutine started on the way is run to see which of them synchronizes the swarm, and under which context.",
			"Start begins each workload once and billing once, under its context and with one queue, and one synchronization run; it returns when its context has ended, not before. After a pause no run is left whose context is not cancelled; after a resume exactly one is, under the context of the start, and none before a start.",
			"A snapshot shows one entry per workload with the pending tasks it has, their sum, the configured target and the recorded figures. While paused it shows the coherence and phases measured at the pause however the agents move; otherwise what it measures, and every coherence shown counts for the peak that the statistics report.",
			"A reset sets every agent exactly once, to the documented worst phases of the goal, clears tasks, batches and figures, and is shown for a while and then no more. A disruption moves exactly one agent in five, each by half a turn, and is shown until the first later measurement that reaches the target, or until its time is up."},
		assume: []string{"agents move on their own at any time", "workloads and billing as C31 has them"},
		floor:  map[string]int{"started": 4, "pause": 4, "resume": 4, "snapshot": 6, "frozen": 2, "reset": 8, "disrupt": 6}})
}

const clientPkg = "client/emerge"

type simWorld struct {
	c      *Ctx
	it     *Interp
	sim    Value
	st     *State
	agents []*PtrV
	fns    map[string]*ssa.Function
	ctxs   int
	what   string
}

func checkC32(c *Ctx) {
	kinds := func(s string) float64 { v, _ := c.constVal("emerge/goal", s); return v }
	api := kinds("MinimizeAPICalls")
	for _, n := range []int{1, 4, 5, 11} {
		if w := c.aSimulation(api, n); w != nil {
			w.disrupt()
		}
	}
	if w := c.aSimulation(api, 3); w != nil {
		w.controls()
		w.figures()
	}
	if w := c.aSimulation(kinds("DistributeLoad"), 3); w != nil {
		w.figures()
	}
	const pi = math.Pi
	spread := func(n int) (p []float64) {
		for i := 0; i < n; i++ {
			p = append(p, float64(i)*2*pi/float64(n))
		}
		return
	}
	zero := func(n int) []float64 { return make([]float64, n) }
	halves := func(low int) func(n int) []float64 {
		return func(n int) []float64 {
			p := make([]float64, n)
			for i := range p {
				if i >= (n+low)/2 {
					p[i] = pi
				}
			}
			return p
		}
	}
	for _, g := range []struct {
		name string
		want func(n int) []float64
	}{{"MinimizeAPICalls", spread}, {"DistributeLoad", zero}, {"ReachConsensus", spread}, {"MinimizeLatency", halves(1)}, {"SaveEnergy", zero},
		{"MaintainRhythm", nil}, {"RecoverFromFailure", halves(0)}, {"AdaptToTraffic", zero}} {
		v, ok := c.constVal("emerge/goal", g.name)
		if !ok {
			continue
		}
		for _, n := range []int{1, 4, 5, 11} {
			if w := c.aSimulation(v, n); w != nil {
				w.what = fmt.Sprintf("%s, %d agents", g.name, n)
				w.reset(g.want)
			}
		}
	}
}

// aSimulation: New with a client of n agents.
func (c *Ctx) aSimulation(goal float64, n int) *simWorld {
	w := &simWorld{c: c, fns: map[string]*ssa.Function{}, what: fmt.Sprintf("%d agents", n)}
	nw := c.fn(simPkg, "New")
	if nw == nil {
		return nil
	}
	for _, f := range []string{"Start", "Reset", "Disrupt", "Pause", "Resume", "Snapshot", "Statistics"} {
		if w.fns[f] = c.fn(simPkg, "Simulation."+f); w.fns[f] == nil {
			return nil
		}
	}
	it := c.exactInterp(1)
	w.it = it
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 4000, 20000
	timeModels(it)
	m := it.models
	st := newState()
	agT := c.P.typ("emerge/agent", "Agent")
	clT := c.P.typ(clientPkg, "Client")
	if agT == nil || clT == nil {
		return nil
	}
	entries, keys := map[string][2]Value{}, []string{}
	for i := 0; i < n; i++ {
		a := &PtrV{ts: []PtrT{{o: &Obj{id: it.id(), name: fmt.Sprintf("agent%d", i+1), typ: agT}}}, typ: agT}
		st.mem[a.ts[0].o] = it.force(st, it.lazy(agT, a.ts[0].o.name, false))
		k := fmt.Sprintf("a%d", i)
		entries["s:"+k] = [2]Value{it.strK(k), a}
		keys = append(keys, "s:"+k)
		w.agents = append(w.agents, a)
	}
	all := func(k *callCtx) []Outcome {
		mt, ok := k.sig.Results().At(0).Type().Underlying().(*types.Map)
		if !ok {
			return []Outcome{{st: k.st, ret: it.lazy(k.sig.Results().At(0).Type(), "agents", false)}}
		}
		o := &Obj{id: it.id(), name: "agents", typ: mt}
		own := map[string][2]Value{}
		for k, e := range entries {
			own[k] = e
		}
		k.st.mem[o] = &MapC{typ: mt, keys: append([]string{}, keys...), entries: own, n: it.constNum(float64(n)), name: "agents"}
		return []Outcome{{st: k.st, ret: &MapV{o: o, typ: mt}}}
	}
	client := &PtrV{ts: []PtrT{{o: &Obj{id: it.id(), name: "client", typ: clT}}}, typ: clT}
	st.mem[client.ts[0].o] = it.force(st, it.lazy(clT, "client", false))
	built := func(k *callCtx) []Outcome {
		r := TupleV{client, it.zero(k.sig.Results().At(1).Type())}
		return []Outcome{{st: k.st, ret: r}}
	}
	m[method(clientPkg, "Builder", "Build")] = built
	for _, f := range []string{"MinimizeAPICalls", "DistributeLoad", "Default", "NewWithOptions"} {
		m[modPath+"/"+clientPkg+"."+f] = built
	}
	size := func(k *callCtx) []Outcome { return []Outcome{{st: k.st, ret: it.constNum(float64(n))}} }
	m[method(clientPkg, "Client", "Agents")] = all
	m[method(swarmPkg, "Swarm", "Agents")] = all
	m[method(clientPkg, "Client", "Size")] = size
	m[method(swarmPkg, "Swarm", "Size")] = size
	m[method(clientPkg, "Client", "Start")] = func(k *callCtx) []Outcome {
		k.st.event("swarm run", k.pos, ctxName(k.args[1]))
		return []Outcome{{st: k.st, ret: it.zero(k.sig.Results().At(0).Type())}}
	}
	m[method(swarmPkg, "Swarm", "MeasureCoherence")] = func(k *callCtx) []Outcome {
		v := it.freshNum("coherence", Iv{0, 1}, false, false)
		k.st.event("coherence", k.pos, v)
		return []Outcome{{st: k.st, ret: v}}
	}
	m[method("emerge/agent", "Agent", "Phase")] = func(k *callCtx) []Outcome {
		v := it.freshNum("phase", Iv{0, twoPi}, false, false)
		k.st.event("phase", k.pos, []Value{k.args[0], v})
		return []Outcome{{st: k.st, ret: v}}
	}
	m[method("emerge/agent", "Agent", "SetPhase")] = func(k *callCtx) []Outcome {
		k.st.event("setphase", k.pos, []Value{k.args[0], k.args[1]})
		return []Outcome{{st: k.st}}
	}
	derive := func(k *callCtx) []Outcome {
		w.ctxs++
		v := &IfaceV{unknown: true, nilp: 0, id: it.id(), name: fmt.Sprintf("child%d(%s)", w.ctxs, ctxName(k.args[0]))}
		return []Outcome{{st: k.st, ret: TupleV{v, it.hostFn("cancel", func(k *callCtx) []Outcome {
			k.st.event("cancelled", k.pos, v.name)
			return []Outcome{{st: k.st}}
		})}}}
	}
	m["context.WithCancel"] = derive
	after := func(k *callCtx) []Outcome {
		k.st.event("timer", k.pos, k.args[0])
		return []Outcome{{st: k.st, ret: &OpaqueV{typ: k.sig.Results().At(0).Type(), id: it.id(), name: "timeout"}}}
	}
	m["time.After"] = after
	m["time.NewTimer"] = func(k *callCtx) []Outcome {
		k.st.event("timer", k.pos, k.args[0])
		r := it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "timer", false)))
		it.setField(k.st, r, "C", &OpaqueV{id: it.id(), name: "timeout"})
		return []Outcome{{st: k.st, ret: r}}
	}
	m["time.AfterFunc"] = func(k *callCtx) []Outcome {
		k.st.event("go", k.pos, []Value{k.args[1], TupleV(nil), k.args[0]})
		return []Outcome{{st: k.st, ret: it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "timer", false)))}}
	}
	m["time.Sleep"] = func(k *callCtx) []Outcome {
		k.st.event("sleep", k.pos, k.args[0])
		return []Outcome{{st: k.st}}
	}
	cfg := lazyArgs(it, nw)
	s, ok := it.force(st, cfg[0]).(*StructV)
	if !ok {
		c.missing("the configuration New takes")
		return nil
	}
	setNum := func(f string, v *Num) {
		u := structOf(s.typ)
		for i := 0; u != nil && i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				s.f[i] = v
			}
		}
	}
	tiny, _ := c.constVal("emerge/scale", "Tiny")
	steady, _ := c.constVal(simPkg+"/pattern", "Steady")
	setNum("Goal", it.constNum(goal))
	setNum("Scale", it.constNum(tiny))
	setNum("Pattern", it.constNum(steady))
	setNum("TargetCoherence", it.constNum(0.875))
	cfg[0] = s
	for _, r := range c.run(it, nw, cfg, nil, st, nil) {
		if !r.panicked && errNil(r.st, it.ret(r, 1)) == 0 {
			w.sim, w.st = it.ret(r, 0), r.st
		}
	}
	if w.sim == nil {
		c.missing("a simulation from New")
		return nil
	}
	return w
}

// do: the outcomes of an operation on the simulation.
func (w *simWorld) do(st *State, f string, args ...Value) (out []Outcome) {
	for _, r := range w.c.run(w.it, w.fns[f], append([]Value{w.sim}, args...), nil, st.clone(), nil) {
		w.c.ob("started", f+" returns", !r.panicked, r.pos, "%s can panic (%s)", f, w.what)
		if !r.panicked {
			out = append(out, r)
		}
	}
	if out == nil {
		w.c.missing("an outcome of " + f)
	}
	return out
}

// since: the events of some kinds after from, oldest first.
func since(st *State, from *Ev, kinds ...string) (out []*Ev) {
	for e := st.ev; e != nil && e != from; e = e.prev {
		for _, k := range kinds {
			if e.kind == k {
				out = append([]*Ev{e}, out...)
			}
		}
	}
	return
}

func (w *simWorld) sameAgent(v Value) int {
	p, ok := v.(*PtrV)
	if !ok || len(p.ts) != 1 {
		return -1
	}
	for i, a := range w.agents {
		if a.ts[0].o == p.ts[0].o {
			return i
		}
	}
	return -1
}

// goes: the outcomes of running a goroutine that was started.
func (w *simWorld) goes(st *State, g *Ev, what string) []Outcome {
	d := g.data.([]Value)
	f, _ := d[0].(*FuncV)
	if f == nil || f.host == nil && len(f.alts) != 1 {
		w.c.ob("started", what, false, g.pos, "an unknown function is started as a goroutine (%s)", w.what)
		return nil
	}
	if f.host != nil {
		return nil
	}
	var out []Outcome
	for _, o := range w.c.exec(w.it, what, nil, func() []Outcome {
		return w.it.CallFunc(st.clone(), f, []Value(d[1].(TupleV)), f.alts[0].fn.Signature, g.pos)
	}) {
		w.c.ob("started", what+": no panic", !o.panicked, o.pos, "a goroutine panics (%s)", w.what)
		if !o.panicked {
			out = append(out, o)
		}
	}
	return out
}

// running: Start up to where it waits for its context.
func (w *simWorld) running(st *State) (at *State, ended *State, ctx Value) {
	start := w.fns["Start"]
	args := lazyArgs(w.it, start)
	args[0] = w.sim
	st = st.clone()
	args[1] = w.it.nonNil(st, w.it.force(st, args[1]))
	ctx = args[1]
	name := "done:" + ctxName(ctx)
	rs := w.c.run(w.it, start, args, nil, st, func(s *State, e *Ev) {
		o, ok := e.data.(*OpaqueV)
		if se, sel := e.data.(*SelectEv); sel && e.kind == "select" && se.idx >= 0 {
			o, ok = se.chans[se.idx].(*OpaqueV)
		}
		if ok && (e.kind == "recv" || e.kind == "select") && o.name == name && at == nil {
			at = s.clone()
		}
	})
	for _, r := range rs {
		w.c.ob("started", "Start waits", !r.panicked && at != nil && r.st.ctxDone(ctxName(ctx)) && errNil(r.st, w.it.ret(r, 0)) == 0, r.pos, "Start returns although its context has not ended, or with an error (%s)", w.what)
		if !r.panicked {
			ended = r.st
		}
	}
	return
}

// runs: the contexts under which the swarm has been set to run, and those not cancelled.
func (w *simWorld) runs(st *State) (live []string) {
	for _, g := range since(st, w.st.ev, "go") {
		for _, o := range w.goes(st, g, "goroutine") {
			for _, e := range since(o.st, st.ev, "swarm run") {
				ctx, dead := e.data.(string), false
				for _, x := range since(o.st, nil, "cancelled") {
					dead = dead || strings.Contains(ctx, x.data.(string))
				}
				if !dead {
					live = append(live, ctx)
				}
			}
			break
		}
	}
	return
}

func (w *simWorld) quiet() {
	w.it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		return func(k int) bool { return k >= 0 && happening(x, k, chans[k]) == seeCancel }
	}
	none := func(kind string) Model {
		return func(k *callCtx) []Outcome {
			k.st.event(kind, k.pos, append([]Value{}, k.args...))
			return []Outcome{{st: k.st}}
		}
	}
	w.it.models[method(simPkg, "Workload", "Start")] = none("workload")
	w.it.models[method(simPkg, "BatchManager", "ProcessBatches")] = none("billing")
}

func ptrObj(v Value) *Obj {
	if p, ok := v.(*PtrV); ok && len(p.ts) == 1 {
		return p.ts[0].o
	}
	return nil
}

func (w *simWorld) controls() {
	c := w.c
	w.quiet()
	at, _, ctx := w.running(w.st)
	if at == nil {
		return
	}
	// what a start begins
	began := since(at, w.st.ev, "workload", "billing")
	for _, g := range since(at, w.st.ev, "go") {
		for _, o := range w.goes(at, g, "goroutine") {
			began = append(began, since(o.st, at.ev, "workload", "billing")...)
			break
		}
	}
	seen, bills, queues := map[*Obj]bool{}, 0, map[*Obj]bool{}
	for _, e := range began {
		d := e.data.([]Value)
		if e.kind == "workload" {
			c.ob("started", "workload", ptrObj(d[0]) != nil && !seen[ptrObj(d[0])], e.pos, "a workload is started twice")
			seen[ptrObj(d[0])] = true
			queues[ptrObj(d[2])] = true
		} else {
			bills++
			queues[ptrObj(d[0])] = true
		}
		c.ob("started", e.kind+" context", strings.Contains(ctxName(d[1]), ctxName(ctx)), e.pos, "%s runs under another context than that of the start", e.kind)
	}
	c.ob("started", "all parts", len(seen) == len(w.agents) && bills == 1 && len(queues) == 1, w.fns["Start"].Pos(), "a start begins %d of %d workloads and %d billings over %d queues", len(seen), len(w.agents), bills, len(queues))

	var walk func(st *State, ops []string, paused bool, cohs []*Num, phases []map[string]*Num, started bool)
	walk = func(st *State, ops []string, paused bool, cohs []*Num, phases []map[string]*Num, started bool) {
		for _, x := range since(st, nil, "cancelled") {
			for _, e := range began {
				of := ctxName(e.data.([]Value)[1])
				c.ob("started", e.kind+" goes on", !strings.Contains(of, x.data.(string)), e.pos, "after %v the context of a %s is cancelled for good", ops, e.kind)
			}
		}
		name := strings.Join(ops, ", ")
		rule := "started"
		if len(ops) > 0 {
			rule = strings.ToLower(ops[len(ops)-1])
		}
		w.what = name
		if !started {
			w.what += ", before a start"
		}
		live := w.runs(st)
		want := 1
		if paused || !started {
			want = 0
		}
		if len(ops) > 0 || started {
			good := len(live) == want
			for _, l := range live {
				good = good && strings.Contains(l, ctxName(ctx))
			}
			c.ob(rule, w.what, good, w.fns["Start"].Pos(), "after %s %d synchronization runs go on, expected %d under the context of the start", w.what, len(live), want)
		}
		w.snapshot(st, paused, cohs, phases)
		if len(ops) == 3 {
			return
		}
		for _, op := range []string{"Pause", "Resume", "Disrupt"} {
			for _, r := range w.do(st, op) {
				nc, np := cohs, phases
				if op == "Pause" {
					p := map[string]*Num{}
					for _, e := range since(r.st, st.ev, "phase") {
						d := e.data.([]Value)
						if i := w.sameAgent(d[0]); i >= 0 {
							p[fmt.Sprintf("a%d", i)] = d[1].(*Num)
						}
					}
					var now []*Num
					for _, e := range since(r.st, st.ev, "coherence") {
						now = append(now, e.data.(*Num))
					}
					if paused {
						nc, np = append(append([]*Num{}, cohs...), now...), append(append([]map[string]*Num{}, phases...), p)
					} else {
						nc, np = now, []map[string]*Num{p}
					}
				}
				walk(r.st, append(append([]string{}, ops...), op), op == "Pause" || op == "Disrupt" && paused, nc, np, started)
			}
		}
	}
	walk(at, nil, false, nil, nil, true)
	walk(w.st, nil, false, nil, nil, false)
	w.what = ""
}

// snapshot: what is shown agrees with what was measured.
func (w *simWorld) snapshot(st *State, paused bool, cohs []*Num, phases []map[string]*Num) {
	for _, r := range w.do(st, "Snapshot") {
		w.shown(st, r, paused, cohs, phases)
	}
}

func (w *simWorld) shown(st *State, r Outcome, paused bool, cohs []*Num, phases []map[string]*Num) {
	c, it := w.c, w.it
	v := it.ret(r, 0)
	pos := w.fns["Snapshot"].Pos()
	p, _ := it.field(r.st, v, "Paused").(*BoolV)
	rule := "snapshot"
	if paused {
		rule = "frozen"
	}
	c.ob(rule, "Paused", p != nil && r.st.decide(p) == map[bool]int{true: 1, false: 0}[paused], pos, "the snapshot tells the wrong state: %s", w.what)
	coh := it.numField(r.st, v, "Coherence")
	from := cohs
	if !paused {
		from = nil
		for _, e := range since(r.st, st.ev, "coherence") {
			from = append(from, e.data.(*Num))
		}
	}
	good := false
	for _, n := range from {
		good = good || coh != nil && sameLin(r.st, coh.L, n.L)
	}
	c.ob(rule, "Coherence", good, pos, "the snapshot shows a coherence that was not measured when it should be: %s", w.what)
	t := it.numField(r.st, v, "TargetCoherence")
	c.ob("snapshot", "TargetCoherence", t != nil && eqConst(r.st, t, 0.875), pos, "the snapshot shows another target than configured: %s", w.what)
	sl, _ := it.force(r.st, it.field(r.st, v, "Agents")).(*SliceV)
	arr := (*ArrV)(nil)
	if sl != nil && sl.o != nil {
		arr, _ = it.content(r.st, sl.o).(*ArrV)
	}
	if arr == nil || !eqConst(r.st, sl.n, float64(len(w.agents))) {
		c.ob("snapshot", "Agents", false, pos, "the snapshot shows %s entries for %d workloads: %s", it.show(r.st, sl), len(w.agents), w.what)
		return
	}
	ids := map[string]bool{}
	sum := linConst(0)
	for i := range w.agents {
		a := it.force(r.st, arr.e[sl.lo+i])
		id, known := strOf(r.st, it.force(r.st, it.field(r.st, a, "ID")))
		ph := it.numField(r.st, a, "Phase")
		pend := it.numField(r.st, a, "PendingTasks")
		c.ob("snapshot", "Agents", known && !ids[id] && ph != nil && pend != nil, pos, "a workload is shown twice or not at all: %s", w.what)
		if !known || ph == nil || pend == nil {
			return
		}
		ids[id] = true
		sum = linAdd(sum, pend.L, 1)
		good := false
		if paused {
			for _, m := range phases {
				good = good || m[id] != nil && sameLin(r.st, ph.L, m[id].L)
			}
		} else {
			for _, e := range since(r.st, st.ev, "phase") {
				d := e.data.([]Value)
				if k := w.sameAgent(d[0]); k >= 0 && fmt.Sprintf("a%d", k) == id {
					good = good || sameLin(r.st, ph.L, d[1].(*Num).L)
				}
			}
		}
		c.ob(rule, "Phase", good, pos, "the snapshot shows for %s a phase that was not its agent's when it should be: %s", id, w.what)
	}
	pt := it.numField(r.st, v, "PendingTasks")
	c.ob("snapshot", "PendingTasks", pt != nil && sameLin(r.st, pt.L, sum), pos, "the pending tasks are not the sum of those of the workloads: %s", w.what)
	// every coherence shown counts for the peak
	for _, s := range w.do(r.st, "Statistics") {
		if coh == nil {
			continue
		}
		sv := it.ret(s, 0)
		peak, final := it.numField(s.st, sv, "PeakCoherence"), it.numField(s.st, sv, "FinalCoherence")
		good := peak != nil && final != nil
		if good && !paused {
			good = le(s.st, coh, peak) && le(s.st, final, peak)
		}
		c.ob("snapshot", "PeakCoherence", good, w.fns["Statistics"].Pos(), "the peak reported is below a coherence that was shown: %s", w.what)
		m := since(s.st, r.st.ev, "coherence")
		c.ob("snapshot", "FinalCoherence", final != nil && len(m) > 0 && sameLin(s.st, final.L, m[len(m)-1].data.(*Num).L), w.fns["Statistics"].Pos(), "the final coherence is not the one measured: %s", w.what)
	}
}

// figures: recorded batches and pending tasks appear in the snapshot, the statistics, and no more after a reset.
func (w *simWorld) figures() {
	c, it := w.c, w.it
	w.quiet()
	w.what = "figures"
	at, _, _ := w.running(w.st)
	if at == nil {
		return
	}
	rec := c.fn(simPkg, "MetricsCollector.RecordBatch")
	if rec == nil {
		return
	}
	var wl []*Ev
	var metrics Value
	began := since(at, w.st.ev, "workload", "billing")
	for _, g := range since(at, w.st.ev, "go") {
		for _, o := range w.goes(at, g, "goroutine") {
			began = append(began, since(o.st, at.ev, "workload", "billing")...)
			break
		}
	}
	for _, e := range began {
		d := e.data.([]Value)
		if e.kind == "workload" {
			wl = append(wl, e)
		} else if len(d) > 2 {
			metrics = d[2]
		}
	}
	if metrics == nil || len(wl) == 0 {
		c.missing("the metrics given to the billing")
		return
	}
	st := at
	for _, b := range [][3]float64{{5, 1, 0.25}, {3, 0.5, 0.125}} {
		args := []Value{metrics, it.constNum(b[0]), it.constNum(b[1]), it.constNum(b[2])}
		if len(rec.Params) > len(args) {
			args = append(args, it.constNum(b[1]-b[2]))
		}
		if len(rec.Params) != len(args) {
			c.missing("RecordBatch(size, costs, savings)")
			return
		}
		for _, r := range c.run(it, rec, args, nil, st.clone(), nil) {
			if !r.panicked {
				st = r.st
				break
			}
		}
	}
	// some tasks of the first and the last workload
	delete(it.models, method(simPkg, "Workload", "Start"))
	start := c.fn(simPkg, "Workload.Start")
	if start == nil {
		return
	}
	made := func(s *State) (most float64) {
		rs := w.do(s, "Snapshot")
		if len(rs) == 0 {
			return 0
		}
		r := rs[0]
		if sl, ok := it.force(r.st, it.field(r.st, it.ret(r, 0), "Agents")).(*SliceV); ok && sl.o != nil {
			if arr, ok := it.content(r.st, sl.o).(*ArrV); ok {
				for i := range w.agents {
					if sl.lo+i < len(arr.e) {
						if n := it.numField(r.st, it.force(r.st, arr.e[sl.lo+i]), "PendingTasks"); n != nil {
							most += best(r.st, n).lo
						}
					}
				}
			}
		}
		return
	}
	for _, e := range []*Ev{wl[0], wl[len(wl)-1]} {
		was := st.ev
		for _, r := range c.run(it, start, e.data.([]Value), nil, st.clone(), nil) {
			if r.panicked {
				continue
			}
			base := r.st
			for _, g := range since(base, was, "go") {
				// one tick, then the end
				n := 0
				w.it.onSelect = func(s *State, x *ssa.Select, chans []Value) func(int) bool {
					n = 0
					for ev := s.ev; ev != nil && ev != base.ev; ev = ev.prev {
						if ev.kind == "select" {
							n++
						}
					}
					want := seeTick
					if n > 0 {
						want = seeCancel
					}
					return func(k int) bool { return k >= 0 && !sending(x) && happening(x, k, chans[k]) == want }
				}
				for _, o := range w.goes(base, g, "a workload's goroutine") {
					if made(o.st) > made(base) {
						base = o.st
						break
					}
				}
			}
			st = base
			break
		}
	}
	w.quiet()
	// some last batch
	if bm := it.deref(st, wl[0].data.([]Value)[2]); bm != nil {
		if v, ok := bm.(*StructV); ok {
			u := structOf(v.typ)
			for i := 0; u != nil && i < u.NumFields(); i++ {
				if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					it.setField(st, wl[0].data.([]Value)[2], u.Field(i).Name(), it.constNum(7))
				}
			}
		}
	}
	show := func(st *State, rule string, tot, batches, without, with float64, pending bool) {
		rs := w.do(st, "Snapshot")
		if len(rs) == 0 {
			return
		}
		r := rs[0]
		ss := w.do(r.st, "Statistics")
		if len(ss) == 0 {
			return
		}
		s := ss[0]
		a, b := it.ret(r, 0), it.ret(s, 0)
		avg, pct := 0.0, 0.0
		if batches > 0 {
			avg, pct = tot/batches, (without-with)/without*100
		}
		for _, f := range []struct {
			of   string
			name string
			want float64
		}{{"Snapshot", "BatchesProcessed", batches}, {"Snapshot", "CostWithoutSync", without}, {"Snapshot", "CostWithSync", with}, {"Snapshot", "Savings", without - with}, {"Snapshot", "SavingsPercent", pct},
			{"Statistics", "TotalAPICalls", tot}, {"Statistics", "TotalBatches", batches}, {"Statistics", "AverageBatchSize", avg}, {"Statistics", "CostWithoutSync", without}, {"Statistics", "CostWithSync", with}, {"Statistics", "TotalSavings", without - with}, {"Statistics", "SavingsPercent", pct}} {
			v, s := a, r.st
			if f.of == "Statistics" {
				v, s = b, s
			}
			n := it.numField(s, v, f.name)
			c.ob(rule, f.of+" "+f.name, n != nil && math.Abs(best(s, n).lo-f.want)+math.Abs(best(s, n).hi-f.want) < 1e-6, w.fns[f.of].Pos(), "%s shows %s = %s, recorded was %g (%s)", f.of, f.name, it.show(s, n), f.want, w.what)
		}
		last := it.numField(r.st, a, "LastBatchSize")
		c.ob(rule, "last batch", last != nil && eqConst(r.st, last, map[bool]float64{true: 7}[pending]), w.fns["Snapshot"].Pos(), "%s tasks are shown as the last batch (%s)", it.show(r.st, last), w.what)
		p := it.numField(r.st, a, "PendingTasks")
		good := p != nil && (best(r.st, p).hi <= 1e-9) == !pending && (best(r.st, p).lo > 0.5) == pending
		c.ob(rule, "pending", good, w.fns["Snapshot"].Pos(), "%s tasks are shown as pending (%s)", it.show(r.st, p), w.what)
		w.snapshot(st, false, nil, nil)
	}
	show(st, "snapshot", 8, 2, 1.5, 0.375, true)
	w.what = "figures after a reset"
	for _, r := range w.do(st, "Reset") {
		show(r.st, "reset", 0, 0, 0, 0, false)
	}
	w.what = "figures while paused"
	for _, r := range w.do(st, "Pause") {
		for _, r := range w.do(r.st, "Reset") {
			for _, r := range w.do(r.st, "Snapshot") {
				p := it.numField(r.st, it.ret(r, 0), "PendingTasks")
				c.ob("reset", "pending while paused", p != nil && best(r.st, p).hi <= 1e-9, w.fns["Reset"].Pos(), "tasks stay pending after a reset while paused")
			}
		}
	}
}

// flag: what every snapshot shows (2: not all the same).
func (w *simWorld) flag(st *State, name string) int {
	is := -1
	for _, r := range w.do(st, "Snapshot") {
		b, _ := w.it.field(r.st, w.it.ret(r, 0), name).(*BoolV)
		if b == nil {
			return 2
		}
		k := r.st.decide(b)
		if is >= 0 && k != is {
			return 2
		}
		is = k
	}
	return is
}

func (w *simWorld) reset(want func(n int) []float64) {
	c, it := w.c, w.it
	w.quiet()
	pos := w.fns["Reset"].Pos()
	c.ob("reset", "not before", w.flag(w.st, "Reset") == 0, pos, "a reset is shown before one (%s)", w.what)
	for _, r := range c.run(it, w.fns["Reset"], []Value{w.sim}, nil, w.st.clone(), nil) {
		c.ob("reset", "returns", !r.panicked, r.pos, "Reset can panic (%s)", w.what)
		if r.panicked {
			continue
		}
		set := map[int]int{}
		var got []float64
		known := true
		for _, e := range since(r.st, w.st.ev, "setphase") {
			d := e.data.([]Value)
			set[w.sameAgent(d[0])]++
			b := best(r.st, d[1].(*Num))
			known = known && b.hi-b.lo < 1e-6
			got = append(got, math.Mod(math.Mod(b.lo, twoPi)+twoPi, twoPi))
		}
		good := len(set) == len(w.agents) && set[-1] == 0
		for _, n := range set {
			good = good && n == 1
		}
		c.ob("reset", w.what+": every agent once", good, pos, "a reset sets the phases of %d of %d agents, or one twice (%s)", len(set), len(w.agents), w.what)
		sort.Float64s(got)
		if want == nil {
			// no steady beat: no two gaps alike
			for i := 1; i < len(got); i++ {
				known = known && got[i]-got[i-1] > 0.05
			}
			c.ob("reset", w.what, known, pos, "a reset leaves phases %.3g that are not irregular (%s)", got, w.what)
		} else {
			p := want(len(w.agents))
			near := known && len(got) == len(p)
			for i := range p {
				near = near && len(got) == len(p) && math.Abs(got[i]-p[i]) < 1e-3
			}
			c.ob("reset", w.what, near, pos, "a reset sets the phases %.4g, the worst for this goal are %.4g (%s)", got, p, w.what)
		}
		c.ob("reset", w.what+": shown", w.flag(r.st, "Reset") == 1, pos, "a reset is not shown (%s)", w.what)
		c.ob("reset", w.what+": over", w.over(r.st, r.st, "Reset", 1e9), pos, "a reset is shown for ever, or for less than a second (%s)", w.what)
		for _, op := range []string{"Pause", "Resume", "Disrupt"} {
			for _, o := range w.do(r.st, op) {
				c.ob("reset", w.what+": over, after "+op, w.over(r.st, o.st, "Reset", 1e9), pos, "a reset is shown for ever after %s (%s)", op, w.what)
			}
		}
	}
}

// over: some goroutine a reset has started takes the flag back, after at least the given time.
func (w *simWorld) over(reset, st *State, flag string, least float64) bool {
	for _, g := range since(reset, w.st.ev, "go") {
		rs, all := w.goes(st, g, "goroutine"), true
		for _, o := range rs {
			slept := 0.0
			if d := g.data.([]Value); len(d) > 2 {
				slept = best(st, d[2].(*Num)).lo
			}
			for _, e := range since(o.st, st.ev, "sleep", "timer") {
				if n, ok := e.data.(*Num); ok {
					slept += best(o.st, n).lo
				}
			}
			all = all && w.flag(o.st, flag) == 0 && slept >= least
		}
		if all && len(rs) > 0 {
			return true
		}
	}
	return false
}

func (w *simWorld) disrupt() {
	c := w.c
	w.quiet()
	pos := w.fns["Disrupt"].Pos()
	c.ob("disrupt", "not before", w.flag(w.st, "Disrupted") == 0, pos, "a disruption is shown before one (%s)", w.what)
	for _, r := range w.do(w.st, "Disrupt") {
		w.disrupted(r)
	}
}

func (w *simWorld) disrupted(r Outcome) {
	c := w.c
	pos := w.fns["Disrupt"].Pos()
	n := len(w.agents)
	set := map[int]int{}
	good := true
	for _, e := range since(r.st, w.st.ev, "setphase") {
		d := e.data.([]Value)
		i := w.sameAgent(d[0])
		set[i]++
		half := false
		for p := e.prev; p != nil && p != w.st.ev; p = p.prev {
			if p.kind == "phase" && w.sameAgent(p.data.([]Value)[0]) == i {
				b := best(r.st, &Num{linSub(d[1].(*Num).L, p.data.([]Value)[1].(*Num).L), Iv{-100, 100}})
				k := math.Round((b.lo - math.Pi) / twoPi)
				half = math.Abs(b.lo-math.Pi-k*twoPi) < 1e-3 && math.Abs(b.hi-math.Pi-k*twoPi) < 1e-3
				break
			}
		}
		good = good && half
	}
	for _, k := range set {
		good = good && k == 1
	}
	c.ob("disrupt", w.what, len(set) == n/5 && set[-1] == 0 && good, pos, "a disruption moves %d of %d agents, or not by half a turn", len(set), n)
	c.ob("disrupt", w.what+": shown", w.flag(r.st, "Disrupted") == 1, pos, "a disruption is not shown (%s)", w.what)
	if n != 5 {
		return
	}
	from := w.st
	w.recovery(r.st, since(r.st, from.ev, "go"), "")
	for _, op := range []string{"Pause", "Disrupt"} {
		for _, o := range w.do(r.st, op) {
			w.recovery(o.st, since(r.st, from.ev, "go"), ", after "+op)
		}
	}
}

func (w *simWorld) recovery(base *State, gos []*Ev, later string) {
	c, it := w.c, w.it
	pos := w.fns["Disrupt"].Pos()
	c.ob("disrupt", "recovery", len(gos) > 0, pos, "nobody watches for the recovery")
	for _, script := range []string{"t", "tt", "ttt", "o", "to"} {
		for _, g := range gos {
			it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
				k := 0
				for e := st.ev; e != nil && e != base.ev; e = e.prev {
					if e.kind == "select" {
						k++
					}
				}
				out := k >= len(script) || script[k] == 'o'
				return func(i int) bool {
					if i < 0 {
						return false
					}
					o, ok := chans[i].(*OpaqueV)
					late := ok && (o.name == "timeout" || strings.HasPrefix(o.name, "done:child"))
					return late == out
				}
			}
			n := 0
			for _, o := range w.goes(base, g, "recovery") {
				n++
				sel := since(o.st, base.ev, "select")
				cohs := since(o.st, base.ev, "coherence")
				slow := len(sel) > 0 && sel[len(sel)-1].data.(*SelectEv).idx >= 0
				if slow {
					l := sel[len(sel)-1].data.(*SelectEv)
					v, ok := l.chans[l.idx].(*OpaqueV)
					slow = ok && (v.name == "timeout" || strings.HasPrefix(v.name, "done:child"))
				}
				okay := true
				why := ""
				for i, e := range cohs {
					b := best(o.st, e.data.(*Num))
					last := i == len(cohs)-1 && !slow
					if last && b.lo < 0.875-1e-9 {
						okay, why = false, "the target was not reached"
					}
					if !last && b.hi > 0.875+1e-9 {
						okay, why = false, "an earlier measurement reached the target"
					}
				}
				if len(cohs) != len(sel) && !slow || slow && len(cohs) != len(sel)-1 {
					okay, why = false, "a check measures nothing"
				}
				c.ob("disrupt", "recovery "+script+later, okay && w.flag(o.st, "Disrupted") == 0, o.pos, "the watch over a disruption ends after %d checks with the disruption shown: %d (%s)", len(sel), w.flag(o.st, "Disrupted"), why)
			}
			c.ob("disrupt", "recovery "+script+later+": ends", n > 0, g.pos, "a disruption is never over")
		}
	}
	w.quiet()
}
