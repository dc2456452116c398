package main

// Tasks of the simulation: each is sent and billed exactly once, and the figures add up.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C31", run: checkC31,
		rules: []string{"The metrics collector, from its constructor, through every sequence of up to three recordings of unknown sizes and costs mixed with unknown coherences: the current metrics are the sums of what was recorded since the last reset, the average is their quotient, the savings are the difference of the costs and their percentage a share of the cost without synchronization (named costs), the peak coherence is the largest reported (zero if none), a time to converge is given only when a coherence of 0.7 was reported, and the batch size distribution counts every batch once, in the bucket its size belongs to.",
			"ProcessBatches along scripts of named batches arriving in one window or in several, until the context ends: every task received is billed exactly once, in the fewest batches of at most the API limit per window, at the individual price without and one discounted call per batch with synchronization, and the last batch reported is the last one sent.",
			"A workload's goroutines, as Start begins them, along scripts of ticks with an unknown phase and request pattern, paused or not: a paused workload neither makes nor sends tasks; each task made carries the workload's id and an id of its own and is pending afterwards; all pending tasks are sent together, in order, in a list the workload no longer writes to, exactly when there are some and the phase is within 0.1 of zero; after that nothing is pending and one more batch is counted; when the queue is full the tasks stay pending and nothing is counted."},
		assume: []string{"random numbers in the ranges C11 proves", "a window is one interval between two starts of the batch timer"},
		floor:  map[string]int{"sums": 6, "peak": 2, "distribution": 2, "percent": 3, "billing": 6, "paused": 4, "made": 4, "sent": 4, "kept": 2}})
}

const simPkg = "simulations/emerge/simulation"

func checkC31(c *Ctx) {
	depth := 3
	c.metricsAddUp(depth)
	c.savingsPercent()
	max, ok := c.constVal(simPkg, "MaxBatchSize")
	price, ok2 := c.constVal(simPkg, "CostPerCall")
	disc, ok3 := c.constVal(simPkg, "BatchDiscount")
	if !ok || !ok2 || !ok3 {
		return
	}
	full := int(max)
	scripts := [][]any{
		{0},
		{1},
		{full},
		{full + 1},
		{3, 2, "window"},
		{full - 1, 1, "window"},
		{7, "window", 5, "window"},
		{full*2 + 5, "window", 3},
		{full / 2, full, full/2 + 1, "window", 1, 2},
	}
	for _, s := range scripts {
		c.billing(s, full, price, disc)
	}
	c.workloads()
}

// timeModels: moments are known by the number of waits before them; a zero time is zero.
func timeModels(it *Interp) {
	clockModels(it)
	moment := func(v Value) (int, bool) {
		o, ok := v.(*OpaqueV)
		k := 0
		if !ok {
			return 0, false
		}
		n, err := fmt.Sscanf(o.name, "now:%d", &k)
		return k, n == 1 && err == nil
	}
	it.models["time.Now"] = func(c *callCtx) []Outcome {
		k := 0
		for e := c.st.ev; e != nil; e = e.prev {
			if e.kind == "now" {
				k++
			}
		}
		c.st.event("now", c.pos, nil)
		return []Outcome{{st: c.st, ret: &OpaqueV{typ: c.sig.Results().At(0).Type(), id: it.id(), name: fmt.Sprintf("now:%d", k)}}}
	}
	it.models["time.Since"] = func(c *callCtx) []Outcome {
		return []Outcome{{st: c.st, ret: it.freshNum("since", Iv{0, 1e17}, false, true)}}
	}
	it.models["(time.Time).Sub"] = func(c *callCtx) []Outcome {
		a, ok1 := moment(it.force(c.st, c.args[0]))
		b, ok2 := moment(it.force(c.st, c.args[1]))
		iv := Iv{-1e17, 1e17}
		switch {
		case ok1 && ok2 && a > b:
			iv.lo = 1
		case ok1 && ok2 && a < b:
			iv.hi = -1
		case ok1 && ok2:
			iv = Iv{0, 0}
		}
		return []Outcome{{st: c.st, ret: it.freshNum("sub", iv, false, true)}}
	}
	it.models["(time.Time).IsZero"] = func(k *callCtx) []Outcome {
		switch v := it.force(k.st, k.args[0]).(type) {
		case *StructV:
			return []Outcome{{st: k.st, ret: boolK(true)}}
		case *OpaqueV:
			if strings.HasPrefix(v.name, "now:") {
				return []Outcome{{st: k.st, ret: boolK(false)}}
			}
		}
		return []Outcome{{st: k.st, ret: it.unkBool("iszero")}}
	}
}

type billed struct{ n, size, without, with *Num }

func (c *Ctx) metricsAddUp(depth int) {
	nw := c.fn(simPkg, "NewMetricsCollector")
	fs := map[string]*ssa.Function{}
	for _, n := range []string{"RecordBatch", "UpdateCoherence", "Current", "Final", "Reset", "BatchSizeDistribution"} {
		if fs[n] = c.fn(simPkg, "MetricsCollector."+n); fs[n] == nil {
			return
		}
	}
	if nw == nil {
		return
	}
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 400, 2000
	timeModels(it)
	rs := c.run(it, nw, nil, nil, newState(), nil)
	if len(rs) != 1 || rs[0].panicked {
		c.missing("one outcome of NewMetricsCollector")
		return
	}
	m := it.ret(rs[0], 0)
	do := func(st *State, f string, args ...Value) []Outcome {
		var out []Outcome
		for _, r := range c.run(it, fs[f], append([]Value{m}, args...), nil, st.clone(), nil) {
			c.ob("sums", f+" returns", !r.panicked, r.pos, "%s can panic", f)
			if !r.panicked {
				out = append(out, r)
			}
		}
		return out
	}
	is := func(st *State, v Value, f string, want *Lin) bool {
		n := it.numField(st, v, f)
		return n != nil && !st.mayNaN(n.L) && sameLin(st, n.L, want)
	}
	verify := func(st *State, rec []billed, cohs []*Num, what string) {
		size, without, with := linConst(0), linConst(0), linConst(0)
		for _, b := range rec {
			size, without, with = linAdd(size, b.size.L, 1), linAdd(without, b.without.L, 1), linAdd(with, b.with.L, 1)
		}
		for _, f := range []string{"Current", "Final"} {
			for _, r := range do(st, f) {
				v, s := it.ret(r, 0), r.st
				name := fmt.Sprintf("%s of %d", f, len(rec))
				c.ob("sums", name+": TotalAPICalls", is(s, v, "TotalAPICalls", size), r.pos, "after %s: %s calls", what, it.show(s, it.field(s, v, "TotalAPICalls")))
				c.ob("sums", name+": TotalBatches", is(s, v, "TotalBatches", linConst(float64(len(rec)))), r.pos, "after %s: %s batches", what, it.show(s, it.field(s, v, "TotalBatches")))
				c.ob("sums", name+": CostWithoutSync", is(s, v, "CostWithoutSync", without), r.pos, "after %s: cost %s without synchronization", what, it.show(s, it.field(s, v, "CostWithoutSync")))
				c.ob("sums", name+": CostWithSync", is(s, v, "CostWithSync", with), r.pos, "after %s: cost %s with synchronization", what, it.show(s, it.field(s, v, "CostWithSync")))
				c.ob("sums", name+": TotalSavings", is(s, v, "TotalSavings", linSub(without, with)), r.pos, "after %s: savings %s", what, it.show(s, it.field(s, v, "TotalSavings")))
				avg := linConst(0)
				if len(rec) > 0 {
					avg = linScale(size, 1/float64(len(rec)))
				}
				a := it.numField(s, v, "AverageBatchSize")
				c.ob("sums", name+": AverageBatchSize", a != nil && !s.mayNaN(a.L) && s.entail(linSub(a.L, avg)).in(Iv{-1e-6, 1e-6}), r.pos, "after %s: average %s", what, it.show(s, it.field(s, v, "AverageBatchSize")))
				p := it.numField(s, v, "PeakCoherence")
				good := p != nil && !s.mayNaN(p.L)
				top := len(cohs) == 0 && p != nil && eqConst(s, p, 0)
				for _, x := range cohs {
					good = good && le(s, x, p)
					top = top || p != nil && sameLin(s, p.L, x.L) || p != nil && within(s, x, Iv{0, 0}) && eqConst(s, p, 0)
				}
				if !top && p != nil && eqConst(s, p, 0) { // zero beats coherences that are certainly zero
					top = good
				}
				c.ob("peak", fmt.Sprintf("%s of %d", f, len(cohs)), good && top, r.pos, "after %s: peak coherence %s", what, it.show(s, p))
				reached, certain := false, true
				for _, x := range cohs {
					b := best(s, x)
					reached = reached || b.lo >= 0.7-1e-9
					certain = certain && (b.lo >= 0.7-1e-9 || b.hi <= 0.7+1e-9)
				}
				t := it.numField(s, v, "TimeToConverge")
				good = t != nil && (reached && best(s, t).lo >= 1 || !reached && certain && eqConst(s, t, 0))
				c.ob("peak", fmt.Sprintf("%s of %d: converged", f, len(cohs)), good, r.pos, "after %s: the time to converge is %s (a coherence of 0.7 was reported: %v)", what, it.show(s, t), reached)
			}
		}
		for _, r := range do(st, "BatchSizeDistribution") {
			s := r.st
			mv, _ := it.ret(r, 0).(*MapV)
			var mc *MapC
			if mv != nil && mv.o != nil {
				mc, _ = it.content(s, mv.o).(*MapC)
			}
			if mc == nil || mc.unknown || mc.sum != nil {
				c.ob("distribution", fmt.Sprintf("of %d", len(rec)), false, r.pos, "the distribution is not a known map")
				continue
			}
			for _, k := range mc.keys {
				e := mc.entries[k]
				label, known := strOf(s, e[0])
				lo, hi := 0, 0
				if n, _ := fmt.Sscanf(label, "%d-%d", &lo, &hi); !known || n != 2 {
					c.ob("distribution", "labels", false, r.pos, "a bucket is labelled %q", label)
					continue
				}
				want := 0
				for _, b := range rec {
					if x := best(s, b.size); math.Round(x.lo) >= float64(lo) && math.Round(x.hi) <= float64(hi) {
						want++
					} else if math.Round(x.hi) >= float64(lo) && math.Round(x.lo) <= float64(hi) {
						want = -1000
					}
				}
				n, _ := it.force(s, e[1]).(*Num)

				c.ob("distribution", fmt.Sprintf("of %d", len(rec)), n != nil && eqConst(s, n, float64(want)), r.pos, "after %s: bucket %s holds %s of %d", what, label, it.show(s, n), want)
			}
		}
	}
	var walk func(st *State, rec []billed, cohs []*Num, what string, left int)
	walk = func(st *State, rec []billed, cohs []*Num, what string, left int) {
		verify(st, rec, cohs, what)
		if left == 0 {
			return
		}
		b := billed{nil, it.freshNum("size", Iv{1, 100}, false, true), it.freshNum("individual", Iv{0, 1e9}, false, false), it.freshNum("batched", Iv{0, 1e9}, false, false)}
		for _, r := range do(st, "RecordBatch", b.size, b.without, b.with, it.freshNum("savings", Iv{-1e9, 1e9}, false, false)) {
			walk(r.st, append(rec[:len(rec):len(rec)], b), cohs, what+", a batch", left-1)
		}
		if len(cohs) < 2 {
			x := it.freshNum("coherence", Iv{0, 1}, false, false)
			for _, r := range do(st, "UpdateCoherence", x) {
				walk(r.st, rec, append(cohs[:len(cohs):len(cohs)], x), what+", a coherence", left-1)
			}
		}
		if len(rec)+len(cohs) > 0 {
			for _, r := range do(st, "Reset") {
				walk(r.st, nil, nil, what+", a reset", min(left-1, 1))
			}
		}
	}
	walk(rs[0].st, nil, nil, "the start", depth)
}

// savingsPercent: named costs.
func (c *Ctx) savingsPercent() {
	nw := c.fn(simPkg, "NewMetricsCollector")
	rec := c.fn(simPkg, "MetricsCollector.RecordBatch")
	cur := c.fn(simPkg, "MetricsCollector.Current")
	if nw == nil || rec == nil || cur == nil {
		return
	}
	for _, q := range [][3]float64{{10, 0.5, 0.25}, {4, 8, 2}, {1, 0.25, 0.5}, {3, 0, 0}, {5, 2, 0}, {5, 0, 2}} {
		it := c.exactInterp(1)
		timeModels(it)
		rs := c.run(it, nw, nil, nil, newState(), nil)
		if len(rs) != 1 || rs[0].panicked {
			return
		}
		m := it.ret(rs[0], 0)
		for _, r := range c.run(it, rec, []Value{m, it.constNum(q[0]), it.constNum(q[1]), it.constNum(q[2]), it.constNum(q[1] - q[2])}, nil, rs[0].st, nil) {
			for _, r := range c.run(it, cur, []Value{m}, nil, r.st, nil) {
				p := it.numField(r.st, it.ret(r, 0), "SavingsPercent")
				want := 0.0
				if q[1] > 0 {
					want = (q[1] - q[2]) / q[1] * 100
				}
				c.ob("percent", fmt.Sprintf("%g to %g", q[1], q[2]), !r.panicked && p != nil && !r.st.mayNaN(p.L) && within(r.st, p, Iv{want - 1e-9, want + 1e-9}), r.pos, "costs of %g and %g save %s %%", q[1], q[2], it.show(r.st, p))
			}
		}
	}
}

// billing follows ProcessBatches: numbers are batches of that many tasks, windows end in between.
func (c *Ctx) billing(script []any, full int, price, disc float64) {
	nwB, nwM := c.fn(simPkg, "NewBatchManager"), c.fn(simPkg, "NewMetricsCollector")
	proc, last := c.fn(simPkg, "BatchManager.ProcessBatches"), c.fn(simPkg, "BatchManager.LastBatchInfo")
	cur, dist := c.fn(simPkg, "MetricsCollector.Current"), c.fn(simPkg, "MetricsCollector.BatchSizeDistribution")
	if nwB == nil || nwM == nil || proc == nil || last == nil || cur == nil || dist == nil {
		return
	}
	what := fmt.Sprint(script)
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 2000, 4000
	it.maxElems = 1000
	it.unrollMax = 1000
	timeModels(it)
	b := c.run(it, nwB, nil, nil, newState(), nil)
	if len(b) != 1 || b[0].panicked {
		c.missing("one outcome of NewBatchManager")
		return
	}
	m := c.run(it, nwM, nil, nil, b[0].st, nil)
	if len(m) != 1 || m[0].panicked {
		c.missing("one outcome of NewMetricsCollector")
		return
	}
	bm, mc, st := it.ret(b[0], 0), it.ret(m[0], 0), m[0].st
	left := func(st *State) []any {
		r := script
		for _, s := range selections(st) {
			if s.idx < 0 {
				continue
			}
			switch happening(s.ins, s.idx, s.chans[s.idx]) {
			case seeEnd: // a batch
				for len(r) > 0 && r[0] == "window" {
					r = r[1:]
				}
				if len(r) > 0 {
					r = r[1:]
				}
			case seeTick:
				if len(r) > 0 && r[0] == "window" {
					r = r[1:]
				}
			}
		}
		return r
	}
	it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		r := left(st)
		has := map[string]bool{}
		for k := range chans {
			has[happening(x, k, chans[k])] = true
		}
		if !has[seeTick] {
			for len(r) > 0 && r[0] == "window" {
				r = r[1:]
			}
		}
		want := seeCancel
		switch {
		case len(r) == 0 && !has[seeCancel]:
			want = seeTick // the window ends
		case len(r) > 0 && r[0] == "window":
			want = seeTick
		case len(r) > 0:
			want = seeEnd
		}
		idle := 0
		for _, s := range selections(st) {
			if s.idx < 0 {
				idle++
			} else {
				idle = 0
			}
		}
		return func(k int) bool {
			if k < 0 {
				return want == seeTick && idle == 0 // nothing for now
			}
			return happening(x, k, chans[k]) == want
		}
	}
	id := 0
	it.onRecv = func(st *State, x *ssa.Select, i int) Value {
		ch, ok := x.States[i].Chan.Type().Underlying().(*types.Chan)
		if !ok {
			return nil
		}
		u := structOf(ch.Elem())
		n, ok := 0, false
		for _, t := range left(st) {
			if n, ok = t.(int); ok {
				break
			}
		}
		if u == nil || !ok {
			return nil
		}
		s := &StructV{typ: ch.Elem(), f: make([]Value, u.NumFields())}
		for i := range s.f {
			ft := u.Field(i).Type()
			s.f[i] = it.lazy(ft, u.Field(i).Name(), false)
			if sl, ok := ft.Underlying().(*types.Slice); ok {
				var e []Value
				for range n {
					id++
					e = append(e, it.lazy(sl.Elem(), fmt.Sprintf("task%d", id), false))
				}
				s.f[i] = it.sliceOf(st, sl.Elem(), e)
			}
		}
		return s
	}
	args := lazyArgs(it, proc)
	args[0] = bm
	args[1] = it.nonNil(st, it.force(st, args[1]))
	args[2] = mc
	ends := 0
	for _, r := range c.run(it, proc, args, nil, st, nil) {
		if r.panicked {
			c.ob("billing", what, false, r.pos, "processing %s panics", what)
			continue
		}
		// the windows as they were
		var groups []int
		rest := script
		open := false
		for _, s := range selections(r.st) {
			h := ""
			if s.idx >= 0 {
				h = happening(s.ins, s.idx, s.chans[s.idx])
			}
			outer := false
			for k := range s.chans {
				outer = outer || happening(s.ins, k, s.chans[k]) == seeCancel
			}
			if outer {
				open = false
			}
			if h == seeEnd {
				for len(rest) > 0 && rest[0] == "window" {
					rest = rest[1:]
				}
				if len(rest) == 0 {
					break
				}
				n := rest[0].(int)
				rest = rest[1:]
				if open {
					groups[len(groups)-1] += n
				} else {
					groups = append(groups, n)
					open = true
				}
			}
		}
		for len(rest) > 0 && rest[0] == "window" {
			rest = rest[1:]
		}
		ends++
		calls, tasks := 0, 0
		sizes := map[int]int{}
		lastSize := 0
		for _, n := range groups {
			tasks += n
			for n > 0 {
				k := min(n, full)
				calls++
				sizes[k]++
				lastSize = k
				n -= k
			}
		}
		c.ob("billing", what+": all received", len(rest) == 0, r.pos, "of %s, %v was never taken from the queue", what, rest)
		for _, q := range c.run(it, cur, []Value{mc}, nil, r.st.clone(), nil) {
			num := func(f string) *Num { return it.numField(q.st, it.ret(q, 0), f) }
			near := func(f string, v float64) bool {
				n := num(f)
				return n != nil && within(q.st, n, Iv{v - 1e-6, v + 1e-6})
			}
			c.ob("billing", what+": tasks", near("TotalAPICalls", float64(tasks)), r.pos, "of %d tasks %s are billed (%s)", tasks, it.show(q.st, num("TotalAPICalls")), what)
			c.ob("billing", what+": batches", near("TotalBatches", float64(calls)), r.pos, "%s batches for %d tasks, expected %d (%s)", it.show(q.st, num("TotalBatches")), tasks, calls, what)
			c.ob("billing", what+": cost without", near("CostWithoutSync", price*float64(tasks)), r.pos, "%d tasks cost %s one by one (%s)", tasks, it.show(q.st, num("CostWithoutSync")), what)
			c.ob("billing", what+": cost with", near("CostWithSync", price*(1-disc)*float64(calls)), r.pos, "%d batches cost %s (%s)", calls, it.show(q.st, num("CostWithSync")), what)
		}
		for _, q := range c.run(it, last, []Value{bm}, nil, r.st.clone(), nil) {
			n := it.numRet(q, 1)
			c.ob("billing", what+": last", n != nil && eqConst(q.st, n, float64(lastSize)), r.pos, "the last batch is said to have %s tasks, it had %d (%s)", it.show(q.st, n), lastSize, what)
		}
		for _, q := range c.run(it, dist, []Value{mc}, nil, r.st.clone(), nil) {
			mv, _ := it.ret(q, 0).(*MapV)
			good := mv != nil && mv.o != nil
			if good {
				m, _ := it.content(q.st, mv.o).(*MapC)
				good = m != nil
				for _, k := range m.keys {
					e := m.entries[k]
					label, _ := strOf(q.st, e[0])
					lo, hi, want := 0, 0, 0
					fmt.Sscanf(label, "%d-%d", &lo, &hi)
					for z, n := range sizes {
						if z >= lo && z <= hi {
							want += n
						}
					}
					n, _ := it.force(q.st, e[1]).(*Num)
					good = good && n != nil && eqConst(q.st, n, float64(want))
				}
			}
			c.ob("billing", what+": sizes", good, r.pos, "the batches do not have sizes %v (%s)", sizes, what)
		}
	}
	c.ob("billing", what+": ends", ends > 0, proc.Pos(), "processing %s never ends", what)
}

type workStep struct {
	sends   []*StructV // batches queued
	full    int        // times the queue was full
	ticks   int
	phases  []*Num
	pending *Num
	counted *Num
}

func (c *Ctx) workloads() {
	n, ok := c.constVal(simPkg+"/pattern", "Sparse")
	if !ok {
		return
	}
	for p := 0; p <= int(n); p++ {
		c.workload(p, false)
	}
	c.workload(1, true)
	c.workload(3, true)
}

func (c *Ctx) workload(pat int, paused bool) {
	nw, start, snap, reset := c.fn(simPkg, "NewWorkloadWithEmerge"), c.fn(simPkg, "Workload.Start"), c.fn(simPkg, "Workload.Snapshot"), c.fn(simPkg, "Workload.Reset")
	pause, nwB := c.fn(simPkg, "Simulation.Pause"), c.fn(simPkg, "NewBatchManager")
	resume := c.fn(simPkg, "Simulation.Resume")
	pstr := c.fn(simPkg+"/pattern", "Type.String")
	if nw == nil || start == nil || snap == nil || reset == nil || pause == nil || resume == nil || nwB == nil || pstr == nil {
		return
	}
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 4000, 20000
	timeModels(it)
	it.models[method(swarmPkg, "Swarm", "MeasureCoherence")] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: it.freshNum("coherence", Iv{0, 1}, false, false)}}
	}
	it.models[method(swarmPkg, "Swarm", "Agents")] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: it.zero(k.sig.Results().At(0).Type())}}
	}
	it.models[method("emerge/agent", "Agent", "Phase")] = func(k *callCtx) []Outcome {
		n := it.freshNum("phase", Iv{0, twoPi}, false, false)
		k.st.event("phase", k.pos, n)
		return []Outcome{{st: k.st, ret: n}}
	}
	st := newState()
	args := lazyArgs(it, nw)
	args[0] = it.strK("w1")
	args[1] = it.constNum(0)
	args[2] = it.nonNil(st, it.force(st, args[2]))
	args[3] = it.nonNil(st, it.force(st, args[3]))
	it.private(args[3])
	it.quietFuncs(st, args[3])
	args[4] = it.constNum(float64(pat))
	args[5] = it.constNum(0)
	name := fmt.Sprintf("pattern %d", pat)
	if rs := it.Call(pstr, []Value{it.constNum(float64(pat))}, nil, st.clone(), pstr.Pos()); len(rs) == 1 {
		if s, ok := strOf(rs[0].st, it.ret(rs[0], 0)); ok {
			name = s
		}
	}
	one := func(f *ssa.Function, st *State, args ...Value) Outcome {
		rs := c.run(it, f, args, nil, st, nil)
		for _, r := range rs {
			if !r.panicked {
				return r
			}
		}
		c.missing("an outcome of " + fname(f))
		return Outcome{}
	}
	sw := resume
	if paused {
		sw, name = pause, name+", paused"
	}
	r := one(sw, st, args[3])
	if r.st == nil {
		return
	}
	b := one(nwB, r.st)
	if b.st == nil {
		return
	}
	r = one(nw, b.st, args...)
	if r.st == nil {
		return
	}
	w := it.ret(r, 0)
	sa := lazyArgs(it, start)
	sa[0] = w
	sa[1] = it.nonNil(r.st, it.force(r.st, sa[1]))
	sa[2] = it.ret(b, 0)
	was := r.st.ev
	r = one(start, r.st, sa...)
	if r.st == nil {
		return
	}
	var gos []*Ev
	for e := r.st.ev; e != nil && e != was; e = e.prev {
		if e.kind == "go" {
			gos = append([]*Ev{e}, gos...)
		}
	}
	var base *Ev
	since := func(st *State) (n int) {
		for e := st.ev; e != nil && e != base; e = e.prev {
			if se, ok := e.data.(*SelectEv); ok && e.kind == "select" && !sending(se.ins) {
				n++
			}
		}
		return n
	}
	ticks := 1
	it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
		n := since(st)
		return func(k int) bool {
			switch {
			case sending(x):
				return true
			case k < 0:
				return false
			case n < ticks:
				return happening(x, k, chans[k]) == seeTick
			}
			return happening(x, k, chans[k]) == seeCancel
		}
	}
	see := func(st *State) (pending, counted *Num) {
		r := one(snap, st.clone(), w)
		if r.st == nil {
			return nil, nil
		}
		v := it.ret(r, 0)
		return it.numField(r.st, v, "PendingTasks"), it.numField(r.st, v, "BatchesSent")
	}
	turn := func(st *State, g *Ev, n int) []Outcome {
		d := g.data.([]Value)
		f, _ := d[0].(*FuncV)
		if f == nil || len(f.alts) != 1 {
			c.ob("made", name+": goroutine", false, g.pos, "a workload starts an unknown function")
			return nil
		}
		st = st.clone()
		base, ticks = st.ev, n
		var out []Outcome
		for _, o := range c.exec(it, name, nil, func() []Outcome {
			return it.CallFunc(st, f, []Value(d[1].(TupleV)), f.alts[0].fn.Signature, g.pos)
		}) {
			c.ob("made", name+": no panic", !o.panicked, o.pos, "a workload panics")
			if !o.panicked {
				out = append(out, o)
			}
		}
		return out
	}
	did := func(st *State, from *Ev) *workStep {
		s := &workStep{}
		for e := st.ev; e != nil && e != from; e = e.prev {
			switch e.kind {
			case "phase":
				s.phases = append(s.phases, e.data.(*Num))
			case "select":
				se := e.data.(*SelectEv)
				if !sending(se.ins) {
					if happening(se.ins, se.idx, se.chans[se.idx]) == seeTick {
						s.ticks++
					}
				} else if se.idx < 0 {
					s.full++
				} else {
					v, _ := it.force(st, se.sends[se.idx]).(*StructV)
					s.sends = append([]*StructV{v}, s.sends...)
				}
			}
		}
		s.pending, s.counted = see(st)
		return s
	}
	num := func(st *State, n *Num) int {
		if n == nil {
			return -1
		}
		if b := best(st, n); math.Round(b.lo) == math.Round(b.hi) {
			return int(math.Round(b.lo))
		}
		return -1
	}
	// which goroutine makes tasks and which sends them
	var makes, sends *Ev
	for _, g := range gos {
		for _, o := range turn(r.st, g, 1) {
			d := did(o.st, r.st.ev)
			if n := num(o.st, d.pending); n != 0 {
				makes = g
			}
		}
	}
	if paused {
		for _, g := range gos {
			for _, n := range []int{1, 2} {
				for _, o := range turn(r.st, g, n) {
					d := did(o.st, r.st.ev)
					c.ob("paused", fmt.Sprintf("%s: %d ticks", name, n), d.ticks == n && num(o.st, d.pending) == 0 && len(d.sends)+d.full == 0, o.pos, "a paused workload makes or sends tasks (%s)", name)
				}
			}
		}
		return
	}
	for _, g := range gos {
		if g != makes {
			sends = g
		}
	}
	if makes == nil || sends == nil {
		c.ob("made", name, false, start.Pos(), "no goroutine of a workload makes tasks and another sends them (%s)", name)
		return
	}
	type hist struct {
		ids     map[string]bool
		pending int
		counted int
		total   int
	}
	check := func(st *State, d *workStep, h hist, sender bool) (hist, bool) {
		n, k := num(st, d.pending), num(st, d.counted)
		if n < 0 || k < 0 {
			c.ob("made", name, false, r.pos, "the number of pending tasks or sent batches is not known (%s)", name)
			return h, false
		}
		ids := map[string]bool{}
		for s := range h.ids {
			ids[s] = true
		}
		nh := hist{ids: ids, pending: n, counted: k, total: h.total}
		if !sender {
			made := n - h.pending
			c.ob("made", name, made >= 0 && (made > 0 || pat != 1 && pat != 3), r.pos, "a tick takes the tasks from %d to %d (%s)", h.pending, n, name)
			c.ob("made", name+": sends nothing", len(d.sends) == 0 && k == h.counted, r.pos, "making tasks sends a batch (%s)", name)
			return nh, made >= 0
		}
		near := 2
		for _, p := range d.phases {
			switch b := best(st, p); {
			case b.hi <= 0.1+1e-9 || b.lo >= twoPi-0.1-1e-9:
				near = 1
			case b.lo >= 0.1-1e-9 && b.hi <= twoPi-0.1+1e-9:
				near = 0
			}
		}
		switch {
		case h.pending == 0:
			c.ob("sent", name+": nothing pending", len(d.sends)+d.full == 0 && n == 0 && k == h.counted, r.pos, "a batch is sent with nothing pending (%s)", name)
		case d.full > 0:
			c.ob("kept", name, near == 1 && len(d.sends) == 0 && n == h.pending && k == h.counted, r.pos, "of %d tasks %d stay pending when the queue is full, and %d batches are counted (%s)", h.pending, n, k-h.counted, name)
		case len(d.sends) > 0:
			good := near == 1 && len(d.sends) == 1 && n == 0 && k == h.counted+1
			c.ob("sent", name, good, r.pos, "%d batches are sent, %d counted and %d tasks left, from %d (phase near zero: %d, %s)", len(d.sends), k-h.counted, n, h.pending, near, name)
			if !good || d.sends[0] == nil {
				return nh, false
			}
			who, _ := strOf(st, it.force(st, it.field(st, d.sends[0], "AgentID")))
			ts, _ := it.force(st, it.field(st, d.sends[0], "Tasks")).(*SliceV)
			good = who == "w1" && ts != nil && ts.o != nil && num(st, ts.n) == h.pending && !it.holds(st, w, ts.o)
			c.ob("sent", name+": all of them", good, r.pos, "the batch is from %q with %s tasks of %d, or shares its list with the workload (%s)", who, it.show(st, ts), h.pending, name)
			if !good {
				return nh, false
			}
			arr, _ := it.content(st, ts.o).(*ArrV)
			for i := 0; i < h.pending; i++ {
				if arr == nil || ts.lo+i >= len(arr.e) {
					c.ob("made", name+": task", false, r.pos, "the tasks of a batch are not known (%s)", name)
					return nh, false
				}
				t := it.force(st, arr.e[ts.lo+i])
				id, known := strOf(st, it.force(st, it.field(st, t, "ID")))
				of, _ := strOf(st, it.force(st, it.field(st, t, "AgentID")))
				c.ob("made", name+": task", known && id != "" && !ids[id] && of == "w1", r.pos, "a task %q of %q (%s)", id, of, name)
				ids[id] = true
			}
			nh.total += h.pending
		default:
			c.ob("sent", name+": out of phase", near == 0 && n == h.pending && k == h.counted, r.pos, "%d phases; nothing is sent although %d tasks are pending (phase near zero: %d), or tasks are lost (%d left, %s)", len(d.phases), h.pending, near, n, name)
		}
		return nh, true
	}
	var walk func(st *State, h hist, steps []*Ev)
	walk = func(st *State, h hist, steps []*Ev) {
		if len(steps) == 0 {
			rr := one(reset, st.clone(), w)
			if rr.st != nil {
				p, k := see(rr.st)
				c.ob("made", name+": reset", num(rr.st, p) == 0 && num(rr.st, k) == 0, rr.pos, "%s tasks and %s batches after a reset (%s)", it.show(rr.st, p), it.show(rr.st, k), name)
			}
			return
		}
		type kind struct{ p, c, f, s int }
		seen := map[kind]bool{}
		for _, o := range turn(st, steps[0], 1) {
			d := did(o.st, st.ev)
			nh, ok := check(o.st, d, h, steps[0] == sends)
			// what follows depends on the counts only
			q := kind{nh.pending, nh.counted, d.full, len(d.sends)}
			if ok && !seen[q] {
				seen[q] = true
				if pr := one(pause, o.st.clone(), args[3]); nh.pending > 0 && len(steps) == 5 && pr.st != nil {
					for _, g := range gos {
						for _, po := range turn(pr.st, g, 1) {
							pd := did(po.st, pr.st.ev)
							c.ob("paused", name+": with tasks pending", pd.ticks == 1 && num(po.st, pd.pending) == nh.pending && len(pd.sends)+pd.full == 0, po.pos, "a workload paused with %d tasks makes or sends tasks (%s)", nh.pending, name)
						}
					}
				}
				walk(o.st, nh, steps[1:])
			}
		}
	}
	walk(r.st, hist{}, []*Ev{makes, sends, makes, sends, sends})
}

// sending: a select that sends.
func sending(x *ssa.Select) bool {
	for _, s := range x.States {
		if s.Dir == types.SendOnly {
			return true
		}
	}
	return false
}

// quietFuncs: the functions kept in what v points to do nothing.
func (it *Interp) quietFuncs(st *State, v Value) {
	s, ok := it.deref(st, v).(*StructV)
	if !ok {
		return
	}
	u := structOf(s.typ)
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Signature); ok {
			it.setField(st, v, u.Field(i).Name(), it.hostFn("quiet", func(k *callCtx) []Outcome { return []Outcome{{st: k.st}} }))
		}
	}
}

// private: nobody else changes what v points to meanwhile.
func (it *Interp) private(v Value) {
	if p, ok := v.(*PtrV); ok {
		for _, t := range p.ts {
			t.o.input = false
		}
	}
}
