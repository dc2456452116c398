package main

// The monitors: they report exactly what was recorded.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C26", run: checkC26,
		rules: []string{"Both convergence monitors, from their constructor with an unknown target and threshold, through every sequence of up to three operations (four in the thorough tier), each recording an unknown coherence in [0, 1] or resetting: after every operation IsConverged holds exactly when the last recorded coherence reaches the threshold, CurrentCoherence is the last one, History is a separate list of exactly the recorded ones in order, ConvergenceTime is zero unless converged, Stability lies in [0, 1], the predicted time is never negative and zero when converged, and Statistics agree: the count, the extremes, a mean between them, a deviation that is not negative.",
			"Both history monitors, through 103 recordings: History lists the last 100 in order and is a copy, Latest is the last one, Average is the mean of what History lists.",
			"The distance monitor, with a window of three, through every outcome of up to four samples and along two outcomes of each further sample up to twelve, and again after Reset: GetProgress lies in [0, 1]; with fewer than three samples it neither converges nor switches strategy, and with fewer than two the rate is zero; with three samples it converges exactly when the distance fell by more than 0.002; it is never both converging and stuck, and never stuck before six samples; it keeps at most twice the window."},
		assume: []string{"coherences in [0, 1], distances finite and not negative", "a list longer than the sequences explored behaves like these", "the library's double-ended queue keeps what was pushed in order"},
		floor:  map[string]int{"converged": 2, "current": 2, "history": 4, "stability": 2, "prediction": 2, "statistics": 2, "latest": 2, "average": 2, "progress": 1, "trend": 1, "bounded": 1}})
}

var monitorCopies = [][2]string{{"emerge/monitoring", "NewConvergence"}, {"internal/emerge", "NewConvergenceMonitor"}}

func checkC26(c *Ctx) {
	depth := 3
	if c.tier == "thorough" {
		depth = 4
	}
	for _, cp := range monitorCopies {
		c.convergenceMonitor(cp[0], cp[1], depth)
	}
	c.historyMonitor("emerge/monitoring", "New")
	c.historyMonitor("internal/emerge", "NewMonitor")
	c.distanceMonitor()
}

func (c *Ctx) convergenceMonitor(rel, ctor string, depth int) {
	nw := c.fn(rel, ctor)
	fs := map[string]*ssa.Function{}
	for _, n := range []string{"Record", "IsConverged", "ConvergenceTime", "CurrentCoherence", "Stability", "PredictConvergenceTime", "History", "Statistics", "Reset"} {
		if fs[n] = c.fn(rel, "ConvergenceMonitor."+n); fs[n] == nil {
			return
		}
	}
	if nw == nil {
		return
	}
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 200, 400
	st := newState()
	args := lazyArgs(it, nw)
	thr := it.freshNum("threshold", Iv{0, 1}, false, false)
	args[len(args)-1] = thr
	rs := c.run(it, nw, args, nil, st, nil)
	if len(rs) != 1 || rs[0].panicked {
		c.missing(rel + "." + ctor + " outcome")
		return
	}
	m, st := it.ret(rs[0], 0), rs[0].st
	all := func(f *ssa.Function, st *State, args ...Value) []Outcome {
		rs := c.run(it, f, append([]Value{m}, args...), nil, st.clone(), nil)
		out := rs[:0]
		for _, r := range rs {
			if r.panicked {
				c.ob("no panic", fname(f), false, r.pos, "%s can panic", fname(f))
				continue
			}
			out = append(out, r)
		}
		if len(out) == 0 {
			c.ob("no panic", fname(f), false, f.Pos(), "%s has no outcome", fname(f))
		}
		return out
	}
	// reached: 1 the last coherence is at least the threshold, 0 it is not, 2 undecided
	reached := func(st *State, rec []*Num) int {
		if len(rec) == 0 {
			return 0
		}
		d := st.entail(linSub(rec[len(rec)-1].L, thr.L))
		switch {
		case d.lo > d.hi:
			return 2 // an impossible path
		case d.lo >= 0:
			return 1
		case d.hi < 0:
			return 0
		}
		return 2
	}
	verify := func(st *State, rec []*Num, hist string) {
		for _, r := range all(fs["IsConverged"], st) {
			b := boolOf(it.ret(r, 0))
			want := reached(r.st, rec)
			c.ob("converged", rel, b != nil && r.st.decide(b) != 2 && (want == 2 || r.st.decide(b) == want), r.pos, "after %s: IsConverged is %s, the threshold is reached: %d", hist, it.show(r.st, b), want)
		}
		for _, r := range all(fs["CurrentCoherence"], st) {
			n := it.numRet(r, 0)
			good := n != nil && len(rec) == 0 && eqConst(r.st, n, 0)
			if len(rec) > 0 {
				good = n != nil && sameLin(r.st, n.L, rec[len(rec)-1].L)
			}
			c.ob("current", rel, good, r.pos, "after %s: CurrentCoherence is %s", hist, it.show(r.st, n))
		}
		for _, r := range all(fs["ConvergenceTime"], st) {
			if reached(r.st, rec) == 0 {
				n := it.numRet(r, 0)
				c.ob("converged", rel+", ConvergenceTime", n != nil && eqConst(r.st, n, 0), r.pos, "after %s: a convergence time is reported without convergence", hist)
			}
		}
		for _, r := range all(fs["History"], st) {
			s, _ := it.ret(r, 0).(*SliceV)
			good := s != nil && eqConst(r.st, s.n, float64(len(rec)))
			if good && len(rec) > 0 {
				arr, ok := it.content(r.st, s.o).(*ArrV)
				good = ok && len(arr.e) >= s.lo+len(rec)
				for i := 0; good && i < len(rec); i++ {
					n, ok := it.force(r.st, arr.e[s.lo+i]).(*Num)
					good = ok && sameLin(r.st, n.L, rec[i].L)
				}
				good = good && !it.holds(r.st, m, s.o)
			}
			c.ob("history", rel, good, r.pos, "after %s: History is %s, not a copy of the %d recorded values", hist, it.show(r.st, s), len(rec))
		}
		for _, r := range all(fs["Stability"], st) {
			n := it.numRet(r, 0)
			c.ob("stability", rel, n != nil && within(r.st, n, Iv{0, 1}), r.pos, "after %s: stability is %s", hist, it.show(r.st, n))
		}
		for _, r := range all(fs["PredictConvergenceTime"], st) {
			n := it.numRet(r, 0)
			c.ob("prediction", rel, n != nil && best(r.st, n).lo >= 0 && !r.st.mayNaN(n.L), r.pos, "after %s: the predicted time is %s", hist, it.show(r.st, n))
			if n != nil && reached(r.st, rec) == 1 {
				c.ob("prediction", rel+", converged", eqConst(r.st, n, 0), r.pos, "after %s: a convergence time of %s is predicted although converged", hist, it.show(r.st, n))
			}
		}
		for _, r := range all(fs["Statistics"], st) {
			mv, _ := it.ret(r, 0).(*MapV)
			var mc *MapC
			if mv != nil && mv.o != nil {
				mc, _ = it.content(r.st, mv.o).(*MapC)
			}
			get := func(k string) Value {
				if mc == nil {
					return nil
				}
				e, ok := mc.entries["s:"+k]
				if !ok {
					return nil
				}
				v := it.force(r.st, e[1])
				if i, ok := v.(*IfaceV); ok && len(i.alts) == 1 {
					return it.force(r.st, i.alts[0].v)
				}
				return v
			}
			num := func(k string) *Num { n, _ := get(k).(*Num); return n }
			ok := func(k string, good bool) {
				c.ob("statistics", rel+", "+k, good, r.pos, "after %s: statistics report %s as %s", hist, k, it.show(r.st, get(k)))
			}
			if n := num("samples"); n != nil {
				ok("samples", eqConst(r.st, n, float64(len(rec))))
			} else {
				ok("samples", false)
			}
			b := boolOf(get("converged"))
			want := reached(r.st, rec)
			ok("converged", b != nil && r.st.decide(b) != 2 && (want == 2 || r.st.decide(b) == want))
			mx, mn := num("max"), num("min")
			ok("max", mx != nil)
			ok("min", mn != nil)
			if len(rec) == 0 || mx == nil || mn == nil {
				continue
			}
			isOne := func(x *Num) bool {
				for _, v := range rec {
					if sameLin(r.st, x.L, v.L) {
						return true
					}
				}
				return false
			}
			gmx, gmn := isOne(mx) || eqConst(r.st, mx, 0), isOne(mn) || eqConst(r.st, mn, 1)
			for _, v := range rec {
				gmx = gmx && le(r.st, v, mx)
				gmn = gmn && le(r.st, mn, v)
			}
			ok("max", gmx)
			ok("min", gmn)
			mean := num("mean")
			ok("mean", mean != nil && leMul(r.st, mn, mean, len(rec)) && leMul(r.st, mean, mx, len(rec)))
			sd := num("std_dev")
			ok("std_dev", sd != nil && within(r.st, sd, Iv{0, math.Inf(1)}))
		}
	}
	var walk func(st *State, rec []*Num, hist []string, n int)
	walk = func(st *State, rec []*Num, hist []string, n int) {
		h := strings.Join(hist, ", ")
		if h == "" {
			h = "nothing"
		}
		verify(st, rec, h)
		if n == depth {
			return
		}
		v := it.freshNum(fmt.Sprintf("coherence%d", n+1), Iv{0, 1}, false, false)
		for _, r := range all(fs["Record"], st, v) {
			walk(r.st, append(append([]*Num{}, rec...), v), append(append([]string{}, hist...), "Record"), n+1)
		}
		if len(hist) > 0 && hist[len(hist)-1] != "Reset" {
			for _, r := range all(fs["Reset"], st) {
				walk(r.st, nil, append(append([]string{}, hist...), "Reset"), n+1)
			}
		}
	}
	walk(st, nil, nil, 0)
}

// leMul: a <= b, compared after multiplying by k so that averages have whole coefficients.
func leMul(st *State, a, b *Num, k int) bool {
	return leL(st, linSub(linScale(a.L, float64(k)), linScale(b.L, float64(k))))
}

// holds: a slice field of the object keeps its elements in o.
func (it *Interp) holds(st *State, v Value, o *Obj) bool {
	s, ok := it.deref(st, v).(*StructV)
	if !ok {
		return false
	}
	u := structOf(s.typ)
	for i := range s.f {
		if _, isS := u.Field(i).Type().Underlying().(*types.Slice); isS {
			if x, ok := it.force(st, s.f[i]).(*SliceV); ok && x.o == o {
				return true
			}
		}
	}
	return false
}

// dequeModels: a double-ended queue as the list of its elements.
func dequeModels(it *Interp) {
	const p = "github.com/gammazero/deque."
	list := func(c *callCtx) (*Obj, []Value) {
		v, ok := c.args[0].(*PtrV)
		if !ok || len(v.ts) != 1 || v.nilp != 0 {
			it.abort("a queue that is not known")
		}
		a, ok := c.it.content(c.st, v.ts[0].o).(*ArrV)
		if !ok {
			it.abort("a queue whose elements are not known")
		}
		return v.ts[0].o, a.e
	}
	ret := func(c *callCtx, v Value) []Outcome { return []Outcome{{st: c.st, ret: v, pos: c.pos}} }
	put := func(c *callCtx, o *Obj, e []Value) {
		c.st.mem[o] = &ArrV{typ: c.it.content(c.st, o).(*ArrV).typ, e: append([]Value(nil), e...)}
	}
	die := func(c *callCtx) []Outcome { return []Outcome{{st: c.st, panicked: true, pos: c.pos}} }
	it.models[p+"New"] = func(c *callCtx) []Outcome {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := &Obj{id: c.it.id(), name: "deque", typ: types.NewArray(types.Typ[types.Float64], 0)}
		c.st.mem[o] = &ArrV{typ: o.typ}
		return ret(c, &PtrV{ts: []PtrT{{o: o}}, typ: t})
	}
	m := func(n string, f func(c *callCtx) []Outcome) { it.models["(*"+p+"Deque[T])."+n] = f }
	m("Len", func(c *callCtx) []Outcome { _, e := list(c); return ret(c, c.it.constNum(float64(len(e)))) })
	m("PushBack", func(c *callCtx) []Outcome {
		o, e := list(c)
		put(c, o, append(append([]Value(nil), e...), c.args[1]))
		return ret(c, nil)
	})
	m("PushFront", func(c *callCtx) []Outcome {
		o, e := list(c)
		put(c, o, append([]Value{c.args[1]}, e...))
		return ret(c, nil)
	})
	m("PopFront", func(c *callCtx) []Outcome {
		o, e := list(c)
		if len(e) == 0 {
			return die(c)
		}
		put(c, o, e[1:])
		return ret(c, e[0])
	})
	m("PopBack", func(c *callCtx) []Outcome {
		o, e := list(c)
		if len(e) == 0 {
			return die(c)
		}
		put(c, o, e[:len(e)-1])
		return ret(c, e[len(e)-1])
	})
	at := func(pick func(c *callCtx, n int) int) func(c *callCtx) []Outcome {
		return func(c *callCtx) []Outcome {
			_, e := list(c)
			i := pick(c, len(e))
			if i < 0 || i >= len(e) {
				return die(c)
			}
			return ret(c, e[i])
		}
	}
	m("Front", at(func(*callCtx, int) int { return 0 }))
	m("Back", at(func(_ *callCtx, n int) int { return n - 1 }))
	m("At", at(func(c *callCtx, n int) int {
		k, ok := c.args[1].(*Num)
		if !ok || !k.L.isConst() {
			it.abort("an index into a queue that is not known")
		}
		return int(k.L.c)
	}))
	m("Clear", func(c *callCtx) []Outcome { o, _ := list(c); put(c, o, nil); return ret(c, nil) })
}

func (c *Ctx) historyMonitor(rel, ctor string) {
	nw := c.fn(rel, ctor)
	fs := map[string]*ssa.Function{}
	for _, n := range []string{"RecordSample", "History", "Latest", "Average"} {
		if fs[n] = c.fn(rel, "Monitor."+n); fs[n] == nil {
			return
		}
	}
	if nw == nil {
		return
	}
	it := c.exactInterp(1)
	dequeModels(it)
	one := func(f *ssa.Function, st *State, args ...Value) (Outcome, bool) {
		rs := c.run(it, f, args, nil, st.clone(), nil)
		if len(rs) != 1 || rs[0].panicked {
			c.ob("history", rel, false, f.Pos(), "%s has no single outcome", fname(f))
			return Outcome{}, false
		}
		return rs[0], true
	}
	r, ok := one(nw, newState())
	if !ok {
		return
	}
	m, st := it.ret(r, 0), r.st
	var rec []*Num
	for i := 0; ; i++ {
		if i <= 3 || i >= 99 {
			h := fmt.Sprintf("after %d recordings", i)
			last := rec[max(0, len(rec)-100):]
			if r, ok := one(fs["History"], st, m); ok {
				s, _ := it.ret(r, 0).(*SliceV)
				good := s != nil && eqConst(r.st, s.n, float64(len(last)))
				if good && len(last) > 0 {
					arr, ok := it.content(r.st, s.o).(*ArrV)
					good = ok && len(arr.e) >= s.lo+len(last)
					for k := 0; good && k < len(last); k++ {
						n, ok := it.force(r.st, arr.e[s.lo+k]).(*Num)
						good = ok && sameLin(r.st, n.L, last[k].L)
					}
					good = good && !it.holds(r.st, m, s.o)
				}
				c.ob("history", rel+" Monitor", good, r.pos, "%s: History is not a copy of the last %d values in order", h, len(last))
			}
			if r, ok := one(fs["Latest"], st, m); ok {
				n := it.numRet(r, 0)
				good := n != nil && len(last) == 0 && eqConst(r.st, n, 0)
				if len(last) > 0 {
					good = n != nil && sameLin(r.st, n.L, last[len(last)-1].L)
				}
				c.ob("latest", rel, good, r.pos, "%s: Latest is %s", h, it.show(r.st, n))
			}
			if r, ok := one(fs["Average"], st, m); ok {
				n := it.numRet(r, 0)
				good := n != nil && len(last) == 0 && eqConst(r.st, n, 0)
				if n != nil && len(last) > 0 {
					sum := it.constNum(0).L
					for _, v := range last {
						sum = linAdd(sum, v.L, 1)
					}
					d := linSub(linScale(n.L, float64(len(last))), sum)
					e := r.st.entail(d)
					good = e.lo >= -1e-6 && e.hi <= 1e-6
				}
				c.ob("average", rel, good, r.pos, "%s: Average is not the mean of the last %d values", h, len(last))
			}
		}
		if i == 103 {
			break
		}
		v := it.freshNum(fmt.Sprintf("sample%d", i+1), Iv{0, 1}, false, false)
		r, ok := one(fs["RecordSample"], st, m, v)
		if !ok {
			return
		}
		rec, st = append(rec, v), r.st
	}
}

func (c *Ctx) distanceMonitor() {
	const rel, window = "emerge/convergence", 3
	nw := c.fn(rel, "NewMonitor")
	fs := map[string]*ssa.Function{}
	for _, n := range []string{"RecordSample", "IsConverging", "IsStuck", "GetProgress", "GetConvergenceRate", "ShouldSwitchStrategy", "Reset"} {
		if fs[n] = c.fn(rel, "Monitor."+n); fs[n] == nil {
			return
		}
	}
	if nw == nil {
		return
	}
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.pubLocal = true
	it.unrollPaths, it.maxPath = 200, 400
	var dist []*Num
	it.models[modPath+"/emerge/core.PatternDistance"] = func(k *callCtx) []Outcome {
		return []Outcome{{st: k.st, ret: dist[len(dist)-1]}}
	}
	all := func(f *ssa.Function, st *State, args ...Value) []Outcome {
		rs := c.run(it, f, args, nil, st.clone(), nil)
		out := rs[:0]
		for _, r := range rs {
			if r.panicked {
				c.ob("no panic", fname(f), false, r.pos, "%s can panic", fname(f))
				continue
			}
			out = append(out, r)
		}
		if len(out) == 0 {
			c.ob("no panic", fname(f), false, f.Pos(), "%s has no outcome", fname(f))
		}
		return out
	}
	is := func(f string, st *State, m Value) (bool, bool) { // may be true, may be false
		t, fl := false, false
		for _, r := range all(fs[f], st, m) {
			b := boolOf(it.ret(r, 0))
			d := 2
			if b != nil {
				d = r.st.decide(b)
			}
			t, fl = t || d != 0, fl || d != 1
		}
		return t, fl
	}
	for _, w := range []float64{window, 0} {
		rs := all(nw, newState(), it.constNum(w))
		if len(rs) != 1 {
			return
		}
		m, st := it.ret(rs[0], 0), rs[0].st
		size := int(w)
		if size == 0 {
			size = 10 // the documented default
		}
		verify := func(st *State, d []*Num, h string) {
			for _, r := range all(fs["GetProgress"], st, m) {
				n := it.numRet(r, 0)
				good := n != nil && within(r.st, n, Iv{0, 1})
				if len(d) == 0 {
					good = good && eqConst(r.st, n, 0)
				}
				c.ob("progress", rel, good, r.pos, "%s: progress is %s", h, it.show(r.st, n))
			}
			conv, _ := is("IsConverging", st, m)
			stuck, _ := is("IsStuck", st, m)
			c.ob("trend", rel+", exclusive", !conv || !stuck, fs["IsStuck"].Pos(), "%s: the monitor can be converging and stuck at once", h)
			c.ob("trend", rel+", stuck", len(d) >= 6 || !stuck, fs["IsStuck"].Pos(), "%s: the monitor can already be stuck", h)
			sw, _ := is("ShouldSwitchStrategy", st, m)
			if len(d) < 3 {
				c.ob("trend", rel+", few samples", !conv && !sw, fs["ShouldSwitchStrategy"].Pos(), "%s: converging or switching is decided from fewer than three samples", h)
			}
			if len(d) < 2 {
				for _, r := range all(fs["GetConvergenceRate"], st, m) {
					n := it.numRet(r, 0)
					c.ob("trend", rel+", rate", n != nil && eqConst(r.st, n, 0), r.pos, "%s: a rate is reported without two samples", h)
				}
			}
			if len(d) == 3 {
				for _, r := range all(fs["IsConverging"], st, m) {
					b := boolOf(it.ret(r, 0))
					for want := 0; want <= 1; want++ {
						s2 := r.st.clone()
						if b != nil && (s2.decide(b) == 1-want || !s2.assumeBool(b, want == 1)) {
							continue
						}
						e := s2.entail(linSub(d[2].L, d[0].L))
						good := e.lo > e.hi || b != nil && (want == 1 && e.hi <= -0.002+1e-9 || want == 0 && e.lo >= -0.002-1e-9)
						c.ob("trend", rel+", converging", good, r.pos, "%s: converging is %v although the distance changes by %s", h, want == 1, e)
					}
				}
			}
			if o, ok := it.deref(st, m).(*StructV); ok {
				u := structOf(o.typ)
				for i := range o.f {
					if s, ok := it.force(st, o.f[i]).(*SliceV); ok {
						c.ob("bounded", rel+", "+u.Field(i).Name(), best(st, s.n).hi <= float64(2*size), fs["RecordSample"].Pos(), "%s: %s keeps %s samples, more than twice the window", h, u.Field(i).Name(), it.show(st, s.n))
					}
				}
			}
		}
		var walk func(st *State, d []*Num, n, full int, h string)
		walk = func(st *State, d []*Num, n, full int, h string) {
			verify(st, d, fmt.Sprintf("%s %d samples", h, len(d)))
			if n == 0 {
				return
			}
			v := it.freshNum(fmt.Sprintf("distance%d", len(d)+1), Iv{0, maxFinite}, false, false)
			dist = append(dist, v)
			args := lazyArgs(it, fs["RecordSample"])
			args[0], args[len(args)-1] = m, it.freshNum("coherence", Iv{0, 1}, false, false)
			rs := all(fs["RecordSample"], st, args...)
			if full <= 0 && len(rs) > 2 {
				rs = []Outcome{rs[0], rs[len(rs)-1]}
			}
			if full < -1 && len(rs) > 1 {
				rs = rs[n%2 : n%2+1]
			}
			for _, r := range rs {
				walk(r.st, append(append([]*Num{}, d...), v), n-1, full-1, h)
			}
			dist = dist[:len(dist)-1]
		}
		if w == 0 {
			walk(st, nil, 22, -5, "without a window, after")
			continue
		}
		walk(st, nil, 12, 4, "after")
		// a reset makes it as new
		cur := st
		for i := 0; i < 7; i++ {
			dist = append(dist, it.freshNum("earlier", Iv{0, maxFinite}, false, false))
			args := lazyArgs(it, fs["RecordSample"])
			args[0], args[len(args)-1] = m, it.freshNum("coherence", Iv{0, 1}, false, false)
			rs := all(fs["RecordSample"], cur, args...)
			if len(rs) == 0 {
				return
			}
			cur = rs[len(rs)-1].st
		}
		for _, r := range all(fs["Reset"], cur, m) {
			walk(r.st, nil, 3, 3, "after a reset and")
		}
	}
}
