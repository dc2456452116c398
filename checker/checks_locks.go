package main

// Lock discipline and guarded state, decided from the lock facts.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C22", run: checkC22,
		rules:  []string{"Interprocedural lockset dataflow over every function of the module, from every exported function and every goroutine, one analysis per set of held locks. balanced: on every path a lock is released exactly as often and in the mode it was taken, and nothing is held at return. not re-entered: no path takes a mutex it already holds, in any mode. order: the relation 'taken while holding' has no cycle. no waiting: no channel operation, blocking select, WaitGroup wait or sleep happens while a lock is held."},
		assume: []string{"Locks are told apart by the access path from a parameter, captured variable, global or allocation; two paths to one mutex count as two locks except for the lock order, which is by field.", "Calls through interfaces reach every implementation in the module; function values reach what the context shows, else every function of that type whose value is taken. Functions passed in from outside the module are not analysed.", "Library functions take none of the module's locks."},
		floor:  map[string]int{"balanced": 40, "not re-entered": 40, "order": 4, "no waiting": 20}})
	register(&Check{id: "C23", run: checkC23,
		rules:  []string{"guarded: every field that a locked section changes after construction is only read and written while one and the same lock of the object is held, and changed only in its exclusive mode; so are the contents of the map, slice or container it holds. escape: such a map or slice is never returned to outside code, stored elsewhere, sent or given to a goroutine without being copied. atomic: a field used with sync/atomic is never accessed plainly."},
		assume: []string{"A freshly allocated object is private until it is given to a goroutine.", "Set-up is not concurrent with use: fields only written by a method before it starts its goroutines, and the display's widgets and captions.", "Fields of types from sync and sync/atomic are safe by themselves."},
		floor:  map[string]int{"guarded": 30, "escape": 10, "atomic": 1}})
}

func checkC22(c *Ctx) {
	L := c.P.lockFacts()
	c.lockEvidence(L)
	bad := map[string]bool{}
	issue := func(rule string, fn *ssa.Function) *lockIssue {
		for i, b := range L.bad {
			if b.rule == rule && b.fn == fn {
				return &L.bad[i]
			}
		}
		return nil
	}
	rep := func(rule string, fn *ssa.Function) {
		b := issue(rule, fn)
		if b == nil {
			c.ob(rule, fname(fn), true, fn.Pos(), "")
			return
		}
		bad[rule+fname(fn)] = true
		c.ob(rule, fname(fn), false, b.pos, "%s", b.what)
	}
	for _, fn := range sortedFns(L.fns) {
		if L.locksIn[fn] > 0 || issue("balanced", fn) != nil || issue("not re-entered", fn) != nil {
			rep("balanced", fn)
			rep("not re-entered", fn)
		}
		if b := issue("analysis", fn); b != nil {
			c.ob("analysis", fname(fn), false, b.pos, "%s", b.what)
		}
	}
	// lock order: a cycle in the relation
	next := map[string][]lockEdge{}
	var es []lockEdge
	for e := range L.edges {
		es = append(es, e)
		next[e.from] = append(next[e.from], e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from+es[i].to < es[j].from+es[j].to })
	reaches := func(from, to string) []string {
		prev := map[string]string{from: ""}
		work := []string{from}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if x == to {
				var p []string
				for y := x; y != ""; y = prev[y] {
					p = append([]string{y}, p...)
				}
				return p
			}
			for _, e := range next[x] {
				if _, ok := prev[e.to]; !ok {
					prev[e.to] = x
					work = append(work, e.to)
				}
			}
		}
		return nil
	}
	for _, e := range es {
		p := reaches(e.to, e.from)
		c.ob("order", e.from+" before "+e.to, p == nil, L.edges[e], "%s is taken while %s is held, and elsewhere the other way round (%s)", e.to, e.from, strings.Join(p, " before "))
	}
	// waiting
	waits := map[*ssa.Function][]blockOp{}
	for _, b := range L.blocks {
		waits[b.fn] = append(waits[b.fn], b)
	}
	for _, fn := range sortedFns(L.fns) {
		if w := waits[fn]; len(w) > 0 {
			c.ob("no waiting", fname(fn), false, w[0].pos, "%s while %s", w[0].what, w[0].held)
		} else if L.locksIn[fn] > 0 {
			c.ob("no waiting", fname(fn), true, fn.Pos(), "")
		}
	}
}

func (c *Ctx) lockEvidence(L *LockFacts) {
	for f := range L.fns {
		c.fns[f] = true
	}
	c.paths += L.contexts
	c.steps += L.calls + len(L.accesses)
	if c.extra == nil {
		c.extra = map[string]interface{}{}
	}
	c.extra["lock_analysis"] = map[string]int{"entry_points": L.entries, "functions": len(L.fns), "contexts": L.contexts, "calls": L.calls, "acquisitions": L.acquires, "field_accesses": len(L.accesses)}
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// knownGuarded: the fields the design protects with a lock, so that dropping every lock
// around one of them is noticed as well. Fields that no longer exist are skipped.
var knownGuarded = strings.Fields(`
emerge/agent.NeighborStorage.ids emerge/agent.NeighborStorage.neighbors
emerge/completion.Engine.templates
emerge/convergence.Monitor.history emerge/convergence.Monitor.target
emerge/monitoring.ConvergenceMonitor.convergedTime emerge/monitoring.ConvergenceMonitor.history emerge/monitoring.ConvergenceMonitor.maxCoherence
emerge/monitoring.ConvergenceMonitor.minCoherence emerge/monitoring.ConvergenceMonitor.startTime emerge/monitoring.ConvergenceMonitor.timestamps
emerge/monitoring.Monitor.history
internal/emerge.ConvergenceMonitor.convergedTime internal/emerge.ConvergenceMonitor.history internal/emerge.ConvergenceMonitor.maxCoherence
internal/emerge.ConvergenceMonitor.minCoherence internal/emerge.ConvergenceMonitor.startTime internal/emerge.ConvergenceMonitor.timestamps
internal/emerge.Monitor.history
emerge/swarm.GoalDirectedSync.currentStrategy
simulations/display.TerminalDisplay.coherenceHistory simulations/display.TerminalDisplay.targetHistory
simulations/emerge/simulation.BatchManager.current simulations/emerge/simulation.BatchManager.lastBatchSize
simulations/emerge/simulation.BatchManager.lastBatchTime simulations/emerge/simulation.BatchManager.totalBatches
simulations/emerge/simulation.MetricsCollector.batchSizes simulations/emerge/simulation.MetricsCollector.convergedAt
simulations/emerge/simulation.MetricsCollector.costWithSync simulations/emerge/simulation.MetricsCollector.costWithoutSync
simulations/emerge/simulation.MetricsCollector.largestBatch simulations/emerge/simulation.MetricsCollector.peakCoherence
simulations/emerge/simulation.MetricsCollector.startTime simulations/emerge/simulation.MetricsCollector.totalAPICalls
simulations/emerge/simulation.MetricsCollector.totalBatches simulations/emerge/simulation.MetricsCollector.totalTasks
simulations/emerge/simulation.Simulation.disrupted simulations/emerge/simulation.Simulation.parentCtx simulations/emerge/simulation.Simulation.paused
simulations/emerge/simulation.Simulation.pausedCoherence simulations/emerge/simulation.Simulation.pausedPhases simulations/emerge/simulation.Simulation.reset
simulations/emerge/simulation.Simulation.startTime simulations/emerge/simulation.Simulation.swarmCancel simulations/emerge/simulation.Simulation.swarmCtx
simulations/emerge/simulation.Workload.batchesSent simulations/emerge/simulation.Workload.burstActive simulations/emerge/simulation.Workload.burstEndTime
simulations/emerge/simulation.Workload.lastRequestTime simulations/emerge/simulation.Workload.pendingTasks simulations/emerge/simulation.Workload.taskCounter
simulations/emerge/simulation.Workload.tasksGenerated
`)

type fieldUse struct {
	owner, field string
	as           []access
}

func (L *LockFacts) fields() []*fieldUse {
	m := map[string]*fieldUse{}
	for _, a := range L.accesses {
		k := a.owner + "." + a.field
		if m[k] == nil {
			m[k] = &fieldUse{owner: a.owner, field: a.field}
		}
		m[k].as = append(m[k].as, a)
	}
	var r []*fieldUse
	for _, k := range keysSorted(m) {
		r = append(r, m[k])
	}
	return r
}

func checkC23(c *Ctx) {
	L := c.P.lockFacts()
	c.lockEvidence(L)
	known := map[string]bool{}
	for _, k := range knownGuarded {
		known[k] = true
	}
	guarded := map[string]bool{}
	own := func(a access) bool { // a lock of the object's own type, or of one that contains it
		return len(a.guards) > 0
	}
	for _, u := range L.fields() {
		name := u.owner + "." + u.field
		lockedWrite, locked, written := false, false, false
		for _, a := range u.as {
			if a.write {
				written = written || !a.setup || own(a)
				lockedWrite = lockedWrite || own(a)
			}
			for k := range a.guards {
				locked = locked || strings.HasPrefix(k, u.owner+".")
			}
		}
		if !written {
			continue
		}
		if !lockedWrite && !known[name] && !(locked && !setUpType(u.owner)) {
			continue
		}
		guarded[name] = true
		setUp := func(a access) bool { return a.write && a.setup && !lockedWrite && !known[name] }
		// the locks every access has in common
		common := map[string]int{}
		first := true
		var culprit *access
		for i, a := range u.as {
			if setUp(a) {
				continue
			}
			if first {
				for k, m := range a.guards {
					common[k] = m
				}
				first = false
			}
			for k := range common {
				if _, ok := a.guards[k]; !ok {
					delete(common, k)
				}
			}
			if len(common) == 0 && culprit == nil {
				culprit = &u.as[i]
			}
		}
		if len(common) == 0 && culprit != nil {
			// name the access without the usual lock
			n := map[string]int{}
			for _, a := range u.as {
				for k := range a.guards {
					n[k]++
				}
			}
			usual := ""
			for _, k := range keysSorted(n) {
				if usual == "" || n[k] > n[usual] {
					usual = k
				}
			}
			for i, a := range u.as {
				if _, ok := a.guards[usual]; !ok && !setUp(a) {
					culprit = &u.as[i]
					break
				}
			}
			verb := "read"
			if culprit.write {
				verb = "changed"
			}
			c.ob("guarded", name, false, culprit.pos, "%s is %s in %s without %s", name, verb, fname(culprit.fn), orNone(usual))
			continue
		}
		ok := true
		for _, a := range u.as {
			if !a.write || setUp(a) {
				continue
			}
			excl := false
			for k := range common {
				excl = excl || a.guards[k] == 2
			}
			if !excl {
				c.ob("guarded", name, false, a.pos, "%s is changed in %s with %s held for reading only", name, fname(a.fn), strings.Join(keysSorted(common), ", "))
				ok = false
				break
			}
		}
		if ok {
			c.ob("guarded", name, true, u.as[0].pos, "")
		}
	}
	L.findLeaks(guarded)
	bad := map[string]bool{}
	for _, l := range L.leaks {
		name := l.owner + "." + l.field
		bad[name] = true
		c.ob("escape", name, false, l.pos, "the contents of %s are %s in %s without a copy", name, l.how, fname(l.fn))
	}
	for _, k := range keysSorted(guarded) {
		if !bad[k] {
			c.ob("escape", k, true, 0, "")
		}
	}
	for _, k := range keysSorted(L.atomics) {
		var plain *access
		for i, a := range L.accesses {
			if a.owner+"."+a.field == k {
				plain = &L.accesses[i]
			}
		}
		if plain != nil {
			c.ob("atomic", k, false, plain.pos, "%s is used with sync/atomic elsewhere, but accessed plainly in %s", k, fname(plain.fn))
		} else {
			c.ob("atomic", k, true, L.atomics[k], "")
		}
	}
}

func orNone(s string) string {
	if s == "" {
		return "any lock"
	}
	return s
}

// setUpType: types whose unlocked fields are set up before use.
func setUpType(owner string) bool { return strings.HasPrefix(owner, "simulations/display.") }

func debugLocks(P *Program) {
	L := P.lockFacts()
	fmt.Println("entries", L.entries, "functions", len(L.fns), "contexts", L.contexts, "calls", L.calls, "acquires", L.acquires, "accesses", len(L.accesses))
	for _, b := range L.bad {
		fmt.Println("ISSUE", b.rule, b.what, P.pos(b.pos))
	}
	for _, b := range L.blocks {
		fmt.Println("BLOCK", b.what, b.held, P.pos(b.pos), fname(b.fn))
	}
	for _, e := range sortedEdges(L) {
		fmt.Println("EDGE", e.from, "->", e.to, P.pos(L.edges[e]))
	}
	for _, u := range L.fields() {
		fmt.Println("FIELD", u.owner+"."+u.field)
		if os.Getenv("VERIF_FIELDS") == "" {
			continue
		}
		for _, a := range u.as {
			fmt.Printf("    w=%v deep=%v setup=%v %v %s %s\n", a.write, a.deep, a.setup, a.guards, P.pos(a.pos), fname(a.fn))
		}
	}
}

func sortedEdges(L *LockFacts) []lockEdge {
	var es []lockEdge
	for e := range L.edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from+es[i].to < es[j].from+es[j].to })
	return es
}
