package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C24", run: checkC24,
		rules:  []string{"goroutine: what a go statement starts is known. loop: every cycle that waits passes, on every round, a test that counts towards a fixed bound or one that leaves the function when its context is cancelled, a deadline set before the cycle passes or a quit channel is closed by its owner; in functions with a context it is the context (or quit channel) that ends the cycle. wait: every single wait has a case for the context, a timer or a quit channel, or a message that fits the channel. context: a function that is given a context waits on it or one derived from it, and passes such a one on. cancel: every cancel function is called, deferred, returned or kept on every path, and one kept in a field is called before it is replaced."},
		assume: []string{"A cancelled context, a passed deadline and a closed channel are noticed by a select in finitely many rounds.", "Library calls that are given a context return when it is cancelled; mutexes are C22's subject.", "The program's own main loop is exempt: it ends with the display."},
		floor:  map[string]int{"goroutine": 10, "loop": 8, "wait": 12, "context": 8, "cancel": 4}})
	register(&Check{id: "C25", run: checkC25,
		rules:  []string{"loop: every cycle of every function passes, on every round, a test that leaves it after finitely many rounds: a range over a collection that does not grow, a counter moving towards a bound that stays fixed (for numbers of bounded size when it is a float), a compare-and-swap that is retried, a random number that is drawn until it passes a comparison, members drawn from a collection seen to be larger than the number wanted, or a wait that ends with its context, deadline or owner. recursion: no function reaches itself through calls."},
		assume: []string{"Random draws are accepted eventually, a compare-and-swap succeeds eventually.", "Phases of agents stay on the circle (C01).", "A component that is called through an interface was built before its owner and does not contain it.", "Counters do not overflow. The program's own main loop is exempt."},
		floor:  map[string]int{"loop": 60, "recursion": 200}})
}

func (c *Ctx) liveScope(L *Live) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.funcs {
		if libTest(f) || f.Synthetic != "" && f.Name() != "init" || strings.HasSuffix(pkgPath(f), "/testutil") {
			continue
		}
		out = append(out, f)
		c.fns[f] = true
	}
	return out
}

func isMainLoop(f *ssa.Function) bool {
	return f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil
}

// hasCtx: the function is given a context, or captures one.
func hasCtx(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isContext(p.Type()) {
			return true
		}
	}
	for _, v := range f.FreeVars {
		t := v.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if isContext(t) {
			return true
		}
	}
	return false
}

func checkC24(c *Ctx) {
	L := c.P.live()
	for _, f := range c.liveScope(L) {
		for i, r := range L.loops(f, hasCtx(f)) {
			if !r.waiting || isMainLoop(f) {
				continue
			}
			what := fmt.Sprintf("%s, waiting loop %d", fname(f), i+1)
			if hasCtx(f) {
				c.ob("loop", what, r.ok, r.pos, "no test in this loop of %s ends it when the context is cancelled", fname(f))
			} else {
				c.ob("loop", what, r.ok, r.pos, "nothing ends this waiting loop of %s", fname(f))
			}
		}
		n := map[string]int{}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c.steps++
				if w := waitOp(ins); w != "" {
					n[w]++
					h := L.waitEnds(ins)
					c.ob("wait", fmt.Sprintf("%s, %s %d", fname(f), w, n[w]), h != "", ins.Pos(), "this %s in %s can last for ever", w, fname(f))
				}
				if g, ok := ins.(*ssa.Go); ok {
					n["go"]++
					ts := L.callees(g.Common())
					c.ob("goroutine", fmt.Sprintf("%s, go %d", fname(f), n["go"]), len(ts) > 0, ins.Pos(), "what %s starts here is not known", fname(f))
				}
				if cl, ok := ins.(ssa.CallInstruction); ok {
					c.contexts(L, f, cl, n)
				}
			}
		}
	}
}

func (c *Ctx) contexts(L *Live, f *ssa.Function, cl ssa.CallInstruction, n map[string]int) {
	cc := cl.Common()
	sf := cc.StaticCallee()
	// every context handed on comes from the caller
	if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
		args := cc.Args
		if cc.IsInvoke() && isContext(cc.Value.Type()) && cc.Method.Name() == "Done" {
			args = []ssa.Value{cc.Value}
		}
		for _, a := range args {
			if isContext(a.Type()) {
				n["ctx"]++
				c.ob("context", fmt.Sprintf("%s, use %d", fname(f), n["ctx"]), !L.ctxLost(a), cl.Pos(), "%s uses a context here that its callers cannot cancel", fname(f))
			}
		}
	}
	if sf == nil {
		return
	}
	switch sf.String() {
	case "context.Background", "context.TODO":
		// one root per function, made once: a second one is not reached by the first one's cancel function
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			n["root"]++
			c.ob("context", fmt.Sprintf("%s, root %d", fname(f), n["root"]), n["root"] == 1 && !L.inLoop(cl.(ssa.Instruction)), cl.Pos(), "%s makes another root context here, which the shutdown of the first does not reach", fname(f))
		}
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		n["cancel"]++
		bad := L.cancelLost(cl.(*ssa.Call), 0)
		c.ob("cancel", fmt.Sprintf("%s, cancel %d", fname(f), n["cancel"]), bad == "", cl.Pos(), "%s: %s", fname(f), bad)
	}
}

// cancelLost: how the cancel function of a new context gets lost, or "".
func (L *Live) cancelLost(call *ssa.Call, depth int) string {
	var cv ssa.Value
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
			cv = e
		}
	}
	if cv == nil {
		return "the cancel function is thrown away"
	}
	used := map[*ssa.BasicBlock]bool{}
	same := map[ssa.Value]bool{}
	kept, ret := "", ""
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if same[v] || v.Referrers() == nil {
			return
		}
		same[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				follow(x)
			case *ssa.ChangeType:
				follow(x)
			case *ssa.MakeInterface:
				follow(x)
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					used[x.Block()] = true
					if m := L.keptLost(x, fa); m != "" {
						kept = m
					}
					continue
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					for _, rr := range *a.Referrers() {
						switch y := rr.(type) {
						case *ssa.UnOp:
							follow(y)
						case *ssa.MakeClosure:
							used[y.Block()] = true
						}
					}
					continue
				}
				used[x.Block()] = true
			case ssa.Instruction:
				used[x.Block()] = true
			}
		}
	}
	follow(cv)
	if kept != "" {
		return kept
	}
	if ret != "" {
		return ret
	}
	if len(used) == 0 {
		return "the cancel function is never used"
	}
	if used[call.Block()] || L.ancestorEnds(call) {
		return ""
	}
	// a path from here to a return that does nothing with it
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, call.Block().Succs...)
	if _, ok := call.Block().Instrs[len(call.Block().Instrs)-1].(*ssa.Return); ok {
		return "the function returns without calling the cancel function"
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || used[b] {
			continue
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return "a path returns without calling the cancel function"
		}
		work = append(work, b.Succs...)
	}
	return ""
}

// ancestorEnds: the context derives from one whose cancel function the same function defers.
func (L *Live) ancestorEnds(call *ssa.Call) bool {
	for _, o := range L.origins(call.Common().Args[0]) {
		e, ok := o.(*ssa.Extract)
		if !ok {
			return false
		}
		p, ok := e.Tuple.(*ssa.Call)
		if !ok || p.Parent() != call.Parent() {
			return false
		}
		deferred := false
		for _, r := range *p.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == 1 {
				for _, rr := range *x.Referrers() {
					if d, ok := rr.(*ssa.Defer); ok && d.Common().Value == ssa.Value(x) && d.Block().Dominates(call.Block()) {
						deferred = true
					}
				}
			}
		}
		if !deferred {
			return false
		}
	}
	return true
}

// keptLost: a cancel function stored in a field replaces one that was not called.
func (L *Live) keptLost(st *ssa.Store, fa *ssa.FieldAddr) string {
	t, fld, ok := fieldOfAddr(fa)
	if !ok {
		return ""
	}
	key := fieldKey(t, fld)
	if a, ok := fa.X.(*ssa.Alloc); ok && a.Heap {
		return "" // the owner is new
	}
	isField := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		x, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t2, f2, ok := fieldOfAddr(x)
		return ok && fieldKey(t2, f2) == key
	}
	called := map[*ssa.BasicBlock]bool{}
	any := false
	for _, f := range L.P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					hit := isField(c.Common().Value)
					if g := L.callee(c.Common()); g != nil && g.Blocks != nil && inModule(g) && g != f {
						for _, gb := range g.Blocks {
							for _, gi := range gb.Instrs {
								if gc, ok := gi.(ssa.CallInstruction); ok && isField(gc.Common().Value) {
									hit = true
								}
							}
						}
					}
					if hit {
						any = true
						if f == st.Parent() {
							called[b] = true
						}
					}
				}
			}
		}
	}
	if !any {
		return fmt.Sprintf("the cancel function kept in %s is never called", fld)
	}
	f := st.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if called[b] {
			continue
		}
		if b == st.Block() {
			return fmt.Sprintf("the cancel function in %s is replaced without having been called", fld)
		}
		succs := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := i.Cond.(*ssa.BinOp); ok && (isField(bo.X) || isField(bo.Y)) {
				switch bo.Op {
				case token.EQL:
					succs = succs[1:]
				case token.NEQ:
					succs = succs[:1]
				}
			}
		}
		work = append(work, succs...)
	}
	return ""
}

func checkC25(c *Ctx) {
	L := c.P.live()
	fns := c.liveScope(L)
	kinds := map[string]int{}
	for _, f := range fns {
		for i, r := range L.loops(f, false) {
			if isMainLoop(f) && r.waiting {
				continue
			}
			c.steps++
			kinds[r.how]++
			c.ob("loop", fmt.Sprintf("%s, loop %d", fname(f), i+1), r.ok, r.pos, "nothing bounds this loop of %s", fname(f))
		}
	}
	if c.extra == nil {
		c.extra = map[string]interface{}{}
	}
	c.extra["loops"] = kinds
	// recursion
	next := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(ssa.CallInstruction); ok {
					if _, isGo := ins.(*ssa.Go); isGo {
						continue
					}
					cc := cl.Common()
					if cc.IsInvoke() {
						// a component given from outside: it was built before its owner, so it is not the owner
						if _, own := cc.Value.(*ssa.MakeInterface); !own {
							continue
						}
					}
					next[f] = append(next[f], L.callees(cc)...)
				}
			}
		}
	}
	for _, f := range fns {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, next[f]...)
		hit := false
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == f {
				hit = true
				break
			}
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, next[g]...)
		}
		c.ob("recursion", fname(f), !hit, f.Pos(), "%s can call itself", fname(f))
	}
}

func debugLive(P *Program) {
	L := P.live()
	for _, f := range P.funcs {
		if libTest(f) {
			continue
		}
		for _, r := range L.loops(f, hasCtx(f)) {
			fmt.Println("LOOP", fname(f), P.pos(r.pos), r.ok, r.waiting, r.how)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if w := waitOp(ins); w != "" {
					fmt.Println("WAIT", fname(f), P.pos(ins.Pos()), w, "|", L.waitEnds(ins))
				}
			}
		}
	}
}
