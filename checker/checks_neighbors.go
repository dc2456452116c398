package main

// What an agent knows about its neighbors.

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C21", run: checkC21,
		rules: []string{"Every sequence of up to three operations (four in the thorough tier) on an agent's connections, from no neighbors and from one below the fixed storage's size: connecting other agents, the agent itself and no agent, disconnecting known and unknown ones, and storing through Neighbors. After every operation IsConnectedTo, NeighborCount and the perceived context agree with the set of agents the sequence connects; updating the context reads the phase of exactly those agents.",
			"The same for the fixed-size storage itself, with room for one and two neighbors: Store reports whether there was room, Load, Range, All and Count agree with the set, Delete and Clear remove."},
		assume: []string{"ids are compared by equality only, so two or three distinct ids stand for all", "the operations follow one another; concurrent updates are not part of this property"},
		floor:  map[string]int{"connected": 4, "count": 4, "perceived count": 4, "density": 4, "reads": 4, "storage": 2}})
}

type nbOp struct {
	name string
	do   func(st *State) []*State  // none when the analysis cannot follow
	set  func(m map[string]string) // the oracle: id -> agent
	once bool
	only func(m map[string]string) bool
}

func checkC21(c *Ctx) {
	depth := 3
	if c.tier == "thorough" {
		depth = 4
	}
	c.neighborStorage(depth)
	nw := c.fn(agentPkg, "New")
	conn := c.fn(agentPkg, "Agent.ConnectTo")
	disc := c.fn(agentPkg, "Agent.DisconnectFrom")
	isc := c.fn(agentPkg, "Agent.IsConnectedTo")
	cnt := c.fn(agentPkg, "Agent.NeighborCount")
	upd := c.fn(agentPkg, "Agent.UpdateContext")
	nbs := c.fn(agentPkg, "Agent.Neighbors")
	phase := c.fn(agentPkg, "Agent.Phase")
	info := c.fn(agentPkg, "WithSwarmInfo")
	if nw == nil || conn == nil || disc == nil || isc == nil || cnt == nil || upd == nil || nbs == nil || phase == nil || info == nil {
		return
	}
	one := func(it *Interp, f *ssa.Function, args []Value, st *State) (Outcome, bool) {
		rs := c.run(it, f, args, nil, st, nil)
		if len(rs) != 1 || rs[0].panicked {
			return Outcome{}, false
		}
		return rs[0], true
	}
	for _, base := range []int{0, 19} {
		for _, assumed := range []int{0, 2, 20} {
			if base > 0 && assumed == 2 {
				continue
			}
			it := c.exactInterp(1)
			it.pubLocal = true
			st := newState()
			what := fmt.Sprintf("%d neighbors at first, %d assumed at most", base, assumed)
			ot := nw.Signature.Params().At(1).Type().(*types.Slice).Elem()
			mk := func(id string, opts ...Value) Value {
				r, ok := one(it, nw, []Value{it.strK(id), it.sliceOf(st, ot, opts)}, st)
				if !ok {
					c.missing("agent.New outcome")
					return nil
				}
				st = r.st
				return it.ret(r, 0)
			}
			r, ok := one(it, info, []Value{it.constNum(0), it.constNum(float64(assumed))}, st)
			if !ok {
				c.missing("WithSwarmInfo outcome")
				return
			}
			st = r.st
			me := mk("me", it.ret(r, 0))
			peers := map[string]Value{}
			ids := []string{"b", "c", "d"}
			for i := 0; i < base; i++ {
				ids = append(ids, fmt.Sprintf("n%d", i))
			}
			for _, id := range ids {
				if peers[id] = mk(id); peers[id] == nil {
					return
				}
			}
			if me == nil {
				return
			}
			set := map[string]string{}
			call := func(f *ssa.Function, args ...Value) func(st *State) []*State {
				return func(st *State) []*State {
					r, ok := one(it, f, args, st)
					if !ok {
						return nil
					}
					return []*State{r.st}
				}
			}
			for i := 0; i < base; i++ {
				id := fmt.Sprintf("n%d", i)
				ns := call(conn, me, it.strK(id), peers[id])(st)
				if len(ns) == 1 {
					st = ns[0]
				} else {
					c.missing("ConnectTo outcome")
					return
				}
				set[id] = id
			}
			// the cells read when an agent's phase is read
			cells := map[string]string{}
			for _, id := range append([]string{"me"}, ids...) {
				a := peers[id]
				if id == "me" {
					a = me
				}
				c.run(it, phase, []Value{a}, nil, st.clone(), func(s *State, e *Ev) {
					if e.kind == "lload" {
						cells[cellKey(e.data.(*LoadEv).cell)] = id
					}
				})
			}
			add := func(id string) func(m map[string]string) { return func(m map[string]string) { m[id] = id } }
			del := func(id string) func(m map[string]string) { return func(m map[string]string) { delete(m, id) } }
			store := func(id string) func(st *State) []*State {
				return func(st *State) []*State {
					r, ok := one(it, nbs, []Value{me}, st)
					if !ok {
						return nil
					}
					anyV := func(t types.Type, v Value) Value { return &IfaceV{alts: []IfT{{t, v}}} }
					rs := it.models["(*sync.Map).Store"](&callCtx{it: it, st: r.st, args: []Value{it.ret(r, 0), anyV(types.Typ[types.String], it.strK(id)), anyV(conn.Signature.Params().At(1).Type(), peers[id])}})
					if len(rs) != 1 {
						return nil
					}
					return []*State{rs[0].st}
				}
			}
			nilAgent := &PtrV{nilp: 2, typ: conn.Signature.Params().At(1).Type().(*types.Pointer).Elem()}
			ops := []nbOp{
				{name: "connect b", do: call(conn, me, it.strK("b"), peers["b"]), set: add("b")},
				{name: "connect c", do: call(conn, me, it.strK("c"), peers["c"]), set: add("c")},
				{name: "connect d", do: call(conn, me, it.strK("d"), peers["d"]), set: add("d")},
				{name: "disconnect b", do: call(disc, me, it.strK("b")), set: del("b")},
				{name: "disconnect c", do: call(disc, me, it.strK("c")), set: del("c")},
				{name: "store c", do: store("c"), set: add("c")},
				{name: "update", once: true, do: func(st *State) []*State {
					var out []*State
					for _, r := range c.run(it, upd, []Value{me}, nil, st, nil) {
						if !r.panicked {
							out = append(out, r.st)
						}
					}
					return out
				}, set: func(map[string]string) {}},
				{name: "connect itself", do: call(conn, me, it.strK("me"), me), set: func(map[string]string) {}},
				{name: "connect none", do: call(conn, me, it.strK("b"), nilAgent), set: func(map[string]string) {}},
			}
			if base > 0 {
				ops = append(ops, nbOp{name: "disconnect n0", do: call(disc, me, it.strK("n0")), set: del("n0")})
			}
			d := depth
			if base > 0 {
				d--
			}
			verify := func(st *State, set map[string]string, hist string) {
				for _, id := range append([]string{"me", "b", "c", "d"}, ids[3:min(len(ids), 4)]...) {
					r, ok := one(it, isc, []Value{me, it.strK(id)}, st.clone())
					b := boolOf(it.ret(r, 0))
					_, in := set[id]
					good := ok && b != nil && r.st.decide(b) == map[bool]int{true: 1, false: 0}[in]
					c.ob("connected", what, good, isc.Pos(), "after %s: IsConnectedTo(%s) is %s", hist, id, it.show(st, b))
				}
				r, ok := one(it, cnt, []Value{me}, st.clone())
				n := (*Num)(nil)
				if ok {
					n = it.numRet(r, 0)
				}
				c.ob("count", what, n != nil && eqConst(r.st, n, float64(len(set))), cnt.Pos(), "after %s: NeighborCount is %s, %d connected", hist, it.show(st, n), len(set))
				read := map[string]bool{}
				stored := 0
				rs := c.run(it, upd, []Value{me}, nil, st.clone(), func(s *State, e *Ev) {
					switch e.kind {
					case "lload":
						if id := cells[cellKey(e.data.(*LoadEv).cell)]; id != "" && id != "me" {
							it.observe(func() { read[id] = true })
						}
					case "publish":
						rec := recordOf(it.force(s, e.data.(*PubEv).v), corePkg, "Context")
						if rec == nil {
							return
						}
						n := it.numField(s, rec, "Neighbors")
						okN := n != nil && eqConst(s, n, float64(len(set)))
						want := 1.0
						if len(set) == 0 {
							want = 0
						} else if assumed >= len(set) {
							want = float64(len(set)) / float64(assumed)
						}
						dn := it.numField(s, rec, "Density")
						okD := dn != nil && !s.mayNaN(dn.L) && best(s, dn).lo >= want-1e-9 && best(s, dn).hi <= want+1e-9
						sn, sd := it.show(s, n), it.show(s, dn)
						it.observe(func() {
							stored++
							c.ob("perceived count", what, okN, e.pos, "after %s: the agent perceives %s neighbors, %d connected", hist, sn, len(set))
							c.ob("density", what, okD, e.pos, "after %s: the perceived density is %s with %d neighbors", hist, sd, len(set))
						})
					}
				})
				if len(rs) == 0 || rs[0].panicked || stored == 0 {
					c.ob("perceived count", what, false, upd.Pos(), "after %s: UpdateContext stores no context", hist)
					return
				}
				if len(cells) > 0 {
					good := len(read) == len(set)
					for id := range set {
						good = good && read[id]
					}
					c.ob("reads", what, good, upd.Pos(), "after %s: UpdateContext reads the phases of %v, connected are %v", hist, keysSorted(read), keysSorted(set))
				}
			}
			c.sequences(ops, d, st, set, nil, what, verify)
		}
	}
}

func boolOf(v Value) *BoolV { b, _ := v.(*BoolV); return b }

// sequences: every sequence of operations up to the depth, verified after each step.
func (c *Ctx) sequences(ops []nbOp, depth int, st *State, set map[string]string, hist []string, what string, verify func(st *State, set map[string]string, hist string)) {
	h := strings.Join(hist, ", ")
	if h == "" {
		h = "nothing"
	}
	verify(st, set, h)
	if len(hist) == depth {
		return
	}
	for _, op := range ops {
		if op.only != nil && !op.only(set) {
			continue
		}
		if op.once && slices.Contains(hist, op.name) {
			continue
		}
		ns := op.do(st.clone())
		if len(ns) == 0 {
			c.ob("connected", what, false, 0, "after %s: %s has no outcome", h, op.name)
			continue
		}
		m := map[string]string{}
		for k, v := range set {
			m[k] = v
		}
		op.set(m)
		for _, n := range ns {
			c.sequences(ops, depth, n, m, append(append([]string{}, hist...), op.name), what, verify)
		}
	}
}

func (c *Ctx) neighborStorage(depth int) {
	mkS := c.fn(agentPkg, "NewNeighborStorage")
	nw := c.fn(agentPkg, "New")
	fs := map[string]*ssa.Function{}
	for _, n := range []string{"Store", "Load", "Delete", "Range", "Count", "All", "Clear"} {
		if fs[n] = c.fn(agentPkg, "NeighborStorage."+n); fs[n] == nil {
			return
		}
	}
	if mkS == nil || nw == nil {
		return
	}
	for capacity := 1; capacity <= 2; capacity++ {
		it := c.exactInterp(1)
		st := newState()
		what := fmt.Sprintf("NeighborStorage for %d", capacity)
		one := func(f *ssa.Function, args []Value, st *State) (Outcome, bool) {
			rs := c.run(it, f, args, nil, st, nil)
			if len(rs) != 1 || rs[0].panicked {
				return Outcome{st: st}, false
			}
			return rs[0], true
		}
		r, ok := one(mkS, []Value{it.constNum(float64(capacity))}, st)
		if !ok {
			c.missing("NewNeighborStorage outcome")
			return
		}
		s, st := it.ret(r, 0), r.st
		peers := map[string]Value{}
		for _, id := range []string{"b", "b2", "c", "d"} {
			r, ok := one(nw, []Value{it.strK(id), &SliceV{nilp: 2, n: it.constNum(0), cp: it.constNum(0)}}, st)
			if !ok {
				c.missing("agent.New outcome")
				return
			}
			peers[id], st = it.ret(r, 0), r.st
		}
		same := func(v Value, name string) bool {
			p, ok := v.(*PtrV)
			return ok && p.nilp == 0 && len(p.ts) == 1 && p.ts[0].o == peers[name].(*PtrV).ts[0].o
		}
		var ops []nbOp
		for _, x := range [][2]string{{"b", "b"}, {"b", "b2"}, {"c", "c"}, {"d", "d"}} {
			id, ag := x[0], x[1]
			room := func(m map[string]string) bool { _, in := m[id]; return in || len(m) < capacity }
			for _, fits := range []bool{true, false} {
				fits := fits
				ops = append(ops, nbOp{name: "store " + id + " (" + ag + ")", do: func(st *State) []*State {
					r, ok := one(fs["Store"], []Value{s, it.strK(id), peers[ag]}, st)
					if !ok {
						return nil
					}
					b := boolOf(it.ret(r, 0))
					c.ob("storage", what+", Store result", b != nil && (r.st.decide(b) == 1) == fits && r.st.decide(b) != 2, fs["Store"].Pos(), "Store returns %s with room %v", it.show(r.st, b), fits)
					return []*State{r.st}
				}, set: func(m map[string]string) {
					if fits {
						m[id] = ag
					}
				}, only: func(m map[string]string) bool { return room(m) == fits }})
			}
		}
		for _, id := range []string{"b", "c"} {
			id := id
			ops = append(ops, nbOp{name: "delete " + id, do: func(st *State) []*State {
				r, ok := one(fs["Delete"], []Value{s, it.strK(id)}, st)
				if !ok {
					return nil
				}
				return []*State{r.st}
			}, set: func(m map[string]string) { delete(m, id) }})
		}
		ops = append(ops, nbOp{name: "clear", do: func(st *State) []*State {
			r, ok := one(fs["Clear"], []Value{s}, st)
			if !ok {
				return nil
			}
			return []*State{r.st}
		}, set: func(m map[string]string) { clear(m) }})
		c.sequences(ops, depth, st, map[string]string{}, nil, what, func(st *State, set map[string]string, hist string) {
			for _, id := range []string{"b", "c", "d"} {
				r, ok := one(fs["Load"], []Value{s, it.strK(id)}, st.clone())
				b := boolOf(it.ret(r, 1))
				ag, in := set[id]
				good := ok && b != nil && r.st.decide(b) == map[bool]int{true: 1, false: 0}[in] && (!in || same(it.ret(r, 0), ag))
				c.ob("storage", what+", Load", good, fs["Load"].Pos(), "after %s: Load(%s) is %s, %s", hist, id, it.show(st, it.ret(r, 0)), it.show(st, b))
			}
			r, ok := one(fs["Count"], []Value{s}, st.clone())
			n := it.numRet(r, 0)
			c.ob("storage", what+", Count", ok && n != nil && eqConst(r.st, n, float64(len(set))), fs["Count"].Pos(), "after %s: Count is %s, %d stored", hist, it.show(st, n), len(set))
			r, ok = one(fs["All"], []Value{s}, st.clone())
			good := ok
			seen := map[string]bool{}
			if sl, isS := it.ret(r, 0).(*SliceV); ok && isS {
				good = eqConst(r.st, sl.n, float64(len(set)))
				if len(set) > 0 && good {
					arr, _ := it.content(r.st, sl.o).(*ArrV)
					good = arr != nil && len(arr.e) >= len(set)
					for i := 0; good && i < len(set); i++ {
						for _, ag := range set {
							if same(it.force(r.st, arr.e[i]), ag) {
								seen[ag] = true
							}
						}
					}
					good = good && len(seen) == len(set)
				}
			} else {
				good = false
			}
			c.ob("storage", what+", All", good, fs["All"].Pos(), "after %s: All does not return the %d stored agents: %s", hist, len(set), it.show(r.st, it.ret(r, 0)))
			var got []string
			okR := true
			cb := it.hostFn("visitor", func(q *callCtx) []Outcome {
				id, known := strOf(q.st, it.force(q.st, q.args[0]))
				okR = okR && known && set[id] != "" && same(it.force(q.st, q.args[1]), set[id])
				got = append(got, id)
				return []Outcome{{st: q.st, ret: boolK(true)}}
			})
			_, ok = one(fs["Range"], []Value{s, cb}, st.clone())
			uniq := map[string]bool{}
			for _, g := range got {
				uniq[g] = true
			}
			c.ob("storage", what+", Range", ok && okR && len(got) == len(set) && len(uniq) == len(set), fs["Range"].Pos(), "after %s: Range visits %v, stored are %v", hist, got, keysSorted(set))
		})
	}
}
