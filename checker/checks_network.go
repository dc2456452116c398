package main

// The networks that connect agents, and what agents know about their neighbors.

import (
	"fmt"
)

func init() {
	register(&Check{id: "C20", run: checkC20,
		rules: []string{"Every outcome of the constructor for small swarms (probabilistic and minimal connections, any connection probability and minimum): connections are mutual, join distinct members of the swarm, and give every agent at least the configured minimum of neighbors the swarm's size allows.",
			"The ring, star and full topologies given as an option connect exactly the pairs their names promise, both ways, and refuse too few agents."},
		assume: []string{"2, 3 and (topologies) 4 agents with distinct ids", "minimal connections may give up after their attempt limit; mutual and no self-connection still hold"},
		floor:  map[string]int{"mutual": 4, "no self-connection": 4, "minimum": 2, "topology": 6}})
}

// adjacency of a swarm's agents through IsConnectedTo; ok false when undecided.
func (c *Ctx) adjacency(it *Interp, st *State, as map[string]Value) (map[[2]string]int, map[string]*Num) {
	isc, cnt := c.fn(agentPkg, "Agent.IsConnectedTo"), c.fn(agentPkg, "Agent.NeighborCount")
	if isc == nil || cnt == nil {
		return nil, nil
	}
	adj := map[[2]string]int{}
	deg := map[string]*Num{}
	ids := keysSorted(as)
	for _, x := range ids {
		for _, y := range ids {
			v := -1
			for _, r := range c.run(it, isc, []Value{as[x], it.strK(y)}, nil, st.clone(), nil) {
				w := 2
				if b, ok := it.ret(r, 0).(*BoolV); ok && !r.panicked {
					w = r.st.decide(b)
				}
				if v != -1 && v != w {
					w = 2
				}
				v = w
			}
			adj[[2]string{x, y}] = v
		}
		rs := c.run(it, cnt, []Value{as[x]}, nil, st.clone(), nil)
		if len(rs) == 1 && !rs[0].panicked {
			deg[x] = it.numRet(rs[0], 0)
		}
	}
	return adj, deg
}

func adjStr(adj map[[2]string]int) string {
	s := ""
	for _, k := range keysSortedPairs(adj) {
		if adj[k] != 0 {
			s += fmt.Sprintf(" %s→%s", k[0], k[1])
			if adj[k] != 1 {
				s += "?"
			}
		}
	}
	return s
}

func keysSortedPairs(m map[[2]string]int) [][2]string {
	x := map[string][2]string{}
	for k := range m {
		x[k[0]+"\x00"+k[1]] = k
	}
	var out [][2]string
	for _, k := range keysSorted(x) {
		out = append(out, x[k])
	}
	return out
}

// network checks one built swarm; want (optional) says which pairs must be connected.
func (c *Ctx) network(it *Interp, st *State, s Value, what string, n int, min float64, want func(i, j int) bool) {
	c.agentsOf(it, st, s, what, n, func(st *State, as map[string]Value) {
		adj, deg := c.adjacency(it, st, as)
		if adj == nil {
			return
		}
		ids := keysSorted(as)
		mutual, self, members, enough := true, true, true, true
		for _, x := range ids {
			d := 0
			for _, y := range ids {
				if adj[[2]string{x, y}] == 2 || adj[[2]string{x, y}] != adj[[2]string{y, x}] {
					mutual = false
				}
				if adj[[2]string{x, y}] == 1 {
					d++
				}
			}
			self = self && adj[[2]string{x, x}] == 0
			members = members && deg[x] != nil && eqConst(st, deg[x], float64(d))
			enough = enough && float64(d) >= min
		}
		c.ob("mutual", what, mutual, 0, "a connection is one-sided:%s", adjStr(adj))
		c.ob("no self-connection", what, self, 0, "an agent is its own neighbor:%s", adjStr(adj))
		c.ob("members", what, members, 0, "an agent has neighbors outside the swarm, or one counted twice:%s", adjStr(adj))
		if min > 0 {
			c.ob("minimum", what, enough, 0, "an agent has fewer than %g neighbors:%s", min, adjStr(adj))
		}
		if want != nil {
			ok := true
			// the builder's order is unknown to the caller: compare up to renaming for ring and star
			ok = matches(ids, adj, want)
			c.ob("topology", what, ok, 0, "wrong connections:%s", adjStr(adj))
		}
	})
}

// matches: some assignment of positions to agents makes the adjacency the wanted one.
func matches(ids []string, adj map[[2]string]int, want func(i, j int) bool) bool {
	perm := make([]int, 0, len(ids))
	used := make([]bool, len(ids))
	var rec func() bool
	rec = func() bool {
		if len(perm) == len(ids) {
			for i := range ids {
				for j := range ids {
					if (adj[[2]string{ids[perm[i]], ids[perm[j]]}] == 1) != want(i, j) {
						return false
					}
				}
			}
			return true
		}
		for k := range ids {
			if !used[k] {
				used[k] = true
				perm = append(perm, k)
				if rec() {
					return true
				}
				perm = perm[:len(perm)-1]
				used[k] = false
			}
		}
		return false
	}
	return rec()
}

func checkC20(c *Ctx) {
	auto := c.fn(swarmPkg, "AutoScaleConfig")
	if auto == nil {
		return
	}
	mk := func() *Interp {
		it := c.exactInterp(1)
		it.disjLoops = true
		it.maxPath = 4000
		return it
	}
	type netcase struct {
		n, min  int
		minimal bool
	}
	cases := []netcase{{2, 1, false}, {2, 1, true}, {3, 0, false}, {3, 1, false}, {3, 2, false}, {3, 1, true}, {3, 2, true}}
	for _, k := range cases {
		it := mk()
		for _, r := range c.run(it, auto, []Value{it.constNum(float64(k.n))}, nil, newState(), nil) {
			cfg, _ := it.ret(r, 0).(*StructV)
			if cfg == nil {
				c.missing("configuration")
				continue
			}
			st := r.st
			p := it.freshNum("connection probability", Iv{0, 1}, false, false)
			st.assume(p.L, Iv{0, 1})
			set := map[string]Value{"ConnectionProbability": p, "MinNeighbors": it.constNum(float64(k.min)), "MaxNeighbors": it.constNum(float64(k.n - 1)), "EnableConnectionOptim": boolK(k.minimal), "ConnectionOptimThreshold": it.constNum(float64(k.n - 1))}
			u := structOf(cfg.typ)
			for i := 0; i < u.NumFields(); i++ {
				if v, ok := set[u.Field(i).Name()]; ok {
					cfg.f[i] = v
					delete(set, u.Field(i).Name())
				}
			}
			for f := range set {
				c.missing("Swarm." + f)
			}
			what := fmt.Sprintf("%d agents, minimum %d", k.n, k.min)
			min := float64(k.min)
			if k.minimal {
				what += ", minimal connections"
				min = 0 // random attempts are limited
			}
			built := 0
			o := c.option(it, st, "WithConfig", cfg)
			if o == nil {
				return
			}
			c.newSwarm(it, st, k.n, []Value{o}, func(st *State, s Value) {
				built++
				c.network(it, st, s, what, k.n, min, nil)
			})
			c.ob("built", what, built > 0, 0, "the constructor has no successful outcome")
		}
	}
	type topo struct {
		name string
		want func(n int) func(i, j int) bool
		min  int
	}
	for _, t := range []topo{
		{"Ring", func(n int) func(i, j int) bool {
			return func(i, j int) bool { return i != j && ((i+1)%n == j || (j+1)%n == i) }
		}, 2},
		{"Star", func(n int) func(i, j int) bool {
			return func(i, j int) bool { return i != j && (i == 0 || j == 0) }
		}, 2},
		{"FullyConnected", func(n int) func(i, j int) bool { return func(i, j int) bool { return i != j } }, 1},
	} {
		f := c.fn("internal/topology", t.name)
		if f == nil {
			continue
		}
		for n := 1; n <= 4; n++ {
			it := mk()
			st := newState()
			what := fmt.Sprintf("%s of %d agents", t.name, n)
			o := c.option(it, st, "WithTopology", &FuncV{alts: []FuncT{{fn: f}}, name: f.String()})
			if o == nil {
				return
			}
			built := 0
			c.newSwarm(it, st, n, []Value{o}, func(st *State, s Value) {
				built++
				c.network(it, st, s, what, n, 0, t.want(n))
			})
			c.ob("topology", what+", outcome", (built > 0) == (n >= t.min), f.Pos(), "%d successful outcomes", built)
		}
	}
}
