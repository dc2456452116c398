package main

// C03 actions are all-or-nothing; C04 no lost update; C05 exact, isolated attributes.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origOf returns the ids of the shared loads a value was computed from.
func origOf(v Value, out map[int]bool) {
	switch x := v.(type) {
	case *Lazy:
		if x.memo != nil {
			origOf(x.memo, out)
		}
		addOrig(x.orig, out)
	case *Num:
		for s := range x.L.allDeps() {
			addOrig(s.orig, out)
		}
		for _, t := range x.L.t {
			addOrig(t.s.orig, out)
		}
	case *StructV:
		for _, f := range x.f {
			origOf(f, out)
		}
	case *IfaceV:
		for _, a := range x.alts {
			origOf(a.v, out)
		}
	case *PtrV:
		for _, t := range x.ts {
			addOrig(t.o.orig, out)
		}
	}
}

func addOrig(o string, out map[int]bool) {
	if strings.HasPrefix(o, "load:") {
		n := 0
		fmt.Sscanf(o, "load:%d", &n)
		if n > 0 {
			out[n] = true
		}
	}
}

// loadedRecord: the contents a shared load saw.
func (it *Interp) loadedRecord(st *State, v Value) *StructV {
	switch x := v.(type) {
	case *IfaceV:
		if len(x.alts) == 1 {
			return it.loadedRecord(st, it.force(st, x.alts[0].v))
		}
	case *PtrV:
		if len(x.ts) == 1 && x.ts[0].o.lazy != nil {
			s, _ := it.force(st, x.ts[0].o.lazy).(*StructV)
			return s
		}
	}
	return nil
}

// sameSnapshot: e is the very value loaded by l.
func sameSnapshot(st *State, it *Interp, e Value, l *LoadEv) bool {
	if e == nil {
		return false
	}
	a, b := map[int]bool{}, l.id
	origOf(e, a)
	return a[b] && len(a) == 1
}

type loadIndex map[int]*LoadEv

func loadsOf(st *State) loadIndex {
	r := loadIndex{}
	var add func(e *Ev)
	add = func(e *Ev) {
		switch d := e.data.(type) {
		case *LoadEv:
			r[d.id] = d
		case map[string]*Ev:
			for _, x := range d {
				add(x)
			}
		}
	}
	for e := st.ev; e != nil; e = e.prev {
		add(e)
	}
	return r
}

// heldLocks parses a lock snapshot into key -> mode@epoch.
func heldLocks(s string) map[string]string {
	r := map[string]string{}
	for _, p := range strings.Split(s, ",") {
		if i := strings.LastIndexByte(p, ':'); i > 0 {
			r[p[:i]] = p[i+1:]
		}
	}
	return r
}

// equalFields: field f of two records is the same value.
func (it *Interp) sameField(st *State, a, b *StructV, i int) bool {
	x, y := a.f[i], b.f[i]
	if x == y {
		return true
	}
	x, y = it.force(st, x), it.force(st, y)
	switch p := x.(type) {
	case *Num:
		q, ok := y.(*Num)
		return ok && sameLin(st, p.L, q.L)
	}
	return x == y
}

func fieldNames(t types.Type) []string {
	var r []string
	u := structOf(t)
	for i := 0; i < u.NumFields(); i++ {
		r = append(r, u.Field(i).Name())
	}
	return r
}

func fieldIndex(t types.Type, n string) int {
	for i, f := range fieldNames(t) {
		if f == n {
			return i
		}
	}
	return -1
}

// basis: the record a publication was derived from, when it replaces exactly that record.
func (it *Interp) basis(st *State, p *PubEv, loads loadIndex) (*LoadEv, *StructV, string) {
	deps := map[int]bool{}
	origOf(p.v, deps)
	if p.cas {
		for id, l := range loads {
			if l.cell.o == p.cell.o && samePath(l.cell.path, p.cell.path) && sameSnapshot(st, it, p.expected, l) {
				_ = id
				return l, it.loadedRecord(st, l.v), "cas"
			}
		}
		return nil, nil, ""
	}
	// one critical section
	for id := range deps {
		l := loads[id]
		if l == nil || l.cell.o != p.cell.o || !samePath(l.cell.path, p.cell.path) {
			continue
		}
		hl, hp := heldLocks(l.locks), heldLocks(p.locks)
		for k, m := range hl {
			if hp[k] == m && strings.HasPrefix(m, "2@") {
				return l, it.loadedRecord(st, l.v), "lock:" + it.lockName[k]
			}
		}
	}
	return nil, nil, ""
}

func init() {
	register(&Check{id: "C03", run: checkC03,
		rules: []string{"On every path of applying an arbitrary action: success is reported exactly when one atomic publication replaced a record whose energy covers the cost, by a record with energy reduced by exactly the cost, the phase moved by exactly the action's value (mod 2π; not at all for 'maintain') and nothing else changed, and the cost is what is returned.",
			"On every path that reports failure, the published state is untouched and the error is the documented one for the reason: unaffordable, or unknown action type."},
		assume: []string{"finite numbers"},
		floor:  map[string]int{"success path": 2, "refusal path": 2}})
	register(&Check{id: "C04", run: checkC04,
		rules: []string{"A published record computed from a shared load replaces exactly that load's record (compare-and-swap on it, or both inside one exclusive critical section that every writer of the cell uses).",
			"A record is never modified after publication and a loaded record is never modified in place."},
		floor: map[string]int{"atomic read-modify-write": 8}})
	register(&Check{id: "C05", run: checkC05,
		rules: []string{"Each setter and each option publishes a record that differs from the one it replaces only in the attribute it names; the new value is the argument (phases modulo 2π; energy raised to 0 and influence/stubbornness clamped only when out of range).",
			"Each getter returns that attribute of one loaded record."},
		assume: []string{"finite numbers"},
		floor:  map[string]int{"isolated": 14, "exact": 10, "getter": 6}})
}

func isStatePub(e *Ev, typ string) *PubEv {
	if e.kind != "publish" {
		return nil
	}
	p := e.data.(*PubEv)
	if recordOf(p.v, agentPkg, typ) == nil {
		return nil
	}
	return p
}

// flat lists the events of a path; those folded in a loop marker are flagged.
func flat(st *State) (evs []*Ev, inLoop []bool) {
	for _, e := range st.events() {
		if m, ok := e.data.(map[string]*Ev); ok && e.kind == "loop" {
			for _, k := range keysSorted(m) {
				evs = append(evs, m[k])
				inLoop = append(inLoop, true)
			}
			continue
		}
		evs = append(evs, e)
		inLoop = append(inLoop, false)
	}
	return
}

func checkC03(c *Ctx) {
	f := c.fn(agentPkg, "Agent.ApplyAction")
	if f == nil {
		return
	}
	it := newAgentInterp(c)
	it.maxPath = 200
	args := lazyArgs(it, f)
	st := newState()
	act := it.force(st, args[1])
	cost, _ := it.field(st, act, "Cost").(*Num)
	value, _ := it.field(st, act, "Value").(*Num)
	typ, _ := it.field(st, act, "Type").(*StrV)
	if cost == nil || value == nil || typ == nil {
		c.missing("action cost, value, type")
		return
	}
	rs := c.run(it, f, args, nil, st, nil)
	moving := map[string]bool{}
	known := map[string]bool{}
	bad := func(rule, what string, ok bool, r Outcome, f string, a ...interface{}) {
		c.ob(rule, what, ok, r.pos, f, a...)
	}
	for _, r := range rs {
		if r.panicked {
			bad("no panic", "ApplyAction", false, r, "applying an action can panic")
			continue
		}
		s := r.st
		tname, haveT := s.strEq[typ.id]
		kind := "other type"
		if haveT {
			kind = tname
		}
		ok0, _ := it.ret(r, 0).(*BoolV)
		d := 2
		if ok0 != nil {
			d = s.decide(ok0)
		}
		rcost := it.numRet(r, 1)
		err := it.ret(r, 2)
		en := errNil(s, err)
		loads := loadsOf(s)
		var eff []*PubEv
		amb := false
		evs, inl := flat(s)
		for i, e := range evs {
			if b := isStatePub(e, "BehaviorData"); b != nil {
				bad("only the state changes", kind, false, r, "behaviour parameters are modified")
			}
			p := isStatePub(e, "StateData")
			if p == nil {
				continue
			}
			if inl[i] {
				amb = true
			}
			_, rec, _ := it.basis(s, p, loads)
			nr := recordOf(p.v, agentPkg, "StateData")
			same := rec != nil
			if rec != nil {
				for k := range nr.f {
					same = same && it.sameField(s, nr, rec, k)
				}
			}
			if !same {
				eff = append(eff, p)
			}
		}
		if d == 2 {
			bad("result decided", kind, false, r, "success flag undetermined")
			continue
		}
		if d == 1 {
			known[kind] = true
			bad("success path", kind+": no error", en == 0, r, "reports success together with an error")
			bad("success path", kind+": known type", haveT, r, "an action of unrecognised type is reported as applied")
			bad("success path", kind+": cost returned", rcost != nil && sameLin(s, rcost.L, cost.L), r, "returned cost is not the action's cost")
			if amb || len(eff) > 1 {
				bad("success path", kind+": applied once", false, r, "the action can be applied more than once")
				continue
			}
			if len(eff) == 0 {
				// permitted only if the action provably changes nothing (no cost, no move)
				bad("success path", kind+": applied once", false, r, "reports success without publishing the new state")
				continue
			}
			p := eff[0]
			_, rec, how := it.basis(s, p, loads)
			bad("success path", kind+": atomic", rec != nil, r, "the published state does not replace the state it was computed from (not one atomic step)")
			if rec == nil {
				continue
			}
			_ = how
			nr := recordOf(p.v, agentPkg, "StateData")
			e0, e1 := it.numField(s, rec, "Energy"), it.numField(s, nr, "Energy")
			bad("success path", kind+": affordable", le(s, cost, e0), r, "applied although the cost may exceed the energy of the state it replaces")
			bad("success path", kind+": charged exactly", sameLin(s, e1.L, linSub(e0.L, cost.L)), r, "new energy is %s, expected %s", e1.L, linSub(e0.L, cost.L))
			p0, p1 := it.numField(s, rec, "Phase"), it.numField(s, nr, "Phase")
			still := sameLin(s, p0.L, p1.L)
			moved := p1.L.residue().key == linAdd(p0.L, value.L, 1).residue().key
			if tname == "maintain" {
				bad("success path", kind+": phase kept", still, r, "'maintain' moves the phase to %s", p1.L)
			} else {
				bad("success path", kind+": phase moved by value", moved, r, "new phase %s is not the old phase plus the action's value (mod 2π)", p1.L)
				moving[kind] = moved
			}
			for _, fn := range fieldNames(rec.typ) {
				if fn == "Phase" || fn == "Energy" {
					continue
				}
				bad("success path", kind+": "+fn+" kept", it.sameField(s, nr, rec, fieldIndex(rec.typ, fn)), r, "%s changes", fn)
			}
			continue
		}
		// refused
		bad("refusal path", kind+": error", en == 2, r, "refusal without an error")
		bad("refusal path", kind+": no effect", !amb && len(eff) == 0, r, "a refused action changes the agent's state")
		bad("refusal path", kind+": nothing charged", rcost != nil && best(s, rcost).in(Iv{0, 0}), r, "a refused action reports a cost of %v", it.show(s, it.ret(r, 1)))
		ins := c.isSentinel(err, "emerge/core", "ErrInsufficientEnergy")
		unk := c.isSentinel(err, "emerge/core", "ErrUnknownActionType")
		bad("refusal path", kind+": documented error", ins != unk, r, "the error is neither 'insufficient energy' nor 'unknown action type'")
		if ins {
			why := false
			for _, l := range loads {
				if rec := it.loadedRecord(s, l.v); rec != nil && fieldIn(rec.typ, agentPkg, "StateData") {
					if e := it.numField(s, rec, "Energy"); e != nil && st2lt(s, e, cost) {
						why = true
					}
				}
			}
			bad("refusal path", kind+": really unaffordable", why, r, "refused for lack of energy although the cost does not exceed the energy seen")
		}
		if unk {
			for _, t := range []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"} {
				no := haveT && tname != t || s.strNeq[typ.id][t]
				bad("refusal path", "type "+t+" accepted", no, r, "action type %q is rejected as unknown", t)
			}
		}
	}
	for _, t := range []string{"adjust_phase", "phase_nudge", "frequency_lock", "energy_save", "pulse", "maintain"} {
		c.ob("action types", t, known[t], f.Pos(), "no path applies an action of type %q", t)
	}
}

// st2lt: a < b strictly on this path.
func st2lt(s *State, a, b *Num) bool {
	iv := s.entail(linSub(a.L, b.L))
	return iv.hi < 0
}

func checkC04(c *Ctx) {
	type wr struct {
		how, entry string
		locks      map[string]bool
		pos        string
	}
	writers := map[string][]wr{}
	seen := c.runAgentEntries(func(it *Interp, entry *ssa.Function, s *State, e *Ev) {
		switch e.kind {
		case "publish":
			p := e.data.(*PubEv)
			var typ string
			for _, t := range []string{"StateData", "BehaviorData"} {
				if recordOf(p.v, agentPkg, t) != nil {
					typ = t
				}
			}
			if typ == "" || p.local {
				return
			}
			loads := loadsOf(s)
			deps := map[int]bool{}
			origOf(p.v, deps)
			rmw := false
			for id := range deps {
				if l := loads[id]; l != nil && l.cell.o == p.cell.o && samePath(l.cell.path, p.cell.path) {
					rmw = true
				}
			}
			lk := map[string]bool{}
			for k, m := range heldLocks(p.locks) {
				if strings.HasPrefix(m, "2@") {
					lk[it.lockName[k]] = true
				}
			}
			how := "blind"
			ok := true
			if rmw {
				var l *LoadEv
				l, _, how = it.basis(s, p, loads)
				ok = l != nil
				for id := range deps {
					if x := loads[id]; x != nil && x.cell.o == p.cell.o && samePath(x.cell.path, p.cell.path) && l != nil && x.id != l.id {
						// a second snapshot of the same cell flows in: only harmless when it is not copied into the record
						ok = ok && !copiesField(it, s, p.v, x)
					}
				}
			}
			if how == "cas" || how == "blind" && p.cas {
				how = "cas"
			}
			d := it.show(s, p.v)
			pos := c.P.pos(e.pos)
			it.observe(func() {
				c.ob("atomic read-modify-write", fname(entry)+" "+typ, ok, e.pos, "publishes a record computed from an earlier snapshot without replacing exactly that snapshot: a concurrent update is lost (%s)", d)
				writers[typ] = append(writers[typ], wr{how, fname(entry), lk, pos})
			})
		case "store":
			se := e.data.(*StoreEv)
			{
				root := se.t.o
				if fieldIn(root.typ, agentPkg, "StateData") || fieldIn(root.typ, agentPkg, "BehaviorData") {
					bad := strings.HasPrefix(root.orig, "load:") || published(s, root)
					it.observe(func() {
						c.ob("snapshots immutable", fname(entry), !bad, e.pos, "writes into a record that is (or was) shared: readers see a torn or unsynchronised change")
					})
				}
			}
		}
	}, nil)
	for typ, ws := range writers {
		var common map[string]bool
		locked := ""
		for _, w := range ws {
			if strings.HasPrefix(w.how, "lock:") {
				locked = w.entry
				if common == nil {
					common = w.locks
				}
			}
		}
		if locked == "" {
			continue
		}
		for _, w := range ws {
			ok := false
			for k := range w.locks {
				ok = ok || common[k]
			}
			c.obAt("all writers locked", w.entry+" "+typ, ok, w.pos, "writes the %s cell without the lock %s relies on", typ, locked)
		}
	}
	c.checkEncapsulated(agentPkg, "AtomicState", "AtomicBehavior")
	c.checkPublishersCovered(seen, "AtomicState", "AtomicBehavior")
}

func published(s *State, o *Obj) bool {
	for e := s.ev; e != nil; e = e.prev {
		if p, ok := e.data.(*PubEv); ok && p.pubObj == o && !p.local {
			return true
		}
		if m, ok := e.data.(map[string]*Ev); ok {
			for _, x := range m {
				if p, ok := x.data.(*PubEv); ok && p.pubObj == o && !p.local {
					return true
				}
			}
		}
	}
	return false
}

// copiesField: some field of v is exactly a field of the record loaded by l.
func copiesField(it *Interp, s *State, v Value, l *LoadEv) bool {
	rec := it.loadedRecord(s, l.v)
	nr, ok := v.(*StructV)
	if rec == nil || !ok {
		return true
	}
	for i := range nr.f {
		if nr.f[i] == rec.f[i] {
			return true
		}
		n, k := nr.f[i].(*Num)
		m, k2 := it.force(s, rec.f[i]).(*Num)
		if k && k2 && n.L.key == m.L.key {
			return true
		}
	}
	return false
}

// attribute described by an entry point's name
var attrOf = map[string][2]string{
	"Phase": {"StateData", "Phase"}, "RandomPhase": {"StateData", "Phase"},
	"Frequency": {"StateData", "Frequency"}, "RandomFrequency": {"StateData", "Frequency"},
	"LocalGoal": {"StateData", "LocalGoal"}, "RandomLocalGoal": {"StateData", "LocalGoal"},
	"Energy": {"StateData", "Energy"}, "ResourceManager": {"StateData", "Energy"},
	"Influence": {"BehaviorData", "Influence"}, "Stubbornness": {"BehaviorData", "Stubbornness"},
}

func checkC05(c *Ctx) {
	run := func(f *ssa.Function, attr string, randomised bool) {
		rec, fld := attrOf[attr][0], attrOf[attr][1]
		it := newAgentInterp(c)
		it.maxPath = 200
		args := lazyArgs(it, f)
		st := newState()
		rs := c.run(it, f, args, nil, st, nil)
		isOpt := f.Signature.Recv() == nil
		if isOpt {
			var rs2 []Outcome
			for _, r := range rs {
				fv, ok := it.force(r.st, r.ret).(*FuncV)
				if r.panicked || !ok {
					continue
				}
				ag := it.force(r.st, it.lazy(types.NewPointer(c.P.typ(agentPkg, "Agent")), "a", true))
				r.st.regs = nil
				rs2 = append(rs2, c.exec(it, fname(f), nil, func() []Outcome {
					it.stack = nil
					return it.CallFunc(r.st, fv, []Value{ag}, f.Signature.Results().At(0).Type().Underlying().(*types.Signature), f.Pos())
				})...)
			}
			rs = rs2
		}
		var arg *Num
		for _, a := range args {
			if n, ok := it.force(st, a).(*Num); ok {
				arg = n
			}
		}
		for _, r := range rs {
			s := r.st
			if r.panicked {
				if attr != "ResourceManager" && !randomised {
					c.ob("no panic", fname(f), false, r.pos, "setting %s can panic", fld)
				}
				continue
			}
			loads := loadsOf(s)
			evs, inl := flat(s)
			var pubs []*PubEv
			for i, e := range evs {
				if e.kind != "publish" {
					continue
				}
				p := e.data.(*PubEv)
				for _, t := range []string{"StateData", "BehaviorData"} {
					if recordOf(p.v, agentPkg, t) == nil {
						continue
					}
					c.ob("isolated", fname(f)+": only "+fld, t == rec && !inl[i], e.pos, "setting %s publishes a %s record", fld, t)
					pubs = append(pubs, p)
				}
			}
			c.ob("exact", fname(f)+": takes effect", len(pubs) > 0, r.pos, "setting %s publishes nothing on some path", fld)
			for _, p := range pubs {
				nr := recordOf(p.v, agentPkg, rec)
				if nr == nil {
					continue
				}
				_, old, _ := it.basis(s, p, loads)
				if old == nil {
					// atomicity is judged elsewhere: compare with the snapshot the record derives from
					deps := map[int]bool{}
					origOf(p.v, deps)
					for id := range deps {
						if l := loads[id]; l != nil && l.cell.o == p.cell.o {
							old = it.loadedRecord(s, l.v)
						}
					}
				}
				for i, fn := range fieldNames(nr.typ) {
					if fn == fld {
						continue
					}
					c.ob("isolated", fname(f)+": "+fn+" kept", old != nil && it.sameField(s, nr, old, i), r.pos, "setting %s does not preserve %s", fld, fn)
				}
				n := it.numField(s, nr, fld)
				if n == nil || randomised || arg == nil {
					continue
				}
				var ok bool
				ia := best(s, arg)
				switch fld {
				case "Phase", "LocalGoal":
					ok = n.L.residue().key == arg.L.residue().key
				case "Energy":
					ok = sameLin(s, n.L, arg.L) && ia.lo >= 0 || ia.hi <= 0 && best(s, n).in(Iv{0, 0})
				case "Influence", "Stubbornness":
					ok = sameLin(s, n.L, arg.L) || ia.hi <= 0 && best(s, n).in(Iv{0, 0}) || ia.lo >= 1 && best(s, n).in(Iv{1, 1})
				default:
					ok = sameLin(s, n.L, arg.L)
				}
				c.ob("exact", fname(f)+": value", ok, r.pos, "%s set to %s for argument %s", fld, numStr(s, n), numStr(s, arg))
			}
		}
	}
	for _, f := range c.P.api(agentPkg) {
		n := f.Name()
		switch {
		case f.Signature.Recv() != nil && fieldIn(f.Signature.Recv().Type(), agentPkg, "Agent"):
			if a, ok := attrOf[strings.TrimPrefix(n, "Set")]; ok && strings.HasPrefix(n, "Set") {
				_ = a
				run(f, strings.TrimPrefix(n, "Set"), false)
			} else if a, ok := attrOf[n]; ok && f.Signature.Results().Len() == 1 {
				it := newAgentInterp(c)
				for _, r := range c.run(it, f, lazyArgs(it, f), nil, newState(), nil) {
					ok := false
					if v := it.numRet(r, 0); v != nil && !r.panicked {
						for _, l := range loadsOf(r.st) {
							if rec := it.loadedRecord(r.st, l.v); rec != nil && fieldIn(rec.typ, agentPkg, a[0]) {
								if x := it.numField(r.st, rec, a[1]); x != nil && x.L.key == v.L.key {
									ok = true
								}
							}
						}
					}
					c.ob("getter", fname(f), ok, r.pos, "does not return the agent's current %s", a[1])
				}
			}
		case f.Signature.Recv() == nil && strings.HasPrefix(n, "With") && f.Signature.Results().Len() == 1:
			sig, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Signature)
			if !ok || !isAgentOption(sig) {
				continue
			}
			a := strings.TrimPrefix(n, "With")
			if _, ok := attrOf[a]; ok {
				run(f, a, strings.HasPrefix(a, "Random") || a == "ResourceManager")
			}
		}
	}
}
