package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"runtime"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// joinCtx computes the join of two states; differing numbers become phi
// symbols named after the cell, so repeated joins at one loop head converge.
type joinCtx struct {
	it         *Interp
	a, b, out  *State
	tag        string
	memo       map[string]interface{}
	widen      bool
	loop       bool
	fresh      bool
	changed    bool
	narrowBase *State
	inSum      int           // joining summarised elements: no relations
	merged     map[*Obj]bool // contents already joined through a slice
	sumSyms    map[*Sym]bool // symbols standing for summarised elements
	phis       []phiRec
	depth      int
}

type phiRec struct {
	s      *Sym
	la, lb *Lin
}

func (j *joinCtx) chg() {
	j.changed = true
	if debugChg {
		_, _, line, _ := runtime.Caller(1)
		fmt.Fprintln(os.Stderr, "chg", j.tag, "join.go:", line)
	}
}

var debugChg = os.Getenv("VERIF_CHG") != ""

func newJoin(it *Interp, a, b *State, tag string) *joinCtx {
	return &joinCtx{it: it, a: a, b: b, tag: tag, memo: map[string]interface{}{}}
}

var widenThresholds = []float64{-1e100, -1e18, -1e9, -1e6, -10000, -1000, -100, -twoPi, -math.Pi, -1, -0.5, 0, 0.5, 1, 2, math.Pi, twoPi, 100, 1000, 10000, 1e6, 1e9, 1e18, 1e100}

func widenIv(old, nw Iv) Iv {
	r := nw
	if nw.lo < old.lo {
		r.lo = math.Inf(-1)
		for i := len(widenThresholds) - 1; i >= 0; i-- {
			if widenThresholds[i] <= nw.lo {
				r.lo = widenThresholds[i]
				break
			}
		}
	}
	if nw.hi > old.hi {
		r.hi = math.Inf(1)
		for _, t := range widenThresholds {
			if t >= nw.hi {
				r.hi = t
				break
			}
		}
	}
	return r
}

func (j *joinCtx) states() {
	a, b := j.a, j.b
	out := a.clone()
	out.conds = commonTaken(a.conds, b.conds)
	j.out = out
	// deeper frames are shared; only the top frame can differ
	for i := range out.regs {
		if i == len(out.regs)-1 {
			continue
		}
		if len(b.regs) > i && !sameMap(out.regs[i], b.regs[i]) {
			out.regs[i] = j.joinRegs(a.regs[i], b.regs[i], i)
		}
	}
	if n := len(out.regs); n > 0 {
		out.regs[n-1] = j.joinRegs(a.regs[n-1], b.regs[n-1], n-1)
	}
	// memory
	objs := make([]*Obj, 0, len(a.mem)+len(b.mem))
	for o := range a.mem {
		objs = append(objs, o)
	}
	for o := range b.mem {
		if _, ok := a.mem[o]; !ok {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(x, y int) bool { return objs[x].id < objs[y].id })
	for _, o := range objs {
		va, oka := a.mem[o]
		vb, okb := b.mem[o]
		if j.merged[o] {
			// the slice join covered what the slices referred to; add what the
			// object held on either side
			for side, v := range []Value{va, vb} {
				if v == nil {
					continue
				}
				sv := j.b
				if side == 1 {
					j.a = j.out
				} else {
					j.a, j.b = j.out, a
				}
				out.mem[o] = j.joinSum(out.mem[o], v, fmt.Sprintf("m%d", o.id))
				j.a, j.b = a, sv
			}
			continue
		}
		if !oka && o.lazy == nil {
			out.mem[o] = vb
			continue
		}
		if !okb && o.lazy == nil {
			continue
		}
		if !oka {
			va = o.lazy
		}
		if !okb {
			vb = o.lazy
		}
		out.mem[o] = j.join(va, vb, fmt.Sprintf("m%d", o.id))
	}
	// symbol bounds
	for s, ia := range a.bounds {
		if j.isPhi(s) {
			continue
		}
		ib := b.symIv(s)
		r := ia.join(ib)
		if ia.empty() || ib.empty() {
			r = s.base
		}
		if r == s.base {
			delete(out.bounds, s)
		} else {
			if r != ia && j.widen {
				r = widenIv(ia, r)
			}
			out.bounds[s] = r
		}
		if r != ia {
			j.chg()
		}
	}
	for s := range a.nonNaN {
		if !b.nonNaN[s] {
			delete(out.nonNaN, s)
			if s.nan {
				j.chg()
			}
		}
	}
	for s := range a.isNaN {
		if !b.isNaN[s] {
			delete(out.isNaN, s)
			j.chg()
		}
	}
	j.facts()
	if j.loop {
		for _, p := range j.phis {
			if p.s.isInt {
				continue
			}
			b := out.symIv(p.s)
			if math.IsInf(b.lo, 0) || math.IsInf(b.hi, 0) || b.hi > 1e99 || b.lo < -1e99 {
				if e := out.entail(linSym(p.s)); !b.meet(e).empty() {
					out.bounds[p.s] = b.meet(e)
				}
			}
		}
	}
	for k, m := range a.neq {
		mb := b.neq[k]
		r := map[float64]bool{}
		for v := range m {
			if mb[v] {
				r[v] = true
			}
		}
		if len(r) != len(m) {
			if len(r) == 0 {
				delete(out.neq, k)
			} else {
				out.neq[k] = r
			}
			j.chg()
		}
	}
	for k, v := range a.strEq {
		if w, ok := b.strEq[k]; !ok || w != v {
			delete(out.strEq, k)
			j.chg()
		}
	}
	for k, m := range a.strNeq {
		mb := b.strNeq[k]
		r := map[string]bool{}
		eq, hasEq := b.strEq[k]
		for v := range m {
			if mb[v] || (hasEq && eq != v) {
				r[v] = true
			}
		}
		if len(r) != len(m) {
			out.strNeq[k] = r
			j.chg()
		}
	}
	for k, v := range a.iters {
		if w, ok := b.iters[k]; !ok || w != v {
			out.iters[k] = -1
			if v != -1 {
				j.chg()
			}
		}
	}
	for k := range b.iters {
		if _, ok := a.iters[k]; !ok {
			out.iters[k] = -1
		}
	}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; !ok || w != v {
			delete(out.bools, k)
			j.chg()
		}
	}
	for k, v := range a.nilK {
		if w, ok := b.nilK[k]; !ok || w != v {
			delete(out.nilK, k)
			j.chg()
		}
	}
	for k, v := range a.ifDyn {
		if w, ok := b.ifDyn[k]; !ok || w != v {
			delete(out.ifDyn, k)
			j.chg()
		}
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			if b.locks[k] < v {
				out.locks[k] = b.locks[k]
			}
			if out.locks[k] == 0 {
				delete(out.locks, k)
			}
			out.event("lockmismatch", 0, k)
		}
	}
	for k := range b.locks {
		if a.locks[k] == 0 {
			out.event("lockmismatch", 0, k)
		}
	}
	// events
	if a.ev != b.ev {
		out.ev = j.joinEvents(a.ev, b.ev)
	}
	if len(a.defers) > 0 && len(b.defers) > 0 {
		n := len(a.defers) - 1
		if len(b.defers) > n && len(a.defers[n]) != len(b.defers[n]) {
			if len(b.defers[n]) > len(a.defers[n]) {
				out.defers[n] = append([]deferred(nil), b.defers[n]...)
			}
		}
	}
}

// joinEvents keeps the common prefix and summarises the rest in one marker
// holding every kind seen on either side.
func (j *joinCtx) joinEvents(x, y *Ev) *Ev {
	ex, ey := x, y
	for ex != nil && ey != nil && ex != ey {
		if ex.n > ey.n {
			ex = ex.prev
		} else if ey.n > ex.n {
			ey = ey.prev
		} else {
			ex, ey = ex.prev, ey.prev
		}
	}
	common := ex
	if ex == nil || ey == nil {
		common = nil
	}
	set := map[string]*Ev{}
	add := func(e *Ev) {
		for ; e != nil && e != common; e = e.prev {
			if e.kind == "loop" {
				for k, v := range e.data.(map[string]*Ev) {
					set[k] = v
				}
				continue
			}
			set[fmt.Sprintf("%s@%d", e.kind, e.pos)] = e
		}
	}
	add(x)
	add(y)
	// if a already ends in an equal marker, keep it (convergence)
	if x != nil && x.kind == "loop" && x.prev == common {
		old := x.data.(map[string]*Ev)
		same := len(old) == len(set)
		for k := range set {
			if _, ok := old[k]; !ok {
				same = false
			}
		}
		if same {
			return x
		}
	}
	if x != nil && x.kind == "loop" && common == x {
		// y extends x: fold y's tail into a new marker in x's place if it adds kinds
		old := x.data.(map[string]*Ev)
		add2 := false
		for k := range set {
			if _, ok := old[k]; !ok {
				add2 = true
			}
		}
		if !add2 {
			return x
		}
		m := map[string]*Ev{}
		for k, v := range old {
			m[k] = v
		}
		for k, v := range set {
			m[k] = v
		}
		j.chg()
		return &Ev{prev: x.prev, kind: "loop", pos: 0, data: m, n: x.n}
	}
	if len(set) == 0 {
		return x
	}
	j.chg()
	n := 1
	if common != nil {
		n = common.n + 1
	}
	return &Ev{prev: common, kind: "loop", data: set, n: n}
}

func sameMap(a, b map[ssa.Value]Value) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !sameVal(w, v) {
			return false
		}
	}
	return true
}

func (j *joinCtx) isPhi(s *Sym) bool {
	if j.sumSyms[s] {
		return true
	}
	for _, p := range j.phis {
		if p.s == s {
			return true
		}
	}
	return false
}

func (j *joinCtx) joinRegs(a, b map[ssa.Value]Value, lvl int) map[ssa.Value]Value {
	out := make(map[ssa.Value]Value, len(a))
	keys := make([]ssa.Value, 0, len(a))
	for k := range a {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(x, y int) bool {
		if keys[x].Name() != keys[y].Name() {
			return keys[x].Name() < keys[y].Name()
		}
		return keys[x].Pos() < keys[y].Pos()
	})
	for _, k := range keys {
		vb, ok := b[k]
		if !ok {
			continue
		}
		out[k] = j.join(a[k], vb, fmt.Sprintf("r%d.%s", lvl, k.Name()))
	}
	return out
}

func substLin(l *Lin, s *Sym, r *Lin) *Lin {
	for _, t := range l.t {
		if t.s == s {
			return linAdd(linAdd(l, linSym(s), -t.c), r, t.c)
		}
	}
	return l
}

func (j *joinCtx) subst(l *Lin, side int) *Lin {
	// simultaneous substitution
	m := map[*Sym]float64{}
	c := l.c
	for _, t := range l.t {
		var rep *Lin
		for _, p := range j.phis {
			if p.s == t.s {
				if side == 0 {
					rep = p.la
				} else {
					rep = p.lb
				}
			}
		}
		if rep == nil {
			m[t.s] += t.c
			continue
		}
		c += t.c * rep.c
		for _, rt := range rep.t {
			m[rt.s] += t.c * rt.c
		}
	}
	return linFrom(m, c)
}

func (j *joinCtx) facts() {
	a, b, out := j.a, j.b, j.out
	cand := map[string]*Lin{}
	for k, f := range a.facts {
		if k[0] != '=' {
			cand[k] = f.L
		}
	}
	for k, f := range b.facts {
		if k[0] != '=' && len(f.L.t) <= 3 {
			cand[k] = f.L
		}
	}
	for i, p := range j.phis {
		if len(p.la.t) > 0 && p.la.unit() != p.s && len(p.la.t) <= 2 {
			base, _, _ := linSub(linSym(p.s), p.la).norm()
			cand[base.key] = base
		}
		for k := 0; k < i; k++ {
			q := j.phis[k]
			if p.s.isInt == q.s.isInt && len(j.phis) < 8 {
				base, _, _ := linSub(linSym(p.s), linSym(q.s)).norm()
				cand[base.key] = base
			}
		}
	}
	if j.loop {
		// accumulators against counters: x grows by at most d per step of i
		for _, q := range j.phis {
			dq := linSub(q.lb, q.la)
			if !q.s.isInt || !dq.isConst() || dq.c == 0 {
				continue
			}
			for _, p := range j.phis {
				if p.s.isInt || p.s == q.s {
					continue
				}
				d := b.evalLin(linSub(p.lb, p.la))
				for _, e := range []float64{d.lo, d.hi} {
					if math.IsInf(e, 0) || math.Abs(e) > 1e6 {
						continue
					}
					base, _, _ := linAdd(linSym(p.s), linSym(q.s), -e/dq.c).norm()
					if len(base.t) == 2 {
						cand[base.key] = base
					}
				}
			}
		}
	}
	nf := map[string]LinFact{}
	// exact-form facts survive only if both sides have them and no phi is involved
	for k, f := range a.facts {
		if k[0] != '=' {
			continue
		}
		hasPhi := false
		for _, t := range f.L.t {
			if j.isPhi(t.s) {
				hasPhi = true
			}
		}
		if hasPhi {
			continue
		}
		if g, ok := b.facts[k]; ok {
			iv := f.iv.join(g.iv)
			if iv != f.iv && j.widen {
				continue
			}
			nf[k] = LinFact{f.L, iv}
		}
	}
next:
	for _, k := range keysSorted(cand) {
		L := cand[k]
		for _, t := range L.t {
			if j.sumSyms[t.s] {
				continue next
			}
		}
		ia, ib := a.entail(j.subst(L, 0)), b.entail(j.subst(L, 1))
		r := ia.join(ib)
		if old, ok := a.facts[k]; ok && j.loop {
			if r != old.iv && j.widen {
				w := r
				if r.lo < old.iv.lo {
					w.lo = math.Inf(-1)
				}
				if r.hi > old.iv.hi {
					w.hi = math.Inf(1)
				}
				r = w
			}
		}
		if r.lo == math.Inf(-1) && r.hi == math.Inf(1) {
			if _, ok := a.facts[k]; ok {
				j.chg()
			}
			continue
		}
		if len(nf) > 60 {
			continue
		}
		nf[k] = LinFact{L, r}
		if old, ok := a.facts[k]; !ok || old.iv != r {
			if ok && r.lo >= old.iv.lo && r.hi <= old.iv.hi {
				// tighter than before: not a change that needs iteration
			} else if ok {
				j.chg()
			}
		}
	}
	out.facts = nf
	j.joinDisks()
}

func (j *joinCtx) mk(key string, f func() interface{}) interface{} {
	k := j.tag + ":" + key
	if j.fresh {
		return f()
	}
	if v, ok := j.memo[k]; ok {
		return v
	}
	v := f()
	j.memo[k] = v
	return v
}

func sameVal(x, y Value) bool {
	if a, ok := x.(TupleV); ok {
		b, ok := y.(TupleV)
		return ok && len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
	}
	if _, ok := y.(TupleV); ok {
		return false
	}
	return x == y
}

func (j *joinCtx) join(x, y Value, key string) Value {
	if sameVal(x, y) {
		return x
	}
	j.depth++
	defer func() { j.depth-- }()
	if j.depth > 12 {
		return x
	}
	lx, okx := x.(*Lazy)
	ly, oky := y.(*Lazy)
	if okx && oky && lx == ly {
		return x
	}
	x, y = j.it.force(j.a, x), j.it.force(j.b, y)
	if sameVal(x, y) {
		return x
	}
	switch a := x.(type) {
	case *Num:
		b, ok := y.(*Num)
		if !ok {
			break
		}
		return j.joinNum(a, b, key)
	case *BoolV:
		b, ok := y.(*BoolV)
		if !ok {
			break
		}
		da, db := j.a.decide(a), j.b.decide(b)
		if da == db && da != 2 {
			return a
		}
		if a.k == 2 && b.k == 2 && a.cond != nil && b.cond != nil && a.cond == b.cond {
			return a
		}
		v := j.mk(key, func() interface{} {
			return &BoolV{k: 2, cond: &Cond{kind: "bool", sym: &BSym{j.it.id(), "phi." + key}}}
		}).(*BoolV)
		if v != a {
			j.chg()
		}
		return v
	case *StrV:
		b, ok := y.(*StrV)
		if !ok {
			break
		}
		if a.known && b.known && a.s == b.s {
			return a
		}
		if !a.known && !b.known && a.id == b.id {
			return a
		}
		v := j.mk(key, func() interface{} { return &StrV{id: j.it.id(), name: "phi." + key} }).(*StrV)
		if v != a {
			j.chg()
		}
		return v
	case *StructV:
		b, ok := y.(*StructV)
		if !ok || len(a.f) != len(b.f) {
			break
		}
		n := &StructV{typ: a.typ, f: make([]Value, len(a.f))}
		same := true
		for i := range a.f {
			n.f[i] = j.join(a.f[i], b.f[i], fmt.Sprintf("%s.%d", key, i))
			if n.f[i] != a.f[i] {
				same = false
			}
		}
		if same {
			return a
		}
		return n
	case *ArrV:
		if b, ok := y.(*ArrV); ok && len(a.e) == len(b.e) {
			n := &ArrV{typ: a.typ, e: make([]Value, len(a.e))}
			same := true
			for i := range a.e {
				n.e[i] = j.join(a.e[i], b.e[i], fmt.Sprintf("%s.%d", key, i))
				if n.e[i] != a.e[i] {
					same = false
				}
			}
			if same {
				return a
			}
			return n
		}
		return j.joinSum(x, y, key)
	case *SumV:
		return j.joinSum(x, y, key)
	case *PtrV:
		b, ok := y.(*PtrV)
		if !ok {
			break
		}
		return j.joinPtr(a, b, key)
	case *SliceV:
		b, ok := y.(*SliceV)
		if !ok {
			break
		}
		return j.joinSlice(a, b, key)
	case *MapV:
		b, ok := y.(*MapV)
		if !ok {
			break
		}
		if a.o == b.o {
			return a
		}
		o := j.mk(key+"#o", func() interface{} {
			return &Obj{id: j.it.id(), name: "phi." + key, typ: a.typ, summary: true, lazy: &MapC{typ: mapTyp(a.typ), unknown: true, name: "phi." + key, n: j.it.freshNum("len", Iv{0, 1 << 40}, false, true)}}
		}).(*Obj)
		v := j.mk(key, func() interface{} { return &MapV{o: o, nilp: 1, id: j.it.id(), typ: a.typ} }).(*MapV)
		if v != a {
			j.chg()
		}
		return v
	case *MapC:
		b, ok := y.(*MapC)
		if !ok {
			break
		}
		n := &MapC{typ: a.typ, entries: map[string][2]Value{}, unknown: a.unknown || b.unknown, name: a.name}
		same := a.unknown == n.unknown
		for _, k := range a.keys {
			ea := a.entries[k]
			if eb, ok := b.entries[k]; ok {
				nv := j.join(ea[1], eb[1], key+"["+k+"]")
				n.keys = append(n.keys, k)
				n.entries[k] = [2]Value{ea[0], nv}
				if nv != ea[1] {
					same = false
				}
			} else {
				n.addSum(j, ea[0], ea[1], key)
				same = false
			}
		}
		for _, k := range b.keys {
			if _, ok := a.entries[k]; !ok {
				eb := b.entries[k]
				n.addSum(j, eb[0], eb[1], key)
				same = false
			}
		}
		if a.sum != nil {
			n.addSum(j, a.sumKey, a.sum, key)
			if n.sum != a.sum {
				same = false
			}
		}
		if b.sum != nil {
			n.addSum(j, b.sumKey, b.sum, key)
			if n.sum != a.sum {
				same = false
			}
		}
		if a.n != nil && b.n != nil {
			n.n = j.joinNum(a.n, b.n, key+".len")
			if n.n != a.n {
				same = false
			}
		}
		if same {
			return a
		}
		j.chg()
		return n
	case *FuncV:
		b, ok := y.(*FuncV)
		if !ok {
			break
		}
		if a == b || a.host != nil && b.host != nil && a.id == b.id {
			return a
		}
		if a.nilp == b.nilp && len(a.alts) == len(b.alts) && a.unknown == b.unknown {
			same := true
			for i := range a.alts {
				if a.alts[i].fn != b.alts[i].fn || len(a.alts[i].binds) != len(b.alts[i].binds) {
					same = false
					break
				}
			}
			if same {
				n := &FuncV{alts: make([]FuncT, len(a.alts)), unknown: a.unknown, nilp: a.nilp, id: a.id, name: a.name}
				eq := true
				for i := range a.alts {
					n.alts[i] = FuncT{fn: a.alts[i].fn, binds: make([]Value, len(a.alts[i].binds))}
					for k := range a.alts[i].binds {
						n.alts[i].binds[k] = j.join(a.alts[i].binds[k], b.alts[i].binds[k], fmt.Sprintf("%s.b%d.%d", key, i, k))
						if n.alts[i].binds[k] != a.alts[i].binds[k] {
							eq = false
						}
					}
				}
				if eq {
					return a
				}
				return n
			}
		}
		n := &FuncV{unknown: a.unknown || b.unknown, name: a.name, nilp: a.nilp}
		if a.nilp != b.nilp {
			n.nilp, n.id = 1, j.it.id()
		}
		n.alts = append(n.alts, a.alts...)
		add := false
		for _, t := range b.alts {
			dup := false
			for _, s := range n.alts {
				if s.fn == t.fn {
					dup = true
				}
			}
			if !dup {
				n.alts = append(n.alts, t)
				add = true
			}
		}
		if add || n.unknown != a.unknown || n.nilp != a.nilp {
			j.chg()
			return n
		}
		return a
	case *IfaceV:
		b, ok := y.(*IfaceV)
		if !ok {
			break
		}
		return j.joinIface(a, b, key)
	case *OpaqueV:
		if b, ok := y.(*OpaqueV); ok {
			if a.id == b.id {
				return a
			}
			v := j.mk(key, func() interface{} { return &OpaqueV{typ: a.typ, id: j.it.id(), nilp: 1, name: "phi." + key} }).(*OpaqueV)
			if v != a {
				j.chg()
			}
			return v
		}
	case TupleV:
		if b, ok := y.(TupleV); ok && len(a) == len(b) {
			n := make(TupleV, len(a))
			for i := range a {
				n[i] = j.join(a[i], b[i], fmt.Sprintf("%s.%d", key, i))
			}
			return n
		}
	case nil:
		if y == nil {
			return nil
		}
	case *iterV:
		return a
	}
	if m, ok := y.(*MapC); ok && x != nil {
		// an untouched sync.Map against a touched one
		if _, isS := x.(*StructV); isS {
			j.chg()
			n := *m
			n.unknown = true
			return &n
		}
	}
	if m, ok := x.(*MapC); ok {
		if _, isS := y.(*StructV); isS {
			if m.unknown {
				return m
			}
			j.chg()
			n := *m
			n.unknown = true
			return &n
		}
	}
	j.chg()
	return &OpaqueV{id: j.it.id(), nilp: 1, name: "mixed"}
}

func mapTyp(t types.Type) *types.Map { m, _ := t.Underlying().(*types.Map); return m }

func (m *MapC) addSum(j *joinCtx, k, v Value, key string) {
	if m.sum == nil {
		m.sum, m.sumKey = v, k
		return
	}
	m.sum = j.join(m.sum, v, key+".sum")
	m.sumKey = j.join(m.sumKey, k, key+".sumk")
}

func (j *joinCtx) joinNum(a, b *Num, key string) *Num {
	ia, ib := j.a.iv(a), j.b.iv(b)
	if a.L.key == b.L.key {
		iv := a.iv.join(b.iv)
		if iv == a.iv {
			return a
		}
		return &Num{a.L, iv}
	}
	isInt := isIntLin(a.L) && isIntLin(b.L)
	s := j.mk(key+"#n", func() interface{} {
		ns := j.it.sy.fresh("phi."+key, ivTop, false, isInt)
		ra, rb := a.L.residue(), b.L.residue()
		if ra.key == rb.key && !isInt {
			ns.cong = ra
		}
		return ns
	}).(*Sym)
	if !isInt {
		s.isInt = false
	}
	if s.cong != nil {
		if b.L.residue().key != s.cong.residue().key || (a.L.unit() != s && a.L.residue().key != s.cong.residue().key) {
			s.cong = nil
			j.chg()
		}
	}
	nan := j.a.mayNaN(a.L) || j.b.mayNaN(b.L)
	if nan && !s.nan {
		s.nan = true
		j.chg()
	}
	s.addDeps(a.L, b.L)
	if s.deps != nil {
		delete(s.deps, s)
	}
	if j.loop && !isInt && a.L.unit() == s && !ib.in(ia) {
		if e := ib.meet(j.b.entail(b.L)); !e.empty() {
			ib = e
		}
	}
	nw := ia.join(ib)
	if j.inSum > 0 && !j.fresh {
		if j.sumSyms == nil {
			j.sumSyms = map[*Sym]bool{}
		}
		if j.sumSyms[s] && j.out != nil {
			// joined from several places: keep what was already covered
			nw = nw.join(j.out.symIv(s))
			ia = ia.join(j.out.symIv(s))
		}
		j.sumSyms[s] = true
	}
	if a.L.unit() == s {
		old := ia
		if nw != old {
			if j.widen {
				nw = widenIv(old, nw)
			}
			j.chg()
		}
	} else {
		j.chg()
	}
	if j.out != nil {
		j.out.bounds[s] = nw
		delete(j.out.nonNaN, s)
	}
	if !j.fresh && j.inSum == 0 {
		j.phis = append(j.phis, phiRec{s, a.L, b.L})
	}
	return &Num{linSym(s), ivTop}
}

func (j *joinCtx) elems(v Value, st *State) (Value, types.Type, bool) {
	switch x := v.(type) {
	case *ArrV:
		if len(x.e) == 0 {
			return nil, nil, true
		}
		return j.it.joinMany(st, x.e), x.typ, true
	case *SumV:
		return x.v, x.elem, false
	}
	return nil, nil, false
}

// joinSum joins summarised contents; cached elements survive only when both sides agree.
func (j *joinCtx) joinSum(x, y Value, key string) Value {
	r := j.joinSum0(x, y, key)
	s, ok := r.(*SumV)
	if !ok {
		return r
	}
	sx, okx := x.(*SumV)
	sy, oky := y.(*SumV)
	keep := map[string]Value{}
	if okx && oky {
		for k, v := range sx.cache {
			if w, ok := sy.cache[k]; ok && v == w {
				keep[k] = v
			}
		}
	}
	if len(keep) == len(s.cache) {
		return s
	}
	n := *s
	n.cache = keep
	return &n
}

func (j *joinCtx) joinSum0(x, y Value, key string) Value {
	ex, tx, knownX := j.elems(x, j.a)
	ey, ty, knownY := j.elems(y, j.b)
	elem := tx
	if a, ok := x.(*ArrV); ok {
		elem = elemOf(a.typ)
	}
	if elem == nil {
		if b, ok := y.(*ArrV); ok {
			elem = elemOf(b.typ)
		} else {
			elem = ty
		}
	}
	// unknown contents absorb
	if sx, ok := x.(*SumV); ok && sx.v == nil && !knownX {
		return x
	}
	if sy, ok := y.(*SumV); ok && sy.v == nil && !knownY {
		j.chg()
		return &SumV{elem: sy.elem, name: sy.name}
	}
	if ex == nil && ey == nil {
		return x
	}
	if ex == nil {
		j.chg()
		return &SumV{elem: elem, v: ey, name: key}
	}
	if ey == nil {
		if s, ok := x.(*SumV); ok {
			return s
		}
		j.chg()
		return &SumV{elem: elem, v: ex, name: key}
	}
	j.inSum++
	nv := j.join(ex, ey, key+".e")
	j.inSum--
	if s, ok := x.(*SumV); ok && nv == s.v {
		return s
	}
	return &SumV{elem: elem, v: nv, name: key}
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return nil
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (j *joinCtx) nilOf(st *State, n, id int) int {
	if n == 1 && id != 0 {
		if k, ok := st.nilK[id]; ok {
			return k
		}
	}
	return n
}

func (j *joinCtx) joinPtr(a, b *PtrV, key string) Value {
	na, nb := j.nilOf(j.a, a.nilp, a.id), j.nilOf(j.b, b.nilp, b.id)
	n := &PtrV{typ: a.typ, any: a.any || b.any, nilp: na, id: a.id}
	n.ts = append(n.ts, a.ts...)
	add := n.any != a.any
	for _, t := range b.ts {
		dup := false
		for _, s := range n.ts {
			if s.o == t.o && samePath(s.path, t.path) {
				dup = true
			}
		}
		if !dup {
			n.ts = append(n.ts, t)
			add = true
		}
	}
	allInput := len(n.ts) > 1
	for _, t := range n.ts {
		if !t.o.input || t.o.global != nil || len(t.path) > 0 {
			allInput = false
		}
	}
	if allInput || n.any || len(n.ts) > 8 {
		if a.any && na == nb {
			return a
		}
		n.ts = nil
		n.any = true
		add = true
	}
	if na != nb {
		n.nilp = 1
		n.id = j.mk(key+"#nil", func() interface{} { return j.it.id() }).(int)
		if a.nilp != 1 || a.id != n.id {
			add = true
		}
	}
	if !add {
		return a
	}
	if n.any {
		v := j.mk(key+"#any", func() interface{} { return n }).(*PtrV)
		if v != a {
			j.chg()
		}
		return v
	}
	j.chg()
	return n
}

func (j *joinCtx) joinSlice(a, b *SliceV, key string) Value {
	if a.o == b.o && a.lo == b.lo {
		n := j.joinNum(a.n, b.n, key+".len")
		if n == a.n && a.nilp == b.nilp {
			return a
		}
		r := *a
		r.n = n
		r.cp = n
		if a.nilp != b.nilp {
			r.nilp, r.id = 1, j.mk(key+"#nil", func() interface{} { return j.it.id() }).(int)
		}
		return &r
	}
	o := j.mk(key+"#so", func() interface{} {
		return &Obj{id: j.it.id(), name: "phi." + key, typ: a.typ, summary: true}
	}).(*Obj)
	var ca, cb Value
	if a.o != nil {
		ca = j.it.content(j.a, a.o)
	}
	if b.o != nil {
		cb = j.it.content(j.b, b.o)
	}
	var c Value
	switch {
	case ca == nil && cb == nil:
		c = &SumV{elem: elemOf(a.typ), name: key}
	case ca == nil:
		c = j.toSum(cb, j.b, elemOf(a.typ))
		if s, ok := c.(*SumV); ok && s.v != nil {
			n := *s
			n.v = j.importB(s.v, fmt.Sprintf("m%d.e", o.id))
			n.cache = nil
			c = &n
		}
	case cb == nil:
		c = j.toSum(ca, j.a, elemOf(a.typ))
	default:
		c = j.joinSum(j.toSum(ca, j.a, elemOf(a.typ)), cb, fmt.Sprintf("m%d", o.id))
	}
	if j.out != nil {
		j.out.mem[o] = c
		if j.merged == nil {
			j.merged = map[*Obj]bool{}
		}
		j.merged[o] = true
	}
	n := j.joinNum(a.n, b.n, key+".len")
	np, id := 1, 0
	if a.nilp == 0 && b.nilp == 0 {
		np = 0
	} else {
		id = j.mk(key+"#nil", func() interface{} { return j.it.id() }).(int)
	}
	if a.o == o && a.n == n && a.nilp == np {
		return a
	}
	if a.o != o {
		j.chg()
	}
	return &SliceV{o: o, n: n, cp: n, nilp: np, id: id, typ: a.typ}
}

// importB gives a summarised value known only on the second side symbols of
// its own, so that what that side knows about it is kept.
func (j *joinCtx) importB(v Value, key string) Value {
	if j.out == nil || j.fresh {
		return v
	}
	switch x := v.(type) {
	case *Num:
		if x.L.isConst() {
			return x
		}
		s := j.mk(key+"#n", func() interface{} {
			return j.it.sy.fresh("phi."+key, ivTop, false, isIntLin(x.L))
		}).(*Sym)
		if x.L.unit() == s {
			j.out.bounds[s] = j.b.symIv(s)
		} else {
			j.out.bounds[s] = j.b.iv(x)
			s.addDeps(x.L)
			if j.b.mayNaN(x.L) {
				s.nan = true
			}
			s.cong = nil
			if !isIntLin(x.L) {
				s.isInt = false
			}
		}
		delete(j.out.nonNaN, s)
		if j.sumSyms == nil {
			j.sumSyms = map[*Sym]bool{}
		}
		j.sumSyms[s] = true
		return &Num{linSym(s), ivTop}
	case *StructV:
		n := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = x.f[i]
			if l, ok := n.f[i].(*Lazy); ok && l.memo != nil {
				n.f[i] = l.memo
			}
			n.f[i] = j.importB(n.f[i], fmt.Sprintf("%s.%d", key, i))
		}
		return n
	}
	return v
}

func (j *joinCtx) toSum(v Value, st *State, elem types.Type) Value {
	switch x := v.(type) {
	case *ArrV:
		if len(x.e) == 0 {
			return &ArrV{typ: x.typ}
		}
		return &SumV{elem: elem, v: j.it.joinMany(st, x.e)}
	case *SumV:
		return x
	}
	return &SumV{elem: elem}
}

func sameIfT(a, b IfT) bool {
	if ea, ok := a.v.(*ErrV); ok {
		eb, ok := b.v.(*ErrV)
		if !ok {
			return false
		}
		return ea == eb || (ea.pos == eb.pos && ea.global == eb.global && ea.pos != 0)
	}
	if a.typ == nil || b.typ == nil || !types.Identical(a.typ, b.typ) {
		return false
	}
	return true
}

func (j *joinCtx) joinIface(a, b *IfaceV, key string) Value {
	na, nb := j.nilOf(j.a, a.nilp, a.id), j.nilOf(j.b, b.nilp, b.id)
	if a.unknown && b.unknown && a.id == b.id {
		return a
	}
	n := &IfaceV{typ: a.typ, unknown: a.unknown || b.unknown, nilp: na, id: a.id, name: a.name}
	change := n.unknown != a.unknown
	if na != nb {
		n.nilp = 1
		change = change || a.nilp != 1
	}
	n.alts = append(n.alts, a.alts...)
	for _, t := range b.alts {
		dup := -1
		for i, s := range n.alts {
			if sameIfT(s, t) {
				dup = i
			}
		}
		if dup < 0 {
			n.alts = append(n.alts, t)
			change = true
			continue
		}
		if _, ok := t.v.(*ErrV); ok {
			continue
		}
		nv := j.join(n.alts[dup].v, t.v, fmt.Sprintf("%s.if%d", key, dup))
		if nv != n.alts[dup].v {
			n.alts = append([]IfT(nil), n.alts...)
			n.alts[dup].v = nv
			change = true
		}
	}
	if a.unknown && b.unknown && a.id != b.id {
		change = true
	}
	if !change {
		return a
	}
	n.id = j.mk(key+"#if", func() interface{} { return j.it.id() }).(int)
	if n.id == a.id && n.nilp == a.nilp && len(n.alts) == len(a.alts) && n.unknown == a.unknown {
		return a
	}
	j.chg()
	return n
}
