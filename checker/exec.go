package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iterV struct {
	m   *MapV
	str bool
	id  int
}

func (it *Interp) exec(fn *ssa.Function, ins ssa.Instruction, st *State) []Outcome {
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := it.allocAt(st, x, x.Type().(*types.Pointer).Elem(), x.Comment)
		st.mem[o] = it.zero(o.typ)
		return one(st, x, &PtrV{ts: []PtrT{{o, nil}}, typ: o.typ})
	case *ssa.BinOp:
		return it.binop(st, x)
	case *ssa.UnOp:
		return it.unop(st, x)
	case *ssa.Call:
		rs := it.call(st, x.Common(), x)
		for i := range rs {
			if !rs[i].panicked {
				rs[i].st.top()[x] = rs[i].ret
			}
		}
		return rs
	case *ssa.Go:
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, it.val(st, a))
		}
		var f Value
		if x.Call.IsInvoke() {
			f = it.val(st, x.Call.Value)
		} else {
			f = it.val(st, x.Call.Value)
		}
		st.event("go", x.Pos(), []Value{f, TupleV(args)})
		return []Outcome{{st: st}}
	case *ssa.Defer:
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, it.val(st, a))
		}
		f := it.val(st, x.Call.Value)
		n := len(st.defers) - 1
		st.defers[n] = append(st.defers[n], deferred{x, f, args})
		return []Outcome{{st: st}}
	case *ssa.RunDefers:
		return it.runDefers(st)
	case *ssa.ChangeInterface:
		v := it.val(st, x.X)
		return one(st, x, v)
	case *ssa.ChangeType:
		v := it.val(st, x.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{typ: x.Type(), f: s.f}
		}
		return one(st, x, v)
	case *ssa.Convert:
		return one(st, x, it.convert(st, it.val(st, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MultiConvert:
		return one(st, x, it.convert(st, it.val(st, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MakeInterface:
		return one(st, x, &IfaceV{alts: []IfT{{x.X.Type(), it.val(st, x.X)}}, nilp: 0, typ: x.Type()})
	case *ssa.MakeClosure:
		f := FuncT{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, it.val(st, b))
		}
		return one(st, x, &FuncV{alts: []FuncT{f}, name: f.fn.String()})
	case *ssa.MakeMap:
		o := it.allocAt(st, x, x.Type(), "map")
		st.mem[o] = &MapC{typ: mapTyp(x.Type()), entries: map[string][2]Value{}, name: "map", n: it.constNum(0)}
		return one(st, x, &MapV{o: o, typ: x.Type()})
	case *ssa.MakeSlice:
		n, _ := it.val(st, x.Len).(*Num)
		elem := x.Type().Underlying().(*types.Slice).Elem()
		o := it.allocAt(st, x, x.Type(), "makeslice")
		if iv := st.iv(n); iv.lo < 0 {
			st.event("makeneg", x.Pos(), nil)
		}
		if n.L.isConst() && n.L.c <= float64(it.maxElems) {
			a := &ArrV{typ: x.Type(), e: make([]Value, int(n.L.c))}
			for i := range a.e {
				a.e[i] = it.zero(elem)
			}
			st.mem[o] = a
		} else {
			st.mem[o] = &SumV{elem: elem, v: it.zero(elem), name: "make"}
		}
		cpv, _ := it.val(st, x.Cap).(*Num)
		return one(st, x, &SliceV{o: o, n: n, cp: cpv, typ: x.Type()})
	case *ssa.MakeChan:
		return one(st, x, &OpaqueV{typ: x.Type(), id: it.id(), name: "chan"})
	case *ssa.FieldAddr:
		p, ok := it.val(st, x.X).(*PtrV)
		if !ok {
			return one(st, x, it.unknownPtr(x.Type()))
		}
		if !it.checkNil(st, p, x.Pos()) {
			return []Outcome{{st: st, panicked: true, pos: x.Pos()}}
		}
		ts := it.targets(st, p)
		n := &PtrV{typ: x.Type().(*types.Pointer).Elem()}
		for _, t := range ts {
			n.ts = append(n.ts, PtrT{t.o, append(append([]int(nil), t.path...), x.Field)})
		}
		return one(st, x, n)
	case *ssa.Field:
		v := it.val(st, x.X)
		if s, ok := v.(*StructV); ok {
			return one(st, x, it.force(st, s.f[x.Field]))
		}
		return one(st, x, it.force(st, it.lazy(x.Type(), "field", false)))
	case *ssa.IndexAddr:
		return it.indexAddr(st, x)
	case *ssa.Index:
		v := it.val(st, x.X)
		if a, ok := v.(*ArrV); ok {
			i, _ := it.val(st, x.Index).(*Num)
			if i != nil && i.L.isConst() && int(i.L.c) < len(a.e) {
				return one(st, x, it.force(st, a.e[int(i.L.c)]))
			}
			if len(a.e) > 0 {
				return one(st, x, it.joinMany(st, a.e))
			}
		}
		return one(st, x, it.force(st, it.lazy(x.Type(), "idx", false)))
	case *ssa.Lookup:
		return it.lookup(st, x)
	case *ssa.Slice:
		return it.slice(st, x)
	case *ssa.Select:
		return it.sel(st, x)
	case *ssa.Range:
		v := it.val(st, x.X)
		if m, ok := v.(*MapV); ok {
			id := it.id()
			if it.mapOrder > 0 {
				st.iters[id] = 0
			}
			return one(st, x, &iterV{m: m, id: id})
		}
		return one(st, x, &iterV{str: true, id: it.id()})
	case *ssa.Next:
		return it.next(st, x)
	case *ssa.TypeAssert:
		return it.typeAssert(st, x)
	case *ssa.Extract:
		v := it.val(st, x.Tuple)
		if t, ok := v.(TupleV); ok && x.Index < len(t) {
			return one(st, x, it.force(st, t[x.Index]))
		}
		return one(st, x, it.force(st, it.lazy(x.Type(), "ext", false)))
	case *ssa.Store:
		p, ok := it.val(st, x.Addr).(*PtrV)
		v := it.val(st, x.Val)
		if !ok {
			return []Outcome{{st: st}}
		}
		var out []Outcome
		for _, s := range it.storeEv(st, p, v, x.Pos()) {
			out = append(out, Outcome{st: s})
		}
		if out == nil {
			out = append(out, Outcome{st: st, panicked: true, pos: x.Pos()})
		}
		return out
	case *ssa.MapUpdate:
		m, _ := it.val(st, x.Map).(*MapV)
		if m == nil || m.o == nil {
			st.event("nilmapwrite", x.Pos(), nil)
			return []Outcome{{st: st}}
		}
		c, _ := it.content(st, m.o).(*MapC)
		if c == nil {
			return []Outcome{{st: st}}
		}
		k, v := it.val(st, x.Key), it.val(st, x.Value)
		n := &MapC{typ: c.typ, entries: map[string][2]Value{}, unknown: c.unknown, name: c.name, sum: c.sum, sumKey: c.sumKey}
		n.keys = append(n.keys, c.keys...)
		for kk, vv := range c.entries {
			n.entries[kk] = vv
		}
		if ks := constKey(st, k); ks != "" && !m.o.summary {
			if _, ok := n.entries[ks]; !ok {
				n.keys = append(n.keys, ks)
				if c.n != nil && !c.unknown && c.sum == nil {
					n.n = &Num{linAdd(c.n.L, linConst(1), 1), ivTop}
				}
			} else {
				n.n = c.n
			}
			n.entries[ks] = [2]Value{k, v}
		} else {
			jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
			n.addSum(jc, k, v, fmt.Sprintf("mu%d", it.id()))
		}
		if n.n == nil {
			n.n = it.freshNum("len", Iv{0, 1 << 40}, false, true)
		}
		st.mem[m.o] = n
		st.event("mapupdate", x.Pos(), m)
		return []Outcome{{st: st}}
	case *ssa.Send:
		st.event("send", x.Pos(), it.val(st, x.Chan))
		st.event("sent", x.Pos(), []Value{it.val(st, x.Chan), it.val(st, x.X)})
		return []Outcome{{st: st}}
	case *ssa.DebugRef:
		return []Outcome{{st: st}}
	case *ssa.SliceToArrayPointer:
		return one(st, x, it.unknownPtr(x.Type()))
	}
	it.undec = append(it.undec, fmt.Sprintf("instruction %T", ins))
	if v, ok := ins.(ssa.Value); ok {
		return one(st, v, it.force(st, it.lazy(v.Type(), "unk", false)))
	}
	return []Outcome{{st: st}}
}

func (it *Interp) storeEv(st *State, p *PtrV, v Value, pos token.Pos) []*State {
	r := it.store(st, p, v, pos)
	for _, s := range r {
		for _, t := range p.ts {
			if t.o.input || it.allStores || it.everPub[t.o] {
				s.event("store", pos, &StoreEv{t, v})
			}
		}
	}
	return r
}

type StoreEv struct {
	t PtrT
	v Value
}

func (it *Interp) unknownPtr(t types.Type) Value {
	return &PtrV{any: true, typ: t.Underlying().(*types.Pointer).Elem()}
}

func constKey(st *State, k Value) string {
	switch x := k.(type) {
	case *StrV:
		if x.known {
			return "s:" + x.s
		}
		if v, ok := st.strEq[x.id]; ok {
			return "s:" + v
		}
	case *Num:
		if x.L.isConst() {
			return fmt.Sprint("n:", x.L.c)
		}
		iv := st.iv(x)
		if iv.isConst() {
			return fmt.Sprint("n:", iv.lo)
		}
	case *BoolV:
		if x.k != 2 {
			return fmt.Sprint("b:", x.k)
		}
	}
	return ""
}

// allocAt returns the most recent object of an allocation site; an older one
// still referenced is folded into the site's summary object first.
func (it *Interp) allocAt(st *State, ins ssa.Instruction, typ types.Type, comment string) *Obj {
	k := fmt.Sprintf("alloc:%s|%p", strings.Join(it.stack, ">"), ins)
	var o *Obj
	if it.freshAlloc && it.fixDepth == 0 {
		// exact mode: the first instance of the site that is not in use
		for i := 0; ; i++ {
			ki := fmt.Sprintf("%s@%d", k, i)
			v, ok := it.memo[ki]
			if !ok {
				name := comment
				if name == "" {
					name = "obj"
				}
				o = &Obj{id: it.id(), name: name, typ: typ, site: ins}
				it.memo[ki] = o
				return o
			}
			o = v.(*Obj)
			if _, used := st.mem[o]; !used {
				return o
			}
		}
	}
	if v, ok := it.memo[k]; ok {
		o = v.(*Obj)
	} else {
		name := comment
		if name == "" {
			name = "obj"
		}
		o = &Obj{id: it.id(), name: name, typ: typ, site: ins}
		it.memo[k] = o
	}
	if old, ok := st.mem[o]; ok && it.referenced(st, o) {
		var s *Obj
		if v, ok := it.memo[k+"#sum"]; ok {
			s = v.(*Obj)
		} else {
			s = &Obj{id: it.id(), name: o.name + "*", typ: typ, summary: true, site: ins}
			it.memo[k+"#sum"] = s
		}
		if cur, ok := st.mem[s]; ok {
			jc := &joinCtx{it: it, a: st, b: st, out: st, tag: "sum" + fmt.Sprint(s.id), memo: it.memo}
			nv := jc.join(cur, old, "c")
			st.mem[s] = nv
		} else {
			st.mem[s] = old
		}
		it.rename(st, o, s)
		delete(st.mem, o)
	}
	return o
}

func refs(v Value, o *Obj, d int) bool {
	if d > 12 {
		return true
	}
	switch x := v.(type) {
	case *PtrV:
		for _, t := range x.ts {
			if t.o == o {
				return true
			}
		}
	case *StructV:
		for _, f := range x.f {
			if refs(f, o, d+1) {
				return true
			}
		}
	case *ArrV:
		for _, f := range x.e {
			if refs(f, o, d+1) {
				return true
			}
		}
	case *SumV:
		return x.v != nil && refs(x.v, o, d+1)
	case *SliceV:
		return x.o == o
	case *MapV:
		return x.o == o
	case *MapC:
		for _, e := range x.entries {
			if refs(e[1], o, d+1) || refs(e[0], o, d+1) {
				return true
			}
		}
		return x.sum != nil && (refs(x.sum, o, d+1) || refs(x.sumKey, o, d+1))
	case *FuncV:
		for _, a := range x.alts {
			for _, b := range a.binds {
				if refs(b, o, d+1) {
					return true
				}
			}
		}
	case *IfaceV:
		for _, a := range x.alts {
			if refs(a.v, o, d+1) {
				return true
			}
		}
	case *ErrV:
		for _, w := range x.wraps {
			if refs(w, o, d+1) {
				return true
			}
		}
	case TupleV:
		for _, e := range x {
			if refs(e, o, d+1) {
				return true
			}
		}
	}
	return false
}

func (it *Interp) referenced(st *State, o *Obj) bool {
	for ob, v := range st.mem {
		if ob != o && refs(v, o, 0) {
			return true
		}
	}
	for i, r := range st.regs {
		for k, v := range r {
			// the register of the allocation itself is about to be overwritten
			if i == len(st.regs)-1 {
				if ki, ok := k.(ssa.Instruction); ok && ki == o.site {
					continue
				}
				if k.Parent() != nil && o.site != nil && k.Parent() == o.site.Parent() && derivedFrom(k, o.site) {
					continue
				}
			}
			if refs(v, o, 0) {
				return true
			}
		}
	}
	return false
}

// derivedFrom: address computations on the allocation that will be re-executed with it.
func derivedFrom(k ssa.Value, site ssa.Instruction) bool {
	for i := 0; i < 6; i++ {
		switch x := k.(type) {
		case *ssa.FieldAddr:
			k = x.X
		case *ssa.IndexAddr:
			k = x.X
		case *ssa.Slice:
			k = x.X
		case *ssa.MakeInterface:
			k = x.X
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				if bi, ok := b.(ssa.Instruction); ok && bi == site {
					return true
				}
			}
			return false
		default:
			ki, ok := k.(ssa.Instruction)
			return ok && ki == site
		}
		if ki, ok := k.(ssa.Instruction); ok && ki == site {
			return true
		}
	}
	return false
}

func renameV(v Value, o, s *Obj) Value {
	if !refs(v, o, 0) {
		return v
	}
	switch x := v.(type) {
	case *PtrV:
		n := *x
		n.ts = nil
		seen := map[string]bool{}
		for _, t := range x.ts {
			if t.o == o {
				t = PtrT{s, t.path}
			}
			k := cellKey(t)
			if !seen[k] {
				n.ts = append(n.ts, t)
				seen[k] = true
			}
		}
		return &n
	case *StructV:
		n := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = renameV(x.f[i], o, s)
		}
		return n
	case *ArrV:
		n := &ArrV{typ: x.typ, e: make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = renameV(x.e[i], o, s)
		}
		return n
	case *SumV:
		n := *x
		n.v = renameV(x.v, o, s)
		n.cache = nil
		return &n
	case *SliceV:
		n := *x
		n.o = s
		return &n
	case *MapV:
		n := *x
		n.o = s
		return &n
	case *MapC:
		n := *x
		n.entries = map[string][2]Value{}
		for k, e := range x.entries {
			n.entries[k] = [2]Value{renameV(e[0], o, s), renameV(e[1], o, s)}
		}
		if x.sum != nil {
			n.sum, n.sumKey = renameV(x.sum, o, s), renameV(x.sumKey, o, s)
		}
		return &n
	case *FuncV:
		n := *x
		n.alts = nil
		for _, a := range x.alts {
			b := FuncT{fn: a.fn}
			for _, y := range a.binds {
				b.binds = append(b.binds, renameV(y, o, s))
			}
			n.alts = append(n.alts, b)
		}
		return &n
	case *IfaceV:
		n := *x
		n.alts = nil
		for _, a := range x.alts {
			n.alts = append(n.alts, IfT{a.typ, renameV(a.v, o, s)})
		}
		return &n
	case TupleV:
		n := make(TupleV, len(x))
		for i := range x {
			n[i] = renameV(x[i], o, s)
		}
		return n
	}
	return v
}

func (it *Interp) rename(st *State, o, s *Obj) {
	for ob, v := range st.mem {
		st.mem[ob] = renameV(v, o, s)
	}
	for i, r := range st.regs {
		var n map[ssa.Value]Value
		for k, v := range r {
			w := renameV(v, o, s)
			if _, tuple := v.(TupleV); tuple || w != v {
				if n == nil {
					n = cp(r)
				}
				n[k] = w
			}
		}
		if n != nil {
			st.regs[i] = n
		}
	}
}

func (it *Interp) runDefers(st *State) []Outcome {
	n := len(st.defers) - 1
	ds := st.defers[n]
	st.defers[n] = nil
	cur := []Outcome{{st: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []Outcome
		for _, o := range cur {
			if o.panicked {
				next = append(next, o)
				continue
			}
			for _, r := range it.invoke(o.st, d.ins.Common(), d.fn, d.args, d.ins) {
				r.ret = nil
				next = append(next, r)
			}
		}
		cur = next
	}
	return cur
}

// ---- calls ----

func (it *Interp) call(st *State, c *ssa.CallCommon, ins ssa.CallInstruction) []Outcome {
	var args []Value
	for _, a := range c.Args {
		args = append(args, it.val(st, a))
	}
	return it.invoke(st, c, it.val(st, c.Value), args, ins)
}

func (it *Interp) invoke(st *State, c *ssa.CallCommon, fv Value, args []Value, ins ssa.CallInstruction) []Outcome {
	pos := c.Pos()
	if c.IsInvoke() {
		return it.invokeIface(st, fv, c.Method, args, pos, ins)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(st, b, c, args, pos)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		return defaultExternal(&callCtx{it: it, st: st, name: "?", args: args, sig: c.Signature(), pos: pos, ins: ins})
	}
	return it.CallFunc(st, f, args, c.Signature(), pos)
}

// CallFunc calls an abstract function value.
func (it *Interp) CallFunc(st *State, f *FuncV, args []Value, sig *types.Signature, pos token.Pos) []Outcome {
	if !it.checkNil(st, f, pos) {
		return []Outcome{{st: st, panicked: true, pos: pos}}
	}
	if f.host != nil {
		return f.host(&callCtx{it: it, st: st, name: f.name, args: args, sig: sig, pos: pos})
	}
	if it.skipDyn != nil && it.skipDyn(st, f, args, sig) {
		return []Outcome{{st: st, ret: resultOf(&callCtx{it: it, st: st, sig: sig}, "dyn")}}
	}
	if f.unknown && len(f.alts) == 0 || len(f.alts) == 0 {
		if m, ok := it.models["unknown"]; ok {
			return m(&callCtx{it: it, st: st, name: "unknown:" + f.name, recv: f, args: args, sig: sig, pos: pos})
		}
		st.event("callunknown", pos, f.name)
		return defaultExternal(&callCtx{it: it, st: st, name: "unknown:" + f.name, args: args, sig: sig, pos: pos})
	}
	var out []Outcome
	for i, a := range f.alts {
		s := st
		if i < len(f.alts)-1 || f.unknown {
			s = st.clone()
		}
		out = append(out, it.Call(a.fn, args, a.binds, s, pos)...)
	}
	if f.unknown {
		st.event("callunknown", pos, f.name)
		out = append(out, defaultExternal(&callCtx{it: it, st: st, name: "unknown:" + f.name, args: args, sig: sig, pos: pos})...)
	}
	return out
}

func (it *Interp) invokeIface(st *State, recv Value, m *types.Func, args []Value, pos token.Pos, ins ssa.CallInstruction) []Outcome {
	sig := m.Type().(*types.Signature)
	ifv, ok := recv.(*IfaceV)
	if !ok {
		return defaultExternal(&callCtx{it: it, st: st, name: "iface:" + m.FullName(), recv: recv, args: args, sig: sig, pos: pos})
	}
	if !it.checkNil(st, ifv, pos) {
		return []Outcome{{st: st, panicked: true, pos: pos}}
	}
	var out []Outcome
	for i, a := range ifv.alts {
		s := st
		if i < len(ifv.alts)-1 || ifv.unknown {
			s = st.clone()
		}
		if _, isErr := a.v.(*ErrV); isErr || a.typ == nil {
			out = append(out, defaultExternal(&callCtx{it: it, st: s, name: "iface:" + m.FullName(), recv: ifv, args: args, sig: sig, pos: pos})...)
			continue
		}
		fn := it.prog.LookupMethod(a.typ, m.Pkg(), m.Name())
		if fn == nil {
			out = append(out, defaultExternal(&callCtx{it: it, st: s, name: "iface:" + m.FullName(), recv: ifv, args: args, sig: sig, pos: pos})...)
			continue
		}
		out = append(out, it.Call(fn, append([]Value{a.v}, args...), nil, s, pos)...)
	}
	if ifv.unknown || len(ifv.alts) == 0 {
		c := &callCtx{it: it, st: st, name: "iface:" + m.FullName(), recv: ifv, args: args, sig: sig, pos: pos, ins: ins}
		if md, ok := it.models[c.name]; ok {
			out = append(out, md(c)...)
		} else if it.iface != nil {
			if r := it.iface(c); r != nil {
				return append(out, r...)
			}
			out = append(out, defaultExternal(c)...)
		} else {
			out = append(out, defaultExternal(c)...)
		}
	}
	return out
}

func resultOf(c *callCtx, name string) Value {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return c.it.force(c.st, c.it.lazy(r.At(0).Type(), name, false))
	}
	t := make(TupleV, r.Len())
	for i := range t {
		t[i] = c.it.force(c.st, c.it.lazy(r.At(i).Type(), name, false))
	}
	return t
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// defaultExternal: unknown result; memory reachable through pointer arguments
// to locally allocated objects may have been changed.
func defaultExternal(c *callCtx) []Outcome {
	c.st.event("extern", c.pos, c.name)
	for _, a := range c.args {
		if p, ok := a.(*PtrV); ok {
			for _, t := range p.ts {
				if !t.o.input && !isPureExternal(c.name) {
					ty := typeAt(t.o.typ, t.path)
					c.st.mem[t.o] = c.it.setPath(c.st, c.it.content(c.st, t.o), t.path, c.it.lazy(ty, "havoc", false), false)
				}
			}
		}
	}
	return []Outcome{{st: c.st, ret: resultOf(c, shortName(c.name))}}
}

func isPureExternal(n string) bool {
	for _, p := range []string{"fmt.", "(time.", "time.", "runtime.", "unicode", "math.", "os.", "unsafe.", "strings.", "strconv.", "errors.", "(*strings.Builder)", "(*time.", "(*sync.", "(*sync/atomic", "sync/atomic", "log.", "sort.", "context.", "(context."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (it *Interp) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	ret := func(v Value) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			return ret(x.n)
		case *StrV:
			if x.known {
				return ret(it.constNum(float64(len(x.s))))
			}
			return ret(it.consNum(st, fmt.Sprintf("strlen(%d)", x.id), "len("+x.name+")", Iv{0, 1 << 40}, true))
		case *MapV:
			if x.o == nil {
				return ret(it.constNum(0))
			}
			if mc, ok := it.content(st, x.o).(*MapC); ok && mc.n != nil {
				return ret(mc.n)
			}
		case *ArrV:
			return ret(it.constNum(float64(len(x.e))))
		case *PtrV:
			if a, ok := x.typ.Underlying().(*types.Array); ok {
				return ret(it.constNum(float64(a.Len())))
			}
		}
		return ret(it.freshNum("len", Iv{0, 1 << 40}, false, true))
	case "min", "max":
		cur := []Outcome{{st: st, ret: args[0]}}
		for _, a := range args[1:] {
			var next []Outcome
			for _, o := range cur {
				if x, ok := o.ret.(*Num); ok {
					next = append(next, it.minmax(o.st, x, a.(*Num), b.Name() == "max")...)
				} else {
					next = append(next, Outcome{st: o.st, ret: it.force(o.st, it.lazy(c.Signature().Results().At(0).Type(), "minmax", false))})
				}
			}
			cur = next
		}
		return cur
	case "append":
		return ret(it.appendV(st, args, c, pos))
	case "copy":
		if d, ok := args[0].(*SliceV); ok && d.o != nil {
			if s, ok := args[1].(*SliceV); ok && s.o != nil {
				dc, sc := it.content(st, d.o), it.content(st, s.o)
				da, okd := dc.(*ArrV)
				sa, oks := sc.(*ArrV)
				din, sin := st.iv(d.n), st.iv(s.n)
				if okd && oks && din.isConst() && sin.isConst() && !d.o.summary && d.lo >= 0 && s.lo >= 0 &&
					d.lo+int(din.lo) <= len(da.e) && s.lo+int(math.Min(din.lo, sin.lo)) <= len(sa.e) {
					n := &ArrV{typ: da.typ, e: append([]Value(nil), da.e...)}
					for i := 0; i < int(din.lo) && i < int(sin.lo); i++ {
						n.e[d.lo+i] = sa.e[s.lo+i]
					}
					st.mem[d.o] = n
				} else {
					jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
					st.mem[d.o] = jc.joinSum(jc.toSum(dc, st, elemOf(d.typ)), jc.toSum(sc, st, elemOf(s.typ)), fmt.Sprintf("cp%d", it.id()))
					// copying a full-length source into a slice of the same length keeps only source elements
					if d.n.L.key == s.n.L.key && d.lo == 0 && s.lo == 0 {
						st.mem[d.o] = jc.toSum(sc, st, elemOf(s.typ))
					}
				}
				if d.o.input {
					st.event("store", pos, &StoreEv{PtrT{d.o, []int{-1}}, nil})
				}
			}
			if s, ok := args[1].(*SliceV); ok {
				mm := it.minmax(st, d.n, s.n, false)
				for i := range mm {
					mm[i].ret = mm[i].ret
				}
				return mm
			}
		}
		return ret(it.freshNum("copied", Iv{0, 1 << 40}, false, true))
	case "delete":
		if m, ok := args[0].(*MapV); ok && m.o != nil {
			if mc, ok := it.content(st, m.o).(*MapC); ok {
				n := &MapC{typ: mc.typ, entries: map[string][2]Value{}, unknown: mc.unknown, name: mc.name, sum: mc.sum, sumKey: mc.sumKey, n: it.freshNum("len", Iv{0, 1 << 40}, false, true)}
				ks := constKey(st, args[1])
				for _, k := range mc.keys {
					if k != ks || m.o.summary {
						n.keys = append(n.keys, k)
						n.entries[k] = mc.entries[k]
					}
				}
				st.mem[m.o] = n
			}
			st.event("mapdelete", pos, m)
		}
		return ret(nil)
	case "close":
		st.event("close", pos, args[0])
		return ret(nil)
	case "panic":
		st.event("panic", pos, nil)
		return []Outcome{{st: st, panicked: true, pos: pos}}
	case "print", "println":
		return ret(nil)
	case "clear":
		switch a := args[0].(type) {
		case *MapV:
			if a.o == nil || a.o.summary {
				break
			}
			if mc, ok := it.content(st, a.o).(*MapC); ok {
				st.mem[a.o] = &MapC{typ: mc.typ, entries: map[string][2]Value{}, name: mc.name, n: it.constNum(0)}
				st.event("mapdelete", pos, a)
			}
		case *SliceV:
			if a.o != nil {
				if arr, ok := it.content(st, a.o).(*ArrV); ok && !a.o.summary && best(st, a.n).isConst() && a.lo+int(best(st, a.n).lo) <= len(arr.e) {
					n := &ArrV{typ: arr.typ, e: append([]Value(nil), arr.e...)}
					for i := 0; i < int(best(st, a.n).lo); i++ {
						n.e[a.lo+i] = it.zero(elemOf(a.typ))
					}
					st.mem[a.o] = n
				} else {
					jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
					zero := &SumV{elem: elemOf(a.typ), v: it.zero(elemOf(a.typ)), name: "zero"}
					st.mem[a.o] = jc.joinSum(jc.toSum(it.content(st, a.o), st, elemOf(a.typ)), zero, fmt.Sprintf("cl%d", it.id()))
				}
				if a.o.input {
					st.event("store", pos, &StoreEv{PtrT{a.o, []int{-1}}, nil})
				}
			}
		}
		return ret(nil)
	case "recover":
		return ret(&IfaceV{nilp: 2})
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	if c.Signature().Results().Len() > 0 {
		return ret(it.force(st, it.lazy(c.Signature().Results().At(0).Type(), b.Name(), false)))
	}
	return ret(nil)
}

func (it *Interp) appendV(st *State, args []Value, c *ssa.CallCommon, pos token.Pos) Value {
	a, ok := args[0].(*SliceV)
	if !ok {
		return it.force(st, it.lazy(c.Args[0].Type(), "append", false))
	}
	if len(args) == 1 {
		return a
	}
	b, ok := args[1].(*SliceV)
	if !ok {
		return it.force(st, it.lazy(c.Args[0].Type(), "append", false))
	}
	if b.o == nil {
		return a
	}
	var ce, be []Value
	known := true
	get := func(s *SliceV) []Value {
		if s.o == nil {
			return nil
		}
		if s.n.L.isConst() && s.n.L.c == 0 {
			return nil
		}
		arr, ok := it.content(st, s.o).(*ArrV)
		if !ok || !s.n.L.isConst() || s.lo+int(s.n.L.c) > len(arr.e) {
			known = false
			return nil
		}
		return arr.e[s.lo : s.lo+int(s.n.L.c)]
	}
	ce, be = get(a), get(b)
	elem := elemOf(c.Args[0].Type())
	k := fmt.Sprintf("append:%s|%d", strings.Join(it.stack, ">"), pos)
	_ = k
	o := &Obj{id: it.id(), name: "append", typ: c.Args[0].Type()}
	if known && len(ce)+len(be) <= it.maxElems {
		arr := &ArrV{typ: c.Args[0].Type()}
		arr.e = append(append(arr.e, ce...), be...)
		st.mem[o] = arr
		n := it.constNum(float64(len(arr.e)))
		return &SliceV{o: o, n: n, cp: n, typ: a.typ}
	}
	jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
	var ca Value = &ArrV{typ: a.typ}
	if a.o != nil {
		ca = it.content(st, a.o)
	}
	cb := it.content(st, b.o)
	st.mem[o] = jc.joinSum(jc.toSum(ca, st, elem), jc.toSum(cb, st, elem), fmt.Sprintf("ap%d", it.id()))
	n := it.addNum(st, a.n, b.n, 1)
	np := 0
	if st.iv(n).lo <= 0 {
		np = 1
	}
	return &SliceV{o: o, n: n, cp: n, nilp: np, id: it.id(), typ: a.typ}
}

// ---- memory-shaped instructions ----

type IndexEv struct {
	idx, n *Num
}

func (it *Interp) boundsCheck(st *State, i, n *Num, pos token.Pos) bool {
	lo := st.entail(i.L).meet(st.iv(i))
	d := st.entail(linSub(i.L, n.L))
	if lo.lo < 0 || d.hi > -1 {
		st.event("mayoob", pos, &IndexEv{i, n})
		if lo.hi < 0 || d.lo >= 0 {
			return false
		}
		st.assume(i.L, Iv{0, math.Inf(1)})
		st.assume(linSub(i.L, n.L), Iv{math.Inf(-1), -1})
	}
	return true
}

func (it *Interp) indexAddr(st *State, x *ssa.IndexAddr) []Outcome {
	base := it.val(st, x.X)
	i, _ := it.val(st, x.Index).(*Num)
	et := x.Type().(*types.Pointer).Elem()
	switch b := base.(type) {
	case *SliceV:
		if b.o == nil || i == nil {
			st.event("mayoob", x.Pos(), nil)
			return []Outcome{{st: st, panicked: true, pos: x.Pos()}}
		}
		if !it.boundsCheck(st, i, b.n, x.Pos()) {
			return []Outcome{{st: st, panicked: true, pos: x.Pos()}}
		}
		idx := -1
		iv := st.iv(i)
		if iv.isConst() {
			idx = int(iv.lo) + b.lo
		}
		if _, isArr := it.content(st, b.o).(*ArrV); !isArr {
			// summarised contents: index identity through the cache key
			idx = -1
			if _, ok := it.content(st, b.o).(*SumV); ok {
				ck := fmt.Sprintf("%d+%s", b.lo, i.L.key)
				return one(st, x, &PtrV{ts: []PtrT{{it.elemCell(b.o, ck, et), nil}}, typ: et})
			}
		}
		if hi := iv.hi - iv.lo; it.disjLoops && idx < 0 && hi >= 0 && hi <= 8 {
			// one path per element
			var out []Outcome
			for k := math.Ceil(iv.lo); k <= iv.hi; k++ {
				s := st.clone()
				if s.assume(linAdd(i.L, linConst(k), -1), Iv{0, 0}) {
					out = append(out, one(s, x, &PtrV{ts: []PtrT{{b.o, []int{int(k) + b.lo}}}, typ: et})...)
				}
			}
			return out
		}
		return one(st, x, &PtrV{ts: []PtrT{{b.o, []int{idx}}}, typ: et})
	case *PtrV: // pointer to array
		var ts []PtrT
		idx := -1
		if a, ok := b.typ.Underlying().(*types.Array); ok && i != nil {
			if !it.boundsCheck(st, i, it.constNum(float64(a.Len())), x.Pos()) {
				return []Outcome{{st: st, panicked: true, pos: x.Pos()}}
			}
		}
		if i != nil {
			if iv := st.iv(i); iv.isConst() {
				idx = int(iv.lo)
			}
		}
		for _, t := range it.targets(st, b) {
			ts = append(ts, PtrT{t.o, append(append([]int(nil), t.path...), idx)})
		}
		return one(st, x, &PtrV{ts: ts, typ: et})
	}
	return one(st, x, it.unknownPtr(x.Type()))
}

// elemCell: the cell of one element of a summarised slice.
func (it *Interp) elemCell(o *Obj, ck string, et types.Type) *Obj {
	k := fmt.Sprintf("cell:%d:%s", o.id, ck)
	if v, ok := it.memo[k]; ok {
		return v.(*Obj)
	}
	c := &Obj{id: it.id(), name: o.name + "[i]", typ: et, input: o.input, elemOf: o, elemKey: ck, orig: o.orig}
	it.memo[k] = c
	return c
}

func (it *Interp) lookup(st *State, x *ssa.Lookup) []Outcome {
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		i, _ := it.val(st, x.Index).(*Num)
		if s, ok := it.val(st, x.X).(*StrV); ok && s.known && i != nil && i.L.isConst() && int(i.L.c) < len(s.s) {
			return one(st, x, it.constNum(float64(s.s[int(i.L.c)])))
		}
		return one(st, x, it.freshNum("byte", Iv{0, 255}, false, true))
	}
	m, _ := it.val(st, x.X).(*MapV)
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	mk := func(s *State, v Value, ok int) Outcome {
		if x.CommaOk {
			s.top()[x] = TupleV{v, &BoolV{k: ok}}
		} else {
			s.top()[x] = v
		}
		return Outcome{st: s}
	}
	if m == nil || m.o == nil {
		return []Outcome{mk(st, it.zero(vt), 0)}
	}
	c, _ := it.content(st, m.o).(*MapC)
	if c == nil {
		return []Outcome{mk(st.clone(), it.force(st, it.lazy(vt, "mv", true)), 1), mk(st, it.zero(vt), 0)}
	}
	key := it.val(st, x.Index)
	ks := constKey(st, key)
	if ks != "" {
		if e, ok := c.entries[ks]; ok {
			return []Outcome{mk(st, it.force(st, e[1]), 1)}
		}
		if c.sum == nil && !c.unknown {
			return []Outcome{mk(st, it.zero(vt), 0)}
		}
	}
	var out []Outcome
	if ks == "" {
		for _, k := range c.keys {
			s := st.clone()
			// refine the key where possible
			if !it.assumeKey(s, key, k) {
				continue
			}
			out = append(out, mk(s, it.force(s, c.entries[k][1]), 1))
		}
	}
	if c.sum != nil {
		s := st.clone()
		out = append(out, mk(s, it.instantiate(s, it.force(s, c.sum)), 1))
	}
	if c.unknown {
		s := st.clone()
		v := it.force(s, &Lazy{typ: vt, name: c.name + "[k]", input: true})
		out = append(out, mk(s, v, 1))
	}
	miss := true
	if ks == "" && c.sum == nil && !c.unknown {
		for _, k := range c.keys {
			if !it.assumeKeyNot(st, key, k) {
				miss = false
				break
			}
		}
	}
	if miss {
		out = append(out, mk(st, it.zero(vt), 0))
	}
	return out
}

func (it *Interp) assumeKey(s *State, key Value, k string) bool {
	switch x := key.(type) {
	case *StrV:
		if strings.HasPrefix(k, "s:") {
			return s.assumeBool(&BoolV{k: 2, cond: &Cond{kind: "str", sv: x, sc: k[2:]}}, true)
		}
	case *Num:
		var f float64
		if _, err := fmt.Sscanf(k, "n:%g", &f); err == nil {
			return s.assume(linAdd(x.L, linConst(f), -1), Iv{0, 0})
		}
	}
	return true
}

func (it *Interp) assumeKeyNot(s *State, key Value, k string) bool {
	switch x := key.(type) {
	case *StrV:
		if strings.HasPrefix(k, "s:") {
			return s.assumeBool(&BoolV{k: 2, cond: &Cond{kind: "str", sv: x, sc: k[2:]}}, false)
		}
	case *Num:
		var f float64
		if _, err := fmt.Sscanf(k, "n:%g", &f); err == nil {
			return s.assumeBool(&BoolV{k: 2, cond: &Cond{kind: "eq", L: linAdd(x.L, linConst(f), -1)}}, false)
		}
	}
	return true
}

func (it *Interp) slice(st *State, x *ssa.Slice) []Outcome {
	base := it.val(st, x.X)
	num := func(v ssa.Value) *Num {
		if v == nil {
			return nil
		}
		n, _ := it.val(st, v).(*Num)
		return n
	}
	lo, hi := num(x.Low), num(x.High)
	switch b := base.(type) {
	case *StrV:
		if b.known && (lo == nil || lo.L.isConst()) && (hi == nil || hi.L.isConst()) {
			l, h := 0, len(b.s)
			if lo != nil {
				l = int(lo.L.c)
			}
			if hi != nil {
				h = int(hi.L.c)
			}
			if l >= 0 && h <= len(b.s) && l <= h {
				return one(st, x, &StrV{known: true, s: b.s[l:h]})
			}
		}
		return one(st, x, &StrV{id: it.id(), name: "substr"})
	case *PtrV: // array
		ts := it.targets(st, b)
		arr, ok := b.typ.Underlying().(*types.Array)
		if !ok || len(ts) != 1 {
			return one(st, x, it.force(st, it.lazy(x.Type(), "slice", false)))
		}
		l := 0
		n := it.constNum(float64(arr.Len()))
		if hi != nil {
			n = hi
		}
		if lo != nil {
			if !lo.L.isConst() {
				return one(st, x, it.force(st, it.lazy(x.Type(), "slice", false)))
			}
			l = int(lo.L.c)
			n = it.addNum(st, n, lo, -1)
		}
		if len(ts[0].path) == 0 {
			return one(st, x, &SliceV{o: ts[0].o, lo: l, n: n, cp: n, typ: x.Type()})
		}
		// array embedded in a struct: copy view
		o := &Obj{id: it.id(), name: "arrview", typ: x.Type()}
		st.mem[o] = it.getPath(st, it.content(st, ts[0].o), ts[0].path)
		return one(st, x, &SliceV{o: o, lo: l, n: n, cp: n, typ: x.Type()})
	case *SliceV:
		l := it.constNum(0)
		if lo != nil {
			l = lo
		}
		h := b.n
		if hi != nil {
			h = hi
		}
		// obligations 0 <= lo <= hi <= cap
		if st.iv(l).lo < 0 && st.entail(l.L).lo < 0 {
			st.event("mayoob", x.Pos(), &IndexEv{l, h})
			st.assume(l.L, Iv{0, math.Inf(1)})
		}
		if st.entail(linSub(h.L, l.L)).lo < 0 {
			st.event("mayoob", x.Pos(), &IndexEv{l, h})
			st.assume(linSub(h.L, l.L), Iv{0, math.Inf(1)})
		}
		if hi != nil && b.cp != nil && st.entail(linSub(h.L, b.cp.L)).hi > 0 && st.entail(linSub(h.L, b.n.L)).hi > 0 {
			st.event("mayoob", x.Pos(), &IndexEv{h, b.cp})
		}
		n := it.addNum(st, h, l, -1)
		liv := st.iv(l)
		if b.o == nil {
			return one(st, x, b)
		}
		if liv.isConst() {
			return one(st, x, &SliceV{o: b.o, lo: b.lo + int(liv.lo), n: n, cp: n, nilp: b.nilp, id: b.id, typ: b.typ})
		}
		// unknown offset: degrade contents to a summary view (aliasing kept through a new object)
		o := &Obj{id: it.id(), name: "subslice", typ: x.Type(), summary: true, input: b.o.input}
		jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
		st.mem[o] = jc.toSum(it.content(st, b.o), st, elemOf(b.typ))
		return one(st, x, &SliceV{o: o, n: n, cp: n, nilp: b.nilp, id: b.id, typ: b.typ})
	}
	return one(st, x, it.force(st, it.lazy(x.Type(), "slice", false)))
}

type SelectEv struct {
	ins   *ssa.Select
	idx   int
	chans []Value
	sends []Value
}

func (it *Interp) sel(st *State, x *ssa.Select) []Outcome {
	var out []Outcome
	var chans, sends []Value
	for _, c := range x.States {
		chans = append(chans, it.val(st, c.Chan))
		var v Value
		if c.Send != nil {
			v = it.val(st, c.Send)
		}
		sends = append(sends, v)
	}
	mk := func(s *State, idx int) {
		t := TupleV{it.constNum(float64(idx)), &BoolV{k: 2, cond: &Cond{kind: "bool", sym: &BSym{it.id(), "recvok"}}}}
		for i, c := range x.States {
			if c.Dir == types.RecvOnly {
				v := it.lazy(c.Chan.Type().Underlying().(*types.Chan).Elem(), fmt.Sprintf("recv%d", i), false)
				if it.onRecv != nil && i == idx {
					if r := it.onRecv(s, x, i); r != nil {
						v = r
					}
				}
				t = append(t, v)
			}
		}
		s.top()[x] = t
		s.event("select", x.Pos(), &SelectEv{x, idx, chans, sends})
		out = append(out, Outcome{st: s})
	}
	pick := func(int) bool { return true }
	if it.onSelect != nil {
		pick = it.onSelect(st, x, chans)
	}
	for i := range x.States {
		if pick(i) {
			mk(st.clone(), i)
		}
	}
	if !x.Blocking && pick(-1) {
		mk(st.clone(), -1)
	}
	return out
}

func (it *Interp) next(st *State, x *ssa.Next) []Outcome {
	iter, _ := it.val(st, x.Iter).(*iterV)
	tt := x.Type().(*types.Tuple)
	end := func(s *State) Outcome {
		s.top()[x] = TupleV{&BoolV{k: 0}, it.zeroOrNil(tt.At(1).Type()), it.zeroOrNil(tt.At(2).Type())}
		return Outcome{st: s}
	}
	if x.IsString || iter == nil || iter.m == nil {
		s := st.clone()
		s.top()[x] = TupleV{&BoolV{k: 1}, it.freshNum("ri", Iv{0, 1 << 40}, false, true), it.freshNum("rune", Iv{0, 0x10ffff}, false, true)}
		return []Outcome{{st: s}, end(st)}
	}
	if iter.m.o == nil {
		return []Outcome{end(st)}
	}
	c, _ := it.content(st, iter.m.o).(*MapC)
	if c == nil {
		c = &MapC{typ: mapTyp(iter.m.typ), unknown: true, name: "m"}
	}
	if pos, ok := st.iters[iter.id]; ok && pos >= 0 && c.sum == nil && !c.unknown {
		if pos >= len(c.keys) {
			return []Outcome{end(st)}
		}
		k := c.keys[pos]
		if it.mapOrder == 2 {
			k = c.keys[len(c.keys)-1-pos]
		}
		e := c.entries[k]
		st.iters[iter.id] = pos + 1
		st.top()[x] = TupleV{&BoolV{k: 1}, e[0], it.force(st, e[1])}
		return []Outcome{{st: st}}
	}
	var out []Outcome
	add := func(k, v Value) {
		s := st.clone()
		s.top()[x] = TupleV{&BoolV{k: 1}, k, v}
		out = append(out, Outcome{st: s})
	}
	for _, k := range c.keys {
		e := c.entries[k]
		add(e[0], it.force(st, e[1]))
	}
	if c.sum != nil {
		add(it.instantiate(st, c.sumKey), it.instantiate(st, c.sum))
	}
	if c.unknown {
		mt := c.typ
		add(it.force(st, it.lazy(mt.Key(), c.name+".k", true)), it.force(st, &Lazy{typ: mt.Elem(), name: c.name + "[·]", input: true}))
	}
	out = append(out, end(st))
	return out
}

func (it *Interp) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return it.zero(t)
}

func (it *Interp) typeAssert(st *State, x *ssa.TypeAssert) []Outcome {
	v, _ := it.val(st, x.X).(*IfaceV)
	ret := func(s *State, val Value, ok int) Outcome {
		if x.CommaOk {
			s.top()[x] = TupleV{val, &BoolV{k: ok}}
			return Outcome{st: s}
		}
		if ok == 0 {
			s.event("typepanic", x.Pos(), nil)
			return Outcome{st: s, panicked: true, pos: x.Pos()}
		}
		s.top()[x] = val
		return Outcome{st: s}
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if v == nil {
		s := st.clone()
		return []Outcome{ret(s, it.force(s, it.lazy(x.AssertedType, "ta", true)), 1), ret(st, it.zero(x.AssertedType), 0)}
	}
	np := v.nilp
	if np == 1 && v.id != 0 {
		if k, ok := st.nilK[v.id]; ok {
			np = k
		}
	}
	var out []Outcome
	if np != 0 {
		s := st.clone()
		if np == 1 && v.id != 0 {
			s.nilK[v.id] = 2
		}
		out = append(out, ret(s, it.zero(x.AssertedType), 0))
		if np == 2 {
			return out
		}
		if v.id != 0 {
			st.nilK[v.id] = 0
		}
	}
	for _, a := range v.alts {
		match := false
		if a.typ != nil {
			if toIface {
				match = types.Implements(a.typ, x.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(a.typ, x.AssertedType)
			}
		} else if toIface {
			match = types.Identical(x.AssertedType, types.Universe.Lookup("error").Type())
		}
		s := st.clone()
		if match {
			if toIface {
				out = append(out, ret(s, &IfaceV{alts: []IfT{a}, typ: x.AssertedType}, 1))
			} else {
				out = append(out, ret(s, a.v, 1))
			}
		} else {
			out = append(out, ret(s, it.zero(x.AssertedType), 0))
		}
	}
	if v.unknown || len(v.alts) == 0 {
		s := st.clone()
		if dt, ok := st.ifDyn[v.id]; ok && v.id != 0 && !toIface {
			if types.Identical(dt, x.AssertedType) {
				k := fmt.Sprintf("ifval:%d:%s", v.id, dt.String())
				val, ok := it.memo[k]
				if !ok {
					val = it.force(s, &Lazy{typ: x.AssertedType, name: v.name + ".(T)", input: true})
					it.memo[k] = val
				}
				return append(out, ret(s, val, 1))
			}
			return append(out, ret(s, it.zero(x.AssertedType), 0))
		}
		var val Value
		if toIface {
			val = &IfaceV{unknown: true, nilp: 0, id: it.id(), name: v.name, typ: x.AssertedType}
		} else {
			k := fmt.Sprintf("ifval:%d:%s", v.id, x.AssertedType.String())
			m, ok := it.memo[k]
			if !ok || v.id == 0 {
				m = it.force(s, &Lazy{typ: x.AssertedType, name: v.name + ".(T)", input: true})
				it.memo[k] = m
			}
			val = m
			if v.id != 0 {
				s.ifDyn[v.id] = x.AssertedType
			}
		}
		out = append(out, ret(s, val, 1))
		out = append(out, ret(st.clone(), it.zero(x.AssertedType), 0))
	}
	return out
}

// ---- numbers ----

func (it *Interp) consNum(st *State, key, name string, iv Iv, isInt bool, deps ...*Lin) *Num {
	s := it.sy.consed(key, func() *Sym {
		n := it.sy.fresh(name, ivTop, false, isInt)
		n.addDeps(deps...)
		n.args = deps
		return n
	})
	st.setBound(s, iv)
	return &Num{linSym(s), iv}
}

func (it *Interp) withNaN(st *State, n *Num, nan bool, deps ...*Lin) *Num {
	if !nan {
		return n
	}
	f := it.freshNum("nan?", n.iv, true, false)
	f.L.t[0].s.addDeps(deps...)
	for _, d := range deps {
		if st.mustNaN(d) {
			st.isNaN[f.L.t[0].s] = true
		}
	}
	return f
}

func (it *Interp) addNum(st *State, a, b *Num, k float64) *Num {
	ia, ib := st.iv(a), st.iv(b)
	if k < 0 {
		ib = ivNeg(ib)
	}
	iv, nan := ivAdd(ia, ib)
	isInt := isIntLin(a.L) && isIntLin(b.L)
	n := &Num{linAdd(a.L, b.L, k), iv}
	if n.L.isConst() && !a.L.isConst() {
		n.iv = Iv{n.L.c, n.L.c}
		if st.mayNaN(a.L) || st.mayNaN(b.L) || !ia.finite() {
			r := it.withNaN(st, &Num{n.L, Iv{n.L.c, n.L.c}}, !isInt, a.L, b.L)
			if !isInt && ia.lo == ia.hi && !ia.finite() {
				st.isNaN[r.L.t[0].s] = true // infinity less infinity
			}
			return r
		}
		return n
	}
	if isInt {
		return n
	}
	return it.withNaN(st, n, nan, a.L, b.L)
}

func sortedPair(a, b *Lin) (*Lin, *Lin) {
	if a.key <= b.key {
		return a, b
	}
	return b, a
}

func (it *Interp) mulNum(st *State, a, b *Num) *Num {
	ia, ib := st.iv(a), st.iv(b)
	isInt := isIntLin(a.L) && isIntLin(b.L)
	iv, nan := ivMul(ia, ib)
	if isInt {
		nan = false
	}
	if a.L.isConst() {
		return it.withNaN(st, &Num{linScale(b.L, a.L.c), iv}, nan, b.L)
	}
	if b.L.isConst() {
		return it.withNaN(st, &Num{linScale(a.L, b.L.c), iv}, nan, a.L)
	}
	if ia.isConst() && !st.mayNaN(a.L) {
		return it.withNaN(st, &Num{linScale(b.L, ia.lo), iv}, nan, b.L)
	}
	if ib.isConst() && !st.mayNaN(b.L) {
		return it.withNaN(st, &Num{linScale(a.L, ib.lo), iv}, nan, a.L)
	}
	if a.L.key == b.L.key && iv.lo < 0 {
		iv.lo = 0
	}
	// factor out scalar multiples so that (k*x)*y and k*(x*y) share a symbol
	ka, kb := 1.0, 1.0
	la, lb := a.L, b.L
	if len(la.t) == 1 && la.c == 0 {
		ka = la.t[0].c
		la = linSym(la.t[0].s)
	}
	if len(lb.t) == 1 && lb.c == 0 {
		kb = lb.t[0].c
		lb = linSym(lb.t[0].s)
	}
	p, q := sortedPair(la, lb)
	k := ka * kb
	base := iv
	if k != 1 {
		base = Iv{iv.lo / k, iv.hi / k}
		if k < 0 {
			base = Iv{iv.hi / k, iv.lo / k}
		}
	}
	nn := st.mayNaN(a.L) || st.mayNaN(b.L) || nan
	key := "mul(" + p.key + "," + q.key + ")"
	if nn {
		key += "?"
	}
	n := it.consNum(st, key, "("+p.String()+")*("+q.String()+")", base, isInt, p, q)
	n.L.t[0].s.kind = "mul"
	if nn {
		n.L.t[0].s.nan = true
	}
	// a factor in [0,1] shrinks the other one
	shrink := func(x *Lin, xi, yi Iv) {
		if yi.lo >= 0 && yi.hi <= 1 {
			d := linSub(n.L, x)
			if xi.lo >= 0 {
				st.assume(d, Iv{math.Inf(-1), 0})
			} else if xi.hi <= 0 {
				st.assume(d, Iv{0, math.Inf(1)})
			}
		}
	}
	if !nn {
		shrink(la, st.entail(la), st.entail(lb))
		shrink(lb, st.entail(lb), st.entail(la))
	}
	if k == 1 {
		return &Num{n.L, iv}
	}
	return &Num{linScale(n.L, k), iv}
}

func (it *Interp) divNum(st *State, a, b *Num, pos token.Pos) *Num {
	ia, ib := st.iv(a), st.iv(b)
	iv, nan := ivDiv(ia, ib)
	if ib.has(0) {
		st.event("fdivzero", pos, b)
	}
	if a.L.isConst() && b.L.isConst() && b.L.c != 0 {
		return it.withNaN(st, it.constNum(a.L.c/b.L.c), nan, a.L)
	}
	if b.L.isConst() && b.L.c != 0 {
		return it.withNaN(st, &Num{linScale(a.L, 1/b.L.c), iv}, nan, a.L)
	}
	if a.L.key == b.L.key && !ib.has(0) && ib.finite() {
		return it.constNum(1)
	}
	ea, eb := st.entail(a.L), st.entail(b.L)
	if m := ib.meet(eb); nan && !m.empty() && !m.has(0) {
		_, nan = ivDiv(ia, m)
	}
	d := st.entail(linSub(a.L, b.L))
	if eb.lo > 0 {
		if ea.lo >= 0 && iv.lo < 0 {
			iv.lo = 0
		}
		if d.hi <= 0 && iv.hi > 1 {
			iv.hi = 1
		}
		if s := st.entail(linAdd(a.L, b.L, 1)); s.lo >= 0 && iv.lo < -1 {
			iv.lo = -1
		}
	}
	nn := nan || st.mayNaN(a.L) || st.mayNaN(b.L)
	key := "div(" + a.L.key + "," + b.L.key + ")"
	if nn {
		key += "?"
	}
	n := it.consNum(st, key, "("+a.L.String()+")/("+b.L.String()+")", iv, false, a.L, b.L)
	n.L.t[0].s.kind = "div"
	if nn {
		n.L.t[0].s.nan = true
	}
	return n
}

func truncIv(iv Iv) Iv { return Iv{math.Trunc(iv.lo), math.Trunc(iv.hi)} }

func (it *Interp) binop(st *State, x *ssa.BinOp) []Outcome {
	a, b := it.val(st, x.X), it.val(st, x.Y)
	na, oka := a.(*Num)
	nb, okb := b.(*Num)
	if oka && okb {
		t := x.X.Type()
		isF := isFloatT(t)
		switch x.Op {
		case token.ADD:
			return one(st, x, it.wrapInt(st, it.addNum(st, na, nb, 1), t))
		case token.SUB:
			return one(st, x, it.wrapInt(st, it.addNum(st, na, nb, -1), t))
		case token.MUL:
			return it.mulOutcomes(st, x, na, nb)
		case token.QUO:
			if isF {
				return one(st, x, it.divNum(st, na, nb, x.Pos()))
			}
			ib := st.iv(nb)
			if ib.has(0) && st.entail(nb.L).has(0) {
				st.event("divzero", x.Pos(), nb)
				if ib.lo == 0 {
					st.assume(nb.L, Iv{1, math.Inf(1)})
				}
				ib = st.iv(nb)
			}
			ia := st.iv(na)
			if ia.isConst() && ib.isConst() && ib.lo != 0 {
				return one(st, x, it.constNum(math.Trunc(ia.lo/ib.lo)))
			}
			iv, _ := ivDiv(ia, ib)
			if ib.lo > 0 || ib.hi < 0 {
				iv = truncIv(iv)
			} else {
				iv = ia.join(ivNeg(ia))
			}
			n := it.consNum(st, "idiv("+na.L.key+","+nb.L.key+")", "("+na.L.String()+")/("+nb.L.String()+")", iv, true, na.L, nb.L)
			if ia.lo >= 0 && ib.lo >= 1 {
				st.assume(linSub(n.L, na.L), Iv{math.Inf(-1), 0})
				if ib.isConst() {
					// n*c <= a < n*c + c
					d := linAdd(linScale(n.L, ib.lo), na.L, -1)
					st.assume(d, Iv{-(ib.lo - 1), 0})
				}
			}
			return one(st, x, n)
		case token.REM:
			ib := st.iv(nb)
			if ib.has(0) && st.entail(nb.L).has(0) {
				st.event("divzero", x.Pos(), nb)
				if ib.lo == 0 {
					st.assume(nb.L, Iv{1, math.Inf(1)})
				}
				ib = st.iv(nb)
			}
			ia := st.iv(na)
			if ia.isConst() && ib.isConst() && ib.lo != 0 {
				return one(st, x, it.constNum(math.Mod(ia.lo, ib.lo)))
			}
			m := math.Max(math.Abs(ib.lo), math.Abs(ib.hi)) - 1
			iv := Iv{-m, m}
			if ia.lo >= 0 {
				iv.lo = 0
				iv.hi = math.Min(iv.hi, ia.hi)
			}
			if ia.hi <= 0 {
				iv.hi = 0
			}
			n := it.consNum(st, "irem("+na.L.key+","+nb.L.key+")", "rem", iv, true, na.L, nb.L)
			if ib.lo > 0 {
				st.assume(linSub(n.L, nb.L), Iv{math.Inf(-1), -1})
			}
			return one(st, x, n)
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			return one(st, x, it.cmp(st, x.Op, na, nb))
		case token.AND:
			ia, ib := st.iv(na), st.iv(nb)
			hi := math.Inf(1)
			if ia.lo >= 0 {
				hi = math.Min(hi, ia.hi)
			}
			if ib.lo >= 0 {
				hi = math.Min(hi, ib.hi)
			}
			iv := intRange(basicOf(t))
			if !math.IsInf(hi, 1) {
				iv = Iv{0, hi}
			}
			return one(st, x, it.freshDep("and", iv, true, na.L, nb.L))
		case token.SHL:
			if na.L.isConst() && nb.L.isConst() {
				return one(st, x, it.constNum(na.L.c*math.Pow(2, nb.L.c)))
			}
			return one(st, x, it.freshDep("shl", intRange(basicOf(t)), true, na.L, nb.L))
		case token.SHR:
			ia, ib := st.iv(na), st.iv(nb)
			iv := intRange(basicOf(t))
			if ia.lo >= 0 {
				iv = Iv{0, ia.hi}
				if ib.lo >= 0 {
					iv.hi = math.Floor(ia.hi / math.Pow(2, ib.lo))
				}
			}
			return one(st, x, it.freshDep("shr", iv, true, na.L, nb.L))
		default:
			iv := intRange(basicOf(t))
			return one(st, x, it.freshDep(x.Op.String(), iv, true, na.L, nb.L))
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		v := it.eq(st, a, b)
		if x.Op == token.NEQ {
			v = notV(v)
		}
		return one(st, x, v)
	case token.ADD:
		sa, ok1 := a.(*StrV)
		sb, ok2 := b.(*StrV)
		if ok1 && ok2 && sa.known && sb.known {
			return one(st, x, &StrV{known: true, s: sa.s + sb.s})
		}
		return one(st, x, &StrV{id: it.id(), name: "concat"})
	}
	return one(st, x, it.force(st, it.lazy(x.Type(), "binop", false)))
}

func (it *Interp) freshDep(name string, iv Iv, isInt bool, deps ...*Lin) *Num {
	n := it.freshNum(name, iv, false, isInt)
	n.L.t[0].s.addDeps(deps...)
	return n
}

// mulOutcomes splits on the sign of a factor when the other lies in [0,1], so
// that 0 <= |x*y| <= |x| becomes a linear fact.
func (it *Interp) mulOutcomes(st *State, x *ssa.BinOp, a, b *Num) []Outcome {
	unitRange := func(n *Num) bool {
		i := st.iv(n)
		return !n.L.isConst() && i.lo >= 0 && i.hi <= 1 && !i.isConst()
	}
	split := func(n *Num) []Outcome {
		i := st.iv(n)
		if n.L.isConst() || i.lo >= 0 || i.hi <= 0 || st.mayNaN(n.L) {
			return nil
		}
		s2 := st.clone()
		var out []Outcome
		if st.assume(n.L, Iv{0, math.Inf(1)}) {
			out = append(out, one(st, x, it.mulNum(st, a, b))...)
		}
		if s2.assume(n.L, Iv{math.Inf(-1), -tiny}) {
			out = append(out, one(s2, x, it.mulNum(s2, a, b))...)
		}
		return out
	}
	if isFloatT(x.Type()) && it.P.splitMul {
		if unitRange(a) {
			if o := split(b); o != nil {
				return o
			}
		}
		if unitRange(b) {
			if o := split(a); o != nil {
				return o
			}
		}
	}
	return one(st, x, it.wrapInt(st, it.mulNum(st, a, b), x.Type()))
}

// wrapInt keeps fixed-width integer results inside their type (overflow gives any value of it).
func (it *Interp) wrapInt(st *State, n *Num, t types.Type) *Num {
	b := basicOf(t)
	if b == nil || b.Info()&types.IsInteger == 0 {
		return n
	}
	r := intRange(b)
	iv := st.iv(n)
	if b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt {
		return n // 64-bit overflow is out of scope (assumption)
	}
	if iv.in(r) {
		return n
	}
	if e := st.entail(n.L); e.in(r) {
		return n
	}
	if b.Info()&types.IsUnsigned != 0 || b.Kind() == types.Int32 || b.Kind() == types.Int16 || b.Kind() == types.Int8 {
		return it.freshDep("wrap", r, true, n.L)
	}
	return n
}

func (it *Interp) cmp(st *State, op token.Token, a, b *Num) *BoolV {
	var c *Cond
	switch op {
	case token.LSS:
		c = &Cond{kind: "lt", L: linSub(a.L, b.L), x: a, y: b}
	case token.GTR:
		c = &Cond{kind: "lt", L: linSub(b.L, a.L), x: b, y: a}
	case token.LEQ:
		c = &Cond{kind: "le", L: linSub(a.L, b.L), x: a, y: b}
	case token.GEQ:
		c = &Cond{kind: "le", L: linSub(b.L, a.L), x: b, y: a}
	case token.EQL, token.NEQ:
		c = &Cond{kind: "eq", L: linSub(a.L, b.L), x: a, y: b, neg: op == token.NEQ}
	}
	if c.L.isConst() && !a.L.isConst() && (st.mayNaN(a.L) || st.mayNaN(b.L)) {
		// x op x with possible NaN
		holds := false
		switch c.kind {
		case "lt":
			holds = c.L.c < 0
		case "le":
			holds = c.L.c <= 0
		case "eq":
			holds = c.L.c == 0
		}
		if !holds {
			return boolK(c.neg)
		}
		return &BoolV{k: 2, cond: &Cond{kind: "nan", L: a.L, neg: !c.neg}}
	}
	v := &BoolV{k: 2, cond: c}
	if d := st.decide(v); d != 2 {
		return &BoolV{k: d}
	}
	return v
}

func notV(v *BoolV) *BoolV {
	if v.k != 2 {
		return &BoolV{k: 1 - v.k}
	}
	if v.cond == nil {
		return v
	}
	c := *v.cond
	c.neg = !c.neg
	return &BoolV{k: 2, cond: &c}
}

func (it *Interp) isNil(v Value) bool {
	n, _ := nilInfo(v)
	return n == 2
}

func (it *Interp) unkBool(name string) *BoolV {
	return &BoolV{k: 2, cond: &Cond{kind: "bool", sym: &BSym{it.id(), name}}}
}

// fieldEq: whether two fields are equal (2: not known).
func (it *Interp) fieldEq(st *State, a, b Value) int {
	x, ok1 := a.(*Num)
	y, ok2 := b.(*Num)
	switch {
	case ok1 && ok2:
		if st.mayNaN(x.L) || st.mayNaN(y.L) {
			return 2
		}
		d := linSub(x.L, y.L)
		if d.isConst() {
			if d.c == 0 {
				return 1
			}
			return 0
		}
		if e := st.entail(d); e.lo > 0 || e.hi < 0 {
			return 0
		}
		return 2
	case ok1 != ok2 || a == nil || b == nil:
		return 2
	}
	return st.decide(it.eq(st, a, b))
}

func (it *Interp) eq(st *State, a, b Value) *BoolV {
	switch x := a.(type) {
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			break
		}
		if x.known && y.known {
			return boolK(x.s == y.s)
		}
		if x.known {
			x, y = y, x
		}
		c := &Cond{kind: "str", sv: x}
		if y.known {
			c.sc = y.s
		} else {
			c.sv2 = y
		}
		v := &BoolV{k: 2, cond: c}
		if d := st.decide(v); d != 2 {
			return &BoolV{k: d}
		}
		if c.sv2 != nil {
			key := fmt.Sprintf("streq:%d:%d", min(x.id, y.id), max(x.id, y.id))
			if m, ok := it.memo[key]; ok {
				return m.(*BoolV)
			}
			u := it.unkBool("streq")
			it.memo[key] = u
			return u
		}
		return v
	case *BoolV:
		y, ok := b.(*BoolV)
		if !ok {
			break
		}
		dx, dy := st.decide(x), st.decide(y)
		if dx != 2 && dy != 2 {
			return boolK(dx == dy)
		}
		if dy == 1 {
			return x
		}
		if dy == 0 {
			return notV(x)
		}
		if dx == 1 {
			return y
		}
		if dx == 0 {
			return notV(y)
		}
		return it.unkBool("booleq")
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return it.unkBool("structeq")
		}
		all := true
		for i := range x.f {
			switch it.fieldEq(st, it.force(st, x.f[i]), it.force(st, y.f[i])) {
			case 0:
				return boolK(false)
			case 2:
				all = false
			}
		}
		if all {
			return boolK(true)
		}
		return it.unkBool("structeq")
	}
	if it.isNil(b) {
		v := &BoolV{k: 2, cond: &Cond{kind: "nil", pv: a}}
		if d := st.decide(v); d != 2 {
			return &BoolV{k: d}
		}
		return v
	}
	if it.isNil(a) {
		v := &BoolV{k: 2, cond: &Cond{kind: "nil", pv: b}}
		if d := st.decide(v); d != 2 {
			return &BoolV{k: d}
		}
		return v
	}
	if p, ok := a.(*PtrV); ok {
		if q, ok := b.(*PtrV); ok && len(p.ts) == 1 && len(q.ts) == 1 && !p.any && !q.any {
			same := p.ts[0].o == q.ts[0].o && samePath(p.ts[0].path, q.ts[0].path)
			if same && !p.ts[0].o.summary {
				return boolK(true)
			}
			if !same && (!p.ts[0].o.input || !q.ts[0].o.input) && p.ts[0].o != q.ts[0].o {
				return boolK(false)
			}
		}
	}
	if p, ok := a.(*IfaceV); ok {
		if q, ok := b.(*IfaceV); ok && len(p.alts) == 1 && len(q.alts) == 1 && !p.unknown && !q.unknown {
			ea, ok1 := p.alts[0].v.(*ErrV)
			eb, ok2 := q.alts[0].v.(*ErrV)
			if ok1 && ok2 && ea.global != nil && ea.global == eb.global {
				return boolK(true)
			}
		}
	}
	return it.unkBool("eq")
}

func (it *Interp) unop(st *State, x *ssa.UnOp) []Outcome {
	v := it.val(st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			return one(st, x, it.force(st, it.lazy(x.Type(), "deref", false)))
		}
		rs := it.load(st, p, x.Pos())
		if len(rs) == 0 {
			return []Outcome{{st: st, panicked: true, pos: x.Pos()}}
		}
		for i := range rs {
			rs[i].st.top()[x] = it.force(rs[i].st, rs[i].ret)
			rs[i].ret = nil
		}
		return rs
	case token.NOT:
		if b, ok := v.(*BoolV); ok {
			return one(st, x, notV(b))
		}
	case token.SUB:
		if n, ok := v.(*Num); ok {
			return one(st, x, &Num{linScale(n.L, -1), ivNeg(st.iv(n))})
		}
	case token.ARROW:
		st.event("recv", x.Pos(), v)
		t := x.Type()
		if x.CommaOk {
			tt := t.(*types.Tuple)
			return one(st, x, TupleV{it.lazy(tt.At(0).Type(), "recv", false), it.unkBool("recvok")})
		}
		return one(st, x, it.force(st, it.lazy(t, "recv", false)))
	}
	return one(st, x, it.force(st, it.lazy(x.Type(), "unop", false)))
}

func (it *Interp) convert(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	if n, ok := v.(*Num); ok {
		if isFloatT(from) && isIntT(to) {
			iv := st.iv(n)
			r := intRange(basicOf(to))
			if k := math.Trunc(n.L.c); n.L.isConst() && k >= r.lo && k <= r.hi {
				return it.constNum(k)
			}
			if !iv.in(r) || st.mayNaN(n.L) {
				// the result of a conversion out of range is the machine's
				st.event("fltconv", pos, n)
				return it.freshDep("conv", r, true, n.L)
			}
			t := it.consNum(st, "trunc("+n.L.key+")", "trunc("+n.L.String()+")", truncIv(iv), true, n.L)
			d := linSub(t.L, n.L)
			if iv.lo >= 0 {
				st.assume(d, Iv{-1, 0})
			} else if iv.hi <= 0 {
				st.assume(d, Iv{0, 1})
			} else {
				st.assume(d, Iv{-1, 1})
			}
			if u := t.L.unit(); u != nil && u.kind == "" {
				u.kind = "trunc"
			}
			return t
		}
		if isIntT(from) && isFloatT(to) {
			return n
		}
		if isIntT(from) && isIntT(to) {
			r := intRange(basicOf(to))
			if st.iv(n).in(r) || st.entail(n.L).in(r) {
				return n
			}
			if basicOf(to).Kind() == types.Int || basicOf(to).Kind() == types.Int64 {
				return n
			}
			return it.freshDep("conv", r, true, n.L)
		}
		if isFloatT(from) && isFloatT(to) {
			return n
		}
	}
	if s, ok := v.(*StrV); ok {
		if b := basicOf(to); b != nil && b.Info()&types.IsString != 0 {
			return s
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if s, ok := v.(*SliceV); ok {
		_ = s
		if b := basicOf(to); b != nil && b.Info()&types.IsString != 0 {
			return &StrV{id: it.id(), name: "conv"}
		}
	}
	return it.force(st, it.lazy(to, "conv", false))
}

// minmax splits on which operand wins.
func (it *Interp) minmax(st *State, a, b *Num, isMax bool) []Outcome {
	nan := st.mayNaN(a.L) || st.mayNaN(b.L)
	ia, ib := st.iv(a), st.iv(b)
	if nan {
		// NaN propagates; otherwise bounded by both
		var iv Iv
		if isMax {
			iv = Iv{math.Max(ia.lo, ib.lo), math.Max(ia.hi, ib.hi)}
		} else {
			iv = Iv{math.Min(ia.lo, ib.lo), math.Min(ia.hi, ib.hi)}
		}
		n := it.freshNum("minmax", iv, true, false)
		n.L.t[0].s.addDeps(a.L, b.L)
		return []Outcome{{st: st, ret: n}}
	}
	c := it.cmp(st, token.LEQ, a, b)
	pick := func(first bool) *Num {
		if first == isMax {
			return b
		}
		return a
	}
	// a <= b: max is b, min is a
	switch st.decide(c) {
	case 1:
		return []Outcome{{st: st, ret: pick(true)}}
	case 0:
		return []Outcome{{st: st, ret: pick(false)}}
	}
	s2 := st.clone()
	var out []Outcome
	fix := func(s *State, n *Num) *Num { return &Num{n.L, s.iv(n)} }
	if st.assumeBool(c, true) {
		out = append(out, Outcome{st: st, ret: fix(st, pick(true))})
	}
	if s2.assumeBool(c, false) {
		out = append(out, Outcome{st: s2, ret: fix(s2, pick(false))})
	}
	return out
}
