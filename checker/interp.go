package main

// Abstract interpreter over go/ssa: path-partitioned inside a function,
// callees analysed in the caller's context (inlined), loops by fixpoint with
// widening (or exact unrolling when every trip decision is forced).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st       *State
	ret      Value
	panicked bool
	pos      token.Pos
}

type callCtx struct {
	it    *Interp
	st    *State
	fn    *ssa.Function // may be nil for interface calls
	name  string
	recv  Value
	args  []Value // without receiver for interface calls; with receiver for static methods
	sig   *types.Signature
	pos   token.Pos
	ins   ssa.CallInstruction
	depth int
}

type Model func(c *callCtx) []Outcome

type Interp struct {
	prog            *ssa.Program
	P               *Program
	sy              *symtab
	nid             int
	models          map[string]Model // full function name -> model, overrides bodies
	iface           func(c *callCtx) []Outcome
	numInv          func(parent types.Type, field string) (Iv, bool, bool) // interval, mayNaN, defined
	onObj           func(it *Interp, st *State, o *Obj)                    // called when a lazy object is created
	clockAt         func(st *State, k int) *Num
	onSelect        func(st *State, x *ssa.Select, chans []Value) func(i int) bool // which cases may be taken, -1 for none
	onRecv          func(st *State, x *ssa.Select, i int) Value                    // the value a select receives
	maxPath         int
	maxElems        int // longest array or slice kept element by element
	maxDepth        int
	steps           int
	maxSteps        int
	loops           map[*ssa.Function]*loopInfo
	memo            map[string]interface{}
	volatileAtomics bool
	stack           []string
	seenFn          map[*ssa.Function]bool
	nPaths          int
	aborted         string
	undec           []string
	phiTag          int
	goRun           bool // execute goroutine bodies inline? (recorded as events otherwise)
	unrollMax       int
	unrollPaths     int
	mapOrder        int  // 1, 2: iterate maps with known entries in (reverse) insertion order
	unrollBoth      int  // iterations that may both leave and continue before unrolling gives up
	freshAlloc      bool // outside fixpoints every allocation is an object of its own
	fixDepth        int
	disjLoops       bool // explore loops by the shape of the known collections
	exactMaps       bool // visit sync.Maps with known entries one entry after another
	keepHeads       bool // never join the states in which a loop is entered
	unrollJoin      bool // merge states between unrolled iterations instead of giving up
	allStores       bool // report stores to local objects too
	initBusy        int
	everPub         map[*Obj]bool     // objects published through an atomic cell on some path
	lockName        map[string]string // lock cell -> field it lives in
	obs             [][]func()
	skipDyn         func(st *State, f *FuncV, args []Value, sig *types.Signature) bool
	pubLocal        bool                                                    // report publications to locally created cells too
	atomNonNil      map[string]bool                                         // atomic cells that always hold a value
	onHavoc         func(it *Interp, st *State, t PtrT, structT types.Type) // re-establish invariants after acquiring a lock
}

func pkgOfGlobal(g *ssa.Global) string {
	if g.Pkg == nil {
		return ""
	}
	return g.Pkg.Pkg.Path()
}

type abortErr struct{ msg string }

func NewInterp(P *Program) *Interp {
	it := &Interp{prog: P.prog, P: P, sy: newSymtab(), models: map[string]Model{}, maxPath: 64, maxElems: 64, maxDepth: 40,
		maxSteps: 3000000, loops: map[*ssa.Function]*loopInfo{}, memo: map[string]interface{}{}, seenFn: map[*ssa.Function]bool{}, volatileAtomics: true, unrollMax: 12, unrollPaths: 12, unrollBoth: 2}
	installModels(it)
	return it
}

func (it *Interp) id() int { it.nid++; return it.nid }

// ---- value construction ----

func (it *Interp) constNum(c float64) *Num { return &Num{linConst(c), Iv{c, c}} }

func (it *Interp) freshNum(name string, iv Iv, nan, isInt bool) *Num {
	s := it.sy.fresh(name, iv, nan, isInt)
	return &Num{linSym(s), iv}
}

func intRange(b *types.Basic) Iv {
	switch b.Kind() {
	case types.Int8:
		return Iv{-128, 127}
	case types.Int16:
		return Iv{-32768, 32767}
	case types.Int32:
		return Iv{math.MinInt32, math.MaxInt32}
	case types.Uint8:
		return Iv{0, 255}
	case types.Uint16:
		return Iv{0, 65535}
	case types.Uint32:
		return Iv{0, math.MaxUint32}
	case types.Uint, types.Uint64, types.Uintptr:
		return Iv{0, math.MaxUint64}
	}
	return Iv{math.MinInt64, math.MaxInt64}
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isFloatT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func (it *Interp) lazy(typ types.Type, name string, input bool) Value {
	return &Lazy{typ: typ, name: name, input: input}
}

// force expands a lazy value one level.
func (it *Interp) force(st *State, v Value) Value {
	l, ok := v.(*Lazy)
	if !ok {
		return v
	}
	if l.memo == nil {
		l.memo = it.expand(st, l)
	}
	return l.memo
}

func (it *Interp) expand(st *State, l *Lazy) Value {
	switch u := l.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsFloat != 0:
			iv, nan := ivFinite, false
			if it.numInv != nil {
				if i, n, ok := it.numInv(l.parent, l.field); ok {
					iv, nan = i, n
				}
			}
			n := it.freshNum(l.name, iv, nan, false)
			n.L.t[0].s.orig = l.orig
			return n
		case u.Info()&types.IsInteger != 0:
			iv := intRange(u)
			if it.numInv != nil {
				if i, _, ok := it.numInv(l.parent, l.field); ok {
					iv = iv.meet(i)
				}
			}
			n := it.freshNum(l.name, iv, false, true)
			n.L.t[0].s.orig = l.orig
			return n
		case u.Info()&types.IsBoolean != 0:
			return &BoolV{k: 2, cond: &Cond{kind: "bool", sym: &BSym{it.id(), l.name}}}
		case u.Info()&types.IsString != 0:
			return &StrV{id: it.id(), name: l.name}
		}
		return &OpaqueV{typ: l.typ, id: it.id(), nilp: 1, name: l.name}
	case *types.Pointer:
		o := &Obj{id: it.id(), name: "*" + l.name, typ: u.Elem(), input: l.input, orig: l.orig}
		o.lazy = &Lazy{typ: u.Elem(), name: l.name, input: l.input, orig: l.orig}
		return &PtrV{ts: []PtrT{{o, nil}}, nilp: 0, typ: u.Elem()}
	case *types.Struct:
		s := &StructV{typ: l.typ, f: make([]Value, u.NumFields())}
		for i := range s.f {
			f := u.Field(i)
			s.f[i] = &Lazy{typ: f.Type(), name: l.name + "." + f.Name(), parent: l.typ, field: f.Name(), input: l.input, orig: l.orig}
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			a := &ArrV{typ: l.typ, e: make([]Value, u.Len())}
			for i := range a.e {
				a.e[i] = &Lazy{typ: u.Elem(), name: fmt.Sprintf("%s[%d]", l.name, i), parent: l.parent, field: l.field, input: l.input, orig: l.orig}
			}
			return a
		}
		return &SumV{elem: u.Elem(), name: l.name}
	case *types.Slice:
		o := &Obj{id: it.id(), name: l.name + "[]", typ: l.typ, input: l.input}
		o.lazy = &SumV{elem: u.Elem(), name: l.name}
		n := it.freshNum("len("+l.name+")", Iv{0, 1 << 40}, false, true)
		return &SliceV{o: o, n: n, cp: n, nilp: 1, id: it.id(), typ: l.typ}
	case *types.Map:
		o := &Obj{id: it.id(), name: l.name, typ: l.typ, input: l.input}
		o.lazy = &MapC{typ: u, unknown: true, name: l.name, n: it.freshNum("len("+l.name+")", Iv{0, 1 << 40}, false, true)}
		return &MapV{o: o, nilp: 0, id: it.id(), typ: l.typ}
	case *types.Signature:
		return &FuncV{unknown: true, nilp: 0, id: it.id(), name: l.name}
	case *types.Interface:
		return &IfaceV{unknown: true, nilp: 1, id: it.id(), name: l.name, typ: l.typ}
	}
	return &OpaqueV{typ: l.typ, id: it.id(), nilp: 1, name: l.name}
}

func (it *Interp) zero(typ types.Type) Value {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsFloat|types.IsInteger) != 0:
			return it.constNum(0)
		case u.Info()&types.IsBoolean != 0:
			return &BoolV{k: 0}
		case u.Info()&types.IsString != 0:
			return &StrV{known: true}
		}
		return &OpaqueV{typ: typ, id: it.id(), nilp: 2}
	case *types.Pointer:
		return &PtrV{nilp: 2, typ: u.Elem()}
	case *types.Struct:
		s := &StructV{typ: typ, f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = it.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			a := &ArrV{typ: typ, e: make([]Value, u.Len())}
			for i := range a.e {
				a.e[i] = it.zero(u.Elem())
			}
			return a
		}
		return &SumV{elem: u.Elem(), v: it.zero(u.Elem()), name: "zero"}
	case *types.Slice:
		z := it.constNum(0)
		return &SliceV{n: z, cp: z, nilp: 2, typ: typ}
	case *types.Map:
		return &MapV{nilp: 2, typ: typ}
	case *types.Signature:
		return &FuncV{nilp: 2}
	case *types.Interface:
		return &IfaceV{nilp: 2, typ: typ}
	}
	return &OpaqueV{typ: typ, id: it.id(), nilp: 2}
}

func boolK(b bool) *BoolV {
	if b {
		return &BoolV{k: 1}
	}
	return &BoolV{k: 0}
}

func (it *Interp) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return it.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolK(constant.BoolVal(c.Value))
	case constant.String:
		return &StrV{known: true, s: constant.StringVal(c.Value)}
	case constant.Int, constant.Float:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return it.constNum(f)
	}
	return &OpaqueV{typ: c.Type(), id: it.id()}
}

// val evaluates an SSA operand.
func (it *Interp) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return it.constVal(v)
	case *ssa.Function:
		return &FuncV{alts: []FuncT{{fn: v}}, name: v.String()}
	case *ssa.Global:
		return &PtrV{ts: []PtrT{{it.globalObj(v), nil}}, typ: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return &FuncV{name: v.Name()}
	}
	if x, ok := st.top()[v]; ok {
		return it.force(st, x)
	}
	// Undefined register: unknown value (e.g. dropped at a join).
	x := it.force(st, it.lazy(v.Type(), v.Name(), false))
	st.top()[v] = x
	return x
}

func (it *Interp) globalObj(g *ssa.Global) *Obj {
	k := "global:" + g.String()
	if o, ok := it.memo[k]; ok {
		return o.(*Obj)
	}
	t := g.Type().(*types.Pointer).Elem()
	o := &Obj{id: it.id(), name: g.Name(), typ: t, global: g, input: true}
	it.memo[k] = o
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		o.lazy = &IfaceV{alts: []IfT{{nil, &ErrV{global: g, desc: g.String()}}}, nilp: 0, typ: t, name: g.Name()}
	} else if g.Name() == "init$guard" {
		o.lazy = &BoolV{k: 0}
	} else if iv := it.P.globalInit(it, g); iv != nil {
		o.lazy = iv
	} else if it.initBusy > 0 && it.P.spkgs[pkgOfGlobal(g)] != nil {
		o.lazy = it.zero(t)
	} else {
		o.lazy = &Lazy{typ: t, name: g.Name(), input: true}
	}
	return o
}

// ---- memory ----

func (it *Interp) content(st *State, o *Obj) Value {
	if o.elemOf != nil {
		base := it.content(st, o.elemOf)
		switch s := base.(type) {
		case *SumV:
			if v, ok := s.cache[o.elemKey]; ok {
				return it.force(st, v)
			}
			v := it.sumRead(st, s, "")
			if !o.elemOf.summary {
				n := *s
				n.cache = cp(s.cache)
				n.cache[o.elemKey] = v
				st.mem[o.elemOf] = &n
			}
			return it.force(st, v)
		case *ArrV:
			if len(s.e) > 0 {
				return it.joinMany(st, s.e)
			}
		}
		return it.force(st, it.lazy(o.typ, o.name, o.input))
	}
	if v, ok := st.mem[o]; ok {
		return it.force(st, v)
	}
	return it.force(st, o.lazy)
}

func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		}
	}
	return t
}

// parentField names the innermost named struct type and field a path denotes.
func parentField(t types.Type, path []int) (types.Type, string) {
	var pt types.Type
	var f string
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			pt, f = t, u.Field(i).Name()
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		}
	}
	return pt, f
}

func (it *Interp) getPath(st *State, v Value, path []int) Value {
	v = it.force(st, v)
	for _, i := range path {
		switch x := v.(type) {
		case *StructV:
			v = it.force(st, x.f[i])
		case *ArrV:
			if i < 0 || i >= len(x.e) {
				if len(x.e) == 0 {
					return nil
				}
				v = it.joinMany(st, x.e)
			} else {
				v = it.force(st, x.e[i])
			}
		case *SumV:
			v = it.sumRead(st, x, "")
		default:
			return nil
		}
	}
	return v
}

func (it *Interp) joinMany(st *State, vs []Value) Value {
	r := it.force(st, vs[0])
	jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
	for _, v := range vs[1:] {
		r = jc.join(r, it.force(st, v), fmt.Sprintf("jm%d", it.id()))
	}
	return r
}

func (it *Interp) setPath(st *State, v Value, path []int, nv Value, weak bool) Value {
	if len(path) == 0 {
		if weak && v != nil {
			jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
			return jc.join(it.force(st, v), it.force(st, nv), fmt.Sprintf("wk%d", it.id()))
		}
		return nv
	}
	v = it.force(st, v)
	switch x := v.(type) {
	case *StructV:
		n := &StructV{typ: x.typ, f: append([]Value(nil), x.f...)}
		n.f[path[0]] = it.setPath(st, x.f[path[0]], path[1:], nv, weak)
		return n
	case *ArrV:
		n := &ArrV{typ: x.typ, e: append([]Value(nil), x.e...)}
		if path[0] >= 0 && path[0] < len(n.e) {
			n.e[path[0]] = it.setPath(st, x.e[path[0]], path[1:], nv, weak)
		} else {
			for i := range n.e {
				n.e[i] = it.setPath(st, x.e[i], path[1:], nv, true)
			}
		}
		return n
	case *SumV:
		n := &SumV{elem: x.elem, v: x.v, name: x.name, ver: x.ver + 1}
		cur := it.sumRead(st, x, "")
		upd := it.setPath(st, cur, path[1:], nv, false)
		if x.v == nil && len(path) == 1 {
			n.v = nil // unknown stays unknown
			if it.sumTop(x.elem) {
				return n
			}
		}
		jc := &joinCtx{it: it, a: st, b: st, out: st, fresh: true}
		n.v = jc.join(cur, upd, fmt.Sprintf("sw%d", it.id()))
		return n
	}
	return v
}

func (it *Interp) sumTop(t types.Type) bool { return true }

// sumRead reads one element of a summarised collection.
func (it *Interp) sumRead(st *State, s *SumV, key string) Value {
	if key != "" {
		if v, ok := s.cache[key]; ok {
			return it.force(st, v)
		}
	}
	if s.v == nil {
		return it.force(st, &Lazy{typ: s.elem, name: s.name + "[·]", input: true, okKey: key})
	}
	return it.instantiate(st, it.force(st, s.v))
}

// instantiate returns a fresh copy of a summarised element (new symbols, same bounds).
func (it *Interp) instantiate(st *State, v Value) Value {
	v = it.force(st, v)
	switch x := v.(type) {
	case *Num:
		iv := st.iv(x)
		if x.L.isConst() {
			return x
		}
		b := basicNumInt(x.L)
		n := it.freshNum("elem", iv, st.mayNaN(x.L), b)
		n.L.t[0].s.addDeps(x.L)
		return n
	case *BoolV:
		if x.k != 2 {
			return x
		}
		return &BoolV{k: 2, cond: &Cond{kind: "bool", sym: &BSym{it.id(), "elem"}}}
	case *StrV:
		if x.known {
			return x
		}
		return &StrV{id: it.id(), name: x.name}
	case *StructV:
		n := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			if l, ok := x.f[i].(*Lazy); ok && l.memo == nil {
				c := *l
				n.f[i] = &c
			} else {
				n.f[i] = it.instantiate(st, x.f[i])
			}
		}
		return n
	case *PtrV:
		if x.any {
			c := *x
			c.memo = nil
			return &c
		}
		return x
	}
	return v
}

func basicNumInt(l *Lin) bool { return isIntLin(l) }

func (it *Interp) targets(st *State, p *PtrV) []PtrT {
	if p.any && len(p.ts) == 0 {
		if p.memo == nil {
			o := &Obj{id: it.id(), name: "any " + p.typ.String(), typ: p.typ, input: true}
			o.lazy = &Lazy{typ: p.typ, name: "any", input: true}
			p.memo = o
		}
		return []PtrT{{p.memo, nil}}
	}
	return p.ts
}

// load reads through a pointer; may split the state per target.
func (it *Interp) load(st *State, p *PtrV, pos token.Pos) []Outcome {
	if !it.checkNil(st, p, pos) {
		return nil
	}
	ts := it.targets(st, p)
	if len(ts) == 0 {
		return []Outcome{{st: st, ret: &Lazy{typ: p.typ, name: "unk"}}}
	}
	var out []Outcome
	for i, t := range ts {
		s := st
		if i < len(ts)-1 {
			s = st.clone()
		}
		v := it.getPath(s, it.content(s, t.o), t.path)
		if v == nil {
			v = it.force(s, &Lazy{typ: p.typ, name: "unk"})
		}
		if t.o.summary {
			v = it.instantiate(s, v)
		}
		out = append(out, Outcome{st: s, ret: v})
	}
	return out
}

func (it *Interp) store(st *State, p *PtrV, v Value, pos token.Pos) []*State {
	if !it.checkNil(st, p, pos) {
		return nil
	}
	ts := it.targets(st, p)
	if len(ts) == 0 {
		return []*State{st}
	}
	var out []*State
	for i, t := range ts {
		s := st
		if i < len(ts)-1 {
			s = st.clone()
		}
		it.write(s, t, v)
		out = append(out, s)
	}
	return out
}

// write updates one cell (weakly when the object stands for several).
func (it *Interp) write(s *State, t PtrT, v Value) {
	if t.o.elemOf == nil {
		s.mem[t.o] = it.setPath(s, it.content(s, t.o), t.path, v, t.o.summary)
		return
	}
	nv := it.setPath(s, it.content(s, t.o), t.path, v, false)
	switch c := it.content(s, t.o.elemOf).(type) {
	case *SumV:
		n := &SumV{elem: c.elem, name: c.name, ver: c.ver + 1, cache: map[string]Value{}}
		if c.v != nil {
			jc := &joinCtx{it: it, a: s, b: s, out: s, fresh: true}
			n.v = jc.join(it.force(s, c.v), nv, fmt.Sprintf("es%d", it.id()))
		}
		if !t.o.elemOf.summary {
			n.cache[t.o.elemKey] = nv
		}
		s.mem[t.o.elemOf] = n
	case *ArrV:
		s.mem[t.o.elemOf] = it.setPath(s, c, []int{-1}, nv, true)
	}
}

// checkNil records a possible nil dereference and assumes non-nil; false if definitely nil.
func (it *Interp) checkNil(st *State, p Value, pos token.Pos) bool {
	n, id := nilInfo(p)
	if n == 1 && id != 0 {
		if k, ok := st.nilK[id]; ok {
			n = k
		}
	}
	switch n {
	case 2:
		st.event("nilderef", pos, "definite")
		return false
	case 1:
		st.event("maynil", pos, nil)
		if id != 0 {
			st.nilK[id] = 0
		}
	}
	return true
}

// ---- control flow ----

type edge struct {
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	st   *State
	phis bool // phis already applied
}

type region struct {
	rets  []Outcome
	exits []edge
	backs []edge
}

type loopInfo struct {
	rpo   map[*ssa.BasicBlock]int
	heads map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> body
}

func (it *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := it.loops[fn]; ok {
		return li
	}
	li := computeLoops(fn)
	it.loops[fn] = li
	return li
}

func computeLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{rpo: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		li.rpo[b] = len(post) - 1 - i
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.heads[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.heads[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return li
}

func (it *Interp) abort(f string, a ...interface{}) { panic(abortErr{fmt.Sprintf(f, a...)}) }

// Call analyses fn on args from st and returns its outcomes.
func (it *Interp) Call(fn *ssa.Function, args []Value, binds []Value, st *State, pos token.Pos) []Outcome {
	if m, ok := it.models[fn.String()]; ok {
		return m(&callCtx{it: it, st: st, fn: fn, name: fn.String(), args: args, sig: fn.Signature, pos: pos, depth: len(it.stack)})
	}
	if o := fn.Origin(); o != nil {
		if m, ok := it.models[o.String()]; ok {
			return m(&callCtx{it: it, st: st, fn: fn, name: o.String(), args: args, sig: fn.Signature, pos: pos, depth: len(it.stack)})
		}
	}
	if fn.Synthetic == "package initializer" && len(it.stack) > 0 {
		return []Outcome{{st: st}}
	}
	if fn.Blocks == nil || !it.P.inScope(fn) {
		return defaultExternal(&callCtx{it: it, st: st, fn: fn, name: fn.String(), args: args, sig: fn.Signature, pos: pos})
	}
	if len(st.regs) > it.maxDepth {
		it.undec = append(it.undec, "call depth exceeded at "+fn.String())
		return defaultExternal(&callCtx{it: it, st: st, fn: fn, name: fn.String(), args: args, sig: fn.Signature, pos: pos})
	}
	rec := 0
	for _, s := range it.stack {
		if strings.HasPrefix(s, fn.String()+"@") {
			rec++
		}
	}
	if rec > 2 {
		it.undec = append(it.undec, "recursion at "+fn.String())
		return defaultExternal(&callCtx{it: it, st: st, fn: fn, name: fn.String(), args: args, sig: fn.Signature, pos: pos})
	}
	it.seenFn[fn] = true
	it.stack = append(it.stack, fmt.Sprintf("%s@%d", fn.String(), pos))
	defer func() { it.stack = it.stack[:len(it.stack)-1] }()

	// freeze caller registers, push a frame
	frame := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		if i < len(args) {
			frame[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			frame[fv] = binds[i]
		}
	}
	st.regs = append(append([]map[ssa.Value]Value(nil), st.regs...), frame)
	st.defers = append(st.defers, nil)
	r := it.runRegion(fn, []edge{{b: fn.Blocks[0], st: st}}, nil, nil)
	for i := range r.rets {
		s := r.rets[i].st
		s.regs = s.regs[: len(s.regs)-1 : len(s.regs)-1]
		if len(s.regs) > 0 {
			s.regs = append([]map[ssa.Value]Value(nil), s.regs...)
			s.regs[len(s.regs)-1] = cp(s.regs[len(s.regs)-1])
		}
		s.defers = s.defers[:len(s.defers)-1]
	}
	if len(r.rets) > it.maxPath && (len(it.stack) > 1 || len(r.rets) > 2000) {
		return it.mergeOutcomes(r.rets)
	}
	return r.rets
}

// mergeOutcomes joins return states that exceed the partition budget.
func (it *Interp) mergeOutcomes(rs []Outcome) []Outcome {
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range rs {
		k := "p"
		if !o.panicked {
			k = shape(o.ret)
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var out []Outcome
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		acc := g[0]
		for _, o := range g[1:] {
			jc := newJoin(it, acc.st, o.st, fmt.Sprintf("mo%d", it.id()))
			jc.states()
			if !acc.panicked {
				acc.ret = jc.join(it.force(acc.st, acc.ret), it.force(o.st, o.ret), "ret")
			}
			acc.st = jc.out
		}
		out = append(out, acc)
	}
	return out
}

// shape is a coarse key of a result value: distinguishes bools, nil-ness and constants.
func shape(v Value) string {
	switch x := v.(type) {
	case TupleV:
		var p []string
		for _, e := range x {
			p = append(p, shape(e))
		}
		return strings.Join(p, "|")
	case *BoolV:
		return fmt.Sprint("b", x.k)
	case *PtrV:
		return fmt.Sprint("p", x.nilp)
	case *IfaceV:
		return fmt.Sprint("i", x.nilp)
	case *StrV:
		if x.known {
			return "s" + x.s
		}
	}
	return "_"
}

func (it *Interp) runRegion(fn *ssa.Function, start []edge, within map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) region {
	li := it.loopsOf(fn)
	pending := map[*ssa.BasicBlock][]edge{}
	var res region
	first := true
	push := func(e edge) {
		if within != nil && !within[e.b] {
			res.exits = append(res.exits, e)
			return
		}
		if head != nil && e.b == head && !first {
			res.backs = append(res.backs, e)
			return
		}
		pending[e.b] = append(pending[e.b], e)
		if es := pending[e.b]; len(es) > 3*it.maxPath {
			var sts []*State
			for _, x := range es {
				if !x.phis {
					it.applyPhis(x)
				}
				sts = append(sts, x.st)
			}
			pending[e.b] = nil
			for _, s := range it.joinGroup(sts, fmt.Sprintf("kp%d", it.id())) {
				pending[e.b] = append(pending[e.b], edge{b: e.b, st: s, phis: true})
			}
		}
	}
	for _, e := range start {
		push(e)
	}
	first = false
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || li.rpo[x] < li.rpo[b] {
				b = x
			}
		}
		es := pending[b]
		delete(pending, b)
		if body, isHead := li.heads[b]; isHead && b != head {
			r := it.runLoop(fn, b, body, es)
			res.rets = append(res.rets, r.rets...)
			for _, e := range r.exits {
				push(e)
			}
			continue
		}
		var sts []*State
		for _, e := range es {
			if !e.phis {
				it.applyPhis(e)
			}
			sts = append(sts, e.st)
		}
		if len(sts) > it.maxPath {
			sts = it.joinGroup(sts, fmt.Sprintf("k%d", it.id()))
		}
		for _, s := range sts {
			it.execBlock(fn, b, s, push, &res)
		}
	}
	return res
}

func (it *Interp) joinGroup(sts []*State, tag string) []*State {
	// first merge states that agree on events, so path evidence is kept apart
	groups := map[*Ev][]*State{}
	var order []*Ev
	for _, s := range sts {
		if _, ok := groups[s.ev]; !ok {
			order = append(order, s.ev)
		}
		groups[s.ev] = append(groups[s.ev], s)
	}
	merge := func(g []*State, tag string) *State {
		acc := g[0]
		for i, s := range g[1:] {
			jc := newJoin(it, acc, s, fmt.Sprintf("%s/%d", tag, i))
			jc.states()
			acc = jc.out
		}
		return acc
	}
	var out []*State
	for i, k := range order {
		out = append(out, merge(groups[k], fmt.Sprintf("%s.%d", tag, i)))
	}
	if len(out) > it.maxPath {
		out = []*State{merge(out, tag+".all")}
	}
	return out
}

func (it *Interp) applyPhis(e edge) {
	var idx = -1
	for i, p := range e.b.Preds {
		if p == e.prev {
			idx = i
		}
	}
	var names []*ssa.Phi
	var vals []Value
	for _, ins := range e.b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			continue
		}
		names = append(names, phi)
		vals = append(vals, it.val(e.st, phi.Edges[idx]))
	}
	for i, n := range names {
		e.st.top()[n] = vals[i]
	}
}

// runLoop analyses a natural loop from its entry edges.
func (it *Interp) runLoop(fn *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, es []edge) region {
	var out region
	var heads []*State
	for _, e := range es {
		if !e.phis {
			it.applyPhis(e)
		}
		heads = append(heads, e.st)
	}
	if it.disjLoops && it.fixDepth == 0 {
		it.obsPush()
		var hs []*State
		for _, h := range heads {
			hs = append(hs, h.clone())
		}
		r, ok := it.runDisj(fn, head, body, hs)
		it.obsPop(ok)
		if ok {
			return r
		}
	}
	if len(heads) > 8 && !it.keepHeads {
		heads = it.joinGroup(heads, fmt.Sprintf("lh%d", it.id()))
		if len(heads) > 8 {
			acc := heads[0]
			for i, s := range heads[1:] {
				jc := newJoin(it, acc, s, fmt.Sprintf("lha%d/%d", it.id(), i))
				jc.states()
				acc = jc.out
			}
			heads = []*State{acc}
		}
	}
	for _, h := range heads {
		r := it.runLoop1(fn, head, body, h)
		out.rets = append(out.rets, r.rets...)
		out.exits = append(out.exits, r.exits...)
	}
	return out
}

func (it *Interp) runLoop1(fn *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State) region {
	saved := entry.clone()
	// exact unrolling
	if it.unrollMax > 0 {
		it.obsPush()
		var acc region
		cur := []*State{entry}
		ok := false
		both := 0
		for k := 0; k < it.unrollMax; k++ {
			var starts []edge
			for _, s := range cur {
				starts = append(starts, edge{b: head, st: s, phis: true})
			}
			r := it.runRegion(fn, starts, body, head)
			acc.rets = append(acc.rets, r.rets...)
			acc.exits = append(acc.exits, r.exits...)
			if len(r.backs) == 0 {
				ok = true
				break
			}
			if len(r.exits)+len(r.rets) > 0 {
				both++
				if both >= it.unrollBoth {
					break
				}
			}
			if len(r.backs) > it.unrollPaths && !it.unrollJoin {
				break
			}
			cur = nil
			for _, e := range r.backs {
				it.applyPhis(e)
				cur = append(cur, e.st)
			}
			if len(cur) > it.unrollPaths {
				cur = it.mergeIters(cur)
			}
		}
		it.obsPop(ok)
		if ok {
			return acc
		}
	}
	if os.Getenv("VERIF_FIX") != "" {
		fmt.Fprintln(os.Stderr, "fixpoint in", fn, it.P.pos(head.Instrs[len(head.Instrs)-1].Pos()))
	}
	return it.loopFix(fn, head, body, saved)
}

// runDisj explores a loop keeping apart the states that differ in the known
// contents of maps and in constant loop variables; states of the same shape are
// joined, and a state that adds nothing to its shape's is not explored again.
func (it *Interp) runDisj(fn *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cur []*State) (region, bool) {
	type slot struct {
		inv  *State
		memo map[string]interface{}
		n    int
	}
	seen := map[string]*slot{}
	var acc region
	it.phiTag++
	tag := it.phiTag
	for round := 0; round < 2*it.unrollMax; round++ {
		var work []string
		queued := map[string]bool{}
		for _, s := range cur {
			k := it.shape(s, head)
			sl := seen[k]
			if sl == nil {
				seen[k] = &slot{inv: s, memo: map[string]interface{}{}}
			} else {
				jc := newJoin(it, sl.inv, s, fmt.Sprintf("D%d.%d", tag, len(k)))
				jc.memo = sl.memo
				jc.widen = sl.n >= 3
				jc.loop = true
				jc.states()
				if !jc.changed {
					continue
				}
				sl.n++
				sl.inv = jc.out
			}
			if !queued[k] {
				queued[k] = true
				work = append(work, k)
			}
		}
		if len(work) == 0 {
			return acc, true
		}
		if len(seen) > 4000 {
			return acc, false
		}
		var starts []edge
		for _, k := range work {
			starts = append(starts, edge{b: head, st: seen[k].inv.clone(), phis: true})
		}
		r := it.runRegion(fn, starts, body, head)
		acc.rets = append(acc.rets, r.rets...)
		acc.exits = append(acc.exits, r.exits...)
		cur = nil
		for _, e := range r.backs {
			it.applyPhis(e)
			cur = append(cur, e.st)
		}
	}
	return acc, false
}

// shape: the known collection contents and constant loop variables of a state.
func (it *Interp) shape(st *State, head *ssa.BasicBlock) string {
	var sb strings.Builder
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		switch x := st.top()[phi].(type) {
		case *Num:
			if x.L.isConst() {
				fmt.Fprint(&sb, x.L.c)
			}
		case *BoolV:
			fmt.Fprint(&sb, x.k)
		case *SliceV:
			if x.n != nil && x.n.L.isConst() {
				fmt.Fprint(&sb, "#", x.n.L.c)
			}
		}
		sb.WriteByte(',')
	}
	var ks []string
	var walk func(name string, v Value, d int)
	walk = func(name string, v Value, d int) {
		switch x := v.(type) {
		case *MapC:
			ks = append(ks, name+strings.Join(x.keys, "|"))
		case *StructV:
			if d < 3 {
				for i, f := range x.f {
					switch f.(type) {
					case *MapC, *StructV:
						walk(fmt.Sprint(name, ".", i), f, d+1)
					}
				}
			}
		}
	}
	for o, v := range st.mem {
		switch v.(type) {
		case *MapC, *StructV:
			walk(fmt.Sprint(o.id), v, 0)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte(';')
	}
	var is []string
	for i, p := range st.iters {
		is = append(is, fmt.Sprint(i, "@", p))
	}
	sort.Strings(is)
	sb.WriteString(strings.Join(is, ","))
	return sb.String()
}

// mergeIters joins states between unrolled iterations; states at different
// positions of a map iteration stay apart.
func (it *Interp) mergeIters(sts []*State) []*State {
	groups := map[string][]*State{}
	for _, s := range sts {
		k := fmt.Sprint(s.iters)
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range keysSorted(groups) {
		acc := groups[k][0]
		for i, s := range groups[k][1:] {
			jc := newJoin(it, acc, s, fmt.Sprintf("ui%d/%d", it.id(), i))
			jc.states()
			acc = jc.out
		}
		out = append(out, acc)
	}
	return out
}

func (it *Interp) loopFix(fn *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State) region {
	it.phiTag++
	it.fixDepth++
	defer func() { it.fixDepth-- }()
	tag := fmt.Sprintf("L%d", it.phiTag)
	inv := entry.clone()
	var last region
	narrowed := false
	memo := map[string]interface{}{}
	for iter := 0; ; iter++ {
		if iter > 60 {
			it.undec = append(it.undec, "loop did not stabilise in "+fn.String())
			return last
		}
		it.obsPush()
		r := it.runRegion(fn, []edge{{b: head, st: inv.clone(), phis: true}}, body, head)
		last = r
		if len(r.backs) == 0 {
			it.obsPop(true)
			return last
		}
		next := inv
		changed := false
		for _, e := range r.backs {
			it.applyPhis(e)
			jc := newJoin(it, next, e.st, tag)
			jc.memo = memo
			jc.widen = iter >= 3
			jc.loop = true
			jc.states()
			if jc.changed {
				changed = true
			}
			next = jc.out
		}
		if !changed {
			if narrowed {
				it.obsPop(true)
				return last
			}
			// one narrowing pass: entry joined with the last back states, no widening
			narrowed = true
			n2 := entry.clone()
			for _, e := range r.backs {
				jc := newJoin(it, n2, e.st, tag)
				jc.memo = memo
				jc.loop = true
				jc.narrowBase = inv
				jc.states()
				n2 = jc.out
			}
			inv = n2
			it.obsPop(false)
			// verify the narrowed state is inductive on the next round
			continue
		}
		inv = next
		it.obsPop(false)
	}
}

// Observations made by event hooks inside a loop count only for the final
// (stable) iteration of the fixpoint: earlier rounds may be over-widened.
func (it *Interp) obsPush() { it.obs = append(it.obs, nil) }
func (it *Interp) obsPop(keep bool) {
	n := len(it.obs) - 1
	if n < 0 {
		return
	}
	top := it.obs[n]
	it.obs = it.obs[:n]
	if keep {
		for _, f := range top {
			it.observe(f)
		}
	}
}

// observe runs f when the current iteration turns out to be final.
func (it *Interp) observe(f func()) {
	if n := len(it.obs); n > 0 {
		it.obs[n-1] = append(it.obs[n-1], f)
		return
	}
	f()
}

func (it *Interp) execBlock(fn *ssa.Function, b *ssa.BasicBlock, s0 *State, push func(edge), res *region) {
	sts := []*State{s0}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		it.steps++
		if it.steps > it.maxSteps {
			it.abort("analysis budget exhausted in %s", fn)
		}
		switch x := ins.(type) {
		case *ssa.Jump:
			for _, s := range sts {
				push(edge{b: b.Succs[0], prev: b, st: s})
			}
			return
		case *ssa.If:
			for _, s := range sts {
				c, _ := it.val(s, x.Cond).(*BoolV)
				if c == nil {
					c = &BoolV{k: 2}
				}
				d := s.decide(c)
				if d == 1 {
					push(edge{b: b.Succs[0], prev: b, st: s})
					continue
				}
				if d == 0 {
					push(edge{b: b.Succs[1], prev: b, st: s})
					continue
				}
				f := s.clone()
				n := 1
				if s.trace != nil {
					n = s.trace.n + 1
				}
				pos := condPos(x)
				if s.assumeBool(c, true) {
					s.trace = &pathStep{s.trace, pos, true, n}
					push(edge{b: b.Succs[0], prev: b, st: s})
				}
				if f.assumeBool(c, false) {
					f.trace = &pathStep{f.trace, pos, false, n}
					push(edge{b: b.Succs[1], prev: b, st: f})
				}
			}
			return
		case *ssa.Return:
			for _, s := range sts {
				var v Value
				switch len(x.Results) {
				case 0:
				case 1:
					v = it.val(s, x.Results[0])
				default:
					t := make(TupleV, len(x.Results))
					for i, r := range x.Results {
						t[i] = it.val(s, r)
					}
					v = t
				}
				it.nPaths++
				res.rets = append(res.rets, Outcome{st: s, ret: v, pos: x.Pos()})
			}
			return
		case *ssa.Panic:
			for _, s := range sts {
				s.event("panic", x.Pos(), nil)
				res.rets = append(res.rets, Outcome{st: s, panicked: true, pos: x.Pos()})
			}
			return
		}
		var next []*State
		for _, s := range sts {
			for _, o := range it.exec(fn, ins, s) {
				if o.panicked {
					res.rets = append(res.rets, o)
					continue
				}
				next = append(next, o.st)
			}
		}
		sts = next
		if len(sts) == 0 {
			return
		}
		if len(sts) > 4*it.maxPath {
			sts = it.joinGroup(sts, fmt.Sprintf("kb%d", it.id()))
		}
	}
}

func condPos(x *ssa.If) token.Pos {
	if x.Cond.Pos().IsValid() {
		return x.Cond.Pos()
	}
	for _, i := range x.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func one(st *State, ins ssa.Value, v Value) []Outcome {
	st.top()[ins] = v
	return []Outcome{{st: st}}
}

func keysSorted[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
