package main

// Lock analysis: an interprocedural dataflow over the SSA form. Every function is
// analysed once per calling context (locks held on entry, and which arguments are
// still private to their creator). States are sets of held locks, named by the
// path from a parameter, captured variable, global or local value to the mutex.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type heldLock struct {
	path  string // "~" prefix: the owner is unknown in this function
	class string // pkg.Type.field
	mode  int    // 1 read, 2 write
}

type lockSt struct {
	held   []heldLock // sorted by path
	defers []ssa.Instruction
}

func (s lockSt) key() string {
	var sb strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&sb, "%s:%d;", h.path, h.mode)
	}
	sb.WriteByte('|')
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "%p,", d)
	}
	return sb.String()
}

func (s lockSt) find(path string) int {
	for i, h := range s.held {
		if h.path == path {
			return i
		}
	}
	return -1
}

func (s lockSt) with(h heldLock) lockSt {
	n := append(append([]heldLock{}, s.held...), h)
	sort.SliceStable(n, func(i, j int) bool { return n[i].path < n[j].path })
	return lockSt{n, s.defers}
}

func (s lockSt) without(i int) lockSt {
	n := append([]heldLock{}, s.held[:i]...)
	return lockSt{append(n, s.held[i+1:]...), s.defers}
}

type lockEdge struct{ from, to string }

type access struct {
	owner  string // pkg.Type
	field  string
	write  bool
	guards map[string]int // class -> mode, locks of the same object or one that owns it
	pos    token.Pos
	fn     *ssa.Function
	deep   bool
	setup  bool // a write before the function starts goroutines
}

// leak: the contents of a field leave a function (or its lock).
type leak struct {
	owner, field, how string
	pos               token.Pos
	fn                *ssa.Function
}

type blockOp struct {
	what string
	held string
	pos  token.Pos
	fn   *ssa.Function
}

type lockRes struct {
	exits []lockSt // states at return, in the callee's paths
	busy  bool
}

// LockFacts: everything the rules need.
type LockFacts struct {
	P        *Program
	memo     map[string]*lockRes
	acquires int
	contexts int
	calls    int
	accesses []access
	accSeen  map[string]bool
	atomics  map[string]token.Pos // owner.field handed to sync/atomic
	leaks    []leak
	access   map[*ssa.Function]*ssa.FieldAddr
	sites    map[*ssa.Function][]*ssa.Call
	edges    map[lockEdge]token.Pos
	blocks   []blockOp
	bad      []lockIssue
	badSeen  map[string]bool
	fns      map[*ssa.Function]bool
	locksIn  map[*ssa.Function]int // lock operations per function
	impls    map[string][]*ssa.Function
	dyn      map[string][]*ssa.Function
	maker    map[*ssa.Function]bool
	entries  int
	depth    int
}

type lockIssue struct {
	rule, what string
	pos        token.Pos
	fn         *ssa.Function
}

func modName(s string) string { return strings.TrimPrefix(s, modPath+"/") }

func mutexOf(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func syncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (P *Program) lockFacts() *LockFacts {
	L := &LockFacts{P: P, memo: map[string]*lockRes{}, accSeen: map[string]bool{}, atomics: map[string]token.Pos{}, edges: map[lockEdge]token.Pos{},
		badSeen: map[string]bool{}, fns: map[*ssa.Function]bool{}, locksIn: map[*ssa.Function]int{}, impls: map[string][]*ssa.Function{}, maker: map[*ssa.Function]bool{}, access: map[*ssa.Function]*ssa.FieldAddr{}, dyn: map[string][]*ssa.Function{}}
	// functions whose value is taken, by signature
	taken := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					// a closure that is only started, deferred or called where it is made, or given
					// to functions that only call it, is no value: those contexts know it
					for _, r := range *mc.Referrers() {
						if _, dbg := r.(*ssa.DebugRef); dbg {
							continue
						}
						if c, ok := r.(ssa.CallInstruction); ok && onlyCalls(c.Common(), mc, 0) {
							continue
						}
						taken[mc.Fn.(*ssa.Function)] = true
					}
					continue
				}
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(callee == ssa.Value(g) && op == &callCommon(ins).Value) {
						taken[g] = true
					}
				}
			}
		}
	}
	for _, f := range P.funcs {
		if taken[f] {
			k := sigKey(f.Signature)
			L.dyn[k] = append(L.dyn[k], f)
		}
		if f.Signature.Recv() != nil {
			L.impls[f.Name()] = append(L.impls[f.Name()], f)
		}
	}
	// entry points: everything outside code can call, and every goroutine
	for _, f := range P.funcs {
		if libTest(f) || f.Parent() != nil {
			continue
		}
		if token.IsExported(f.Name()) || f.Name() == "main" || f.Name() == "init" {
			L.entries++
			L.top(f)
		}
	}
	for _, f := range P.funcs {
		if !libTest(f) && f.Parent() == nil && !L.fns[f] && f.Synthetic == "" {
			L.top(f)
		}
	}
	return L
}

// onlyCalls: the call does nothing with the function value v but call it, here or in
// functions that only call it in turn.
func onlyCalls(c *ssa.CallCommon, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	for i, a := range c.Args {
		if a != v {
			continue
		}
		sf := c.StaticCallee()
		if sf == nil {
			return false
		}
		if sf.Blocks == nil {
			// a library function runs it, unless it hands out another function
			for j := 0; j < sf.Signature.Results().Len(); j++ {
				if _, isF := sf.Signature.Results().At(j).Type().Underlying().(*types.Signature); isF {
					return false
				}
			}
			continue
		}
		if i >= len(sf.Params) || !paramOnlyCalled(sf.Params[i], depth+1) {
			return false
		}
	}
	return true
}

func paramOnlyCalled(p ssa.Value, depth int) bool {
	for _, r := range *p.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		if _, isGo := r.(*ssa.Go); isGo {
			return false
		}
		if c, ok := r.(ssa.CallInstruction); ok && onlyCalls(c.Common(), p, depth) {
			continue
		}
		return false
	}
	return true
}

// top analyses a function that starts without locks: it must end without any.
func (L *LockFacts) top(f *ssa.Function) { L.topWith(f, nil) }

func (L *LockFacts) topWith(f *ssa.Function, fns map[string]fnVal) {
	for _, e := range L.run(f, nil, nil, fns).exits {
		if len(e.held) > 0 {
			L.issue(f, "balanced", fmt.Sprintf("%s returns with %s", fname(f), heldStr(e.held)), f.Pos())
		}
	}
}

// fnVal: a function value known in a context, its captured variables named there.
type fnVal struct {
	fn  *ssa.Function
	fvs []string
}

func (v fnVal) key() string { return fmt.Sprintf("%p(%s)", v.fn, strings.Join(v.fvs, ",")) }

// libTest: helpers for tests are not part of the system.
func libTest(f *ssa.Function) bool {
	return strings.Contains(pkgPath(f), "/testutil")
}

func callCommon(ins ssa.Instruction) *ssa.CallCommon {
	if c, ok := ins.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return &ssa.CallCommon{}
}

func sigKey(s *types.Signature) string {
	t := types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func (L *LockFacts) issue(fn *ssa.Function, rule, what string, pos token.Pos) {
	k := rule + "|" + what
	if L.badSeen[k] {
		return
	}
	L.badSeen[k] = true
	L.bad = append(L.bad, lockIssue{rule, what, pos, fn})
}

// ---- paths ----

type pathCtx struct {
	L     *LockFacts
	fn    *ssa.Function
	memo  map[ssa.Value]string
	depth int
}

func (p *pathCtx) path(v ssa.Value) string {
	if s, ok := p.memo[v]; ok {
		return s
	}
	p.memo[v] = "v:" + v.Name() // cycles
	p.depth++
	s := p.path1(v)
	p.depth--
	p.memo[v] = s
	return s
}

func (p *pathCtx) path1(v ssa.Value) string {
	if p.depth > 40 {
		return "v:" + v.Name()
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, q := range p.fn.Params {
			if q == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, q := range p.fn.FreeVars {
			if q == x {
				return fmt.Sprintf("f%d", i)
			}
		}
	case *ssa.Global:
		return "g:" + x.String()
	case *ssa.FieldAddr:
		_, f, _ := fieldOfAddr(x)
		return p.path(x.X) + "." + f
	case *ssa.Field:
		f := ""
		if st := structOf(x.X.Type()); st != nil {
			f = st.Field(x.Field).Name()
		}
		return p.path(x.X) + "." + f
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.path(x.X)
		}
	case *ssa.IndexAddr:
		return p.path(x.X) + "[" + x.Index.Name() + "]"
	case *ssa.Index:
		return p.path(x.X) + "[" + x.Index.Name() + "]"
	case *ssa.ChangeType:
		return p.path(x.X)
	case *ssa.ChangeInterface:
		return p.path(x.X)
	case *ssa.MakeInterface:
		return p.path(x.X)
	case *ssa.TypeAssert:
		return p.path(x.X)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return p.path(t.X)
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && p.L.makes(c.Common().StaticCallee()) {
			return "new:" + x.Name()
		}
	case *ssa.Call:
		if p.L.makes(x.Common().StaticCallee()) {
			return "new:" + x.Name()
		}
	case *ssa.Slice:
		return p.path(x.X)
	case *ssa.Alloc:
		// a captured or address-taken variable assigned once stands for its value
		if val := onlyStore(x); val != nil {
			if _, isStruct := x.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); !isStruct {
				return p.path(val)
			}
		}
		return "a:" + x.Name()
	}
	return "v:" + v.Name()
}

// makes: the function's first result is an object it allocates itself (or nil).
func (L *LockFacts) makes(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || fn.Signature.Results().Len() == 0 {
		return false
	}
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	if m, ok := L.maker[fn]; ok {
		return m
	}
	L.maker[fn] = false
	ok := true
	var origin func(v ssa.Value, d int) bool
	origin = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Alloc:
			return x.Heap
		case *ssa.Call:
			return L.makes(x.Common().StaticCallee())
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			return ok && x.Index == 0 && L.makes(c.Common().StaticCallee())
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !origin(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp: // a variable captured by reference
			if a, isA := x.X.(*ssa.Alloc); isA && x.Op == token.MUL {
				if sv := onlyStore(a); sv != nil {
					return origin(sv, d+1)
				}
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && !origin(r.Results[0], 0) {
			ok = false
		}
	}
	L.maker[fn] = ok
	return ok
}

// onlyStore: the single value ever stored in a local variable.
func onlyStore(x *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *x.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
			val = s.Val
			n++
		}
	}
	if n != 1 {
		return nil
	}
	return val
}

// root of a path
func pathRoot(s string) string {
	for i := 0; i < len(s); i++ {
		if (s[i] == '.' || s[i] == '[') && !strings.HasPrefix(s, "g:") {
			return s[:i]
		}
	}
	return s
}

// ---- dataflow ----

type frame struct {
	L     *LockFacts
	fn    *ssa.Function
	pc    *pathCtx
	fresh map[string]bool
	fns   map[string]fnVal // path -> function value
	res   *lockRes
}

func ctxKey(fn *ssa.Function, held []heldLock, fresh map[string]bool, fns map[string]fnVal) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p#", fn)
	for _, h := range held {
		fmt.Fprintf(&sb, "%s:%d;", h.path, h.mode)
	}
	sb.WriteByte('#')
	for _, k := range keysSorted(fresh) {
		sb.WriteString(k + ",")
	}
	sb.WriteByte('#')
	for _, k := range keysSorted(fns) {
		sb.WriteString(k + "=" + fns[k].key() + ",")
	}
	return sb.String()
}

// run analyses fn in a context and returns its exit states.
func (L *LockFacts) run(fn *ssa.Function, held []heldLock, fresh map[string]bool, fns map[string]fnVal) *lockRes {
	k := ctxKey(fn, held, fresh, fns)
	if r, ok := L.memo[k]; ok {
		return r
	}
	r := &lockRes{busy: true, exits: []lockSt{{held: held}}}
	L.memo[k] = r
	L.contexts++
	L.fns[fn] = true
	if L.depth > 60 {
		return r
	}
	L.depth++
	defer func() { L.depth-- }()
	f := &frame{L: L, fn: fn, pc: &pathCtx{L: L, fn: fn, memo: map[ssa.Value]string{}}, fresh: map[string]bool{}, fns: fns, res: r}
	for k := range fresh {
		f.fresh[k] = true
	}
	in := map[*ssa.BasicBlock]map[string]lockSt{}
	type item struct {
		b *ssa.BasicBlock
		s lockSt
	}
	work := []item{{fn.Blocks[0], lockSt{held: held}}}
	exits := map[string]lockSt{}
	steps := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if in[it.b] == nil {
			in[it.b] = map[string]lockSt{}
		}
		key := it.s.key()
		if _, ok := in[it.b][key]; ok {
			continue
		}
		in[it.b][key] = it.s
		if steps++; steps > 4000 {
			L.issue(fn, "analysis", "too many lock states in "+fname(fn), fn.Pos())
			break
		}
		states := []lockSt{it.s}
		for _, ins := range it.b.Instrs {
			var next []lockSt
			seen := map[string]bool{}
			for _, s := range states {
				for _, n := range f.instr(s, ins) {
					if !seen[n.key()] {
						seen[n.key()] = true
						next = append(next, n)
					}
				}
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
		for _, s := range states {
			switch it.b.Instrs[len(it.b.Instrs)-1].(type) {
			case *ssa.Return:
				s.defers = nil
				exits[s.key()] = s
			default:
				for _, nb := range it.b.Succs {
					work = append(work, item{nb, s})
				}
			}
		}
	}
	r.exits = nil
	for _, k := range keysSorted(exits) {
		r.exits = append(r.exits, exits[k])
	}
	r.busy = false
	if len(r.exits) > 1 {
		a, b := r.exits[0], r.exits[1]
		L.issue(fn, "balanced", fmt.Sprintf("%s returns with %s on one path and %s on another", fname(fn), heldStr(a.held), heldStr(b.held)), fn.Pos())
	}
	return r
}

func heldStr(h []heldLock) string {
	if len(h) == 0 {
		return "no lock held"
	}
	var s []string
	for _, x := range h {
		m := ""
		if x.mode == 1 {
			m = " (read)"
		}
		s = append(s, x.class+m)
	}
	return strings.Join(s, ", ") + " held"
}

func (f *frame) instr(s lockSt, ins ssa.Instruction) []lockSt {
	switch x := ins.(type) {
	case *ssa.Defer:
		s.defers = append(append([]ssa.Instruction{}, s.defers...), x)
		return []lockSt{s}
	case *ssa.RunDefers:
		cur := []lockSt{s}
		for {
			var next []lockSt
			done := true
			for _, c := range cur {
				if len(c.defers) == 0 {
					next = append(next, c)
					continue
				}
				done = false
				d := c.defers[len(c.defers)-1].(*ssa.Defer)
				c.defers = c.defers[:len(c.defers)-1]
				for _, n := range f.call(c, d, d.Common()) {
					n.defers = c.defers
					next = append(next, n)
				}
			}
			cur = next
			if done {
				return cur
			}
		}
	case *ssa.Go:
		f.spawn(x.Common())
		return []lockSt{s}
	case *ssa.Call:
		return f.call(s, x, x.Common())
	case *ssa.Send:
		f.blocking(s, "a channel send", x.Pos())
	case *ssa.Select:
		if x.Blocking {
			f.blocking(s, "a select", x.Pos())
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			f.blocking(s, "a channel receive", x.Pos())
		}
		if x.Op == token.MUL {
			f.load(s, x)
		}
	case *ssa.Store:
		f.store(s, x.Addr, x.Pos(), x)
	case *ssa.MapUpdate:
		f.content(s, x.Map, true, x.Pos())
	case *ssa.Lookup:
		f.content(s, x.X, false, x.Pos())
	case *ssa.Range:
		f.content(s, x.X, false, x.Pos())
	case *ssa.Panic:
		return nil
	}
	return []lockSt{s}
}

func (f *frame) blocking(s lockSt, what string, pos token.Pos) {
	if len(s.held) == 0 {
		return
	}
	f.L.blocks = append(f.L.blocks, blockOp{what, heldStr(s.held), pos, f.fn})
}

func (f *frame) spawn(c *ssa.CallCommon) {
	for _, t := range f.targets(c) {
		// a goroutine starts without locks; what it captures is shared from now on
		for _, a := range c.Args {
			delete(f.fresh, pathRoot(f.pc.path(a)))
			f.escaped(a)
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				f.escaped(b)
			}
		}
		f.L.topWith(t.fn, f.passFns(t, c.Args))
	}
}

func (f *frame) escaped(v ssa.Value) {
	f.fresh["!"+pathRoot(f.pc.path(v))] = true
}

type target struct {
	fn   *ssa.Function
	args []string // path of every parameter
	fvs  []string // path of every captured variable
}

// targets: the module functions a call can reach.
func (f *frame) targets(c *ssa.CallCommon) []target {
	var args []string
	for _, a := range c.Args {
		args = append(args, f.pc.path(a))
	}
	if c.IsInvoke() {
		recv := f.pc.path(c.Value)
		var out []target
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, m := range f.L.impls[c.Method.Name()] {
			rt := m.Signature.Recv().Type()
			if it != nil && types.Implements(rt, it) {
				out = append(out, target{m, append([]string{recv}, args...), nil})
			}
		}
		return out
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		if v.Blocks == nil {
			return nil
		}
		return []target{{v, args, nil}}
	case *ssa.MakeClosure:
		var fv []string
		for _, b := range v.Bindings {
			fv = append(fv, f.pc.path(b))
		}
		return []target{{v.Fn.(*ssa.Function), args, fv}}
	case *ssa.Builtin:
		return nil
	}
	if t, ok := f.known(c.Value); ok {
		t.args = args
		return []target{t}
	}
	switch v := c.Value.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return nil // whatever the caller outside the module passes
	case *ssa.UnOp:
		if _, ok := v.X.(*ssa.FreeVar); ok {
			return nil
		}
	}
	if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil // a function type of the library (context.CancelFunc): its values come from there
	}
	var out []target
	for _, g := range f.L.dyn[sigKey(c.Signature())] {
		// captured variables of the enclosing functions stand for the same objects
		out = append(out, target{g, args, nil})
	}
	return out
}

// known: the function value v is, when this context determines it.
func (f *frame) known(v ssa.Value) (target, bool) {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.MakeClosure, *ssa.Function:
			if ts := f.funcArg(x); len(ts) == 1 {
				return ts[0], true
			}
			return target{}, false
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if sv := onlyStore(a); sv != nil {
					v = sv
					continue
				}
			}
		}
		break
	}
	if fv, ok := f.fns[f.pc.path(v)]; ok {
		return target{fv.fn, nil, fv.fvs}, true
	}
	return target{}, false
}

// passFns: the function values known in the callee.
func (f *frame) passFns(t target, args []ssa.Value) map[string]fnVal {
	var m map[string]fnVal
	put := func(n string, v fnVal) {
		if m == nil {
			m = map[string]fnVal{}
		}
		m[n] = v
	}
	name := func(p string) string {
		if n, ok := rename(p, t); ok {
			return n
		}
		return "~" + p
	}
	tr := func(v target) fnVal {
		r := fnVal{fn: v.fn}
		for _, p := range v.fvs {
			r.fvs = append(r.fvs, name(p))
		}
		return r
	}
	for _, p := range keysSorted(f.fns) {
		if n, ok := rename(p, t); ok {
			put(n, tr(target{f.fns[p].fn, nil, f.fns[p].fvs}))
		}
	}
	off := len(t.args) - len(args)
	for i, a := range args {
		if _, isF := a.Type().Underlying().(*types.Signature); !isF {
			continue
		}
		if v, ok := f.known(a); ok {
			put(fmt.Sprintf("p%d", i+off), tr(v))
		}
	}
	return m
}

// rename gives the callee's name of a path.
func rename(path string, t target) (string, bool) {
	if strings.HasPrefix(path, "g:") || strings.HasPrefix(path, "~") {
		return path, true
	}
	best, name := -1, ""
	try := func(p, n string) {
		if p != "" && (path == p || strings.HasPrefix(path, p+".") || strings.HasPrefix(path, p+"[")) && len(p) > best {
			best, name = len(p), n
		}
	}
	for i, a := range t.args {
		try(a, fmt.Sprintf("p%d", i))
	}
	for i, a := range t.fvs {
		try(a, fmt.Sprintf("f%d", i))
	}
	if best < 0 {
		return "", false
	}
	return name + path[best:], true
}

// translate a held lock into the callee's names
func translate(h heldLock, t target) heldLock {
	if n, ok := rename(h.path, t); ok {
		return heldLock{n, h.class, h.mode}
	}
	return heldLock{"~" + h.class + "@" + h.path, h.class, h.mode}
}

// translateAll names the held locks for the callee, distinct locks distinctly.
func translateAll(held []heldLock, t target) ([]heldLock, map[string]heldLock) {
	var out []heldLock
	back := map[string]heldLock{}
	for _, h := range held {
		n := translate(h, t)
		for _, dup := back[n.path]; dup; _, dup = back[n.path] {
			n.path += "'"
		}
		out = append(out, n)
		back[n.path] = h
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out, back
}

func untranslate(h heldLock, t target) heldLock {
	r := pathRoot(h.path)
	for i, a := range t.args {
		if r == fmt.Sprintf("p%d", i) {
			return heldLock{a + h.path[len(r):], h.class, h.mode}
		}
	}
	for i, a := range t.fvs {
		if r == fmt.Sprintf("f%d", i) {
			return heldLock{a + h.path[len(r):], h.class, h.mode}
		}
	}
	return h
}

func lockOp(c *ssa.CallCommon) (string, ssa.Value) {
	fn, ok := c.Value.(*ssa.Function)
	if !ok || c.IsInvoke() || len(c.Args) == 0 || !mutexOf(c.Args[0].Type()) {
		return "", nil
	}
	switch fn.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return fn.Name(), c.Args[0]
	}
	return "", nil
}

func lockClass(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		if t, f, ok := fieldOfAddr(fa); ok {
			return modName(fieldKey(t, f))
		}
	}
	if u, ok := v.(*ssa.UnOp); ok {
		return lockClass(u.X)
	}
	if g, ok := v.(*ssa.Global); ok {
		return g.String()
	}
	return v.Name()
}

func (f *frame) call(s lockSt, ins ssa.Instruction, c *ssa.CallCommon) []lockSt {
	L := f.L
	if op, mu := lockOp(c); op != "" {
		p := f.pc.path(mu)
		cl := lockClass(mu)
		i := s.find(p)
		L.locksIn[f.fn]++
		switch op {
		case "Lock", "RLock":
			L.acquires++
			mode := 2
			if op == "RLock" {
				mode = 1
			}
			if i >= 0 {
				L.issue(f.fn, "not re-entered", fmt.Sprintf("%s acquires %s while the caller already holds it", fname(f.fn), cl), ins.Pos())
				return nil
			}
			for _, h := range s.held {
				e := lockEdge{h.class, cl}
				if _, ok := L.edges[e]; !ok {
					L.edges[e] = ins.Pos()
				}
			}
			return []lockSt{s.with(heldLock{p, cl, mode})}
		case "Unlock", "RUnlock":
			mode := 2
			if op == "RUnlock" {
				mode = 1
			}
			if i < 0 {
				L.issue(f.fn, "balanced", fmt.Sprintf("%s calls %s on %s, which it does not hold", fname(f.fn), op, cl), ins.Pos())
				return []lockSt{s}
			}
			if s.held[i].mode != mode {
				L.issue(f.fn, "balanced", fmt.Sprintf("%s calls %s on %s, which it holds in the other mode", fname(f.fn), op, cl), ins.Pos())
			}
			return []lockSt{s.without(i)}
		default:
			return []lockSt{s, s.with(heldLock{p, cl, 2})}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "copy":
			f.content(s, c.Args[0], true, ins.Pos())
		case "len", "cap", "append":
			for _, a := range c.Args {
				f.content(s, a, false, ins.Pos())
			}
		}
		if b.Name() == "copy" {
			f.content(s, c.Args[1], false, ins.Pos())
		}
		return []lockSt{s}
	}
	if sf := c.StaticCallee(); sf != nil && sf.Blocks == nil {
		return f.external(s, ins, c, sf)
	}
	ts := f.targets(c)
	if len(ts) == 0 {
		// an interface or function value nobody in the module provides, or a library method
		if c.IsInvoke() {
			f.externalArgs(s, ins, c)
		}
		return []lockSt{s}
	}
	var out []lockSt
	seen := map[string]bool{}
	for _, t := range ts {
		L.calls++
		held, back := translateAll(s.held, t)
		fresh := map[string]bool{}
		for i, a := range t.args {
			if f.isFresh(a) {
				fresh[fmt.Sprintf("p%d", i)] = true
			}
		}
		for i, a := range t.fvs {
			if f.isFresh(a) {
				fresh[fmt.Sprintf("f%d", i)] = true
			}
		}
		r := L.run(t.fn, held, fresh, f.passFns(t, c.Args))
		for _, e := range r.exits {
			n := lockSt{defers: s.defers}
			for _, h := range e.held {
				if o, ok := back[h.path]; ok {
					n = n.with(o)
				} else {
					n = n.with(untranslate(h, t))
				}
			}
			if !seen[n.key()] {
				seen[n.key()] = true
				out = append(out, n)
			}
		}
	}
	return out
}

// isFresh: the object at the path was created in this call chain and not shared yet.
func (f *frame) isFresh(p string) bool {
	r := pathRoot(p)
	if f.fresh["!"+r] {
		return false
	}
	if f.fresh[r] {
		return true
	}
	return strings.HasPrefix(r, "a:") || strings.HasPrefix(r, "new:")
}

// external: a function outside the module. Function arguments run inside the call.
func (f *frame) external(s lockSt, ins ssa.Instruction, c *ssa.CallCommon, sf *ssa.Function) []lockSt {
	name := sf.String()
	switch name {
	case "time.Sleep", "(*sync.WaitGroup).Wait":
		f.blocking(s, "a call of "+name, ins.Pos())
	}
	if strings.HasPrefix(name, "sync/atomic.") && len(c.Args) > 0 {
		if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
			if t, fld, ok := fieldOfAddr(fa); ok {
				k := modName(typeKey(t)) + "." + fld
				if _, seen := f.L.atomics[k]; !seen {
					f.L.atomics[k] = ins.Pos()
				}
			}
		}
		return []lockSt{s}
	}
	if name == "time.AfterFunc" {
		for _, a := range c.Args {
			for _, t := range f.funcArg(a) {
				f.L.topWith(t.fn, f.passFns(t, nil))
			}
		}
		return []lockSt{s}
	}
	if sf.Signature.Recv() != nil && len(c.Args) > 0 && containerType(c.Args[0].Type()) {
		f.content(s, c.Args[0], !pureName(sf.Name()), ins.Pos())
	}
	return f.externalArgs(s, ins, c)
}

func (f *frame) externalArgs(s lockSt, ins ssa.Instruction, c *ssa.CallCommon) []lockSt {
	for _, a := range c.Args {
		for _, t := range f.funcArg(a) {
			f.call1(s, t)
		}
	}
	return []lockSt{s}
}

func (f *frame) call1(s lockSt, t target) {
	held, _ := translateAll(s.held, t)
	fresh := map[string]bool{}
	for i, a := range t.fvs {
		if f.isFresh(a) {
			fresh[fmt.Sprintf("f%d", i)] = true
		}
	}
	f.L.calls++
	f.L.run(t.fn, held, fresh, f.passFns(t, nil))
}

func (f *frame) funcArg(a ssa.Value) []target {
	switch v := a.(type) {
	case *ssa.MakeClosure:
		var fv []string
		for _, b := range v.Bindings {
			fv = append(fv, f.pc.path(b))
		}
		return []target{{v.Fn.(*ssa.Function), nil, fv}}
	case *ssa.Function:
		if v.Blocks != nil {
			return []target{{v, nil, nil}}
		}
	case *ssa.ChangeType:
		return f.funcArg(v.X)
	}
	return nil
}

func containerType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return strings.Contains(p, "deque") || strings.HasPrefix(p, "container/") || strings.HasSuffix(p, "/rand") || p == "bytes" || p == "strings" && n.Obj().Name() == "Builder"
}

func pureName(n string) bool {
	switch n {
	case "Len", "Cap", "At", "Front", "Back", "Get", "String", "Bytes", "Index", "RIndex", "Value", "Next", "Prev", "Iter", "RIter":
		return true
	}
	return false
}

// ---- field accesses ----

// ownerField: the outermost struct field an address lies in.
func ownerField(v ssa.Value) (*ssa.FieldAddr, bool) {
	var last *ssa.FieldAddr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			last = x
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X // an array inside the struct
				continue
			}
			return last, last != nil
		default:
			return last, last != nil
		}
	}
}

func (f *frame) record(s lockSt, fa *ssa.FieldAddr, write, deep bool, pos token.Pos, ins ssa.Instruction) {
	t, fld, ok := fieldOfAddr(fa)
	if !ok || libTest(f.fn) {
		return
	}
	st := structOf(t)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fld && syncType(st.Field(i).Type()) {
			return
		}
	}
	f.recordAt(s, t, fld, f.pc.path(fa.X), write, deep, pos, fa.Pos(), ins)
}

func (f *frame) recordAt(s lockSt, t types.Type, fld, base string, write, deep bool, pos, alt token.Pos, ins ssa.Instruction) {
	if f.isFresh(base) {
		return
	}
	g := map[string]int{}
	r := pathRoot(base)
	for _, h := range s.held {
		if strings.HasPrefix(h.path, base+".") || pathRoot(h.path) == r {
			if g[h.class] < h.mode {
				g[h.class] = h.mode
			}
		}
	}
	if !pos.IsValid() {
		pos = alt
	}
	k := fmt.Sprint(typeKey(t), fld, write, deep, g, pos)
	if f.L.accSeen[k] {
		return
	}
	f.L.accSeen[k] = true
	f.L.accesses = append(f.L.accesses, access{modName(typeKey(t)), fld, write, g, pos, f.fn, deep, write && startsGoroutine(ins)})
}

func (f *frame) load(s lockSt, x *ssa.UnOp) {
	if fa, ok := ownerField(x.X); ok {
		f.record(s, fa, false, false, x.Pos(), x)
	}
	if ia, ok := x.X.(*ssa.IndexAddr); ok {
		f.content(s, ia.X, false, x.Pos())
	}
}

func (f *frame) store(s lockSt, addr ssa.Value, pos token.Pos, ins ssa.Instruction) {
	if fa, ok := ownerField(addr); ok {
		f.record(s, fa, true, false, pos, ins)
		return
	}
	// through the elements of a slice held in a field
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			f.content(s, x.X, true, pos)
		}
		return
	}
}

// content: the map, slice or container v was loaded from a field; its contents are accessed.
func (f *frame) content(s lockSt, v ssa.Value, write bool, pos token.Pos) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.Call:
			// a method that hands out the contents of a field
			sf := x.Common().StaticCallee()
			if sf == nil || libTest(f.fn) {
				return
			}
			if fa := f.L.accessor(sf); fa != nil {
				t, fld, _ := fieldOfAddr(fa)
				if i := paramIndex(sf, fa.X); i >= 0 && i < len(x.Common().Args) {
					f.recordAt(s, t, fld, f.pc.path(x.Common().Args[i]), write, true, pos, x.Pos(), nil)
				}
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok {
					if sv := onlyStore(a); sv != nil {
						v = sv
						continue
					}
				}
				if fa, ok := ownerField(x.X); ok {
					switch x.Type().Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer, *types.Interface:
						f.record(s, fa, write, true, pos, nil)
					}
				}
			}
		}
		return
	}
}

// startsGoroutine: a go statement can follow the instruction in its function.
func startsGoroutine(ins ssa.Instruction) bool {
	if ins == nil {
		return false
	}
	b := ins.Block()
	after := false
	for _, i := range b.Instrs {
		if i == ins {
			after = true
		} else if _, ok := i.(*ssa.Go); ok && after {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, i := range x.Instrs {
			if _, ok := i.(*ssa.Go); ok {
				return true
			}
		}
		work = append(work, x.Succs...)
	}
	return false
}

// leaks: where the slice or map held in one of the given fields is returned by a function
// that outside code calls, or stored elsewhere, sent or given to a goroutine.
func (L *LockFacts) findLeaks(guarded map[string]bool) {
	for _, f := range L.P.funcs {
		if libTest(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				switch u.Type().Underlying().(type) {
				case *types.Slice, *types.Map:
				default:
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t, fld, ok := fieldOfAddr(fa)
				if !ok || !guarded[modName(typeKey(t))+"."+fld] {
					continue
				}
				L.leaksOf(f, u, fa, modName(typeKey(t)), fld)
			}
		}
	}
}

func (L *LockFacts) leaksOf(f *ssa.Function, u *ssa.UnOp, fa *ssa.FieldAddr, owner, field string) {
	L.leaksFrom(f, u, u, fa, owner, field, 0)
}

// callers: the static call sites of a function.
func (L *LockFacts) callers(f *ssa.Function) []*ssa.Call {
	if L.sites == nil {
		L.sites = map[*ssa.Function][]*ssa.Call{}
		for _, g := range L.P.funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(*ssa.Call); ok {
						if sf := c.Common().StaticCallee(); sf != nil {
							L.sites[sf] = append(L.sites[sf], c)
						}
					}
				}
			}
		}
	}
	return L.sites[f]
}

func (L *LockFacts) leaksFrom(f *ssa.Function, start ssa.Value, u *ssa.UnOp, fa *ssa.FieldAddr, owner, field string, depth int) {
	if depth > 5 {
		return
	}
	seen := map[ssa.Value]bool{}
	outside := token.IsExported(f.Name()) || f.Parent() != nil
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			how := ""
			switch x := r.(type) {
			case *ssa.Slice:
				if x.X == v {
					follow(x)
				}
			case *ssa.Phi:
				follow(x)
			case *ssa.ChangeType:
				follow(x)
			case *ssa.MakeInterface:
				follow(x)
			case *ssa.Return:
				if outside {
					how = "returned"
					break
				}
				for i, res := range x.Results {
					if res != v {
						continue
					}
					for _, c := range L.callers(f) {
						if x.Parent().Signature.Results().Len() == 1 {
							L.leaksFrom(c.Parent(), c, u, fa, owner, field, depth+1)
							continue
						}
						for _, rr := range *c.Referrers() {
							if e, ok := rr.(*ssa.Extract); ok && e.Index == i {
								L.leaksFrom(c.Parent(), e, u, fa, owner, field, depth+1)
							}
						}
					}
				}
			case *ssa.Send:
				if x.X == v {
					how = "sent"
				}
			case *ssa.Go:
				how = "given to a goroutine"
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if a, ok := x.Addr.(*ssa.FieldAddr); ok {
					if t, fld, ok := fieldOfAddr(a); ok && modName(typeKey(t)) == owner && fld == field {
						continue // kept in the same field
					}
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
					for _, rr := range *a.Referrers() {
						if l, ok := rr.(*ssa.UnOp); ok {
							follow(l)
						}
					}
					continue
				}
				how = "stored elsewhere"
			}
			if how != "" && !replaced(f, u, fa, seen) {
				L.leaks = append(L.leaks, leak{owner, field, how, r.Pos(), f})
			}
		}
	}
	follow(start)
}

// replaced: the function gives the field other contents, so that what it loaded is handed over.
func replaced(f *ssa.Function, u *ssa.UnOp, fa *ssa.FieldAddr, same map[ssa.Value]bool) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || a.Field != fa.Field || a.X.Type() != fa.X.Type() {
				continue
			}
			fresh := false
			switch st.Val.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const:
				fresh = true
			case *ssa.Slice:
				_, fresh = st.Val.(*ssa.Slice).X.(*ssa.Alloc)
			}
			if fresh && !same[st.Val] {
				return true
			}
		}
	}
	return false
}

// accessor: the field of a parameter whose slice or map a function returns.
func (L *LockFacts) accessor(fn *ssa.Function) *ssa.FieldAddr {
	if r, ok := L.access[fn]; ok {
		return r
	}
	L.access[fn] = nil
	if fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
		return nil
	}
	switch fn.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return nil
	}
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := r.Results[0]
		for {
			if sl, ok := v.(*ssa.Slice); ok {
				v = sl.X
				continue
			}
			break
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && paramIndex(fn, fa.X) >= 0 {
				L.access[fn] = fa
				return fa
			}
		}
	}
	return nil
}

func paramIndex(fn *ssa.Function, v ssa.Value) int {
	for i, p := range fn.Params {
		if v == ssa.Value(p) {
			return i
		}
	}
	return -1
}
