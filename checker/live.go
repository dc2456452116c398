package main

// Liveness analysis: which cycles of a function end, and what every wait waits for.
// A cycle is settled by a block that lies on it and either counts towards a fixed bound
// or leaves the cycle when a context is cancelled, a deadline passes or a channel is closed.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Live struct {
	P       *Program
	sites   map[*ssa.Function][]ssa.CallInstruction // static calls, go and defer
	values  map[*ssa.Function][]ssa.Instruction     // other uses of a function
	stores  map[string][]ssa.Value                  // field -> values stored
	closes  map[string][]*ssa.Function              // field of a channel -> functions that close it
	waits   map[*ssa.Function]int                   // 1 busy, 2 no, 3 yes
	outs    map[*ssa.Function]*doneSum
	fstores map[*ssa.Function]map[string]bool
}

func (P *Program) live() *Live {
	L := &Live{P: P, sites: map[*ssa.Function][]ssa.CallInstruction{}, values: map[*ssa.Function][]ssa.Instruction{}, stores: map[string][]ssa.Value{},
		closes: map[string][]*ssa.Function{}, waits: map[*ssa.Function]int{}, outs: map[*ssa.Function]*doneSum{}, fstores: map[*ssa.Function]map[string]bool{}}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if sf := c.Common().StaticCallee(); sf != nil {
						L.sites[sf] = append(L.sites[sf], c)
					}
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if k := chanKey(c.Common().Args[0]); k != "" {
							L.closes[k] = append(L.closes[k], f)
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isC := ins.(ssa.CallInstruction); isC && op == &c.Common().Value {
							continue
						}
						L.values[g] = append(L.values[g], ins)
					}
				}
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if t, fld, ok := fieldOfAddr(fa); ok {
							k := fieldKey(t, fld)
							L.stores[k] = append(L.stores[k], st.Val)
						}
					}
				}
			}
		}
	}
	return L
}

// chanKey names a channel held in a field.
func chanKey(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				if t, f, ok := fieldOfAddr(fa); ok {
					return fieldKey(t, f)
				}
			}
		}
		return ""
	}
}

// origins follows a value through copies, captured variables, parameters and fields.
func (L *Live) origins(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if seen[v] || d > 30 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.ChangeType:
			walk(x.X, d+1)
			return
		case *ssa.ChangeInterface:
			walk(x.X, d+1)
			return
		case *ssa.MakeInterface:
			walk(x.X, d+1)
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.Alloc:
					n := 0
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
							walk(s.Val, d+1)
							n++
						}
					}
					if n > 0 {
						return
					}
				case *ssa.FreeVar:
					for _, b := range L.bindings(a) {
						if al, ok := b.(*ssa.Alloc); ok {
							for _, r := range *al.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
									walk(s.Val, d+1)
								}
							}
							continue
						}
						walk(b, d+1)
					}
					return
				case *ssa.FieldAddr:
					if t, f, ok := fieldOfAddr(a); ok {
						if vs := L.stores[fieldKey(t, f)]; len(vs) > 0 {
							for _, s := range vs {
								walk(s, d+1)
							}
							return
						}
					}
				}
			}
		case *ssa.FreeVar:
			if bs := L.bindings(x); len(bs) > 0 {
				for _, b := range bs {
					walk(b, d+1)
				}
				return
			}
		case *ssa.Parameter:
			i := paramIndex(x.Parent(), x)
			n := 0
			for _, c := range L.callsOf(x.Parent()) {
				as := c.Common().Args
				if i >= 0 && i < len(as) {
					walk(as[i], d+1)
					n++
				}
			}
			if token.IsExported(x.Parent().Name()) || n == 0 {
				out = append(out, x)
			}
			return
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if rs := L.results(c, x.Index); rs != nil {
					for _, r := range rs {
						walk(r, d+1)
					}
					return
				}
			}
		case *ssa.Call:
			if rs := L.results(x, 0); rs != nil {
				for _, r := range rs {
					walk(r, d+1)
				}
				return
			}
		}
		out = append(out, v)
	}
	walk(v, 0)
	return out
}

// results: what a module function returns, for calls of a known function.
func (L *Live) results(c *ssa.Call, idx int) []ssa.Value {
	f := L.callee(c.Common())
	if f == nil || f.Blocks == nil {
		return nil
	}
	var rs []ssa.Value
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			rs = append(rs, r.Results[idx])
		}
	}
	return rs
}

// callee: the one function a call reaches, also through a local variable.
func (L *Live) callee(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	v := c.Value
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := onlyStore(a); s != nil {
					v = s
					continue
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
				if bs := L.bindings(fv); len(bs) == 1 {
					if a, ok := bs[0].(*ssa.Alloc); ok {
						if s := onlyStore(a); s != nil {
							v = s
							continue
						}
					}
				}
			}
		case *ssa.FreeVar:
			if bs := L.bindings(x); len(bs) == 1 {
				v = bs[0]
				continue
			}
		}
		return nil
	}
	return nil
}

// callees: the module functions a call can reach.
func (L *Live) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := L.callee(c); f != nil {
		if f.Blocks == nil {
			return nil
		}
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, m := range L.P.funcs {
			if m.Signature.Recv() != nil && m.Name() == c.Method.Name() && it != nil && types.Implements(m.Signature.Recv().Type(), it) {
				out = append(out, m)
			}
		}
		return out
	}
	for _, o := range L.origins(c.Value) {
		switch x := o.(type) {
		case *ssa.Function:
			if x.Blocks != nil {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		}
	}
	return out
}

// callsOf: the calls that reach a function, also a closure held in a variable.
func (L *Live) callsOf(f *ssa.Function) []ssa.CallInstruction {
	out := append([]ssa.CallInstruction{}, L.sites[f]...)
	p := f.Parent()
	if p == nil {
		return out
	}
	for _, g := range append([]*ssa.Function{p}, p.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == nil && !c.Common().IsInvoke() {
					if L.callee(c.Common()) == f {
						out = append(out, c)
					}
				}
			}
		}
	}
	return out
}

func (L *Live) bindings(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	i := -1
	for k, x := range f.FreeVars {
		if x == fv {
			i = k
		}
	}
	var out []ssa.Value
	if f.Parent() == nil {
		// bound method wrappers have no parent: look everywhere
		for _, ins := range L.values[f] {
			if mc, ok := ins.(*ssa.MakeClosure); ok && i >= 0 {
				out = append(out, mc.Bindings[i])
			}
		}
		return out
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) && i >= 0 {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return out
}

// ---- what a channel is ----

type chanKind int

const (
	chData   chanKind = iota
	chDone            // a context's Done
	chTimer           // fires once: time.After, NewTimer, context deadline
	chTicker          // fires again and again
	chQuit            // closed by somebody
	chSignal
	chLost // Done of a context nobody can cancel
)

// kind classifies the channel, with the instruction that made a timer.
func (L *Live) kind(v ssa.Value) (chanKind, ssa.Instruction) {
	res := chData
	var at ssa.Instruction
	for i, o := range L.origins(v) {
		k, a := L.kind1(o)
		if i > 0 && k != res {
			return chData, nil
		}
		res, at = k, a
	}
	return res, at
}

func (L *Live) kind1(o ssa.Value) (chanKind, ssa.Instruction) {
	switch x := o.(type) {
	case *ssa.Call:
		c := x.Common()
		if c.IsInvoke() && c.Method.Name() == "Done" && isContext(c.Value.Type()) {
			if L.ctxLost(c.Value) {
				return chLost, x
			}
			return chDone, x
		}
		if sf := c.StaticCallee(); sf != nil {
			switch sf.String() {
			case "time.After":
				return chTimer, x
			case "time.Tick":
				return chTicker, x
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			t, f, _ := fieldOfAddr(fa)
			switch typeKey(t) + "." + f {
			case "time.Ticker.C":
				return chTicker, x
			case "time.Timer.C":
				for _, p := range L.origins(fa.X) {
					if c, ok := p.(*ssa.Call); ok {
						return chTimer, c
					}
				}
				return chTimer, x
			}
			if L.closed(fieldKey(t, f)) {
				return chQuit, x
			}
		}
	case *ssa.MakeChan:
		// held in a field that is closed, closed in its function, or registered for signals
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					t, f, _ := fieldOfAddr(fa)
					if L.closed(fieldKey(t, f)) {
						return chQuit, x
					}
				}
			}
			if c, ok := r.(ssa.CallInstruction); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					return chQuit, x
				}
			}
			if ct, ok := r.(*ssa.ChangeType); ok {
				for _, rr := range *ct.Referrers() {
					if c, ok := rr.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().String() == "os/signal.Notify" {
						return chSignal, x
					}
				}
			}
			if c, ok := r.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().String() == "os/signal.Notify" {
				return chSignal, x
			}
		}
	}
	return chData, nil
}

// closed: some function closes the channel in the field, and that function is used: called
// or handed over by the module, whenever the module itself makes the owner.
func (L *Live) closed(k string) bool {
	for _, f := range L.closes[k] {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if L.used(top) || !L.made(k) {
			return true
		}
	}
	return false
}

func (L *Live) used(f *ssa.Function) bool {
	for _, c := range L.sites[f] {
		if !libTest(c.Parent()) && c.Parent() != f {
			return true
		}
	}
	for _, v := range L.values[f] {
		if !libTest(v.Parent()) {
			return true
		}
	}
	return false
}

// made: the module itself creates the owner of the channel.
func (L *Live) made(k string) bool {
	for _, v := range L.stores[k] {
		ins, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		for _, c := range L.sites[ins.Parent()] {
			if !libTest(c.Parent()) {
				return true
			}
		}
	}
	return false
}

func isContext(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

// ctxRoots: the outermost contexts a context derives from.
func (L *Live) ctxRoots(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, o := range L.origins(v) {
			if seen[o] {
				continue
			}
			seen[o] = true
			var c *ssa.Call
			if e, ok := o.(*ssa.Extract); ok {
				c, _ = e.Tuple.(*ssa.Call)
			} else {
				c, _ = o.(*ssa.Call)
			}
			if c != nil {
				if sf := c.Common().StaticCallee(); sf != nil && strings.HasPrefix(sf.String(), "context.With") && sf.Name() != "WithoutCancel" {
					walk(c.Common().Args[0])
					continue
				}
			}
			out = append(out, o)
		}
	}
	walk(v)
	return out
}

// ctxLost: the context derives from one that nobody outside can cancel.
func (L *Live) ctxLost(v ssa.Value) bool {
	for _, r := range L.ctxRoots(v) {
		c, ok := r.(*ssa.Call)
		if !ok || c.Common().StaticCallee() == nil {
			continue
		}
		switch c.Common().StaticCallee().String() {
		case "context.Background", "context.TODO", "context.WithoutCancel":
			if c.Parent().Pkg == nil || c.Parent().Pkg.Pkg.Name() != "main" {
				return true
			}
		}
	}
	return false
}

// ---- walking on with known values ----

type lval struct {
	kind byte // 'b' bool, 'i' int, 'n' nil, 'x' non-nil
	n    int64
}

type lenv map[ssa.Value]lval

func (e lenv) key() string {
	var s []string
	for k, v := range e {
		s = append(s, fmt.Sprintf("%s=%c%d", k.Name(), v.kind, v.n))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (e lenv) get(v ssa.Value) (lval, bool) {
	if r, ok := e[v]; ok {
		return r, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
				return lval{'n', 0}, true
			}
			return lval{}, false
		}
		switch x.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return lval{'b', 1}, true
			}
			return lval{'b', 0}, true
		case constant.Int:
			n, ok := constant.Int64Val(x.Value)
			return lval{'i', n}, ok
		}
	case *ssa.MakeInterface:
		return lval{'x', 0}, true
	}
	return lval{}, false
}

func boolVal(b bool) lval {
	if b {
		return lval{'b', 1}
	}
	return lval{'b', 0}
}

func (e lenv) eval(ins ssa.Instruction) (lval, bool) {
	switch x := ins.(type) {
	case *ssa.BinOp:
		a, ok1 := e.get(x.X)
		b, ok2 := e.get(x.Y)
		if !ok1 || !ok2 {
			return lval{}, false
		}
		if (a.kind == 'n' || a.kind == 'x') && (b.kind == 'n' || b.kind == 'x') {
			if a.kind == 'x' && b.kind == 'x' {
				return lval{}, false
			}
			switch x.Op {
			case token.EQL:
				return boolVal(a.kind == b.kind), true
			case token.NEQ:
				return boolVal(a.kind != b.kind), true
			}
			return lval{}, false
		}
		switch x.Op {
		case token.EQL:
			return boolVal(a.n == b.n), true
		case token.NEQ:
			return boolVal(a.n != b.n), true
		case token.LSS:
			return boolVal(a.n < b.n), true
		case token.LEQ:
			return boolVal(a.n <= b.n), true
		case token.GTR:
			return boolVal(a.n > b.n), true
		case token.GEQ:
			return boolVal(a.n >= b.n), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if a, ok := e.get(x.X); ok {
				return boolVal(a.n == 0), true
			}
		}
	case *ssa.ChangeInterface:
		return e.get(x.X)
	case *ssa.Call:
		// the error of a cancelled context
		c := x.Common()
		if c.IsInvoke() && c.Method.Name() == "Err" && isContext(c.Value.Type()) {
			return lval{'x', 0}, true
		}
		if sf := c.StaticCallee(); sf != nil {
			switch sf.String() {
			case "context.Cause", "fmt.Errorf", "errors.New":
				return lval{'x', 0}, true
			}
		}
	}
	return lval{}, false
}

type walkRes struct {
	back    bool // the start was reached again
	returns [][]lval
	known   []bool
}

// walk runs on from just after instruction start with the given knowledge.
func (L *Live) walk(start ssa.Instruction, env lenv) walkRes {
	var res walkRes
	type st struct {
		b   *ssa.BasicBlock
		i   int
		env lenv
	}
	b0 := start.Block()
	i0 := 0
	for i, ins := range b0.Instrs {
		if ins == start {
			i0 = i + 1
		}
	}
	work := []st{{b0, i0, env}}
	seen := map[string]bool{}
	steps := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if steps++; steps > 3000 {
			res.back = true
			return res
		}
		e := lenv{}
		for k, v := range s.env {
			e[k] = v
		}
		stop := false
		for _, ins := range s.b.Instrs[s.i:] {
			if ins == start {
				res.back = true
				stop = true
				break
			}
			if v, ok := ins.(ssa.Value); ok {
				if _, isPhi := ins.(*ssa.Phi); !isPhi {
					if x, isX := ins.(*ssa.Extract); !isX || e[x] == (lval{}) {
						if r, ok := e.eval(ins); ok {
							e[v] = r
						} else if _, had := s.env[v]; had && s.i == 0 {
							delete(e, v)
						}
					}
				}
			}
			if r, ok := ins.(*ssa.Return); ok {
				var rv []lval
				for _, x := range r.Results {
					v, ok := e.get(x)
					if !ok {
						v = lval{'?', 0}
					}
					rv = append(rv, v)
				}
				res.returns = append(res.returns, rv)
			}
		}
		if stop {
			continue
		}
		succs := s.b.Succs
		if f, ok := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If); ok {
			if v, ok := e.get(f.Cond); ok && v.kind == 'b' {
				if v.n != 0 {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, n := range succs {
			ne := lenv{}
			for k, v := range e {
				ne[k] = v
			}
			for pi, p := range n.Preds {
				if p != s.b {
					continue
				}
				for _, ins := range n.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if v, ok := e.get(ph.Edges[pi]); ok {
						ne[ph] = v
					} else {
						delete(ne, ph)
					}
				}
				break
			}
			k := fmt.Sprint(n.Index, ne.key())
			if !seen[k] {
				seen[k] = true
				work = append(work, st{n, 0, ne})
			}
		}
	}
	return res
}

// doneSum: what a function returns once its context is done, and whether every path
// through it looks at the context.
type doneSum struct {
	busy    bool
	must    bool
	returns [][]lval
}

// doneEvent: an instruction that notices cancellation (or a deadline made outside the
// given blocks), with what is known afterwards. One environment per outcome.
func (L *Live) doneEvent(ins ssa.Instruction, in map[*ssa.BasicBlock]bool) []lenv {
	switch x := ins.(type) {
	case *ssa.Select:
		for k, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			kd, at := L.kind(s.Chan)
			if kd == chTimer && (at == nil || in[at.Block()] && at.Parent() == ins.Parent()) {
				continue
			}
			if kd != chDone && kd != chTimer && kd != chQuit {
				continue
			}
			e := lenv{}
			for _, r := range *x.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok {
					if ex.Index == 0 {
						e[ex] = lval{'i', int64(k)}
					} else if ex.Index == 1 && kd != chTimer {
						e[ex] = lval{'b', 0}
					}
				}
			}
			return []lenv{e}
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW && x.CommaOk {
			if kd, _ := L.kind(x.X); kd == chQuit || kd == chDone {
				e := lenv{}
				for _, r := range *x.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == 1 {
						e[ex] = lval{'b', 0}
					}
				}
				return []lenv{e}
			}
		}
	case *ssa.Call:
		c := x.Common()
		if c.IsInvoke() && c.Method.Name() == "Err" && isContext(c.Value.Type()) && !L.ctxLost(c.Value) {
			return []lenv{{x: lval{'x', 0}}}
		}
		f := L.callee(c)
		if f == nil || f.Blocks == nil || !inModule(f) {
			return nil
		}
		s := L.done(f)
		if s.busy || !s.must || len(s.returns) == 0 {
			return nil
		}
		var out []lenv
		for _, r := range s.returns {
			e := lenv{}
			if len(r) == 1 && r[0].kind != '?' {
				e[x] = r[0]
			}
			for _, rr := range *x.Referrers() {
				if ex, ok := rr.(*ssa.Extract); ok && r[ex.Index].kind != '?' {
					e[ex] = r[ex.Index]
				}
			}
			out = append(out, e)
		}
		return out
	}
	return nil
}

func (L *Live) done(f *ssa.Function) *doneSum {
	if s, ok := L.outs[f]; ok {
		return s
	}
	s := &doneSum{busy: true}
	L.outs[f] = s
	ev := map[*ssa.BasicBlock]bool{}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		all[b] = true
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, e := range L.doneEvent(ins, all) {
				ev[b] = true
				s.returns = append(s.returns, L.walk(ins, e).returns...)
			}
		}
	}
	// every path from the entry to a return passes an event
	s.must = true
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || ev[b] {
			continue
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			s.must = false
		}
		work = append(work, b.Succs...)
	}
	s.busy = false
	return s
}

// ---- cycles ----

// sccs: the strongly connected parts of the given blocks that contain a cycle.
func sccs(blocks map[*ssa.BasicBlock]bool) [][]*ssa.BasicBlock {
	var order []*ssa.BasicBlock
	for b := range blocks {
		order = append(order, b)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Index < order[j].Index })
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	n := 0
	var out [][]*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		n++
		index[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		self := false
		for _, s := range b.Succs {
			if !blocks[s] {
				continue
			}
			if s == b {
				self = true
			}
			if index[s] == 0 {
				visit(s)
				low[b] = min(low[b], low[s])
			} else if on[s] {
				low[b] = min(low[b], index[s])
			}
		}
		if low[b] == index[b] {
			var c []*ssa.BasicBlock
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				c = append(c, x)
				if x == b {
					break
				}
			}
			if len(c) > 1 || self {
				sort.Slice(c, func(i, j int) bool { return c[i].Index < c[j].Index })
				out = append(out, c)
			}
		}
	}
	for _, b := range order {
		if index[b] == 0 {
			visit(b)
		}
	}
	return out
}

const endsWithOwner = "ends when the context, the deadline or the owner does"

type loopRes struct {
	head    *ssa.BasicBlock
	ok      bool
	how     string
	waiting bool
	pos     token.Pos
}

// loops decides every cycle of f. With cancel, a cycle that waits must be left when the
// context is cancelled; counting is not enough.
func (L *Live) loops(f *ssa.Function, cancel bool) []loopRes {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		all[b] = true
	}
	var out []loopRes
	var rec func(blocks map[*ssa.BasicBlock]bool)
	rec = func(blocks map[*ssa.BasicBlock]bool) {
		for _, c := range sccs(blocks) {
			in := map[*ssa.BasicBlock]bool{}
			for _, b := range c {
				in[b] = true
			}
			settled := map[*ssa.BasicBlock]string{}
			waiting := L.waitsIn(c)
			for _, b := range c {
				if h := L.settles(b, in); h != "" && (!cancel || !waiting || h == endsWithOwner) {
					settled[b] = h
				}
			}
			r := loopRes{head: c[0], ok: len(settled) > 0, waiting: waiting, pos: blockPos(c[0])}
			how := map[string]bool{}
			for _, h := range settled {
				how[h] = true
			}
			r.how = strings.Join(keysSorted(how), ", ")
			out = append(out, r)
			if !r.ok {
				continue
			}
			rest := map[*ssa.BasicBlock]bool{}
			for _, b := range c {
				if settled[b] == "" {
					rest[b] = true
				}
			}
			rec(rest)
		}
	}
	rec(all)
	return out
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, ins := range s.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// settles: why no execution passes block b of the cycle for ever.
func (L *Live) settles(b *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) string {
	for _, ins := range b.Instrs {
		evs := L.doneEvent(ins, in)
		if len(evs) == 0 {
			continue
		}
		good := true
		for _, e := range evs {
			if L.walk(ins, e).back {
				good = false
			}
		}
		if good {
			return endsWithOwner
		}
	}
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	exit := -1
	for i, s := range b.Succs {
		if !in[s] {
			exit = i
		}
	}
	if exit < 0 {
		return ""
	}
	return L.bounded(f.Cond, exit == 0, in)
}

// bounded: the cycle leaves through this test after finitely many rounds.
func (L *Live) bounded(cond ssa.Value, exitOnTrue bool, in map[*ssa.BasicBlock]bool) string {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return L.bounded(x.X, !exitOnTrue, in)
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 && !exitOnTrue {
			if r, ok := nx.Iter.(*ssa.Range); ok && !in[r.Block()] {
				if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
					for b := range in {
						for _, ins := range b.Instrs {
							if mu, ok := ins.(*ssa.MapUpdate); ok && mu.Map == r.X {
								return ""
							}
						}
					}
				}
				return "ranges over a collection"
			}
		}
	case *ssa.Call:
		if n := calleeName(x.Common()); strings.Contains(n, "CompareAndSwap") && exitOnTrue {
			return "retries until no other update intervened"
		}
	case *ssa.BinOp:
		op := x.Op
		if exitOnTrue {
			op = negate(op)
		}
		// the loop goes on while X op Y
		if h := L.counts(x.X, x.Y, op, in); h != "" {
			return h
		}
		if h := L.counts(x.Y, x.X, flip(op), in); h != "" {
			return h
		}
		if L.drains(x.X, op, in) && L.invariant(x.Y, in, 0) || L.drains(x.Y, flip(op), in) && L.invariant(x.X, in, 0) {
			return "takes from a queue nothing is added to"
		}
		if L.drawn(x.X, in, 0) || L.drawn(x.Y, in, 0) {
			return "draws until a random value is accepted"
		}
	}
	return ""
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// counts: v changes in one direction in every round and the loop goes on while v op bound.
func (L *Live) counts(v, bound ssa.Value, op token.Token, in map[*ssa.BasicBlock]bool) string {
	if !L.invariant(bound, in, 0) {
		return ""
	}
	ph, off := counter(v)
	if ph == nil || !in[ph.Block()] {
		return ""
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	isFloat := false
	if b, ok := ph.Type().Underlying().(*types.Basic); ok {
		isFloat = b.Info()&types.IsFloat != 0
	}
	for i, e := range ph.Edges {
		if !in[ph.Block().Preds[i]] {
			if isFloat {
				a, z := L.frange(e, 0)
				if !(a > -1e9 && z < 1e9) {
					return ""
				}
			}
			continue
		}
		dl := &deltas{ph: ph, in: in, busy: map[ssa.Value]bool{}}
		if off == 0 && (op == token.LSS || op == token.NEQ && isLen(v)) {
			dl.above = bound
		}
		if c, ok := constNum(bound); ok && off == 0 && (op == token.GTR && c >= 0 || op == token.GEQ && c >= 1 || op == token.NEQ && c == 0 && isLen(v)) {
			dl.positive = true
		}
		a, z, ok := dl.of(e)
		if !ok {
			return ""
		}
		lo, hi = math.Min(lo, a), math.Max(hi, z)
	}
	if isFloat && math.Min(math.Abs(lo), math.Abs(hi)) < 1e-3 {
		return ""
	}
	up := lo > 0 && (op == token.LSS || op == token.LEQ || op == token.NEQ && lo == 1 && hi == 1)
	down := hi < 0 && (op == token.GTR || op == token.GEQ || op == token.NEQ && (lo == -1 && hi == -1 || isLen(v)))
	if up || down {
		return "counts towards a fixed bound"
	}
	// progress only in the rounds whose random draw is accepted
	if (lo >= 0 && hi > 0 && (op == token.LSS || op == token.LEQ) || hi <= 0 && lo < 0 && (op == token.GTR || op == token.GEQ)) && L.enough(in, bound, ph) {
		return "draws until enough random values were accepted"
	}
	return ""
}

// counter: the loop variable a compared value is, give or take a constant.
func counter(v ssa.Value) (*ssa.Phi, float64) {
	off := 0.0
	for i := 0; i < 5; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			return x, off
		case *ssa.BinOp:
			if c, ok := constNum(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				if x.Op == token.SUB {
					c = -c
				}
				off += c
				v = x.X
				continue
			}
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Call:
			if isLen(x) {
				v = x.Common().Args[0]
				continue
			}
		}
		return nil, 0
	}
	return nil, 0
}

// isLen: the length of a slice or string.
func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || calleeBuiltin(c) != "len" {
		return false
	}
	switch c.Common().Args[0].Type().Underlying().(type) {
	case *types.Slice, *types.Basic:
		return true
	}
	return false
}

func constNum(v ssa.Value) (float64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	switch c.Value.Kind() {
	case constant.Int, constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return f, true
	}
	return 0, false
}

// deltas: the change of a loop variable (a number, or the length of a slice) along a back
// edge, as an interval.
type deltas struct {
	ph       *ssa.Phi
	in       map[*ssa.BasicBlock]bool
	busy     map[ssa.Value]bool
	above    ssa.Value // the loop goes on only while the variable is below this
	positive bool      // the loop goes on only while the variable is positive
}

func (d *deltas) of(v ssa.Value) (float64, float64, bool) {
	if v == ssa.Value(d.ph) {
		return 0, 0, true
	}
	if d.above != nil && sameRead(v, d.above) {
		return 1, math.Inf(1), true
	}
	if d.busy[v] {
		return 0, 0, false
	}
	d.busy[v] = true
	defer delete(d.busy, v)
	join := func(vs []ssa.Value) (float64, float64, bool) {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, e := range vs {
			if e == v {
				continue
			}
			a, z, ok := d.of(e)
			if !ok {
				return 0, 0, false
			}
			lo, hi = math.Min(lo, a), math.Max(hi, z)
		}
		return lo, hi, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return 0, 0, false
		}
		if c, e, ok := d.num(x.Y, 0); ok {
			if x.Op == token.SUB {
				c, e = -e, -c
			}
			a, z, ok := d.of(x.X)
			return a + c, z + e, ok
		}
		if c, e, ok := d.num(x.X, 0); ok && x.Op == token.ADD {
			a, z, ok := d.of(x.Y)
			return a + c, z + e, ok
		}
	case *ssa.Slice:
		a, z, ok := d.of(x.X)
		if !ok || x.Max != nil {
			return 0, 0, false
		}
		if x.High != nil {
			// at most as long as before when it ends within it
			if b, ok := x.High.(*ssa.BinOp); !ok || b.Op != token.SUB || !isLen(b.X) || b.X.(*ssa.Call).Common().Args[0] != x.X {
				return 0, 0, false
			} else if c, e, ok := d.num(b.Y, 0); !ok || c < 0 {
				return 0, 0, false
			} else {
				a, z = a-e, z-c
			}
		}
		if x.Low == nil {
			return a, z, true
		}
		c, e, ok := d.num(x.Low, 0)
		return a - e, z - c, ok
	case *ssa.Call:
		if as := oneOf(x); as != nil {
			return join(as)
		}
	case *ssa.Phi:
		if !d.in[x.Block()] {
			return 0, 0, false
		}
		for i := range x.Edges {
			if !d.in[x.Block().Preds[i]] {
				return 0, 0, false
			}
		}
		return join(x.Edges)
	}
	return 0, 0, false
}

// num: bounds of a step.
func (d *deltas) num(v ssa.Value, depth int) (float64, float64, bool) {
	if c, ok := constNum(v); ok {
		return c, c, true
	}
	if depth > 4 {
		return 0, 0, false
	}
	join := func(vs []ssa.Value) (float64, float64, bool) {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, e := range vs {
			a, z, ok := d.num(e, depth+1)
			if !ok {
				return 0, 0, false
			}
			lo, hi = math.Min(lo, a), math.Max(hi, z)
		}
		return lo, hi, true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if as := oneOf(x); as != nil {
			return join(as)
		}
		if isLen(x) {
			if d.positive && x.Common().Args[0] == ssa.Value(d.ph) {
				return 1, math.Inf(1), true
			}
			return 0, math.Inf(1), true
		}
	case *ssa.Phi:
		if d.in[x.Block()] && x != d.ph {
			return join(x.Edges)
		}
	}
	return 0, 0, false
}

// oneOf: the arguments one of which the call returns.
func oneOf(x *ssa.Call) []ssa.Value {
	if n := calleeBuiltin(x); n == "min" || n == "max" {
		return x.Common().Args
	}
	f := x.Common().StaticCallee()
	if f == nil || !inModule(f) || f.Blocks == nil || f.Signature.Results().Len() != 1 {
		return nil
	}
	var out []ssa.Value
	var add func(v ssa.Value) bool
	add = func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				if e == v || !add(e) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			i := paramIndex(f, y)
			if i < 0 {
				return false
			}
			out = append(out, x.Common().Args[i])
			return true
		case *ssa.Call:
			as := oneOf(y)
			if as == nil {
				return false
			}
			for _, a := range as {
				if !add(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	if loopy(f) {
		return nil
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !add(r.Results[0]) {
				return nil
			}
		}
	}
	return out
}

func loopy(f *ssa.Function) bool {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		in[b] = true
	}
	return len(sccs(in)) > 0
}

// sameRead: two instructions that read the same thing, which does not change.
func sameRead(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
		w, ok := b.(*ssa.UnOp)
		if !ok || w.Op != token.MUL {
			return false
		}
		f, ok1 := u.X.(*ssa.FieldAddr)
		g, ok2 := w.X.(*ssa.FieldAddr)
		return ok1 && ok2 && f.X == g.X && f.Field == g.Field
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	return ok1 && ok2 && isLen(x) && isLen(y) && x.Common().Args[0] == y.Common().Args[0]
}

// invariant: the value does not change while the cycle runs.
func (L *Live) invariant(v ssa.Value, in map[*ssa.BasicBlock]bool, d int) bool {
	if d > 8 {
		return false
	}
	ins, ok := v.(ssa.Instruction)
	if !ok || !in[ins.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
			for _, a := range x.Common().Args {
				if _, isC := a.Type().Underlying().(*types.Chan); isC || !L.invariant(a, in, d+1) {
					return false
				}
				// a map grows in place
				if _, isM := a.Type().Underlying().(*types.Map); isM {
					return false
				}
			}
			return true
		}
		if q := queueLen(x); q != nil {
			return L.invariant(q, in, d+1) && !L.queueOps(in, q, nil)
		}
		if g := x.Common().StaticCallee(); g != nil && inModule(g) && g.Blocks != nil && d < 3 {
			for _, a := range x.Common().Args {
				if !L.invariant(a, in, d+1) {
					return false
				}
			}
			return L.readsFixed(g, in, d+1)
		}
	case *ssa.BinOp:
		return L.invariant(x.X, in, d+1) && L.invariant(x.Y, in, d+1)
	case *ssa.Convert:
		return L.invariant(x.X, in, d+1)
	case *ssa.Field:
		return L.invariant(x.X, in, d+1)
	case *ssa.Extract:
		return false
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return L.invariant(x.X, in, d+1)
		}
		if x.Op != token.MUL {
			return false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if !L.invariant(fa.X, in, d+1) {
				return false
			}
			t, f, _ := fieldOfAddr(fa)
			return !L.storesIn(in, fieldKey(t, f))
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if in[y.Block()] {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
		if _, ok := x.X.(*ssa.Global); ok {
			return true
		}
	case *ssa.FieldAddr:
		return L.invariant(x.X, in, d+1)
	}
	return false
}

// queueLen: the queue whose length a call of the queue library takes.
func queueLen(c *ssa.Call) ssa.Value {
	g := c.Common().StaticCallee()
	if g == nil || g.Name() != "Len" || !isQueueOp(g) || len(c.Common().Args) != 1 {
		return nil
	}
	return c.Common().Args[0]
}

func isQueueOp(g *ssa.Function) bool {
	if g.Signature.Recv() == nil {
		return false
	}
	t := g.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == "Deque" && strings.Contains(n.Obj().Pkg().Path(), "deque")
}

// queueOps: the blocks, or functions they call, change a queue otherwise than by the
// allowed operations.
func (L *Live) queueOps(in map[*ssa.BasicBlock]bool, q ssa.Value, allowed map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var changes func(ins ssa.Instruction) bool
	changes = func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		c := ci.Common()
		if g := c.StaticCallee(); g != nil && isQueueOp(g) {
			switch g.Name() {
			case "Len", "Cap", "At", "Front", "Back", "Index", "RIndex":
				return false
			}
			return !allowed[g.Name()]
		}
		for _, g := range L.callees(c) {
			if seen[g] {
				continue
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, i2 := range b.Instrs {
					if changes(i2) {
						return true
					}
				}
			}
		}
		return false
	}
	for b := range in {
		for _, ins := range b.Instrs {
			if changes(ins) {
				return true
			}
		}
	}
	return false
}

// drains: the loop goes on while a queue is longer than a bound, takes from it in every
// round and never adds to it.
func (L *Live) drains(v ssa.Value, op token.Token, in map[*ssa.BasicBlock]bool) bool {
	c, ok := v.(*ssa.Call)
	if !ok || op != token.GTR && op != token.GEQ && op != token.NEQ {
		return false
	}
	q := queueLen(c)
	pops := map[string]bool{"PopFront": true, "PopBack": true}
	if q == nil || !L.invariant(q, in, 0) || L.queueOps(in, q, pops) {
		return false
	}
	rest := map[*ssa.BasicBlock]bool{}
	for b := range in {
		rest[b] = true
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.Call); ok {
				if g := x.Common().StaticCallee(); g != nil && isQueueOp(g) && pops[g.Name()] && (x.Common().Args[0] == q || sameRead(x.Common().Args[0], q)) {
					delete(rest, b)
				}
			}
		}
	}
	for _, cy := range sccs(rest) {
		for _, b := range cy {
			if b == c.Block() {
				return false
			}
		}
	}
	return true
}

// readsFixed: what the function returns depends only on its arguments and on fields the
// cycle does not assign.
func (L *Live) readsFixed(g *ssa.Function, in map[*ssa.BasicBlock]bool, d int) bool {
	if d > 3 || loopy(g) {
		return false
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Field, *ssa.FieldAddr, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
				if x.Op == token.MUL {
					fa, ok := x.X.(*ssa.FieldAddr)
					if !ok {
						return false
					}
					t, f, ok := fieldOfAddr(fa)
					if !ok || L.storesIn(in, fieldKey(t, f)) {
						return false
					}
				}
			case *ssa.Call:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max":
						for _, a := range x.Common().Args {
							switch a.Type().Underlying().(type) {
							case *types.Chan, *types.Map:
								return false
							}
						}
						continue
					}
					return false
				}
				if q := queueLen(x); q != nil {
					if L.queueOps(in, q, nil) {
						return false
					}
					continue
				}
				h := x.Common().StaticCallee()
				if h == nil || !inModule(h) && !strings.HasPrefix(h.String(), "math.") || inModule(h) && (h.Blocks == nil || !L.readsFixed(h, in, d+1)) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// storesIn: the blocks, or functions they call, assign the field.
func (L *Live) storesIn(in map[*ssa.BasicBlock]bool, key string) bool {
	for b := range in {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if t, f, ok := fieldOfAddr(fa); ok && fieldKey(t, f) == key {
						return true
					}
				}
			case ssa.CallInstruction:
				for _, g := range L.callees(x.Common()) {
					if L.fieldStores(g)[key] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (L *Live) fieldStores(f *ssa.Function) map[string]bool {
	if m, ok := L.fstores[f]; ok {
		return m
	}
	m := map[string]bool{}
	L.fstores[f] = m
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if t, fl, ok := fieldOfAddr(fa); ok {
						m[fieldKey(t, fl)] = true
					}
				}
			case ssa.CallInstruction:
				for _, g := range L.callees(x.Common()) {
					for k := range L.fieldStores(g) {
						m[k] = true
					}
				}
			}
		}
	}
	return m
}

// isDraw: a call that returns a fresh random value.
func isDraw(ins ssa.Instruction) bool {
	c, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return false
	}
	p := pkgPath(f)
	return strings.HasSuffix(p, "internal/random") || strings.HasPrefix(p, "math/rand") || p == "crypto/rand"
}

// enough: the cycle draws members of a collection until it has found as many new ones as
// it wants, and it was entered only after the collection was seen to be larger than that.
func (L *Live) enough(in map[*ssa.BasicBlock]bool, bound ssa.Value, ph *ssa.Phi) bool {
	want := map[any]bool{}
	leaves(bound, want, 0)
	for i, e := range ph.Edges {
		if !in[ph.Block().Preds[i]] {
			leaves(e, want, 0)
		}
	}
	for b := range in {
		for _, ins := range b.Instrs {
			if !isDraw(ins) {
				continue
			}
			args := ins.(*ssa.Call).Common().Args
			if len(args) == 0 {
				continue
			}
			v := args[len(args)-1]
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
			}
			if isLen(v) && L.larger(b, v.(*ssa.Call).Common().Args[0], want, 0) {
				return true
			}
		}
	}
	return false
}

// reachesAround: block b can be reached without going from d to s.
func reachesAround(b, d, s *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b.Parent().Blocks[0]}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		for _, y := range x.Succs {
			if x != d || y != s {
				work = append(work, y)
			}
		}
	}
	return false
}

// leaves: the fields and values a number is computed from.
func leaves(v ssa.Value, out map[any]bool, d int) {
	if d > 6 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.BinOp:
		leaves(x.X, out, d+1)
		leaves(x.Y, out, d+1)
	case *ssa.Convert:
		leaves(x.X, out, d+1)
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		out[fieldKey(x.X.Type(), st.Field(x.Field).Name())] = true
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if t, f, ok := fieldOfAddr(fa); ok {
				out[fieldKey(t, f)] = true
				return
			}
		}
		out[v] = true
	default:
		out[v] = true
	}
}

// larger: block b is reached only where the collection was compared to be larger than some
// number that is not fixed, here or in every caller.
func (L *Live) larger(b *ssa.BasicBlock, coll ssa.Value, want map[any]bool, depth int) bool {
	for d := b.Idom(); d != nil; d = d.Idom() {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if d.Succs[0] == d.Succs[1] || reachesAround(b, d, s) {
				continue
			}
			bo, ok := i.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y, op := bo.X, bo.Y, bo.Op
			if k == 1 {
				op = negate(op)
			}
			if op == token.LSS {
				x, y, op = y, x, token.GTR
			}
			hit := false
			have := map[any]bool{}
			leaves(y, have, 0)
			for k := range have {
				hit = hit || want[k]
			}
			if hit && op == token.GTR && isLen(x) && x.(*ssa.Call).Common().Args[0] == coll {
				return true
			}
		}
	}
	f := b.Parent()
	i := paramIndex(f, coll)
	if i < 0 || depth > 3 || f.Object() != nil && f.Object().Exported() {
		return false
	}
	cs := L.callsOf(f)
	for _, c := range cs {
		up := map[any]bool{}
		for k := range want {
			if v, ok := k.(ssa.Value); ok {
				if j := paramIndex(f, v); j >= 0 && j < len(c.Common().Args) {
					leaves(c.Common().Args[j], up, 0)
				}
				continue
			}
			up[k] = true
		}
		if i >= len(c.Common().Args) || !L.larger(c.Block(), c.Common().Args[i], up, depth+1) {
			return false
		}
	}
	return len(cs) > 0
}

// drawn: the value comes from a draw inside the cycle.
func (L *Live) drawn(v ssa.Value, in map[*ssa.BasicBlock]bool, d int) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || d > 6 || !in[ins.Block()] {
		return false
	}
	if isDraw(ins) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return L.drawn(x.X, in, d+1) || L.drawn(x.Y, in, d+1)
	case *ssa.Convert:
		return L.drawn(x.X, in, d+1)
	case *ssa.Extract:
		return L.drawn(x.Tuple, in, d+1)
	}
	return false
}

// frange: bounds of a floating-point value from the functions it is made of.
func (L *Live) frange(v ssa.Value, d int) (float64, float64) {
	inf := math.Inf(1)
	if d > 10 {
		return -inf, inf
	}
	if c, ok := constNum(v); ok {
		return c, c
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, b := L.frange(x.X, d+1)
		p, q := L.frange(x.Y, d+1)
		switch x.Op {
		case token.ADD:
			return a + p, b + q
		case token.SUB:
			return a - q, b - p
		case token.MUL:
			if math.IsInf(a, 0) || math.IsInf(b, 0) || math.IsInf(p, 0) || math.IsInf(q, 0) {
				return -inf, inf
			}
			return min(a*p, a*q, b*p, b*q), max(a*p, a*q, b*p, b*q)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			a, b := L.frange(x.X, d+1)
			return -b, -a
		}
	case *ssa.Phi:
		lo, hi := inf, -inf
		for _, e := range x.Edges {
			if f, _ := counter(e); f == x {
				continue
			}
			a, b := L.frange(e, d+1)
			lo, hi = math.Min(lo, a), math.Max(hi, b)
		}
		// a loop that only wraps its variable stays where it started, or nearer
		return lo - 10, hi + 10
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return -inf, inf
		}
		switch f.String() {
		case "math.Atan2", "math.Atan", "math.Acos", "math.Asin":
			return -4, 4
		case "math.Sin", "math.Cos":
			return -1, 1
		case "math.Mod":
			p, q := L.frange(x.Common().Args[1], d+1)
			m := math.Max(math.Abs(p), math.Abs(q))
			return -m, m
		case "math.Abs":
			a, b := L.frange(x.Common().Args[0], d+1)
			return 0, math.Max(math.Abs(a), math.Abs(b))
		}
		switch f.Name() {
		case "Phase", "WrapPhase", "PhaseDifference", "LocalGoal":
			if inModule(f) {
				return -7, 7 // C01, C10
			}
		}
		if f.Blocks != nil && f.Signature.Results().Len() == 1 && inModule(f) {
			lo, hi := inf, -inf
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					a, z := L.frange(r.Results[0], d+3)
					lo, hi = math.Min(lo, a), math.Max(hi, z)
				}
			}
			return lo, hi
		}
	}
	return -inf, inf
}

// ---- waits ----

// waitsIn: the blocks wait for something, themselves or in what they call.
func (L *Live) waitsIn(bs []*ssa.BasicBlock) bool {
	for _, b := range bs {
		for _, ins := range b.Instrs {
			if waitOp(ins) != "" {
				return true
			}
			if c, ok := ins.(*ssa.Call); ok {
				for _, g := range L.callees(c.Common()) {
					if L.mayWait(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (L *Live) mayWait(f *ssa.Function) bool {
	switch L.waits[f] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	L.waits[f] = 1
	r := L.waitsIn(f.Blocks)
	L.waits[f] = 2
	if r {
		L.waits[f] = 3
	}
	return r
}

// waitOp names an instruction that can wait for others.
func waitOp(ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.Send:
		return "send"
	case *ssa.Select:
		if x.Blocking {
			return "select"
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "receive"
		}
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil {
			switch f.String() {
			case "time.Sleep":
				return "sleep"
			case "(*sync.WaitGroup).Wait":
				return "group"
			case "(*sync.Cond).Wait":
				return "condition"
			}
		}
	}
	return ""
}

// waitEnds: why a wait does not last for ever ("" when it may).
func (L *Live) waitEnds(ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.Send:
		return L.sendEnds(x)
	case *ssa.Select:
		var hs []string
		for _, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if h := kindName(L.kindOf(s.Chan)); h != "" {
				hs = append(hs, h)
			}
		}
		return strings.Join(hs, " or ")
	case *ssa.UnOp:
		if h := kindName(L.kindOf(x.X)); h != "" {
			return h
		}
		return L.handedOver(x.X)
	case *ssa.Call:
		switch waitOp(ins) {
		case "sleep", "group":
			return "time or the group"
		}
	}
	return ""
}

func (L *Live) kindOf(v ssa.Value) chanKind {
	k, _ := L.kind(v)
	return k
}

func kindName(k chanKind) string {
	switch k {
	case chDone:
		return "the context"
	case chTimer, chTicker:
		return "a timer"
	case chQuit:
		return "the owner"
	case chSignal:
		return "a signal"
	}
	return ""
}

// handedOver: a result channel that a goroutine of the same function sends to or closes.
func (L *Live) handedOver(v ssa.Value) string {
	for _, o := range L.origins(v) {
		mc, ok := o.(*ssa.MakeChan)
		if !ok {
			return ""
		}
		found := false
		for _, b := range mc.Parent().Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				for _, t := range L.callees(g.Common()) {
					for _, tb := range t.Blocks {
						for _, ti := range tb.Instrs {
							if s, ok := ti.(*ssa.Send); ok && sameOrigin(L.origins(s.Chan), mc) {
								found = true
							}
							if c, ok := ti.(ssa.CallInstruction); ok {
								if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && sameOrigin(L.origins(c.Common().Args[0]), mc) {
									found = true
								}
							}
						}
					}
				}
			}
		}
		if !found {
			return ""
		}
	}
	return "a goroutine that ends"
}

func sameOrigin(os []ssa.Value, v ssa.Value) bool {
	for _, o := range os {
		if o == v {
			return true
		}
	}
	return false
}

// sendEnds: there is room in the channel, or somebody takes the value.
func (L *Live) sendEnds(s *ssa.Send) string {
	os := L.origins(s.Chan)
	if len(os) == 0 {
		return ""
	}
	for _, o := range os {
		mc, ok := o.(*ssa.MakeChan)
		if !ok {
			return ""
		}
		if n, ok := constNum(mc.Size); ok {
			if n < 1 {
				return ""
			}
			if !L.inLoop(s) && !L.fieldChan(s.Chan) {
				continue // one message per run of the function that made the channel
			}
			if drained(s, L) {
				continue
			}
			return ""
		}
		if !L.roomForAll(s, mc) {
			return ""
		}
	}
	return "room in the channel"
}

func (L *Live) fieldChan(v ssa.Value) bool { return chanKey(v) != "" }

func (L *Live) inLoop(ins ssa.Instruction) bool {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range ins.Parent().Blocks {
		all[b] = true
	}
	for _, c := range sccs(all) {
		for _, b := range c {
			if b == ins.Block() {
				return true
			}
		}
	}
	return false
}

// drained: before the send the same function took a message out if there was one, and
// nobody else sends.
func drained(s *ssa.Send, L *Live) bool {
	f := s.Parent()
	taken := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			if sel, ok := ins.(*ssa.Select); ok && !sel.Blocking {
				for _, st := range sel.States {
					if st.Dir == types.RecvOnly && sameChan(L, st.Chan, s.Chan) {
						taken[b] = true
						_ = i
					}
				}
			}
			if o, ok := ins.(*ssa.Send); ok && o != s && sameChan(L, o.Chan, s.Chan) {
				return false
			}
		}
	}
	// every path from an earlier send (or the entry) to s passes such a block
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, s.Block().Preds...)
	if taken[s.Block()] {
		return true
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || taken[b] {
			continue
		}
		seen[b] = true
		if b == f.Blocks[0] || b == s.Block() {
			return false
		}
		work = append(work, b.Preds...)
	}
	return true
}

func sameChan(L *Live, a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, y := L.origins(a), L.origins(b)
	return len(x) == 1 && len(y) == 1 && x[0] == y[0]
}

// roomForAll: the send runs once per element of a collection, and the channel was made
// with room for all of them.
func (L *Live) roomForAll(s *ssa.Send, mc *ssa.MakeChan) bool {
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range s.Parent().Blocks {
		all[b] = true
	}
	var bound ssa.Value
	for _, c := range sccs(all) {
		in := map[*ssa.BasicBlock]bool{}
		has := false
		for _, b := range c {
			in[b] = true
			has = has || b == s.Block()
		}
		if !has {
			continue
		}
		for _, b := range c {
			if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && L.settles(b, in) == "counts towards a fixed bound" {
				if bo, ok := f.Cond.(*ssa.BinOp); ok {
					bound = bo.Y
				}
			}
		}
		// an inner loop would send more
		for _, b := range c {
			if b == s.Block() {
				rest := map[*ssa.BasicBlock]bool{}
				for x := range in {
					if L.settles(x, in) == "" {
						rest[x] = true
					}
				}
				for _, ic := range sccs(rest) {
					for _, x := range ic {
						if x == s.Block() {
							return false
						}
					}
				}
			}
		}
	}
	lc, ok := bound.(*ssa.Call)
	if !ok || calleeBuiltin(lc) != "len" {
		return false
	}
	return L.atLeastLen(mc.Size, L.origins(lc.Common().Args[0]), 0)
}

func calleeBuiltin(c *ssa.Call) string {
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// atLeastLen: v is at least the length of the collection with the given origins.
func (L *Live) atLeastLen(v ssa.Value, os []ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeBuiltin(x) {
		case "len", "cap":
			mine := L.origins(x.Common().Args[0])
			for _, o := range os {
				if !sameOrigin(mine, o) {
					return false
				}
			}
			return len(os) > 0
		case "max":
			for _, a := range x.Common().Args {
				if L.atLeastLen(a, os, d+1) {
					return true
				}
			}
		}
	case *ssa.BinOp:
		if c, ok := constNum(x.Y); ok && x.Op == token.ADD && c >= 0 {
			return L.atLeastLen(x.X, os, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !L.atLeastLen(e, os, d+1) {
				return false
			}
		}
		return true
	}
	return false
}
