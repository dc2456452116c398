package main

// Abstract values and abstract states of the interpreter.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Num struct {
	L  *Lin
	iv Iv // bound established when the value was computed (float rounding applied)
}

// BoolV: k is 0 (false), 1 (true) or 2 (decided by cond, or unknown).
type BoolV struct {
	k    int
	cond *Cond
}

type Cond struct {
	kind string // "lt","le","eq" (L op 0), "str", "nil", "bool", "nan", "inf"
	L    *Lin
	x, y Value // original operands for lt/le/eq (x op y)
	neg  bool
	sv   *StrV
	sc   string
	sv2  *StrV
	sym  *BSym
	pv   Value // nil test subject
	sign int
}

type BSym struct {
	id   int
	name string
}

type StrV struct {
	known bool
	s     string
	id    int // identity when unknown
	name  string
}

type Obj struct {
	id      int
	name    string
	typ     types.Type // type of the contents
	lazy    Value      // initial contents when created lazily
	input   bool       // reachable from an input (shared with the outside)
	summary bool       // stands for several concrete objects
	global  *ssa.Global
	orig    string // origin of a volatile load
	site    ssa.Instruction
	elemOf  *Obj // element of a summarised slice
	elemKey string
}

type PtrT struct {
	o    *Obj
	path []int
}

type PtrV struct {
	ts   []PtrT
	nilp int        // 0 non-nil, 1 maybe, 2 nil
	id   int        // identity of an undetermined nil-ness
	typ  types.Type // pointee type
	any  bool       // some unknown object of the pointee type
	memo *Obj
}

type StructV struct {
	typ types.Type
	f   []Value
}

type ArrV struct {
	typ types.Type
	e   []Value
}

// SumV summarises an unknown number of elements.
type SumV struct {
	elem  types.Type
	v     Value // join of everything stored, or nil for "any value of the type"
	name  string
	cache map[string]Value
	ver   int
}

type SliceV struct {
	o    *Obj
	lo   int
	n    *Num
	cp   *Num
	nilp int
	id   int
	typ  types.Type
}

type MapV struct {
	o    *Obj
	nilp int
	id   int
	typ  types.Type
}

type MapC struct {
	typ     *types.Map
	keys    []string
	entries map[string][2]Value
	sum     Value // joined value of unknown keys (nil = none)
	sumKey  Value
	unknown bool // may contain anything
	name    string
	n       *Num
}

type FuncT struct {
	fn    *ssa.Function
	binds []Value
}

type FuncV struct {
	host    func(c *callCtx) []Outcome // implemented by the analysis
	alts    []FuncT
	unknown bool
	nilp    int
	id      int
	name    string
}

type IfT struct {
	typ types.Type
	v   Value
}

type IfaceV struct {
	alts    []IfT
	unknown bool
	nilp    int
	id      int
	name    string
	typ     types.Type
}

// ErrV models errors made by fmt.Errorf / errors.New / sentinel globals.
type ErrV struct {
	global *ssa.Global
	wraps  []Value
	pos    token.Pos
	desc   string
}

type OpaqueV struct {
	typ  types.Type
	id   int
	nilp int
	name string
	data interface{}
}

type TupleV []Value

// Lazy is an unknown value of a type, expanded on first use.
type Lazy struct {
	typ    types.Type
	name   string
	parent types.Type
	field  string
	memo   Value
	input  bool
	orig   string
	okKey  string
}

type LinFact struct {
	L  *Lin
	iv Iv
}

type Ev struct {
	prev *Ev
	kind string
	pos  token.Pos
	data interface{}
	n    int
}

type pathStep struct {
	prev  *pathStep
	pos   token.Pos
	taken bool
	n     int
}

type State struct {
	bounds   map[*Sym]Iv
	nonNaN   map[*Sym]bool
	isNaN    map[*Sym]bool
	facts    map[string]LinFact
	disk     map[string]Disk
	iters    map[int]int // position of exact map iterations
	neq      map[string]map[float64]bool
	strEq    map[int]string
	strNeq   map[int]map[string]bool
	bools    map[int]bool
	nilK     map[int]int // identity -> 0 non-nil, 2 nil
	ifDyn    map[int]types.Type
	mem      map[*Obj]Value
	regs     []map[ssa.Value]Value
	defers   [][]deferred
	lockEp   map[string]int
	locks    map[string]int // lock cell key -> mode (1 read, 2 write) held
	ev       *Ev
	conds    *taken
	trace    *pathStep
	dead     bool
	conflict bool // an assumption made for the analysed case contradicts another
	why      string
}

type deferred struct {
	ins  *ssa.Defer
	fn   Value
	args []Value
}

func newState() *State {
	return &State{
		bounds: map[*Sym]Iv{}, nonNaN: map[*Sym]bool{}, isNaN: map[*Sym]bool{}, facts: map[string]LinFact{},
		neq: map[string]map[float64]bool{}, strEq: map[int]string{}, strNeq: map[int]map[string]bool{},
		bools: map[int]bool{}, nilK: map[int]int{}, ifDyn: map[int]types.Type{}, mem: map[*Obj]Value{}, locks: map[string]int{}, lockEp: map[string]int{}, iters: map[int]int{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := &State{
		bounds: cp(s.bounds), nonNaN: cp(s.nonNaN), isNaN: cp(s.isNaN), facts: cp(s.facts), neq: cp(s.neq),
		strEq: cp(s.strEq), strNeq: cp(s.strNeq), bools: cp(s.bools), nilK: cp(s.nilK), ifDyn: cp(s.ifDyn),
		mem: cp(s.mem), locks: cp(s.locks), lockEp: cp(s.lockEp), ev: s.ev, conds: s.conds, trace: s.trace, disk: s.disk, iters: cp(s.iters),
	}
	n.regs = append([]map[ssa.Value]Value(nil), s.regs...)
	if len(n.regs) > 0 {
		n.regs[len(n.regs)-1] = cp(n.regs[len(n.regs)-1])
	}
	n.defers = make([][]deferred, len(s.defers))
	for i, d := range s.defers {
		n.defers[i] = append([]deferred(nil), d...)
	}
	return n
}

func (s *State) top() map[ssa.Value]Value { return s.regs[len(s.regs)-1] }

func (s *State) event(kind string, pos token.Pos, data interface{}) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &Ev{s.ev, kind, pos, data, n}
	if evHook != nil {
		evHook(s, s.ev)
	}
}

// evHook, when set, sees every event in the state in which it happens.
var evHook func(s *State, e *Ev)

func (s *State) events() []*Ev {
	var r []*Ev
	for e := s.ev; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- numeric queries ----

func (s *State) symIv(x *Sym) Iv {
	if s.isNaN[x] {
		return ivEmpty
	}
	if b, ok := s.bounds[x]; ok {
		return b
	}
	return x.base
}

func (s *State) mayNaNSym(x *Sym) bool {
	if s.isNaN[x] {
		return true
	}
	if s.nonNaN[x] {
		return false
	}
	return x.nan
}

func (s *State) mayNaN(l *Lin) bool {
	for _, t := range l.t {
		if s.mayNaNSym(t.s) {
			return true
		}
	}
	return false
}

func (s *State) mustNaN(l *Lin) bool {
	for _, t := range l.t {
		if s.isNaN[t.s] {
			return true
		}
	}
	return false
}

func (s *State) evalLin(l *Lin) Iv {
	r := Iv{l.c, l.c}
	for _, t := range l.t {
		b := s.symIv(t.s)
		if b.empty() {
			return ivTop
		}
		m, _ := ivMul(b, Iv{t.c, t.c})
		r, _ = ivAdd(r, m)
	}
	return r
}

// entail bounds l in exact arithmetic using symbol bounds and recorded facts.
func (s *State) entail(l *Lin) Iv { return s.entailD(l, 2) }

func (s *State) entailD(l *Lin, depth int) Iv {
	r := s.evalLin(l)
	if l.isConst() {
		return r
	}
	base, k, c := l.norm()
	if f, ok := s.facts[base.key]; ok {
		m, _ := ivMul(f.iv, Iv{k, k})
		m = Iv{m.lo + c, m.hi + c}
		// keep strictness across a zero constant
		r = r.meet(m)
	}
	if depth <= 0 {
		return r
	}
	for key, f := range s.facts {
		if key[0] == '=' || len(f.L.t) < 2 || len(f.L.t) > 4 {
			continue
		}
		for _, t := range l.t {
			fc := 0.0
			for _, ft := range f.L.t {
				if ft.s == t.s {
					fc = ft.c
				}
			}
			if fc == 0 {
				continue
			}
			q := t.c / fc
			rest := linAdd(l, f.L, -q)
			if len(rest.t) > len(l.t)+1 {
				continue
			}
			ri := s.entailD(rest, depth-1)
			m, _ := ivMul(f.iv, Iv{q, q})
			sum, _ := ivAdd(ri, m)
			r = r.meet(sum)
			break
		}
	}
	return r
}

// iv returns the interval of a numeric value (rounding-aware).
func (s *State) iv(n *Num) Iv {
	r := n.iv
	if u := n.L.unit(); u != nil {
		r = r.meet(s.symIv(u))
	} else if n.L.isConst() {
		r = r.meet(Iv{n.L.c, n.L.c})
	} else {
		r = r.meet(relax(s.evalLin(n.L)))
	}
	if f, ok := s.facts["="+n.L.key]; ok {
		r = r.meet(f.iv)
	}
	// the same rounded expression of a smaller or larger operand
	if len(n.L.t) == 1 && n.L.unit() == nil && !r.isConst() {
		t := n.L.t[0]
		for k, f := range s.facts {
			if k[0] != '=' || len(f.L.t) != 1 || f.L.c != n.L.c || f.L.t[0].c != t.c || f.L.t[0].s == t.s {
				continue
			}
			d := s.entailD(linSub(linSym(t.s), linSym(f.L.t[0].s)), 0)
			up, down := d.lo >= 0, d.hi <= 0
			if t.c < 0 {
				up, down = down, up
			}
			if up {
				r.lo = math.Max(r.lo, f.iv.lo)
			}
			if down {
				r.hi = math.Min(r.hi, f.iv.hi)
			}
		}
	}
	return r
}

func (s *State) setBound(x *Sym, b Iv) bool {
	cur := s.symIv(x)
	n := cur.meet(b)
	if x.isInt && !n.empty() {
		n = Iv{math.Ceil(n.lo) + 0, math.Floor(n.hi) + 0}
	}
	if len(s.neq) > 0 && !n.empty() {
		if m := s.neq[fmt.Sprintf("#%d", x.id)]; len(m) > 0 {
			for x.isInt && m[n.lo] && n.lo <= n.hi {
				n.lo++
			}
			for x.isInt && m[n.hi] && n.lo <= n.hi {
				n.hi--
			}
			if n.isConst() && m[n.lo] {
				return false
			}
		}
	}
	if n.empty() {
		return false
	}
	if n != cur {
		s.bounds[x] = n
	}
	return true
}

// assume adds "l in iv" and propagates to symbol bounds; false if infeasible.
func (s *State) assume(l *Lin, iv Iv) bool {
	if !s.assume0(l, iv) {
		s.conflict = true
		return false
	}
	return true
}

func (s *State) assume0(l *Lin, iv Iv) bool {
	if l.isConst() {
		return iv.has(l.c) || (l.c == 0 && iv.hi == -tiny && false)
	}
	cur := s.entail(l)
	if cur.meet(iv).empty() {
		return false
	}
	allInt := l.c == math.Trunc(l.c)
	for _, t := range l.t {
		if !t.s.isInt || t.c != math.Trunc(t.c) {
			allInt = false
		}
	}
	if allInt {
		iv = Iv{math.Ceil(iv.lo), math.Floor(iv.hi)}
		if iv.lo == 0 && math.Signbit(iv.lo) {
			iv.lo = 0
		}
		if cur.meet(iv).empty() {
			return false
		}
	}
	if len(l.t) == 1 {
		t := l.t[0]
		var b Iv
		if t.c == 1 && l.c == 0 {
			b = iv
		} else {
			x := Iv{iv.lo - l.c, iv.hi - l.c}
			// a strict bound (off by the smallest number) survives as strict
			if l.c != 0 && !t.s.isInt {
				if iv.lo == tiny {
					x.lo = math.Nextafter(-l.c, math.Inf(1))
				}
				if iv.hi == -tiny {
					x.hi = math.Nextafter(-l.c, math.Inf(-1))
				}
			}
			b = Iv{x.lo / t.c, x.hi / t.c}
			if t.c < 0 {
				b = Iv{x.hi / t.c, x.lo / t.c}
			}
		}
		return s.setBound(t.s, b)
	}
	base, k, c := l.norm()
	x := Iv{iv.lo - c, iv.hi - c}
	if k > 0 {
		x = Iv{x.lo / k, x.hi / k}
	} else {
		x = Iv{x.hi / k, x.lo / k}
	}
	f := s.facts[base.key]
	if f.L == nil {
		f = LinFact{base, ivTop}
	}
	f.iv = f.iv.meet(x)
	if f.iv.empty() {
		return false
	}
	s.facts[base.key] = f
	// propagate to each symbol
	for _, t := range l.t {
		rest := linAdd(l, linSym(t.s), -t.c)
		ri := s.entailD(rest, 0)
		// t.c * s in iv - rest
		lo, hi := iv.lo-ri.hi, iv.hi-ri.lo
		if math.IsNaN(lo) {
			lo = math.Inf(-1)
		}
		if math.IsNaN(hi) {
			hi = math.Inf(1)
		}
		b := Iv{lo / t.c, hi / t.c}
		if t.c < 0 {
			b = Iv{hi / t.c, lo / t.c}
		}
		if !s.setBound(t.s, b) {
			return false
		}
	}
	return true
}

func (s *State) assumeNonNaN(l *Lin) bool {
	for _, t := range l.t {
		if s.isNaN[t.s] {
			return false
		}
		if t.s.nan {
			s.nonNaN[t.s] = true
		}
	}
	return true
}

func isIntLin(l *Lin) bool {
	for _, t := range l.t {
		if !t.s.isInt || t.c != math.Trunc(t.c) {
			return false
		}
	}
	return l.c == math.Trunc(l.c)
}

// decide returns 1/0 when the condition is settled, 2 otherwise.
func (s *State) decide(b *BoolV) int {
	if b == nil {
		return 2
	}
	if b.k != 2 {
		return b.k
	}
	c := b.cond
	if c == nil {
		return 2
	}
	r := s.decideCond(c)
	if r != 2 && c.neg {
		r = 1 - r
	}
	return r
}

func (s *State) decideCond(c *Cond) int {
	switch c.kind {
	case "lt", "le", "eq":
		if s.mustNaN(c.L) {
			return 0
		}
		iv := s.entail(c.L)
		if x, ok := c.x.(*Num); ok {
			if y, ok := c.y.(*Num); ok {
				xi, yi := s.iv(x), s.iv(y)
				if xi.finite() && yi.finite() && !xi.empty() && !yi.empty() {
					d := Iv{xi.lo - yi.hi, xi.hi - yi.lo}
					iv = iv.meet(d)
				} else if !xi.empty() && !yi.empty() {
					// infinities: only one-sided information
					if xi.hi < yi.lo {
						iv = iv.meet(Iv{math.Inf(-1), -tiny})
					}
					if xi.lo > yi.hi {
						iv = iv.meet(Iv{tiny, math.Inf(1)})
					}
				}
			}
		}
		nan := s.mayNaN(c.L)
		switch c.kind {
		case "lt":
			if iv.hi < 0 && !nan {
				return 1
			}
			if iv.lo >= 0 {
				return 0
			}
		case "le":
			if iv.hi <= 0 && !nan {
				return 1
			}
			if iv.lo > 0 {
				return 0
			}
		case "eq":
			if iv.lo == 0 && iv.hi == 0 && !nan {
				return 1
			}
			if iv.lo > 0 || iv.hi < 0 {
				return 0
			}
			if m := s.neq[c.L.key]; m[0] {
				return 0
			}
		}
		return 2
	case "str":
		if c.sv2 != nil {
			if c.sv.id == c.sv2.id {
				return 1
			}
			return 2
		}
		if v, ok := s.strEq[c.sv.id]; ok {
			if v == c.sc {
				return 1
			}
			return 0
		}
		if s.strNeq[c.sv.id][c.sc] {
			return 0
		}
		return 2
	case "bool":
		if v, ok := s.bools[c.sym.id]; ok {
			if v {
				return 1
			}
			return 0
		}
		return 2
	case "nil":
		n, id := nilInfo(c.pv)
		if n == 1 && id != 0 {
			if k, ok := s.nilK[id]; ok {
				n = k
			}
		}
		switch n {
		case 0:
			return 0
		case 2:
			return 1
		}
		return 2
	case "nan":
		if s.mustNaN(c.L) {
			return 1
		}
		if !s.mayNaN(c.L) {
			return 0
		}
		return 2
	}
	return 2
}

func nilInfo(v Value) (int, int) {
	switch v := v.(type) {
	case *PtrV:
		return v.nilp, v.id
	case *SliceV:
		return v.nilp, v.id
	case *MapV:
		return v.nilp, v.id
	case *FuncV:
		return v.nilp, v.id
	case *IfaceV:
		return v.nilp, v.id
	case *OpaqueV:
		return v.nilp, v.id
	}
	return 1, 0
}

// assumeBool refines s with b == want; false when infeasible.
func (s *State) assumeBool(b *BoolV, want bool) bool {
	switch s.decide(b) {
	case 0:
		return !want
	case 1:
		return want
	}
	if b.cond == nil {
		return true
	}
	c := b.cond
	if c.neg {
		want = !want
	}
	switch c.kind {
	case "lt", "le", "eq":
		nan := s.mayNaN(c.L)
		s.conds = &taken{s.conds, c, want, 1 + s.conds.len()}
		if want {
			if !s.assumeNonNaN(c.L) {
				return false
			}
			iv := Iv{0, 0}
			switch c.kind {
			case "lt":
				iv = Iv{math.Inf(-1), -tiny}
			case "le":
				iv = Iv{math.Inf(-1), 0}
			}
			if !s.assume(c.L, iv) {
				return false
			}
			s.refineOps(c, c.kind)
			return true
		}
		if nan {
			// either NaN, or the complement holds: intervals describe non-NaN values only,
			// and refining them is sound only if the form is a single symbol.
			if c.L.unit() == nil && len(c.L.t) != 1 {
				return true
			}
		}
		switch c.kind {
		case "lt":
			if !s.assume(c.L, Iv{0, math.Inf(1)}) {
				if nan {
					return s.forceNaN(c.L)
				}
				return false
			}
			if !nan {
				s.refineOps(c, "ge")
			}
		case "le":
			if !s.assume(c.L, Iv{tiny, math.Inf(1)}) {
				if nan {
					return s.forceNaN(c.L)
				}
				return false
			}
			if !nan {
				s.refineOps(c, "gt")
			}
		case "eq":
			m := cp(s.neq[c.L.key])
			m[0] = true
			s.neq[c.L.key] = m
			// trim integer endpoints
			if len(c.L.t) == 1 && isIntLin(c.L) && (c.L.t[0].c == 1 || c.L.t[0].c == -1) {
				x := c.L.t[0].s
				v := -c.L.c / c.L.t[0].c
				mk := cp(s.neq["#"+fmt.Sprint(x.id)])
				mk[v] = true
				s.neq["#"+fmt.Sprint(x.id)] = mk
				b := s.symIv(x)
				for mk[b.lo] && !b.empty() {
					b.lo++
				}
				for mk[b.hi] && !b.empty() {
					b.hi--
				}
				if b.empty() {
					return false
				}
				if !s.setBound(x, b) {
					return false
				}
			}
		}
		return true
	case "str":
		if c.sv2 != nil {
			return true
		}
		if want {
			s.strEq[c.sv.id] = c.sc
		} else {
			m := cp(s.strNeq[c.sv.id])
			m[c.sc] = true
			s.strNeq[c.sv.id] = m
		}
		return true
	case "bool":
		s.bools[c.sym.id] = want
		return true
	case "nil":
		_, id := nilInfo(c.pv)
		if id != 0 {
			if want {
				s.nilK[id] = 2
			} else {
				s.nilK[id] = 0
			}
		}
		return true
	case "nan":
		if want {
			return s.forceNaN(c.L)
		}
		return s.assumeNonNaN(c.L)
	}
	return true
}

func (s *State) forceNaN(l *Lin) bool {
	if len(l.t) == 1 {
		s.isNaN[l.t[0].s] = true
		return true
	}
	for _, t := range l.t {
		if s.mayNaNSym(t.s) {
			return true
		}
	}
	return false
}

// refineOps records rounding-exact operand bounds of a comparison x op y.
func (s *State) refineOps(c *Cond, op string) {
	x, okx := c.x.(*Num)
	y, oky := c.y.(*Num)
	if !okx || !oky {
		return
	}
	xi, yi := s.iv(x), s.iv(y)
	intl := isIntLin(x.L) && isIntLin(y.L)
	up := func(v float64) float64 {
		if intl {
			return v + 1
		}
		return math.Nextafter(v, math.Inf(1))
	}
	dn := func(v float64) float64 {
		if intl {
			return v - 1
		}
		return math.Nextafter(v, math.Inf(-1))
	}
	set := func(n *Num, iv Iv) {
		if n.L.isConst() {
			return
		}
		k := "=" + n.L.key
		f := s.facts[k]
		if f.L == nil {
			f = LinFact{n.L, ivTop}
		}
		f.iv = f.iv.meet(iv)
		s.facts[k] = f
		if u := n.L.unit(); u != nil {
			b := s.symIv(u).meet(iv)
			if !b.empty() {
				s.bounds[u] = b
			}
		}
	}
	switch op {
	case "lt":
		set(x, Iv{math.Inf(-1), dn(yi.hi)})
		set(y, Iv{up(xi.lo), math.Inf(1)})
	case "le":
		set(x, Iv{math.Inf(-1), yi.hi})
		set(y, Iv{xi.lo, math.Inf(1)})
	case "gt":
		set(x, Iv{up(yi.lo), math.Inf(1)})
		set(y, Iv{math.Inf(-1), dn(xi.hi)})
	case "ge":
		set(x, Iv{yi.lo, math.Inf(1)})
		set(y, Iv{math.Inf(-1), xi.hi})
	case "eq":
		set(x, yi)
		set(y, xi)
	}
}

func pathString(p []int) string {
	if len(p) == 0 {
		return ""
	}
	var b strings.Builder
	for _, i := range p {
		fmt.Fprintf(&b, ".%d", i)
	}
	return b.String()
}

func cellKey(t PtrT) string { return fmt.Sprintf("o%d%s", t.o.id, pathString(t.path)) }
