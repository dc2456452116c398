package main

// Numeric domain: intervals with a NaN flag, attached to linear forms over
// symbols.  A symbol stands for one unknown number (an input, a value loaded
// from shared memory, the result of a non-linear operation, a loop-carried
// value).  Symbols for non-linear results are hash-consed, so equal
// expressions get equal symbols (global value numbering).

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
)

const (
	tiny   = 5e-324
	bigNum = 1e100 // assumed magnitude bound of finite numeric inputs
)

// Iv is a closed interval of extended reals; empty when lo > hi.
type Iv struct{ lo, hi float64 }

var (
	ivTop    = Iv{math.Inf(-1), math.Inf(1)}
	ivFinite = Iv{-bigNum, bigNum}
	ivEmpty  = Iv{1, 0}
)

func (i Iv) empty() bool        { return i.lo > i.hi }
func (i Iv) isConst() bool      { return i.lo == i.hi }
func (i Iv) has(x float64) bool { return i.lo <= x && x <= i.hi }
func (i Iv) in(o Iv) bool       { return i.empty() || (i.lo >= o.lo && i.hi <= o.hi) }
func (i Iv) String() string     { return fmt.Sprintf("[%v, %v]", i.lo, i.hi) }
func (i Iv) meet(o Iv) Iv       { return Iv{math.Max(i.lo, o.lo), math.Min(i.hi, o.hi)} }
func (i Iv) finite() bool       { return !math.IsInf(i.lo, 0) && !math.IsInf(i.hi, 0) }
func (i Iv) join(o Iv) Iv {
	if i.empty() {
		return o
	}
	if o.empty() {
		return i
	}
	return Iv{math.Min(i.lo, o.lo), math.Max(i.hi, o.hi)}
}

func ivAdd(a, b Iv) (Iv, bool) {
	if a.empty() || b.empty() {
		return ivEmpty, false
	}
	nan := (math.IsInf(a.hi, 1) && math.IsInf(b.lo, -1)) || (math.IsInf(a.lo, -1) && math.IsInf(b.hi, 1))
	lo, hi := a.lo+b.lo, a.hi+b.hi
	if math.IsNaN(lo) {
		lo = math.Inf(-1)
	}
	if math.IsNaN(hi) {
		hi = math.Inf(1)
	}
	return Iv{lo, hi}, nan
}

func ivNeg(a Iv) Iv { return Iv{-a.hi, -a.lo} }

func mul0(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}

func ivMul(a, b Iv) (Iv, bool) {
	if a.empty() || b.empty() {
		return ivEmpty, false
	}
	infA, infB := !a.finite(), !b.finite()
	nan := (infA && b.has(0)) || (infB && a.has(0))
	p := []float64{mul0(a.lo, b.lo), mul0(a.lo, b.hi), mul0(a.hi, b.lo), mul0(a.hi, b.hi)}
	r := Iv{p[0], p[0]}
	for _, x := range p[1:] {
		r = r.join(Iv{x, x})
	}
	return r, nan
}

// ivDiv over reals; returns maybe-NaN as well.
func ivDiv(a, b Iv) (Iv, bool) {
	if a.empty() || b.empty() {
		return ivEmpty, false
	}
	nan := (a.has(0) && b.has(0)) || (!a.finite() && !b.finite())
	if b.lo > 0 || b.hi < 0 {
		p := []float64{a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}
		r := ivEmpty
		for _, x := range p {
			if math.IsNaN(x) {
				return ivTop, nan
			}
			r = r.join(Iv{x, x})
		}
		return r, nan
	}
	if b.lo == 0 && b.hi > 0 {
		// +0 or -0 both possible: sign of infinity unknown unless numerator is 0
		if a.lo >= 0 {
			return Iv{math.Inf(-1), math.Inf(1)}, nan
		}
	}
	return ivTop, nan
}

// Sym is an unknown number.
type Sym struct {
	id    int
	name  string
	key   string
	base  Iv
	nan   bool
	isInt bool
	cong  *Lin          // value congruent to *cong modulo 2*pi, when not nil
	orig  string        // origin tag (e.g. shared cell and load identity)
	deps  map[*Sym]bool // symbols this value was computed from
	kind  string        // non-linear operator, e.g. "mod", "sin", "wrap"
	args  []*Lin
}

type Term struct {
	s *Sym
	c float64
}

// Lin is c0 + sum(ci*si); terms sorted by symbol id.
type Lin struct {
	t   []Term
	c   float64
	key string
}

func linConst(c float64) *Lin { return mkLin(nil, c) }
func linSym(s *Sym) *Lin      { return mkLin([]Term{{s, 1}}, 0) }

func mkLin(t []Term, c float64) *Lin {
	buf := make([]byte, 0, 9+12*len(t))
	buf = append(buf, 'L')
	for _, x := range t {
		buf = binary.BigEndian.AppendUint32(buf, uint32(x.s.id))
		buf = binary.BigEndian.AppendUint64(buf, math.Float64bits(x.c+0))
	}
	buf = binary.BigEndian.AppendUint64(buf, math.Float64bits(c+0))
	return &Lin{t: t, c: c, key: string(buf)}
}

func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) unit() *Sym {
	if len(l.t) == 1 && l.t[0].c == 1 && l.c == 0 {
		return l.t[0].s
	}
	return nil
}

func (l *Lin) String() string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.c)
	}
	var p []string
	for _, x := range l.t {
		if x.c == 1 {
			p = append(p, x.s.name)
		} else {
			p = append(p, fmt.Sprintf("%g*%s", x.c, x.s.name))
		}
	}
	if l.c != 0 {
		p = append(p, fmt.Sprint(l.c))
	}
	return strings.Join(p, " + ")
}

func linAdd(a, b *Lin, k float64) *Lin { // a + k*b
	t := make([]Term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s.id < b.t[j].s.id:
			t = append(t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s.id < a.t[i].s.id:
			if c := k * b.t[j].c; c != 0 {
				t = append(t, Term{b.t[j].s, c})
			}
			j++
		default:
			if c := a.t[i].c + k*b.t[j].c; c != 0 {
				t = append(t, Term{a.t[i].s, c})
			}
			i++
			j++
		}
	}
	return mkLin(t, a.c+k*b.c)
}

func linFrom(m map[*Sym]float64, c float64) *Lin {
	t := make([]Term, 0, len(m))
	for s, k := range m {
		if k != 0 {
			t = append(t, Term{s, k})
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].s.id < t[j].s.id })
	return mkLin(t, c)
}

func linScale(a *Lin, k float64) *Lin {
	if k == 0 {
		return linConst(0)
	}
	t := make([]Term, len(a.t))
	for i, x := range a.t {
		t[i] = Term{x.s, x.c * k}
	}
	return mkLin(t, a.c*k)
}

func linSub(a, b *Lin) *Lin { return linAdd(a, b, -1) }

func (l *Lin) has(s *Sym) bool {
	for _, x := range l.t {
		if x.s == s {
			return true
		}
	}
	return false
}

// norm strips the constant and scales the leading coefficient to one.
func (l *Lin) norm() (base *Lin, k float64, c float64) {
	if len(l.t) == 0 {
		return l, 1, 0
	}
	k = l.t[0].c
	t := make([]Term, len(l.t))
	for i, x := range l.t {
		t[i] = Term{x.s, x.c / k}
	}
	return mkLin(t, 0), k, l.c
}

func relax(i Iv) Iv {
	f := func(x float64, d float64) float64 {
		if math.IsInf(x, 0) || x == 0 {
			return x
		}
		return x + d*math.Abs(x)*4e-16
	}
	return Iv{f(i.lo, -1), f(i.hi, 1)}
}

// symtab owns symbols of one analysis run.
type symtab struct {
	n    int
	cons map[string]*Sym
}

func newSymtab() *symtab { return &symtab{cons: map[string]*Sym{}} }

func (t *symtab) fresh(name string, base Iv, nan, isInt bool) *Sym {
	t.n++
	return &Sym{id: t.n, name: name, base: base, nan: nan, isInt: isInt}
}

// consed returns the symbol for key, creating it with mk on first use.
func (t *symtab) consed(key string, mk func() *Sym) *Sym {
	if s, ok := t.cons[key]; ok {
		return s
	}
	s := mk()
	s.key = key
	t.cons[key] = s
	return s
}

func (s *Sym) addDeps(ls ...*Lin) {
	for _, l := range ls {
		if l == nil {
			continue
		}
		for _, x := range l.t {
			if s.deps == nil {
				s.deps = map[*Sym]bool{}
			}
			s.deps[x.s] = true
			for d := range x.s.deps {
				s.deps[d] = true
			}
		}
	}
}

// allDeps lists every symbol a linear form depends on, transitively.
func (l *Lin) allDeps() map[*Sym]bool {
	m := map[*Sym]bool{}
	for _, x := range l.t {
		m[x.s] = true
		for d := range x.s.deps {
			m[d] = true
		}
	}
	return m
}

const twoPi = 2 * math.Pi

// residue rewrites symbols known congruent (mod 2π) to their pre-images and
// reduces the constant modulo 2π; two forms with equal residues denote the
// same angle.
func (l *Lin) residue() *Lin {
	m := map[*Sym]float64{}
	c := l.c
	var add func(x *Lin, k float64, depth int)
	add = func(x *Lin, k float64, depth int) {
		c += k * x.c
		for _, t := range x.t {
			kk := k * t.c
			if t.s.cong != nil && depth < 50 && kk == math.Trunc(kk) {
				add(t.s.cong, kk, depth+1)
			} else {
				m[t.s] += kk
			}
		}
	}
	c = 0
	add(l, 1, 0)
	c = math.Mod(c, twoPi)
	if c < 0 {
		c += twoPi
	}
	if math.Abs(c) < 1e-9 || math.Abs(c-twoPi) < 1e-9 {
		c = 0
	} else {
		c = math.Round(c*1e9) / 1e9
	}
	return linFrom(m, c)
}
