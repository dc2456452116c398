package main

// Random interpretation (Gulwani and Necula): whether two symbolic values are
// the same function of the inputs is decided by their value at random points,
// on every path whose conditions hold there.

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

type point map[*Sym]float64

func (p point) at(l *Lin) (float64, bool) {
	r := l.c
	for _, t := range l.t {
		v, ok := p.sym(t.s)
		if !ok {
			return 0, false
		}
		r += t.c * v
	}
	return r, true
}

var operators = map[string]func(a []float64) float64{
	"sin": func(a []float64) float64 { return math.Sin(a[0]) }, "cos": func(a []float64) float64 { return math.Cos(a[0]) },
	"tanh": func(a []float64) float64 { return math.Tanh(a[0]) }, "sqrt": func(a []float64) float64 { return math.Sqrt(a[0]) },
	"atan": func(a []float64) float64 { return math.Atan(a[0]) }, "asin": func(a []float64) float64 { return math.Asin(a[0]) },
	"acos": func(a []float64) float64 { return math.Acos(a[0]) },
	"exp":  func(a []float64) float64 { return math.Exp(a[0]) }, "log": func(a []float64) float64 { return math.Log(a[0]) },
	"log2": func(a []float64) float64 { return math.Log2(a[0]) }, "Floor": func(a []float64) float64 { return math.Floor(a[0]) },
	"Ceil": func(a []float64) float64 { return math.Ceil(a[0]) }, "Round": func(a []float64) float64 { return math.Round(a[0]) },
	"Trunc": func(a []float64) float64 { return math.Trunc(a[0]) }, "trunc": func(a []float64) float64 { return math.Trunc(a[0]) },
	"mod": func(a []float64) float64 { return math.Mod(a[0], a[1]) }, "rem": func(a []float64) float64 { return math.Remainder(a[0], a[1]) },
	"remainder": func(a []float64) float64 { return math.Remainder(a[0], a[1]) },
	"atan2":     func(a []float64) float64 { return math.Atan2(a[0], a[1]) }, "hypot": func(a []float64) float64 { return math.Hypot(a[0], a[1]) },
	"pow": func(a []float64) float64 { return math.Pow(a[0], a[1]) }, "mul": func(a []float64) float64 { return a[0] * a[1] },
	"div": func(a []float64) float64 { return a[0] / a[1] }, "idiv": func(a []float64) float64 { return math.Trunc(a[0] / a[1]) },
	"irem": func(a []float64) float64 { return math.Mod(a[0], a[1]) }, "wrap": func(a []float64) float64 { return math.Atan2(math.Sin(a[0]), math.Cos(a[0])) },
	"circle": func(a []float64) float64 {
		m := math.Mod(a[0], twoPi)
		if m < 0 {
			m += twoPi
		}
		return m
	},
}

func (p point) sym(s *Sym) (float64, bool) {
	if v, ok := p[s]; ok {
		return v, true
	}
	i := strings.IndexByte(s.key, '(')
	if i < 0 || len(s.args) == 0 {
		return 0, false
	}
	f := operators[s.key[:i]]
	if f == nil {
		return 0, false
	}
	a := make([]float64, 2)
	for k, l := range s.args {
		v, ok := p.at(l)
		if !ok || k > 1 {
			return 0, false
		}
		a[k] = v
	}
	v := f(a)
	p[s] = v
	return v, true
}

// holds: whether a path is the one taken at the point: 0 no, 1 yes, 2 too close to a limit to tell.
func (p point) holds(st *State) int {
	r := 1
	in := func(v float64, iv Iv) {
		m := 1e-9 * math.Max(1, math.Abs(v))
		switch {
		case v < iv.lo-m || v > iv.hi+m:
			r = 0
		case (v < iv.lo+m && iv.lo < iv.hi || v > iv.hi-m && iv.lo < iv.hi) && r == 1:
			r = 2
		}
	}
	for s, iv := range st.bounds {
		if v, ok := p.sym(s); ok {
			n := r
			in(v, iv)
			if r == 2 && len(s.args) > 0 {
				r = n // an operator at the end of its range
			}
			if r == 0 {
				return 0
			}
		}
	}
	for _, f := range st.facts {
		if v, ok := p.at(f.L); ok {
			n := r
			in(v, f.iv)
			if r == 0 {
				return 0
			}
			if r == 2 {
				r = n
			}
		}
	}
	for c := st.conds; c != nil; c = c.prev {
		v, ok := p.at(c.cond.L)
		if !ok {
			continue
		}
		if math.Abs(v) < 1e-9 {
			return 2
		}
		is := c.cond.kind != "eq" && v < 0
		if is != c.want {
			return 0
		}
	}
	return r
}

// taken: the decisions about numbers on a path.
type taken struct {
	prev *taken
	cond *Cond
	want bool
	n    int
}

func (t *taken) len() int {
	if t == nil {
		return 0
	}
	return t.n
}

// commonTaken: what two paths decided in common before they met again.
func commonTaken(a, b *taken) *taken {
	for a != b {
		if a.len() >= b.len() {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

type input struct {
	n      *Num
	lo, hi float64
}

// equals reports whether a result is the given function of the inputs, at random points, on every path taken there.
func (c *Ctx) equals(rule, what string, it *Interp, rs []Outcome, in []input, got func(r Outcome) *Num, want func(x []float64) float64, circle bool) {
	c.matches(rule, what, rs, in, func(r Outcome) []*Num {
		if n := got(r); n != nil {
			return []*Num{n}
		}
		return nil
	}, func(x, v []float64) (bool, string) {
		w := want(x)
		if len(v) != 1 {
			return false, fmt.Sprintf("instead of %g", w)
		}
		return close9(v[0], w, circle), fmt.Sprintf("instead of %g", w)
	})
}

func close9(v, w float64, circle bool) bool {
	d := math.Abs(v - w)
	if circle {
		d = math.Abs(math.Remainder(v-w, twoPi))
	}
	return d <= 1e-9*math.Max(1, math.Abs(w))
}

// matches reports whether the values of a result are as they should be, at random points, on every path taken there.
func (c *Ctx) matches(rule, what string, rs []Outcome, in []input, got func(r Outcome) []*Num, good func(x, v []float64) (bool, string)) {
	rnd := rand.New(rand.NewSource(1))
	decided := 0
	for try := 0; try < 400 && decided < 60; try++ {
		x := make([]float64, len(in))
		base := point{}
		for i, q := range in {
			x[i] = q.lo + (q.hi-q.lo)*rnd.Float64()
			if q.n.L.isConst() {
				x[i] = q.n.L.c
			} else if u := q.n.L.unit(); u != nil {
				if u.isInt {
					x[i] = math.Round(x[i])
				}
				if v, ok := base[u]; ok {
					x[i] = v // the same input again
				}
				base[u] = x[i]
			} else {
				c.missing(what + ": an input that is not a symbol")
				return
			}
		}
		near, hit := false, false
		for _, r := range rs {
			p := point{}
			for s, v := range base {
				p[s] = v
			}
			switch p.holds(r.st) {
			case 0:
				continue
			case 2:
				near = true
				continue
			}
			hit = true
			if r.panicked {
				c.ob(rule, what, false, r.pos, "%s can panic, for example for %s", what, showPoint(x))
				return
			}
			ns := got(r)
			if ns == nil {
				c.ob(rule, what, false, r.pos, "%s has no known value", what)
				return
			}
			v := make([]float64, len(ns))
			for i, n := range ns {
				var ok bool
				if v[i], ok = p.at(n.L); !ok {
					c.ob(rule, what, false, r.pos, "%s is not a function of the inputs: %s", what, n.L)
					return
				}
			}
			if ok, should := good(x, v); !ok {
				var ex []string
				for _, n := range ns {
					ex = append(ex, n.L.String())
				}
				c.ob(rule, what, false, r.pos, "%s is %s, which for %s is %v %s", what, strings.Join(ex, "; "), showPoint(x), v, should)
				return
			}
			decided++
			break
		}
		if !hit && !near {
			c.ob(rule, what, false, 0, "%s has no path for %s", what, showPoint(x))
			return
		}
	}
	c.ob(rule, what, decided >= 10, 0, "%s was decided at %d points only", what, decided)
}

func showPoint(x []float64) string {
	var s []string
	for i, v := range x {
		if i == 6 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%.3g", v))
	}
	return "inputs " + strings.Join(s, ", ")
}
