package main

// Models of the standard library (and go.uber.org/atomic) used by the code.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// LoadEv: one read of a shared atomic cell.
type LoadEv struct {
	cell  PtrT
	field string
	id    int
	v     Value
	locks string
}

// PubEv: one write of a shared atomic cell.
type PubEv struct {
	cell     PtrT
	field    string
	v        Value // stored value (pointer contents already read)
	raw      Value
	cas      bool
	expected Value
	swap     bool
	delta    Value // for atomic adds
	locks    string
	pubObj   *Obj
	local    bool // cell of an object created in this analysis
}

type LockEv struct {
	key  string
	mode int // 1 read 2 write
	pt   PtrT
	held bool // was already held at the acquisition
}

func installModels(it *Interp) {
	m := it.models
	ret := func(c *callCtx, v Value) []Outcome { return []Outcome{{st: c.st, ret: v}} }
	num := func(c *callCtx, i int) *Num {
		if i < len(c.args) {
			if n, ok := c.it.force(c.st, c.args[i]).(*Num); ok {
				return n
			}
		}
		return c.it.freshNum("arg", ivTop, true, false)
	}

	// ---- math ----
	unary := func(name string, f func(c *callCtx, x *Num, iv Iv) (Iv, bool)) {
		m["math."+name] = func(c *callCtx) []Outcome {
			x := num(c, 0)
			iv := c.st.iv(x)
			r, nan := f(c, x, iv)
			nan = nan || c.st.mayNaN(x.L)
			k := strings.ToLower(name) + "(" + x.L.key + ")"
			if nan {
				k += "?"
			}
			n := c.it.consNum(c.st, k, strings.ToLower(name)+"("+x.L.String()+")", r, false, x.L)
			n.L.t[0].s.kind = strings.ToLower(name)
			if nan {
				n.L.t[0].s.nan = true
			}
			if name == "Sqrt" && !nan {
				if a, b, ok := squares(x.L); ok {
					c.st.boundNorm(n, a, b)
				}
			}
			return ret(c, n)
		}
	}
	trig := func(c *callCtx, x *Num, iv Iv) (Iv, bool) { return Iv{-1, 1}, !iv.finite() }
	unary("Sin", trig)
	unary("Cos", trig)
	m["math.Sincos"] = func(c *callCtx) []Outcome {
		s, k := m["math.Sin"](c), m["math.Cos"](c)
		return ret(c, TupleV{s[0].ret, k[0].ret})
	}
	unary("Tanh", func(c *callCtx, x *Num, iv Iv) (Iv, bool) { return Iv{math.Tanh(iv.lo), math.Tanh(iv.hi)}, false })
	unary("Atan", func(c *callCtx, x *Num, iv Iv) (Iv, bool) { return Iv{math.Atan(iv.lo), math.Atan(iv.hi)}, false })
	unary("Asin", func(c *callCtx, x *Num, iv Iv) (Iv, bool) {
		return Iv{-math.Pi / 2, math.Pi / 2}, iv.lo < -1 || iv.hi > 1
	})
	unary("Acos", func(c *callCtx, x *Num, iv Iv) (Iv, bool) { return Iv{0, math.Pi}, iv.lo < -1 || iv.hi > 1 })
	unary("Sqrt", func(c *callCtx, x *Num, iv Iv) (Iv, bool) {
		lo := math.Max(iv.lo, 0)
		return relax(Iv{math.Sqrt(lo), math.Sqrt(math.Max(iv.hi, 0))}), iv.lo < 0
	})
	unary("Exp", func(c *callCtx, x *Num, iv Iv) (Iv, bool) {
		r := relax(Iv{math.Exp(iv.lo), math.Exp(iv.hi)})
		if iv.hi <= 0 {
			r.hi = 1
		}
		return r, false
	})
	unary("Log", func(c *callCtx, x *Num, iv Iv) (Iv, bool) {
		return relax(Iv{math.Log(math.Max(iv.lo, 0)), math.Log(math.Max(iv.hi, 0))}), iv.lo < 0
	})
	unary("Log2", func(c *callCtx, x *Num, iv Iv) (Iv, bool) {
		return relax(Iv{math.Log2(math.Max(iv.lo, 0)), math.Log2(math.Max(iv.hi, 0))}), iv.lo < 0
	})
	rnd := func(name string, f func(float64) float64, d Iv) {
		m["math."+name] = func(c *callCtx) []Outcome {
			x := num(c, 0)
			iv := c.st.iv(x)
			if isIntLin(x.L) {
				return ret(c, x)
			}
			n := c.it.consNum(c.st, name+"("+x.L.key+")", name, Iv{f(iv.lo), f(iv.hi)}, iv.finite(), x.L)
			if c.st.mayNaN(x.L) {
				n.L.t[0].s.nan = true
			} else {
				c.st.assume(linSub(n.L, x.L), d)
			}
			return ret(c, n)
		}
	}
	rnd("Floor", math.Floor, Iv{-1, 0})
	rnd("Ceil", math.Ceil, Iv{0, 1})
	rnd("Round", math.Round, Iv{-0.5, 0.5})
	rnd("Trunc", math.Trunc, Iv{-1, 1})
	m["math.Abs"] = func(c *callCtx) []Outcome {
		x := num(c, 0)
		iv := c.st.iv(x)
		if x.L.isConst() {
			return ret(c, c.it.constNum(math.Abs(x.L.c)))
		}
		if c.st.mayNaN(x.L) {
			hi := math.Max(math.Abs(iv.lo), math.Abs(iv.hi))
			n := c.it.freshNum("abs", Iv{0, hi}, true, false)
			n.L.t[0].s.addDeps(x.L)
			return ret(c, n)
		}
		e := c.st.entail(x.L)
		neg := func(s *State) Outcome {
			i := s.iv(x)
			return Outcome{st: s, ret: &Num{linScale(x.L, -1), Iv{math.Max(0, -i.hi), -i.lo}}}
		}
		pos := func(s *State) Outcome {
			i := s.iv(x)
			return Outcome{st: s, ret: &Num{x.L, Iv{math.Max(0, i.lo), i.hi}}}
		}
		if iv.lo >= 0 || e.lo >= 0 {
			return []Outcome{pos(c.st)}
		}
		if iv.hi <= 0 || e.hi <= 0 {
			return []Outcome{neg(c.st)}
		}
		s2 := c.st.clone()
		var out []Outcome
		if c.st.assume(x.L, Iv{0, math.Inf(1)}) {
			out = append(out, pos(c.st))
		}
		if s2.assume(x.L, Iv{math.Inf(-1), -tiny}) {
			out = append(out, neg(s2))
		}
		return out
	}
	mm := func(isMax bool) Model {
		return func(c *callCtx) []Outcome { return c.it.minmax(c.st, num(c, 0), num(c, 1), isMax) }
	}
	m["math.Max"] = mm(true)
	m["math.Min"] = mm(false)
	m["math.Mod"] = func(c *callCtx) []Outcome {
		x, y := num(c, 0), num(c, 1)
		if x.L.isConst() && y.L.isConst() && y.L.c != 0 && !c.st.mayNaN(x.L) {
			return ret(c, c.it.constNum(math.Mod(x.L.c, y.L.c)))
		}
		ix, iy := c.st.iv(x), c.st.iv(y)
		nan := c.st.mayNaN(x.L) || c.st.mayNaN(y.L) || !ix.finite() || iy.has(0)
		if iy.isConst() && iy.lo > 0 && !nan {
			if ix.lo >= 0 && ix.hi < iy.lo || ix.lo > -iy.lo && ix.hi < iy.lo && ix.lo >= 0 {
				return ret(c, x)
			}
		}
		hi := math.Max(math.Abs(iy.lo), math.Abs(iy.hi))
		r := Iv{-math.Nextafter(hi, 0), math.Nextafter(hi, 0)}
		if ix.lo >= 0 {
			r.lo = 0
			r.hi = math.Min(r.hi, ix.hi)
		}
		if ix.hi <= 0 {
			r.hi = 0
			r.lo = math.Max(r.lo, ix.lo)
		}
		key := "mod(" + x.L.key + "," + y.L.key + ")"
		if nan {
			key += "?"
		}
		n := c.it.consNum(c.st, key, "mod("+x.L.String()+","+y.L.String()+")", r, false, x.L, y.L)
		s := n.L.t[0].s
		s.kind = "mod"
		if nan {
			s.nan = true
		}
		if y.L.isConst() && math.Abs(y.L.c-twoPi) < 1e-12 {
			s.cong = x.L
		}
		return ret(c, n)
	}
	m["math.Remainder"] = func(c *callCtx) []Outcome {
		x, y := num(c, 0), num(c, 1)
		if x.L.isConst() && y.L.isConst() && y.L.c != 0 && !c.st.mayNaN(x.L) {
			return ret(c, c.it.constNum(math.Remainder(x.L.c, y.L.c)))
		}
		ix, iy := c.st.iv(x), c.st.iv(y)
		nan := c.st.mayNaN(x.L) || c.st.mayNaN(y.L) || !ix.finite() || iy.has(0)
		hi := math.Max(math.Abs(iy.lo), math.Abs(iy.hi)) / 2
		key := "rem(" + x.L.key + "," + y.L.key + ")"
		if nan {
			key += "?"
		}
		n := c.it.consNum(c.st, key, "remainder("+x.L.String()+","+y.L.String()+")", Iv{-hi, hi}, false, x.L, y.L)
		s := n.L.t[0].s
		s.kind = "rem"
		if nan {
			s.nan = true
		}
		if y.L.isConst() && math.Abs(y.L.c-twoPi) < 1e-12 {
			s.cong = x.L
		}
		return ret(c, n)
	}
	m["math.Atan2"] = func(c *callCtx) []Outcome {
		y, x := num(c, 0), num(c, 1)
		nan := c.st.mayNaN(x.L) || c.st.mayNaN(y.L)
		us, uc := y.L.unit(), x.L.unit()
		if us != nil && uc != nil && us.kind == "sin" && uc.kind == "cos" && us.args[0].key == uc.args[0].key && !nan {
			return ret(c, c.it.wrapAngle(c.st, us.args[0]))
		}
		key := "atan2(" + y.L.key + "," + x.L.key + ")"
		if nan {
			key += "?"
		}
		n := c.it.consNum(c.st, key, "atan2", Iv{-math.Pi, math.Pi}, false, y.L, x.L)
		n.L.t[0].s.kind = "atan2"
		if nan {
			n.L.t[0].s.nan = true
		}
		return ret(c, n)
	}
	m["math.Hypot"] = func(c *callCtx) []Outcome {
		x, y := num(c, 0), num(c, 1)
		hi := math.Inf(1)
		ix, iy := c.st.iv(x), c.st.iv(y)
		if ix.finite() && iy.finite() {
			hi = math.Hypot(math.Max(math.Abs(ix.lo), math.Abs(ix.hi)), math.Max(math.Abs(iy.lo), math.Abs(iy.hi))) * (1 + 1e-15)
		}
		nan := c.st.mayNaN(x.L) || c.st.mayNaN(y.L)
		n := c.it.consNum(c.st, fmt.Sprintf("hypot(%s,%s)%v", x.L.key, y.L.key, nan), "hypot", Iv{0, hi}, false, x.L, y.L)
		n.L.t[0].s.kind = "hypot"
		n.L.t[0].s.nan = nan
		if !nan {
			c.st.boundNorm(n, x.L, y.L)
		}
		return ret(c, n)
	}
	m["math.Pow"] = func(c *callCtx) []Outcome {
		x, y := num(c, 0), num(c, 1)
		ix, iy := c.st.iv(x), c.st.iv(y)
		r := ivTop
		nan := c.st.mayNaN(x.L) || c.st.mayNaN(y.L) || ix.lo < 0
		if ix.lo >= 0 {
			p := []float64{math.Pow(ix.lo, iy.lo), math.Pow(ix.lo, iy.hi), math.Pow(ix.hi, iy.lo), math.Pow(ix.hi, iy.hi)}
			r = Iv{p[0], p[0]}
			for _, v := range p {
				if math.IsNaN(v) {
					r = Iv{0, math.Inf(1)}
					break
				}
				r = r.join(Iv{v, v})
			}
			if ix.has(1) {
				r = r.join(Iv{1, 1})
			}
			r = relax(r)
		} else if y.L.isConst() && y.L.c == 2 {
			nan = c.st.mayNaN(x.L)
			h := math.Max(math.Abs(ix.lo), math.Abs(ix.hi))
			r = Iv{0, h * h}
		}
		n := c.it.consNum(c.st, fmt.Sprintf("pow(%s,%s)%v", x.L.key, y.L.key, nan), "pow", r, false, x.L, y.L)
		n.L.t[0].s.nan = nan
		if y.L.isConst() && y.L.c == 2 {
			n.L.t[0].s.kind = "pow2"
		}
		return ret(c, n)
	}
	m["math.IsNaN"] = func(c *callCtx) []Outcome {
		x := num(c, 0)
		v := &BoolV{k: 2, cond: &Cond{kind: "nan", L: x.L}}
		if d := c.st.decide(v); d != 2 {
			v = &BoolV{k: d}
		}
		return ret(c, v)
	}
	m["math.IsInf"] = func(c *callCtx) []Outcome {
		x := num(c, 0)
		sign := num(c, 1)
		iv := c.st.iv(x)
		if iv.finite() {
			return ret(c, boolK(false))
		}
		var out []Outcome
		sg := 0.0
		if sign.L.isConst() {
			sg = sign.L.c
		}
		u := x.L.unit()
		branch := func(b Iv, v bool, inf bool) {
			s := c.st.clone()
			if u != nil {
				if inf {
					if !s.assumeNonNaN(x.L) {
						return
					}
				}
				if !s.setBound(u, b) {
					if inf || !s.mayNaN(x.L) {
						return
					}
					s.isNaN[u] = true
				}
			}
			out = append(out, Outcome{st: s, ret: boolK(v)})
		}
		inf := math.Inf(1)
		fin := Iv{-math.MaxFloat64, math.MaxFloat64}
		if iv.hi == inf {
			branch(Iv{inf, inf}, sg >= 0, true)
		}
		if iv.lo == -inf {
			branch(Iv{-inf, -inf}, sg <= 0, true)
		}
		branch(fin, false, false)
		return out
	}
	m["math.Inf"] = func(c *callCtx) []Outcome {
		s := num(c, 0)
		if s.L.isConst() && s.L.c < 0 {
			return ret(c, c.it.constNum(math.Inf(-1)))
		}
		return ret(c, c.it.constNum(math.Inf(1)))
	}
	m["math.NaN"] = func(c *callCtx) []Outcome {
		n := c.it.freshNum("NaN", ivTop, true, false)
		c.st.isNaN[n.L.t[0].s] = true
		return ret(c, n)
	}

	// ---- errors, fmt ----
	mkErr := func(c *callCtx, wraps []Value, desc string) Value {
		return &IfaceV{alts: []IfT{{nil, &ErrV{wraps: wraps, pos: c.pos, desc: desc}}}, nilp: 0, name: "error"}
	}
	m["errors.New"] = func(c *callCtx) []Outcome {
		d := ""
		if s, ok := c.args[0].(*StrV); ok {
			d = s.s
		}
		return ret(c, mkErr(c, nil, d))
	}
	m["fmt.Errorf"] = func(c *callCtx) []Outcome {
		d := ""
		if s, ok := c.args[0].(*StrV); ok {
			d = s.s
		}
		var wraps []Value
		if strings.Contains(d, "%w") && len(c.args) > 1 {
			if sl, ok := c.args[1].(*SliceV); ok && sl.o != nil {
				if a, ok := c.it.content(c.st, sl.o).(*ArrV); ok {
					for _, e := range a.e {
						if iv, ok := c.it.force(c.st, e).(*IfaceV); ok {
							wraps = append(wraps, iv)
						}
					}
				}
			}
		}
		return ret(c, mkErr(c, wraps, d))
	}
	m["errors.Is"] = func(c *callCtx) []Outcome {
		t, _ := c.args[1].(*IfaceV)
		e, _ := c.args[0].(*IfaceV)
		if t == nil || e == nil || len(t.alts) != 1 {
			return ret(c, c.it.unkBool("errors.Is"))
		}
		te, ok := t.alts[0].v.(*ErrV)
		if !ok || te.global == nil {
			return ret(c, c.it.unkBool("errors.Is"))
		}
		if e.nilp == 2 {
			return ret(c, boolK(false))
		}
		all, none := errIs(e, te.global)
		if all {
			return ret(c, boolK(true))
		}
		if none {
			return ret(c, boolK(false))
		}
		return ret(c, c.it.unkBool("errors.Is"))
	}
	pureStr := func(c *callCtx) []Outcome { return ret(c, &StrV{id: c.it.id(), name: "str"}) }
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "strings.Repeat", "strings.Join", "strings.ToUpper", "strings.ToLower", "strconv.Itoa"} {
		m[n] = pureStr
	}
	for n, f := range map[string]func(string) string{"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace} {
		m[n] = func(c *callCtx) []Outcome {
			if s, ok := strOf(c.st, c.args[0]); ok {
				return ret(c, &StrV{known: true, s: f(s)})
			}
			return pureStr(c)
		}
	}
	for n, f := range map[string]func(rune) rune{"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower} {
		m[n] = func(c *callCtx) []Outcome {
			if x, ok := c.args[0].(*Num); ok && x.L.isConst() {
				return ret(c, c.it.constNum(float64(f(rune(x.L.c)))))
			}
			return ret(c, c.it.freshNum("rune", Iv{math.MinInt32, math.MaxInt32}, false, true))
		}
	}
	base := m["fmt.Sprintf"]
	m["fmt.Sprintf"] = func(c *callCtx) []Outcome {
		f, known := strOf(c.st, c.args[0])
		var args []interface{}
		if sl, ok := c.args[1].(*SliceV); known && ok && sl.nilp != 2 {
			a, _ := c.it.content(c.st, sl.o).(*ArrV)
			known = a != nil
			if known {
				for _, e := range a.e {
					v, ok := hostVal(c.st, c.it.force(c.st, e))
					known = known && ok
					args = append(args, v)
				}
			}
		}
		if !known {
			return base(c)
		}
		return ret(c, &StrV{known: true, s: fmt.Sprintf(f, args...)})
	}
	itoa := m["strconv.Itoa"]
	m["strconv.Itoa"] = func(c *callCtx) []Outcome {
		if n, ok := c.args[0].(*Num); ok && n.L.isConst() {
			return ret(c, &StrV{known: true, s: fmt.Sprint(int64(n.L.c))})
		}
		return itoa(c)
	}

	// ---- time ----
	m["(time.Duration).Seconds"] = func(c *callCtx) []Outcome {
		x := num(c, 0)
		return ret(c, &Num{linScale(x.L, 1e-9), relax(scaleIv(c.st.iv(x), 1e-9))})
	}
	m["(time.Duration).Milliseconds"] = func(c *callCtx) []Outcome {
		x := num(c, 0)
		iv := c.st.iv(x)
		n := c.it.consNum(c.st, "ms("+x.L.key+")", "ms", Iv{math.Trunc(iv.lo / 1e6), math.Trunc(iv.hi / 1e6)}, true, x.L)
		return ret(c, n)
	}
	m["time.Now"] = func(c *callCtx) []Outcome {
		t := c.sig.Results().At(0).Type()
		return ret(c, &OpaqueV{typ: t, id: c.it.id(), name: "now"})
	}
	m["time.Since"] = func(c *callCtx) []Outcome {
		n := c.it.freshNum("since", Iv{-(1 << 62), 1 << 62}, false, true)
		return ret(c, n)
	}

	m["time.NewTicker"] = func(c *callCtx) []Outcome {
		c.st.event("newticker", c.pos, num(c, 0))
		r := resultOf(c, "ticker")
		if p, ok := r.(*PtrV); ok && len(p.ts) == 1 {
			p.ts[0].o.name = "ticker"
		}
		return ret(c, r)
	}

	// ---- randomness ----
	m["crypto/rand.Read"] = func(c *callCtx) []Outcome {
		c.st.event("cryptorand", c.pos, nil)
		if s, ok := c.args[0].(*SliceV); ok && s.o != nil {
			if a, ok := c.it.content(c.st, s.o).(*ArrV); ok {
				n := &ArrV{typ: a.typ, e: make([]Value, len(a.e))}
				for i := range n.e {
					b := c.it.freshNum("crypto", Iv{0, 255}, false, true)
					b.L.t[0].s.orig = "crypto"
					n.e[i] = b
				}
				c.st.mem[s.o] = n
			}
		}
		er := c.sig.Results().At(1).Type()
		bad := c.st.clone()
		return []Outcome{
			{st: c.st, ret: TupleV{c.it.freshNum("n", Iv{0, 1 << 40}, false, true), c.it.zero(er)}},
			{st: bad, ret: TupleV{c.it.constNum(0), &IfaceV{unknown: true, nilp: 0, id: c.it.id(), typ: er, name: "rand.err"}}},
		}
	}
	be := func(w float64) Model {
		return func(c *callCtx) []Outcome {
			n := c.it.freshNum("u", Iv{0, w}, false, true)
			for _, a := range c.args {
				if s, ok := a.(*SliceV); ok && s.o != nil {
					if arr, ok := c.it.content(c.st, s.o).(*ArrV); ok {
						for _, e := range arr.e {
							if x, ok := c.it.force(c.st, e).(*Num); ok {
								n.L.t[0].s.addDeps(x.L)
							}
						}
					}
				}
			}
			return ret(c, n)
		}
	}
	for _, e := range []string{"bigEndian", "littleEndian"} {
		m["(encoding/binary."+e+").Uint64"] = be(math.MaxUint64)
		m["(encoding/binary."+e+").Uint32"] = be(math.MaxUint32)
	}
	m["runtime.NumCPU"] = func(c *callCtx) []Outcome {
		return ret(c, c.it.consNum(c.st, "NumCPU", "NumCPU", Iv{1, 4096}, true))
	}

	// ---- mutexes ----
	lock := func(mode int) Model {
		return func(c *callCtx) []Outcome { c.it.lock(c, mode); return ret(c, nil) }
	}
	unlock := func(mode int) Model {
		return func(c *callCtx) []Outcome { c.it.unlock(c, mode); return ret(c, nil) }
	}
	m["(*sync.Mutex).Lock"] = lock(2)
	m["(*sync.RWMutex).Lock"] = lock(2)
	m["(*sync.RWMutex).RLock"] = lock(1)
	m["(*sync.Mutex).Unlock"] = unlock(2)
	m["(*sync.RWMutex).Unlock"] = unlock(2)
	m["(*sync.RWMutex).RUnlock"] = unlock(1)
	m["(*sync.Once).Do"] = func(c *callCtx) []Outcome {
		f, ok := c.args[1].(*FuncV)
		if !ok {
			return ret(c, nil)
		}
		s2 := c.st.clone()
		out := c.it.CallFunc(c.st, f, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), c.pos)
		for i := range out {
			out[i].ret = nil
		}
		return append(out, Outcome{st: s2})
	}
	installAtomics(it)
	installSyncMap(it)
	installContext(it)
}

// hostVal: the concrete integer, string or bool an interface holds.
func hostVal(st *State, v Value) (interface{}, bool) {
	i, ok := v.(*IfaceV)
	if !ok || len(i.alts) != 1 || i.nilp != 0 || i.unknown {
		return nil, false
	}
	switch x := i.alts[0].v.(type) {
	case *Num:
		b, isB := i.alts[0].typ.Underlying().(*types.Basic)
		if n := st.iv(x); isB && b.Info()&types.IsInteger != 0 && n.isConst() {
			return int64(n.lo), true
		}
	case *StrV:
		return strOf(st, x)
	}
	return nil, false
}

func scaleIv(i Iv, k float64) Iv { r, _ := ivMul(i, Iv{k, k}); return r }

// wrapAngle is the canonical representative of an angle in [-π, π].
func (it *Interp) wrapAngle(st *State, d *Lin) *Num {
	if d.isConst() {
		return it.constNum(math.Atan2(math.Sin(d.c), math.Cos(d.c)))
	}
	neg := len(d.t) > 0 && d.t[0].c < 0
	if neg {
		d = linScale(d, -1)
	}
	n := it.consNum(st, "wrap("+d.key+")", "angle("+d.String()+")", Iv{-math.Pi, math.Pi}, false, d)
	s := n.L.t[0].s
	s.kind = "wrap"
	s.cong = d
	if neg {
		return &Num{linScale(n.L, -1), Iv{-math.Pi, math.Pi}}
	}
	return n
}

// errIs: (certainly matches, certainly does not match)
func errIs(e *IfaceV, g *ssa.Global) (bool, bool) {
	if e.unknown || e.nilp == 1 {
		return false, false
	}
	all, none := true, true
	for _, a := range e.alts {
		ev, ok := a.v.(*ErrV)
		if !ok {
			return false, false
		}
		hit, miss := ev.global == g, ev.global != g
		for _, w := range ev.wraps {
			if iv, ok := w.(*IfaceV); ok {
				wa, wn := errIs(iv, g)
				if len(iv.alts) > 0 || iv.unknown {
					hit = hit || wa
					miss = miss && wn
				}
			}
		}
		if strings.HasPrefix(ev.desc, "ctx.Err") {
			miss = false
		}
		all = all && hit
		none = none && miss
	}
	return all, none
}

// ---- locks ----

func ptrOf(v Value) *PtrV { p, _ := v.(*PtrV); return p }

func lockKey(it *Interp, p *PtrV) (string, PtrT) {
	if p == nil {
		return "?", PtrT{}
	}
	ts := p.ts
	if len(ts) == 0 {
		return "?", PtrT{}
	}
	return cellKey(ts[0]), ts[0]
}

func lockSnapshot(st *State) string {
	var p []string
	for _, k := range keysSorted(st.locks) {
		p = append(p, fmt.Sprintf("%s:%d@%d", k, st.locks[k], st.lockEp[k]))
	}
	return strings.Join(p, ",")
}

func (it *Interp) lock(c *callCtx, mode int) {
	k, t := lockKey(it, ptrOf(c.args[0]))
	held := c.st.locks[k] != 0
	c.st.event("lock", c.pos, &LockEv{k, mode, t, held})
	if t.o != nil {
		if pt, f := parentField(t.o.typ, t.path); pt != nil {
			if it.lockName == nil {
				it.lockName = map[string]string{}
			}
			it.lockName[k] = fieldKey(pt, f)
		}
	}
	c.st.locks[k] = mode
	c.st.lockEp[k] = it.id()
	if t.o == nil || !t.o.input || len(t.path) == 0 {
		return
	}
	// other goroutines may have changed the guarded fields
	parent := PtrT{t.o, t.path[:len(t.path)-1]}
	pt := typeAt(t.o.typ, parent.path)
	it.havocFields(c.st, parent, pt)
}

func (it *Interp) havocFields(st *State, parent PtrT, pt types.Type) {
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !it.P.mutable[fieldKey(pt, f.Name())] {
			continue
		}
		cell := PtrT{parent.o, append(append([]int(nil), parent.path...), i)}
		it.write(st, cell, &Lazy{typ: f.Type(), name: parent.o.name + "." + f.Name(), parent: pt, field: f.Name(), input: true})
	}
	if it.onHavoc != nil {
		it.onHavoc(it, st, parent, pt)
	}
}

func (it *Interp) unlock(c *callCtx, mode int) {
	k, t := lockKey(it, ptrOf(c.args[0]))
	held := c.st.locks[k] == mode
	c.st.event("unlock", c.pos, &LockEv{k, mode, t, held})
	delete(c.st.locks, k)
	delete(c.st.lockEp, k)
}

// ---- atomics ----

func (it *Interp) cellOf(c *callCtx) (PtrT, string, bool) {
	p := ptrOf(c.args[0])
	if p == nil || !it.checkNil(c.st, p, c.pos) {
		return PtrT{}, "", false
	}
	ts := it.targets(c.st, p)
	if len(ts) == 0 {
		return PtrT{}, "", false
	}
	t := ts[0]
	pt, f := parentField(t.o.typ, t.path)
	k := ""
	if pt != nil {
		k = fieldKey(pt, f)
	} else {
		k = t.o.typ.String()
	}
	return t, k, true
}

func (it *Interp) shared(t PtrT) bool { return t.o.input && it.volatileAtomics }

// atomRead returns the current contents of an atomic cell of element type et.
func (it *Interp) atomRead(st *State, t PtrT, field string, et types.Type, pos token.Pos, isValue bool) Value {
	if !it.shared(t) {
		if it.pubLocal {
			st.event("lload", pos, &LoadEv{cell: t, field: field})
		}
		v := it.getPath(st, it.content(st, t.o), t.path)
		if s, isStruct := v.(*StructV); isStruct || v == nil {
			if _, elemIsStruct := et.Underlying().(*types.Struct); !elemIsStruct || isAtomicStruct(s) {
				if t.o.input {
					v = it.freshAtomic(st, t, field, et, isValue, 0)
				} else if isValue {
					v = &IfaceV{nilp: 2, typ: et}
				} else {
					v = it.zero(et)
				}
				it.write(st, t, v)
			}
		}
		return it.force(st, v)
	}
	id := it.id()
	v := it.force(st, it.freshAtomic(st, t, field, et, isValue, id))
	st.event("aload", pos, &LoadEv{t, field, id, v, lockSnapshot(st)})
	return v
}

func isAtomicStruct(s *StructV) bool {
	if s == nil {
		return false
	}
	n, ok := s.typ.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "atomic")
}

func (it *Interp) freshAtomic(st *State, t PtrT, field string, et types.Type, isValue bool, id int) Value {
	name := shortName(field)
	orig := fmt.Sprintf("load:%d", id)
	if !isValue {
		pt, f := parentField(t.o.typ, t.path)
		l := &Lazy{typ: et, name: name, parent: pt, field: f, input: true, orig: orig}
		v := it.force(st, l)
		if p, ok := v.(*PtrV); ok {
			if !it.atomNonNil[field] {
				p.nilp, p.id = 1, it.id()
			}
		}
		return v
	}
	nilp := 1
	if it.atomNonNil[field] {
		nilp = 0
	}
	r := &IfaceV{nilp: nilp, id: it.id(), name: name, typ: et}
	tys := it.P.atomTypes[field]
	if it.P.atomUnk[field] || it.P.atomUnk["*"] || len(tys) == 0 {
		r.unknown = true
		return r
	}
	for _, ty := range tys {
		r.alts = append(r.alts, IfT{ty, &Lazy{typ: ty, name: name, input: true, orig: orig}})
	}
	if len(it.P.atomTypes["*"]) > 0 {
		r.unknown = true
	}
	// force the alternatives now so the load is one snapshot
	for i := range r.alts {
		r.alts[i].v = it.force(st, r.alts[i].v)
	}
	return r
}

func (it *Interp) atomWrite(st *State, t PtrT, field string, v Value, pos token.Pos, cas bool, expected Value) {
	if it.shared(t) || it.pubLocal {
		ev := &PubEv{local: !it.shared(t), cell: t, field: field, raw: v, v: v, cas: cas, expected: expected, locks: lockSnapshot(st)}
		ev.v = it.derefPub(st, v, ev)
		st.event("publish", pos, ev)
		if it.shared(t) {
			return
		}
	}
	it.write(st, t, v)
}

// derefPub snapshots the pointed-to contents of a published pointer.
func (it *Interp) derefPub(st *State, v Value, ev *PubEv) Value {
	switch x := v.(type) {
	case *IfaceV:
		if len(x.alts) == 1 {
			return it.derefPub(st, it.force(st, x.alts[0].v), ev)
		}
	case *PtrV:
		if len(x.ts) == 1 && len(x.ts[0].path) == 0 {
			ev.pubObj = x.ts[0].o
			if it.everPub == nil {
				it.everPub = map[*Obj]bool{}
			}
			it.everPub[x.ts[0].o] = true
			return it.content(st, x.ts[0].o)
		}
	}
	return v
}

func installAtomics(it *Interp) {
	m := it.models
	anyT := types.NewInterfaceType(nil, nil)
	reg := func(prefix string, elem func(c *callCtx) types.Type, isValue bool) {
		m[prefix+".Load"] = func(c *callCtx) []Outcome {
			t, k, ok := c.it.cellOf(c)
			if !ok {
				return defaultExternal(c)
			}
			return []Outcome{{st: c.st, ret: c.it.atomRead(c.st, t, k, elem(c), c.pos, isValue)}}
		}
		m[prefix+".Store"] = func(c *callCtx) []Outcome {
			t, k, ok := c.it.cellOf(c)
			if !ok {
				return defaultExternal(c)
			}
			c.it.atomWrite(c.st, t, k, c.it.force(c.st, c.args[1]), c.pos, false, nil)
			return []Outcome{{st: c.st}}
		}
		m[prefix+".Swap"] = func(c *callCtx) []Outcome {
			t, k, ok := c.it.cellOf(c)
			if !ok {
				return defaultExternal(c)
			}
			old := c.it.atomRead(c.st, t, k, elem(c), c.pos, isValue)
			c.it.atomWrite(c.st, t, k, c.it.force(c.st, c.args[1]), c.pos, false, nil)
			return []Outcome{{st: c.st, ret: old}}
		}
		m[prefix+".CompareAndSwap"] = func(c *callCtx) []Outcome {
			t, k, ok := c.it.cellOf(c)
			if !ok {
				return defaultExternal(c)
			}
			fail := c.st.clone()
			exp := c.it.force(c.st, c.args[1])
			nv := c.it.force(c.st, c.args[2])
			if !c.it.shared(t) {
				// sequential cell: the comparison is decided by the current contents when possible
				cur := c.it.atomRead(c.st, t, k, elem(c), c.pos, isValue)
				b := c.it.casEq(c.st, cur, exp)
				var out []Outcome
				if b != 0 {
					c.it.atomWrite(c.st, t, k, nv, c.pos, true, exp)
					out = append(out, Outcome{st: c.st, ret: boolK(true)})
				}
				if b != 1 {
					out = append(out, Outcome{st: fail, ret: boolK(false)})
				}
				return out
			}
			c.it.atomWrite(c.st, t, k, nv, c.pos, true, exp)
			return []Outcome{{st: c.st, ret: boolK(true)}, {st: fail, ret: boolK(false)}}
		}
		m[prefix+".CAS"] = m[prefix+".CompareAndSwap"]
		add := func(sign float64, inc bool) Model {
			return func(c *callCtx) []Outcome {
				t, k, ok := c.it.cellOf(c)
				if !ok {
					return defaultExternal(c)
				}
				cur, _ := c.it.atomRead(c.st, t, k, elem(c), c.pos, false).(*Num)
				d := c.it.constNum(1)
				if !inc {
					d, _ = c.it.force(c.st, c.args[1]).(*Num)
				}
				if cur == nil || d == nil {
					return defaultExternal(c)
				}
				nv := c.it.addNum(c.st, cur, d, sign)
				if c.it.shared(t) {
					c.st.event("publish", c.pos, &PubEv{cell: t, field: k, v: nv, raw: nv, cas: true, expected: cur, delta: d, locks: lockSnapshot(c.st)})
				} else {
					c.it.write(c.st, t, nv)
				}
				return []Outcome{{st: c.st, ret: nv}}
			}
		}
		m[prefix+".Add"] = add(1, false)
		m[prefix+".Sub"] = add(-1, false)
		m[prefix+".Inc"] = add(1, true)
		m[prefix+".Dec"] = add(-1, true)
	}
	basic := func(k types.BasicKind) func(c *callCtx) types.Type {
		return func(c *callCtx) types.Type { return types.Typ[k] }
	}
	reg("(*sync/atomic.Value)", func(c *callCtx) types.Type { return anyT }, true)
	for _, p := range []string{"(*sync/atomic.", "(*go.uber.org/atomic."} {
		for n, k := range map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64, "Bool": types.Bool, "Float64": types.Float64, "String": types.String} {
			reg(p+n+")", basic(k), false)
		}
	}
	ptrElem := func(c *callCtx) types.Type {
		// (*atomic.Pointer[T]).Load() *T
		if c.fn != nil {
			if r := c.fn.Signature.Recv(); r != nil {
				if n, ok := r.Type().(*types.Pointer).Elem().(*types.Named); ok && n.TypeArgs().Len() == 1 {
					return types.NewPointer(n.TypeArgs().At(0))
				}
			}
		}
		return types.Typ[types.UnsafePointer]
	}
	reg("(*sync/atomic.Pointer[T])", ptrElem, false)
	// package-level functions on plain integers
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		k := map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64}[w]
		et := func(c *callCtx) types.Type { return types.Typ[k] }
		tmp := map[string]Model{}
		save := it.models
		it.models = tmp
		m = tmp
		reg("X", et, false)
		it.models = save
		m = save
		m["sync/atomic.Load"+w] = tmp["X.Load"]
		m["sync/atomic.Store"+w] = tmp["X.Store"]
		m["sync/atomic.Add"+w] = tmp["X.Add"]
		m["sync/atomic.Swap"+w] = tmp["X.Swap"]
		m["sync/atomic.CompareAndSwap"+w] = tmp["X.CompareAndSwap"]
	}
}

// casEq: 1 equal, 0 different, 2 unknown.
func (it *Interp) casEq(st *State, a, b Value) int {
	a, b = it.force(st, a), it.force(st, b)
	switch x := a.(type) {
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return 2
		}
		if x == y {
			return 1
		}
		if x.nilp == 2 && y.nilp == 2 {
			return 1
		}
		if len(x.alts) == 1 && len(y.alts) == 1 && x.nilp == 0 && y.nilp == 0 {
			return it.casEq(st, x.alts[0].v, y.alts[0].v)
		}
	case *PtrV:
		y, ok := b.(*PtrV)
		if ok && len(x.ts) == 1 && len(y.ts) == 1 && x.nilp == 0 && y.nilp == 0 {
			if x.ts[0].o == y.ts[0].o && samePath(x.ts[0].path, y.ts[0].path) {
				return 1
			}
			return 0
		}
	case *Num:
		y, ok := b.(*Num)
		if ok && x.L.key == y.L.key {
			return 1
		}
	}
	return 2
}

// ---- sync.Map ----

type SMapEv struct {
	cell  PtrT
	field string
	key   Value
	val   Value
	hit   int
}

func (it *Interp) smapC(st *State, t PtrT) *MapC {
	v := it.getPath(st, it.content(st, t.o), t.path)
	if c, ok := v.(*MapC); ok {
		return c
	}
	anyT := types.NewInterfaceType(nil, nil)
	c := &MapC{typ: types.NewMap(anyT, anyT), entries: map[string][2]Value{}, unknown: t.o.input, name: "smap", n: it.constNum(0)}
	it.write(st, t, c)
	return c
}

func (it *Interp) smapAny(st *State, field string, what string) Value {
	r := &IfaceV{nilp: 0, id: it.id(), name: shortName(field) + "." + what}
	if what == "key" {
		r.alts = []IfT{{types.Typ[types.String], &StrV{id: it.id(), name: r.name}}}
		return r
	}
	tys := it.P.smapTypes[field]
	if it.P.smapUnk[field] || len(tys) == 0 {
		r.unknown = true
		return r
	}
	for _, ty := range tys {
		r.alts = append(r.alts, IfT{ty, it.force(st, &Lazy{typ: ty, name: shortName(field), input: true})})
	}
	return r
}

func smapKey(st *State, k Value) string {
	if i, ok := k.(*IfaceV); ok && len(i.alts) == 1 {
		if s, ok := i.alts[0].v.(*StrV); ok && !s.known {
			if v, ok := st.strEq[s.id]; ok {
				return "s:" + v
			}
			return fmt.Sprintf("sid:%d", s.id)
		}
		return constKey(st, i.alts[0].v)
	}
	return ""
}

func installSyncMap(it *Interp) {
	m := it.models
	m["(*sync.Map).Store"] = func(c *callCtx) []Outcome {
		t, k, ok := c.it.cellOf(c)
		if !ok {
			return defaultExternal(c)
		}
		st := c.st
		key, val := c.it.force(st, c.args[1]), c.it.force(st, c.args[2])
		mc := c.it.smapC(st, t)
		n := &MapC{typ: mc.typ, entries: map[string][2]Value{}, unknown: mc.unknown, name: mc.name, sum: mc.sum, sumKey: mc.sumKey, n: mc.n}
		n.keys = append(n.keys, mc.keys...)
		for a, b := range mc.entries {
			n.entries[a] = b
		}
		if ks := smapKey(st, key); ks != "" {
			if _, ok := n.entries[ks]; !ok {
				n.keys = append(n.keys, ks)
			}
			n.entries[ks] = [2]Value{key, val}
		} else {
			jc := &joinCtx{it: c.it, a: st, b: st, out: st, fresh: true}
			n.addSum(jc, key, val, fmt.Sprintf("sm%d", c.it.id()))
		}
		c.it.write(st, t, n)
		st.event("smapstore", c.pos, &SMapEv{t, k, key, val, 1})
		return []Outcome{{st: st}}
	}
	load := func(c *callCtx) []Outcome {
		t, k, ok := c.it.cellOf(c)
		if !ok {
			return defaultExternal(c)
		}
		st := c.st
		key := c.it.force(st, c.args[1])
		mc := c.it.smapC(st, t)
		nilI := &IfaceV{nilp: 2}
		out := func(s *State, v Value, hit int) Outcome {
			s.event("smapload", c.pos, &SMapEv{t, k, key, v, hit})
			return Outcome{st: s, ret: TupleV{v, boolK(hit == 1)}}
		}
		if ks := smapKey(st, key); ks != "" && !c.it.shared(t) {
			if e, ok := mc.entries[ks]; ok {
				return []Outcome{out(st, e[1], 1)}
			}
		}
		if ks := smapKey(st, key); c.it.exactMaps && !mc.unknown && mc.sum == nil && !c.it.shared(t) {
			// every key is known: one path per entry the key can equal
			if ks != "" && !strings.HasPrefix(ks, "sid:") {
				return []Outcome{out(st, nilI, 0)}
			}
			if i, ok := key.(*IfaceV); ok && len(i.alts) == 1 {
				var rs []Outcome
				for _, kk := range mc.keys {
					s := st.clone()
					if c.it.assumeKey(s, i.alts[0].v, kk) {
						rs = append(rs, out(s, mc.entries[kk][1], 1))
					}
					if !c.it.assumeKeyNot(st, i.alts[0].v, kk) {
						return rs
					}
				}
				return append(rs, out(st, nilI, 0))
			}
		}
		var rs []Outcome
		if mc.unknown {
			s := st.clone()
			rs = append(rs, out(s, c.it.smapAny(s, k, "val"), 1))
		} else {
			var vals []Value
			for _, kk := range mc.keys {
				vals = append(vals, mc.entries[kk][1])
			}
			if mc.sum != nil {
				vals = append(vals, mc.sum)
			}
			if len(vals) > 0 {
				s := st.clone()
				rs = append(rs, out(s, c.it.joinMany(s, vals), 1))
			}
		}
		rs = append(rs, out(st, nilI, 0))
		return rs
	}
	m["(*sync.Map).Load"] = load
	// the atomic combinations: one load, then the change in the same step
	combine := func(c *callCtx, change func(c *callCtx, hit bool, old Value) Outcome) []Outcome {
		var rs []Outcome
		for _, o := range load(c) {
			t, ok := o.ret.(TupleV)
			if !ok || len(t) != 2 {
				rs = append(rs, o)
				continue
			}
			b, _ := t[1].(*BoolV)
			q := *c
			q.st = o.st
			rs = append(rs, change(&q, b != nil && o.st.decide(b) == 1, t[0]))
		}
		return rs
	}
	m["(*sync.Map).LoadAndDelete"] = func(c *callCtx) []Outcome {
		return combine(c, func(c *callCtx, hit bool, old Value) Outcome {
			for _, o := range m["(*sync.Map).Delete"](c) {
				return Outcome{st: o.st, ret: TupleV{old, boolK(hit)}}
			}
			return Outcome{st: c.st, ret: TupleV{old, boolK(hit)}}
		})
	}
	m["(*sync.Map).LoadOrStore"] = func(c *callCtx) []Outcome {
		return combine(c, func(c *callCtx, hit bool, old Value) Outcome {
			if hit {
				return Outcome{st: c.st, ret: TupleV{old, boolK(true)}}
			}
			m["(*sync.Map).Store"](c)
			return Outcome{st: c.st, ret: TupleV{c.args[2], boolK(false)}}
		})
	}
	m["(*sync.Map).Swap"] = func(c *callCtx) []Outcome {
		return combine(c, func(c *callCtx, hit bool, old Value) Outcome {
			m["(*sync.Map).Store"](c)
			return Outcome{st: c.st, ret: TupleV{old, boolK(hit)}}
		})
	}
	m["(*sync.Map).Delete"] = func(c *callCtx) []Outcome {
		t, k, ok := c.it.cellOf(c)
		if !ok {
			return defaultExternal(c)
		}
		mc := c.it.smapC(c.st, t)
		n := &MapC{typ: mc.typ, entries: map[string][2]Value{}, unknown: mc.unknown, name: mc.name, sum: mc.sum, sumKey: mc.sumKey, n: mc.n}
		ks := smapKey(c.st, c.args[1])
		for _, kk := range mc.keys {
			if kk != ks {
				n.keys = append(n.keys, kk)
				n.entries[kk] = mc.entries[kk]
			}
		}
		c.it.write(c.st, t, n)
		c.st.event("smapdelete", c.pos, &SMapEv{t, k, c.args[1], nil, 1})
		return []Outcome{{st: c.st}}
	}
	m["(*sync.Map).Clear"] = func(c *callCtx) []Outcome {
		t, k, ok := c.it.cellOf(c)
		if !ok {
			return defaultExternal(c)
		}
		mc := c.it.smapC(c.st, t)
		c.it.write(c.st, t, &MapC{typ: mc.typ, entries: map[string][2]Value{}, name: mc.name, n: c.it.constNum(0)})
		c.st.event("smapclear", c.pos, &SMapEv{t, k, nil, nil, 1})
		return []Outcome{{st: c.st}}
	}
	m["(*sync.Map).Range"] = func(c *callCtx) []Outcome {
		t, k, ok := c.it.cellOf(c)
		f, okf := c.args[1].(*FuncV)
		if !ok || !okf {
			return defaultExternal(c)
		}
		it := c.it
		c.st.event("smaprange", c.pos, &SMapEv{t, k, nil, nil, 1})
		if mc := it.smapC(c.st, t); it.exactMaps && it.fixDepth == 0 && !mc.unknown && mc.sum == nil && !it.shared(t) {
			return it.rangeExact(c, k, mc, f)
		}
		it.phiTag++
		it.fixDepth++
		defer func() { it.fixDepth-- }()
		tag := fmt.Sprintf("R%d", it.phiTag)
		memo := map[string]interface{}{}
		inv := c.st
		it.smapC(inv, t)
		entry := inv.clone()
		narrowed := false
		var panics []Outcome
		for iter := 0; ; iter++ {
			if iter > 40 {
				it.undec = append(it.undec, "Range callback did not stabilise")
				break
			}
			panics = nil
			it.obsPush()
			type kv struct{ k, v Value }
			st := inv.clone()
			mc := it.smapC(st, t)
			var items []kv
			for _, kk := range mc.keys {
				items = append(items, kv{mc.entries[kk][0], mc.entries[kk][1]})
			}
			if mc.sum != nil {
				items = append(items, kv{it.instantiate(st, mc.sumKey), it.instantiate(st, mc.sum)})
			}
			if mc.unknown {
				items = append(items, kv{it.smapAny(st, k, "key"), it.smapAny(st, k, "val")})
			}
			next := inv
			changed := false
			var backs []*State
			for _, x := range items {
				for _, o := range it.CallFunc(st.clone(), f, []Value{x.k, x.v}, nil, c.pos) {
					if o.panicked {
						panics = append(panics, o)
						continue
					}
					o.st.event("rangecb", c.pos, &RangeCb{k, it.force(o.st, o.ret)})
					backs = append(backs, o.st)
					jc := newJoin(it, next, o.st, tag)
					jc.memo = memo
					jc.widen = iter >= 3
					jc.loop = true
					jc.states()
					changed = changed || jc.changed
					next = jc.out
				}
			}
			if !changed && (narrowed || len(backs) == 0) {
				it.obsPop(true)
				break
			}
			it.obsPop(false)
			if !changed {
				// one narrowing pass, verified inductive on the next round
				narrowed = true
				next = entry.clone()
				for _, b := range backs {
					jc := newJoin(it, next, b, tag)
					jc.memo = memo
					jc.loop = true
					jc.narrowBase = inv
					jc.states()
					next = jc.out
				}
			}
			inv = next
		}
		return append(panics, Outcome{st: inv})
	}
}

// rangeExact visits known entries one after another and stops where the callback returns false.
func (it *Interp) rangeExact(c *callCtx, field string, mc *MapC, f *FuncV) []Outcome {
	cur := []*State{c.st}
	var done []Outcome
	for _, kk := range mc.keys {
		e := mc.entries[kk]
		var next []*State
		for _, st := range cur {
			for _, o := range it.CallFunc(st, f, []Value{e[0], e[1]}, nil, c.pos) {
				if o.panicked {
					done = append(done, o)
					continue
				}
				b, _ := it.force(o.st, o.ret).(*BoolV)
				o.st.event("rangecb", c.pos, &RangeCb{field, b})
				stop := o.st.clone()
				if b == nil {
					b = &BoolV{k: 2}
				}
				if stop.assumeBool(b, false) {
					done = append(done, Outcome{st: stop})
				}
				if o.st.assumeBool(b, true) {
					next = append(next, o.st)
				}
			}
		}
		cur = next
		if len(cur) > it.unrollPaths {
			cur = it.mergeIters(cur)
		}
	}
	for _, st := range cur {
		done = append(done, Outcome{st: st})
	}
	return done
}

type RangeCb struct {
	field string
	ret   Value
}

// ---- context ----

func installContext(it *Interp) {
	m := it.models
	m["iface:(context.Context).Err"] = func(c *callCtx) []Outcome {
		nm := ctxName(c.recv)
		e := &ErrV{desc: "ctx.Err:" + nm}
		np := 1
		if c.st.ctxDone(nm) {
			np = 0
		}
		return []Outcome{{st: c.st, ret: &IfaceV{alts: []IfT{{nil, e}}, nilp: np, id: c.it.id(), name: "ctx.Err"}}}
	}
	m["iface:(context.Context).Done"] = func(c *callCtx) []Outcome {
		return []Outcome{{st: c.st, ret: &OpaqueV{id: c.it.id(), name: "done:" + ctxName(c.recv), nilp: 0}}}
	}
	derive := func(c *callCtx) []Outcome {
		p, _ := c.args[0].(*IfaceV)
		n := &IfaceV{unknown: true, nilp: 0, id: c.it.id(), name: "child(" + ctxName(p) + ")"}
		c.st.event("newctx", c.pos, n.name)
		return []Outcome{{st: c.st, ret: TupleV{n, &FuncV{unknown: true, name: "cancel:" + n.name, id: c.it.id()}}}}
	}
	m["context.WithCancel"] = derive
	m["context.WithTimeout"] = derive
	m["context.WithDeadline"] = derive
	m["context.Background"] = func(c *callCtx) []Outcome {
		return []Outcome{{st: c.st, ret: &IfaceV{unknown: true, nilp: 0, id: c.it.id(), name: "background"}}}
	}
}

func ctxName(v Value) string {
	if i, ok := v.(*IfaceV); ok && i != nil {
		return i.name
	}
	return "?"
}

// ctxDone: the path took a select branch receiving from this context's Done channel.
func (s *State) ctxDone(name string) bool {
	for e := s.ev; e != nil; e = e.prev {
		if e.kind == "select" {
			if se, ok := e.data.(*SelectEv); ok && se.idx >= 0 && se.idx < len(se.chans) {
				if o, ok := se.chans[se.idx].(*OpaqueV); ok && o.name == "done:"+name {
					return true
				}
			}
		}
		if e.kind == "recv" {
			if o, ok := e.data.(*OpaqueV); ok && o.name == "done:"+name {
				return true
			}
		}
	}
	return false
}
