package main

// Disk domain: facts "(x, y) lies in the disk of radius r", used for sums of
// unit vectors (the Kuramoto order parameter).  x, y are symbols carried around
// a loop, r is linear in the loop counters.

import "math"

type Disk struct {
	x, y *Sym
	r    *Lin
}

func diskKey(d Disk) string { return linSym(d.x).key + "|" + linSym(d.y).key + "|" + d.r.key }

// vecTerm: w*cos(t) or w*sin(t) as (argument key, kind, weight)
func vecTerm(s *Sym) (arg string, kind string, w *Lin) {
	switch s.kind {
	case "cos", "sin":
		return s.args[0].key, s.kind, linConst(1)
	case "mul":
		if len(s.args) == 2 {
			for i := 0; i < 2; i++ {
				u := s.args[i].unit()
				if u != nil && (u.kind == "cos" || u.kind == "sin") {
					return u.args[0].key, u.kind, s.args[1-i]
				}
			}
		}
	}
	return "", "", nil
}

// radius returns linear upper bounds of |(x, y)|.
func (st *State) radius(x, y *Lin) []*Lin {
	try := func(x, y *Lin, r *Lin) (*Lin, bool) {
		if math.Abs(x.c) > 0 || math.Abs(y.c) > 0 {
			r = linAdd(r, linConst(math.Hypot(x.c, y.c)), 1)
		}
		used := map[int]bool{}
		for _, tx := range x.t {
			ax, kx, wx := vecTerm(tx.s)
			if kx == "" {
				return nil, false
			}
			hit := false
			for j, ty := range y.t {
				ay, ky, wy := vecTerm(ty.s)
				if !used[j] && ky != "" && ky != kx && ay == ax && wy.key == wx.key && math.Abs(tx.c) == math.Abs(ty.c) {
					used[j] = true
					hit = true
					w := linScale(wx, math.Abs(tx.c))
					if i := st.entail(w); i.lo < 0 {
						return nil, false
					}
					r = linAdd(r, w, 1)
					break
				}
			}
			if !hit {
				return nil, false
			}
		}
		for j := range y.t {
			if !used[j] {
				return nil, false
			}
		}
		return r, true
	}
	var out []*Lin
	if r, ok := try(x, y, linConst(0)); ok {
		out = append(out, r)
	}
	for _, d := range st.disk {
		for k := 0; k < 2; k++ {
			dx, dy := d.x, d.y
			if k == 1 {
				dx, dy = dy, dx
			}
			cx, cy := coef(x, dx), coef(y, dy)
			if cx == 0 || math.Abs(cx) != math.Abs(cy) {
				continue
			}
			if r, ok := try(linAdd(x, linSym(dx), -cx), linAdd(y, linSym(dy), -cy), linScale(d.r, math.Abs(cx))); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

func coef(l *Lin, s *Sym) float64 {
	for _, t := range l.t {
		if t.s == s {
			return t.c
		}
	}
	return 0
}

// boundNorm records n <= |(x, y)| for n a symbol.
func (st *State) boundNorm(n *Num, x, y *Lin) {
	ux, uy := x.unit(), y.unit()
	if ux != nil && uy != nil && ux.kind == "div" && uy.kind == "div" && ux.args[1].key == uy.args[1].key {
		den := ux.args[1]
		if st.entail(den).lo > 0 {
			for _, r := range st.radius(ux.args[0], uy.args[0]) {
				if st.entail(linSub(r, den)).hi <= 0 {
					st.assume(n.L, Iv{math.Inf(-1), 1})
				}
			}
		}
	}
	for _, r := range st.radius(x, y) {
		st.assume(linSub(n.L, r), Iv{math.Inf(-1), 0})
	}
}

// squares: l is x*x + y*y
func squares(l *Lin) (*Lin, *Lin, bool) {
	if len(l.t) != 2 || l.c != 0 || l.t[0].c != l.t[1].c || l.t[0].c <= 0 {
		return nil, nil, false
	}
	var v [2]*Lin
	k := math.Sqrt(l.t[0].c)
	for i, t := range l.t {
		if len(t.s.args) == 0 {
			return nil, nil, false
		}
		switch {
		case t.s.kind == "mul" && len(t.s.args) == 2 && t.s.args[0].key == t.s.args[1].key:
		case t.s.kind == "pow2":
		default:
			return nil, nil, false
		}
		v[i] = linScale(t.s.args[0], k)
	}
	return v[0], v[1], true
}

// joinDisks keeps the facts both sides establish and guesses new ones for loops.
func (j *joinCtx) joinDisks() {
	cand := map[string]Disk{}
	for k, d := range j.a.disk {
		cand[k] = d
	}
	if !j.loop {
		for k, d := range j.b.disk {
			cand[k] = d
		}
	}
	if len(j.phis) < 14 {
		for i, p := range j.phis {
			if p.s.isInt {
				continue
			}
			for k := 0; k < i; k++ {
				q := j.phis[k]
				if q.s.isInt {
					continue
				}
				ra, rb := j.a.radius(p.la, q.la), j.b.radius(p.lb, q.lb)
				if len(ra) == 0 || len(rb) == 0 {
					continue
				}
				for _, x := range ra {
					for _, y := range rb {
						dr := linSub(y, x)
						if dr.isConst() && math.Abs(dr.c) < 1e-12 {
							cand[diskKey(Disk{p.s, q.s, x})] = Disk{p.s, q.s, x}
						}
						for _, c := range j.phis {
							if c.s == p.s || c.s == q.s {
								continue
							}
							dk := linSub(c.lb, c.la)
							al := 0.0
							switch {
							case dk.isConst() && dr.isConst() && dk.c != 0:
								al = dr.c / dk.c
							case dk.key == dr.key:
								al = 1
							}
							if al <= 0 {
								continue
							}
							be := linAdd(x, c.la, -al)
							if be.has(c.s) || be.has(p.s) || be.has(q.s) {
								continue
							}
							d := Disk{p.s, q.s, linAdd(linScale(linSym(c.s), al), be, 1)}
							cand[diskKey(d)] = d
						}
					}
				}
			}
		}
	}
	out := map[string]Disk{}
	ok := func(st *State, d Disk, side int) bool {
		x, y, r := j.subst(linSym(d.x), side), j.subst(linSym(d.y), side), j.subst(d.r, side)
		for _, c := range st.radius(x, y) {
			if st.entail(linSub(c, r)).hi <= 1e-12 {
				return true
			}
		}
		return false
	}
	for _, k := range keysSorted(cand) {
		d := cand[k]
		if ok(j.a, d, 0) && ok(j.b, d, 1) {
			out[k] = d
			if _, had := j.a.disk[k]; !had && j.loop {
				// a new fact must be confirmed on the next round
			}
		} else if _, had := j.a.disk[k]; had {
			j.chg()
		}
	}
	j.out.disk = out
}
