package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) show(st *State, v Value) string { return it.show1(st, v, 0) }
func (it *Interp) show1(st *State, v Value, d int) string {
	if d > 5 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "-"
	case *Lazy:
		if x.memo != nil {
			return it.show1(st, x.memo, d)
		}
		return "lazy(" + x.name + ")"
	case *Num:
		r := x.L.String() + " in " + st.iv(x).String()
		if st.mayNaN(x.L) {
			r += "?NaN"
		}
		return r
	case *BoolV:
		return fmt.Sprint("bool:", st.decide(x))
	case *StrV:
		if x.known {
			return fmt.Sprintf("%q", x.s)
		}
		if v, ok := st.strEq[x.id]; ok {
			return fmt.Sprintf("=%q", v)
		}
		return "str(" + x.name + ")"
	case *StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, it.show1(st, f, d+1))
		}
		return "{" + strings.Join(p, "; ") + "}"
	case TupleV:
		var p []string
		for _, f := range x {
			p = append(p, it.show1(st, f, d+1))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *ArrV:
		var p []string
		for _, f := range x.e {
			p = append(p, it.show1(st, f, d+1))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *SumV:
		return "sum<" + it.show1(st, x.v, d+1) + ">"
	case *PtrV:
		var p []string
		for _, t := range x.ts {
			p = append(p, t.o.name+pathString(t.path))
		}
		return fmt.Sprintf("&%v nil%d any%v", p, x.nilp, x.any)
	case *SliceV:
		r := "slice len " + it.show1(st, x.n, d+1)
		if x.o != nil {
			r += " " + it.show1(st, it.content(st, x.o), d+1)
		}
		return r
	case *IfaceV:
		var p []string
		for _, a := range x.alts {
			if e, ok := a.v.(*ErrV); ok {
				p = append(p, "err:"+e.desc)
			} else {
				p = append(p, a.typ.String()+"="+it.show1(st, a.v, d+1))
			}
		}
		return fmt.Sprintf("iface%v nil%d unk%v", p, x.nilp, x.unknown)
	}
	return fmt.Sprintf("%T", v)
}

func debugMain(P *Program, args []string) {
	if len(args) < 2 {
		return
	}
	// debug: pkg func | pkg Type.Method
	var fn *ssa.Function
	if i := strings.IndexByte(args[1], '.'); i > 0 {
		fn = P.method(args[0], args[1][:i], args[1][i+1:])
	} else {
		fn = P.fn(args[0], args[1])
	}
	if fn == nil {
		fmt.Println("not found")
		return
	}
	it := NewInterp(P)
	if os.Getenv("VERIF_AGENT") != "" {
		it = newAgentInterp(&Ctx{P: P})
	}
	if os.Getenv("VERIF_MAPS") != "" {
		it.mapOrder, it.unrollJoin = 1, true
	}
	var av []Value
	for _, p := range fn.Params {
		av = append(av, it.lazy(p.Type(), p.Name(), true))
	}
	rs := it.Call(fn, av, nil, newState(), fn.Pos())
	for _, r := range rs {
		fmt.Println("RET", r.panicked, it.show(r.st, r.ret))
		for _, e := range r.st.events() {
			s := ""
			switch d := e.data.(type) {
			case *PubEv:
				s = d.field + " := " + it.show(r.st, d.v) + fmt.Sprint(" cas ", d.cas, " ", d.locks)
			case *LoadEv:
				s = d.field
			case map[string]*Ev:
				for k := range d {
					s += k + " "
				}
			default:
				s = fmt.Sprint(d)
			}
			fmt.Println("   ", e.kind, P.pos(e.pos), s)
		}
		if os.Getenv("VERIF_FACTS") != "" {
			fmt.Println("      " + r.st.dumpFacts())
		}
	}
	fmt.Println("undec", it.undec, "steps", it.steps)
}

func (s *State) dumpFacts() string {
	var p []string
	for k, f := range s.facts {
		p = append(p, k+" ∈ "+f.iv.String()+" ("+f.L.String()+")")
	}
	for y, b := range s.bounds {
		p = append(p, y.name+" : "+b.String())
	}
	return strings.Join(p, "\n      ")
}
