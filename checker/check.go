package main

// Check framework: obligations, violations, known findings, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Check struct {
	id     string
	run    func(c *Ctx)
	rules  []string // plain-language rules applied
	assume []string
	floor  map[string]int // rule -> least number of instances confirmed by hand
}

type Obligation struct {
	rule, what string // identity: rule + construct (never a line number)
	ok         bool
	pos        string
	detail     string
	paths      int
}

type Ctx struct {
	P       *Program
	chk     *Check
	tier    string
	obs     map[string]*Obligation
	order   []string
	fns     map[*ssa.Function]bool
	paths   int
	steps   int
	extra   map[string]interface{}
	samples []string
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// ob records one obligation instance; the obligation fails if any instance fails.
func (c *Ctx) ob(rule, what string, ok bool, pos token.Pos, format string, args ...interface{}) {
	c.obAt(rule, what, ok, c.P.pos(pos), format, args...)
}

func (c *Ctx) obAt(rule, what string, ok bool, pos string, format string, args ...interface{}) {
	k := rule + "|" + what
	o := c.obs[k]
	if o == nil {
		o = &Obligation{rule: rule, what: what, ok: true, pos: pos}
		c.obs[k] = o
		c.order = append(c.order, k)
	}
	o.paths++
	if !ok && o.ok {
		o.ok = false
		o.pos = pos
		o.detail = fmt.Sprintf(format, args...)
	}
}

// missing reports an anchor of the property that no longer exists.
func (c *Ctx) missing(what string) {
	c.obAt("anchor", what, false, "-", "construct not found in the source")
}

func (c *Ctx) fn(rel, name string) *ssa.Function {
	var f *ssa.Function
	if i := strings.IndexByte(name, '.'); i > 0 {
		f = c.P.method(rel, name[:i], name[i+1:])
	} else {
		f = c.P.fn(rel, name)
	}
	if f == nil || f.Blocks == nil {
		c.missing(rel + "." + name)
		return nil
	}
	c.fns[f] = true
	return f
}

// run analyses one function from a prepared state; hook sees the events in place.
func (c *Ctx) run(it *Interp, fn *ssa.Function, args []Value, binds []Value, st *State, hook func(s *State, e *Ev)) (rs []Outcome) {
	return c.exec(it, fname(fn), hook, func() []Outcome { return it.Call(fn, args, binds, st, fn.Pos()) })
}

func (c *Ctx) exec(it *Interp, name string, hook func(s *State, e *Ev), body func() []Outcome) (rs []Outcome) {
	old := evHook
	if hook != nil {
		evHook = func(s *State, e *Ev) {
			if it.initBusy == 0 {
				hook(s, e)
			}
		}
	} else {
		evHook = nil
	}
	nu := len(it.undec)
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "analyse", name)
	}
	stack := it.stack
	defer func() {
		evHook = old
		for f := range it.seenFn {
			c.fns[f] = true
		}
		c.steps += it.steps
		it.steps = 0
		if r := recover(); r != nil {
			it.stack, it.fixDepth = stack, 0
			it.obs = nil
			if a, ok := r.(abortErr); ok {
				c.obAt("analysis", name, false, "-", "analysis gave up: %s", a.msg)
				return
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
			}
			c.obAt("analysis", name, false, "-", "analysis failed: %v", r)
		}
	}()
	rs = body()
	c.paths += len(rs)
	for _, u := range dedup(it.undec[nu:]) {
		c.obAt("analysis", name, false, "-", "undecided: %s", u)
	}
	return rs
}

func dedup(s []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func fname(f *ssa.Function) string {
	s := strings.ReplaceAll(f.String(), modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "bio-adapt")
}

// lazyArgs makes unconstrained arguments for fn.
func lazyArgs(it *Interp, fn *ssa.Function) []Value {
	var av []Value
	for _, p := range fn.Params {
		av = append(av, it.lazy(p.Type(), p.Name(), true))
	}
	return av
}

// ---- numeric helpers ----

func best(st *State, n *Num) Iv { return st.iv(n).meet(relax(st.entail(n.L))) }

// le: a <= b on this path (up to rounding of the linear form).
func le(st *State, a, b *Num) bool {
	return leL(st, linSub(a.L, b.L))
}
func leL(st *State, d *Lin) bool {
	return st.entail(d).hi <= 1e-9 || st.evalLin(d).hi <= 1e-9
}

// within: n in iv on this path and not NaN.
func within(st *State, n *Num, iv Iv) bool {
	return !st.mayNaN(n.L) && best(st, n).in(iv)
}

func numStr(st *State, n *Num) string {
	r := n.L.String() + " ∈ " + best(st, n).String()
	if st.mayNaN(n.L) {
		r += " (may be NaN)"
	}
	return r
}

func sameLin(st *State, a, b *Lin) bool {
	d := linSub(a, b)
	if d.isConst() {
		return math.Abs(d.c) < 1e-9
	}
	e := st.entail(d)
	return e.lo >= -1e-9 && e.hi <= 1e-9
}

// field returns a struct value's field by name.
func (it *Interp) field(st *State, v Value, name string) Value {
	v = it.force(st, v)
	if i := strings.IndexByte(name, '.'); i > 0 {
		return it.field(st, it.field(st, v, name[:i]), name[i+1:])
	}
	if i := strings.IndexByte(name, '['); i > 0 {
		a, ok := it.field(st, v, name[:i]).(*ArrV)
		k, err := strconv.Atoi(strings.TrimSuffix(name[i+1:], "]"))
		if !ok || err != nil || k >= len(a.e) {
			return nil
		}
		a.e[k] = it.force(st, a.e[k])
		return a.e[k]
	}
	s, ok := v.(*StructV)
	if !ok {
		return nil
	}
	u := structOf(s.typ)
	if u == nil {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			s.f[i] = it.force(st, s.f[i])
			return s.f[i]
		}
	}
	return nil
}

func (it *Interp) numField(st *State, v Value, name string) *Num {
	n, _ := it.field(st, v, name).(*Num)
	return n
}

// deref returns the contents a pointer refers to, when unique.
func (it *Interp) deref(st *State, v Value) Value {
	v = it.force(st, v)
	if p, ok := v.(*PtrV); ok {
		ts := it.targets(st, p)
		if len(ts) == 1 {
			return it.getPath(st, it.content(st, ts[0].o), ts[0].path)
		}
		return nil
	}
	return v
}

// ret returns the i-th result.
func (it *Interp) ret(o Outcome, i int) Value {
	if t, ok := o.ret.(TupleV); ok {
		if i < len(t) {
			t[i] = it.force(o.st, t[i])
			return t[i]
		}
		return nil
	}
	if i == 0 {
		return it.force(o.st, o.ret)
	}
	return nil
}

func (it *Interp) numRet(o Outcome, i int) *Num { n, _ := it.ret(o, i).(*Num); return n }

// errState: 0 nil for sure, 2 non-nil for sure, 1 unknown
func errNil(st *State, v Value) int {
	e, ok := v.(*IfaceV)
	if !ok {
		return 1
	}
	n := e.nilp
	if n == 1 && e.id != 0 {
		if k, ok := st.nilK[e.id]; ok {
			n = k
		}
	}
	switch n {
	case 0:
		return 2
	case 2:
		return 0
	}
	return 1
}

// isSentinel: the error certainly matches the package-level error variable.
func (c *Ctx) isSentinel(v Value, rel, name string) bool {
	e, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	p := c.P.pkg(rel)
	if p == nil {
		return false
	}
	g, _ := p.Members[name].(*ssa.Global)
	if g == nil {
		return false
	}
	e2 := *e
	if e2.nilp == 1 {
		e2.nilp = 0
	}
	hit, _ := errIs(&e2, g)
	return hit && len(e2.alts) > 0
}

// exported API of a package: functions and methods of exported types.
func (P *Program) api(rel string) []*ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	var out []*ssa.Function
	for _, n := range keysSorted(p.Members) {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			if token.IsExported(n) && m.Blocks != nil {
				out = append(out, m)
			}
		case *ssa.Type:
			if !token.IsExported(n) {
				continue
			}
			nt, ok := m.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				f := nt.Method(i)
				if !f.Exported() {
					continue
				}
				if g := P.prog.FuncValue(f); g != nil && g.Blocks != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// ---- known findings ----

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"` // rule|construct
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil
	}
	return f.Findings
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(P *Program, loadErr error, chk *Check, tier string, t0 time.Time) int {
	c := &Ctx{P: P, chk: chk, tier: tier, obs: map[string]*Obligation{}, fns: map[*ssa.Function]bool{}, extra: map[string]interface{}{}}
	if loadErr != nil {
		c.obAt("analysis", "load", false, "-", "the program does not type-check: %v", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
					}
					c.obAt("analysis", "check", false, "-", "check failed: %v", r)
				}
			}()
			chk.run(c)
		}()
	}
	inst := map[string]int{}
	for _, k := range c.order {
		inst[c.obs[k].rule]++
	}
	if loadErr == nil {
		for r, n := range chk.floor {
			if inst[r] < n {
				c.obAt("instances", r, false, "-", "rule matched %d constructs, at least %d expected: the anchors it reads are gone", inst[r], n)
			}
		}
	}
	known := map[string]Finding{}
	for _, f := range loadFindings() {
		if f.Property == chk.id && f.Status == "known" {
			known[f.Key] = f
		}
	}
	discharged, nk := 0, 0
	var bad []*Obligation
	for _, k := range c.order {
		o := c.obs[k]
		switch {
		case o.ok:
			discharged++
		default:
			if f, ok := known[k]; ok {
				nk++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.id, f.What)
				continue
			}
			bad = append(bad, o)
		}
	}
	var fl []string
	for f := range c.fns {
		if f != nil && inModule(f) {
			fl = append(fl, fname(f))
		}
	}
	sort.Strings(fl)
	var ol []string
	for _, k := range c.order {
		o := c.obs[k]
		s := "discharged"
		if !o.ok {
			s = "FAILED"
		}
		ol = append(ol, fmt.Sprintf("%s: %s [%s] (%d path instances)", s, k, o.pos, o.paths))
	}
	expl := fmt.Sprintf("Static analysis of the type-checked SSA form of the current source: %d functions analysed (callees inlined), %d paths, %d abstract steps; %d obligations of %d rules, %d discharged.", len(fl), c.paths, c.steps, len(c.order), len(inst), discharged)
	cov := map[string]interface{}{
		"explanation": expl, "rules": chk.rules, "obligations": len(c.order), "discharged": discharged,
		"known_findings": nk, "functions": fl, "obligation_list": ol, "rule_instances": inst, "paths": c.paths,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	}
	ev := map[string]interface{}{
		"property": chk.id, "tier": tier, "seed": 1, "level": "other", "coverage": cov,
		"assumptions": chk.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	if ev["assumptions"] == nil || len(chk.assume) == 0 {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, chk.id+".json"), append(b, '\n'), 0o644)
	fmt.Println(expl)
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(dir, chk.id+".violations.txt")
	var sb strings.Builder
	for _, o := range bad {
		line := fmt.Sprintf("%s: rule %q, construct %s: %s", o.pos, o.rule, o.what, o.detail)
		fmt.Println(line)
		sb.WriteString(line + "\n")
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", chk.id, rp)
	return 1
}

func runChecks(ids []string, tier string) int {
	t0 := time.Now()
	P, err := loadProgram()
	rc := 0
	for _, id := range ids {
		found := false
		for _, c := range checks {
			if c.id == id || id == "all" {
				found = true
				if id == "all" {
					t0 = time.Now()
					fmt.Println("==", c.id)
				}
				if runCheck(P, err, c, tier, t0) != 0 {
					rc = 1
				}
				if id == "all" {
					fmt.Printf("   %.1fs\n", time.Since(t0).Seconds())
				}
			}
		}
		if !found {
			fmt.Println("unknown property", id)
			return 2
		}
	}
	return rc
}
