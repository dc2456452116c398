package main

// Loading /repo into SSA and whole-program facts shared by the checks.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/carlisia/bio-adapt"

type Program struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkgs    map[string]*ssa.Package
	fset     *token.FileSet
	funcs    []*ssa.Function // every function with a body, sorted by position
	splitMul bool

	mutable   map[string]bool         // "pkg.Type.Field" written outside constructors
	atomTypes map[string][]types.Type // "pkg.Type.Field" -> dynamic types stored in an atomic.Value field
	atomUnk   map[string]bool
	smapTypes map[string][]types.Type // value types stored in sync.Map fields
	smapUnk   map[string]bool
	globalMut map[*ssa.Global]bool // written outside package init
	initMemo  map[*ssa.Package]map[*ssa.Global]Value
	initBusy  map[*ssa.Package]bool
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram() (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir(), Env: env,
	}
	pk, err := packages.Load(cfg, "./...", "slices", "maps", "cmp")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repoDir())
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: pk, spkgs: map[string]*ssa.Package{}, fset: prog.Fset, splitMul: true,
		mutable: map[string]bool{}, atomTypes: map[string][]types.Type{}, atomUnk: map[string]bool{},
		smapTypes: map[string][]types.Type{}, smapUnk: map[string]bool{}, globalMut: map[*ssa.Global]bool{},
		initMemo: map[*ssa.Package]map[*ssa.Global]Value{}, initBusy: map[*ssa.Package]bool{}}
	for _, s := range sp {
		if s != nil {
			P.spkgs[s.Pkg.Path()] = s
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && inModule(f) {
			P.funcs = append(P.funcs, f)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		a, b := P.funcs[i], P.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	P.scan()
	return P, nil
}

func inModule(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		return inModule(f.Parent())
	}
	if p == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// core reports whether a function belongs to library code (not test helpers or the simulations' display).
func pkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (P *Program) inScope(fn *ssa.Function) bool { return fn.Blocks != nil }

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(repoDir(), f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (P *Program) pkg(rel string) *ssa.Package {
	if rel == "" {
		return P.spkgs[modPath]
	}
	return P.spkgs[modPath+"/"+rel]
}

// fn finds a package-level function.
func (P *Program) fn(rel, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// method finds a method of a named type (value or pointer receiver).
func (P *Program) method(rel, typ, name string) *ssa.Function {
	t := P.typ(rel, typ)
	if t == nil {
		return nil
	}
	p := P.pkg(rel)
	for _, x := range []types.Type{types.NewPointer(t), t} {
		ms := P.prog.MethodSets.MethodSet(x)
		if s := ms.Lookup(p.Pkg, name); s != nil {
			f := P.prog.MethodValue(s)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	ms := P.prog.MethodSets.MethodSet(types.NewPointer(t))
	if s := ms.Lookup(p.Pkg, name); s != nil {
		f := P.prog.MethodValue(s)
		// unwrap pointer wrappers of value methods
		if f != nil && f.Synthetic != "" {
			if o, ok := s.Obj().(*types.Func); ok {
				if g := P.prog.FuncValue(o); g != nil {
					return g
				}
			}
		}
		return f
	}
	return nil
}

func (P *Program) typ(rel, name string) *types.Named {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func typeKey(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

func fieldKey(t types.Type, f string) string { return typeKey(t) + "." + f }

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldOfAddr names the struct field an address denotes.
func fieldOfAddr(v ssa.Value) (types.Type, string, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, "", false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return t, structOf(t).Field(fa.Field).Name(), true
}

// localAlloc: the base of an address chain is an allocation in the same function (still private there).
func baseOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func (P *Program) scan() {
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if g, ok := baseOf(x.Addr).(*ssa.Global); ok && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
						P.globalMut[g] = true
					}
					a := x.Addr
					for {
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							if u, ok := a.(*ssa.UnOp); ok {
								a = u.X
							}
							continue
						}
						break
					}
					if t, fl, ok := fieldOfAddr(a); ok {
						if al, isAlloc := baseOf(a).(*ssa.Alloc); isAlloc && al.Parent() == f {
							continue
						}
						P.mutable[fieldKey(t, fl)] = true
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if t, fl, ok := fieldOfAddr(u.X); ok {
							P.mutable[fieldKey(t, fl)] = true
						}
						if g, ok := u.X.(*ssa.Global); ok && f.Name() != "init" {
							P.globalMut[g] = true
						}
					}
				case ssa.CallInstruction:
					P.scanCall(x)
				}
			}
		}
	}
}

func (P *Program) scanCall(c ssa.CallInstruction) {
	cc := c.Common()
	fn := cc.StaticCallee()
	if fn == nil {
		return
	}
	rec := func(idx int, m map[string][]types.Type, unk map[string]bool) {
		if len(cc.Args) <= idx {
			return
		}
		t, fl, ok := fieldOfAddr(cc.Args[0])
		var k string
		if ok {
			k = fieldKey(t, fl)
		} else {
			k = "*" // unknown cell: applies to all
			if _, isAlloc := cc.Args[0].(*ssa.Alloc); isAlloc {
				return
			}
			// accessor returning a pointer to a sync.Map field
			if call, ok := cc.Args[0].(*ssa.Call); ok {
				if g := call.Common().StaticCallee(); g != nil {
					if t, fl, ok := returnsField(g); ok {
						k = fieldKey(t, fl)
					}
				}
			}
		}
		v := cc.Args[idx]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			for _, o := range m[k] {
				if types.Identical(o, mi.X.Type()) {
					return
				}
			}
			m[k] = append(m[k], mi.X.Type())
		} else {
			unk[k] = true
		}
	}
	switch fn.String() {
	case "(*sync/atomic.Value).Store", "(*sync/atomic.Value).Swap":
		rec(1, P.atomTypes, P.atomUnk)
	case "(*sync/atomic.Value).CompareAndSwap":
		rec(2, P.atomTypes, P.atomUnk)
	case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
		rec(2, P.smapTypes, P.smapUnk)
	}
}

// returnsField: a method that always returns the address of one field.
func returnsField(f *ssa.Function) (types.Type, string, bool) {
	var rt types.Type
	var rf string
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok && len(r.Results) == 1 {
				t, fl, ok := fieldOfAddr(r.Results[0])
				if !ok {
					return nil, "", false
				}
				rt, rf = t, fl
			}
		}
	}
	return rt, rf, rt != nil
}

// globalInit evaluates package initialisers abstractly to get the contents of
// package-level tables; nil when the global is reassigned elsewhere or unknown.
func (P *Program) globalInit(it *Interp, g *ssa.Global) Value {
	if P.globalMut[g] || g.Pkg == nil || P.spkgs[g.Pkg.Pkg.Path()] != g.Pkg {
		return nil
	}
	key := "ginit:" + g.Pkg.Pkg.Path()
	if it.memo[key] == nil {
		m := map[*ssa.Global]Value{}
		it.memo[key] = m
		init := g.Pkg.Func("init")
		if init == nil {
			return nil
		}
		func() {
			saveStack := it.stack
			it.initBusy++
			defer func() {
				it.stack = saveStack
				it.initBusy--
				if r := recover(); r != nil {
					if _, ok := r.(abortErr); !ok {
						panic(r)
					}
				}
			}()
			it.stack = nil
			rs := it.Call(init, nil, nil, newState(), init.Pos())
			if len(rs) != 1 || rs[0].panicked {
				return
			}
			for o, v := range rs[0].st.mem {
				if o.global != nil {
					m[o.global] = v
					if !isErrorType(o.typ) {
						o.lazy = v
					}
				} else {
					o.lazy = v
					o.input = true
				}
			}
		}()
	}
	m := it.memo[key].(map[*ssa.Global]Value)
	return m[g]
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
