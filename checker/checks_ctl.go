package main

// The simulation's keys, runner and restarts: what is pressed happens, and what is measured is shown.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C33", run: checkC33,
		rules: []string{"Every documented key, in both cases, is given to ProcessKey: exactly one event of the documented kind is offered to the channel that Events returns, never waiting for room; other keys offer nothing. A scripted controller sends its events in order, each after its delay; the terminal display gives every key to the controller it was passed.",
			"A runner is built over an opaque simulation and display, and Run is driven with sequences of keys through the real controller, its goroutines run while the display is shown: the simulation is paused, resumed, reset and disrupted exactly as pressed (not reset or disrupted while paused), quitting ends the display's context and nothing else does, and only a key for another goal, scale or pattern ends it with that request as the result.",
			"The display is initialized, shown, updated with every field of the simulation's snapshot, given every field of its statistics at the end unless a switch was requested, and closed; its context ends after the configured timeout, if any, and the simulation's context has ended when Run returns. Errors are returned, and nothing is started after a failed initialization.",
			"main, with its flags opaque, builds the simulation for the chosen scale; after a request it builds the next one with just that choice changed, tells the runner the current choices, and runs it under a context that has not ended; it leaves after a run without a request, and a signal ends whatever runs."},
		assume: []string{"room in the channels for a few events", "the display's Run returns when its context ends"},
		floor:  map[string]int{"key": 30, "script": 2, "actions": 20, "switch": 30, "shown": 8, "run": 6, "restart": 15}})
}

const (
	dispPkg = "simulations/display"
	uiPkg   = "simulations/emerge/ui"
	demoPkg = "simulations/emerge"
)

type aKey struct {
	keys  string
	event string
	goal  string
	scale string
	pat   string
}

var ctlKeys = []aKey{
	{keys: "qQ", event: "EventQuit"}, {keys: "rR", event: "EventReset"}, {keys: "dD", event: "EventDisrupt"}, {keys: "pP", event: "EventPause"}, {keys: " ", event: "EventResume"},
	{keys: "1", event: "ScaleTiny", scale: "Tiny"}, {keys: "2", event: "ScaleSmall", scale: "Small"}, {keys: "3", event: "ScaleMedium", scale: "Medium"}, {keys: "4", event: "ScaleLarge", scale: "Large"}, {keys: "5", event: "ScaleHuge", scale: "Huge"},
	{keys: "bB", event: "GoalBatch", goal: "MinimizeAPICalls"}, {keys: "lL", event: "GoalLoad", goal: "DistributeLoad"}, {keys: "cC", event: "GoalConsensus", goal: "ReachConsensus"}, {keys: "tT", event: "GoalLatency", goal: "MinimizeLatency"},
	{keys: "eE", event: "GoalEnergy", goal: "SaveEnergy"}, {keys: "mM", event: "GoalRhythm", goal: "MaintainRhythm"}, {keys: "fF", event: "GoalFailure", goal: "RecoverFromFailure"}, {keys: "aA", event: "GoalTraffic", goal: "AdaptToTraffic"},
	{keys: "hH", event: "PatternHighFreq", pat: "HighFrequency"}, {keys: "uU", event: "PatternBurst", pat: "Burst"}, {keys: "yY", event: "PatternSteady", pat: "Steady"}, {keys: "xX", event: "PatternMixed", pat: "Mixed"}, {keys: "zZ", event: "PatternSparse", pat: "Sparse"},
}

func checkC33(c *Ctx) {
	w := c.aControl()
	if w == nil {
		return
	}
	w.keyTable()
	w.scripted()
	w.terminal()
	w.runs()
	w.restarts()
}

type ctlWorld struct {
	c       *Ctx
	it      *Interp
	fns     map[string]*ssa.Function
	pauses  int // how often time passes while a goroutine waits
	base    *Ev
	keys    string
	initBad bool
	showBad bool
	snap    Value
	stats   Value
	kinds   map[string]float64
}

func (c *Ctx) aControl() *ctlWorld {
	w := &ctlWorld{c: c, fns: map[string]*ssa.Function{}, kinds: map[string]float64{}}
	for _, f := range [][2]string{{dispPkg, "NewKeyboardController"}, {dispPkg, "KeyboardController.ProcessKey"}, {dispPkg, "KeyboardController.Events"}, {dispPkg, "NewAutomatedController"}, {dispPkg, "AutomatedController.Events"},
		{dispPkg, "TerminalDisplay.Run"}, {uiPkg, "NewRunner"}, {uiPkg, "Runner.Run"}, {demoPkg, "main"}} {
		if w.fns[f[1]] = c.fn(f[0], f[1]); w.fns[f[1]] == nil {
			return nil
		}
	}
	for _, k := range ctlKeys {
		for _, n := range [][2]string{{dispPkg, k.event}, {"emerge/goal", k.goal}, {"emerge/scale", k.scale}, {simPkg + "/pattern", k.pat}} {
			if n[1] == "" {
				continue
			}
			v, ok := c.constVal(n[0], n[1])
			if !ok {
				return nil
			}
			w.kinds[n[1]] = v
		}
	}
	it := c.exactInterp(1)
	it.unrollJoin = false
	it.unrollPaths, it.maxPath = 4000, 20000
	w.it = it
	timeModels(it)
	m := it.models
	derive := func(k *callCtx) []Outcome {
		n := 0
		for e := k.st.ev; e != nil; e = e.prev {
			if e.kind == "newctx" {
				n++
			}
		}
		v := &IfaceV{unknown: true, nilp: 0, id: it.id(), name: fmt.Sprintf("child%d(%s)", n, ctxName(k.args[0]))}
		k.st.event("newctx", k.pos, v.name)
		if strings.HasSuffix(k.name, "Timeout") {
			k.st.event("timeout", k.pos, []Value{v, k.args[1]})
		}
		return []Outcome{{st: k.st, ret: TupleV{v, it.hostFn("cancel", func(k *callCtx) []Outcome {
			k.st.event("cancelled", k.pos, v.name)
			return []Outcome{{st: k.st}}
		})}}}
	}
	m["context.WithCancel"], m["context.WithTimeout"] = derive, derive
	m["os/signal.NotifyContext"] = func(k *callCtx) []Outcome {
		out := derive(k)
		v := out[0].ret.(TupleV)[0].(*IfaceV)
		v.name = "signalled:" + v.name
		return out
	}
	m["time.Sleep"] = func(k *callCtx) []Outcome {
		k.st.event("sleep", k.pos, k.args[0])
		return []Outcome{{st: k.st}}
	}
	it.onSelect = w.ready
	it.onRecv = func(st *State, x *ssa.Select, i int) Value {
		if ch, ok := it.val(st, x.States[i].Chan).(*OpaqueV); ok {
			if b := w.kept(st, ch); len(b) > 0 {
				return b[0]
			}
		}
		return nil
	}
	return w
}

func ended(st *State, ctx string) bool {
	for _, x := range since(st, nil, "cancelled") {
		if strings.Contains(ctx, x.data.(string)) {
			return true
		}
	}
	return false
}

// kept: what a channel holds.
func (w *ctlWorld) kept(st *State, ch *OpaqueV) (buf []Value) {
	for _, e := range since(st, nil, "sent", "select", "recv") {
		switch d := e.data.(type) {
		case []Value:
			if o, ok := d[0].(*OpaqueV); ok && o.id == ch.id {
				buf = append(buf, d[1])
			}
		case *SelectEv:
			if d.idx < 0 {
				continue
			}
			if o, ok := d.chans[d.idx].(*OpaqueV); ok && o.id == ch.id {
				if d.ins.States[d.idx].Dir == types.SendOnly {
					buf = append(buf, d.sends[d.idx])
				} else if len(buf) > 0 {
					buf = buf[1:]
				}
			}
		case *OpaqueV:
			if d.id == ch.id && len(buf) > 0 {
				buf = buf[1:]
			}
		}
	}
	return
}

// ready: a case that can be taken is; time passes only when there is none, a few times; then the user's context ends.
func (w *ctlWorld) ready(st *State, x *ssa.Select, chans []Value) func(int) bool {
	ticks := 0
	for _, e := range since(st, w.base, "select") {
		s := e.data.(*SelectEv)
		if s.idx >= 0 && happening(s.ins, s.idx, s.chans[s.idx]) == seeTick {
			ticks++
		}
	}
	can, any := map[int]bool{}, false
	for i, ch := range chans {
		o, _ := ch.(*OpaqueV)
		switch {
		case x.States[i].Dir == types.SendOnly:
			can[i] = true
		case happening(x, i, ch) == seeCancel:
			can[i] = ended(st, o.name) || ticks >= w.pauses
		case happening(x, i, ch) != seeTick:
			can[i] = o != nil && len(w.kept(st, o)) > 0
		}
		any = any || can[i]
	}
	want := seeCancel
	for i, ch := range chans {
		if happening(x, i, ch) == seeTick {
			want = seeTick
		}
	}
	return func(i int) bool {
		switch {
		case any:
			return can[i]
		case !x.Blocking:
			return i < 0
		}
		return i >= 0 && happening(x, i, chans[i]) == want
	}
}

func (w *ctlWorld) isEvent(st *State, v Value, event string) bool {
	n := w.it.numField(st, v, "Type")
	return n != nil && eqConst(st, n, w.kinds[event])
}

func (w *ctlWorld) controller(st *State) (Value, *State) {
	for _, r := range w.c.run(w.it, w.fns["NewKeyboardController"], nil, nil, st, nil) {
		if v, ok := w.it.ret(r, 0).(*IfaceV); ok && len(v.alts) == 1 && !r.panicked {
			return v, r.st
		}
	}
	w.c.missing("a keyboard controller")
	return nil, st
}

// press gives a key to the controller.
func (w *ctlWorld) press(st *State, kb Value, key rune) []Outcome {
	args := lazyArgs(w.it, w.fns["KeyboardController.ProcessKey"])
	args[0] = kb.(*IfaceV).alts[0].v
	args[1] = w.it.nonNil(st, w.it.force(st, args[1]))
	w.it.setField(st, args[1], "Key", w.it.constNum(float64(key)))
	return w.c.run(w.it, w.fns["KeyboardController.ProcessKey"], args, nil, st, nil)
}

func (w *ctlWorld) events(st *State, kb Value, f string) *OpaqueV {
	for _, r := range w.c.run(w.it, w.fns[f], []Value{kb.(*IfaceV).alts[0].v}, nil, st.clone(), nil) {
		if ch, ok := w.it.ret(r, 0).(*OpaqueV); ok {
			return ch
		}
	}
	w.c.missing("the channel " + f + " returns")
	return nil
}

func (w *ctlWorld) keyTable() {
	c := w.c
	kb, st := w.controller(newState())
	if kb == nil {
		return
	}
	ch := w.events(st, kb, "KeyboardController.Events")
	if ch == nil {
		return
	}
	ready := w.it.onSelect
	for _, full := range []bool{false, true} {
		w.it.onSelect = ready
		if full {
			w.it.onSelect = func(st *State, x *ssa.Select, chans []Value) func(int) bool {
				return func(i int) bool { return i < 0 || x.Blocking }
			}
		}
		try := func(key rune, event string) {
			what := fmt.Sprintf("%q", key)
			for _, r := range w.press(st.clone(), kb, key) {
				if r.panicked {
					c.ob("key", what, false, r.pos, "key %s panics", what)
					continue
				}
				waits := len(since(r.st, st.ev, "send", "recv", "sleep")) > 0
				for _, e := range since(r.st, st.ev, "select") {
					waits = waits || e.data.(*SelectEv).ins.Blocking
				}
				c.ob("key", what+" does not wait", !waits, r.pos, "key %s waits for room in the channel", what)
				got := w.kept(r.st, ch)
				if full {
					continue
				}
				c.ob("key", what, event == "" && len(got) == 0 || event != "" && len(got) == 1 && w.isEvent(r.st, got[0], event), r.pos, "key %s sends %d events or another kind, expected %s", what, len(got), event)
			}
		}
		for _, k := range ctlKeys {
			for _, r := range k.keys {
				try(r, k.event)
			}
		}
		for _, r := range "0679vVwWkKgGsS\r." {
			try(r, "")
		}
	}
	w.it.onSelect = ready
}

func (w *ctlWorld) scripted() {
	c, it := w.c, w.it
	f := w.fns["NewAutomatedController"]
	evT := c.P.typ(dispPkg, "ControlEvent")
	if evT == nil {
		return
	}
	for _, delays := range []int{0, 2, 4} {
		st := newState()
		args := lazyArgs(it, f)
		var evs, ds []Value
		for i := 0; i < 3; i++ {
			v := it.force(st, it.lazy(evT, fmt.Sprintf("event%d", i), false))
			evs = append(evs, v)
		}
		for i := 0; i < delays; i++ {
			ds = append(ds, it.freshNum(fmt.Sprintf("delay%d", i), Iv{0, 1e12}, false, true))
		}
		args[0] = it.sliceOf(st, evT, evs)
		args[1] = it.sliceOf(st, f.Params[1].Type().Underlying().(*types.Slice).Elem(), ds)
		what := fmt.Sprintf("%d delays", delays)
		for _, r := range c.run(it, f, args, nil, st, nil) {
			kb, ok := it.ret(r, 0).(*IfaceV)
			if r.panicked || !ok || len(kb.alts) != 1 {
				c.ob("script", what, false, r.pos, "no controller is built")
				continue
			}
			ch := w.events(r.st, kb, "AutomatedController.Events")
			if ch == nil {
				return
			}
			gos := since(r.st, nil, "go")
			c.ob("script", what+": one run", len(gos) == 1, f.Pos(), "%d goroutines run the script", len(gos))
			for _, g := range gos {
				for _, o := range w.goes(r.st, g) {
					if o.panicked {
						c.ob("script", what, false, o.pos, "the script panics")
						continue
					}
					n, k := 0, 0
					good := true
					for _, e := range since(o.st, r.st.ev, "sent", "sleep", "select") {
						switch d := e.data.(type) {
						case []Value:
							q, ok := d[0].(*OpaqueV)
							good = good && ok && q.id == ch.id && n < 3 && k == min(n+1, delays) &&
								it.numField(o.st, d[1], "Type") == it.numField(o.st, evs[n], "Type")
							n++
						case *Num:
							good = good && k == n && k < delays && sameLin(o.st, d.L, ds[k].(*Num).L)
							k++
						default:
							good = false
						}
					}
					c.ob("script", what, good && n == 3, o.pos, "the script is not sent in order, each event after its delay (%d sent, %d delays)", n, k)
				}
			}
		}
	}
}

// goes runs a goroutine that was started.
func (w *ctlWorld) goes(st *State, g *Ev) []Outcome {
	d := g.data.([]Value)
	f, _ := d[0].(*FuncV)
	if f == nil || f.host == nil && len(f.alts) != 1 {
		w.c.ob("run", "goroutine", false, g.pos, "an unknown function is started as a goroutine")
		return nil
	}
	args, _ := d[1].(TupleV)
	if f.host != nil {
		return w.it.CallFunc(st.clone(), f, args, nil, g.pos)
	}
	return w.it.CallFunc(st.clone(), f, args, f.alts[0].fn.Signature, g.pos)
}

func (w *ctlWorld) terminal() {
	c, it := w.c, w.it
	f := w.fns["TerminalDisplay.Run"]
	const td = "github.com/mum4k/termdash."
	var sub *FuncV
	it.models[td+"KeyboardSubscriber"] = func(k *callCtx) []Outcome {
		k.st.event("subscribed", k.pos, k.args[0])
		sub, _ = k.args[0].(*FuncV)
		return []Outcome{{st: k.st, ret: resultOf(k, "option")}}
	}
	it.models[td+"Run"] = func(k *callCtx) []Outcome {
		k.st.event("shown", k.pos, k.args[0])
		return []Outcome{{st: k.st, ret: resultOf(k, "error")}}
	}
	kb, st := w.controller(newState())
	if kb == nil {
		return
	}
	ch := w.events(st, kb, "KeyboardController.Events")
	args := lazyArgs(it, f)
	args[0] = it.nonNil(st, it.force(st, args[0]))
	args[1] = it.nonNil(st, it.force(st, args[1]))
	args[2] = kb.(*IfaceV).alts[0].v
	for _, r := range c.run(it, f, args, nil, st, nil) {
		shown := since(r.st, nil, "shown")
		good := !r.panicked && ch != nil && len(shown) == 1 && ctxName(shown[0].data.(Value)) == ctxName(args[1]) && len(since(r.st, nil, "subscribed")) == 1 && sub != nil && len(sub.alts) == 1
		c.ob("shown", "terminal", good, r.pos, "the terminal does not run under the given context with one keyboard subscriber")
		if !good {
			continue
		}
		s := r.st.clone()
		key := it.nonNil(s, it.force(s, it.lazy(w.fns["KeyboardController.ProcessKey"].Params[1].Type(), "key", false)))
		it.setField(s, key, "Key", it.constNum('x'))
		for _, o := range c.exec(it, "keyboard subscriber", nil, func() []Outcome {
			return it.CallFunc(s, sub, []Value{key}, sub.alts[0].fn.Signature, f.Pos())
		}) {
			got := w.kept(o.st, ch)
			c.ob("shown", "terminal keys", !o.panicked && len(got) == 1 && w.isEvent(o.st, got[0], "PatternMixed"), f.Pos(), "a key pressed in the terminal does not reach its controller once")
		}
	}
}

// ---- the runner ----

func (it *Interp) anError(desc string) Value {
	return &IfaceV{nilp: 0, id: it.id(), name: desc, alts: []IfT{{nil, &ErrV{desc: desc}}}}
}

func isError(st *State, v Value, desc string) bool {
	i, ok := v.(*IfaceV)
	if !ok || errNil(st, v) != 2 {
		return false
	}
	for _, a := range i.alts {
		e, ok := a.v.(*ErrV)
		if !ok {
			continue
		}
		if e.desc == desc {
			return true
		}
		for _, x := range e.wraps {
			if isError(st, x, desc) {
				return true
			}
		}
	}
	return false
}

// figures: a structure with each field a value of its own.
func (w *ctlWorld) figures(st *State, t types.Type, name string) Value {
	u := structOf(t)
	if u == nil {
		w.c.missing("the fields of " + name)
		return nil
	}
	it := w.it
	s := &StructV{typ: t, f: make([]Value, u.NumFields())}
	for i := range s.f {
		ft, nm := u.Field(i).Type(), name+"."+u.Field(i).Name()
		sl, list := ft.Underlying().(*types.Slice)
		switch {
		case list:
			var e []Value
			for k := 0; k < 3; k++ {
				e = append(e, w.figures(st, sl.Elem(), fmt.Sprintf("%s[%d]", nm, k)))
			}
			s.f[i] = it.sliceOf(st, sl.Elem(), e)
		case structOf(ft) != nil:
			s.f[i] = &OpaqueV{typ: ft, id: it.id(), name: nm}
		default:
			s.f[i] = it.force(st, it.lazy(ft, nm, false))
		}
	}
	return s
}

// differs: a field of the shown structure that is not the measured one ("" = none).
func (w *ctlWorld) differs(st *State, shown, from Value) string {
	it := w.it
	a, b := it.force(st, shown), it.force(st, from)
	x, ok := a.(*StructV)
	u := (*types.Struct)(nil)
	if ok {
		u = structOf(x.typ)
	}
	if u == nil {
		return "everything"
	}
	for i := 0; i < u.NumFields(); i++ {
		n := u.Field(i).Name()
		p, q := it.force(st, x.f[i]), it.field(st, b, n)
		if l, ok := p.(*SliceV); ok {
			k, ok := q.(*SliceV)
			if !ok {
				return n
			}
			e, ok1 := it.content(st, l.o).(*ArrV)
			f, ok2 := it.content(st, k.o).(*ArrV)
			if !ok1 || !ok2 || !eqConst(st, l.n, float64(len(f.e))) || len(e.e) < l.lo+len(f.e) {
				return n
			}
			for j := range f.e {
				if d := w.differs(st, e.e[l.lo+j], f.e[j]); d != "" {
					return fmt.Sprintf("%s[%d].%s", n, j, d)
				}
			}
			continue
		}
		if q == nil || !alike(st, p, q) {
			return n
		}
	}
	return ""
}

func alike(st *State, a, b Value) bool {
	if sameValue(st, a, b) {
		return true
	}
	if x, ok := a.(*BoolV); ok {
		y, ok := b.(*BoolV)
		return ok && x.cond != nil && x.cond == y.cond
	}
	return false
}

func (w *ctlWorld) runModels() {
	it := w.it
	m := it.models
	note := func(kind string) Model {
		return func(k *callCtx) []Outcome {
			k.st.event(kind, k.pos, append([]Value{}, k.args...))
			return []Outcome{{st: k.st, ret: it.okResult(k)}}
		}
	}
	for _, op := range []string{"Pause", "Resume", "Reset", "Disrupt"} {
		m[method(simPkg, "Simulation", op)] = note(op)
	}
	m[method(simPkg, "Simulation", "Start")] = note("start")
	m[method(simPkg, "Simulation", "Snapshot")] = func(k *callCtx) []Outcome {
		w.snap = w.figures(k.st, k.sig.Results().At(0).Type(), "snapshot")
		return []Outcome{{st: k.st, ret: w.snap}}
	}
	m[method(simPkg, "Simulation", "Statistics")] = func(k *callCtx) []Outcome {
		w.stats = w.figures(k.st, k.sig.Results().At(0).Type(), "statistics")
		return []Outcome{{st: k.st, ret: w.stats}}
	}
	d := "iface:(" + modPath + "/" + dispPkg + ".Display)."
	m[d+"Close"], m[d+"ShowWelcome"] = note("closed"), note("welcome")
	m[d+"Update"] = func(k *callCtx) []Outcome {
		k.st.event("update", k.pos, []Value{k.args[0], w.snap})
		return []Outcome{{st: k.st}}
	}
	m[d+"ShowSummary"] = func(k *callCtx) []Outcome {
		k.st.event("summary", k.pos, []Value{k.args[0], w.stats})
		return []Outcome{{st: k.st}}
	}
	m[d+"Initialize"] = func(k *callCtx) []Outcome {
		k.st.event("initialized", k.pos, nil)
		if w.initBad {
			return []Outcome{{st: k.st, ret: it.anError("initialization failed")}}
		}
		return []Outcome{{st: k.st, ret: it.okResult(k)}}
	}
	// the display shows, keys are pressed, and everything that has been started runs meanwhile
	m[d+"Run"] = func(k *callCtx) []Outcome {
		k.st.event("showing", k.pos, k.args[0])
		w.base = nil
		kb := &IfaceV{nilp: 0, alts: []IfT{{nil, k.args[1]}}}
		cur := []Outcome{{st: k.st}}
		for _, key := range w.keys {
			var next []Outcome
			for _, o := range cur {
				for _, r := range w.press(o.st, kb, key) {
					if !r.panicked {
						next = append(next, Outcome{st: r.st})
					}
				}
			}
			cur = next
		}
		for _, g := range since(k.st, nil, "go") {
			var next []Outcome
			for _, o := range cur {
				w.base = o.st.ev
				for _, r := range w.goes(o.st, g) {
					w.c.ob("run", "goroutine", !r.panicked, r.pos, "a goroutine of the runner panics")
					if !r.panicked {
						next = append(next, Outcome{st: r.st})
					}
				}
			}
			cur = next
		}
		for i := range cur {
			cur[i].st.event("shown", k.pos, nil)
			cur[i].ret = it.okResult(k)
			if w.showBad {
				cur[i].ret = it.anError("display failed")
			}
		}
		return cur
	}
}

// okResult: no error.
func (it *Interp) okResult(k *callCtx) Value {
	if k.sig.Results().Len() == 0 {
		return nil
	}
	return it.zero(k.sig.Results().At(0).Type())
}

// aRun: a runner with these choices, and what comes of running it while keys are pressed.
func (w *ctlWorld) aRun(cur aKey, timeout *Num, keys string, each func(r Outcome, ctx Value)) {
	c, it := w.c, w.it
	w.keys = keys
	kb, st := w.controller(newState())
	if kb == nil {
		return
	}
	nw := w.fns["NewRunner"]
	args := lazyArgs(it, nw)
	cfg, ok := it.force(st, args[0]).(*StructV)
	if !ok {
		c.missing("the configuration of a runner")
		return
	}
	u := structOf(cfg.typ)
	set := map[string]Value{"CurrentGoal": it.constNum(w.kinds[cur.goal]), "CurrentScale": it.constNum(w.kinds[cur.scale]), "CurrentPattern": it.constNum(w.kinds[cur.pat]), "Timeout": timeout,
		"UpdateInterval": it.freshNum("interval", Iv{1, 1e12}, false, true)}
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if v := set[u.Field(i).Name()]; v != nil {
			cfg.f[i] = v
			delete(set, u.Field(i).Name())
		}
	}
	if len(set) > 0 {
		c.missing("a setting of the runner")
	}
	args[0] = cfg
	args[1] = it.nonNil(st, it.force(st, args[1]))
	args[2] = &IfaceV{unknown: true, nilp: 0, id: it.id(), name: "display"}
	args[3] = kb
	for _, b := range c.run(it, nw, args, nil, st, nil) {
		if b.panicked {
			c.ob("run", "built", false, b.pos, "no runner is built")
			continue
		}
		run := w.fns["Runner.Run"]
		ra := lazyArgs(it, run)
		ra[0] = it.ret(b, 0)
		ra[1] = it.nonNil(b.st, it.force(b.st, ra[1]))
		n := 0
		for _, r := range c.run(it, run, ra, nil, b.st, nil) {
			n++
			c.ob("run", "no panic", !r.panicked, r.pos, "Run can panic (%q)", keys)
			if !r.panicked {
				each(r, ra[1])
			}
		}
		c.ob("run", "returns", n > 0, run.Pos(), "Run does not return (%q)", keys)
	}
}

// result: the error and the request of a run.
func (w *ctlWorld) result(r Outcome) (err Value, req *Num) {
	res := w.it.deref(r.st, w.it.ret(r, 0))
	return w.it.field(r.st, res, "Error"), w.it.numField(r.st, res, "ScaleEvent")
}

func (w *ctlWorld) runs() {
	c, it := w.c, w.it
	w.runModels()
	w.pauses = 1
	start := aKey{goal: "MinimizeAPICalls", scale: "Tiny", pat: "Burst"}
	none := it.constNum(0)
	pos := w.fns["Runner.Run"].Pos()
	showing := func(st *State) string {
		for _, e := range since(st, nil, "showing") {
			return ctxName(e.data.(Value))
		}
		return ""
	}
	// before the display is told to stop showing
	shownAt := func(st *State) *State {
		s := st.clone()
		for s.ev != nil && s.ev.kind != "shown" {
			s.ev = s.ev.prev
		}
		return s
	}
	ops := "p rd"
	var try func(keys string)
	try = func(keys string) {
		if len(keys) < 3 {
			for _, k := range ops {
				try(keys + string(k))
			}
			return
		}
		for _, last := range []string{"", "q"} {
			var want []string
			paused := false
			for _, k := range keys {
				switch {
				case k == 'p' && !paused:
					want, paused = append(want, "Pause"), true
				case (k == 'p' || k == ' ') && paused:
					want, paused = append(want, "Resume"), false
				case k == 'r' && !paused:
					want = append(want, "Reset")
				case k == 'd' && !paused:
					want = append(want, "Disrupt")
				}
			}
			what := fmt.Sprintf("%q", keys+last)
			w.aRun(start, none, keys+last, func(r Outcome, ctx Value) {
				var got []string
				paused := false
				for _, e := range since(r.st, nil, "Pause", "Resume", "Reset", "Disrupt") {
					if e.kind == "Resume" && !paused {
						continue // nothing to resume
					}
					paused = e.kind == "Pause" || paused && e.kind != "Resume"
					got = append(got, e.kind)
				}
				c.ob("actions", what, strings.Join(got, " ") == strings.Join(want, " "), pos, "keys %s lead to %v, expected %v", what, got, want)
				gone := ended(shownAt(r.st), showing(r.st))
				c.ob("actions", what+" ends", gone == (last == "q"), pos, "after keys %s the display's context has ended: %v", what, gone)
				err, req := w.result(r)
				c.ob("actions", what+" result", errNil(r.st, err) == 0 && req != nil && eqConst(r.st, req, 0), pos, "keys %s make a request or an error", what)
			})
		}
	}
	try("")
	for _, k := range ctlKeys {
		if k.goal+k.scale+k.pat == "" {
			continue
		}
		for _, before := range []string{"", "p"} {
			for _, same := range []bool{false, true} {
				cur := aKey{goal: "MaintainRhythm", scale: "Huge", pat: "Sparse"}
				if k.goal == cur.goal || k.scale == cur.scale || k.pat == cur.pat {
					cur = aKey{goal: "MinimizeAPICalls", scale: "Tiny", pat: "Burst"}
				}
				if same {
					switch {
					case k.goal != "":
						cur.goal = k.goal
					case k.scale != "":
						cur.scale = k.scale
					default:
						cur.pat = k.pat
					}
				}
				keys := before + k.keys[:1]
				what := fmt.Sprintf("%q, current: %v", keys, same)
				w.aRun(cur, none, keys, func(r Outcome, ctx Value) {
					gone := ended(shownAt(r.st), showing(r.st))
					c.ob("switch", what+" ends", gone == !same, pos, "after keys %s the display's context has ended: %v", what, gone)
					err, req := w.result(r)
					want := w.kinds[k.event]
					if same {
						want = 0
					}
					c.ob("switch", what, errNil(r.st, err) == 0 && req != nil && eqConst(r.st, req, want), pos, "keys %s result in another request or an error", what)
					sum := len(since(r.st, nil, "summary"))
					c.ob("switch", what+" summary", same == (sum == 1), pos, "keys %s end with %d summaries", what, sum)
				})
			}
		}
	}
	// an unchanged choice, then a changed one
	w.aRun(start, none, "1u2", func(r Outcome, ctx Value) {
		_, req := w.result(r)
		c.ob("switch", "unchanged, then changed", req != nil && eqConst(r.st, req, w.kinds["ScaleSmall"]), pos, "a changed choice after unchanged ones is not requested")
	})
	// what is shown
	for _, n := range []int{1, 2} {
		w.pauses = n
		for _, timeout := range []*Num{none, it.freshNum("timeout", Iv{1, 1e15}, false, true)} {
			what := fmt.Sprintf("%d updates", n)
			if timeout != none {
				what += ", timeout"
			}
			w.aRun(start, timeout, "", func(r Outcome, ctx Value) {
				st := r.st
				name := showing(st)
				c.ob("run", what+": context", strings.Contains(name, ctxName(ctx)), pos, "the display runs under another context than that given")
				var out []string
				for _, e := range since(st, nil, "initialized", "welcome", "showing", "summary", "closed") {
					out = append(out, e.kind)
				}
				c.ob("shown", what+": order", strings.Join(out, " ") == "initialized welcome showing summary closed", pos, "the display goes through %v", out)
				ups := since(st, nil, "update")
				c.ob("shown", what+": updates", len(ups) == n, pos, "%d updates are shown in %d intervals", len(ups), n)
				for _, e := range append(ups, since(st, nil, "summary")...) {
					d := e.data.([]Value)
					f := "everything"
					if d[1] != nil {
						f = w.differs(st, d[0], d[1])
					}
					c.ob("shown", what+": "+e.kind, f == "", e.pos, "%s is not shown as it was measured", f)
				}
				starts := since(st, nil, "start")
				c.ob("run", what+": started", len(starts) == 1, pos, "the simulation is started %d times", len(starts))
				for _, e := range starts {
					n := ctxName(e.data.([]Value)[1])
					c.ob("run", what+": simulation ends", strings.Contains(n, ctxName(ctx)) && ended(st, n) && !ended(shownAt(st), n), pos, "the simulation's context has not ended when the run has, or before")
				}
				limits := 0
				for _, e := range since(st, nil, "timeout") {
					d := e.data.([]Value)
					if v, ok := d[1].(*Num); ok && strings.Contains(name, ctxName(d[0])) && sameLin(st, v.L, timeout.L) {
						limits++
					} else {
						limits += 10
					}
				}
				c.ob("run", what+": timeout", timeout == none && limits == 0 || timeout != none && limits == 1, pos, "the display's context does not end after the configured timeout")
			})
		}
	}
	w.pauses = 1
	w.initBad = true
	w.aRun(start, none, "", func(r Outcome, ctx Value) {
		err, _ := w.result(r)
		c.ob("run", "failed initialization", isError(r.st, err, "initialization failed") && len(since(r.st, nil, "go", "showing", "update", "summary")) == 0, pos, "after a failed initialization something runs, or the error is lost")
	})
	w.initBad, w.showBad = false, true
	w.aRun(start, none, "", func(r Outcome, ctx Value) {
		err, _ := w.result(r)
		c.ob("run", "failed display", isError(r.st, err, "display failed") && len(since(r.st, nil, "closed")) == 1, pos, "the error of a failed display is lost, or the display is not closed")
	})
	w.showBad = false
}

// ---- main ----

func (w *ctlWorld) restarts() {
	c, it := w.c, w.it
	m := it.models
	main := w.fns["main"]
	var flags map[string]Value
	flag := func(k *callCtx) []Outcome {
		name, _ := strOf(k.st, k.args[0])
		v, ok := flags[name]
		if !ok {
			v = k.args[1]
		}
		t := k.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := &Obj{id: it.id(), name: "flag " + name, typ: t}
		k.st.mem[o] = v
		return []Outcome{{st: k.st, ret: &PtrV{ts: []PtrT{{o: o}}, typ: t}}}
	}
	for _, n := range []string{"String", "Bool", "Duration"} {
		m["flag."+n] = flag
	}
	m["flag.Parse"] = func(k *callCtx) []Outcome { return []Outcome{{st: k.st}} }
	m["os.Exit"] = func(k *callCtx) []Outcome {
		k.st.event("exit", k.pos, k.args[0])
		return []Outcome{{st: k.st, panicked: true, pos: k.pos}}
	}
	simBad := false
	m[modPath+"/"+simPkg+".New"] = func(k *callCtx) []Outcome {
		k.st.event("built", k.pos, it.force(k.st, k.args[0]))
		if simBad {
			return []Outcome{{st: k.st, ret: TupleV{it.zero(k.sig.Results().At(0).Type()), it.anError("no simulation")}}}
		}
		return []Outcome{{st: k.st, ret: TupleV{it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "simulation", false))), it.zero(k.sig.Results().At(1).Type())}}}
	}
	for _, d := range []string{"Terminal", "Text"} {
		m[modPath+"/"+dispPkg+".New"+d+"Display"] = func(k *callCtx) []Outcome {
			return []Outcome{{st: k.st, ret: &IfaceV{unknown: true, nilp: 0, id: it.id(), name: "display"}}}
		}
		for _, f := range []string{"SetSimulationName", "SetGoalName", "SetGoalAndScale", "SetPattern"} {
			m[method(dispPkg, d+"Display", f)] = func(k *callCtx) []Outcome { return []Outcome{{st: k.st}} }
		}
	}
	m[modPath+"/"+uiPkg+".NewRunner"] = func(k *callCtx) []Outcome {
		k.st.event("runner", k.pos, it.force(k.st, k.args[0]))
		return []Outcome{{st: k.st, ret: it.nonNil(k.st, it.force(k.st, it.lazy(k.sig.Results().At(0).Type(), "runner", false)))}}
	}
	resT := c.P.typ(uiPkg, "RunResult")
	if resT == nil {
		c.missing("the result of a run")
		return
	}
	var script []string
	m[method(uiPkg, "Runner", "Run")] = func(k *callCtx) []Outcome {
		n := len(since(k.st, nil, "run"))
		k.st.event("run", k.pos, []Value{k.args[1], boolK(ended(k.st, ctxName(k.args[1])))})
		r := it.zero(resT)
		o := &Obj{id: it.id(), name: "result", typ: resT}
		k.st.mem[o] = r
		p := &PtrV{ts: []PtrT{{o: o}}, typ: resT}
		if n < len(script) {
			if script[n] == "error" {
				it.setField(k.st, p, "Error", it.anError("run failed"))
			} else {
				it.setField(k.st, p, "ScaleEvent", it.constNum(w.kinds[script[n]]))
			}
		}
		return []Outcome{{st: k.st, ret: p}}
	}
	drive := func(what string, fl map[string]Value, sc []string, each func(r Outcome)) {
		flags, script = fl, sc
		n := 0
		for _, r := range c.run(it, main, nil, nil, newState(), nil) {
			exit := len(since(r.st, nil, "exit")) > 0
			c.ob("restart", what+": no panic", !r.panicked || exit, r.pos, "main can panic (%s)", what)
			if !r.panicked || exit {
				n++
				each(r)
			}
		}
		c.ob("restart", what+": returns", n > 0, main.Pos(), "main does not return (%s)", what)
	}
	is := func(st *State, v Value, f string, want float64) bool {
		n := it.numField(st, v, f)
		return n != nil && eqConst(st, n, want)
	}
	type choice struct{ goal, scale, pat float64 }
	auto, ok := c.constVal(simPkg+"/pattern", "Unset")
	if !ok {
		return
	}
	first := choice{w.kinds["MinimizeAPICalls"], w.kinds["Tiny"], auto}
	after := func(ch choice, k aKey) choice {
		switch {
		case k.goal != "":
			ch.goal = w.kinds[k.goal]
		case k.scale != "":
			ch.scale = w.kinds[k.scale]
		case k.pat != "":
			ch.pat = w.kinds[k.pat]
		}
		return ch
	}
	check := func(what string, want []choice) func(r Outcome) {
		return func(r Outcome) {
			built, runners, runs := since(r.st, nil, "built"), since(r.st, nil, "runner"), since(r.st, nil, "run")
			if len(built) != len(want) || len(runners) != len(want) || len(runs) != len(want) || r.panicked {
				c.ob("restart", what, false, main.Pos(), "%d simulations are built and %d run, expected %d (%s)", len(built), len(runs), len(want), what)
				return
			}
			for i, x := range want {
				b, u := built[i].data.(Value), runners[i].data.(Value)
				c.ob("restart", what, is(r.st, b, "Goal", x.goal) && is(r.st, b, "Scale", x.scale) && is(r.st, b, "Pattern", x.pat), built[i].pos, "simulation %d is built for another goal, scale or pattern than chosen (%s)", i+1, what)
				c.ob("restart", what+": runner", is(r.st, u, "CurrentGoal", x.goal) && is(r.st, u, "CurrentScale", x.scale) && (is(r.st, u, "CurrentPattern", x.pat) || x.pat == auto), runners[i].pos, "the runner is told other current choices than those it runs with (%s)", what)
				for f, flag := range map[string]string{"UpdateInterval": "interval", "Timeout": "timeout"} {
					if v, ok := flags[flag].(*Num); ok {
						n := it.numField(r.st, u, f)
						c.ob("restart", what+": "+flag, n != nil && sameLin(r.st, n.L, v.L), runners[i].pos, "the runner does not get the chosen %s", flag)
					}
				}
				d := runs[i].data.([]Value)
				dead, _ := d[1].(*BoolV)
				c.ob("restart", what+": context", dead != nil && dead.k == 0, runs[i].pos, "run %d is given a context that has ended (%s)", i+1, what)
				signalled := strings.Count(ctxName(d[0]), "signalled:")
				for _, g := range since(r.st, nil, "go") {
					base := w.base
					w.base = r.st.ev
					for _, o := range w.goes(r.st, g) {
						for _, e := range since(o.st, r.st.ev, "cancelled") {
							if strings.Contains(ctxName(d[0]), e.data.(string)) {
								signalled++
								break
							}
						}
					}
					w.base = base
				}
				c.ob("restart", what+": signal", signalled == 1, runs[i].pos, "a signal does not end run %d (%s)", i+1, what)
			}
			c.ob("restart", what+": leaves", len(since(r.st, nil, "exit")) == 0, main.Pos(), "main exits with a failure (%s)", what)
		}
	}
	times := map[string]Value{"interval": it.freshNum("interval", Iv{1, 1e12}, false, true), "timeout": it.freshNum("limit", Iv{0, 1e15}, false, true)}
	drive("one run", times, nil, check("one run", []choice{first}))
	for _, k := range ctlKeys {
		if k.scale != "" {
			fl := map[string]Value{"scale": it.strK(strings.ToLower(k.scale))}
			what := "scale " + k.scale
			drive(what, fl, nil, check(what, []choice{after(first, k)}))
		}
		next := after(first, k)
		if next == first {
			continue
		}
		drive(k.event, times, []string{k.event}, check(k.event, []choice{first, next}))
		for _, l := range []aKey{{event: "GoalEnergy", goal: "SaveEnergy"}, {event: "ScaleMedium", scale: "Medium"}, {event: "PatternSteady", pat: "Steady"}} {
			if last := after(next, l); last != next && after(first, l) != last && after(after(first, l), k) == last {
				what := k.event + ", " + l.event
				drive(what, nil, []string{k.event, l.event}, check(what, []choice{first, next, last}))
				what = l.event + ", " + k.event
				drive(what, nil, []string{l.event, k.event}, check(what, []choice{first, after(first, l), last}))
			}
		}
	}
	drive("unknown scale", map[string]Value{"scale": it.strK("gigantic")}, nil, func(r Outcome) {
		c.ob("restart", "unknown scale", r.panicked && len(since(r.st, nil, "run")) == 0, main.Pos(), "a simulation runs although its scale is unknown")
	})
	list := boolK(true)
	drive("list", map[string]Value{"list": list}, nil, func(r Outcome) {
		c.ob("restart", "list", !r.panicked && len(since(r.st, nil, "run")) == 0, main.Pos(), "a simulation runs although only a list was asked for")
	})
	failed := func(r Outcome) {
		ex := since(r.st, nil, "exit")
		n := (*Num)(nil)
		if len(ex) == 1 {
			n, _ = ex[0].data.(*Num)
		}
		c.ob("restart", "failure", n != nil && !eqConst(r.st, n, 0) && len(since(r.st, nil, "run")) <= 1, main.Pos(), "main does not exit with a failure after a failed run")
	}
	drive("failed run", nil, []string{"error"}, failed)
	simBad = true
	drive("failed build", nil, nil, failed)
}
