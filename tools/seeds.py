SEEDS=[]
def seed(id,prop,edits,pkg,demo,needs,what,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,demo=demo,needs=needs,what=what,**k))

A='emerge/agent/agent.go'
seed('goal-negative','C01',[(A,'''			s.LocalGoal = core.WrapPhase(myPhase + effectiveShift)''','''			s.LocalGoal = math.Mod(myPhase+effectiveShift, 2*math.Pi)''')],'emerge/agent','''
package agent

import "testing"

func TestZZDemo(t *testing.T) {
	a := New("a", WithPhase(0.2), WithSwarmInfo(3, 2))
	b := New("b", WithPhase(5.5))
	a.ConnectTo("b", b)
	a.UpdateContext()
	if g := a.LocalGoal(); g < 0 || g > 6.2831853072 {
		t.Fatalf("local goal %v left the circle", g)
	}
}
''','neighbours slightly behind an agent whose phase is near 0','the preferred phase becomes negative after a context update')

seed('random-freq-nolock','C04',[(A,'''	a.behavior.Update(func(b *BehaviorData) {
		b.Stubbornness = stubbornness
	})''','''	b := a.behavior.Load()
	b.Stubbornness = stubbornness
	a.behavior.Store(b)''')],'emerge/agent','''
package agent

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for r := 0; r < 400; r++ {
		a := New("a")
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 1; i <= 200; i++ {
				v := float64(i) / 256
				a.SetInfluence(v)
				if a.Influence() != v {
					t.Errorf("influence %v was lost: %v", v, a.Influence())
					return
				}
			}
		}()
		go func() {
			defer wg.Done()
			for i := 1; i <= 200; i++ {
				a.SetStubbornness(float64(i) / 256)
			}
		}()
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
''','SetInfluence completes between the load and the store of SetStubbornness','a completed SetInfluence is overwritten with an older value')

seed('affordable-proposal','C06',[(A,'''	if chosen.Cost > state.Energy {
		return core''','''	if proposal.Cost > state.Energy {
		return core''')],'emerge/agent','''
package agent

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

type strat struct{}

func (strat) Propose(core.State, core.State, core.Context) (core.Action, float64) {
	return core.Action{Type: "phase_nudge", Value: 0.1, Cost: 0.01}, 1
}
func (strat) Name() string { return "s" }

type dec struct{}

func (dec) Decide(_ core.State, o []core.Action) (core.Action, float64) { return o[len(o)-1], 1 }

func TestZZDemo(t *testing.T) {
	a := New("a", WithStubbornness(0), WithStrategy(strat{}), WithDecisionMaker(dec{}), WithEnergy(0.05))
	for i := 0; i < 20; i++ {
		if c, ok := a.ProposeAdjustment(core.State{}); ok && c.Cost > a.Energy() {
			t.Fatalf("accepted an action costing %v with energy %v", c.Cost, a.Energy())
		}
	}
}
''','a decision maker that chooses another option than the proposal, with energy between the two costs','an action the agent cannot afford is accepted')

seed('lock-coherence-boost','C07',[('emerge/strategy/frequency_lock.go','''	adjustment := diff * s.SyncRate
''','''	adjustment := diff * s.SyncRate * (1 + context.Density*(1-context.LocalCoherence))
''')],'emerge/strategy','''
package strategy

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s := NewFrequencyLock(0.9)
	act, _ := s.Propose(core.State{Phase: 0}, core.State{Phase: 1}, core.Context{Density: 0.8, LocalCoherence: 0.1})
	if math.Abs(act.Value) > 1 {
		t.Fatalf("moves %v although the target is 1 away", act.Value)
	}
}
''','a high rate with dense, incoherent neighbours','the proposal overshoots the target')

seed('decide-same-type','C08',[('emerge/decision/simple.go','''	for _, action := range options {
''','''	for i, action := range options {
		// The first option with a value stands for the others
		if i > 0 && action.Value != 0 && action.Value == bestAction.Value {
			continue
		}
''')],'emerge/decision','''
package decision

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	d := &SimpleDecisionMaker{}
	a, _ := d.Decide(core.State{}, []core.Action{{Type: "a", Value: 1, Cost: 1, Benefit: 0.2}, {Type: "a", Value: 1, Cost: 1, Benefit: 1}})
	if a.Benefit != 1 {
		t.Fatalf("chose %+v", a)
	}
}
''','two offered actions of the same value, the better one later','a better offered action is passed over')

seed('token-release-race','C09',[('internal/resource/token.go','''	t.mu.Lock()
	defer t.mu.Unlock()

	// Ignore negative releases to maintain resource integrity
	if amount <= 0 {
		return
	}

	current := t.tokens.Load()
	t.tokens.Store(''','''	// Ignore negative releases to maintain resource integrity
	if amount <= 0 {
		return
	}

	current := t.tokens.Load()
	t.mu.Lock()
	defer t.mu.Unlock()
	t.tokens.Store(''')],'internal/resource','''
package resource

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for r := 0; r < 300; r++ {
		m := NewTokenManager(1e9)
		m.Request(5e8)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 500; i++ {
					m.Release(m.Request(1))
				}
			}()
		}
		wg.Wait()
		if m.Available() != 5e8 {
			t.Fatalf("available %v after balanced requests and releases", m.Available())
		}
	}
}
''','another request or release between the read of the count and the lock in Release','tokens are lost or handed out twice')

seed('wrap-tiny','C10',[('emerge/core/phase.go','''	return math.Mod(math.Mod(phase, 2*math.Pi)+2*math.Pi, 2*math.Pi)''','''	if phase >= -2*math.Pi && phase < 4*math.Pi {
		// fast path: at most one turn away
		if phase < 0 {
			return phase + 2*math.Pi
		}
		if phase > 2*math.Pi {
			return phase - 2*math.Pi
		}
		return phase
	}
	return math.Mod(math.Abs(phase), 2*math.Pi)''')],'emerge/core','''
package core

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, p := range []float64{-1, 7, 100, -7, -20.5, -1000} {
		w := WrapPhase(p)
		if w < 0 || w > 2*math.Pi || math.Abs(math.Remainder(w-p, 2*math.Pi)) > 1e-6 {
			t.Fatalf("WrapPhase(%v) = %v", p, w)
		}
	}
}
''','a phase below minus one full turn','far negative phases are reflected instead of wrapped')

seed('random-one','C11',[('internal/random/random.go','''	return float64(u) / float64(1<<53)''','''	return float64(u) / float64((1<<53)-1)''')],'internal/random','''
package random

import (
	"crypto/rand"
	"testing"
)

type ones struct{}

func (ones) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0xff
	}
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = ones{}
	defer func() { rand.Reader = old }()
	if v := Float64(); v >= 1 {
		t.Fatalf("Float64 returned %v", v)
	}
}
''','the source delivers all one bits','Float64 returns 1, outside [0, 1)')
seed('blend-long-way','C12',[('emerge/goal/manager.go','''	blendedPhase := core.WrapPhase(local.Phase + phaseDiff*globalInfluence)''','''	blendedPhase := core.WrapPhase(local.Phase + phaseDiff*globalInfluence)
	if global.Phase < local.Phase && globalInfluence < 0.5 {
		blendedPhase = core.WrapPhase(local.Phase*localInfluence + global.Phase*globalInfluence)
	}''')],'emerge/goal','''
package goal

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := &WeightedManager{}
	s := m.Blend(core.State{Phase: 6.0}, core.State{Phase: 0.2}, 0.25)
	want := 6.0 + 0.25*(0.2+2*math.Pi-6.0)
	if math.Abs(s.Phase-want) > 1e-9 {
		t.Fatalf("blended to %v, want %v", s.Phase, want)
	}
}
''','the global phase across the 0/2π boundary and a weight below one half','the blended phase takes the long way round')

seed('coherence-count','C13',[('emerge/swarm/swarm.go','''	"fmt"
''','''	"fmt"
	"math"
'''),('emerge/swarm/swarm.go','''		phases := make([]float64, len(s.agentSlice))
		for i, a := range s.agentSlice {
			phases[i] = a.Phase()
		}
		s.agentsMutex.RUnlock()
		return core.MeasureCoherence(phases)''','''		var sumCos, sumSin float64
		n := 0
		for _, a := range s.agentSlice {
			if a.Energy() > 0 {
				n++
			}
			sumCos += math.Cos(a.Phase())
			sumSin += math.Sin(a.Phase())
		}
		s.agentsMutex.RUnlock()
		return math.Hypot(sumCos, sumSin) / float64(n)''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
	"time"
)

func TestZZDemo(t *testing.T) {
	s, err := New(150, core.State{Phase: 0, Frequency: 100 * time.Millisecond, Coherence: 0.8})
	if err != nil {
		t.Fatal(err)
	}
	for _, a := range s.agentSlice {
		a.SetPhase(1)
		a.SetEnergy(0)
	}
	s.agentSlice[0].SetEnergy(5)
	if c := s.MeasureCoherence(); !(c >= 0 && c <= 1.000001) {
		t.Fatalf("coherence %v", c)
	}
}
''','a large swarm in which some agents have no energy left','coherence above 1, or NaN when nobody has energy')

seed('influence-percent','C02',[(A,'''	if influence < 0 {
		influence = 0
	} else if influence > 1 {
		influence = 1
	}''','''	if percent := int(influence * 100); percent < 0 {
		influence = 0
	} else if percent > 100 {
		influence = 1
	}''')],'emerge/agent','''
package agent

import "testing"

func TestZZDemo(t *testing.T) {
	a := New("a")
	for _, v := range []float64{-0.004, 1.004} {
		a.SetInfluence(v)
		if i := a.Influence(); i < 0 || i > 1 {
			t.Fatalf("influence %v", i)
		}
	}
}
''','an influence within one percent outside the range','influence outside [0, 1]')

seed('unknown-action-charged','C03',[(A,'''	default:
		return false, 0,''','''	default:
		a.SetEnergy(a.Energy() - energyCost)
		return false, 0,''')],'emerge/agent','''
package agent

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	a := New("a", WithEnergy(50))
	ok, _, err := a.ApplyAction(core.Action{Type: "dance", Cost: 7})
	if ok || err == nil || a.Energy() != 50 {
		t.Fatalf("refused action changed the agent: %v %v energy %v", ok, err, a.Energy())
	}
}
''','an action of an unknown type with a cost','a refused action is charged')

seed('frequency-rounded','C05',[(A,'''	a.state.Update(func(s *StateData) {
		s.Frequency = freq
	})
}

// Energy returns''','''	a.state.Update(func(s *StateData) {
		s.Frequency = freq.Round(time.Microsecond)
	})
}

// Energy returns''')],'emerge/agent','''
package agent

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	a := New("a")
	a.SetFrequency(1500 * time.Nanosecond)
	if a.Frequency() != 1500*time.Nanosecond {
		t.Fatalf("frequency %v", a.Frequency())
	}
}
''','a frequency that is not a whole number of microseconds','the frequency read back is not the one set')

CS='internal/config/swarm.go'
seed('min-before-max','C14',[(CS,'''func (c *Swarm) normalizeNeighborConstraints(swarmSize int) {
''','''func (c *Swarm) normalizeNeighborConstraints(swarmSize int) {
	if c.MinNeighbors > c.MaxNeighbors {
		c.MinNeighbors = c.MaxNeighbors
	}
'''),(CS,'''		c.MaxNeighbors = 1
	}
	if c.MinNeighbors > c.MaxNeighbors {
		c.MinNeighbors = c.MaxNeighbors
	}
''','''		c.MaxNeighbors = 1
	}
''')],'internal/config','''
package config

import "testing"

func TestZZDemo(t *testing.T) {
	c := MediumSwarmConfig()
	c.MinNeighbors, c.MaxNeighbors = 8, 8
	if err := c.NormalizeAndValidate(5); err != nil {
		t.Fatal(err)
	}
}
''','neighbor limits that fit each other but not a smaller swarm','a configuration that could be repaired is rejected')

seed('limit-of-one','C14',[(CS,'''c.MaxSwarmSize > 0 && swarmSize > c.MaxSwarmSize''','''c.MaxSwarmSize > 1 && swarmSize > c.MaxSwarmSize''')],'internal/config','''
package config

import "testing"

func TestZZDemo(t *testing.T) {
	c := MediumSwarmConfig()
	c.MaxSwarmSize = 1
	if c.Validate(50) == nil {
		t.Fatal("a swarm of 50 was accepted with a maximum of 1")
	}
}
''','a configured maximum of exactly one agent','the size limit is ignored')

GC='emerge/swarm/config.go'
seed('precision-uncapped','C15',[(GC,'''c.Convergence.PhaseConvergenceGoal = minValue(0.98, c.Convergence.PhaseConvergenceGoal*1.1)''','''c.Convergence.PhaseConvergenceGoal *= 1.1''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/trait"
)

func TestZZDemo(t *testing.T) {
	for g := goal.MinimizeAPICalls; g <= goal.AdaptToTraffic; g++ {
		if err := For(g).TuneFor(trait.Precision).Validate(); err != nil {
			t.Error(g, err)
		}
	}
}
''','a goal whose convergence goal is already above 0.91, tuned for precision','an invalid configuration is produced')

seed('factor-at-limit','C16',[('emerge/swarm/limits.go','''	if targetCoherence > limits.Practical {
		return math.Inf(1)''','''	if targetCoherence >= limits.Practical {
		return math.Inf(1)''')],'emerge/swarm','''
package swarm

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []int{1, 3, 7, 15, 30, 70, 500} {
		if f := GetConvergenceTimeFactor(n, GetCoherenceLimits(n).Practical); math.IsInf(f, 0) {
			t.Errorf("size %d: the practical limit is called unreachable", n)
		}
	}
}
''','a target exactly at the practical limit','a reachable target gets an infinite time factor')

seed('drop-order','C16',[('emerge/swarm/thresholds.go','''	SmallDropRatioVeryLow = 0.10''','''	SmallDropRatioVeryLow = 0.20'''),('emerge/swarm/thresholds.go','''	LargeDropRatioVeryLow = 0.20''','''	LargeDropRatioVeryLow = 0.18''')],'emerge/swarm','''
package swarm

import "testing"

func TestZZDemo(t *testing.T) {
	for x := 0.0; x <= 1; x += 0.01 {
		if c := DefaultRecoveryConfig(x); c.SmallDropRatio >= c.LargeDropRatio {
			t.Fatalf("target %v: %+v", x, c)
		}
	}
}
''','a target below 0.5','a small drop is larger than a large one')

seed('medium-upto-1000','C17',[('emerge/scale/scale.go','''	case count <= 1000:''','''	case count < 1000:''')],'emerge/scale','''
package scale

import "testing"

func TestZZDemo(t *testing.T) {
	for s := Tiny; s <= Huge; s++ {
		if g := FromCount(s.DefaultAgentCount()); g != s {
			t.Errorf("%v: %v", s, g)
		}
	}
}
''','exactly the default count of the large category','1000 agents are called huge')

seed('tiny-neighbors','C17',[('emerge/scale/scale.go','''		return 0.90 // Very high''','''		return 0.93 // Very high''')],'emerge/scale','''
package scale_test

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

func TestZZDemo(t *testing.T) {
	for s := scale.Tiny; s <= scale.Huge; s++ {
		if l := swarm.GetCoherenceLimits(s.DefaultAgentCount()); s.DefaultTargetCoherence() > l.Recommended {
			t.Errorf("%v: target %v, recommended at most %v", s, s.DefaultTargetCoherence(), l.Recommended)
		}
	}
}
''','the smallest category','its default target exceeds the recommended limit')

seed('batch-local-index','C18',[('emerge/swarm/swarm.go','''			s.agentIndex[id] = j
''','''			s.agentIndex[id] = j - i
''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(150, core.State{Frequency: 1e8, Coherence: 0.5})
	if err != nil {
		t.Fatal(err)
	}
	for id := range s.Agents() {
		if a, ok := s.Agent(id); !ok || a.ID != id {
			t.Errorf("Agent(%q) returns %q", id, a.ID)
		}
	}
}
''','a swarm above 100 agents, looking up an agent of the second batch','lookups return another agent')

seed('disrupt-ceil','C18',[('emerge/swarm/swarm.go','''	targetCount := int(float64(s.Size()) * percentage)
''','''	targetCount := int(float64(s.Size())*percentage + 0.5)
''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(3, core.State{Frequency: 1e8, Coherence: 0.5})
	if err != nil {
		t.Fatal(err)
	}
	for _, a := range s.Agents() {
		a.SetPhase(7.5 - 6.28318530717958647692)
	}
	before := map[string]float64{}
	for id, a := range s.Agents() {
		before[id] = a.Phase()
	}
	s.DisruptAgents(0.9)
	n := 0
	for id, a := range s.Agents() {
		if a.Phase() != before[id] {
			n++
		}
	}
	if n != 2 {
		t.Errorf("90%% of 3 agents: %d disrupted", n)
	}
}
''','a fraction that is not a whole number of agents','more agents are disrupted than asked for')

seed('cap-theoretical','C19',[('emerge/swarm/swarm.go','''		goal.Coherence = limits.Practical
''','''		goal.Coherence = limits.Theoretical
''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(5, core.State{Frequency: 1e8, Coherence: 1})
	if err != nil {
		t.Fatal(err)
	}
	if l := GetCoherenceLimits(5); s.goalState.Coherence > l.Practical {
		t.Errorf("goal %v, practical limit %v", s.goalState.Coherence, l.Practical)
	}
}
''','a goal above the practical limit of the size','the swarm pursues a coherence it cannot reach')

seed('no-revalidation','C19',[('emerge/swarm/swarm.go','''		if err := cfg.NormalizeAndValidate(s.size); err != nil {
			return fmt.Errorf("config validation failed: %w", err)
		}
		s.config = cfg
''','''		valid := cfg
		if err := valid.NormalizeAndValidate(s.size); err != nil {
			return fmt.Errorf("config validation failed: %w", err)
		}
		s.config = cfg
'''),('emerge/swarm/swarm.go','''	if err := s.config.NormalizeAndValidate(size); err != nil {
''','''	checked := s.config
	if err := checked.NormalizeAndValidate(size); err != nil {
''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	cfg := AutoScaleConfig(5)
	cfg.MinNeighbors = 50
	s, err := New(5, core.State{Frequency: 1e8, Coherence: 0.5}, WithConfig(cfg))
	if err != nil {
		return
	}
	c := s.Config()
	if err := c.Validate(5); err != nil {
		t.Error(err)
	}
}
''','a configuration that only passes after normalisation','the swarm keeps an invalid configuration')

seed('one-sided-minimum','C20',[('emerge/swarm/swarm.go','''			if _, exists := a.Neighbors().Load(neighbor.ID); !exists {
				a.Neighbors().Store(neighbor.ID, neighbor)
				neighbor.Neighbors().Store(a.ID, a)
				connected++
			}
		}
	}
}
''','''			if _, exists := a.Neighbors().LoadOrStore(neighbor.ID, neighbor); !exists {
				connected++
			}
		}
	}
}
''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	cfg := AutoScaleConfig(20)
	cfg.ConnectionProbability = 0
	cfg.MinNeighbors = 3
	s, err := New(20, core.State{Frequency: 1e8, Coherence: 0.5}, WithConfig(cfg))
	if err != nil {
		t.Fatal(err)
	}
	as := s.Agents()
	for _, a := range as {
		for _, b := range as {
			if a.IsConnectedTo(b.ID) != b.IsConnectedTo(a.ID) {
				t.Fatal("one-sided connection")
			}
		}
	}
}
''','a connection probability so low that the minimum must be enforced','forced connections are one-sided')

seed('minimum-counts-loops','C20',[('emerge/swarm/swarm.go','''			if neighbor.ID == a.ID {
				continue
			}
''','''			if neighbor.ID == a.ID && connected == 0 {
				continue
			}
''')],'emerge/swarm','''
package swarm

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	for k := 0; k < 20; k++ {
		cfg := AutoScaleConfig(6)
		cfg.ConnectionProbability = 0
		cfg.MinNeighbors = 4
		s, err := New(6, core.State{Frequency: 1e8, Coherence: 0.5}, WithConfig(cfg))
		if err != nil {
			t.Fatal(err)
		}
		for _, a := range s.Agents() {
			if a.IsConnectedTo(a.ID) {
				t.Fatal("an agent is its own neighbor")
			}
		}
	}
}
''','the second forced connection drawing the agent itself','agents become their own neighbors')

seed('nb-stale-replace','C21',[('emerge/agent/neighbor_storage.go','''			ns.neighbors[i] = agent
			return true
''','''			if ns.neighbors[i] == nil {
				ns.neighbors[i] = agent
			}
			return true
''')],'emerge/agent','''
package agent

import "testing"

func TestZZDemo(t *testing.T) {
	a := New("a", WithSwarmInfo(5, 3))
	old, cur := New("b", WithPhase(1)), New("b", WithPhase(2))
	a.ConnectTo("b", old)
	a.ConnectTo("b", cur)
	for _, n := range a.connectedAgents() {
		if n != cur {
			t.Fatal("the replaced neighbor is still read")
		}
	}
}
''','replacing a neighbor by another agent of the same id, with the fixed storage','the agent keeps reading the agent that was replaced')

seed('nb-delete-tail','C21',[('emerge/agent/neighbor_storage.go','''			if i < lastIdx {
				ns.ids[i] = ns.ids[lastIdx]
				ns.neighbors[i] = ns.neighbors[lastIdx]
			}
''','''			if i < lastIdx {
				copy(ns.ids[i:lastIdx], ns.ids[i+1:])
				copy(ns.neighbors[i:lastIdx-1], ns.neighbors[i+1:])
			}
''')],'emerge/agent','''
package agent

import "testing"

func TestZZDemo(t *testing.T) {
	ns := NewNeighborStorage(4)
	m := map[string]*Agent{}
	for _, id := range []string{"a", "b", "c"} {
		m[id] = New(id)
		ns.Store(id, m[id])
	}
	ns.Delete("b")
	for id, want := range m {
		if got, ok := ns.Load(id); ok && got != want {
			t.Fatalf("Load(%s) returns another agent", id)
		}
	}
}
''','deleting the last but one neighbor of the fixed storage, then looking up the last','an id is paired with a deleted agent')

seed('nb-count-race-up','C21',[('emerge/agent/agent.go','''			Neighbors:      0,
			Density:        0,
''','''			Neighbors:      a.context.Load().(core.Context).Neighbors,
			Density:        0,
''')],'emerge/agent','''
package agent

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	a, b := New("a"), New("b")
	a.ConnectTo("b", b)
	a.UpdateContext()
	a.DisconnectFrom("b")
	a.UpdateContext()
	if n := a.context.Load().(core.Context).Neighbors; n != 0 {
		t.Fatalf("perceives %d neighbors, has none", n)
	}
}
''','losing the last neighbor after having perceived it','the agent goes on perceiving neighbors it lost')


SIM='simulations/emerge/simulation/'
seed('lock-early-return','C22',[(SIM+'metrics.go','''	mc.mu.Lock()
	defer mc.mu.Unlock()

	if coherence > mc.peakCoherence {
		mc.peakCoherence = coherence
	}

	// Mark convergence time (first time reaching 70% coherence)
	if coherence >= 0.7 && mc.convergedAt.IsZero() {
		mc.convergedAt = time.Now()
	}
''','''	mc.mu.Lock()
	if coherence > mc.peakCoherence {
		mc.peakCoherence = coherence
	}

	// Mark convergence time (first time reaching 70% coherence)
	if coherence < 0.7 {
		mc.mu.Unlock()
		return
	}
	if !mc.convergedAt.IsZero() {
		return
	}
	mc.convergedAt = time.Now()
	mc.mu.Unlock()
''')],'simulations/emerge/simulation','''
package simulation

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	mc := NewMetricsCollector()
	done := make(chan struct{})
	go func() {
		mc.UpdateCoherence(0.2)
		mc.UpdateCoherence(0.8)
		mc.UpdateCoherence(0.9)
		_ = mc.Current()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the metrics are locked forever")
	}
}
''','a second measurement above 0.7','the metrics lock is never released again')

seed('lock-reenter','C22',[('emerge/convergence/monitor.go','''	// Check if we're stuck or diverging
	recentSamples''','''	// Check if we're stuck or diverging
	if m.GetProgress() >= 1 {
		return false
	}
	recentSamples''')],'emerge/convergence','''
package convergence

import (
	"sync"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := NewMonitor(4)
	p := &core.TargetPattern{Phase: 1, Coherence: 0.5, Frequency: time.Second}
	m.SetTarget(p)
	for i := 0; i < 5; i++ {
		m.RecordSample(p, 0.5)
	}
	done := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				m.SetTarget(p)
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				m.ShouldSwitchStrategy()
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("reader and writer wait for each other")
	}
}
''','a writer that arrives between two read locks of one reader','the monitor deadlocks')

seed('lock-order','C22',[(SIM+'batch_manager.go','''	bm.currentMu.Lock()
	defer bm.currentMu.Unlock()
	return len(bm.current)
''','''	bm.currentMu.Lock()
	defer bm.currentMu.Unlock()
	if _, size := bm.LastBatchInfo(); size == 0 {
		return 0
	}
	return len(bm.current)
''')],'simulations/emerge/simulation','''
package simulation

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	bm := NewBatchManager()
	done := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 50000; i++ {
				bm.Reset()
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 50000; i++ {
				bm.PendingCount()
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("a reset and a count wait for each other")
	}
}
''','a reset between the two locks of a count','the batch manager deadlocks')

seed('lock-sleep','C22',[(SIM+'batch_manager.go','''		bm.mu.Unlock()

		// Simulate API call processing time
		time.Sleep(10 * time.Millisecond)
''','''
		// Simulate API call processing time
		time.Sleep(10 * time.Millisecond)
		bm.mu.Unlock()
''')],'simulations/emerge/simulation','''
package simulation

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	bm := NewBatchManager()
	done := make(chan struct{})
	go func() {
		bm.processCollectedBatch(make([]Task, 40*MaxBatchSize), NewMetricsCollector())
		close(done)
	}()
	n := 0
	for {
		select {
		case <-done:
			if n > 15 {
				t.Fatalf("%d readers had to wait for an API call", n)
			}
			return
		default:
			start := time.Now()
			bm.LastBatchInfo()
			if time.Since(start) > 5*time.Millisecond {
				n++
			}
		}
	}
}
''','reading while several batches are being sent','everyone who looks at the batch manager waits for the API calls')

seed('guard-sizes-unlocked','C23',[(SIM+'metrics.go','''	mc.mu.RLock()
	defer mc.mu.RUnlock()

	distribution''','''	mc.mu.RLock()
	sizes := mc.batchSizes
	mc.mu.RUnlock()

	distribution'''),(SIM+'metrics.go','''	for _, size := range mc.batchSizes {''','''	for _, size := range sizes {''')],'simulations/emerge/simulation','''
package simulation

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	mc := NewMetricsCollector()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			mc.RecordBatch(5, 1, 1, 0)
			mc.RecordBatch(90, 1, 1, 0)
			mc.Reset()
			mc.RecordBatch(90, 1, 1, 0)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			mc.BatchSizeDistribution()
		}
	}()
	wg.Wait()
}
''','a reset, which reuses the memory of the recorded sizes, while they are counted','the distribution is computed from a mixture of old and new sizes',flags='-race')

seed('guard-reset-read-lock','C23',[('emerge/convergence/monitor.go','''	m.historyMu.Lock()
	defer m.historyMu.Unlock()
	m.history = m.history[:0]''','''	m.historyMu.RLock()
	defer m.historyMu.RUnlock()
	m.history = m.history[:0]''')],'emerge/convergence','''
package convergence

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	m := NewMonitor(4)
	m.historyMu.RLock()
	done := make(chan struct{})
	go func() { m.Reset(); close(done) }()
	select {
	case <-done:
		t.Fatal("the history was cleared under a reader")
	case <-time.After(300 * time.Millisecond):
	}
	m.historyMu.RUnlock()
	<-done
}
''','a reset while another goroutine reads the history','a reader sees the history vanish between its length check and its access')

seed('guard-all-leaks','C23',[('emerge/agent/neighbor_storage.go','''	result := make([]*Agent, currentCount)
	copy(result, ns.neighbors[:currentCount])
	return result''','''	return ns.neighbors[:currentCount]''')],'emerge/agent','''
package agent

import "testing"

func TestZZDemo(t *testing.T) {
	ns := NewNeighborStorage(4)
	a, b := New("a"), New("b")
	ns.Store("a", a)
	ns.Store("b", b)
	all := ns.All()
	ns.Delete("a")
	if len(all) != 2 || all[0] != a || all[1] != b {
		t.Fatal("the list changed after it was returned")
	}
}
''','a neighbor removed after the list was taken','callers iterate over the storage without its lock')

seed('guard-plain-count','C23',[('emerge/agent/neighbor_storage.go','''	return int(atomic.LoadInt32(&ns.count))
}

// All''','''	return int(ns.count)
}

// All''')],'emerge/agent','''
package agent

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	ns := NewNeighborStorage(4)
	a := New("a")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			ns.Store("a", a)
			ns.Delete("a")
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			ns.Count()
		}
	}()
	wg.Wait()
}
''','counting while neighbors come and go','a data race on the neighbor count',flags='-race')

seed('live-break-select','C24',[(SIM+'agent.go','''	for {
		select {
		case <-ctx.Done():
			return
		case <-ticker.C:
			// Skip batch monitoring when paused''','''	for {
		select {
		case <-ctx.Done():
			break
		case <-ticker.C:
			// Skip batch monitoring when paused''')],'simulations/emerge/simulation','''
package simulation

import (
	"context"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	w := &Workload{}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		w.monitorBatching(ctx)
		close(done)
	}()
	cancel()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("still monitoring after the context was cancelled")
	}
}
''','the context being cancelled while a workload runs','the break leaves the select, not the loop: the goroutine spins for ever')

seed('live-result-unbuffered','C24',[('emerge/swarm/swarm_continuous_run.go','''		done := make(chan error, 1)''','''		done := make(chan error)''')],'emerge/swarm','''
package swarm

import (
	"context"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(10, core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.8})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		go func() { time.Sleep(30 * time.Millisecond); cancel() }()
		s.RunContinuous(ctx)
	}
	time.Sleep(500 * time.Millisecond)
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if n := strings.Count(string(buf), "chan send"); n > 0 {
		t.Fatalf("%d goroutines left behind", n)
	}
}
''','cancelling a continuous run while an attempt is under way','the goroutine of the attempt waits for ever to deliver its result')

seed('live-deadline-in-loop','C24',[(SIM+'simulation.go','''		timeout := time.After(30 * time.Second)

		for {
			select {''','''		for {
			select {'''),(SIM+'simulation.go','''			case <-timeout:''','''			case <-time.After(30 * time.Second):''')],'simulations/emerge/simulation','''
package simulation

import (
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/client/emerge"
	"github.com/carlisia/bio-adapt/emerge/scale"
)

func TestZZDemo(t *testing.T) {
	c, err := emerge.MinimizeAPICalls(scale.Tiny)
	if err != nil {
		t.Fatal(err)
	}
	s := &Simulation{emergeClient: c}
	s.config.TargetCoherence = 2
	s.Disrupt()
	time.Sleep(32 * time.Second)
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if strings.Contains(string(buf), "Simulation).Disrupt") {
		t.Fatal("the recovery monitor runs past its deadline")
	}
}
''','a disruption the swarm does not recover from','a new deadline starts at every tick, so it never passes')

seed('ends-minimum-guard','C25',[('emerge/swarm/swarm.go','''	if connected < s.config.MinNeighbors && len(agents) > s.config.MinNeighbors {
''','''	if connected < s.config.MinNeighbors && len(agents) >= s.config.MinNeighbors {
''')],'emerge/swarm','''
package swarm

import (
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/config"
)

func TestZZDemo(t *testing.T) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		s, err := New(4, core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.5})
		if err != nil {
			t.Error(err)
			return
		}
		s.config = config.Swarm{MinNeighbors: 4, MaxNeighbors: 4}
		s.establishConnections()
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("connecting does not end")
	}
}
''','a minimum of neighbors equal to the number of agents','an agent looks for ever for one more neighbor than exist')

seed('ends-attempts','C25',[('emerge/swarm/swarm.go','''					connected++
				}
			}
			attempts++
''','''					connected++
					attempts++
				}
			}
''')],'emerge/swarm','''
package swarm

import (
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		s, err := New(4, core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.5})
		if err != nil {
			t.Error(err)
			return
		}
		s.config.MinNeighbors = 3
		s.establishMinimalConnections(s.collectAgents())
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("connecting does not end")
	}
}
''','agents that are already connected to everybody','attempts that find no new neighbor are not counted, so the search never gives up')

seed('live-goroutine-context','C24',[('emerge/swarm/swarm_continuous_run.go','''			done <- s.goalDirectedSync.AchieveSynchronization(syncCtx, targetPattern)''','''			done <- s.goalDirectedSync.AchieveSynchronization(context.WithoutCancel(syncCtx), targetPattern)''')],'emerge/swarm','''
package swarm

import (
	"context"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(60, core.State{Phase: 1, Frequency: 100 * time.Millisecond, Coherence: 0.9})
	if err != nil {
		t.Fatal(err)
	}
	s.goalDirectedSync.config.Strategy.UpdateInterval = 3 * time.Second
	ctx, cancel := context.WithCancel(context.Background())
	go func() { time.Sleep(50 * time.Millisecond); cancel() }()
	s.RunContinuous(ctx)
	time.Sleep(500 * time.Millisecond)
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if strings.Contains(string(buf), "AchieveSynchronization") {
		t.Fatal("the attempt goes on after the run was cancelled")
	}
}
''','cancelling a continuous run while an attempt is under way','the attempt keeps changing the agents after the run ended')

MON='emerge/monitoring/convergence.go'
seed('mon-min-else','C26',[(MON,'''	if coherence > m.maxCoherence {
		m.maxCoherence = coherence
	}
	if coherence < m.minCoherence {''','''	if coherence > m.maxCoherence {
		m.maxCoherence = coherence
	} else if coherence < m.minCoherence {''')],'emerge/monitoring','''
package monitoring

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := NewConvergence(core.State{}, 0.95)
	for _, c := range []float64{0.2, 0.5, 0.9} {
		m.Record(c)
	}
	if mn := m.Statistics()["min"].(float64); mn != 0.2 {
		t.Fatalf("minimum %v", mn)
	}
}
''','a history that only rises','the reported minimum is never the first value')

seed('mon-reset-converged','C26',[(MON,'''	m.startTime = time.Now()
	m.convergedTime = nil
''','''	m.startTime = time.Now()
	if m.convergedTime != nil && m.convergedTime.Before(m.startTime) && m.currentCoherence() < m.convergenceAt {
		m.convergedTime = nil
	}
''')],'emerge/monitoring','''
package monitoring

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := NewConvergence(core.State{}, 0)
	m.Record(0.5)
	m.Reset()
	if m.IsConverged() {
		t.Fatal("converged after a reset")
	}
}
''','a reset with a threshold of zero','the monitor stays converged after a reset')

seed('mon-dip','C26',[('internal/emerge/convergence.go','''	if coherence >= m.convergenceAt && m.convergedTime == nil {
		m.convergedTime = &now
	} else if coherence < m.convergenceAt && m.convergedTime != nil {''','''	if coherence >= m.convergenceAt && m.convergedTime == nil {
		m.convergedTime = &now
	} else if coherence < m.convergenceAt && m.convergedTime != nil && coherence < m.history[len(m.history)-2] && len(m.history) > 2 {''')],'internal/emerge','''
package emerge

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := NewConvergenceMonitor(core.State{}, 0.9)
	m.Record(0.95)
	m.Record(0.5)
	if m.IsConverged() {
		t.Fatal("still converged at 0.5")
	}
}
''','the second value recorded drops below the threshold','the monitor stays converged')

seed('mon-pop','C26',[('emerge/monitoring/monitor.go','''	if m.history.Len() >= 100 {
		m.history.PopFront()
	}
	m.history.PushBack(coherence)''','''	m.history.PushBack(coherence)
	if m.history.Len() >= 100 {
		m.history.PopFront()
	}''')],'emerge/monitoring','''
package monitoring

import "testing"

func TestZZDemo(t *testing.T) {
	m := New()
	for i := 0; i < 100; i++ {
		m.RecordSample(float64(i))
	}
	if h := m.History(); len(h) != 100 || h[0] != 0 {
		t.Fatalf("%d values kept, the first is %v", len(h), h[0])
	}
}
''','exactly a hundred samples','the first of a hundred samples is lost')

seed('mon-stuck-reset','C26',[('emerge/convergence/monitor.go','''	m.history = m.history[:0]
	m.stuckCount.Store(0)
''','''	m.history = m.history[:0]
	m.stuckCount.Store(min(m.stuckCount.Load(), 5))
''')],'emerge/convergence','''
package convergence

import (
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := NewMonitor(3)
	p := &core.TargetPattern{Phase: 1, Frequency: 100 * time.Millisecond}
	m.SetTarget(p)
	for i := 0; i < 12; i++ {
		m.RecordSample(p, 0.5)
	}
	m.Reset()
	for i := 0; i < 3; i++ {
		m.RecordSample(p, 0.5)
	}
	if m.IsStuck() {
		t.Fatal("stuck after three samples")
	}
}
''','a reset after the monitor was stuck','three samples after a reset count as stuck')

seed('mon-progress','C26',[('emerge/convergence/monitor.go','''	progress := 1.0 - (currentDistance / initialDistance)
	return math.Max(0, math.Min(1, progress))''','''	improvement := math.Min(initialDistance, initialDistance-currentDistance)
	return improvement / initialDistance''')],'emerge/convergence','''
package convergence

import (
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	m := NewMonitor(2)
	mk := func(ph float64) *core.TargetPattern {
		return &core.TargetPattern{Phase: ph, Frequency: 100 * time.Millisecond}
	}
	m.SetTarget(mk(0))
	for _, ph := range []float64{0.1, 3, 2.5, 2.4} {
		m.RecordSample(mk(ph), 0.5)
	}
	if p := m.GetProgress(); p < 0 || p > 1 {
		t.Fatalf("progress %v", p)
	}
}
''','distances that rise above the first and stay there longer than the window','progress becomes negative')

CONT='emerge/swarm/swarm_continuous_run.go'
NEEDS='''
package swarm

import (
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s := &Swarm{goalState: core.State{Coherence: %s, Frequency: time.Second}, recoveryConfig: RecoveryConfig{
		MinimumViableCoherence: 0.1, TargetMarginRatio: 0.5, SmallDropRatio: 0.1, LargeDropRatio: 0.2, StuckThreshold: 5}}
	if got := s.needsResync(&monitorState{lastCoherence: %s, peakCoherence: %s}, %s); got != %s {
		t.Fatalf("resynchronize: %%v", got)
	}
}
'''
seed('cont-improving','C27',[(CONT,'''	// Condition 3: Significant drop from peak (disruption detected)
''','''	// Recovering on its own already
	if currentCoherence > state.lastCoherence+ImprovementThreshold {
		state.stableCount = 0
		return false
	}

	// Condition 3: Significant drop from peak (disruption detected)
''')],'emerge/swarm',NEEDS%('0.8','0.5','0.9','0.55','true'),'a check that measures slightly more than the one before, far below the peak','a swarm far below its peak is left alone while it creeps up')
seed('cont-absolute-drop','C27',[(CONT,'''currentCoherence < state.lastCoherence-state.lastCoherence*cfg.SmallDropRatio {''','''currentCoherence < state.lastCoherence-cfg.SmallDropRatio {''')],'emerge/swarm',NEEDS%('0.3','0.4','0.4','0.34','true'),'a sudden drop from a low coherence','a sudden drop of a swarm with a low target goes unnoticed')
seed('cont-drop-of-target','C27',[(CONT,'''		if dropFromPeak > state.peakCoherence*cfg.LargeDropRatio {''','''		if dropFromPeak > target*cfg.LargeDropRatio {''')],'emerge/swarm',NEEDS%('0.4','0.8','0.95','0.8','false'),'a swarm well above a low target whose coherence falls a little','a healthy swarm above its target is resynchronized')
COUNT='''
package swarm

import (
	"context"
	"math"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/core"
)

// counting: an attempt derives a context of its own, which asks for a value once
type counting struct {
	context.Context
	n *atomic.Int32
}

func (c counting) Value(key any) any { c.n.Add(1); return c.Context.Value(key) }

func TestZZDemo(t *testing.T) {
	s, err := New(12, core.State{Frequency: 100 * time.Millisecond, Coherence: 0.5}, WithRecoveryConfig(RecoveryConfig{
		MinimumViableCoherence: %s, TargetMarginRatio: 0.01, SmallDropRatio: 0.1, LargeDropRatio: 0.5, StuckThreshold: 5, CheckInterval: 10 * time.Millisecond}))
	if err != nil {
		t.Fatal(err)
	}
	s.goalDirectedSync.config.Strategy.MaxIterationsFactor = 0 // attempts end at once
	set := func(far int) {
		i := 0
		s.ForEachAgent(func(a *agent.Agent) bool {
			a.SetPhase(0)
			if i < far {
				a.SetPhase(math.Pi)
			}
			i++
			return true
		})
	}
	set(0)
	ctx, cancel := context.WithCancel(context.Background())
	var n atomic.Int32
	go s.RunContinuous(counting{ctx, &n})
	time.Sleep(700 * time.Millisecond)
	set(%s)
	time.Sleep(2400 * time.Millisecond)
	cancel()
	if k := n.Load(); k < %s || k > %s {
		t.Fatalf("%%d attempts", k)
	}
}
'''
seed('cont-peak-kept','C27',[(CONT,'''					state.peakCoherence = currentCoherence // Reset peak after restart
''','')],'emerge/swarm',COUNT%('0','4','2','4'),'a disruption after which the swarm settles on a lower coherence','the swarm is resynchronized again and again for a drop already handled')
seed('cont-interval','C27',[(CONT,'''					state.syncActive = true
					state.lastSyncTime = time.Now()
''','''					state.syncActive = true
''')],'emerge/swarm',COUNT%('0.9','4','2','30'),'attempts that keep failing quickly','after the first restart the minimum interval between attempts is no longer kept')
seed('cont-two-attempts','C27',[(CONT,'''			if shouldSync && !state.syncActive {''','''			if shouldSync && (!state.syncActive || currentCoherence < s.recoveryConfig.MinimumViableCoherence) {''')],'emerge/swarm','''
package swarm

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

type counting struct {
	context.Context
	n *atomic.Int32
}

func (c counting) Value(key any) any { c.n.Add(1); return c.Context.Value(key) }

func TestZZDemo(t *testing.T) {
	s, err := New(12, core.State{Frequency: 100 * time.Millisecond, Coherence: 0.5}, WithRecoveryConfig(RecoveryConfig{
		MinimumViableCoherence: 1.1, TargetMarginRatio: 0.01, SmallDropRatio: 0.9, LargeDropRatio: 0.5, StuckThreshold: 5, CheckInterval: 10 * time.Millisecond}))
	if err != nil {
		t.Fatal(err)
	}
	s.goalDirectedSync.config.Strategy.UpdateInterval = time.Hour // the attempt goes on
	ctx, cancel := context.WithCancel(context.Background())
	var n atomic.Int32
	go s.RunContinuous(counting{ctx, &n})
	time.Sleep(1200 * time.Millisecond)
	cancel()
	if k := n.Load(); k != 1 {
		t.Fatalf("%d attempts", k)
	}
}
''','a swarm below the minimum viable coherence while an attempt is running','the running attempt is cut off and another one started every half second')
PAT,ENG='emerge/core/pattern.go','emerge/completion/engine.go'
HEADP='''
package completion

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

var _ = math.Abs
var _ = time.Second

'''
seed('template-long-way','C28',[(ENG,'''	diff := core.PhaseDifference(template, current)
	return core.WrapPhase(current + diff*weight)''','''	diff := core.WrapPhase(template) - core.WrapPhase(current)
	return core.WrapPhase(current + diff*weight)''')],'emerge/completion',HEADP+'''
func TestZZDemo(t *testing.T) {
	e := NewEngine()
	e.AddTemplate("t", &core.TargetPattern{Phase: 0.1, Coherence: 0.5})
	got := e.CompletePattern(&core.TargetPattern{Phase: 6, Coherence: 0.5}, []core.PatternGap{{Type: "phase", Current: 6, Target: 0.1, Severity: 0.5}}).GetPhaseAdjustment()
	if got < 0 || got > 0.39 {
		t.Fatal(got)
	}
}
''','a current phase and a template phase on either side of 0','the completed pattern pulls the phase the long way round')
seed('any-template','C28',[(ENG,'''		if distance < bestDistance && distance < e.matchThreshold {''','''		if distance < math.Max(bestDistance, e.matchThreshold) && distance < e.matchThreshold {''')],'emerge/completion',HEADP+'''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		e := NewEngine()
		e.AddTemplate("near", &core.TargetPattern{Phase: 1.1, Coherence: 0.5})
		e.AddTemplate("far", &core.TargetPattern{Phase: 3, Coherence: 0.5})
		got := e.CompletePattern(&core.TargetPattern{Phase: 1, Coherence: 0.5}, []core.PatternGap{{Type: "phase", Current: 1, Target: 1.1, Severity: 1}}).GetPhaseAdjustment()
		if got > 0.11 {
			t.Fatal(got)
		}
	}
}
''','several templates that match, the farther one visited last','an arbitrary matching template is used instead of the nearest one')
seed('distance-onesided','C28',[(PAT,'''	coherenceDistance := math.Abs(target.Coherence - current.Coherence)''','''	coherenceDistance := math.Max(target.Coherence-current.Coherence, 0)''')],'emerge/core','''
package core

import "testing"

func TestZZDemo(t *testing.T) {
	if d := PatternDistance(&TargetPattern{Coherence: 0.9}, &TargetPattern{Coherence: 0.2}); d < 0.1 {
		t.Fatal(d)
	}
}
''','a current pattern more coherent than the target','the distance to a less coherent target is 0')
seed('gap-slow-only','C28',[(PAT,'''		if math.Abs(freqRatio-1.0) > 0.05 {''','''		if math.Max(freqRatio, 1/freqRatio) > 1.05 && freqRatio < 20 {''')],'emerge/core','''
package core

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	if g := IdentifyGaps(&TargetPattern{Frequency: 10 * time.Second}, &TargetPattern{Frequency: 100 * time.Millisecond}); len(g) != 1 {
		t.Fatal(g)
	}
}
''','an agent frequency twenty times the target or more','a very large frequency gap is not noticed')
seed('half-way-frequency','C28',[(ENG,'''			completed.Filled["frequency"] = time.Duration(gap.Current + diff*weight)''','''			completed.Filled["frequency"] = time.Duration(gap.Current) + time.Duration(diff)*time.Duration(math.Ceil(weight))''')],'emerge/completion',HEADP+'''
func TestZZDemo(t *testing.T) {
	c := &core.TargetPattern{Frequency: 100 * time.Millisecond}
	got := NewEngine().CompletePattern(c, []core.PatternGap{{Type: "frequency", Current: 1e8, Target: 2e8, Severity: 0.4}}).GetFrequencyAdjustment()
	if got < 0 || got > 50*time.Millisecond {
		t.Fatal(got)
	}
}
''','a frequency gap and no template','without a template the frequency jumps all the way at once')
seed('waveform-repeats','C28',[(ENG,'''		templateVal := template[i*len(template)/maxLen]''','''		templateVal := template[i%len(template)]''')],'emerge/completion',HEADP+'''
func TestZZDemo(t *testing.T) {
	e := NewEngine()
	e.AddTemplate("t", &core.TargetPattern{Waveform: []float64{0, 1}})
	got, _ := e.CompletePattern(&core.TargetPattern{Waveform: []float64{0, 0, 1, 1}}, []core.PatternGap{{Type: "waveform", Severity: 0.5}}).Filled["waveform"].([]float64)
	if len(got) != 4 || got[1] != 0 || got[2] != 1 {
		t.Fatal(got)
	}
}
''','a template waveform shorter than the current one','the template is repeated instead of stretched')
GDS='emerge/swarm/goal_directed.go'
HEADG="""
package swarm

import (
	"context"
	"errors"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

var _, _, _, _ = context.Background, errors.Is, math.Pi, time.Second

func goalSwarm(t *testing.T, n int, phase, coherence float64) *Swarm {
	s, err := New(n, core.State{Phase: phase, Frequency: 100 * time.Millisecond, Coherence: coherence})
	if err != nil {
		t.Fatal(err)
	}
	return s
}
"""
seed('att-lenient-current','C29',[(GDS,'if gds.targetPattern.Coherence >= limits.Practical*0.95 {','if current.Coherence >= limits.Practical*0.95 {')],'emerge/swarm',HEADG+"""
func TestZZDemo(t *testing.T) {
	s := goalSwarm(t, 20, 0, 0.9)
	g := NewGoalDirectedSync(s)
	lim := GetCoherenceLimits(20).Practical * 0.95
	g.targetPattern = &core.TargetPattern{Coherence: lim + 0.001}
	g.config.Thresholds.HighCoherence = 1
	tol := g.config.Convergence.ToleranceMedium
	if !g.isPatternAchieved(&core.TargetPattern{Coherence: lim + 0.001 - 1.5*tol}) {
		t.Fatal("not achieved")
	}
}
""",'a target at the practical limit and a coherence just below both','close to the practical limit the wider tolerance is not granted')
seed('att-wrong-phase','C29',[(GDS,'gds.swarm.MeasurePhaseConvergence(gds.targetPattern.Phase)','gds.swarm.MeasurePhaseConvergence(current.Phase)')],'emerge/swarm',HEADG+"""
func TestZZDemo(t *testing.T) {
	s := goalSwarm(t, 20, 0, 0.9)
	for _, a := range s.Agents() {
		a.SetPhase(0.75)
	}
	g := NewGoalDirectedSync(s)
	g.targetPattern = &core.TargetPattern{Coherence: 0.99}
	if g.isPatternAchieved(&core.TargetPattern{Coherence: 1, Phase: 0.75}) {
		t.Fatal("achieved at the wrong phase")
	}
}
""",'agents in step at a phase near but not at the target','agents converged on a wrong phase count as having reached the target')
seed('att-stuck-forever','C29',[(GDS,"""				gds.addStochasticResonance()
			}
""","""				gds.addStochasticResonance()
				iterationCount-- // noise costs no iteration
			}
""")],'emerge/swarm',HEADG+"""
func TestZZDemo(t *testing.T) {
	s := goalSwarm(t, 1, 0, 0.9)
	g := NewGoalDirectedSync(s)
	g.config.Strategy.UpdateInterval = time.Microsecond
	g.config.Strategy.MaxIterationsFactor = 60
	g.config.Convergence.PatternDistanceThreshold = -1
	g.config.Thresholds.HighCoherence = 2
	g.config.Variation.PerturbationChance = 0
	g.config.Variation.RandomWalkMagnitude = 0
	g.config.Resonance.NoiseMagnitude = 0
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
	defer cancel()
	for _, a := range s.Agents() {
		a.SetPhase(0)
	}
	// never within reach: the swarm stays put
	err := g.AchieveSynchronization(ctx, &core.TargetPattern{Phase: 0, Coherence: 0.9})
	if err == nil || errors.Is(err, context.DeadlineExceeded) {
		t.Fatal(err)
	}
}
""",'a swarm that gets stuck on the way','a stuck attempt never gives up')
seed('att-deadline-lost','C29',[(GDS,"""			return ctx.Err()
""","""			if err := ctx.Err(); errors.Is(err, context.Canceled) {
				return err
			}
			return fmt.Errorf("gave up after %d iterations", iterationCount)
"""),(GDS,'	"context"\n','	"context"\n	"errors"\n')],'emerge/swarm',HEADG+"""
func TestZZDemo(t *testing.T) {
	s := goalSwarm(t, 20, 0, 0.9)
	g := NewGoalDirectedSync(s)
	ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
	defer cancel()
	if err := g.AchieveSynchronization(ctx, &core.TargetPattern{Coherence: 0.9}); !errors.Is(err, context.DeadlineExceeded) {
		t.Fatal(err)
	}
}
""",'a context that ends by its deadline','an attempt that ran out of time does not return the context error')
seed('att-goal-capped','C29',[('emerge/swarm/swarm.go',"""		Coherence: s.goalState.Coherence,
		Amplitude: 1.0,""","""		Coherence: min(s.goalState.Coherence, GetCoherenceLimits(s.Size()).Practical),
		Amplitude: 1.0,""")],'emerge/swarm',HEADG+"""
func TestZZDemo(t *testing.T) {
	s := goalSwarm(t, 20, 0, 0.9)
	s.goalState.Coherence = 0.985
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	_ = s.Run(ctx)
	if got := s.goalDirectedSync.targetPattern.Coherence; math.Abs(got-0.985) > 1e-9 {
		t.Fatal(got)
	}
}
""",'a goal between the practical and the theoretical limit of a small swarm','Run works towards a lower coherence than the goal of the swarm')
CORR="""
func corrector(t *testing.T, goal, target float64, phases ...float64) *GoalDirectedSync {
	s := goalSwarm(t, len(phases), 0, 0.9)
	i := 0
	for _, a := range s.Agents() {
		a.SetPhase(phases[i])
		a.SetFrequency(100 * time.Millisecond)
		i++
	}
	g := NewGoalDirectedSync(s)
	g.config.Variation.PerturbationChance = 0
	g.config.Variation.RandomWalkMagnitude = 0
	g.targetPattern = &core.TargetPattern{Phase: goal, Coherence: target, Frequency: 100 * time.Millisecond}
	return g
}

func done(filled map[string]interface{}, base core.TargetPattern) *completion.CompletedPattern {
	return &completion.CompletedPattern{Base: &base, Filled: filled}
}
"""
HEADC=HEADG.replace('"github.com/carlisia/bio-adapt/emerge/core"\n','"github.com/carlisia/bio-adapt/emerge/completion"\n	"github.com/carlisia/bio-adapt/emerge/core"\n')+CORR
seed('cor-skip-stuck','C30',[(GDS,"""					agentIndex++
					continue
""","""					continue
""")],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	g := corrector(t, 1, 0.95, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5)
	g.applyPatternCompletion(done(nil, core.TargetPattern{}))
	n := 0
	for _, a := range g.swarm.Agents() {
		if a.Phase() != 0.5 {
			n++
		}
	}
	if n != 3 {
		t.Fatal(n)
	}
}
""",'a settled swarm of more than one agent, away from the target phase','after the first agent no other is pulled towards the target in a settled swarm')
seed('cor-one-sided','C30',[(GDS,'			if math.Abs(phaseDiff) > threshold {','			if phaseDiff > threshold {')],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	g := corrector(t, 1, 0.9, 1.5)
	g.applyPatternCompletion(done(nil, core.TargetPattern{}))
	for _, a := range g.swarm.Agents() {
		if a.Phase() >= 1.5 {
			t.Fatal(a.Phase())
		}
	}
}
""",'an agent ahead of the target phase','agents ahead of the target are never pulled back')
seed('cor-negative-frequency','C30',[(GDS,'			if newFreq > 0 {','			if newFreq != 0 {')],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	g := corrector(t, 1, 0.9, 1.5)
	g.applyPatternCompletion(done(map[string]interface{}{"frequency": 10 * time.Millisecond}, core.TargetPattern{Frequency: 500 * time.Millisecond}))
	for _, a := range g.swarm.Agents() {
		if a.Frequency() <= 0 {
			t.Fatal(a.Frequency())
		}
	}
}
""",'an adjustment that lowers the frequency by more than the frequency of an agent','an agent gets a negative frequency')
seed('cor-spread-below-target','C30',[(GDS,'	if targetCoherence < 0.4 && coherence > targetCoherence {','	if targetCoherence < 0.4 && coherence > targetCoherence-0.2 {')],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	for range 20 {
		g := corrector(t, 0, 0.35, 1.369, 2*math.Pi-1.369)
		g.applyPatternCompletion(done(nil, core.TargetPattern{}))
		for _, a := range g.swarm.Agents() {
			if math.Abs(core.PhaseDifference(a.Phase(), 0)) >= 1.369 {
				t.Fatal(a.Phase())
			}
		}
	}
}
""",'a low target coherence and a swarm a little below it','a swarm that is not coherent enough is scattered further instead of pulled together')
seed('cor-adjustment-large','C30',[(GDS,'	phaseAdjustment := completedPattern.GetPhaseAdjustment()','	phaseAdjustment := completedPattern.GetPhaseAdjustment() * 4')],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	for range 20 {
		g := corrector(t, 1, 0.9, 0.9)
		g.applyPatternCompletion(done(map[string]interface{}{"phase": 3.0}, core.TargetPattern{}))
		for _, a := range g.swarm.Agents() {
			if math.Abs(core.PhaseDifference(a.Phase(), 0.9)) > 2 {
				t.Fatal(a.Phase())
			}
		}
	}
}
""",'a completed pattern whose phase is far from the current one','an agent overshoots the target through the adjustment of the pattern')
seed('cor-noise-nobody','C30',[(GDS,'		idx := random.Intn(len(agents))\n','		idx := random.Intn(len(agents) + 1) // inclusive\n')],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	g := corrector(t, 1, 0.9, 1)
	for range 60 {
		for _, a := range g.swarm.Agents() {
			before := a.Phase()
			g.addStochasticResonance()
			if a.Phase() == before {
				t.Fatal("no noise")
			}
		}
	}
}
""",'a stuck swarm, and the one draw past its last agent','noise meant for a stuck swarm goes to nobody')
seed('cor-noise-drifts','C30',[(GDS,'			noise := (random.Float64() - 0.5) * gds.config.Resonance.NoiseMagnitude','			noise := random.Float64() * gds.config.Resonance.NoiseMagnitude')],'emerge/swarm',HEADC+"""
func TestZZDemo(t *testing.T) {
	g := corrector(t, 1, 0.9, 1)
	for range 60 {
		for _, a := range g.swarm.Agents() {
			a.SetPhase(1)
			g.addStochasticResonance()
			if math.Abs(a.Phase()-1) > g.config.Resonance.NoiseMagnitude/2+1e-9 {
				t.Fatal(a.Phase())
			}
		}
	}
}
""",'a swarm stuck for several iterations','noise that should be centred drives all phases one way')
SB='simulations/emerge/simulation/batch_manager.go'
SM='simulations/emerge/simulation/metrics.go'
SA='simulations/emerge/simulation/agent.go'
SPK='simulations/emerge/simulation'
HEADS="""
package simulation

import (
	"context"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/agent"
	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

var _, _, _ = context.Background, math.Pi, time.Second

func aWorkload(p pattern.Type, phase float64) (*Workload, *BatchManager) {
	a := agent.New("w")
	a.SetPhase(phase)
	w := NewWorkloadWithEmerge("w", 0, a, nil, p, goal.MinimizeAPICalls)
	w.batchManager = NewBatchManager()
	return w, w.batchManager
}

func tasks(n int) []Task { return make([]Task, n) }
"""
seed('bill-shared-list','C31',[(SA,"""	batch := make([]Task, len(w.pendingTasks))
	copy(batch, w.pendingTasks)
""","""	batch := w.pendingTasks[:len(w.pendingTasks):len(w.pendingTasks)]
""")],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	w, bm := aWorkload(pattern.Steady, 0)
	w.pendingTasks = append(w.pendingTasks, w.createTask())
	w.sendBatch()
	w.pendingTasks = append(w.pendingTasks, w.createTask())
	b := <-bm.queue
	if b.Tasks[0].ID != "w-task-1" {
		t.Fatal(b.Tasks[0].ID)
	}
}
""",'a task made after a batch was queued and before it is processed','a queued batch is overwritten by the tasks made later')
seed('bill-exact-multiple','C31',[(SB,'	for i := 0; i < len(tasks); i += MaxBatchSize {','	for i := 0; i+1 < len(tasks); i += MaxBatchSize {')],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	mc := NewMetricsCollector()
	NewBatchManager().processCollectedBatch(tasks(101), mc)
	if got := mc.Current().TotalAPICalls; got != 101 {
		t.Fatal(got)
	}
}
""",'one task more than a multiple of the batch size','the last task is never billed')
seed('bill-window-cut','C31',[(SB,"""			if len(collected) >= MaxBatchSize {
				// Batch is full
				return collected
			}
""","""			if len(collected) >= MaxBatchSize {
				// Batch is full
				return collected[:MaxBatchSize]
			}
""")],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	bm, mc := NewBatchManager(), NewMetricsCollector()
	bm.SubmitBatch("b", tasks(60))
	got := bm.collectSynchronizedBatches(AgentBatch{Tasks: tasks(70)})
	bm.processCollectedBatch(got, mc)
	if got := mc.Current().TotalAPICalls; got != 130 {
		t.Fatal(got)
	}
}
""",'batches that together pass the limit within one window','tasks above the limit of one window are lost')
seed('bill-phase-side','C31',[(SA,'	return phase < 0.1 || phase > (2*math.Pi-0.1)','	return phase < 0.1 || phase > 2*(math.Pi-0.1)')],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	w, _ := aWorkload(pattern.Steady, 2*math.Pi-0.15)
	w.pendingTasks = append(w.pendingTasks, w.createTask())
	if w.shouldBatch() {
		t.Fatal("sent too early")
	}
}
""",'a phase between 0.2 and 0.1 before the turn','batches are sent before the agents are in phase')
seed('bill-peak-first','C31',[(SM,"""	if coherence > mc.peakCoherence {
		mc.peakCoherence = coherence
	}

	// Mark convergence time (first time reaching 70% coherence)
	if coherence >= 0.7 && mc.convergedAt.IsZero() {
		mc.convergedAt = time.Now()
	}
""","""	if !mc.convergedAt.IsZero() {
		return
	}

	if coherence > mc.peakCoherence {
		mc.peakCoherence = coherence
	}

	// Mark convergence time (first time reaching 70% coherence)
	if coherence >= 0.7 {
		mc.convergedAt = time.Now()
	}
""")],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	mc := NewMetricsCollector()
	mc.UpdateCoherence(0.75)
	mc.UpdateCoherence(0.9)
	if got := mc.Current().PeakCoherence; got != 0.9 {
		t.Fatal(got)
	}
}
""",'a coherence that rises further after convergence','the peak coherence stops at the first convergence')
seed('bill-reset-sizes','C31',[(SM,"""	mc.batchSizes = mc.batchSizes[:0]
""","""	mc.batchSizes = mc.batchSizes[:min(len(mc.batchSizes), mc.largestBatch)]
""")],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	mc := NewMetricsCollector()
	mc.RecordBatch(5, 1, 1, 0)
	mc.Reset()
	mc.RecordBatch(5, 1, 1, 0)
	if got := mc.BatchSizeDistribution()["1-10"]; got != 1 {
		t.Fatal(got)
	}
}
""".replace("mc.totalBatches)","mc.totalBatches)"),'a reset after batches were recorded','the distribution still counts the batches from before the reset')
seed('bill-ids-restart','C31',[(SA,'	w.batchesSent++\n','	w.batchesSent++\n	w.taskCounter = 0 // ids number the tasks of a batch\n')],SPK,HEADS+"""
func TestZZDemo(t *testing.T) {
	w, bm := aWorkload(pattern.Steady, 0)
	seen := map[string]bool{}
	for range 3 {
		for range 3 {
			w.pendingTasks = append(w.pendingTasks, w.createTask())
		}
		w.sendBatch()
		for _, k := range (<-bm.queue).Tasks {
			if seen[k.ID] {
				t.Fatal(k.ID)
			}
			seen[k.ID] = true
		}
		w.createTask()
	}
}
""",'two batches of one workload','a task gets the id of an earlier one')
SSIM='simulations/emerge/simulation/simulation.go'
HEADSIM="""
package simulation

import (
	"context"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

var _, _, _ = context.Background, math.Pi, time.Second

func aSim(t *testing.T, g goal.Type) *Simulation {
	s, err := New(BuildConfig{Goal: g, Scale: scale.Tiny, Pattern: pattern.Steady, TargetCoherence: 0.8})
	if err != nil {
		t.Fatal(err)
	}
	return s
}
"""
seed('sim-resume-dead','C32',[(SSIM,"""	s.parentCtx = ctx
""",""),(SSIM,"""	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
""","""	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
	s.parentCtx = s.swarmCtx
""")],SPK,HEADSIM+"""
func TestZZDemo(t *testing.T) {
	s := aSim(t, goal.MinimizeAPICalls)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go s.Start(ctx)
	time.Sleep(100 * time.Millisecond)
	s.Pause()
	time.Sleep(100 * time.Millisecond)
	s.Resume()
	s.mu.RLock()
	defer s.mu.RUnlock()
	if s.swarmCtx.Err() != nil {
		t.Fatal("the resumed run is cancelled from the beginning")
	}
}
""",'a resume after a pause','the swarm never synchronizes again after a pause')
seed('sim-frozen-zero','C32',[(SSIM,"""			if phase, ok := s.pausedPhases[snapshot.ID]; ok {
""","""			if phase := s.pausedPhases[snapshot.ID]; phase > 0 {
""")],SPK,HEADSIM+"""
func TestZZDemo(t *testing.T) {
	s := aSim(t, goal.MinimizeAPICalls)
	for _, a := range s.emergeClient.Agents() {
		a.SetPhase(0)
	}
	s.Pause()
	for _, a := range s.emergeClient.Agents() {
		a.SetPhase(1)
	}
	for _, a := range s.Snapshot().Agents {
		if a.Phase != 0 {
			t.Fatal(a.Phase)
		}
	}
}
""",'an agent whose phase is exactly 0 at the pause','a paused snapshot shows it moving on')
seed('sim-early-recovery','C32',[(SSIM,"""				if coherence >= target {
""","""				if coherence >= target*s.metrics.Current().PeakCoherence {
""")],SPK,HEADSIM+"""
func TestZZDemo(t *testing.T) {
	s := aSim(t, goal.MinimizeAPICalls)
	s.metrics.UpdateCoherence(0.9)
	s.Disrupt()
	i := 0
	for _, a := range s.emergeClient.Agents() {
		// coherence about 0.76
		a.SetPhase([]float64{0.7, 2*math.Pi - 0.7}[i%2])
		i++
	}
	time.Sleep(350 * time.Millisecond)
	if !s.Snapshot().Disrupted {
		t.Fatal(s.emergeClient.Swarm().MeasureCoherence())
	}
}
""",'a peak below 1 before the disruption','a disruption counts as over although the target is not reached')
seed('sim-quarter-failed','C32',[(SSIM,"""			if i < agentCount/2 {
""","""			if i < agentCount/2 && i%5 != 4 {
""")],SPK,HEADSIM+"""
func TestZZDemo(t *testing.T) {
	s := aSim(t, goal.RecoverFromFailure)
	s.Reset()
	n := 0
	for _, a := range s.emergeClient.Agents() {
		if a.Phase() == 0 {
			n++
		}
	}
	if n != len(s.emergeClient.Agents())/2 {
		t.Fatal(n)
	}
}
""",'a reset of a simulation for recovery with ten or more agents','the halves of a reset are not halves')
seed('sim-stuck-reset','C32',[(SSIM,"""		s.mu.Lock()
		s.reset = false
""","""		s.mu.Lock()
		s.reset = s.paused
""")],SPK,HEADSIM+"""
func TestZZDemo(t *testing.T) {
	s := aSim(t, goal.MinimizeAPICalls)
	s.Reset()
	s.Pause()
	time.Sleep(2300 * time.Millisecond)
	if s.Snapshot().Reset {
		t.Fatal("a reset is shown for ever")
	}
}
""",'a pause within two seconds after a reset','the reset is shown for ever')
seed('sim-two-queues','C32',[(SSIM,"""		workload.Start(ctx, s.batch)
""","""		if batch := s.batch; batch.queue != nil && cap(batch.queue) >= len(s.workloads) {
			workload.Start(ctx, batch)
		} else {
			workload.Start(ctx, NewBatchManager()) // a queue of its own for each of many workloads
		}
""")],SPK,HEADSIM.replace("scale.Tiny","size")+"""
const size = scale.Large

func TestZZDemo(t *testing.T) {
	s := aSim(t, goal.MinimizeAPICalls)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go s.Start(ctx)
	time.Sleep(300 * time.Millisecond)
	for _, w := range s.workloads {
		if w.batchManager != s.batch {
			t.Fatal("a workload sends where nobody bills")
		}
	}
}
""",'more workloads than the queue holds','their batches are never billed')
SRUN='simulations/emerge/ui/runner.go'
SCTL='simulations/display/controller.go'
UIPK='simulations/emerge/ui'
HEADUI="""
package ui

import (
	"context"
	"testing"
	"time"

	"github.com/mum4k/termdash/keyboard"
	"github.com/mum4k/termdash/terminal/terminalapi"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/display"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

type fake struct {
	keys  string
	snaps []display.SimulationSnapshot
	seen  func()
	ended bool
}

func (*fake) Initialize() error                   { return nil }
func (*fake) Close() error                        { return nil }
func (*fake) ShowWelcome()                        {}
func (*fake) ShowSummary(_ display.Statistics)    {}
func (f *fake) Update(s display.SimulationSnapshot) { f.snaps = append(f.snaps, s) }
func (f *fake) Run(ctx context.Context, c *display.KeyboardController) error {
	for _, k := range f.keys {
		c.ProcessKey(&terminalapi.Keyboard{Key: keyboard.Key(k)})
		time.Sleep(60 * time.Millisecond)
	}
	f.ended = ctx.Err() != nil
	if f.seen != nil {
		f.seen()
	}
	return nil
}

func aRun(t *testing.T, keys string, p pattern.Type, seen func(s *simulation.Simulation)) (*RunResult, *fake) {
	sim, err := simulation.New(simulation.BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Tiny, Pattern: p, TargetCoherence: 0.8})
	if err != nil {
		t.Fatal(err)
	}
	f := &fake{keys: keys, seen: func() { seen(sim) }}
	r := NewRunner(RunnerConfig{UpdateInterval: time.Hour, CurrentGoal: goal.MinimizeAPICalls, CurrentScale: scale.Tiny, CurrentPattern: p}, sim, f, display.NewKeyboardController())
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	return r.Run(ctx), f
}
"""
seed('ctl-resume-forgotten','C33',[(SRUN,"""				case display.EventResume:
					c.simulation.Resume()
					c.paused = false
""","""				case display.EventResume:
					if c.paused {
						c.simulation.Resume()
					}
""")],UIPK,HEADUI+"""
func TestZZDemo(t *testing.T) {
	aRun(t, "p p", pattern.Steady, func(s *simulation.Simulation) {
		if !s.Snapshot().Paused {
			t.Fatal("pause, resume, pause: not paused")
		}
	})
}
""",'a pause after a resume by the space bar','P resumes instead of pausing')
seed('ctl-sparse-restarts','C33',[(SRUN,"""		return c.config.CurrentPattern != pattern.Sparse
""","""		return c.config.CurrentPattern != pattern.Mixed
""")],UIPK,HEADUI+"""
func TestZZDemo(t *testing.T) {
	r, f := aRun(t, "z", pattern.Sparse, func(*simulation.Simulation) {})
	if f.ended || r.ScaleEvent != 0 {
		t.Fatal("the pattern that runs is requested again")
	}
	if r, f := aRun(t, "z", pattern.Mixed, func(*simulation.Simulation) {}); !f.ended || r.ScaleEvent != display.PatternSparse {
		t.Fatal("the sparse pattern cannot be chosen")
	}
}
""",'Z pressed while the mixed pattern runs','the sparse pattern cannot be chosen from the mixed one')
seed('ctl-paused-reset','C33',[(SRUN,"""					// Only allow reset when not paused
					if !c.paused {
""","""					// Only allow reset when not paused, or to get out of a disruption
					if !c.paused || c.simulation.Snapshot().Disrupted {
""")],UIPK,HEADUI+"""
func TestZZDemo(t *testing.T) {
	// a coherence target that a disrupted swarm does not reach within the test
	sim, err := simulation.New(simulation.BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Small, Pattern: pattern.Steady, TargetCoherence: 0.99999})
	if err != nil {
		t.Fatal(err)
	}
	f := &fake{keys: "dpr", seen: func() {
		if sim.Snapshot().Reset {
			t.Error("reset during a pause")
		}
	}}
	r := NewRunner(RunnerConfig{UpdateInterval: time.Hour, CurrentGoal: goal.MinimizeAPICalls, CurrentScale: scale.Small, CurrentPattern: pattern.Steady}, sim, f, display.NewKeyboardController())
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r.Run(ctx)
}
""",'a reset while a disrupted simulation is paused','it resets the simulation during the pause')
seed('ctl-agent-shown','C33',[(SRUN,"""			BatchesSent:   a.BatchesSent,
""","""			BatchesSent:   sim.Agents[max(i, 1)-1].BatchesSent,
""")],UIPK,HEADUI+"""
func TestZZDemo(t *testing.T) {
	var r Runner
	var in simulation.Snapshot
	for i := 0; i < 4; i++ {
		in.Agents = append(in.Agents, simulation.AgentSnapshot{BatchesSent: i * i})
	}
	for i, a := range r.convertSnapshot(in).Agents {
		if a.BatchesSent != i*i {
			t.Fatal(i, a.BatchesSent)
		}
	}
}
""",'agents that have sent different numbers of batches','each agent is shown with the batches of the one before')
seed('ctl-lost-request','C33',[(SRUN,"""						select {
						case <-scaleEventChan:
							// Clear any existing event
						default:
						}
						// Send new event
						scaleEventChan <- event.Type
						appCancel()
""","""						appCancel()
						// Send new event, unless the run is over
						select {
						case <-ctx.Done():
						case scaleEventChan <- event.Type:
						}
""")],UIPK,HEADUI+"""
func TestZZDemo(t *testing.T) {
	for i := 0; i < 12; i++ {
		r, _ := aRun(t, "3", pattern.Steady, func(*simulation.Simulation) {})
		if r.ScaleEvent != display.ScaleMedium {
			t.Fatal("the request for another scale is lost")
		}
	}
}
""",'the choice of the runtime between two ready cases','a request for another scale can be lost')
DPK='simulations/display'
seed('ctl-late-script','C33',[(SCTL,"""		if i < len(c.delays) {
			time.Sleep(c.delays[i])
		}
		c.events <- event
""","""		if n := len(c.delays); n > 0 {
			time.Sleep(c.delays[min(i, n-1)])
		}
		c.events <- event
""")],DPK,"""
package display

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	start := time.Now()
	c := NewAutomatedController([]ControlEvent{{Type: EventPause}, {Type: EventResume}, {Type: EventQuit}}, []time.Duration{300 * time.Millisecond})
	for i := 0; i < 3; i++ {
		<-c.Events()
	}
	if d := time.Since(start); d > 550*time.Millisecond {
		t.Fatal(d)
	}
}
""",'a script with fewer delays than events','the last delay is repeated')
seed('ctl-shift-key','C33',[(SCTL,"""	switch k.Key {
	case 'q', 'Q':
""","""	key := k.Key
	if key >= 'A' && key < 'Z' {
		key += 'a' - 'A'
	}
	switch key {
	case 'q', 'Q':
"""),(SCTL,"""	case 'z', 'Z':
""","""	case 'z':
""")],DPK,"""
package display

import (
	"testing"

	"github.com/mum4k/termdash/terminal/terminalapi"
)

func TestZZDemo(t *testing.T) {
	c := NewKeyboardController().(*KeyboardController)
	c.ProcessKey(&terminalapi.Keyboard{Key: 'Z'})
	if len(c.events) != 1 || (<-c.events).Type != PatternSparse {
		t.Fatal("Z does nothing")
	}
}
""",'the last letter of the alphabet with shift','a documented key does nothing')
CCU='client/emerge/custom.go'
CPK='client/emerge'
HEADC="""
package emerge

import (
	"context"
	"reflect"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/scale"
)

var _, _ = context.Background, scale.Tiny

func aim(c *Client) float64 {
	return reflect.ValueOf(c.Swarm()).Elem().FieldByName("goalState").FieldByName("Coherence").Float()
}
"""
seed("option-error-forgotten","C34",[(CCU,"""	for _, opt := range opts {
		if err := opt(b); err != nil {
			return nil, err
		}
	}

	return b.Build()""","""	var err error
	for _, opt := range opts {
		err = opt(b)
	}
	if err != nil {
		return nil, err
	}

	return b.Build()""")],CPK,HEADC+"""
func TestZZDemo(t *testing.T) {
	c, err := NewWithOptions(WithCoherenceOption(1.5), WithScaleOption(scale.Tiny))
	if err == nil || c != nil {
		t.Fatal("a coherence of 1.5 was refused, and the client built all the same")
	}
}
""","a refused option followed by one that is accepted","NewWithOptions builds a client although an option was refused")
seed("coherence-of-first-scale","C34",[(CCU,"	b.scale = s\n	return b\n","	b.scale = s\n	if b.targetCoherence <= 0 {\n		b.targetCoherence = s.DefaultTargetCoherence()\n	}\n	return b\n")],CPK,HEADC+"""
func TestZZDemo(t *testing.T) {
	c, err := New().WithScale(scale.Huge).WithScale(scale.Tiny).Build()
	if err != nil {
		t.Fatal(err)
	}
	want, _ := New().WithScale(scale.Tiny).Build()
	if got, want := aim(c), aim(want); got != want {
		t.Fatalf("a tiny swarm is to reach %v, with a scale chosen earlier %v", want, got)
	}
}
""","a scale chosen after another one, without a coherence of its own","the swarm aims for the coherence of a scale that was replaced")
seed("full-coherence-refused","C34",[(CCU,"coherence <= 0 || coherence > 1 {","coherence <= 0 || coherence >= 1 {")],CPK,HEADC+"""
func TestZZDemo(t *testing.T) {
	if _, err := NewWithOptions(WithCoherenceOption(1)); err != nil {
		t.Fatal(err)
	}
}
""","a target coherence of exactly 1","full coherence is refused by the option, though a valid target")
seed("config-of-no-size","C34",[(CCU,"""		swarm:  sw,
		config: config,
""","""		swarm:  sw,
		config: swarm.For(b.goal),
""")],CPK,HEADC+"""
func TestZZDemo(t *testing.T) {
	c, err := MinimizeAPICalls(scale.Tiny)
	if err != nil {
		t.Fatal(err)
	}
	d, err := MinimizeAPICalls(scale.Huge)
	if err != nil {
		t.Fatal(err)
	}
	if reflect.DeepEqual(c.Config(), d.Config()) {
		t.Fatal("a tiny client reports the configuration of a huge one")
	}
}
""","a client whose size is not the default of the goal's configuration","Config does not report the configuration the swarm runs with")
SBLD='simulations/emerge/simulation/builder.go'
seed("low-coherence-raised","C34",[(SBLD,"config.TargetCoherence == config.Scale.DefaultTargetCoherence()","config.TargetCoherence <= config.Scale.DefaultTargetCoherence()")],"simulations/emerge/simulation","""
package simulation

import (
	"reflect"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/goal"
	"github.com/carlisia/bio-adapt/emerge/scale"
	"github.com/carlisia/bio-adapt/simulations/emerge/simulation/pattern"
)

func TestZZDemo(t *testing.T) {
	s, err := New(BuildConfig{Goal: goal.MinimizeAPICalls, Scale: scale.Tiny, Pattern: pattern.Steady, TargetCoherence: 0.3})
	if err != nil {
		t.Fatal(err)
	}
	if got := reflect.ValueOf(s.emergeClient.Swarm()).Elem().FieldByName("goalState").FieldByName("Coherence").Float(); got != 0.3 {
		t.Fatalf("asked for a coherence of 0.3, the swarm aims for %v", got)
	}
}
""","a batching simulation with a target below its scale's recommendation","the target coherence asked for is replaced by the scale's")
CST='emerge/core/state.go'
HEADST="""
package core

import (
	"math"
	"testing"
	"time"
)

var _, _ = math.NaN, time.Second
"""
seed("state-one-infinity","C35",[(CST,"math.IsInf(s.Phase, 0) {\n		errors","math.IsInf(s.Phase, 1) {\n		errors")],"emerge/core",HEADST+"""
func TestZZDemo(t *testing.T) {
	s := State{Phase: math.Inf(-1), Frequency: time.Second, Coherence: 0.5}
	if s.Validate() == nil {
		t.Fatal("a phase of -Inf is accepted")
	}
}
""","a phase of minus infinity","an infinite target phase is accepted and poisons every measurement")
seed("state-valid-not-wrapped","C35",[(CST,"""	} else {
		// Even if valid, apply normalization for consistency
		s.normalize()
	}

	return nil""","""	}

	return nil""")],"emerge/core",HEADST+"""
func TestZZDemo(t *testing.T) {
	s := State{Phase: -1, Frequency: time.Second, Coherence: 0.5}
	if err := s.NormalizeAndValidate(); err != nil || s.Phase < 0 {
		t.Fatal(err, s.Phase)
	}
}
""","a state that is valid but for a phase outside [0, 2π]","a valid state's phase is not wrapped")
seed("state-nan-mod","C35",[(CST,"""	if !math.IsNaN(s.Coherence) {
		if s.Coherence < 0 {
			s.Coherence = 0
		} else if s.Coherence > 1 {
			s.Coherence = 1
		}
	}""","""	s.Coherence = clampUnit(s.Coherence)"""),(CST,"""// StateUpdate represents""","""// clampUnit limits x to [0, 1].
func clampUnit(x float64) float64 {
	if x >= 0 {
		return math.Min(x, 1)
	}
	return 0
}

// StateUpdate represents""")],"emerge/core",HEADST+"""
func TestZZDemo(t *testing.T) {
	s := State{Phase: 1, Frequency: time.Second, Coherence: math.NaN()}
	if err := s.NormalizeAndValidate(); err == nil {
		t.Fatal("a coherence that is not a number is taken for", s.Coherence)
	}
}
""","a coherence that is not a number","NaN is repaired to 0 instead of refused")
seed("state-slow-period","C35",[(CST,"	if s.Frequency <= 0 {\n		s.Frequency = 100","	if s.Frequency < time.Microsecond {\n		s.Frequency = 100")],"emerge/core",HEADST+"""
func TestZZDemo(t *testing.T) {
	s := State{Phase: 1, Frequency: 500 * time.Nanosecond, Coherence: 0.5}
	if err := s.NormalizeAndValidate(); err != nil || s.Frequency != 500 {
		t.Fatal(err, s.Frequency)
	}
}
""","a valid period under a microsecond","a valid period is replaced by the default")
CPH='emerge/core/phase.go'
HEADPH="""
package core

import (
	"math"
	"testing"
)
"""
seed("weights-beyond-phases","C36",[(CPH,"""		sumSin += w * math.Sin(phases[i])
		sumWeights += w
	}
""","""		sumSin += w * math.Sin(phases[i])
	}
	for _, w := range weights {
		sumWeights += w
	}
""")],"emerge/core",HEADPH+"""
func TestZZDemo(t *testing.T) {
	if got := MeasureCoherenceWeighted([]float64{1, 1}, []float64{1, 1, 2}); math.Abs(got-1) > 1e-9 {
		t.Fatalf("two equal phases have coherence %v", got)
	}
}
""","more weights than phases","weights without a phase lower the coherence of the others")
SPC='emerge/swarm/phase_convergence.go'
HEADPC="""
package swarm

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func swarmAt(t *testing.T, n int, phase func(i int) float64) *Swarm {
	s, err := New(n, core.State{Phase: 0, Frequency: 100 * time.Millisecond, Coherence: 0.5})
	if err != nil {
		t.Fatal(err)
	}
	i := 0
	for _, a := range s.Agents() {
		a.SetPhase(phase(i))
		i++
	}
	return s
}

var _ = math.Pi
"""
seed("variance-across-zero","C36",[(SPC,"""		for diff > math.Pi {
			diff -= 2 * math.Pi
		}
		for diff < -math.Pi {
			diff += 2 * math.Pi
		}
		variance += diff * diff""","""		if diff < -math.Pi {
			diff += 2 * math.Pi
		}
		variance += diff * diff""")],"emerge/swarm",HEADPC+"""
func TestZZDemo(t *testing.T) {
	s := swarmAt(t, 2, func(i int) float64 { return []float64{0.1, 2*math.Pi - 0.1}[i] })
	if got := s.MeasurePhaseVariance(); math.Abs(got-0.01) > 1e-6 {
		t.Fatalf("phases 0.1 around 0 have variance %v", got)
	}
}
""","phases on both sides of 0, or a mean direction below it","the variance of phases around 0 is that of phases a turn apart")
seed("large-swarm-without-first","C36",[("emerge/swarm/swarm.go","""		phases := make([]float64, len(s.agentSlice))
		for i, a := range s.agentSlice {
			phases[i] = a.Phase()
		}
		s.agentsMutex.RUnlock()
		return core.MeasureCoherence(phases)""","""		phases := make([]float64, 0, len(s.agentSlice))
		for i := len(s.agentSlice) - 1; i > 0; i-- {
			phases = append(phases, s.agentSlice[i].Phase())
		}
		s.agentsMutex.RUnlock()
		return core.MeasureCoherence(phases)""")],"emerge/swarm",HEADPC+"""
func TestZZDemo(t *testing.T) {
	s := swarmAt(t, 150, func(int) float64 { return 1 })
	for _, a := range s.Agents() {
		a.SetPhase(1 + math.Pi)
		if got := s.MeasureCoherence(); math.Abs(got-148.0/150) > 1e-9 {
			t.Fatalf("one agent opposed to 149 leaves coherence %v", got)
		}
		a.SetPhase(1)
	}
}
""","a swarm of more than 100 agents whose first agent differs","the first agent of a large swarm is left out of its coherence")
seed("goal-always-ahead","C36",[("emerge/agent/agent.go","""		targetPhaseShift := math.Atan2(avgSin, avgCos)
""","""		targetPhaseShift := math.Acos(avgCos / max(localCoherence, math.Abs(avgCos), 1e-12))
		_ = avgSin
""")],"emerge/agent","""
package agent

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	a, b := New("a"), New("b")
	a.SetPhase(2)
	b.SetPhase(1)
	a.ConnectTo("b", b)
	a.UpdateContext()
	if d := core.PhaseDifference(a.LocalGoal(), a.Phase()); math.Abs(d+1) > 1e-6 {
		t.Fatalf("a neighbor 1 rad behind moves the local goal by %v", d)
	}
}
""","a neighbor behind","an agent's local goal moves ahead also when its neighbors are behind")
seed("goal-of-last-neighbor","C36",[("emerge/agent/agent.go","""			s.LocalGoal = core.WrapPhase(myPhase + effectiveShift)
""","""			s.LocalGoal = core.WrapPhase(s.LocalGoal + effectiveShift)
""")],"emerge/agent","""
package agent

import (
	"math"
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	a, b := New("a"), New("b")
	a.SetPhase(2)
	a.SetLocalGoal(0.5)
	b.SetPhase(3)
	a.ConnectTo("b", b)
	a.UpdateContext()
	a.UpdateContext()
	if d := core.PhaseDifference(a.LocalGoal(), 3); math.Abs(d) > 1e-6 {
		t.Fatalf("the local goal is %v, the only neighbor at 3", a.LocalGoal())
	}
}
""","a local goal that is not the own phase, or two updates","the local goal drifts on with every look at the neighbors")
MPA='emerge/monitoring/patterns.go'
IPA='internal/emerge/pattern.go'
MCO='emerge/monitoring/convergence.go'
HEADMP="""
package monitoring

import (
	"math"
	"testing"
	"time"
)

var _, _ = math.Pi, time.Second
"""
seed("gap-between-later-phases","C37",[(MPA,"core.PhaseDifference(p.Phases[i], p.Phases[i-1])","core.PhaseDifference(p.Phases[i], p.Phases[(i-1)/2*2])")],"emerge/monitoring",HEADMP+"""
func TestZZDemo(t *testing.T) {
	p := NewTargetPattern([]float64{0, 1, 2, 3}, []time.Duration{time.Second, time.Second, time.Second, time.Second})
	if g := p.Detect(); len(g) != 0 {
		t.Fatalf("gaps %v between phases one apart", g)
	}
}
""","at least three phases, the third a quarter turn from the first but not from its neighbor","a gap is reported where neighboring phases are close")
seed("short-way-lost","C37",[(MPA,"	diff := core.PhaseDifference(endPhase, startPhase)\n","	diff := core.WrapPhase(endPhase) - core.WrapPhase(startPhase)\n")],"emerge/monitoring",HEADMP+"""
func TestZZDemo(t *testing.T) {
	p := NewTargetPattern([]float64{2*math.Pi - 0.5, 3, 0.5}, nil)
	got := p.Complete(PatternGap{StartIdx: 0, EndIdx: 2})
	if len(got) != 1 || math.Abs(math.Remainder(got[0], 2*math.Pi)) > 1e-9 {
		t.Fatalf("halfway between -0.5 and 0.5 is %v", got)
	}
}
""","a gap across phase 0","the gap is filled the long way round")
seed("likeness-one-sided","C37",[(IPA,"math.Max(maxP/maxO, maxO/maxP)","maxP / maxO")],"internal/emerge","""
package emerge

import (
	"math"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	a := NewTargetPattern([]float64{0.001, 0.002}, []time.Duration{time.Second})
	b := NewTargetPattern([]float64{1, 2}, []time.Duration{time.Second})
	if x, y := a.Similarity(b), b.Similarity(a); math.Abs(x-y) > 1e-9 {
		t.Fatalf("%v from one side, %v from the other", x, y)
	}
}
""","patterns whose phases differ in size by more than a hundred times, the smaller asked","similarity depends on which of two patterns is asked")
seed("rate-from-the-start","C37",[(MCO,"""		x := float64(i - startIdx)
""","""		x := float64(i)
"""),(MCO,"	slope := (n*sumXY - sumX*sumY) / (n*sumX2 - sumX*sumX)","	mid := (n - 1) / 2\n	slope := (sumXY - mid*sumY) / (sumX2 - n*mid*mid)")],"emerge/monitoring",HEADMP.replace("\"time\"\n","\"time\"\n\n\t\"github.com/carlisia/bio-adapt/emerge/core\"\n")+"""
func TestZZDemo(t *testing.T) {
	m := NewConvergence(core.State{}, 0.9)
	for i := 0; i < 15; i++ {
		m.Record(float64(i) * 0.01)
	}
	if r := m.ConvergenceRate(); math.Abs(r-0.01) > 1e-9 {
		t.Fatalf("rate %v instead of 0.01", r)
	}
}
""","more than ten recordings (two places disagree on where counting starts)","the rate of convergence is wrong once the history outgrows the window")
seed("variation-must-equal","C37",[(MPA,"variation.Similarity(pattern) >= (1.0 - t.Tolerance)","pattern.Similarity(&variation) >= 1.0-t.Tolerance*similarity")],"emerge/monitoring",HEADMP+"""
func TestZZDemo(t *testing.T) {
	obs := NewTargetPattern([]float64{1, 2}, []time.Duration{time.Second})
	tm := &PatternTemplate{BasePattern: TargetPattern{}, Variations: []TargetPattern{*NewTargetPattern([]float64{1, 2.2}, []time.Duration{time.Second})}, Tolerance: 0.2}
	if !tm.Matches(obs) {
		t.Fatal("a variation within tolerance does not match")
	}
}
""","a variation that is similar, beside a base pattern that is not","a pattern close to a variation is not recognised")
CLE='client/emerge/emerge.go'
SWG='emerge/swarm/goal_directed.go'
SWS='emerge/swarm/swarm.go'
seed("client-stays-converged","C38",[(CLE,"	return c.swarm.IsConverged()\n","	return c.swarm.IsConverged() || c.swarm.ConvergenceTime() > 0\n")],"client/emerge","""
package emerge

import (
	"context"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/emerge/swarm"
)

func TestZZDemo(t *testing.T) {
	s, err := swarm.New(4, core.State{Phase: 0, Frequency: 100 * time.Millisecond, Coherence: 0.5})
	if err != nil {
		t.Fatal(err)
	}
	for _, a := range s.Agents() {
		a.SetPhase(0)
		a.SetFrequency(100 * time.Millisecond)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	_ = s.Run(ctx)
	i := 0
	for _, a := range s.Agents() {
		a.SetPhase(float64(i) * math.Pi / 2)
		i++
	}
	if c := (&Client{swarm: s}); c.IsConverged() {
		t.Fatalf("converged with coherence %v", c.Coherence())
	}
}
""","a run that converged, and agents that drifted apart after it","a client keeps reporting convergence")
seed("recorded-mean","C38",[(SWG,"			coherence := gds.swarm.MeasureCoherence()\n","			coherence := currentPattern.Coherence*0.5 + currentPattern.Stability*0.5\n")],"emerge/swarm","""
package swarm

import (
	"context"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(4, core.State{Phase: 0, Frequency: 100 * time.Millisecond, Coherence: 0.8})
	if err != nil {
		t.Fatal(err)
	}
	for _, a := range s.Agents() {
		a.SetPhase(0)
		a.SetFrequency(100 * time.Millisecond)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	_ = s.Run(ctx)
	if s.ConvergenceTime() == 0 {
		t.Fatal("a synchronized swarm took no time to converge: it was not recorded as converged")
	}
}
""","an attempt, then a look at the time it took","what is recorded is not what was measured")
seed("threshold-recommended","C38",[(SWS,"monitoring.NewConvergence(goal, goal.Coherence)","monitoring.NewConvergence(goal, limits.Recommended)")],"emerge/swarm","""
package swarm

import (
	"context"
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	s, err := New(2, core.State{Phase: 0.5, Frequency: 100 * time.Millisecond, Coherence: 0.5})
	if err != nil {
		t.Fatal(err)
	}
	p := 0.5 - math.Pi/3.6 // coherence 0.64
	for _, a := range s.Agents() {
		a.SetPhase(p)
		a.SetFrequency(100 * time.Millisecond)
		p += 2 * math.Pi / 3.6
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	_ = s.Run(ctx)
	if s.IsConverged() && s.ConvergenceTime() == 0 {
		t.Fatalf("converged (%v), but in no time", s.CurrentCoherence())
	}
}
""","a goal below the recommended coherence, and a swarm between the two","the monitor of a swarm waits for another coherence than its goal")
APL='emerge/agent/pool.go'
HEADPL="""
package agent

import (
	"testing"
)
"""
seed("pool-keeps-goal","C39",[(APL,"		LocalGoal: random.Phase(),\n","		LocalGoal: a.LocalGoal(),\n")],"emerge/agent",HEADPL+"""
func TestZZDemo(t *testing.T) {
	a := New("former")
	a.SetLocalGoal(1.25)
	a.Reset("latter")
	if a.LocalGoal() == 1.25 {
		t.Fatal("the recycled agent has its former local goal")
	}
}
""","an agent that was used before (new ones have a random goal anyway)","a recycled agent pursues the goal of its former life")
seed("pool-neighbors-stay","C39",[(APL,"""	if a.optimizedNeighbors != nil {
		a.optimizedNeighbors.Clear()
	}

	// Reset context
""","""	if a.optimizedNeighbors != nil && !a.useOptimizedNeighbors {
		a.optimizedNeighbors.Clear()
	}

	// Reset context
"""),(APL,"""	if a.optimizedNeighbors != nil {
		a.optimizedNeighbors.Clear()
	}

	// Don't""","""	if a.optimizedNeighbors != nil && !a.useOptimizedNeighbors {
		a.optimizedNeighbors.Clear()
	}

	// Don't""")],"emerge/agent",HEADPL+"""
func TestZZDemo(t *testing.T) {
	p := &PoolManager{stats: &PoolStats{}}
	a := New("former")
	a.ConnectTo("b", New("b"))
	p.Put(a)
	if a.NeighborCount() != 0 {
		t.Fatal("an agent in the pool still has neighbors")
	}
}
""","an agent that was connected before it was returned (two places that each would suffice)","a recycled agent is connected to the neighbors of its former life")
seed("pool-stale-perception","C39",[(APL,"	// Reset context\n	a.context.Store(core.Context{})\n","	// Reset context\n	if a.decider == nil {\n		a.context.Store(core.Context{})\n	}\n"),(APL,"	// Don't nil out structures, just clear them\n	a.context.Store(core.Context{})\n","	// Don't nil out structures, just clear them\n")],"emerge/agent","""
package agent

import (
	"testing"

	"github.com/carlisia/bio-adapt/emerge/core"
)

func TestZZDemo(t *testing.T) {
	p := &PoolManager{stats: &PoolStats{}}
	a := New("former")
	a.ConnectTo("b", New("b"))
	a.UpdateContext()
	p.Put(a)
	a.Reset("latter")
	if c, ok := a.context.Load().(core.Context); ok && c.Density != 0 {
		t.Fatalf("the recycled agent perceives %+v", c)
	}
}
""","an agent that had perceived neighbors (two places that each would suffice)","a recycled agent decides by what its former life perceived")


BAS='internal/emerge/basin.go'
HEADBAS="""
package emerge

import (
	"math"
	"testing"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
)

var (
	_ = time.Second
	_ = math.Pi
)
"""
seed("basin-seam-adjust","C40",[(BAS,"core.PhaseDifference(b.target.Phase, current.Phase)","b.target.Phase - current.Phase")],"internal/emerge",HEADBAS+"""
func TestZZDemo(t *testing.T) {
	b := NewAttractorBasin(core.State{Phase: 0.1, Frequency: time.Second}, 1, 2)
	a := b.OptimalAdjustment(core.State{Phase: 2*math.Pi - 0.1, Frequency: time.Second})
	if a <= 0 || a > 0.2 {
		t.Fatalf("adjustment %g goes the long way round", a)
	}
}
""","a target and a state on the two sides of the seam of the circle","a state just across the seam is sent the long way round, through the opposite phase")
seed("basin-slow-rate","C40",[(BAS,"math.Max(float64(state.Frequency), float64(b.target.Frequency))","float64(b.target.Frequency)")],"internal/emerge",HEADBAS+"""
func TestZZDemo(t *testing.T) {
	b := NewAttractorBasin(core.State{Phase: 1, Frequency: time.Millisecond}, 1, 2)
	r := b.ConvergenceRate(core.State{Phase: 1.1, Frequency: time.Second})
	if r < 0 {
		t.Fatalf("rate %g below 0", r)
	}
}
""","a state of more than twice the period of its target","the rate of convergence of a slow state is negative")
seed("basin-edge-out","C40",[(BAS,"	return b.DistanceToTarget(state) <= b.radius","	return b.DistanceToTarget(state) < b.radius")],"internal/emerge",HEADBAS+"""
func TestZZDemo(t *testing.T) {
	b := NewAttractorBasin(core.State{Phase: 1}, 1, 0)
	if !b.IsInBasin(core.State{Phase: 1}) {
		t.Fatal("the target is not in its own basin")
	}
}
""","a state exactly at the radius","the edge of a basin, and all of a basin of radius 0, counts as outside")
