From 277cbb453c6432dd92a20660b850788a572818cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 01/37] fix: make agent state and behavior updates atomic

Update loaded, modified and stored without synchronisation, so two
concurrent updates of one agent could lose one of them.
---
 emerge/agent/atomic_state.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/emerge/agent/atomic_state.go b/emerge/agent/atomic_state.go
index b32601c..08c45eb 100644
--- a/emerge/agent/atomic_state.go
+++ b/emerge/agent/atomic_state.go
@@ -47,12 +47,20 @@ func (a *AtomicState) Store(state StateData) {
 }
 
 // Update atomically updates the state.
-// For simplicity, this just loads, modifies, and stores.
-// In high contention scenarios, consider using a mutex instead.
+// fn may run more than once: it is retried on a fresh copy when another
+// goroutine published a state in the meantime, so no update is lost.
 func (a *AtomicState) Update(fn func(*StateData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := StateData{}
+		if data, ok := old.(*StateData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
 
 // AtomicBehavior uses atomic.Value for behavioral parameters.
@@ -83,8 +91,18 @@ func (a *AtomicBehavior) Store(behavior BehaviorData) {
 }
 
 // Update atomically updates the behavior.
+// fn may run more than once: it is retried on a fresh copy when another
+// goroutine published a behavior in the meantime, so no update is lost.
 func (a *AtomicBehavior) Update(fn func(*BehaviorData)) {
-	old := a.Load()
-	fn(&old)
-	a.Store(old)
+	for {
+		old := a.value.Load()
+		next := BehaviorData{}
+		if data, ok := old.(*BehaviorData); ok {
+			next = *data
+		}
+		fn(&next)
+		if a.value.CompareAndSwap(old, &next) {
+			return
+		}
+	}
 }
-- 
2.43.0


From bca7f2bf2304f963582a520e58125363ce20801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:14 +0000
Subject: [PATCH 02/37] fix: charge an action only if the agent can still
 afford it

ApplyAction compared the cost with a snapshot taken before the update, so
concurrent actions could together spend more energy than the agent had.
---
 emerge/agent/agent.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 74b94ab..344fac8 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -446,25 +446,39 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 			core.ErrInsufficientEnergy, energyCost, state.Energy)
 	}
 
-	// Apply action and update energy in a single atomic operation
+	// Apply action and update energy in a single atomic operation. The energy
+	// may have been spent since the check above, so it is checked again there.
 	success := false
 	switch action.Type {
 	case "adjust_phase", strategyPhaseNudge, strategyFrequencyLock, "energy_save", "pulse":
 		a.state.Update(func(s *StateData) {
+			state = *s
+			success = !(energyCost > s.Energy)
+			if !success {
+				return
+			}
 			s.Phase = core.WrapPhase(s.Phase + action.Value)
 			s.Energy = math.Max(0, s.Energy-energyCost)
 		})
-		success = true
 	case "maintain":
 		a.state.Update(func(s *StateData) {
+			state = *s
+			success = !(energyCost > s.Energy)
+			if !success {
+				return
+			}
 			s.Energy = math.Max(0, s.Energy-energyCost)
 		})
-		success = true
 	default:
 		return false, 0, fmt.Errorf("%w: %s", core.ErrUnknownActionType, action.Type)
 	}
 
-	if success && a.resources != nil {
+	if !success {
+		return false, 0, fmt.Errorf("%w: required %.2f, available %.2f",
+			core.ErrInsufficientEnergy, energyCost, state.Energy)
+	}
+
+	if a.resources != nil {
 		a.resources.Request(energyCost)
 	}
 
-- 
2.43.0


From 87e6bd6755f149a84e26af06133dbdab53e115f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 03/37] fix: initialise pooled agents and drop their neighbors
 on reuse

Pool.Get panicked on every new agent (nil state), and a reused agent kept
the neighbors stored in its optimized neighbor storage.
---
 emerge/agent/pool.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/emerge/agent/pool.go b/emerge/agent/pool.go
index 0aef185..45f89ce 100644
--- a/emerge/agent/pool.go
+++ b/emerge/agent/pool.go
@@ -14,10 +14,8 @@ import (
 var Pool = &PoolManager{
 	pool: sync.Pool{
 		New: func() interface{} {
-			// Create a new agent with minimal initialization
-			a := &Agent{}
-			// neighbors is already a sync.Map field, not a pointer
-			return a
+			// Create a fully initialized agent, so that Reset can store into it
+			return New("")
 		},
 	},
 	stats: &PoolStats{},
@@ -101,6 +99,9 @@ func (a *Agent) Reset(id string) {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Reset context
 	a.context.Store(core.Context{})
@@ -120,6 +121,9 @@ func (a *Agent) Clear() {
 		a.neighbors.Delete(key)
 		return true
 	})
+	if a.optimizedNeighbors != nil {
+		a.optimizedNeighbors.Clear()
+	}
 
 	// Don't nil out structures, just clear them
 	a.context.Store(core.Context{})
-- 
2.43.0


From 9f49b078b78f5d5ccff4fe34595a40d3be24347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 04/37] fix: clamp configured strategy rates like the strategy
 constructors do

---
 emerge/agent/agent.go   | 4 ++--
 emerge/agent/builder.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 344fac8..9a73830 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -148,13 +148,13 @@ func NewOptimizedFromConfig(id string, cfg config.Agent) (*Agent, error) {
 	// Add strategy based on type
 	switch cfg.StrategyType {
 	case strategyPhaseNudge:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
+		opts = append(opts, WithStrategy(strategy.NewPhaseNudge(cfg.StrategyRate)))
 	case strategyFrequencyLock:
 		opts = append(opts, WithStrategy(&strategy.FrequencyLock{SyncRate: 0.5}))
 	case "energy_aware":
 		opts = append(opts, WithStrategy(&strategy.EnergyAware{Threshold: 10}))
 	default:
-		opts = append(opts, WithStrategy(&strategy.PhaseNudge{Rate: cfg.StrategyRate}))
+		opts = append(opts, WithStrategy(strategy.NewPhaseNudge(cfg.StrategyRate)))
 	}
 
 	return New(id, opts...), nil
diff --git a/emerge/agent/builder.go b/emerge/agent/builder.go
index dfad1e4..5bd9367 100644
--- a/emerge/agent/builder.go
+++ b/emerge/agent/builder.go
@@ -102,19 +102,19 @@ func createStrategy(cfg config.Agent) (core.SyncStrategy, error) {
 		if rate == 0 {
 			rate = 0.7 // Increased default for better convergence
 		}
-		return &strategy.PhaseNudge{Rate: rate}, nil
+		return strategy.NewPhaseNudge(rate), nil
 	case "frequency_lock":
 		rate := cfg.StrategyRate
 		if rate == 0 {
 			rate = 0.5
 		}
-		return &strategy.FrequencyLock{SyncRate: rate}, nil
+		return strategy.NewFrequencyLock(rate), nil
 	case "energy_aware":
 		threshold := cfg.StrategyRate
 		if threshold == 0 {
 			threshold = 20.0
 		}
-		return &strategy.EnergyAware{Threshold: threshold}, nil
+		return strategy.NewEnergyAware(threshold), nil
 	case "adaptive":
 		baseStrategies := []core.SyncStrategy{
 			&strategy.PhaseNudge{Rate: 0.3},
-- 
2.43.0


From a5b90d6a2d5b9caab7363fd166570060e3aa5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:43 +0000
Subject: [PATCH 05/37] =?UTF-8?q?fix:=20PhaseDifference=20returned=20the?=
 =?UTF-8?q?=20wrong=20direction=20between=200=20and=203=CF=80/2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 emerge/core/phase.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/emerge/core/phase.go b/emerge/core/phase.go
index 79f3699..162bd59 100644
--- a/emerge/core/phase.go
+++ b/emerge/core/phase.go
@@ -14,22 +14,7 @@ func PhaseDifference(phase1, phase2 float64) float64 {
 	diff := phase1 - phase2
 
 	// Use atan2 to get the correct phase difference considering the circle
-	result := math.Atan2(math.Sin(diff), math.Cos(diff))
-
-	// Handle specific edge cases for test compatibility
-	const eps = 1e-10
-
-	// Special case: 0 to 3π/2 should return -π/2 (clockwise)
-	if math.Abs(phase1) < eps && math.Abs(phase2-3*math.Pi/2) < eps {
-		return -math.Pi / 2
-	}
-
-	// Special case: 3π/2 to 0 should return π/2 (counterclockwise)
-	if math.Abs(phase1-3*math.Pi/2) < eps && math.Abs(phase2) < eps {
-		return math.Pi / 2
-	}
-
-	return result
+	return math.Atan2(math.Sin(diff), math.Cos(diff))
 }
 
 // MeasureCoherence calculates the Kuramoto order parameter for phase synchronization.
-- 
2.43.0


From 5cb1347da13536012719f2e3842ca1a71d7bdcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:04 +0000
Subject: [PATCH 06/37] fix: tuning for throughput could push
 BaseAdjustmentScale above 1

---
 emerge/swarm/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/config.go b/emerge/swarm/config.go
index e559add..e145db2 100644
--- a/emerge/swarm/config.go
+++ b/emerge/swarm/config.go
@@ -416,7 +416,7 @@ func (c *Config) TuneFor(t trait.Target) *Config {
 
 	case trait.Throughput:
 		// Optimize for maximum processing
-		c.Convergence.BaseAdjustmentScale *= 1.2
+		c.Convergence.BaseAdjustmentScale = minValue(1.0, c.Convergence.BaseAdjustmentScale*1.2)
 		c.Strategy.UpdateInterval = time.Duration(float64(c.Strategy.UpdateInterval) * 0.7)
 		c.Strategy.RandomExploration *= 1.5
 
-- 
2.43.0


From 456b5bd2df9d3a83f7a93874375f7c58509b5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:29 +0000
Subject: [PATCH 07/37] fix: keep the agents a builder creates for large swarms

---
 emerge/swarm/swarm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 98b97ae..c0aa181 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -290,6 +290,11 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 	return func(s *Swarm) error {
 		for i := range s.size {
 			a := builder(fmt.Sprintf("agent-%d", i), s.size, s.config)
+			if s.optimized {
+				s.agentIndex[a.ID] = len(s.agentSlice)
+				s.agentSlice = append(s.agentSlice, a)
+				continue
+			}
 			s.agents.Store(a.ID, a)
 		}
 		return nil
-- 
2.43.0


From 934d951feac7e0032fe43c374b81ff81615f554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:36 +0000
Subject: [PATCH 08/37] fix: visit and disrupt the agents of large swarms

---
 emerge/swarm/swarm.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index c0aa181..2c38427 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -573,15 +573,13 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 	targetCount := int(float64(s.Size()) * percentage)
 	disrupted := 0
 
-	s.agents.Range(func(_, value any) bool {
+	s.ForEachAgent(func(a *agent.Agent) bool {
 		if disrupted >= targetCount {
 			return false
 		}
 
-		if a, ok := value.(*agent.Agent); ok {
-			a.SetPhase(random.Phase())
-			disrupted++
-		}
+		a.SetPhase(random.Phase())
+		disrupted++
 		return true
 	})
 
@@ -615,6 +613,15 @@ func (s *Swarm) DisruptAgents(percentage float64) {
 // ForEachAgent applies a function to each agent in the swarm.
 // This provides controlled access to agents without exposing the internal map.
 func (s *Swarm) ForEachAgent(fn func(*agent.Agent) bool) {
+	if s.optimized {
+		for _, a := range s.collectAgents() {
+			if !fn(a) {
+				return
+			}
+		}
+		return
+	}
+
 	s.agents.Range(func(_, value any) bool {
 		if agent, ok := value.(*agent.Agent); ok {
 			return fn(agent)
-- 
2.43.0


From 4145a5d9ccc885416254455b36c3838f88c60972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:39 +0000
Subject: [PATCH 09/37] fix: agents perceive every connected neighbor

---
 emerge/agent/agent.go | 71 ++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index 9a73830..e54a2d7 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -250,22 +250,30 @@ func (a *Agent) SetDecisionMaker(dm core.DecisionMaker) {
 // NeighborCount returns the number of connected neighbors.
 func (a *Agent) NeighborCount() int {
 	// Check both storage methods for compatibility
-	optimizedCount := 0
-	if a.useOptimizedNeighbors && a.optimizedNeighbors != nil {
-		optimizedCount = a.optimizedNeighbors.Count()
+	return len(a.connectedAgents())
+}
+
+// connectedAgents returns the neighbors held by either storage, each once.
+func (a *Agent) connectedAgents() []*Agent {
+	var neighborList []*Agent
+	if a.useOptimizedNeighbors {
+		neighborList = a.optimizedNeighbors.All()
 	}
 
-	mapCount := 0
-	a.neighbors.Range(func(_, _ any) bool {
-		mapCount++
+	a.neighbors.Range(func(key, value any) bool {
+		neighbor, ok := value.(*Agent)
+		if !ok {
+			return true
+		}
+		if id, isID := key.(string); isID && a.useOptimizedNeighbors {
+			if _, listed := a.optimizedNeighbors.Load(id); listed {
+				return true
+			}
+		}
+		neighborList = append(neighborList, neighbor)
 		return true
 	})
-
-	// Return the max to handle both cases
-	if optimizedCount > mapCount {
-		return optimizedCount
-	}
-	return mapCount
+	return neighborList
 }
 
 // Neighbors returns the agent's neighbors map for compatibility.
@@ -281,27 +289,26 @@ func (a *Agent) ConnectTo(otherID string, other *Agent) {
 		return
 	}
 
-	if a.useOptimizedNeighbors {
-		a.optimizedNeighbors.Store(otherID, other)
-	} else {
-		a.neighbors.Store(otherID, other)
+	if a.useOptimizedNeighbors && a.optimizedNeighbors.Store(otherID, other) {
+		return
 	}
+	a.neighbors.Store(otherID, other)
 }
 
 // DisconnectFrom removes a connection.
 func (a *Agent) DisconnectFrom(otherID string) {
 	if a.useOptimizedNeighbors {
 		a.optimizedNeighbors.Delete(otherID)
-	} else {
-		a.neighbors.Delete(otherID)
 	}
+	a.neighbors.Delete(otherID)
 }
 
 // IsConnectedTo checks if connected to another agent.
 func (a *Agent) IsConnectedTo(otherID string) bool {
 	if a.useOptimizedNeighbors {
-		_, exists := a.optimizedNeighbors.Load(otherID)
-		return exists
+		if _, exists := a.optimizedNeighbors.Load(otherID); exists {
+			return true
+		}
 	}
 	_, exists := a.neighbors.Load(otherID)
 	return exists
@@ -310,17 +317,7 @@ func (a *Agent) IsConnectedTo(otherID string) bool {
 // UpdateContext updates the agent's perception efficiently with both optimizations.
 func (a *Agent) UpdateContext() {
 	// Get neighbors efficiently
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedAgents()
 
 	if len(neighborList) == 0 {
 		a.context.Store(core.Context{
@@ -487,17 +484,7 @@ func (a *Agent) ApplyAction(action core.Action) (bool, float64, error) {
 
 // calculateLocalCoherence efficiently calculates coherence.
 func (a *Agent) calculateLocalCoherence() float64 {
-	var neighborList []*Agent
-	if a.useOptimizedNeighbors {
-		neighborList = a.optimizedNeighbors.All()
-	} else {
-		a.neighbors.Range(func(_, value any) bool {
-			if neighbor, ok := value.(*Agent); ok {
-				neighborList = append(neighborList, neighbor)
-			}
-			return true
-		})
-	}
+	neighborList := a.connectedAgents()
 
 	if len(neighborList) == 0 {
 		return 0
-- 
2.43.0


From 235f0c5b3d303af515d8a9ad338600915a9e0956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:24 +0000
Subject: [PATCH 10/37] fix: apply a custom topology once the agents exist

---
 emerge/swarm/swarm.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 2c38427..a654346 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -43,8 +43,8 @@ type Swarm struct {
 	basin       *emerge.AttractorBasin
 	convergence *monitoring.ConvergenceMonitor
 
-	// Track initialization state
-	connectionsEstablished bool
+	// Custom topology, built once the agents exist
+	topology func(*Swarm) error
 
 	// Goal-directed synchronization
 	goalDirectedSync *GoalDirectedSync
@@ -148,8 +148,12 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		}
 	}
 
-	// Establish connections if not already done
-	if !s.connectionsEstablished {
+	// Establish connections
+	if s.topology != nil {
+		if err := s.topology(s); err != nil {
+			return nil, fmt.Errorf("topology build failed: %w", err)
+		}
+	} else {
 		s.establishConnections()
 	}
 
@@ -304,10 +308,7 @@ func WithAgentBuilder(builder func(id string, swarmSize int, cfg config.Swarm) *
 // WithTopology uses a custom topology builder.
 func WithTopology(builder func(*Swarm) error) Option {
 	return func(s *Swarm) error {
-		if err := builder(s); err != nil {
-			return fmt.Errorf("topology build failed: %w", err)
-		}
-		s.connectionsEstablished = true
+		s.topology = builder
 		return nil
 	}
 }
-- 
2.43.0


From df92d5b6fd5c222e5618491d1955fcda7506e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 11/37] fix: swarms built from a configuration get the same
 limits and storage

---
 emerge/swarm/swarm.go | 40 +---------------------------------------
 1 file changed, 1 insertion(+), 39 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index a654346..b8f3861 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -170,45 +170,7 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 // NewSwarmFromConfig creates a swarm using a configuration struct.
 // This provides an alternative to the functional options pattern.
 func NewSwarmFromConfig(size int, goal core.State, cfg config.Swarm) (*Swarm, error) {
-	if size <= 0 {
-		return nil, fmt.Errorf("%w: got %d", ErrInvalidSwarmSize, size)
-	}
-
-	// Validate goal state using centralized validation
-	if err := goal.Validate(); err != nil {
-		return nil, fmt.Errorf("invalid goal state: %w", err)
-	}
-
-	// Validate and normalize config using centralized validation
-	if err := cfg.NormalizeAndValidate(size); err != nil {
-		return nil, fmt.Errorf("config validation failed: %w", err)
-	}
-
-	s := &Swarm{
-		goalState:   goal,
-		config:      cfg,
-		size:        size,
-		monitor:     monitoring.New(),
-		basin:       emerge.NewAttractorBasin(goal, cfg.BasinStrength, cfg.BasinWidth),
-		convergence: monitoring.NewConvergence(goal, goal.Coherence),
-	}
-
-	// Create agents
-	if err := s.createDefaultAgents(); err != nil {
-		return nil, fmt.Errorf("failed to create agents: %w", err)
-	}
-
-	// Establish connections
-	s.establishConnections()
-
-	// Initialize goal-directed synchronization
-	if s.goalConfig != nil {
-		s.goalDirectedSync = NewGoalDirectedSyncWithConfig(s, s.goalConfig)
-	} else {
-		s.goalDirectedSync = NewGoalDirectedSync(s)
-	}
-
-	return s, nil
+	return New(size, goal, WithConfig(cfg))
 }
 
 // createDefaultAgents creates agents with config-based settings for standard storage.
-- 
2.43.0


From eb9de83d74b3539dbd741e8f83f05519d22ca378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 12/37] fix: keep the neighbor density an agent perceives
 within [0, 1]

---
 emerge/agent/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/agent/agent.go b/emerge/agent/agent.go
index e54a2d7..a41c92d 100644
--- a/emerge/agent/agent.go
+++ b/emerge/agent/agent.go
@@ -366,6 +366,9 @@ func (a *Agent) UpdateContext() {
 	if maxNeighbors == 0 {
 		maxNeighbors = a.swarmSize - 1
 	}
+	if maxNeighbors < neighborCount {
+		maxNeighbors = neighborCount // No maximum known, or more neighbors than assumed
+	}
 	density := float64(neighborCount) / float64(maxNeighbors)
 
 	// Store context
-- 
2.43.0


From 6f1c13f8d841e1af67eabef9f2157189704bb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 13/37] fix: convergence statistics no longer re-acquire the
 lock they hold

---
 emerge/monitoring/convergence.go | 28 ++++++++++++++++++++++------
 internal/emerge/convergence.go   | 28 ++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 814b669..88fa5e7 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 19d370a..8dec7d3 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -87,7 +87,11 @@ func (m *ConvergenceMonitor) ConvergenceTime() time.Duration {
 func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.currentCoherence()
+}
 
+// currentCoherence is CurrentCoherence for callers that hold the lock.
+func (m *ConvergenceMonitor) currentCoherence() float64 {
 	if len(m.history) == 0 {
 		return 0
 	}
@@ -99,7 +103,11 @@ func (m *ConvergenceMonitor) CurrentCoherence() float64 {
 func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.convergenceRate()
+}
 
+// convergenceRate is ConvergenceRate for callers that hold the lock.
+func (m *ConvergenceMonitor) convergenceRate() float64 {
 	if len(m.history) < 2 {
 		return 0
 	}
@@ -135,7 +143,11 @@ func (m *ConvergenceMonitor) ConvergenceRate() float64 {
 func (m *ConvergenceMonitor) Stability() float64 {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.stability()
+}
 
+// stability is Stability for callers that hold the lock.
+func (m *ConvergenceMonitor) stability() float64 {
 	if len(m.history) < 2 {
 		return 1.0
 	}
@@ -174,17 +186,21 @@ func (m *ConvergenceMonitor) Stability() float64 {
 func (m *ConvergenceMonitor) PredictConvergenceTime() time.Duration {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.predictConvergenceTime()
+}
 
+// predictConvergenceTime is PredictConvergenceTime for callers that hold the lock.
+func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	if m.convergedTime != nil {
 		return 0 // Already converged
 	}
 
-	rate := m.ConvergenceRate()
+	rate := m.convergenceRate()
 	if rate <= 0 {
 		return 0 // Not converging
 	}
 
-	current := m.CurrentCoherence()
+	current := m.currentCoherence()
 	remaining := m.convergenceAt - current
 
 	if remaining <= 0 {
@@ -219,7 +235,7 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 	stats := make(map[string]any)
 
 	stats["samples"] = len(m.history)
-	stats["current_coherence"] = m.CurrentCoherence()
+	stats["current_coherence"] = m.currentCoherence()
 	stats["max"] = m.maxCoherence
 	stats["min"] = m.minCoherence
 	stats["converged"] = m.convergedTime != nil
@@ -248,10 +264,10 @@ func (m *ConvergenceMonitor) Statistics() map[string]any {
 		stats["std_dev"] = math.Sqrt(variance)
 	}
 
-	stats["convergence_rate"] = m.ConvergenceRate()
-	stats["stability"] = m.Stability()
+	stats["convergence_rate"] = m.convergenceRate()
+	stats["stability"] = m.stability()
 
-	prediction := m.PredictConvergenceTime()
+	prediction := m.predictConvergenceTime()
 	if prediction > 0 {
 		stats["predicted_convergence_time"] = prediction.Seconds()
 	}
-- 
2.43.0


From d8811d71a223914d4c4d572c2ded752474a5579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 14/37] fix: resetting the batch manager cannot block on an
 emptied queue

---
 simulations/emerge/simulation/batch_manager.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 6656e82..7ae6c77 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -180,9 +180,12 @@ func (bm *BatchManager) Reset() {
 	bm.lastBatchTime = time.Time{}
 	bm.lastBatchSize = 0
 
-	// Clear queue
-	for len(bm.queue) > 0 {
-		<-bm.queue
+	// Clear queue, without waiting if a consumer empties it first
+	for range len(bm.queue) {
+		select {
+		case <-bm.queue:
+		default:
+		}
 	}
 
 	bm.currentMu.Lock()
-- 
2.43.0


From 1e42909a32a710713ba814af87b485763e0d9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 15/37] fix: the swarm goroutine runs under the context it was
 started with

---
 simulations/emerge/simulation/simulation.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index e53555c..3ed88f5 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -62,11 +62,12 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.parentCtx = ctx
 	// Create swarm context that we can cancel on pause
 	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
+	swarmCtx := s.swarmCtx
 	s.mu.Unlock()
 
 	// Start swarm synchronization
 	go func() {
-		if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+		if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
 			// Log error but don't crash
 			_ = err
 		}
@@ -296,8 +297,9 @@ func (s *Simulation) Resume() {
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
 		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
+		swarmCtx := s.swarmCtx
 		go func() {
-			if err := s.emergeClient.Start(s.swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
+			if err := s.emergeClient.Start(swarmCtx); err != nil && !errors.Is(err, context.Canceled) {
 				// Log error but don't crash
 				_ = err
 			}
-- 
2.43.0


From 3d449379f98465d3399252179a93c63a4a270a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 16/37] fix: workload task state is only accessed under its
 lock

---
 simulations/emerge/simulation/agent.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index efe48a9..6dd3265 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -335,6 +335,9 @@ func (w *Workload) generateTasks(ctx context.Context) {
 
 // shouldGenerateTask determines if a task should be generated based on pattern
 func (w *Workload) shouldGenerateTask() bool {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	now := time.Now()
 
 	switch w.pattern {
@@ -384,6 +387,9 @@ func (w *Workload) shouldGenerateTask() bool {
 
 // getTaskBatchSize returns how many tasks to generate at once based on pattern
 func (w *Workload) getTaskBatchSize() int {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	switch w.pattern {
 	case pattern.HighFrequency:
 		// Generate multiple tasks at once
@@ -415,6 +421,9 @@ func (w *Workload) getTaskBatchSize() int {
 
 // createTask creates a new task
 func (w *Workload) createTask() Task {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	w.taskCounter++
 
 	// Goal-specific task types
-- 
2.43.0


From c54ed00001007f8aff464307092425fba561e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:41 +0000
Subject: [PATCH 17/37] fix: changing a convergence target waits for a sample
 being recorded

---
 emerge/convergence/monitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emerge/convergence/monitor.go b/emerge/convergence/monitor.go
index 7a6d49b..a9cef73 100644
--- a/emerge/convergence/monitor.go
+++ b/emerge/convergence/monitor.go
@@ -42,6 +42,8 @@ func NewMonitor(windowSize int) *Monitor {
 
 // SetTarget sets the target coordination state to converge toward.
 func (m *Monitor) SetTarget(target *core.TargetPattern) {
+	m.historyMu.Lock()
+	defer m.historyMu.Unlock()
 	m.target = target
 }
 
-- 
2.43.0


From a187c061f38ea027832a4dd12ecaaea8e1fd8299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 18/37] fix: continuous running survives a failed
 synchronization attempt

---
 emerge/swarm/swarm_continuous_run.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/swarm_continuous_run.go b/emerge/swarm/swarm_continuous_run.go
index a46aea3..5076634 100644
--- a/emerge/swarm/swarm_continuous_run.go
+++ b/emerge/swarm/swarm_continuous_run.go
@@ -2,7 +2,6 @@ package swarm
 
 import (
 	"context"
-	"errors"
 	"math"
 	"time"
 
@@ -214,15 +213,11 @@ func (s *Swarm) RunContinuous(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 
-		case err := <-syncDone:
+		case <-syncDone:
+			// Synchronized, canceled or out of iterations: either way keep
+			// monitoring, which starts another attempt when one is needed
 			state.syncActive = false
 
-			if err != nil && !errors.Is(err, context.Canceled) {
-				// Real error occurred
-				return err
-			}
-			// Synchronization completed successfully, continue monitoring
-
 		case <-ticker.C:
 			currentCoherence := s.MeasureCoherence()
 
-- 
2.43.0


From d595d888e1dcd3468a6cb279bf8653eba5dbe8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:58 +0000
Subject: [PATCH 19/37] fix: resuming a simulation cancels the run it replaces

---
 simulations/emerge/simulation/simulation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 3ed88f5..2369520 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -60,6 +60,9 @@ func (s *Simulation) Start(ctx context.Context) error {
 	s.running = true
 	s.startTime = time.Now()
 	s.parentCtx = ctx
+	if s.swarmCancel != nil {
+		s.swarmCancel() // the context of an earlier start
+	}
 	// Create swarm context that we can cancel on pause
 	s.swarmCtx, s.swarmCancel = context.WithCancel(ctx)
 	swarmCtx := s.swarmCtx
@@ -296,6 +299,9 @@ func (s *Simulation) Resume() {
 	s.paused = false
 	// Restart swarm with a new context
 	if s.parentCtx != nil {
+		if s.swarmCancel != nil {
+			s.swarmCancel() // never leave a run behind that a pause cannot stop
+		}
 		s.swarmCtx, s.swarmCancel = context.WithCancel(s.parentCtx)
 		swarmCtx := s.swarmCtx
 		go func() {
-- 
2.43.0


From b5c2f8eb83629362bb49543fbe1c0b1ca3bcba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:00 +0000
Subject: [PATCH 20/37] fix: a swarm's worker goroutines end with the swarm

---
 emerge/swarm/swarm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index b8f3861..39176ac 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -107,6 +107,8 @@ func New(size int, goal core.State, opts ...Option) (*Swarm, error) {
 		// Initialize worker pool for concurrent operations
 		numWorkers := getOptimalWorkerCount(size)
 		s.workerPool = NewWorkerPool(numWorkers)
+		// The workers end with the swarm
+		runtime.AddCleanup(s, (*WorkerPool).Stop, s.workerPool)
 	}
 
 	// Apply options
@@ -609,6 +611,7 @@ type WorkerPool struct {
 	workers   int
 	workQueue chan func()
 	quit      chan struct{}
+	stopOnce  sync.Once
 }
 
 // NewWorkerPool creates a new worker pool.
@@ -644,9 +647,9 @@ func (wp *WorkerPool) Submit(work func()) {
 	wp.workQueue <- work
 }
 
-// Stop shuts down the worker pool.
+// Stop shuts down the worker pool. It may be called more than once.
 func (wp *WorkerPool) Stop() {
-	close(wp.quit)
+	wp.stopOnce.Do(func() { close(wp.quit) })
 }
 
 // getOptimalWorkerCount determines the best number of workers based on swarm size.
-- 
2.43.0


From f1500fb4a99b0c4b24e0a1419d5a42b56b52213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:03 +0000
Subject: [PATCH 21/37] fix: a scripted controller no longer blocks on a full
 event queue

---
 simulations/display/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulations/display/controller.go b/simulations/display/controller.go
index 4c65bef..28fc862 100644
--- a/simulations/display/controller.go
+++ b/simulations/display/controller.go
@@ -127,7 +127,7 @@ type AutomatedController struct {
 // NewAutomatedController creates a controller that runs a scripted sequence
 func NewAutomatedController(script []ControlEvent, delays []time.Duration) Controller {
 	c := &AutomatedController{
-		events: make(chan ControlEvent, 10),
+		events: make(chan ControlEvent, max(10, len(script))), // the script never waits for a reader
 		script: script,
 		delays: delays,
 	}
-- 
2.43.0


From 8314328c1d826fa685ea69e0133f2d74f34aa4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:05 +0000
Subject: [PATCH 22/37] fix: signals still stop the simulation after a restart

---
 simulations/emerge/main.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simulations/emerge/main.go b/simulations/emerge/main.go
index b02ca60..b283c9c 100644
--- a/simulations/emerge/main.go
+++ b/simulations/emerge/main.go
@@ -56,10 +56,12 @@ func main() {
 	config.Timeout = *timeout
 
 	// Create context with cancellation
-	ctx, cancel := context.WithCancel(context.Background())
+	root, stop := context.WithCancel(context.Background())
+	defer stop()
+	ctx, cancel := context.WithCancel(root)
 
-	// Handle graceful shutdown
-	go handleSignals(cancel)
+	// Handle graceful shutdown, also after a restart
+	go handleSignals(stop)
 
 	// Run simulation loop (allows scale switching)
 	for {
@@ -164,7 +166,7 @@ func main() {
 				fmt.Printf("\nSwitching to %s pattern...\n\n", newPattern.String())
 			}
 			// Create new context for restart
-			ctx, cancel = context.WithCancel(context.Background())
+			ctx, cancel = context.WithCancel(root)
 			continue
 		}
 		break
-- 
2.43.0


From e108472d2958054a403101527cd6b2f6888700b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 23/37] fix: normalizing a state with a huge phase terminates

---
 emerge/core/state.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/emerge/core/state.go b/emerge/core/state.go
index 731e58b..e423208 100644
--- a/emerge/core/state.go
+++ b/emerge/core/state.go
@@ -81,12 +81,7 @@ func (s *State) NormalizeAndValidate() error {
 func (s *State) normalize() {
 	// Wrap phase to [0, 2π]
 	if !math.IsNaN(s.Phase) && !math.IsInf(s.Phase, 0) {
-		for s.Phase < 0 {
-			s.Phase += 2 * math.Pi
-		}
-		for s.Phase >= 2*math.Pi {
-			s.Phase -= 2 * math.Pi
-		}
+		s.Phase = WrapPhase(s.Phase)
 	}
 
 	// Clamp coherence to [0, 1]
-- 
2.43.0


From a427bd1876e103e5a654d816013669ceaa5516d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 24/37] fix: submitting work to a stopped pool cannot block
 forever

---
 emerge/swarm/swarm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index 39176ac..f3ac0ce 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -642,9 +642,12 @@ func (wp *WorkerPool) worker() {
 	}
 }
 
-// Submit adds work to the queue.
+// Submit adds work to the queue. Work submitted to a stopped pool is dropped.
 func (wp *WorkerPool) Submit(work func()) {
-	wp.workQueue <- work
+	select {
+	case wp.workQueue <- work:
+	case <-wp.quit:
+	}
 }
 
 // Stop shuts down the worker pool. It may be called more than once.
-- 
2.43.0


From ed0800818dd8117d81514a2bff59ec1aa215a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:42 +0000
Subject: [PATCH 25/37] fix: a very slow convergence no longer predicts a
 negative time

---
 emerge/monitoring/convergence.go | 6 +++++-
 internal/emerge/convergence.go   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/convergence.go b/emerge/monitoring/convergence.go
index 88fa5e7..73aefa2 100644
--- a/emerge/monitoring/convergence.go
+++ b/emerge/monitoring/convergence.go
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // longer than a duration can express
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
diff --git a/internal/emerge/convergence.go b/internal/emerge/convergence.go
index 8dec7d3..318ce25 100644
--- a/internal/emerge/convergence.go
+++ b/internal/emerge/convergence.go
@@ -214,7 +214,11 @@ func (m *ConvergenceMonitor) predictConvergenceTime() time.Duration {
 	// Assume each sample is about 100ms apart (configurable)
 	samplePeriod := 100 * time.Millisecond
 
-	return time.Duration(timeToConverge * float64(samplePeriod))
+	estimate := timeToConverge * float64(samplePeriod)
+	if estimate >= math.MaxInt64 {
+		return math.MaxInt64 // longer than a duration can express
+	}
+	return time.Duration(estimate)
 }
 
 // History returns the full coherence history.
-- 
2.43.0


From 52e82b4c94c56691e0174ef44f8ac215e960a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 26/37] fix: the severity of a frequency gap stays within 0-1

A current frequency more than twice the target's gave a severity above 1,
and completing the pattern then moved past the target.
---
 emerge/core/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/core/pattern.go b/emerge/core/pattern.go
index 61c9038..1983562 100644
--- a/emerge/core/pattern.go
+++ b/emerge/core/pattern.go
@@ -70,7 +70,7 @@ func IdentifyGaps(current, target *TargetPattern) []PatternGap {
 				Type:     "frequency",
 				Current:  float64(current.Frequency),
 				Target:   float64(target.Frequency),
-				Severity: math.Abs(freqRatio - 1.0),
+				Severity: math.Min(math.Abs(freqRatio-1.0), 1.0),
 			})
 		}
 	}
-- 
2.43.0


From d38aaaacb158de8df175521eff6637d902d440d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 27/37] fix: a target above the practical limit is attempted

---
 emerge/swarm/goal_directed.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 1366d36..f2f5bd7 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -92,8 +92,7 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 	// Adjust max iterations based on difficulty
 	timeFactor := GetConvergenceTimeFactor(swarmSize, target.Coherence)
-	maxIterations := int(gds.config.Strategy.MaxIterationsFactor * timeFactor)
-	maxIterations = min(maxIterations, 1000) // Cap at reasonable limit
+	maxIterations := int(math.Min(gds.config.Strategy.MaxIterationsFactor*timeFactor, 1000)) // Cap at reasonable limit (timeFactor can be infinite)
 
 	// Goal-directed loop
 	ticker := time.NewTicker(gds.config.Strategy.UpdateInterval)
-- 
2.43.0


From 4a7689441cd471181515a9f42e0a87fc5002897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 28/37] fix: agents are pulled towards the target phase the
 short way round

---
 emerge/swarm/goal_directed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index f2f5bd7..3f29eba 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -294,7 +294,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 	for _, a := range agents {
 		currentPhase := a.Phase()
 		targetPhase := gds.targetPattern.Phase
-		phaseDiff := core.WrapPhase(targetPhase - currentPhase)
+		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
 
 		// Special handling for high coherence but poor phase convergence
 		if coherence >= gds.config.Thresholds.HighCoherence && phaseVariance > gds.config.Thresholds.PhaseVariance {
-- 
2.43.0


From 16a3e0de46587d5f60b87612ebabca118d3d7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 29/37] fix: the reduced pull of a settled swarm does not
 compound from agent to agent

---
 emerge/swarm/goal_directed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 3f29eba..43da097 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -295,6 +295,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 		currentPhase := a.Phase()
 		targetPhase := gds.targetPattern.Phase
 		phaseDiff := core.PhaseDifference(targetPhase, currentPhase)
+		agentScale := adjustmentScale
 
 		// Special handling for high coherence but poor phase convergence
 		if coherence >= gds.config.Thresholds.HighCoherence && phaseVariance > gds.config.Thresholds.PhaseVariance {
@@ -339,7 +340,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 					continue
 				}
 				// For the remaining 1/3, use very small adjustments
-				adjustmentScale *= 0.2
+				agentScale *= 0.2
 			}
 
 			if math.Abs(phaseDiff) > threshold {
@@ -348,7 +349,7 @@ func (gds *GoalDirectedSync) applyPatternCompletion(completedPattern *completion
 				// More randomness for small swarms
 				randomRange := 0.3 + (1.0-sizeNormalized)*0.2                      // 0.3-0.5 range based on size
 				randomFactor := 1.0 - randomRange/2 + random.Float64()*randomRange // Center around 1.0
-				effectiveAdjustment := (phaseAdjustment*0.3 + phaseDiff*adjustmentScale) * randomFactor
+				effectiveAdjustment := (phaseAdjustment*0.3 + phaseDiff*agentScale) * randomFactor
 
 				// Apply adjustment with variation
 				newPhase := core.WrapPhase(currentPhase + effectiveAdjustment*(1+variation))
-- 
2.43.0


From c97a443f0f6895cf755d273c389dbcc2c2ed1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 30/37] fix: tasks stay pending when the batch queue is full

---
 simulations/emerge/simulation/agent.go         | 10 +++++-----
 simulations/emerge/simulation/batch_manager.go |  9 +++++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/simulations/emerge/simulation/agent.go b/simulations/emerge/simulation/agent.go
index 6dd3265..9e37b60 100644
--- a/simulations/emerge/simulation/agent.go
+++ b/simulations/emerge/simulation/agent.go
@@ -579,16 +579,16 @@ func (w *Workload) sendBatch() {
 	batch := make([]Task, len(w.pendingTasks))
 	copy(batch, w.pendingTasks)
 
+	// Send to batch manager; what it cannot take now stays pending
+	if w.batchManager != nil && !w.batchManager.SubmitBatch(w.id, batch) {
+		return
+	}
+
 	// Clear pending
 	w.pendingTasks = w.pendingTasks[:0]
 
 	// Update metrics
 	w.batchesSent++
-
-	// Send to batch manager
-	if w.batchManager != nil {
-		w.batchManager.SubmitBatch(w.id, batch)
-	}
 }
 
 // Reset resets the workload counters
diff --git a/simulations/emerge/simulation/batch_manager.go b/simulations/emerge/simulation/batch_manager.go
index 7ae6c77..98f91ed 100644
--- a/simulations/emerge/simulation/batch_manager.go
+++ b/simulations/emerge/simulation/batch_manager.go
@@ -54,8 +54,8 @@ func NewBatchManager() *BatchManager {
 	}
 }
 
-// SubmitBatch submits a batch from an agent
-func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
+// SubmitBatch submits a batch from an agent and reports whether it was queued
+func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) bool {
 	batch := AgentBatch{
 		AgentID:   agentID,
 		Tasks:     tasks,
@@ -64,9 +64,10 @@ func (bm *BatchManager) SubmitBatch(agentID string, tasks []Task) {
 
 	select {
 	case bm.queue <- batch:
-		// Batch queued
+		return true
 	default:
-		// Queue full, drop batch (shouldn't happen in normal operation)
+		// Queue full, the agent keeps its tasks
+		return false
 	}
 }
 
-- 
2.43.0


From 9c328398bd08939cddaaf883bd419f141667dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 31/37] fix: peak coherence and time to converge are recorded

---
 simulations/emerge/simulation/simulation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulations/emerge/simulation/simulation.go b/simulations/emerge/simulation/simulation.go
index 2369520..76dc4d4 100644
--- a/simulations/emerge/simulation/simulation.go
+++ b/simulations/emerge/simulation/simulation.go
@@ -342,6 +342,7 @@ func (s *Simulation) Snapshot() Snapshot {
 		coherence = s.pausedCoherence
 	} else {
 		coherence = s.emergeClient.Swarm().MeasureCoherence()
+		s.metrics.UpdateCoherence(coherence)
 	}
 
 	// Get current batch size from queue depth
@@ -375,6 +376,8 @@ func (s *Simulation) Snapshot() Snapshot {
 
 // Statistics returns final statistics
 func (s *Simulation) Statistics() Statistics {
+	finalCoherence := s.emergeClient.Swarm().MeasureCoherence()
+	s.metrics.UpdateCoherence(finalCoherence)
 	metrics := s.metrics.Final()
 
 	return Statistics{
@@ -385,7 +388,7 @@ func (s *Simulation) Statistics() Statistics {
 		CostWithSync:     metrics.CostWithSync,
 		TotalSavings:     metrics.TotalSavings,
 		SavingsPercent:   metrics.SavingsPercent,
-		FinalCoherence:   s.emergeClient.Swarm().MeasureCoherence(),
+		FinalCoherence:   finalCoherence,
 		PeakCoherence:    metrics.PeakCoherence,
 		TimeToConverge:   metrics.TimeToConverge,
 	}
-- 
2.43.0


From 8e70422022315a2f129e665ed87eb56fde842474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:23 +0000
Subject: [PATCH 32/37] =?UTF-8?q?fix:=20phase=20convergence=20towards=20a?=
 =?UTF-8?q?=20target=20outside=20[0,=202=CF=80]=20stays=20in=20[0,=201]?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The one-step wraparound gave negative distances, and so convergence above 1,
for target phases beyond a full turn, which State.Validate accepts.
---
 emerge/swarm/phase_convergence.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/emerge/swarm/phase_convergence.go b/emerge/swarm/phase_convergence.go
index 45c540c..40b5506 100644
--- a/emerge/swarm/phase_convergence.go
+++ b/emerge/swarm/phase_convergence.go
@@ -2,6 +2,8 @@ package swarm
 
 import (
 	"math"
+
+	"github.com/carlisia/bio-adapt/emerge/core"
 )
 
 // MeasurePhaseConvergence calculates how well agents have converged to a target phase.
@@ -15,14 +17,8 @@ func (s *Swarm) MeasurePhaseConvergence(targetPhase float64) float64 {
 	// Calculate mean phase distance from target
 	totalDistance := 0.0
 	for _, agent := range agents {
-		phase := agent.Phase()
-		// Calculate circular distance
-		diff := math.Abs(phase - targetPhase)
-		// Handle wraparound
-		if diff > math.Pi {
-			diff = 2*math.Pi - diff
-		}
-		totalDistance += diff
+		// Circular distance; the target may be any phase, also outside [0, 2π]
+		totalDistance += math.Abs(core.PhaseDifference(agent.Phase(), targetPhase))
 	}
 
 	avgDistance := totalDistance / float64(len(agents))
-- 
2.43.0


From c19d3dfbf9f1cb3d4af045894b2dca7805e13baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 33/37] fix: gap detection panicked with fewer periods than
 phases

---
 emerge/monitoring/patterns.go | 4 +++-
 internal/emerge/pattern.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index d0b8c15..09ca564 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -53,7 +53,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index 2ccc5ae..b122554 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -54,7 +54,9 @@ func (p *TargetPattern) Detect() []PatternGap {
 			gap := PatternGap{
 				StartIdx: i - 1,
 				EndIdx:   i,
-				Duration: p.Frequencies[i-1],
+			}
+			if i-1 < len(p.Frequencies) {
+				gap.Duration = p.Frequencies[i-1]
 			}
 			gaps = append(gaps, gap)
 		}
-- 
2.43.0


From f2cda421092aaf94bdc72d029f5a7d6095ecc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 34/37] fix: similarity of two flat patterns, or of two without
 a period, was NaN

---
 emerge/monitoring/patterns.go | 8 +++++++-
 internal/emerge/pattern.go    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/emerge/monitoring/patterns.go b/emerge/monitoring/patterns.go
index 09ca564..0935abb 100644
--- a/emerge/monitoring/patterns.go
+++ b/emerge/monitoring/patterns.go
@@ -99,11 +99,17 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 
 	// Compare amplitudes
 	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0 // Two flat patterns have the same amplitude
+	if maxAmp := math.Max(p.Amplitude, other.Amplitude); maxAmp != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/maxAmp, 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
 	maxPeriod := max(p.Period, other.Period)
+	if maxPeriod == 0 {
+		return 0 // No period is known on either side
+	}
 	periodSim := 1.0 - math.Min(periodDiff/float64(maxPeriod), 1.0)
 
 	// Check for massively different scales before normalization
diff --git a/internal/emerge/pattern.go b/internal/emerge/pattern.go
index b122554..51cb48b 100644
--- a/internal/emerge/pattern.go
+++ b/internal/emerge/pattern.go
@@ -100,11 +100,17 @@ func (p *TargetPattern) Similarity(other *TargetPattern) float64 {
 
 	// Compare amplitudes
 	ampDiff := math.Abs(p.Amplitude - other.Amplitude)
-	ampSim := 1.0 - math.Min(ampDiff/math.Max(p.Amplitude, other.Amplitude), 1.0)
+	ampSim := 1.0 // Two flat patterns have the same amplitude
+	if maxAmp := math.Max(p.Amplitude, other.Amplitude); maxAmp != 0 {
+		ampSim = 1.0 - math.Min(ampDiff/maxAmp, 1.0)
+	}
 
 	// Compare periods
 	periodDiff := math.Abs(float64(p.Period - other.Period))
 	maxPeriod := max(p.Period, other.Period)
+	if maxPeriod == 0 {
+		return 0 // No period is known on either side
+	}
 	periodSim := 1.0 - math.Min(periodDiff/float64(maxPeriod), 1.0)
 
 	// Check for massively different scales before normalization
-- 
2.43.0


From ecc12ddf69d40f413324ed1076f09a9ce07094d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 35/37] fix: a swarm reported coherence 0 and never converged,
 as nothing fed its convergence monitor

---
 emerge/swarm/swarm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emerge/swarm/swarm.go b/emerge/swarm/swarm.go
index f3ac0ce..da2ebd5 100644
--- a/emerge/swarm/swarm.go
+++ b/emerge/swarm/swarm.go
@@ -513,7 +513,7 @@ func (s *Swarm) Config() config.Swarm {
 
 // IsConverged returns whether the swarm has reached convergence.
 func (s *Swarm) IsConverged() bool {
-	return s.convergence.IsConverged()
+	return s.MeasureCoherence() >= s.goalState.Coherence
 }
 
 // ConvergenceTime returns how long it took to converge, or 0 if not converged.
@@ -521,9 +521,9 @@ func (s *Swarm) ConvergenceTime() time.Duration {
 	return s.convergence.ConvergenceTime()
 }
 
-// CurrentCoherence returns the most recent coherence measurement.
+// CurrentCoherence returns the coherence of the swarm now.
 func (s *Swarm) CurrentCoherence() float64 {
-	return s.convergence.CurrentCoherence()
+	return s.MeasureCoherence()
 }
 
 // DisruptAgents randomly disrupts a percentage of agents.
-- 
2.43.0


From 295483c083625794d99ae5c6096d392cfdb6634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:39 +0000
Subject: [PATCH 36/37] fix: the time to converge was always 0, as attempts did
 not record what they measured

---
 emerge/swarm/goal_directed.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emerge/swarm/goal_directed.go b/emerge/swarm/goal_directed.go
index 43da097..64954e4 100644
--- a/emerge/swarm/goal_directed.go
+++ b/emerge/swarm/goal_directed.go
@@ -113,6 +113,9 @@ func (gds *GoalDirectedSync) AchieveSynchronization(ctx context.Context, target
 
 			// Step 2: Record convergence
 			gds.convergenceMonitor.RecordSample(currentPattern, coherence)
+			if gds.swarm.convergence != nil {
+				gds.swarm.convergence.Record(coherence)
+			}
 
 			// Step 3: Check if we've achieved the goal
 			if gds.isPatternAchieved(currentPattern) {
-- 
2.43.0


From 228e497599499670b356acae660ad9620645ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:06 +0000
Subject: [PATCH 37/37] fix: the force of a basin of radius 0 was NaN at its
 target

---
 internal/emerge/basin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/emerge/basin.go b/internal/emerge/basin.go
index e287cc3..b59e130 100644
--- a/internal/emerge/basin.go
+++ b/internal/emerge/basin.go
@@ -51,7 +51,7 @@ func (b *AttractorBasin) DistanceToTarget(state core.State) float64 {
 func (b *AttractorBasin) AttractionForce(state core.State) float64 {
 	distance := b.DistanceToTarget(state)
 
-	if distance > b.radius {
+	if distance >= b.radius {
 		return 0
 	}
 
-- 
2.43.0

