AI = "abstract interpretation of the SSA form (intervals, linear relations, angles mod 2π; path-sensitive, no solver)"
PROPS = [
 dict(id="C01", title="An agent's phases always stay on the circle",
  statement="Whatever finite values are set, configured, proposed or applied, and whatever its neighbours report, the phase and the preferred phase an agent exposes are always numbers in [0, 2π].",
  over=["inputs", "histories", "configurations"], forall="every finite argument of every public operation and option, every sequence of operations, every neighbourhood",
  why="Tests set a dozen phases; the range must hold for every value, every action magnitude and every combination of neighbour phases.",
  files=["emerge/agent/agent.go", "emerge/agent/atomic_state.go", "emerge/agent/pool.go", "emerge/core/phase.go", "internal/random/random.go"],
  mech=[("phase wrapping", "emerge/core/phase.go WrapPhase"), ("single state record", "emerge/agent/atomic_state.go AtomicState"), ("setters, options, actions, context update", "emerge/agent/agent.go"), ("pool reset", "emerge/agent/pool.go Reset")],
  technique=AI, note="Every publication of the state record is proved in range for arbitrary finite arguments, assuming the range of what was loaded (rely/guarantee). Trusts the analyser's model of math.Mod, sync/atomic and crypto/rand; NaN, infinities and magnitudes above 1e100 are excluded."),
 dict(id="C02", title="Energy is never negative and influence and stubbornness stay in [0, 1]",
  statement="Whatever finite values are set, configured or spent, an agent's energy is never negative, and its influence and stubbornness always lie in [0, 1].",
  over=["inputs", "histories", "configurations"], forall="every finite argument of every public operation and option, every sequence of operations",
  why="Tests probe a few boundary values; the bound must survive every sequence of setters, options, resets and actions with any cost.",
  files=["emerge/agent/agent.go", "emerge/agent/atomic_state.go", "emerge/agent/pool.go"],
  mech=[("clamping setters", "emerge/agent/agent.go SetEnergy, SetInfluence, SetStubbornness"), ("options", "emerge/agent/agent.go With*"), ("charging an action", "emerge/agent/agent.go ApplyAction")],
  technique=AI, note="Every publication of the state and behaviour records is proved in range for arbitrary finite arguments (rely/guarantee). NaN and infinities excluded; custom resource managers are assumed to report a non-negative amount."),
 dict(id="C03", title="Applying an action is all or nothing",
  statement="Applying an action either succeeds, charging exactly its cost from energy that covered it and moving the phase by exactly its value (modulo a full turn; not at all for 'maintain') and changing nothing else, or it is refused with the documented error and changes nothing. An action is never applied when the agent cannot afford it, also when other goroutines spend energy at the same time.",
  over=["inputs", "schedules"], forall="every action type, cost and value, every current state, every interleaving with other updates of the same agent",
  why="Tests apply a few affordable actions sequentially; affordability at the moment of the charge and the absence of partial effects concern every schedule.",
  files=["emerge/agent/agent.go", "emerge/agent/atomic_state.go", "emerge/core/errors.go"],
  mech=[("action application", "emerge/agent/agent.go ApplyAction"), ("atomic state replacement", "emerge/agent/atomic_state.go")],
  technique=AI, note="All paths of ApplyAction are enumerated with symbolic action and state; each success path must contain one compare-and-swap (or one exclusive critical section) whose replaced record affords the cost. Trusts the analyser's model of sync/atomic."),
 dict(id="C04", title="Concurrent updates of an agent are never lost",
  statement="When several goroutines update the same agent at the same time (setters, actions, context updates, resets), every completed update takes effect: none is overwritten by a value computed from an older snapshot, and a reader never sees a half-made update.",
  over=["schedules"], forall="every interleaving of any number of operations on one agent",
  why="A lost update needs one particular interleaving; tests and the race detector see only the schedules that happen.",
  files=["emerge/agent/agent.go", "emerge/agent/atomic_state.go"],
  mech=[("atomic cells", "emerge/agent/atomic_state.go AtomicState.Update, AtomicBehavior.Update"), ("operations", "emerge/agent/agent.go")],
  technique="abstract interpretation with provenance tracking (which snapshot each published value derives from) and lock epochs", note="Rule: a record computed from a snapshot replaces exactly that snapshot (CAS on it, or one critical section shared by all writers); records are immutable once shared."),
 dict(id="C05", title="Setters, options and getters touch exactly the attribute they name",
  statement="Setting an attribute of an agent (through a setter or a construction option) stores exactly the given value - phases modulo a full turn, energy raised to 0 and influence and stubbornness clamped to [0, 1] only when out of range - and leaves every other attribute as it was; each getter returns the attribute it names.",
  over=["inputs", "histories"], forall="every finite value, every prior state",
  why="Attributes share packed records, so a write can silently disturb another attribute; tests read back only what they set.",
  files=["emerge/agent/agent.go", "emerge/agent/atomic_state.go"],
  mech=[("setters and getters", "emerge/agent/agent.go"), ("packed records", "emerge/agent/atomic_state.go StateData, BehaviorData")],
  technique=AI, note="The published record is compared field by field with the record it replaces."),
 dict(id="C06", title="Proposing never changes an agent; it accepts only what it can afford",
  statement="Proposing an adjustment never changes the agent. The proposal is either refused (returning a 'maintain' action that costs and moves nothing) or it is exactly the action the decision maker chose among 'maintain' and what the strategy proposed, and the agent's energy covers its cost. A fully stubborn agent (stubbornness 1) never accepts, nor does any agent when confidence or acceptance is zero; an agent with stubbornness 0 always accepts an affordable choice with full confidence and acceptance.",
  over=["inputs", "histories"], forall="every state of the agent, every goal, every strategy and decision maker, every random draw",
  why="The choice depends on a random draw and on pluggable strategies; tests see single draws.",
  files=["emerge/agent/agent.go", "emerge/decision/simple.go"],
  mech=[("autonomy", "emerge/agent/agent.go ProposeAdjustment"), ("random draw", "internal/random/random.go Float64")],
  technique=AI, note="Every path of ProposeAdjustment is analysed with arbitrary (havocked) strategy and decision maker; acceptance is decided from interval facts on stubbornness, confidence and the draw."),
 dict(id="C07", title="Strategies move towards the target, never past it or away from it",
  statement="For every current and target state and every context with measurements in [0, 1], each synchronization strategy proposes an action with a non-negative cost, a confidence in [0, 1] and a phase adjustment between zero and the shortest signed difference to the target phase (it never overshoots the target and never moves the wrong way); a 'maintain' proposal moves nothing. Strategy rates always lie in [0, 1], however the strategy was created.",
  over=["inputs", "configurations"], forall="every pair of states, every context in [0, 1], every rate or configuration given to a constructor",
  why="Tests sample a few phase pairs; overshooting needs particular rate, phase and context combinations.",
  files=["emerge/strategy/phase_nudge.go", "emerge/strategy/frequency_lock.go", "emerge/strategy/energy_aware.go", "emerge/strategy/pulse.go", "emerge/strategy/adaptive.go"],
  mech=[("strategies", "emerge/strategy/*.go Propose"), ("constructors", "emerge/strategy/*.go New*")],
  technique=AI, note="Products are bounded by case splitting on the sign of the angle; the shortest difference is the phase-arithmetic property's result. Finite phases; inner strategies of the adaptive strategy are assumed to honour the same contract."),
 dict(id="C08", title="The decision maker picks the most worthwhile of the offered actions",
  statement="Deciding among actions returns one of the offered actions unchanged, and no other offered action has a better ratio of benefit to cost (costs below 0.1 count as 0.1); the acceptance returned lies in [0, 1]. With no actions offered it chooses 'maintain'.",
  over=["inputs"], forall="every list of options with any finite costs and benefits",
  why="Tests compare two or three concrete options; ties, zero and negative costs or benefits and order matter.",
  files=["emerge/decision/simple.go"],
  mech=[("simple decision maker", "emerge/decision/simple.go Decide")],
  technique=AI, note="Option lists of length 0 to 3 are decided exactly with symbolic costs and benefits; longer lists by the loop invariant (membership and range)."),
 dict(id="C09", title="Token resources stay within bounds and never hand out a token twice",
  statement="Requesting tokens grants the smaller of the amount asked and the amount available and takes exactly that; releasing adds the amount, capped at the maximum; non-positive amounts change nothing; the available amount always lies between zero and the maximum. This also holds when several goroutines request and release at the same time.",
  over=["inputs", "schedules", "histories"], forall="every amount, every sequence and interleaving of requests and releases",
  why="A double grant needs an interleaving; tests and the race detector see only the schedules that happen.",
  files=["internal/resource/token.go"],
  mech=[("token manager", "internal/resource/token.go Request, Release, Available")],
  technique=AI+"; lock epochs for atomicity", note="Every write of the count is proved in range and made in the critical section in which the count it is computed from was read."),
 dict(id="C10", title="Phase arithmetic is exact on the circle",
  statement="Wrapping any finite phase yields a value in [0, 2π] that is congruent to it modulo 2π. The difference of two phases lies in [-π, π] and is congruent to the first minus the second modulo 2π.",
  over=["inputs"], forall="every finite phase and every pair of them",
  why="Tests sample multiples of π/2; errors hide at particular pairs, negative phases or large magnitudes.",
  files=["emerge/core/phase.go"],
  mech=[("WrapPhase, PhaseDifference", "emerge/core/phase.go")],
  technique=AI, note="Congruence domain modulo 2π with exact arithmetic: rounding of math.Mod, sin and cos is not modelled."),
 dict(id="C11", title="All randomness is cryptographic and in its documented range",
  statement="Every random number the library uses is derived from bytes freshly read from the cryptographic source and lies in the documented range of the function that produced it; when the source fails no number is returned. No package uses a predictable generator.",
  over=["inputs", "crash points"], forall="every draw, every bound, every failure of the source",
  why="A biased, constant or out-of-range draw shows only for particular random bytes; a failed read cannot be provoked by tests.",
  files=["internal/random/random.go"],
  mech=[("random source", "internal/random/random.go")],
  technique=AI+" with taint tracking from crypto/rand.Read; import lint over every package", note="Distribution (uniformity) is not decided."),
 dict(id="C12", title="Blending goals takes the short way round and respects the weight",
  statement="Blending a local and a global goal gives a phase in [0, 2π] that is the local phase moved towards the global one by the weight times their shortest difference, and a coherence that is their weighted mean; weights of 0 or less give the local goal and weights of 1 or more the global one.",
  over=["inputs"], forall="every pair of goals and every weight",
  why="Tests try a few weights; wrap-around and out-of-range weights interact.",
  files=["emerge/goal/manager.go"],
  mech=[("goal manager", "emerge/goal/manager.go Blend")],
  technique=AI, note="Frequencies are not part of the statement."),
 dict(id="C13", title="Every coherence measurement is a number in [0, 1]",
  statement="For any number of agents (including none) and any finite phases, the coherence of a list of phases, of a swarm (whatever its size and storage), around an agent, and the phase convergence of a swarm towards any finite phase are always numbers in [0, 1], never NaN; the coherence of nothing is 0.",
  over=["inputs", "configurations"], forall="every number of agents, all finite phases, every neighbourhood",
  why="Tests measure a few swarms; division by a zero or wrong count appears only for particular memberships.",
  files=["emerge/core/phase.go", "emerge/swarm/swarm.go", "emerge/agent/agent.go"],
  mech=[("order parameter", "emerge/core/phase.go MeasureCoherence"), ("swarm", "emerge/swarm/swarm.go MeasureCoherence, MeasurePhaseConvergence"), ("neighbourhood", "emerge/agent/agent.go calculateLocalCoherence")],
  technique=AI+"; disk domain for sums of unit vectors", note="Exact arithmetic: results may exceed 1 by rounding. Weighted coherence is not claimed."),
 dict(id="C14", title="Swarm configurations are rejected exactly when out of range, or repaired",
  statement="Validating a swarm configuration for a size fails exactly when the size is not positive or above the configured maximum, a probability lies outside [0, 1], a quantity that must be positive is not, a limit is negative, or the neighbor limits do not fit each other and the size. Normalising leaves a valid configuration as it is (automatic batch parameters aside), makes any other one valid whenever the size is acceptable, and fails otherwise. The presets are valid for every size they are meant for.",
  over=["configurations"], forall="every configuration with finite values and every size",
  why="Some twenty fields interact with the size; tests vary one field at a time from one preset.",
  files=["internal/config/swarm.go"],
  mech=[("validation", "internal/config/swarm.go Validate"), ("normalisation", "internal/config/swarm.go NormalizeAndValidate"), ("presets", "internal/config/swarm.go AutoScaleConfig, ForBatching, DefaultConfig, SmallSwarmConfig, MediumSwarmConfig")],
  technique=AI, note="All other fields are unconstrained when one range is violated. Iteration over a map with known entries is analysed in insertion order and in reverse. NaN and infinities excluded; presets for sizes up to 1e6 (their own maximum)."),
 dict(id="C15", title="Every goal, trait and size gives a valid synchronization configuration",
  statement="The configuration for any goal, tuned for any trait (or none) and sized for any number of agents, in either order, passes validation. Validation fails when a scale, rate, chance or fraction lies outside [0, 1], a variation range is negative or inverted, the coherence thresholds are out of order or an interval is not positive, and succeeds otherwise.",
  over=["configurations"], forall="every goal, trait and agent count (also unknown goals and traits), every configuration with finite values",
  why="Eight goals times seven tunings times every size; tests validate the untuned presets and a few combinations.",
  files=["emerge/swarm/config.go", "emerge/swarm/goal_constants.go", "emerge/swarm/thresholds.go"],
  mech=[("presets", "emerge/swarm/config.go For"), ("tuning and sizing", "emerge/swarm/config.go TuneFor, WithSize"), ("validation", "emerge/swarm/config.go Validate")],
  technique=AI, note="One tuning and one sizing; repeated tuning may leave the ranges. NaN excluded."),
 dict(id="C16", title="Coherence limits and recovery thresholds are consistent and monotone",
  statement="For every swarm size 0 <= recommended <= practical <= theoretical coherence limit <= 1, and the limits never fall as a swarm of two or more agents grows. The expected time factor is at least 1, never falls as the target rises, and is infinite exactly above the practical limit; the minimum size never falls as the target rises; a requested target is only ever capped at the theoretical limit, with a warning exactly when it exceeds the recommended one. Default recovery ratios lie in (0, 1], a small drop is smaller than a large one, and a higher target never gets looser thresholds.",
  over=["inputs"], forall="every size, every pair of sizes, every finite target and pair of targets",
  why="Tests look at a few sizes and targets; ordering and monotonicity concern every pair.",
  files=["emerge/swarm/limits.go", "emerge/swarm/swarm_continuous_run.go", "emerge/swarm/thresholds.go"],
  mech=[("limits", "emerge/swarm/limits.go GetCoherenceLimits, GetConvergenceTimeFactor, GetMinimumSwarmSize, ValidateCoherenceTarget"), ("recovery thresholds", "emerge/swarm/swarm_continuous_run.go DefaultRecoveryConfig")],
  technique=AI+"; relational: two runs in one state compare every pair of arguments", note="Finite targets."),
 dict(id="C17", title="Size categories cover every count and promise only reachable targets",
  statement="Every agent count belongs to exactly one size category, larger counts never to a smaller one, and each category's default count belongs to that category. A category's default target coherence lies within the recommended limit of its default count and has a finite expected convergence time; its neighbor limit fits the count; larger categories have more agents, no higher target and no shorter intervals or convergence time.",
  over=["inputs", "configurations"], forall="every count, every pair of counts, every category (also unknown ones)",
  why="The tables live in different packages and must agree for every category and count; tests compare literal values.",
  files=["emerge/scale/scale.go", "emerge/swarm/limits.go"],
  mech=[("categories", "emerge/scale/scale.go"), ("limits", "emerge/swarm/limits.go")],
  technique=AI, note="Categories are read from the declared constants."),
 dict(id="C18", title="A swarm's operations reach every agent whichever storage holds them",
  statement="A swarm built for some size holds exactly that many distinct agents (the ones a custom builder made, if one is given), each under its own id; listing, looking up by id, iterating (until the visitor stops it) and measuring coherence account for every one of them exactly once. Disrupting a fraction of a swarm changes the phases of exactly that fraction of the size (rounded down; nothing for a fraction of 0 or less, everything for 1 or more). This holds both for small swarms (map storage) and for swarms above 100 agents (slice storage).",
  over=["configurations","inputs"], forall="both storage modes, default and built agents, every id, every stopping point, all phases, every fraction",
  why="Tests exercise small swarms; the slice storage is a second implementation of every operation.",
  files=["emerge/swarm/swarm.go"],
  mech=[("construction and iteration", "emerge/swarm/swarm.go New, Agents, Agent, ForEachAgent, MeasureCoherence, DisruptAgents")],
  technique=AI+"; known collections are followed element by element", note="Sizes 1, 3 and 101. Fractions above 3 agents: -1, 0, 0.1, 0.5, 1, 3; every fraction for 1 and 3 agents."),
 dict(id="C19", title="Constructing a swarm succeeds with validated settings or fails entirely",
  statement="Both swarm constructors return either a swarm or an error, never both or neither. A size below 1 (with its named error), an invalid goal, configuration or goal configuration, a failing option and a failing topology are always errors. A swarm that is returned has the requested size, a configuration that passed validation for that size, and the requested goal, its coherence capped at the practical limit of the size.",
  over=["configurations","inputs"], forall="every goal, every configuration, every failing option or topology, every size below 1",
  why="Options, configuration, goal and storage interact in two constructors; tests cover a few combinations of valid input.",
  files=["emerge/swarm/swarm.go"],
  mech=[("constructors", "emerge/swarm/swarm.go New, NewSwarmFromConfig")],
  technique=AI+"; NormalizeAndValidate replaced by the contract C14 proves", note="Agents are created for sizes 1, 2 and 101. Finite numbers."),
 dict(id="C20", title="The network between agents is mutual, inside the swarm and large enough",
  statement="After construction every connection between agents is mutual, joins two different members of the swarm and is counted once; with probabilistic connections every agent has at least the configured minimum of neighbors, whatever the connection probability and the random draws. The ring, star and full topologies connect exactly the pairs their names promise and refuse too few agents.",
  over=["configurations","inputs"], forall="every connection probability, every outcome of the random draws, minimums that fit the size",
  why="One-sided or self connections appear only for particular random draws; tests look at a few random networks.",
  files=["emerge/swarm/swarm.go", "internal/topology/topology.go"],
  mech=[("connecting", "emerge/swarm/swarm.go establishConnections"), ("topologies", "internal/topology/topology.go Ring, Star, FullyConnected")],
  technique=AI+"; loops explored by the shape of the known collections", note="Swarms of 2 and 3 agents (topologies 1 to 4). The minimal-connection mode gives up after its attempt limit, so its minimum is not claimed."),
 dict(id="C21", title="An agent knows exactly the neighbors it is connected to",
  statement="After any sequence of connecting and disconnecting, an agent is connected to exactly the agents that were connected and not disconnected since, each counted once, never to itself; when it updates its context it reads exactly their phases and perceives exactly their number and a density in [0, 1]. This also holds for more neighbors than the fixed neighbor storage holds. The storage itself answers every lookup, count and iteration with what was stored and not deleted, and refuses only what does not fit.",
  over=["histories","inputs","configurations"], forall="every sequence of operations up to a bound, every phase, with and without a fixed storage, below and above its capacity",
  why="Neighbors live in two storages that must agree; wrong answers appear only for particular orders of connecting, replacing and removing.",
  files=["emerge/agent/agent.go", "emerge/agent/neighbor_storage.go"],
  mech=[("connections", "emerge/agent/agent.go ConnectTo, DisconnectFrom, IsConnectedTo, NeighborCount, UpdateContext"), ("fixed storage", "emerge/agent/neighbor_storage.go NeighborStorage")],
  technique=AI+"; operation sequences enumerated against a set oracle", note="Sequences of up to three operations (four in the thorough tier) from 0 and 19 neighbors. Operations follow one another."),
 dict(id="C22", title="Locks are always released, never taken twice, and nobody waits under one",
  statement="Every lock taken by any operation is released exactly once on every path, including early returns. No operation takes a lock it already holds, in any mode; two locks are never taken in opposite orders by different operations; and no operation sleeps or waits for a channel, a group or another goroutine while it holds a lock. So concurrent use of monitors, neighbor storages, batch managers, workloads, metrics, displays and simulations cannot deadlock on their locks.",
  over=["schedules"], forall="every call path from every exported function and every goroutine, every interleaving",
  why="A deadlock needs one particular interleaving or one rarely taken return; tests see only the schedules that happen.",
  files=["emerge/monitoring/convergence.go", "internal/emerge/convergence.go", "emerge/convergence/monitor.go", "emerge/agent/neighbor_storage.go", "emerge/swarm/goal_directed.go", "simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/batch_manager.go", "simulations/emerge/simulation/agent.go", "simulations/emerge/simulation/metrics.go"],
  mech=[("monitors", "emerge/monitoring, internal/emerge, emerge/convergence"), ("simulation", "simulations/emerge/simulation BatchManager, MetricsCollector, Workload, Simulation"), ("neighbor storage", "emerge/agent/neighbor_storage.go")],
  technique="interprocedural context-sensitive lockset dataflow on the SSA form; cycle search in the acquisition order", note="Mutexes are told apart by access path, in the order relation by field. Callbacks passed in from outside the module and library code are not followed."),
 dict(id="C23", title="Shared state is only touched under its lock and never leaks out of it",
  statement="Every field that is changed under a lock once the object is in use is only read or changed while that same lock is held, and changed only in exclusive mode; the same holds for the contents of the slice, map or queue it refers to, which are never handed to a caller or another goroutine without being copied. A field used atomically anywhere is used atomically everywhere.",
  over=["schedules"], forall="every access on every call path from every exported function and every goroutine",
  why="A data race shows only under a particular schedule, and the race detector sees only those a test happens to run.",
  files=["emerge/monitoring/convergence.go", "internal/emerge/convergence.go", "emerge/convergence/monitor.go", "emerge/agent/neighbor_storage.go", "emerge/completion/engine.go", "emerge/swarm/goal_directed.go", "simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/batch_manager.go", "simulations/emerge/simulation/agent.go", "simulations/emerge/simulation/metrics.go"],
  mech=[("monitors", "emerge/monitoring, internal/emerge, emerge/convergence"), ("simulation", "simulations/emerge/simulation BatchManager, MetricsCollector, Workload, Simulation"), ("neighbor storage", "emerge/agent/neighbor_storage.go")],
  technique="interprocedural lockset analysis (common lock of all accesses), escape analysis of guarded containers", note="Objects are private until given to a goroutine; constructors are exempt. Fields that no operation locks are out of scope."),
 dict(id="C24", title="Background work ends with its context or its owner",
  statement="Everything the system runs in the background ends when the context it was started with is cancelled, when its deadline passes or when its owner is stopped or gone: every loop that waits is left then, every single wait (sending, receiving, waiting for a group) can be ended that way or cannot block, no function that is given a context works on one its callers cannot cancel, and every cancel function made is called, deferred, handed on or kept, and called before one that is kept is replaced. So cancelling a run, stopping a pool or restarting or resuming a simulation leaves no goroutine behind.",
  over=["schedules","histories"], forall="every loop that waits, every blocking operation, every goroutine and every cancel function, on every path",
  why="A leaked goroutine or an uncancellable wait shows only when the cancellation meets one particular point of the loop; tests stop at a few convenient moments and do not count what is left behind.",
  files=["emerge/swarm/swarm.go", "emerge/swarm/goal_directed.go", "emerge/swarm/swarm_continuous_run.go", "simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/batch_manager.go", "simulations/emerge/simulation/agent.go", "simulations/emerge/ui/runner.go", "simulations/display/controller.go"],
  mech=[("synchronization loops", "emerge/swarm AchieveSynchronization, RunContinuous"), ("worker pool", "emerge/swarm/swarm.go WorkerPool"), ("simulation", "simulations/emerge/simulation Simulation, Workload, BatchManager; simulations/emerge/ui Runner; simulations/display")],
  technique="cycle analysis of the SSA control flow with channel and context provenance; typestate of cancel functions", note="Fairness: a select notices a ready case in finitely many rounds. Library calls given a context return when it is cancelled. The program's main loop ends with the display."),
 dict(id="C25", title="Every computation ends: no loop or recursion runs for ever",
  statement="Every loop of every operation, for every input however large or unusual, ends: it runs over a collection that does not grow meanwhile, counts in one direction towards a bound that stays fixed, retries an update until no other one intervened, draws random members from a collection that has enough of them, or waits in a way that ends with its context, deadline or owner. No operation calls itself. In particular wrapping a phase or connecting a network cannot loop for ever.",
  over=["inputs","schedules"], forall="every loop and call cycle in the module, all inputs",
  why="Non-termination appears for one unusual value (a huge phase, a minimum that does not fit, an empty remainder) that tests do not contain.",
  files=["emerge/core/state.go", "emerge/swarm/swarm.go", "emerge/agent/atomic_state.go", "simulations/emerge/simulation/batch_manager.go", "emerge/completion/engine.go", "internal/random/random.go"],
  mech=[("normalizing", "emerge/core/state.go"), ("connecting", "emerge/swarm/swarm.go"), ("lock-free updates", "emerge/agent/atomic_state.go"), ("batching", "simulations/emerge/simulation/batch_manager.go")],
  technique="ranking of every strongly connected component of the SSA control flow; call-graph cycle search", note="Random draws and compare-and-swap succeed eventually. Counters do not overflow. Calls through an interface reach a component built before."),
 dict(id="C26", title="Monitors report exactly what was recorded",
  statement="After any sequence of recordings and resets, a convergence monitor says it has converged exactly when the last recorded coherence reaches its threshold (a later drop below takes it back, a reset starts afresh); the current coherence is the last one recorded, 0 before any; the history is a separate copy of the recorded values in order; no convergence time is reported without convergence; stability lies in [0, 1]; the predicted time to convergence is never negative and is zero once converged; and the statistics agree with the history (count, extremes, a mean between them, a deviation that is not negative). A history monitor keeps exactly its last 100 values in order, with their latest and their average. A distance monitor reports progress in [0, 1], judges nothing from fewer than three samples, is converging exactly when the trend of its distances falls by more than 0.001 per sample, is never converging and stuck at once, never stuck before six samples, and keeps at most twice its window; a reset makes it as new.",
  over=["inputs","histories"], forall="every recorded value and every sequence of recordings and resets (convergence monitors up to three operations, four in the thorough tier; history monitors 103 recordings; distance monitors 12 recordings, 22 without a window)",
  why="Tests feed a few rising values; a dip below the threshold, a reset, a value before any other, an overflow for a tiny rate or the 101st value only show for particular histories.",
  files=["emerge/monitoring/convergence.go", "emerge/monitoring/monitor.go", "internal/emerge/convergence.go", "internal/emerge/metrics.go", "emerge/convergence/monitor.go"],
  mech=[("convergence monitors", "emerge/monitoring/convergence.go, internal/emerge/convergence.go ConvergenceMonitor"), ("history monitors", "emerge/monitoring, internal/emerge Monitor"), ("distance monitor", "emerge/convergence/monitor.go Monitor")],
  technique="path-sensitive abstract interpretation with linear relations over symbolic operation sequences", note="Coherences in [0, 1]; distances finite and not negative. The library's double-ended queue is modelled as a list."),
 dict(id="C27", title="A continuous run recovers exactly when it must and stops only when told",
  statement="A continuous run begins with one synchronization attempt and measures the swarm at every check interval. At each check it starts another attempt exactly when none is running, more than the minimum resync interval has passed since the last one began, and the measured coherence is below the minimum viable coherence, or below the accepted share of the target, or has fallen from its recent peak by more than the large drop ratio (or by more than the small one while below the target), or has fallen by more than the small drop ratio since the previous check. The recent peak is the highest coherence measured since the last attempt began, fading slowly at checks that do not exceed it. Two attempts never run at once; an attempt that ends, however it ends, makes room for the next; each works towards the swarm's goal under a context derived from the caller's. The run returns only once the caller's context is done, with its error. Thresholds given as an option are used unchanged, otherwise the defaults for the target.",
  over=["histories","schedules","inputs"], forall="every measured coherence, target and clock, along every order of checks and attempt ends up to two checks (three with given thresholds; three and four in the thorough tier)",
  why="Whether a disruption is noticed depends on the exact history of measurements, the moment the running attempt ends and the clock; tests wait for real time and see one history each.",
  files=["emerge/swarm/swarm_continuous_run.go", "emerge/swarm/swarm.go"],
  mech=[("continuous run", "emerge/swarm/swarm_continuous_run.go RunContinuous, needsResync"), ("thresholds", "emerge/swarm/swarm_continuous_run.go DefaultRecoveryConfig; swarm.go WithRecoveryConfig")],
  technique="path-sensitive abstract interpretation along scripted schedules, compared with the decision rule at every check", note="Measurements in [0, 1] (C13). Synchronization itself is opaque; the loop is followed up to the named number of checks."),
 dict(id="C28", title="Completing a pattern moves part of the way, never past",
  statement="The distance between two patterns is between 0 and 1, 0 for a pattern and itself, grows above 0 when the phase, the frequency or the coherence differ, and is larger than any real distance when a pattern is missing. The gaps listed between a current pattern and a target are, at most once each: a phase gap exactly when the shortest phase difference exceeds 0.1, a frequency gap exactly when both frequencies are positive and the current one is more than 5 % off, a coherence gap exactly when the current coherence is more than 0.05 below the target's; each carries the two values compared and a severity between 0 and 1. Completing a pattern uses the nearest template closer than 0.7; the phase and frequency adjustments that result lie between nothing and the (shortest) way to that template, or, without a template, half the way to the target, and are zero for a kind of gap not listed; a coherence boost never exceeds what the template or the gap calls for; a waveform is blended sample by sample in order by the severity. Neither the patterns, the templates nor the gaps passed in are changed.",
  over=["inputs"], forall="every pair of patterns, severity in [0, 1], up to two templates and any combination of gaps named",
  why="Overshooting needs a particular combination of wrap-around, sign, ratio and severity; tests check a few round numbers.",
  files=["emerge/core/pattern.go", "emerge/completion/engine.go"],
  mech=[("distance and gaps", "emerge/core/pattern.go PatternDistance, IdentifyGaps"), ("completion", "emerge/completion/engine.go CompletePattern, GetPhaseAdjustment, GetFrequencyAdjustment")],
  technique="path-sensitive abstract interpretation with linear envelopes of products", note="Coherences in [0, 1], periods up to 100 days. Exact frequency-gap boundary for named target periods; up to two templates."),
 dict(id="C29", title="An attempt succeeds exactly when the target is reached, and ends in time",
  statement="A goal-directed synchronization attempt works towards the target it was given, lowered at most to the theoretical coherence limit of the swarm's size. It measures the swarm once per update interval and returns nil at the first measurement at which all of these hold, and at no other: the coherence is at most the tolerance below the target (the small, medium or large tolerance for fewer than 10, fewer than 50 or more agents; twice that from 95 % of the practical limit on), the distance between the measured pattern and the target is below the pattern threshold, and, for a target of at least the high-coherence threshold, the phase convergence towards the target phase reaches its goal. When the context ends first it returns the context's error. Otherwise it gives up with another error after exactly its budget of measurements: the configured factor times 1, 2, 4 or 8 (target below 80, 90, 95 % of the practical limit, or up to it) and at most 1000, which is also the budget for any target above the practical limit; switching strategies or adding noise when stuck does not change the budget. Run attempts the goal state of the swarm under the caller's context and returns the attempt's result.",
  over=["histories","inputs"], forall="every sequence of measured coherences, pattern distances and phase convergences before success, cancellation or the budget, for swarm sizes on both sides of each class boundary",
  why="Success, cancellation and budget meet in one loop driven by random measurements; tests see whether a run happened to converge, not whether it stopped at the right measurement or would ever give up.",
  files=["emerge/swarm/goal_directed.go", "emerge/swarm/limits.go", "emerge/swarm/swarm.go"],
  mech=[("attempt", "emerge/swarm/goal_directed.go AchieveSynchronization, isPatternAchieved"), ("budget", "emerge/swarm/limits.go GetConvergenceTimeFactor, GetCoherenceLimits"), ("Run", "emerge/swarm/swarm.go Run")],
  technique="path-sensitive abstract interpretation along scripted happenings", note="Up to two unknown measurements before cancellation; budgets at named targets and factors, followed to the end (up to 1000 measurements). One representative agent stands for all when phases are moved."),
 dict(id="C30", title="Corrections pull every agent the short way, or only add noise",
  statement="In one pass of corrections (goal-directed synchronization, one update interval) each agent's phase is changed at most once, and in one of these ways only. (a) It is pulled: moved by between 0.5 % and 200 % of the shortest signed difference to the target phase, so the short way round, plus at most 0.6 times the phase adjustment of the completed pattern. (b) It gets noise of at most half the configured random-walk or perturbation magnitude, either way. (c) It is spread by at most 0.15 pi; only where the target coherence is below 0.4 and the swarm's coherence is above the target. Agents more than 0.13 rad from the target are pulled, every one of them, unless the swarm is being spread; in a settled swarm (coherence above the very-high threshold and phase variance below its threshold) exactly one of every three such agents in turn is pulled and the others get noise. A frequency only changes by the frequency adjustment of the completed pattern, at most once, and stays positive. When a pass finds the swarm stuck, noise of at most half the resonance magnitude is added max(1, trunc(share * agents)) times, each time to an agent of the swarm.",
  over=["inputs"], forall="all phases, frequencies, target phases, coherences, variances, adjustments, random numbers and configured scales in range, for small, middle and large swarms",
  why="The direction and size of a correction depend on phase wrap-around, random factors and thresholds; tests see the average outcome of a noisy run, in which a share of agents driven the wrong way is drowned by the rest.",
  files=["emerge/swarm/goal_directed.go", "emerge/core/phase.go"],
  mech=[("corrections", "emerge/swarm/goal_directed.go applyPatternCompletion"), ("noise", "emerge/swarm/goal_directed.go addStochasticResonance"), ("shortest difference", "emerge/core/phase.go PhaseDifference, WrapPhase")],
  technique="abstract interpretation with symbolic phases and interval coefficients", note="Base scale within [0.1, 1], variation range within [0, 0.5], coherence factor within [0, 0.3]; coherence and variance measured once per pass give the same value. Up to four named agents; the way round is decided on one."),
 dict(id="C31", title="Every task is sent and billed exactly once, and the figures add up",
  statement="In the simulation, the metrics collector's current figures are the sums of what was recorded since the last reset: calls, costs, savings (the difference of the costs) and the average cost; the batch size distribution counts every batch once; the peak coherence is the largest one reported and a time to converge is given only once a coherence of 0.7 was reported. The batch manager bills every task it receives exactly once: without synchronization one call per task at the individual price, with it one discounted call per batch, in the fewest batches of at most the API limit per window. A workload makes and sends nothing while the simulation is paused; each of its tasks carries an id of its own; all its pending tasks are sent together exactly when some are pending and its phase is within 0.1 of zero, after which none is pending and one more batch is counted; when the queue is full they stay pending instead.",
  over=["histories","inputs","schedules"], forall="up to three recordings of unknown sizes, costs and coherences; nine scripts of batches around the API limit in up to three windows; up to six turns of a workload's goroutines with unknown phases, for every request pattern",
  why="Lost or doubly billed tasks show only for a batch of exactly the limit, a full queue, two windows or a pause at the wrong moment; tests send a few tasks and look at the end.",
  files=["simulations/emerge/simulation/batch_manager.go", "simulations/emerge/simulation/metrics.go", "simulations/emerge/simulation/agent.go", "simulations/emerge/simulation/simulation.go"],
  mech=[("billing", "simulations/emerge/simulation/batch_manager.go ProcessBatches"), ("figures", "simulations/emerge/simulation/metrics.go MetricsCollector"), ("workloads", "simulations/emerge/simulation/agent.go Start, generateTasks, monitorBatching, sendBatch")],
  technique="path-sensitive abstract interpretation along scripted happenings", note="Random numbers in their ranges (C11). Prices as the package's constants give them. Bounded histories as listed."),
 dict(id="C32", title="Pause, resume, reset and disrupt do exactly what they say",
  statement="A started simulation begins each workload and the billing once, under the start's context and with one shared queue, and one synchronization run; Start returns only when its context has ended. After a pause no synchronization run is left that is not cancelled; after a resume exactly one is, under the start's context; pausing never cancels the workloads or the billing for good. While paused every snapshot shows the coherence and phases of the pause, however the agents move; otherwise those measured for it, and no coherence ever shown exceeds the peak the statistics report. Snapshots show one entry per workload, the sum of their pending tasks, the configured target and the recorded figures. A reset sets every agent once to the worst phases documented for the goal, clears tasks, last batch and figures, and is shown for a while and then no more. A disruption moves exactly one agent in five, by half a turn, and is shown until the first later measurement that reaches the target, or until its time is up.",
  over=["histories","schedules","inputs"], forall="every sequence of up to three pauses, resumes and disruptions before and during a start; unknown phases and coherences; every goal with 1, 4, 5 and 11 agents",
  why="Runs left behind, phases that move in a paused view and flags that never clear depend on the order of user actions and on when a background watch wakes up; no test drives these controls.",
  files=["simulations/emerge/simulation/simulation.go", "simulations/emerge/simulation/builder.go", "simulations/emerge/simulation/metrics.go", "simulations/emerge/simulation/agent.go"],
  mech=[("controls", "simulations/emerge/simulation/simulation.go Start, Pause, Resume, Reset, Disrupt"), ("views", "simulations/emerge/simulation/simulation.go Snapshot, Statistics")],
  technique="path-sensitive abstract interpretation of operation sequences and of the goroutines they start", note="The emerge client is opaque (agents move at any time, coherences unknown). Start is followed up to its wait for its context; operations run one after another (their locking is C22/C23)."),
 dict(id="C33", title="Every key reaches the simulation, and the display shows what was measured",
  statement="In the interactive simulation every documented key (in both cases) causes exactly its documented control event, without ever waiting for room, and other keys cause none; a scripted controller delivers its events in order, each after its own delay. The runner pauses, resumes, resets and disrupts the simulation exactly as the keys say (P toggles the pause, space resumes, no reset or disruption while paused), Q ends the run, and a key for another goal, scale or pattern ends it with that request as its result while a key for the current one changes nothing. The display is given every field of the simulation's snapshots and final statistics unchanged, runs no longer than the configured timeout, and is closed; errors are returned. The main program starts the requested configuration with only that choice changed, under a context that is still alive, until a run ends without a request or a signal ends it.",
  over=["inputs","histories"], forall="every key; every sequence of three of pause, resume, reset and disrupt, each with and without quitting; every goal, scale and pattern key against equal and different current choices; one and two restarts of the main program",
  why="A key that does the wrong thing in one state, a request lost between two goroutines or a field shown from its neighbour needs a terminal to see; no test runs the runner, the controller or main.",
  files=["simulations/display/controller.go", "simulations/display/display.go", "simulations/emerge/ui/runner.go", "simulations/emerge/main.go", "simulations/emerge/config.go"],
  mech=[("keys", "simulations/display/controller.go KeyboardController, AutomatedController; display.go TerminalDisplay.Run"), ("runner", "simulations/emerge/ui/runner.go Run"), ("restarts", "simulations/emerge/main.go main")],
  technique="path-sensitive abstract interpretation of key sequences with simulated channels and goroutines", note="The simulation and display are opaque; goroutines run one after another, each until nothing is ready. Channels have room (at most a handful of events)."),
 dict(id="C34", title="A client is built exactly as asked",
  statement="Whatever settings, options or convenience constructor a client is asked for, and in whatever order, its swarm is created once with the documented number of agents of the last scale chosen (20, 50, 200, 1000, 2000), the configuration of the last goal chosen for that size, and the last positive target coherence, or the scale's recommended one when none was given. Without settings it batches API calls with a tiny swarm. An option that is refused (a coherence outside (0, 1], or an error of its own) is returned as an error, and so is a failure to create the swarm, with no client. A client's methods answer for its own swarm and run it under the context they are given. A simulation's client follows the goal, scale and target coherence of the simulation's configuration.",
  over=["inputs"], forall="every sequence of up to three settings or options with arbitrary goals, scales and coherences; every option error; a swarm that cannot be created",
  why="The tests try a few combinations in one order each; the order of settings, a refused option before an accepted one and values on the limits decide what the user gets.",
  files=["client/emerge/custom.go", "client/emerge/builder.go", "client/emerge/emerge.go", "simulations/emerge/simulation/builder.go", "emerge/scale/scale.go"],
  mech=[("settings", "client/emerge/custom.go Builder, Option, NewWithOptions"), ("constructors", "client/emerge/builder.go"), ("client", "client/emerge/emerge.go"), ("simulation", "simulations/emerge/simulation/builder.go createEmergeClient")],
  technique="path-sensitive abstract interpretation of setting sequences over symbolic values", note="The swarm is opaque (its constructor is decided by C19). Sequences of at most three settings."),
 dict(id="C35", title="A target state is accepted exactly when it is valid, and repaired when it can be",
  statement="A target state is refused exactly when its period is not positive, its coherence is NaN or outside [0, 1], or its phase is NaN or infinite; the refusal lists exactly the fields that are wrong and validating changes nothing. Normalising fails exactly when the coherence is NaN or the phase not finite; otherwise it leaves a valid state: a positive period is kept and any other replaced by a positive one, the coherence becomes the nearest one in [0, 1], and the phase becomes the same angle in [0, 2π].",
  over=["inputs"], forall="every period, coherence and phase, including NaN and both infinities",
  why="One NaN or infinity that passes poisons every measurement of a swarm; the tests try a few values per field, never the combinations.",
  files=["emerge/core/state.go", "internal/config/validation.go"],
  mech=[("states", "emerge/core/state.go State.Validate, NormalizeAndValidate, normalize")],
  technique="path-sensitive abstract interpretation over symbolic values with NaN and infinity", note="Angle arithmetic by the contract of WrapPhase."),
 dict(id="C36", title="What is measured is what the phases say",
  statement="The coherence of any phases is the length of the mean of their unit vectors (weighted by the weights that have a phase, when weights are given), and that of a swarm is the coherence of all its agents' phases, however they are stored. The phase convergence of a swarm towards a target is 1 less the mean shortest distance of its agents to it in units of half a turn, and its phase variance the mean squared shortest distance to the phases' mean direction, also across 0. What an agent perceives as local coherence is the coherence of its neighbors, and its local goal is its own phase moved towards its neighbors' mean direction the short way, by half of that way and by the other half in proportion to their coherence, whatever its local goal was.",
  over=["inputs", "configurations"], forall="all phases, weights and targets; lists of up to three, swarms of 1, 2, 3 and 101 agents, agents with one to three neighbors",
  why="The tests measure synchronised and opposed phases, where wrong formulas agree with right ones; phases around 0, unequal weights and general positions tell them apart.",
  files=["emerge/core/phase.go", "emerge/swarm/phase_convergence.go", "emerge/swarm/swarm.go", "emerge/agent/agent.go"],
  mech=[("coherence", "emerge/core/phase.go MeasureCoherence, MeasureCoherenceWeighted"), ("swarm", "emerge/swarm/swarm.go MeasureCoherence; phase_convergence.go"), ("agent", "emerge/agent/agent.go UpdateContext, calculateLocalCoherence")],
  technique="symbolic summaries by abstract interpretation, compared with a reference by random interpretation", note="Equality of summaries and reference is decided at 60 random points per construct (exact up to 1e-9, wrong with negligible probability on a path that is hit); limits between paths are not sampled. Exact arithmetic. Bounded numbers of agents."),
 dict(id="C37", title="Observed rhythms are recognised as they are",
  statement="A pattern's amplitude is the standard deviation of its phases on [0, 2π] and its period the mean of its periods, 0 for none. The gaps it detects are exactly the neighboring phases more than a quarter turn apart, whatever periods are known, and filling a gap gives one phase on the circle per missing position, evenly spaced along the short way, and nothing for positions that are not a gap of the pattern. The similarity of two patterns is a number in [0, 1], the same from both sides, 1 for equals of known period, and 0 when there is nothing to compare (no phases on one side, or no known period on either). A template matches exactly when its base pattern or a variation is similar enough for its tolerance, and a library names a template of the largest similarity. The rate of convergence is the least-squares slope of the last ten recordings.",
  over=["inputs", "histories"], forall="all phases, amplitudes and periods of patterns of up to five phases, libraries of up to two templates, up to twelve recordings; both copies of the code",
  why="The tests use patterns with as many periods as phases, positive periods and few, friendly phases; short lists of periods, flat patterns, gaps across 0 and histories beyond ten are general inputs.",
  files=["emerge/monitoring/patterns.go", "internal/emerge/pattern.go", "emerge/monitoring/convergence.go", "internal/emerge/convergence.go"],
  mech=[("patterns", "emerge/monitoring/patterns.go TargetPattern, PatternTemplate, PatternLibrary"), ("copy", "internal/emerge/pattern.go"), ("slope", "ConvergenceMonitor.ConvergenceRate")],
  technique="symbolic summaries by abstract interpretation, compared with a reference by random interpretation", note="Equality of summaries and reference is decided at random points per construct, on the path taken there; limits between paths are not sampled. Exact arithmetic. Bounded sizes."),
 dict(id="C38", title="A swarm and its client report how things stand now",
  statement="The coherence a swarm and its client report is the coherence of the agents' phases at the time of asking, and they report convergence exactly when it reaches the coherence the swarm was built for, also after an earlier answer and after the phases have changed. The client reports the swarm's size and agents, and the size is the number of agents asked for. Every tick of an attempt records the coherence measured in it with the swarm's convergence monitor, which counts as converged what reaches the swarm's goal and is where the time to converge comes from.",
  over=["inputs", "histories"], forall="all phases; swarms of 1, 2, 3 and 101 agents (both storages), goals of 0.3, 0.45 and 0.6; attempts of two ticks with any measurements",
  why="The tests never ask a client for its coherence or convergence; on the original code it answered 0 and false for ever, and a cached or stale answer is right as long as nothing moves.",
  files=["client/emerge/emerge.go", "emerge/swarm/swarm.go", "emerge/swarm/goal_directed.go"],
  mech=[("client", "client/emerge/emerge.go Coherence, IsConverged, Size, Agents"), ("swarm", "emerge/swarm/swarm.go CurrentCoherence, IsConverged, ConvergenceTime, New"), ("attempt", "emerge/swarm/goal_directed.go AchieveSynchronization")],
  technique="symbolic summaries by abstract interpretation, compared with a reference by random interpretation", note="Swarms are built by the analysed New; equality of summaries and reference is decided at random points on the path taken there. Bounded sizes; exact arithmetic. The clock is abstract: how long convergence took is what C26 proves of the monitor."),
 dict(id="C39", title="A recycled agent carries nothing over",
  statement="An agent returned to the agent pool is handed to it without its id, its neighbors and what it perceived. When it is handed out again it has the id asked for, no neighbors, an empty perception, full energy (100), the default frequency of 100ms, a new random phase and local goal on the circle and a new influence (0.1 to 0.2) and stubbornness (0 to 0.3), none of which depends on its former life. Gets, puts and agents in use are counted, and returning no agent changes nothing.",
  over=["inputs", "histories"], forall="all former attributes; agents with none to three neighbors, with and without a perception",
  why="The tests recycle an agent or two and look at some attributes; state left over shows only after particular former lives.",
  files=["emerge/agent/pool.go", "emerge/agent/neighbor_storage.go"],
  mech=[("pool", "emerge/agent/pool.go PoolManager.Get, Put, Stats"), ("agent", "emerge/agent/pool.go Agent.Reset, Clear")],
  technique="abstract interpretation over intervals and symbols, with independence read off the symbols", note="sync.Pool is modelled as handing out what was put. Components (decision maker, strategy, resources, goal manager) are kept by design and not covered. Up to three neighbors."),
 dict(id="C40", title="An attractor pulls by nearness, and nothing outside it",
  statement="An attractor basin has a strength clamped to [0, 1]. A state is in it exactly when its phase is at most the radius away from the target, the short way round the circle. The force on a state inside is the strength times its nearness (1 at the target, 0 at the radius), and 0 outside; a basin of radius 0 pulls nothing, and its force is still a number. The rate of convergence is the force times the agreement of the two frequencies, and never more. The adjustment goes the short way round, by the share the force says, or by a hundredth of the way where there is no force.",
  over=["inputs"], forall="all targets, strengths, radii (0 included) and states on the circle",
  why="The tests try a few states, mostly away from the seam of the circle and at generous radii; the seam, the edge and the empty basin are where the formulas break.",
  files=["internal/emerge/basin.go"],
  mech=[("basin", "internal/emerge/basin.go NewAttractorBasin, IsInBasin, DistanceToTarget"), ("pull", "internal/emerge/basin.go AttractionForce, ConvergenceRate, OptimalAdjustment")],
  technique="abstract interpretation to closed-form summaries, compared with the reference formula", note="Phases on the circle (negative phases, which C01 rules out, are treated specially by the code and not covered). Summaries are compared at random points of their domain, on the path taken there."),
]
NA = []
