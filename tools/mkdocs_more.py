INV = "modelchecker/invariants.go"
VT = "explicit TLA+ specification (spec/MCFizz.tla evaluates every assertion in every state / on every transition of the exhaustive TLC exploration); the verdict, the reported counterexample and the witnesses of the real checker are checked against TLC's graph"
VN = "Exhaustive per program: the verdict is decided by TLC's complete graph, and every step of a reported counterexample is matched against the specification. Programs are a hand-written corpus plus seeded random programs with random assertions."
VW = "Unit tests check a verdict for a few fixed models; whether the reported violation is genuine, and whether none is missed, depends on every state and every schedule of an arbitrary model."

prop("P08", "Always assertions: exact verdict with a genuine counterexample",
     "The checker reports a violation of an always assertion exactly when the assertion is false in some reachable state at a yield point (also the initial state and states after crashes, never an intermediate state inside an atomic step). The reported assertion is one that fails, and the reported counterexample is a real execution: it starts in an initial state, every step is a transition of the model, and its last state violates the assertion.",
     ["programs", "schedules", "inputs"], "all reachable states of all programs, any number of assertions", VW,
     [INV, P, "main.go", "modelchecker/graph.go"], [("evaluation at yield points", INV + ": CheckInvariantsWithProber, CheckAssertion"), ("stop at a violation", P + ": processNode, Start"), ("counterexample", "main.go: dumpFailedNode; modelchecker/visualization.go")],
     observe=["verdict on standard output", "error nodes and links files"], note=VN, technique=VT)
prop("P09", "Transition assertions relate every pair of consecutive states",
     "A transition assertion is evaluated for every transition between consecutive yield points (including steps to already known states, steps of in-flight actions, and crashes), with the state variables and role fields of both; steps that change no variable satisfy it. A violation is reported exactly when such a transition exists, and the counterexample ends with it.",
     ["programs", "schedules", "inputs"], "all transitions between yield points of all programs", VW,
     [INV, P], [("evaluation", INV + ": CheckTransitionInvariants, CheckTransitionAssertion"), ("where steps end", P + ": processNode, crashRole")],
     observe=["verdict on standard output", "error nodes and links files"], note=VN, technique=VT)
prop("P10", "Exists assertions: reported exactly when no reachable state satisfies them",
     "An exists assertion is reported as never reached exactly when it is false in every reachable state at a yield point; all such assertions are listed. The witness marks of the state graph agree with the value of the assertion in every state.",
     ["programs", "schedules", "inputs"], "all reachable states of all programs", VW,
     [INV, "main.go"], [("witness of a state", INV + ": CheckInvariantsWithProber"), ("report", INV + ": CheckSimpleExistsWitness; main.go")],
     observe=["verdict on standard output", "witness field of the state graph files"], note=VN, technique=VT)
prop("P11", "Deadlock detection: reported exactly when a reachable state has no transition",
     "With deadlock detection on, a deadlock is reported exactly when some reachable state has no outgoing transition of any action, in-flight action or delivery (a crash does not count), and the counterexample ends in such a state. A step that changes no variable counts as a transition; an action in which nothing enabling executes does not.",
     ["programs", "schedules"], "all reachable states of all programs", VW,
     ["modelchecker/markovchain.go", P, "main.go"], [("search for states without transition", "modelchecker/markovchain.go: GetAllNodes, traverseBFS"), ("enabled status", P + ": Enable"), ("report", "main.go")],
     observe=["verdict on standard output", "error nodes and links files"], note=VN, technique=VT)
prop("P12", "Liveness: violated exactly when a fair behaviour violates the assertion",
     "For `always eventually` and `eventually always` assertions the checker reports a violation exactly when some infinite behaviour of the model (or one that stops) violates the assertion and is fair: weakly fair actions are not enabled forever without being executed, strongly fair actions (per instance of a role) and in-flight actions that can go on again and again are executed again and again, every alternative of a fair choice that is offered again and again is taken again and again, and crashes happen finitely often. The counterexample is an execution of the model followed by a cycle (or by stopping) with which all of that holds.",
     ["programs", "schedules", "crash_points"], "all fair infinite behaviours of all programs", "Unit tests compare the verdict on a few models; fairness quantifies over all infinite executions of an arbitrary model.",
     [INV, "main.go"], [("fairness of a cycle", INV + ": isFairCycle, fairnessLinkName"), ("search for cycles", INV + ": CycleFinderFinal, findFairComponent"), ("assertions", INV + ": CheckStrictLiveness, AlwaysEventuallyFinal, EventuallyAlwaysFinal"), ("fairness of transitions", P + ": ForkForAction, executeCurrentThread; modelchecker/thread.go: AnyStmt")],
     observe=["verdict on standard output", "error nodes and links files"],
     note="Exhaustive per program: TLC decides the temporal property (WF/SF, spec/Fair.tla) on the complete graph of the specification; the reported cycle is embedded in that graph and TLC decides whether it is fair and violates the assertion. Programs are a hand-written corpus plus seeded random programs with random fairness.",
     technique="explicit TLA+ specification of fair behaviours (spec/Fair.tla: weak and strong fairness, fair choices, finitely many crashes) over the state graph TLC prints for spec/MCFizz.tla; TLC's liveness verdict compared with the real checker's, and its reported cycle judged by TLC")
prop("P13", "Bounds: exploration stops exactly at the configured numbers of actions",
     "No explored execution starts more actions than max_actions, no execution starts a limited action (of a role, of each instance, of one instance) more often, or more often at once, than its own limits say, and what an action in flight does after its start does not count. When every step is one action, every state that is reachable within the bounds is explored, with all its transitions if it is reachable with fewer actions than the bound, and the verdict is that of the bounded model; states at the bound are no deadlocks.",
     ["programs", "configurations"], "all values of the bounds, all programs (also with unboundedly many states)", "Unit tests use the default bound; which states lie within a bound depends on every path to them.",
     [P, "modelchecker/markovchain.go"], [("global bound", P + ": Start, YieldNode, YieldFork"), ("limits of an action", P + ": ExceedsActionCountLimits"), ("no deadlock at the bound", "modelchecker/markovchain.go: traverseBFS")],
     [("actionDepth, Stats", "number of actions started on the first path to a state", P)],
     note="Exact when the first visit of a state has the least number of actions (every step is an action) or the state determines that number; otherwise starts of actions are checked to be within the bounds and steps of in-flight actions to be complete. Merging of states with different numbers of executions of a limited action keeps the first (see DESIGN.md).",
     technique="explicit TLA+ specification (spec/Fizz.tla counts the actions that started, MayStart) explored exhaustively by TLC up to the bound; the checker's graph and verdicts are compared with it")
prop("P15", "Exploration strategy and memory modes do not change the outcome",
     "Exploring breadth first, depth first or in random order, with the queue of processed nodes, without return values in the states, or without keeping the graph yields the same verdicts, and (where a graph is written) the graph of the same model: same transitions, returned values and witnesses. Without the graph, the printed steps are the starts and choices of a real execution that ends in the violation, the number of states is that of the graph, and success is never reported for assertions that this mode cannot decide (liveness).",
     ["programs", "configurations", "schedules"], "all modes, all seeds of the random order, all programs whose exploration no bound cuts", "Unit tests run the default mode on fixed models; that an order or a compact representation loses nothing is a statement about every graph.",
     [P, "main.go", "lib/queue.go", "lib/stack.go", "lib/randomqueue.go"], [("queue of processed nodes", P + ": startProcessedQueue, publishYieldPoint, drainAndFlush"), ("without the graph", P + ": processNode, breakParentRef, extendPath; main.go"), ("orders", "lib/queue.go, lib/stack.go, lib/randomqueue.go"), ("return values on transitions only", P + ": HashCode, GetStateString")],
     observe=["state graph files", "verdict, printed steps and number of states on standard output", "error nodes and links files"],
     note="Every mode is compared with the same specification graph (not with another mode), so an error common to all modes is found, too. exists assertions are not decided without a graph (documented) and not part of this.",
     technique=TECH)
prop("P16", "Simulation: runs are behaviours, reports genuine and reproducible",
     "Every simulated run is a behaviour of the model: it starts in an initial state, each step is a transition of the model (with its choices, labels and returned values), it follows one step at a time, and all transitions of the model can occur. A violated always or transition assertion, deadlock or liveness assertion is reported only with a run that violates it, a run that violates an always or transition assertion is never reported as passed, a run is stuck only in a state without transition, the same seed gives the same run, and the seed printed with a failure reproduces it.",
     ["programs", "schedules", "configurations"], "all seeds, all programs", "Unit tests simulate fixed models with fixed seeds; that no seed yields an impossible run or a false report is a statement about every random choice.",
     [P, "main.go", "lib/randomqueue.go", "modelchecker/thread.go"], [("simulated steps", P + ": StartSimulation, hasLiveStep, intermediateStates"), ("runs and seeds", "main.go: runs of a simulation, report of a failure"), ("random order", "lib/randomqueue.go"), ("liveness of a run", "modelchecker/invariants.go: CheckStrictLiveness")],
     observe=["graph and error files of a run", "verdict and seed on standard output"],
     note="Exact for each simulated run: its graph is included in the specification's graph, the report is judged by the specification; many seeds per program, and programs small enough that the seeds together cover every first step. Crashes of roles are not simulated. Reports of unfair cycles of some programs are known findings.",
     technique="explicit TLA+ specification (spec/MCFizz.tla) explored exhaustively by TLC; every run simulated by the real checker is matched step by step against the specification's transitions and its verdict is judged there")
prop("P17", "Guided traces: what is replayed is exactly the given execution",
     "With a trace given (inline or as a file; blank lines and comments do not count) the checker explores exactly the executions of the model whose action starts and choices are those of the trace, in order, with one action at a time, all interleavings of its threads and no crashes. A trace that no execution of the model follows to its end is reported as incomplete; with an extension by N, everything up to N links further (to the end of the step) is explored. An always or transition assertion is reported as violated exactly when it is on those executions.",
     ["histories", "programs", "configurations"], "all traces, all extensions, all programs", "Unit tests replay a few traces of fixed models; that a trace selects its executions, and no others, is a statement about every trace of every model.",
     ["modelchecker/trace.go", P, "main.go"], [("selection of the next step", "modelchecker/trace.go: ShouldScheduleNode"), ("progress of the replay", P + ": processNode, Process.Fork"), ("settings forced for a trace; report", "main.go")],
     [("guidedTrace.currentIndex, extendedCount", "position in the trace", P), ("guidedTrace.LinkNames", "the trace", "modelchecker/trace.go")],
     observe=["state graph files", "verdict, warning of an incomplete trace on standard output", "error nodes and links files"],
     note="Traces are seeded random paths of the specification's graph (complete, cut, with an impossible step, and ending in an action that is blocked there); what the checker explores is compared in both directions with the product of that graph and the trace. Actions with fairness-dependent or non-printable choices are not put on traces.",
     technique="explicit TLA+ specification (spec/MCFizz.tla) explored exhaustively by TLC; behaviours generated from its graph are replayed through the real checker and the explored graph and verdict are compared with the product of specification and trace")
prop("P14", "Symmetry reduction explores every state up to renaming, and no other",
     "With nominal, ordinal, interval and rotational domains (with or without reflection) and symmetric roles, the checker explores the state graph of the model up to renaming: every transition it explores is one of the model after a renaming of its source (a permutation of a nominal domain or of the instances of a role, an order-preserving map, a shift, a rotation, a mirror image), every transition of the model is explored from some renaming of its source, and of the states without action in flight that differ only by a renaming, just one is explored. Verdicts are those of the model. values(), choices(), fresh(), choose(), min(), max() and segments() offer exactly the values in use, the values in use and one new one, and so on; values of the domain in local variables count. The limit of a domain and the divergence of an interval bound the exploration exactly.",
     ["programs", "schedules", "configurations"], "all programs that treat the values of a domain alike, all domains, all combinations of domains and roles", "Unit tests count the states of a few models; that no state is lost by merging is a statement about every pair of states of every model.",
     [P, "modelchecker/symmetry_check.go", "modelchecker/state_visitor.go", "lib/symmetry.go", "lib/starlark_types.go", "lib/starlark_role.go"], [("hash up to renaming", P + ": getSymmetryPermutations, symmetricHashWithoutClone, findVisitedSymmetric"), ("limits", "modelchecker/symmetry_check.go: CheckSymmetryConstraints"), ("values in use", "modelchecker/state_visitor.go"), ("operations of a domain", "lib/starlark_types.go: SymmetryDomain")],
     [("SymmetricValue.id", "the value, up to renaming", "lib/starlark_types.go")],
     note="Exhaustive over all schedules of each program: the specification (which has every state) is compared with the reduced graph under all renamings; programs are a corpus and seeded random ones. With --no-symmetry-reduction the whole graph is compared. Liveness under symmetry is not covered; see DESIGN.md for the restrictions on programs.",
     technique="explicit TLA+ specification with symmetric values (spec/Values.tla, spec/Fizz.tla: Active, FreshId, Segments, Normal, Spread) explored exhaustively by TLC; the checker's reduced state graph is compared with TLC's full one by modal simulation up to renaming, and the verdicts with TLC's")
prop("P18", "Channels: every message is delivered exactly once, in any order",
     "A call through a stub sends a message with the arguments as they are at the call and goes on at once; a step that aborts sends nothing. From any later state each undelivered message of each channel can be the next one to be delivered, in whatever order and number it was sent; delivering it starts the called function of the receiver with those arguments as a step of its own, and removes that message and no other. A message whose receiver cannot execute it now stays; messages outlive crashes and are not subject to the concurrency limit. Assertions, deadlocks, simulated runs, guided traces and the memory modes treat a delivery like any other transition.",
     ["programs", "schedules", "histories", "crash_points"], "all orders of delivery in all programs", "Unit tests deliver the messages of two models; that none is lost, repeated or reordered away is a statement about every order of delivery.",
     [P, "modelchecker/thread.go", "lib/starlark_channels.go"], [("sending", "modelchecker/thread.go: executeStatement (CallStmt); " + P + ": addChannelMessage"), ("delivery", P + ": scheduleChannelMessages"), ("identity of undelivered messages", P + ": HashCode, ChannelMessage.Clone")],
     [("ChannelMessages", "undelivered messages, per channel", P)],
     note="Unordered, exactly-once, fire-and-forget channels (the only kind that is implemented) between instances created in Init. Exhaustive over all schedules per program; programs are a corpus and seeded random ones (senders and receivers of several steps, choices, relays, crashes).",
     technique=TECH)

prop("P19", "Refinement: every step of the model is a step of the abstract model",
     "When a model refines another one (each seen through a function over its state), the checker reports a violation exactly when some step between two yield points (of an action, an alternative of a choice, an in-flight action, or the crash of an instance) that changes a variable or field is, seen through the views before and after, no step of the abstract model. A step of the abstract model is a step between two of its reachable states, or staying in one. Equal values of the views are the same whatever way they were built. The reported steps are a path of the model that ends with such a step, and when none is found the state graph is that of the model.",
     ["programs", "schedules", "crash_points"], "all steps of all pairs of models", "Unit tests contain no refinement; whether a step that is none of the abstract model is found depends on every reachable state and every schedule of both models.",
     [INV, "main.go", P], [("steps of the abstract model", "main.go: populateJoinHashes, addToJoinHashes"), ("judging a step", INV + ": CheckRefinement; " + P + ": processNode, crashRole"), ("report", "main.go: runRefinementModelChecking, modelCheckSingleSpec")],
     observe=["verdict on standard output", "error nodes and links files"],
     note="One abstract model per refinement (the only form the checker accepts). TLC explores both models completely; corpus of pairs with equal, coarser, split, lost and re-ordered steps and views of every kind of value, and seeded random pairs in which one is a slightly changed copy of the other.",
     technique="explicit TLA+ specification (spec/Views.tla: TLC computes the steps of the abstract model and judges every edge of the implementation); verdict and counterexample of the real checker are checked against TLC's graph")
prop("P20", "Composition: assertions hold for every step the models take together",
     "When a model composes several others, the parts take a step together when their views are equal before the step and equal after it (every part may also stay as it is, but not all of them at once). The checker reports an error exactly when such a joint step leads to a joint state in which an always assertion is false or violates a transition assertion; the reported assertions are those that fail for the reported joint state or step, and that state or step is one of the composition. The result does not depend on the order or the number of the parts, or on whether a step changes variables or fields of instances.",
     ["programs", "schedules", "configurations"], "all tuples of steps of all tuples of models", "Unit tests contain no composition; joint steps are the tuples of steps of all parts, in every combination of reachable states.",
     ["main.go", INV, "modelchecker/thread.go"], [("steps of the parts by their views", "main.go: populateJoinHashes, addToJoinHashes"), ("joint steps", "main.go: ComposeTransitions, cartesianProduct"), ("joint state", "modelchecker/thread.go: NewComposedHeap"), ("report", "main.go: dumpComposedFailedTransition, GenerateTransitionFailurePath")],
     observe=["report of the composition on standard output"],
     note="Two and three parts, always and transition assertions (the checker evaluates no others for compositions, and not in the initial joint state when no joint step leads back to it). TLC enumerates the joint steps completely; corpus and seeded random pairs of models.",
     technique="explicit TLA+ specification (spec/Compose.tla: TLC enumerates the joint steps of the parts and evaluates the assertions); the report of the real checker is checked against it")
prop("P21", "next_states(): assertions see exactly the transitions that are possible",
     "In an assertion, next_states() is the list of the transitions possible in the state: one for each action of the model and of every instance, each action in flight and each undelivered message that can take a step, in every way its choices can be made, and nothing for those that cannot (including those that turn out to be disabled midway). Each has its kind, name, action and instance, and the state at its first yield point. Bounds (max_actions, limits of concurrent actions or of single actions) remove none; crashes are not among them. The verdict, counterexample and witnesses of always and exists assertions are those of that list in every reachable state, also in states after a crash and at every yield point inside a parallel block, and looking ahead leaves the state graph as it is.",
     ["programs", "schedules", "crash_points", "configurations"], "all reachable states of all programs", "Unit tests look ahead in a few states of four models; that no possible transition is missed and no impossible one listed is a statement about every state of every program.",
     [P, INV], [("successors", P + ": probeNextStates, makeProber"), ("the builtin", INV + ": CheckAssertion"), ("where assertions are evaluated", P + ": processNode, crashThread, crashRole")],
     observe=["verdict on standard output", "error nodes and links files", "witness field of the state graph files"],
     note="Exhaustive per program: TLC computes the possible transitions of every reachable state and the value of every assertion there. Corpus plus seeded random programs with random assertions. The number of transitions is compared for programs without parallel blocks only, where the state before the choice of the next statement is not counted twice. Not in simulated runs with crashes.",
     technique="explicit TLA+ specification (spec/Fizz.tla: NextStates; TLC evaluates every assertion in every reachable state); the verdict, the reported counterexample and the witnesses of the real checker, in several modes, are checked against TLC's graph")
