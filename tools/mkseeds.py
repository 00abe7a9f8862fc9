"""Author of the planted bugs: python3-vt tools/mkseeds.py regenerates seeded/ against /repo's HEAD."""
import os, sys
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.path.dirname(os.path.abspath(__file__))]
from seed import make, PASS
from lib.fz import *
from lib.fz import PASS as PASS_
from lib.corpus import inc, xy, any_, ints
from seed import PASS
TH="modelchecker/thread.go"; PR="modelchecker/processor.go"; CL="modelchecker/clone.go"; IV="modelchecker/invariants.go"
O=dict(deadlock_detection=False, crash_on_yield=False)
C=dict(deadlock_detection=False, crash_on_yield=True)
def A(n,e): return INV(n,"always",e)
def E(n,e): return INV(n,"exists",e)

# --- P03: mutable value inside a tuple is shared between the branches of a choice
make("p03-tuple-alias","P03",[(CL,'''	case "tuple":
		newTuple := starlark.Tuple{}
		// Tuple is a value type (not a pointer), so refs caching won't work
		// For tuples, recursively clone each element
		iterable := value.(starlark.Iterable)
		newList, err := deepCloneIterableToList(iterable, refs, permutations, alt)
		if err != nil {
			return nil, err
		}
		for _, v := range newList {
			newTuple = append(newTuple, v)
		}
		return newTuple, nil
''','''	case "tuple":
		return value, nil // tuples are immutable
''')],
 [(PROG("t",[ASSIGN("p",TUP(I(0),LIST()))],[ACTION("Add","atomic",REQUIRE(EQ(CALL("len",IDX(V("p"),I(1))),I(0))),
     any_("i",ints(1,2),MUT(IDX(V("p"),I(1)),"append",V("i"))))],invs=[A("One",LE(CALL("len",IDX(V("p"),I(1))),I(1)))],opts=O),PASS,[])],
 "a mutable collection inside a tuple, mutated in a branch of a nondeterministic choice (or by two actions enabled in the same state)",
 "tuples are no longer copied when the state is forked, so a list inside a tuple is shared between branches")

# --- P06: role references in a serial loop over instances go stale after the first yield
make("p06-loop-roles-stale","P06",[(TH,'''		for i, v := range s.loopRange {
			cloned, err := deepCloneStarlarkValueWithPermutations(v, refs, permutations, alt)
			PanicOnError(err)
			newScope.loopRange[i] = cloned
		}
''','''		for i, v := range s.loopRange {
			if permutations == nil {
				// the elements of the loop are never reassigned
				newScope.loopRange[i] = v
				continue
			}
			cloned, err := deepCloneStarlarkValueWithPermutations(v, refs, permutations, alt)
			PanicOnError(err)
			newScope.loopRange[i] = cloned
		}
''')],
 [(PROG("t",[ASSIGN("a",NEWROLE("Node")),ASSIGN("b",NEWROLE("Node")),ASSIGN("ns",LIST(V("a"),V("b"))),ASSIGN("done",I(0))],
   [ACTION("All","serial",REQUIRE(EQ(V("done"),I(0))),FOR("serial","n",V("ns"),ASSIGN(ATTR(V("n"),"u"),I(1))),ASSIGN("done",I(1)))],
   roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("u"),I(0)))])],
   invs=[A("Both",OR(EQ(V("done"),I(0)),AND(EQ(ATTR(V("a"),"u"),I(1)),EQ(ATTR(V("b"),"u"),I(1)))))],opts=O),PASS,[])],
 "a serial (yielding) for loop over a collection of role instances that updates their fields",
 "the remaining elements of a loop are not cloned when the state is forked: after a yield they denote instances of an older state")

# --- P05: parameters that shadow state variables
make("p05-param-shadow","P05",[(PR,'''	if _, ok := frame.vars[key]; ok {
		frame.vars[key] = val
		return
	}
	if p.Heap.update(key, val) {
		// if no scoped variable exists, check if it is state
		// variable, then update the state variable
		return
	}
''','''	if p.Heap.update(key, val) {
		// if no scoped variable exists, check if it is state
		// variable, then update the state variable
		return
	}
	if _, ok := frame.vars[key]; ok {
		frame.vars[key] = val
		return
	}
''')],
 [(PROG("t",xy(0,0),[ACTION("Go","atomic",FCALL("f",I(1),var="y"))],funcs=[FUNC("f","atomic",["x"],ASSIGN("x",ADD(V("x"),I(1))),RETURN(I(2)))],
   invs=[A("X0",EQ(V("x"),I(0)))],opts=O),PASS,[])],
 "a function whose parameter has the name of a state variable and that assigns to the parameter",
 "assigning to a parameter that shadows a state variable changes the state variable")

# --- P06: threads on different instances of the same role are the same thread
make("p06-frame-instance","P06",[(TH,'h.Write([]byte(c.obj.RefString()))','h.Write([]byte(c.obj.Name))')],
 [(PROG("t",[ASSIGN("a",NEWROLE("Node")),ASSIGN("b",NEWROLE("Node")),ASSIGN("x",I(0))],[],
   roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("u"),I(0))),ACTION("Go","serial",REQUIRE(EQ(V("x"),I(0))),ASSIGN("x",I(1)),ASSIGN(SELF("u"),I(1)))])],
   invs=[E("BGoes",EQ(ATTR(V("b"),"u"),I(1))),E("AGoes",EQ(ATTR(V("a"),"u"),I(1)))],opts=O),PASS,[])],
 "two instances of one role in the same field state, one of which is in the middle of an action",
 "in-flight actions of different instances of a role are identified, so what the second one would do is never explored")

# --- P07: initial values of ephemeral fields are not a copy
make("p07-init-alias","P07",[(TH,"attr, err := fieldsClonedStruct.Attr(fieldName)","attr, err := fields.Attr(fieldName)")],
 [(PROG("t",[ASSIGN("n",NEWROLE("Node")),MUT(ATTR(V("n"),"log"),"append",I(7))],[],
   roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("log"),LIST())),ACTION("Go","atomic",REQUIRE(LT(CALL("len",SELF("log")),I(2))),MUT(SELF("log"),"append",I(1)))],ephemeral=["log"])],
   invs=[E("Lost",EQ(CALL("len",ATTR(V("n"),"log")),I(0)))],opts=C),PASS,[])],
 "an ephemeral field holding a mutable collection that is modified in place between the role's Init and the first yield",
 "the values that ephemeral fields return to on a crash share the live collection instead of a copy of what Init left")

# --- P07: per-action crash_on_yield looked up by the wrong frame
make("p07-crash-option-frame","P07",[(PR,'frameName := node.Process.currentThread().Stack.RawArray()[0].Name','frameName := node.Process.currentThread().currentFrame().Name')],
 [(PROG("t",[ASSIGN("s",NEWROLE("Srv")),ASSIGN("c",NEWROLE("Cli")),ASSIGN("x",I(0))],[ACTION("Obs","atomic",REQUIRE(EQ(V("x"),I(1))),ASSIGN("x",I(5)))],
   roles=[ROLE("Srv",[ACTION("Init","atomic",ASSIGN(SELF("v"),I(0)))],[FUNC("put","serial",["z"],ASSIGN("x",V("z")),ASSIGN(SELF("v"),V("z")),ASSIGN("x",I(2)))]),
          ROLE("Cli",[ACTION("Go","serial",REQUIRE(EQ(V("x"),I(0))),FCALL("put",I(1),recv="s"),ASSIGN("x",I(3)))])],
   opts=dict(C,max_concurrent_actions=1,max_actions=5),aopts={"Cli.Go":{"crash_on_yield":False}},
   invs=[A("NoLoss",NOT(AND(EQ(V("x"),I(5)),EQ(ATTR(V("s"),"v"),I(0)))))]),PASS,[])],
 "crash_on_yield disabled for an action that yields inside a function it calls on another instance",
 "the per-action crash option is looked up with the name of the innermost function, so the action crashes although that is disabled")

# --- P09: transition assertions are only evaluated for steps to new states
make("p09-visited-skip","P09",[(PR,'''		failedInvariants := CheckTransitionInvariants(node.Process)
		if len(failedInvariants[0]) > 0 {
			node.Inbound[0].FailedInvariants = failedInvariants
			if''','''		var failedInvariants map[int][]int
		if _, known, _ := p.findVisitedSymmetric(node); !known || p.experimentalNoGraph {
			failedInvariants = CheckTransitionInvariants(node.Process)
		}
		if len(failedInvariants[0]) > 0 {
			node.Inbound[0].FailedInvariants = failedInvariants
			if''')],
 [(PROG("t",[ASSIGN("x",I(0))],[ACTION("Up","atomic",REQUIRE(LT(V("x"),I(2))),ASSIGN("x",ADD(V("x"),I(1)))),ACTION("Back","atomic",REQUIRE(EQ(V("x"),I(2))),ASSIGN("x",I(0)))],
   invs=[INV("Mono","transition",LE(ATTR(V("before"),"x"),ATTR(V("after"),"x")),["before","after"])],opts=O),"FAILED",[])],
 "a violating step that leads to a state reached before by another path",
 "transition assertions are skipped for steps that lead to an already visited state")

# --- P04: finished statements of a parallel block share their memory between the branches
make("p04-skip-share","P04",[(TH,"skipstmts: slices.Clone(s.skipstmts),","skipstmts: s.skipstmts,")],
 [(PROG("t",[ASSIGN("s",I(0)),ASSIGN("y",I(0))],[ACTION("Go","serial",REQUIRE(EQ(V("y"),I(0))),PARALLEL(*[ASSIGN("s",ADD(V("s"),I(10**i))) for i in range(5)]),ASSIGN("y",I(1)))],
   invs=[A("Once",OR(EQ(V("y"),I(0)),EQ(V("s"),I(11111))))],opts=dict(O,max_concurrent_actions=1)),PASS,[])],
 "a parallel block with at least five statements",
 "the branches of a parallel block share the list of finished statements, so that a statement is executed twice and another one never")

# --- P04: remaining elements of a parallel loop are not part of the state
make("p04-loop-rest","P04",[(TH,"h.Write([]byte(fmt.Sprintln(s.loopRange)))","h.Write([]byte(fmt.Sprintln(len(s.loopRange))))")],
 [(PROG("t",[ASSIGN("c",I(0)),ASSIGN("y",I(0))],[ACTION("Go","serial",REQUIRE(EQ(V("c"),I(0))),FOR("parallel","i",ints(1,2,3),ATOMIC(ASSIGN("c",ADD(V("c"),I(1))),IF((EQ(V("c"),I(3)),[ASSIGN("y",V("i"))])))))],
   invs=[E("Last%d"%k,EQ(V("y"),I(k))) for k in (1,2,3)],opts=dict(O,max_concurrent_actions=1)),PASS,[])],
 "a parallel for loop with different orders that lead to the same variables but leave different elements",
 "states in a parallel loop with different remaining elements are merged when their number is the same")

# --- P10: states with an action in flight are no witnesses
make("p10-inflight-witness","P10",[(IV,"		if !node.IsYieldNode() {\n			continue","		if !node.IsYieldNode() || node.Process.GetThreadsCount() > 0 {\n			continue")],
 [(PROG("t",xy(0,0),[ACTION("Go","serial",ASSIGN("x",I(1)),ASSIGN("x",I(0)))],invs=[E("One",EQ(V("x"),I(1)))],opts=O),PASS,[])],
 "an exists assertion that only holds while an action is in flight",
 "exists assertions are reported as never reached when they hold only between the statements of serial actions")

# --- P10: two exists assertions that hold in the same state
make("p10-delete-order","P10",[(IV,'''		for k := len(satisfiedInvariants) - 1; k >= 0; k-- {
			index := satisfiedInvariants[k]
			existsInvariantPositions = slices.Delete(existsInvariantPositions, index, index+1)
		}''','''		for _, index := range satisfiedInvariants {
			if index < len(existsInvariantPositions) {
				existsInvariantPositions = slices.Delete(existsInvariantPositions, index, index+1)
			}
		}''')],
 [(PROG("t",[ASSIGN("x",I(0))],[ACTION("Go","atomic",ASSIGN("x",SUB(I(1),V("x"))))],invs=[E("Ex0",EQ(V("x"),I(1))),E("Ex1",GE(V("x"),I(1))),E("Ex2",EQ(V("x"),I(5)))],opts=O),"Ex2",[])],
 "three exists assertions of which two are first satisfied by the same state and a later one is not",
 "an assertion that is never reached is dropped from the report instead of a satisfied one")

# --- P05: passing None is not passing an argument
make("p05-none-arg","P05",[(TH,"if _, ok := newFrame.vars[param.Name]; !ok {","if v, ok := newFrame.vars[param.Name]; !ok || v == starlark.None {")],
 [(PROG("t",[ASSIGN("x",I(0))],[ACTION("Go","atomic",FCALL("g",var="n"),FCALL("f",V("n"),var="x"))],
   funcs=[FUNC("g","atomic",[],PASS_()),FUNC("f","atomic",["z"],IF((EQ(V("z"),I(5)),[RETURN(I(1))])),RETURN(I(0)),defaults={"z":I(5)})],
   invs=[A("NotDefault",EQ(V("x"),I(0)))],opts=O),PASS,[])],
 "a call that passes the value None for a parameter with a default",
 "a parameter gets its default value although the caller passed None for it")

# --- P06: instances found by their number only
make("p06-role-number","P06",[(TH,'''			if r, ok := x.(*lib.Role); ok {
				for _, role := range fork.Roles {
					if r.RefString() == role.RefString() {''','''			if r, ok := x.(*lib.Role); ok {
				for _, role := range fork.Roles {
					if r.GetRef() == role.GetRef() {''')],
 [(PROG("t",[ASSIGN("a",NEWROLE("N1")),ASSIGN("b",NEWROLE("N2")),ASSIGN("l",LIST(V("a"),V("b")))],[ACTION("Go","atomic",any_("r",V("l"),ASSIGN(ATTR(V("r"),"u"),I(1))))],
   roles=[ROLE(n,[ACTION("Init","atomic",ASSIGN(SELF("u"),I(0)))]) for n in ("N1","N2")],
   invs=[E("B",EQ(ATTR(V("b"),"u"),I(1)))],opts=O),PASS,[])],
 "a choice over a collection with instances of different roles",
 "a choice of an instance picks the instance of another role with the same number")

# --- P02: an action whose called function is running is not counted as concurrent
make("p02-conc-callee","P02",[(PR,"		rootFrame := frames[0]","		rootFrame := frames[len(frames)-1]")],
 [(PROG("t",[ASSIGN("s",NEWROLE("Srv")),ASSIGN("c",NEWROLE("Cli")),ASSIGN("x",I(0))],[],
   roles=[ROLE("Srv",[ACTION("Init","atomic",ASSIGN(SELF("v"),I(0)))],[FUNC("put","serial",[],ASSIGN("x",ADD(V("x"),I(1))),ASSIGN("x",SUB(V("x"),I(1))))]),
          ROLE("Cli",[ACTION("Go","serial",FCALL("put",recv="s"),ASSIGN("x",V("x")))])],
   invs=[A("One",LE(V("x"),I(1)))],opts=dict(O,max_concurrent_actions=2),aopts={"Cli.Go":{"max_concurrent_actions":1}}),PASS,[])],
 "a limit on the concurrency of an action that yields inside a function it calls on another instance",
 "the limit on concurrent executions of an action does not count those that are in a called function")

# --- P07: a crash abandons the wrong actions
# --- P03: values of generic maps are shared between branches
make("p03-genericmap-share","P03",[(CL,'''			clonedValue, err := deepCloneStarlarkValueWithPermutations(value, refs, permutations, alt)
			if err != nil {
				return nil, err
			}
			newMap.SetKey(clonedKey, clonedValue)''','''			newMap.SetKey(clonedKey, value)''')],
 [(PROG("t",[ASSIGN("m",GMAP((I(1),LIST())))],[ACTION("Add","atomic",REQUIRE(EQ(CALL("len",IDX(V("m"),I(1))),I(0))),any_("i",ints(1,2),MUT(IDX(V("m"),I(1)),"append",V("i"))))],
   invs=[A("One",LE(CALL("len",IDX(V("m"),I(1))),I(1)))],opts=O),PASS,[])],
 "a mutable collection as a value of a genericmap that is modified in place in two branches",
 "the values of genericmaps are shared between the states instead of copied")

# --- P08: assertions are not evaluated again when no state variable changed
make("p08-heap-same","P08",[(IV,'''				passed = CheckAssertion(process, invariant, j, prober)
''','''				if prev := process.Parent; len(process.Threads) > 1 && prev.IsYieldNode() && prev.Heap.HashCode() == process.Heap.HashCode() && slices.Contains(invariant.TemporalOperators, "always") {
					// nothing the assertion refers to has changed
					continue
				}
				passed = CheckAssertion(process, invariant, j, prober)
''')],
 [(PROG("t",[ASSIGN("n",NEWROLE("N"))],[],roles=[ROLE("N",[ACTION("Init","atomic",ASSIGN(SELF("a"),I(0))),ACTION("Up","serial",ASSIGN(SELF("a"),ADD(SELF("a"),I(1))),ASSIGN(SELF("a"),SUB(SELF("a"),I(1))))])],
   invs=[A("Two",LT(ATTR(V("n"),"a"),I(2)))],opts=dict(O,max_concurrent_actions=2)),"FAILED",[])],
 "an always assertion about role fields violated by a step of one of several concurrent actions that changes no state variable",
 "always assertions are not evaluated in states that differ from the previous one only in fields of roles while several actions are in flight")

# --- P11: transitions to crashed states keep a model alive
make("p11-role-crash-live","P11",[(PR,'return linkName == "crash" || strings.HasPrefix(linkName, "crash-role")','return linkName == "crash" || strings.HasPrefix(linkName, "crash-role#")')],
 [(PROG("t",[ASSIGN("n",NEWROLE("N"))],[],roles=[ROLE("N",[ACTION("Init","atomic",ASSIGN(SELF("a"),I(0))),ACTION("Up","atomic",REQUIRE(EQ(SELF("a"),I(0))),ASSIGN(SELF("a"),I(1)))],ephemeral=["a"])],
   invs=[],opts=dict(crash_on_yield=True)),"DEADLOCK detected",[])],
 "a state whose only outgoing transition is the crash of an instance, leading to a state that is live",
 "the crash of an instance counts as a transition that resolves a deadlock")

def AE(n,e): return INV(n,"always-eventually",e)
def EA(n,e): return INV(n,"eventually-always",e)
def fact(n,f,*b): return ACTION(n,"atomic",*b,fair=f)
# --- P12: fair choices of the instances of a role are not told apart
make("p12-choice-instance","P12",[(IV,'''		linkName = linkName + "|" + node.currentThread().currentPc()
		if node.currentThread().currentFrame().obj != nil {
			linkName = linkName + "|" + node.currentThread().currentFrame().obj.RefStringShort()
		}
		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
	} else if isThreadLink {''','''		linkName = linkName + "|" + node.currentThread().currentPc()
		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
	} else if isThreadLink {''')],
 [(PROG("t",[ASSIGN("n",NEWROLE("N")),ASSIGN("q",NEWROLE("N"))],[],roles=[ROLE("N",[ACTION("Init","atomic",ASSIGN(SELF("a"),I(0))),
     ACTION("Flip","atomic",CHOOSE("i",LIST(I(0),I(1)),fair="strong"),ASSIGN(SELF("a"),V("i")),fair="strong")])],
   invs=[AE("Q",EQ(ATTR(V("q"),"a"),I(1)))],opts=dict(O,max_concurrent_actions=1)),PASS,[])],
 "a fair choice in an action of a role with two instances, and a liveness assertion about one of them",
 "an alternative of a fair choice taken by one instance counts for the other instance, too")

# --- P12: a transition into a known state gets the fairness of the action that found the state first
make("p12-merge-fairness","P12",[(PR,'''		Fairness:       n.Inbound[0].Fairness,
		ChoiceFairness: n.Inbound[0].ChoiceFairness,
		Messages:       n.Inbound[0].Messages,
		ReqId:          n.Inbound[0].ReqId,
		Returns:        n.Inbound[0].Returns,
	}
''','''		Fairness:       other.Inbound[0].Fairness,
		ChoiceFairness: n.Inbound[0].ChoiceFairness,
		Messages:       n.Inbound[0].Messages,
		ReqId:          n.Inbound[0].ReqId,
		Returns:        n.Inbound[0].Returns,
	}
''')],
 [(PROG("t",xy(),[fact("Down",None,REQUIRE(EQ(V("y"),I(0))),ASSIGN("x",I(1))),fact("Set","weak",REQUIRE(EQ(V("x"),I(0))),ASSIGN("x",I(1)))],
   invs=[EA("One",EQ(V("x"),I(1)))],opts=dict(O,max_concurrent_actions=1)),PASS,[])],
 "a fair action that leads only to a state that an unfair action reaches first",
 "a transition into a state that was found before carries the fairness of the transition that found it")

# --- P12: states right after a crash do not count
make("p12-crash-state","P12",[(IV,'''				return n.Process.GetThreadsCount() == 0 || n.Name == "yield", n.Process.Witness[i][j]
			}
			eventuallyAlways := false''','''				return (n.Process.GetThreadsCount() == 0 && n.Name != "crash") || n.Name == "yield", n.Process.Witness[i][j]
			}
			eventuallyAlways := false''')],
 [(PROG("t",xy(),[ACTION("A","serial",REQUIRE(EQ(V("y"),I(0))),ASSIGN("x",I(1)),ATOMIC(ASSIGN("x",I(0)),ASSIGN("y",I(1))))],
   invs=[EA("Zero",EQ(V("x"),I(0)))],opts=dict(C,max_concurrent_actions=1)),"FAILED: Liveness",[])],
 "a liveness assertion that is violated only by stopping in a state that a crash leads to",
 "states that were found through a crash are ignored by the liveness check")

def up_(v): return ASSIGN(v,ADD(V(v),I(1)))

# ================================================================== P13, P15, P16
NODE2=[ASSIGN("a",NEWROLE("Node")),ASSIGN("b",NEWROLE("Node"))]
make("p13-instance-conc","P13",[(PR,'''		if int(perRoleActionConcurrency) > 0 && concurrentStats[actionName] >= int(perRoleActionConcurrency) {
''','''		if int(perRoleActionConcurrency) > 0 && concurrentStats[role.Name+"#."+action.Name] >= int(perRoleActionConcurrency) {
''')],
 [(PROG("t",NODE2,[],roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("u"),I(0))),ACTION("W","serial",REQUIRE(EQ(SELF("u"),I(0))),ASSIGN(SELF("u"),I(1)),ASSIGN(SELF("u"),I(2)))])],
   aopts={"Node#.W":{"max_concurrent_actions":1}},invs=[A("NotBoth",NOT(AND(EQ(ATTR(V("a"),"u"),I(1)),EQ(ATTR(V("b"),"u"),I(1)))))],opts=dict(O,max_concurrent_actions=2)),"FAILED: Model checker failed. Invariant: +NotBoth",[])],
 "a limit of concurrent executions per instance (Role#.Action) and two instances whose actions are in flight together",
 "the limit of concurrent executions of an action on each instance counts the executions on all instances")
make("p13-limit-total","P13",[(PR,'''		if strings.HasPrefix(k, role.Name+"#") && strings.HasSuffix(k, "."+action.Name) {
			actionCount += count
		}
''','''		if strings.HasPrefix(k, role.Name+"#") && strings.HasSuffix(k, action.Name) {
			actionCount += count
		}
''')],
 [(PROG("t",[ASSIGN("a",NEWROLE("Node"))],[],roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("u"),I(0)),ASSIGN(SELF("v"),I(0))),
    ACTION("Set","atomic",REQUIRE(LT(SELF("u"),I(3))),ASSIGN(SELF("u"),ADD(SELF("u"),I(1)))),ACTION("ReSet","atomic",REQUIRE(LT(SELF("v"),I(3))),ASSIGN(SELF("v"),ADD(SELF("v"),I(1))))])],
   aopts={"Node.Set":{"max_actions":1}},invs=[E("Both",AND(EQ(ATTR(V("a"),"u"),I(1)),EQ(ATTR(V("a"),"v"),I(3)))),A("Never",NOT(AND(EQ(ATTR(V("a"),"u"),I(1)),EQ(ATTR(V("a"),"v"),I(1)))))],opts=O),"FAILED: Model checker failed. Invariant: +Never",[]),
  (PROG("t",[ASSIGN("a",NEWROLE("Node"))],[],roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("u"),I(0)),ASSIGN(SELF("v"),I(0))),
    ACTION("Set","atomic",REQUIRE(EQ(SELF("v"),I(1))),ASSIGN(SELF("u"),I(1))),ACTION("ReSet","atomic",REQUIRE(EQ(SELF("v"),I(0))),ASSIGN(SELF("v"),I(1)))])],
   aopts={"Node.Set":{"max_actions":1}},invs=[E("Done",EQ(ATTR(V("a"),"u"),I(1)))],opts=O),PASS,[])],
 "an action of a role with a limit, whose name is the end of another action's name",
 "the limit of an action of a role also counts the actions whose names end with its name")
make("p13-stats-share","P13",[(PR,'''	for k, v := range s.Counts {
		stats.Counts[k] = v
	}
	return stats
''','''	if len(s.Counts) <= 1 {
		// nothing else to tell apart yet
		stats.Counts = s.Counts
		return stats
	}
	for k, v := range s.Counts {
		stats.Counts[k] = v
	}
	return stats
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",REQUIRE(LT(V("x"),I(3))),up_("x")),ACTION("Bb","atomic",REQUIRE(EQ(V("y"),I(0))),ASSIGN("y",I(1)))],
   aopts={"Bb":{"max_actions":1}},invs=[E("Late",AND(EQ(V("x"),I(3)),EQ(V("y"),I(1)))),A("No",NOT(AND(EQ(V("x"),I(2)),EQ(V("y"),I(1)))))],opts=O),"FAILED: Model checker failed. Invariant: +No",[]),
  (PROG("t",xy(),[ACTION("A","atomic",REQUIRE(LT(V("x"),I(3))),any_("i",ints(1,2),ASSIGN("x",ADD(V("x"),V("i"))))),ACTION("Bb","atomic",REQUIRE(EQ(V("x"),I(3))),ASSIGN("y",I(1)))],
   aopts={"A":{"max_actions":3},"Bb":{"max_actions":1}},invs=[E("Late",AND(EQ(V("x"),I(3)),EQ(V("y"),I(1))))],opts=O),PASS,[])],
 "limits of actions and branches that start the same action from one state",
 "the counters of executed actions are shared between the branches")
make("p15-dedup-reset","P15",[(PR,'''		queueLenBefore := p.queue.Len()
		p.dedupHitsInExpansion = 0
''','''		queueLenBefore := p.queue.Len()
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",REQUIRE(LT(V("x"),I(3))),up_("x")),ACTION("Bb","atomic",REQUIRE(LT(V("x"),I(3))),up_("x"))],opts=dict(O,deadlock_detection=True)),"DEADLOCK",["--experimental_no_graph","--experimental_processed_queue"])],
 "without the graph and with the queue of processed nodes: a deadlock that is met after some transition led to a visited state",
 "transitions to visited states are counted over the whole exploration, which hides later deadlocks")
make("p16-seed","P16",[("main.go",'''			if simulation {
				fmt.Println("seed:", p1.Seed)
			}
			dumpFailedNode(''','''			if simulation {
				fmt.Println("seed:", seed)
			}
			dumpFailedNode(''')],
 [(PROG("t",xy(),[ACTION("A","atomic",up_("x"),REQUIRE(LT(V("x"),I(9)))),ACTION("Bb","atomic",REQUIRE(EQ(V("x"),I(2))),ASSIGN("y",I(1)))],invs=[A("Zero",EQ(V("y"),I(0)))],opts=O),"^seed: -?[1-9]",["--simulation","--max_runs","200"])],
 "a failure of one of several simulated runs without a seed given",
 "the seed reported with a failed simulated run is that of the command line")
make("p16-clear-bound","P16",[("lib/randomqueue.go",'''    if n > len(r.arr) {
        n = len(r.arr)
    }
    r.arr = r.arr[n:]
''','''    if n >= len(r.arr) {
        // nothing was added since
        return
    }
    r.arr = r.arr[n:]
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",up_("x")),ACTION("Bb","atomic",up_("y"))],opts=dict(O,max_actions=2)),"^Stopped after 1 runs",["--simulation","--seed","3","--max_runs","1"])],
 "a simulated run that ends at a state where no action may start (max_actions)",
 "the alternatives not taken by a simulated run stay in the queue when its last state schedules nothing",
 script="""n=$(grep -c 'label="yield' "$T/spec/out/graph.dot"); [ "$n" = 3 ] || { echo "the run of 2 actions has $n states"; exit 1; }""")

# ================================================================== P14, P17
SV="modelchecker/state_visitor.go"; SY="lib/symmetry.go"; SC="modelchecker/symmetry_check.go"; TR="modelchecker/trace.go"
def DO(doms,**k): return dict(extra={"doms":list(doms)},**k)
O1=dict(O,max_concurrent_actions=1)
IDS=DOM("IDS","id","nominal",3)
FR=DOP("IDS","fresh")
make("p14-caller-frame","P14",[(SV,'''		frames := thread.Stack.RawArray()
		for _, frame := range frames {
''','''		// the variables of the callers are not visible to the running function
		frames := thread.Stack.RawArray()
		for _, frame := range frames[len(frames)-1:] {
''')],
 [(PROG("t",[ASSIGN("s",SET())],[ACTION("New","atomic",REQUIRE(EQ(CALL("len",V("s")),I(0))),ASSIGN("i",FR),FCALL("mk",var="j"),MUT("s","add",V("i")),MUT("s","add",V("j")))],
    funcs=[FUNC("mk","atomic",[],ASSIGN("k",FR),RETURN(V("k")))],invs=[A("Two",NE(CALL("len",V("s")),I(1)))],opts=O1,extra={"doms":[IDS]}),PASS,[])],
 "a function that allocates a fresh value while its caller holds one that is stored nowhere else",
 "values held only by local variables of calling functions count as unused, so fresh() returns them again")
make("p14-loop-range","P14",[(SV,'''	for _, value := range scope.loopRange {
		visitStarlarkValue(value, visitor, visited)
	}
''','''''')],
 [(PROG("t",[ASSIGN("c",SET()),MUT("c","add",FR),MUT("c","add",FR),ASSIGN("w",N()),ASSIGN("n",N()),ASSIGN("on",I(0))],
   [ACTION("Walk","serial",REQUIRE(EQ(V("on"),I(0))),ASSIGN("on",I(1)),FOR("serial","i",V("c"),ASSIGN("w",V("i")),ASSIGN("c",SET())),ASSIGN("on",I(2))),
    ACTION("New","atomic",REQUIRE(EQ(V("on"),I(1))),REQUIRE(EQ(V("n"),N())),REQUIRE(EQ(CALL("len",V("c")),I(0))),ASSIGN("n",FR))],
   invs=[A("Other",OR(EQ(V("n"),N()),NE(V("n"),V("w"))))],opts=dict(O,max_concurrent_actions=2),extra={"doms":[IDS]}),PASS,[])],
 "a yielding loop over values that were dropped from the state meanwhile, and a fresh value taken before the loop goes on",
 "values that only the rest of a running loop holds count as unused, so fresh() returns them again")
make("p14-segment-before","P14",[(SY,'''			if !hasBefore || used[0] <= beforeID {
''','''			if !hasBefore || used[0] < beforeID {
''')],
 [(PROG("t",[ASSIGN("a",DOP("TS","fresh")),ASSIGN("b",N())],[ACTION("Ins","atomic",REQUIRE(EQ(V("b"),N())),CHOOSE("g",SEGS("TS",None,V("a"))),ASSIGN("b",GAPFRESH("g")))],
   invs=[E("Less",AND(NE(V("b"),N()),LT(V("b"),V("a"))))],opts=O1,extra={"doms":[DOM("TS","ts","ordinal",3)]}),PASS,[])],
 "segments(before=x) where x is the least value in use",
 "the gap below the least value is not offered when it ends at the bound")
make("p14-rot-tie","P14",[(SY,'''			} else if cmp == 0 {
				best = append(best, c)
			}
''','''			}
''')],
 [(PROG("t",[ASSIGN("a",N()),ASSIGN("b",N())],[ACTION("A","atomic",REQUIRE(EQ(V("a"),N())),CHOOSE("a",DOP("R","values"))),ACTION("Bb","atomic",REQUIRE(EQ(V("b"),N())),CHOOSE("b",DOP("R","values")))],
   opts=O1,extra={"doms":[DOM("R","n","rotational",4,mat=True)]}),PASS,[])],
 "a rotational domain and a set of used values that is itself symmetric under a rotation (opposite positions of a ring of 4)",
 "of several rotations that look alike only one is tried, so states that differ by a rotation are explored twice",
 script="""n=$(grep -oE 'Unique states: [0-9]+' <<<"$OUT" | tail -1); [ "$n" = "Unique states: 7" ] || { echo "$n"; exit 1; }""")
make("p14-arith-limit","P14",[(SC,'''		if len(ids) > domain.Limit {
''','''		if domain.Kind == lib.SymmetryKindOrdinal && len(ids) > domain.Limit {
''')],
 [(PROG("t",[ASSIGN("a",DOP("TK","min")),ASSIGN("b",V("a")),ASSIGN("c",V("a"))],[ACTION("A","atomic",ASSIGN("a",ADD(V("a"),I(1)))),ACTION("Bb","atomic",ASSIGN("b",ADD(V("b"),I(1)))),ACTION("C","atomic",ASSIGN("c",ADD(V("c"),I(1))))],
   invs=[A("Two",OR(OR(EQ(V("a"),V("b")),EQ(V("b"),V("c"))),EQ(V("a"),V("c"))))],opts=O1,extra={"doms":[DOM("TK","tk","interval",2,div=4)]}),PASS,[])],
 "an interval domain whose limit is less than its divergence allows, and arithmetic that creates more distinct values than the limit",
 "the limit of an interval domain is not enforced for values made by arithmetic")
make("p14-role-order","P14",[(PR,'''		return p.Roles[i].GetRef() < p.Roles[j].GetRef()
	})

	// 6. Compute Hash
''','''		return false // instances of one role are interchangeable
	})

	// 6. Compute Hash
''')],
 [(PROG("t",[ASSIGN("ns",BAG()),MUT("ns","add",NEWROLE("Node")),MUT("ns","add",NEWROLE("Node")),MUT("ns","add",NEWROLE("Node"))],[],roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("v"),I(0))),ACTION("Up","atomic",REQUIRE(LT(SELF("v"),I(1))),ASSIGN(SELF("v"),ADD(SELF("v"),I(1))))],symmetric=True)],
   opts=O1),PASS,[])],
 "symmetric roles, and states that differ by a permutation of instances with different fields",
 "permuted instances keep their old order in the hash, so states that differ by a permutation are explored several times",
 script="""n=$(grep -oE 'Unique states: [0-9]+' <<<"$OUT" | tail -1); [ "$n" = "Unique states: 4" ] || { echo "$n"; exit 1; }""")
make("p17-prefix","P17",[(TR,'''	if linkName == expectedLinkName {
''','''	if strings.HasPrefix(linkName, expectedLinkName) {
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",any_("v",ints(1,10),ASSIGN("x",V("v"))))],invs=[A("Small",LT(V("x"),I(10)))],opts=O),PASS,["--trace","A\nAny:v=1"])],
 "a trace step whose name is the beginning of another's (the choice v=1 and the choice v=10)",
 "steps of a guided trace are matched by prefix, so executions that are not on the trace are explored")
make("p17-extend-partial","P17",[(TR,'''			if parentIsYield {
				return false
			}
		}
''','''			if parentIsYield || node.guidedTrace.extendedCount >= 2*node.guidedTrace.ExtendDepth {
				return false
			}
		}
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",any_("v",ints(1,2),any_("w",ints(1,2),ASSIGN("x",V("v")),ASSIGN("y",V("w")))))],invs=[A("Zero",EQ(V("y"),I(0)))],opts=O),"FAILED: Model checker failed. Invariant: +Zero",["--trace","","--trace-extend","1"])],
 "--trace-extend that ends within an action with several nested choices",
 "the exploration past the end of a trace stops within an action with more choices than twice the extension")
make("p17-comment","P17",[(TR,'''		line := strings.TrimSpace(scanner.Text())

		// Skip empty lines and comments
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}

		linkNames = append(linkNames, line)
''','''		line := scanner.Text()

		// Skip empty lines and comments
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}

		linkNames = append(linkNames, strings.TrimSpace(line))
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",up_("x")),ACTION("Bb","atomic",ASSIGN("y",I(1)))],invs=[A("Zero",EQ(V("y"),I(0)))],opts=O),"FAILED: Model checker failed. Invariant: +Zero",["--trace","A\n\n   # note\nBb"])],
 "a trace with an indented comment line",
 "only comments at the beginning of a line are skipped; the trace with an indented one is reported as incomplete")
make("p17-visited","P17",[(PR,'''		if p.guidedTrace != nil {
			p.visited = make(map[string]*Node)
		}
''','''		if p.guidedTrace != nil && p.guidedTrace.IsExhausted() {
			p.visited = make(map[string]*Node)
		}
''')],
 [(PROG("t",xy(),[ACTION("A","atomic",ASSIGN("x",SUB(I(1),V("x")))),ACTION("Bb","atomic",REQUIRE(EQ(V("x"),I(0))),ASSIGN("y",I(1)))],invs=[A("Zero",EQ(V("y"),I(0)))],opts=O),"FAILED: Model checker failed. Invariant: +Zero",["--trace","A\nA\nBb"])],
 "a trace that comes back to a state it has been in",
 "a trace that revisits a state stops there")

# --- P18: channels
CM="modelchecker/channel_message.go"
one_=[ASSIGN("c",CHAN(0)),ASSIGN("n",NEWROLE("Node")),ASSIGN("s",STUB(V("c"),V("n"))),ASSIGN("k",I(0))]
two_=[ASSIGN("c",CHAN(0)),ASSIGN("n",NEWROLE("Node")),ASSIGN("n2",NEWROLE("Node")),ASSIGN("s",STUB(V("c"),V("n"))),ASSIGN("s2",STUB(V("c"),V("n2"))),ASSIGN("k",I(0))]
v0_=ACTION("Init","atomic",ASSIGN(SELF("v"),I(0))); l0_=ACTION("Init","atomic",ASSIGN(SELF("v"),LIST()))
recv_=FUNC("Recv","atomic",["x"],ASSIGN(SELF("v"),V("x")))
log_=FUNC("Recv","atomic",["x"],ASSIGN(SELF("v"),ADD(SELF("v"),LIST(V("x")))))
nv_=ATTR(V("n"),"v")
def send_(*b): return ACTION("Send","atomic",REQUIRE(EQ(V("k"),I(0))),ASSIGN("k",I(1)),*b)
def S1_(x): return FCALL("Recv",x,recv="s")
def S2_(x): return FCALL("Recv",x,recv="s2")
make("p18-message-set","P18",[(PR,'''		// TODO: Sort the messages, for unordered channels
		for _, message := range messages {
			h.Write([]byte(fmt.Sprintf("%d:%s", k, message.HashCode())))
		}
''','''		// The order of messages in an unordered channel does not matter
		messageHashes := make(map[string]bool, len(messages))
		for _, message := range messages {
			messageHashes[message.HashCode()] = true
		}
		sortedHashes := make([]string, 0, len(messageHashes))
		for hash := range messageHashes {
			sortedHashes = append(sortedHashes, hash)
		}
		sort.Strings(sortedHashes)
		for _, hash := range sortedHashes {
			h.Write([]byte(fmt.Sprintf("%d:%s", k, hash)))
		}
''')],
 [(PROG("t",one_,[send_(S1_(I(1)),S1_(I(1)),S1_(I(1)))],roles=[ROLE("Node",[v0_],[recv_])],opts=dict(deadlock_detection=True,crash_on_yield=False)),"DEADLOCK detected",[])],
 "the same message sent several times while earlier copies are undelivered, with a handler that changes nothing the second time",
 "undelivered messages are identified as a set, so states that differ in the number of copies are merged")
make("p18-head-of-line","P18",[(PR,'''		for j, _ := range msgs {
			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
''','''		for j, msg := range msgs {
			if j > 0 && msgs[j-1].Receiver() == msg.Receiver() && msgs[j-1].Function() == msg.Function() {
				// the same call waits already
				continue
			}
			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
			newNode := node.ForkForAlternatePaths(process.Fork(), linkName)
''')],
 [(PROG("t",one_,[send_(S1_(I(1)),S1_(I(2)))],roles=[ROLE("Node",[l0_],[log_])],invs=[E("Swapped",EQ(nv_,LIST(I(2),I(1))))],opts=O),PASS,[])],
 "two calls of the same function of the same instance, with different arguments, undelivered at once",
 "consecutive calls of the same function are delivered in the order in which they were sent")
make("p18-crash-loses","P18",[(PR,'''	for _, fieldName := range role.InitValues.AttrNames() {
''','''	for channelId, msgs := range process.ChannelMessages {
		process.ChannelMessages[channelId] = slices.DeleteFunc(msgs, func(msg *ChannelMessage) bool {
			return msg.Receiver() == role.RefStringShort()
		})
	}
	for _, fieldName := range role.InitValues.AttrNames() {
''')],
 [(PROG("t",one_,[send_(S1_(I(1)))],roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("v"),I(0)),ASSIGN(SELF("up"),I(0))),ACTION("Boot","atomic",REQUIRE(EQ(V("k"),I(1))),ASSIGN("k",I(2)),ASSIGN(SELF("up"),I(1)))],
    [FUNC("Recv","atomic",["x"],IF((AND(EQ(V("k"),I(2)),EQ(SELF("up"),I(0))),[ASSIGN(SELF("v"),V("x"))])))],ephemeral=["up"])],
   invs=[E("Late",EQ(nv_,I(1)))],opts=C),PASS,[])],
 "a crash of an instance while messages to it are undelivered",
 "the crash of an instance drops the undelivered messages to it")
make("p18-parallel-limit","P18",[(PR,'''	p.scheduleChannelMessages(node, process)
	if node.actionDepth >= int(p.config.Options.MaxActions) ||
		process.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {

		return
	}
''','''	if node.actionDepth >= int(p.config.Options.MaxActions) ||
		process.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {

		return
	}
	p.scheduleChannelMessages(node, process)
''')],
 [(PROG("t",two_+[ASSIGN("cl",NEWROLE("Cli"))],[],roles=[ROLE("Node",[v0_],[recv_]),ROLE("Cli",[ACTION("Init","atomic",ASSIGN(SELF("d"),I(0))),
    ACTION("Go","serial",ATOMIC(REQUIRE(EQ(V("k"),I(0))),ASSIGN("k",I(1))),PARALLEL(ATOMIC(S1_(I(1))),ATOMIC(ASSIGN(SELF("d"),nv_))))])],invs=[E("Seen",EQ(ATTR(V("cl"),"d"),I(1)))],opts=dict(O,max_concurrent_actions=1)),PASS,[])],
 "a message sent by a statement of a parallel block, as many actions in flight as max_concurrent_actions allows",
 "between the statements of a parallel block, messages are not delivered when the limit of concurrent actions is reached")
make("p18-parallel-base","P18",[(PR,'''	p.scheduleChannelMessages(node, process)
	if node.actionDepth >= int(p.config.Options.MaxActions) ||
''','''	p.scheduleChannelMessages(node, node.Process)
	if node.actionDepth >= int(p.config.Options.MaxActions) ||
''')],
 [(PROG("t",two_+[ASSIGN("cl",NEWROLE("Cli"))],[],roles=[ROLE("Node",[v0_],[recv_]),ROLE("Cli",[ACTION("Init","atomic",ASSIGN(SELF("d"),I(0))),
    ACTION("Go","serial",ATOMIC(REQUIRE(EQ(V("k"),I(0))),ASSIGN("k",I(1))),PARALLEL(ATOMIC(S1_(I(1))),ATOMIC(ASSIGN(SELF("d"),ADD(nv_,I(1))))),ASSIGN("k",I(2)))])],invs=[A("Both",OR(NE(V("k"),I(2)),NE(ATTR(V("cl"),"d"),I(0)))),E("Seen",EQ(ATTR(V("cl"),"d"),I(2)))],opts=O),PASS,[])],
 "a message delivered between two statements of a parallel block",
 "a message delivered between the statements of a parallel block continues from the process before the alternatives were made: what remains of the block is lost")
make("p18-returned","P18",[(TH,'''				t.Process.addChannelMessage(stub.Channel, receiver.RefStringShort(), newFrame, newFrame.Name, newFrame.vars)
				t.Process.Enable()
				return t.executeEndOfStatement()
''','''				t.Process.addChannelMessage(stub.Channel, receiver.RefStringShort(), newFrame, newFrame.Name, newFrame.vars)
				return t.executeEndOfStatement()
''')],
 [(PROG("t",one_,[ACTION("Poke","atomic",REQUIRE(EQ(V("k"),I(0))),S1_(I(1)))],roles=[ROLE("Node",[v0_],[FUNC("Recv","atomic",["x"],ASSIGN("k",I(1)))])],invs=[E("Done",EQ(V("k"),I(1)))],opts=dict(O,max_actions=3)),PASS,[])],
 "an action that does nothing but send a message",
 "a call through a stub does not count as executing a statement: an action that only sends is taken as disabled")
make("p18-frame-share","P18",[(CM,'''	frame, err := cm.frame.Clone(refs, permutations, alt)
	PanicOnError(err)
	params :=''','''	frame, err := cm.frame, error(nil)
	if permutations != nil || len(cm.params) > 0 {
		// a call without arguments has nothing to copy
		frame, err = cm.frame.Clone(refs, permutations, alt)
	}
	PanicOnError(err)
	params :=''')],
 [(PROG("t",[x for x in one_[:3]]+[ASSIGN("x",I(0)),ASSIGN("y",I(0))],[ACTION("Send","atomic",REQUIRE(EQ(V("x"),I(0))),ASSIGN("x",I(1)),FCALL("Recv",recv="s"),FCALL("Two",recv="s"))],
   roles=[ROLE("Node",[v0_],[FUNC("Recv","atomic",[],ASSIGN(SELF("v"),ADD(SELF("v"),I(1)))),FUNC("Two","atomic",[],ASSIGN(SELF("v"),MUL(SELF("v"),I(2))) if 0 else ASSIGN(SELF("v"),ADD(SELF("v"),SELF("v"))))])],
   invs=[E("OneTwo",EQ(nv_,I(2)))],opts=O),PASS,[])],
 "messages without arguments that can be delivered in several orders",
 "the call that a message without arguments carries is shared between the states that contain the message: once delivered, it starts at its end elsewhere")

# --- P19, P20: several models
import json
from lib import fz
from lib.joint import refine, compose, counter, AT, BF, AF, ALWAYS, TRANS, ONE
MN="main.go"; X=V("x")
# JOINT BEGIN
JRUN = '''mkdir -p "$T/j"; cp "$D"/*.json "$T/j/"
OUT=$(cd "$T/j" && timeout 100 "$B" --test --output-dir "$T/j/out" "$T/j/model.json" 2>&1)
if %s grep -qE -- '%s' <<<"$OUT"; then tail -5 <<<"$OUT"; exit 1; fi
grep -q 'PASSED: Model checker completed successfully' <<<"$OUT" || { tail -5 <<<"$OUT"; exit 1; }'''
def jmake(id, prop, edits, c, fails, needs, breaks):
    """c: a refinement (a model) or a composition"""
    if "parts" in c: fs, m, pat = {p["name"]: p for p in c["parts"]}, c["joint"], "Error composing"
    else: fs, m, pat = {c["name"] + "_abs": c["invs"][-1]["abs"]}, c, "FAILED: "
    fs = {n + ".json": json.dumps(fz.to_fizz(p), indent=1) for n, p in fs.items()}
    fs["model.json"] = json.dumps(fz.to_fizz(m), indent=1)
    make(id, prop, edits, [], needs, breaks, script=JRUN % ("!" if fails else "", pat), files=fs)
# JOINT END
c=counter
jmake("p19-known-state","P19",[(MN,'''		if from != nil && current.IsYieldNode() {
			addToJoinHashes(''','''		if from != nil && current.IsYieldNode() && !visited[current] {
			addToJoinHashes(''')],
 refine("t",*[PROG("a",[ASSIGN("x",I(0))],[ACTION("Up","atomic",REQUIRE(LT(X,I(2))),ASSIGN("x",ADD(X,I(1)))),ACTION("Jump","atomic",REQUIRE(EQ(X,I(0))),ASSIGN("x",I(2)))],opts=ONE),X]*2),False,
 "an abstract model in which a state is reached by several steps, and an implementation that takes all of them",
 "steps of the abstract model that lead to a state it already knows are no steps: the implementation is rejected for taking them")
jmake("p19-key","P19",[(MN,'''	key := modelchecker.HashKey(fromState + "," + toState)''','''	key := modelchecker.HashKey(fromState + toState)'''),
  (IV,'''	key := HashKey(fromState + "," + toState)''','''	key := HashKey(fromState + toState)''')],
 refine("t",PROG("a",[ASSIGN("x",I(1))],[ACTION("Up","atomic",REQUIRE(EQ(X,I(1))),ASSIGN("x",I(11)))],opts=ONE),X,
   PROG("b",[ASSIGN("x",I(11))],[ACTION("Up","atomic",REQUIRE(EQ(X,I(11))),ASSIGN("x",I(1)))],opts=ONE),X),True,
 "views that are numbers of several digits: from 1 to 11 in one model, from 11 to 1 in the other",
 "the views before and after a step are put together so that different pairs look the same (two places agree on it)")
jmake("p19-new-only","P19",[(PR,'''		if len(node.Process.Files[0].Refinements) > 0 {
			result := CheckRefinement(''','''		if _, seen, _ := p.findVisitedSymmetric(node); len(node.Process.Files[0].Refinements) > 0 && !seen {
			result := CheckRefinement(''')],
 refine("t",counter(3),X,PROG("b",[ASSIGN("x",I(0))],[ACTION("Up","atomic",REQUIRE(LT(X,I(2))),ASSIGN("x",ADD(X,I(1)))),ACTION("Back","atomic",REQUIRE(EQ(X,I(2))),ASSIGN("x",I(1)))],opts=ONE),X),True,
 "an implementation with a wrong step between states that are also reached in a right way",
 "only steps to new states are checked against the abstract model")
jmake("p20-any-stutter","P20",[(MN,'''			allStuttering := true
			for _, t := range ts {''','''			allStuttering := ts[0].First == ts[0].Second
			for _, t := range ts[:1] {''')],
 compose("t",[(c(2),X),(PROG("m",[ASSIGN("x",I(0)),ASSIGN("y",I(0))],[ACTION("Up","atomic",ASSIGN("x",MOD(ADD(X,I(1)),I(2)))),ACTION("Y","atomic",REQUIRE(EQ(V("y"),I(0))),ASSIGN("y",I(1)))],opts=ONE),X)],
   [TRANS("Alone",EQ(BF(1,"y"),AF(1,"y")))]),True,
 "a step that only a part other than the first takes part in",
 "joint steps in which the first part stays as it is are skipped")
jmake("p20-first-assertion","P20",[(MN,'''	hasTransitionInvariant := false
	for _, invariant := range f.Invariants {
		if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
			hasTransitionInvariant = true
			break
		}
''','''	hasTransitionInvariant := false
	for _, invariant := range f.Invariants {
		hasTransitionInvariant = invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition")
		if !hasTransitionInvariant {
			break
		}
''')],
 compose("t",[(c(3),X),(c(3),X)],[ALWAYS("A",EQ(AT(0,"x"),AT(1,"x"))),TRANS("B",NE(AF(0,"x"),I(2)))]),True,
 "a composition with an always assertion followed by a transition assertion",
 "transition assertions are only evaluated when all assertions are transition assertions")
jmake("p20-judged-once","P20",[(MN,'''	for key, sets := range joinHashes {
''','''	judged := map[string]bool{}
	for key, sets := range joinHashes {
'''),(MN,'''			processTo.Heap = modelchecker.NewComposedHeap(composedTo)
''','''			processTo.Heap = modelchecker.NewComposedHeap(composedTo)
			if known := processTo.Heap.HashCode(); judged[known] {
				return nil, nil // This joint state has been judged before.
			} else {
				judged[known] = true
			}
''')],
 compose("t",[(PROG("m",[ASSIGN("x",I(0)),ASSIGN("y",I(0))],[ACTION("X","atomic",ASSIGN("x",MOD(ADD(X,I(1)),I(4)))),ACTION("Y","atomic",ASSIGN("y",I(1)))],opts=ONE),X),(c(4),X)],
   [TRANS("T",NE(AF(0,"x"),I(3)))] and [TRANS("T",OR(EQ(BF(0,"y"),AF(0,"y")),NE(AF(0,"x"),I(2))))]),True,
 "a joint state that is reached by several joint steps, one of which violates a transition assertion",
 "joint states that are already known are skipped together with the transition that leads to them")

from lib.asserts import CAN, BY, OF, KIND, NXT, HOWMANY, NS
# --- P21: assertions about the next states
make("p21-concurrency","P21",[(PR,'''		if action.Name == "Init" {
			continue
		}
		nn := base.ForkForAction(nil, nil, action)
''','''		if action.Name == "Init" || process.GetThreadsCount() >= int(p.config.Options.MaxConcurrentActions) {
			continue
		}
		nn := base.ForkForAction(nil, nil, action)
''')],
 [(PROG("t",xy(),[ACTION("S","serial",REQUIRE(EQ(V("x"),I(0))),ASSIGN("x",I(1)),ASSIGN("x",I(0))),ACTION("T","atomic",ASSIGN("y",SUB(I(1),V("y"))))],
   invs=[A("Can",CAN(BY("T")))],opts=dict(O,max_concurrent_actions=1)),PASS,[])],
 "an assertion about a global action evaluated while as many actions are in flight as may run concurrently",
 "next_states() contains no new global actions when max_concurrent_actions are in flight")
make("p21-same-state","P21",[(PR,'key := start.name + "|" + h','key := start.kind + "|" + h')],
 [(PROG("t",[ASSIGN("n",NEWROLE("N")),ASSIGN("q",NEWROLE("N")),ASSIGN("x",I(0))],[],roles=[ROLE("N",[ACTION("Init","atomic",ASSIGN(SELF("a"),I(0))),ACTION("Go","atomic",ASSIGN("x",SUB(I(1),V("x"))))])],
   invs=[A("Can",AND(CAN(OF("N#0")),CAN(OF("N#1"))))],opts=O),PASS,[])],
 "two actions, or the same action of two instances, that lead to the same state",
 "next_states() lists one transition only when several lead to the same state")
make("p21-siblings","P21",[(PR,'''			n.CachedHashCode = ""
			forks, yield := n.currentThread().Execute()
			if len(forks) == 0 && !n.Enabled && !n.ThreadProgress {
				// Disabled path: a require failed or the body was a no-op.
				continue
			}
			if n.ThreadProgress {
				n.Enable()
			}
			h := n.HashCode()
			if seenIntermediate[h] {
				continue
			}
			seenIntermediate[h] = true
''','''			h := n.HashCode()
			if seenIntermediate[h] {
				continue
			}
			seenIntermediate[h] = true
			n.CachedHashCode = ""
			forks, yield := n.currentThread().Execute()
			if len(forks) == 0 && !n.Enabled && !n.ThreadProgress {
				// Disabled path: a require failed or the body was a no-op.
				continue
			}
			if n.ThreadProgress {
				n.Enable()
			}
			h = n.HashCode()
''')],
 [(PROG("t",xy(),[ACTION("P","atomic",any_("i",ints(0,1,2),ASSIGN("x",V("i")))),],invs=[A("Any",AND(CAN(EQ(NXT("x"),I(0))),AND(CAN(EQ(NXT("x"),I(1))),CAN(EQ(NXT("x"),I(2))))))],opts=O),PASS,[])],
 "an action with a nondeterministic choice whose alternatives are not bound to a variable before the next hash is taken",
 "next_states() recognizes known intermediate states before they are executed, so alternatives of a choice are lost")
make("p21-first-instance","P21",[(PR,'''					if r != nil && r.RefStringShort() == role.RefStringShort() {
						frame.obj = r
						break
					}
				}
				if frame.obj == nil {
					// Role no longer reachable''','''					if r != nil && r.Name == role.Name {
						frame.obj = r
						break
					}
				}
				if frame.obj == nil {
					// Role no longer reachable''')],
 [(PROG("t",[ASSIGN("n",NEWROLE("N")),ASSIGN("q",NEWROLE("N"))],[],roles=[ROLE("N",[ACTION("Init","atomic",ASSIGN(SELF("a"),I(0))),ACTION("Go","atomic",REQUIRE(EQ(SELF("a"),I(0))),ASSIGN(SELF("a"),I(1)))])],
   invs=[A("Second",OR(NE(ATTR(V("q"),"a"),I(0)),CAN(AND(OF("N#1"),EQ(ATTR(NXT("q"),"a"),I(1))))))],opts=O),PASS,[])],
 "several instances of a role and an assertion about what an action of one that is not the first leads to",
 "the actions in next_states() are executed by the first instance of the role")
make("p21-oldest-message","P21",[(PR,'''		for j := range msgs {
			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
			nn :=''','''		for j := range msgs[:min(len(msgs), 1)] {
			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
			nn :=''')],
 [(PROG("t",[ASSIGN("c",CHAN(0)),ASSIGN("n",NEWROLE("Node")),ASSIGN("s",STUB(V("c"),V("n"))),ASSIGN("k",I(0))],
   [ACTION("Send","atomic",REQUIRE(LT(V("k"),I(1))),ASSIGN("k",I(1)),FCALL("Recv",I(1),recv="s"),FCALL("Recv",I(2),recv="s"))],
   roles=[ROLE("Node",[ACTION("Init","atomic",ASSIGN(SELF("v"),I(0)))],[FUNC("Recv","atomic",["x"],ASSIGN(SELF("v"),V("x")))])],
   invs=[A("Any",OR(EQ(V("k"),I(0)),OR(NE(ATTR(V("n"),"v"),I(0)),AND(CAN(EQ(ATTR(NXT("n"),"v"),I(1))),CAN(EQ(ATTR(NXT("n"),"v"),I(2)))))))],opts=O),PASS,[])],
 "several undelivered messages in one channel and an assertion about the delivery of a later one",
 "next_states() contains the delivery of the oldest message of each channel only")
