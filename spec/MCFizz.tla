------------------------------- MODULE MCFizz -------------------------------
(* Exhaustive exploration of a batch of programs: one initial state per     *)
(* program and initial choice.  Every explored state prints its outgoing    *)
(* transitions and the value of every state assertion (lines @E, @V, @I),   *)
(* which the conformance step compares with the graph of the real checker.  *)
EXTENDS Views, Json, IOUtils

Progs == JsonDeserialize(IOEnv.FIZZ_PROGS)

\* exploration of a program stops when it has too many states (the program is then not judged)
Cap == atoi(IOEnv.FIZZ_CAP)
Within(i) == TLCGet(i) < Cap
Tick(i) == TLCSet(i, TLCGet(i) + 1)
ASSUME \A i \in 1..Len(Progs) : TLCSet(i, 0)

VARIABLES pi, m, k
vars == <<pi, m, k>>
P == Progs[pi]

Out(tag, r) == PrintT("@" \o tag \o ToJson(r))

AlwaysKinds == {"always", "exists", "eventually-always", "always-eventually", "eventually"}
InvVal(p, mm, v) == IF v.k \in AlwaysKinds THEN Truth(EvState(p, mm, v.e)) ELSE TRUE
\* A transition assertion relates the states before and after a step.  It sees the state
\* variables of both; a role is the record of its fields.  A step that changes no variable
\* satisfies it.
TransFrame(mb, ma, v) ==
  [NoFrame EXCEPT !.loc = [x \in Range(v.ps) |-> IF x = v.ps[1] THEN StateRec(mb) ELSE StateRec(ma)]]
\* Refinement: seen through the view v.e, a step that changes a variable is a step of the abstract
\* program v.abs seen through its own view v.av (or one of its states, when the view does not change)
\* (evaluated once)
Abstract == [i \in 1..Len(Progs) |->
               [j \in 1..Len(Progs[i].invs) |->
                  IF Progs[i].invs[j].k = "refines" THEN StepViews(Progs[i].invs[j].abs, Progs[i].invs[j].av) ELSE {}]]

TransVal(p, mb, ma, j) ==
  LET v == p.invs[j] IN
  IF v.k = "refines" /\ ~SameVars(mb, ma) THEN <<EvState(p, mb, v.e), EvState(p, ma, v.e)>> \in Abstract[pi][j]
  ELSE IF v.k = "transition" /\ ~SameVars(mb, ma) THEN Truth(Ev(p, EmptyM, TransFrame(mb, ma, v), v.e))
  ELSE TRUE

WithTI(es) == IF \E i \in 1..Len(P.invs) : P.invs[i].k \in {"transition", "refines"}
              THEN {[a |-> e.a, l |-> e.l, s |-> e.s, tr |-> e.tr, lb |-> e.lb, m |-> e.m, k |-> e.k,
                     ti |-> [i \in 1..Len(P.invs) |-> TransVal(P, m, e.m, i)]] : e \in es}
              ELSE es

Explore(es) ==
  /\ \A e \in es : Assert(GoodStep(P, m, e), <<"GoodStep", m, e>>)
  /\ IF es = {} THEN TRUE ELSE Out("E", [p |-> pi, m |-> m, k |-> k, e |-> WithTI(es)])
  /\ \E e \in es : /\ e.k \in {"yield", "crash", "optcrash"}
                   /\ m' = e.m /\ k' = IF e.k = "yield" THEN "yield" ELSE "crash"
                   /\ UNCHANGED pi

Init ==
  \E i \in 1..Len(Progs) :
    LET os == {o \in Keep(InitRuns(Progs[i])) : TRUE} IN
    /\ Out("I", [p |-> i, e |-> {[tr |-> o.c.tr, lb |-> o.c.lb, m |-> o.c.m, k |-> o.k] : o \in os}])
    /\ \E o \in os : o.k = "yield" /\ pi = i /\ m = o.c.m /\ k = "yield"

Assertions ==
  IF Len(P.invs) = 0 THEN TRUE
  ELSE Out("V", [p |-> pi, m |-> m, k |-> k, v |-> [i \in 1..Len(P.invs) |-> InvVal(P, m, P.invs[i])]])

StartAction == Tick(pi) /\ Assertions /\ Explore(ActionEdges(P, m))
Continue == Explore(ThreadEdges(P, m))
Deliver == Explore(DeliverEdges(P, m))
\* a state that is only known as the result of a crash crashes again only if it is also
\* reached by running; the edges are printed as optional (the checker may or may not have them;
\* what it has behind them has to be a behaviour of the specification again)
Opt(es) == IF k = "crash" THEN {[e EXCEPT !.k = "optcrash"] : e \in es} ELSE es
CrashAction == Explore(Opt(CrashThreadEdges(P, m)))
CrashInstance == Explore(Opt(CrashRoleEdges(P, m)))

Step == StartAction \/ Continue \/ Deliver \/ CrashAction \/ CrashInstance

\* properties of the specification's own states (of its steps: see Explore)
TypeCorrect == TypeOK(P, m)
NoneInAtomic == Indivisible(P, m)
CallersWait == Calls(P, m)

Next == IF Within(pi) THEN Step ELSE Out("X", [p |-> pi]) /\ FALSE
=============================================================================

