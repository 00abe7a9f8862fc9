-------------------------------- MODULE Fair --------------------------------
(***************************************************************************)
(* Liveness of one program.  The states and transitions are those of       *)
(* MCFizz (a graph it printed); this module adds the behaviours: infinite  *)
(* paths, with stuttering, that are fair.                                  *)
(*   - a weakly fair action is not enabled forever without being executed  *)
(*   - a strongly fair action that is enabled again and again is executed  *)
(*     again and again                                                     *)
(*   - an in-flight action that can continue again and again does so       *)
(*     again and again                                                     *)
(*   - crashes happen finitely often                                       *)
(*   - an alternative of a fair choice that is there again and again is    *)
(*     taken again and again                                               *)
(* Every instance of a role has its own copy of the actions of the role.   *)
(* A transition that changes nothing is a step, too: `t` alternates.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

G == JsonDeserialize(IOEnv.FIZZ_GRAPH)
\* G.init: initial nodes; G.out[n]: edges [to, key, ch, off]: alternatives of fair choices taken
\* and offered on the way; G.w[n]: the assertion holds in n
\* G.weak, G.strong: keys of fair actions and in-flight actions

VARIABLES n, e, t, ch, off
vars == <<n, e, t, ch, off>>

Range(s) == {s[i] : i \in 1..Len(s)}

Init == /\ n \in {G.init[i] : i \in 1..Len(G.init)}
        /\ e = "" /\ t = 0 /\ ch = {} /\ off = {}

Take(k) == \E i \in 1..Len(G.out[n]) :
             /\ G.out[n][i].key = k
             /\ n' = G.out[n][i].to /\ e' = k /\ t' = 1 - t
             /\ ch' = Range(G.out[n][i].ch) /\ off' = Range(G.out[n][i].off)

Keys == Range(G.keys)
Weak == Range(G.weak)
Strong == Range(G.strong)
Alts == Range(G.alts)

Next == \E k \in Keys : Take(k)

Spec == /\ Init /\ [][Next]_vars
        /\ \A k \in Weak : WF_vars(Take(k))
        /\ \A k \in Strong : SF_vars(Take(k))

W == G.w[n]
Stops == <>[](t = 0) \/ <>[](t = 1)
FewCrashes == Stops \/ <>[](e # "crash")
FairChoices == Stops \/ \A a \in Alts : []<>(a \in off) => []<>(a \in ch)
AlwaysEventually == FewCrashes /\ FairChoices => []<>W
EventuallyAlways == FewCrashes /\ FairChoices => <>[]W
=============================================================================
