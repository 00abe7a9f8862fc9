------------------------------- MODULE Views -------------------------------
(* Models seen through a view (an expression over their variables): the     *)
(* steps between their states, as pairs of views.  Used for refinement      *)
(* (MCFizz) and for composition (Compose).                                  *)
EXTENDS Props

SameVars(mb, ma) ==
  mb.heap = ma.heap /\ [r \in DOMAIN mb.roles |-> mb.roles[r].f] = [r \in DOMAIN ma.roles |-> ma.roles[r].f]

RECURSIVE Closure(_, _, _)
Closure(p, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET next == UNION {{e.m : e \in {e \in AllEdges(p, x) : e.k # "idle"}} : x \in todo}
       IN Closure(p, next \ (seen \cup todo), seen \cup todo)
ReachOf(p) == Closure(p, {o.c.m : o \in {o \in Keep(InitRuns(p)) : o.k = "yield"}}, {})

\* the steps between reachable states; every state may also stay as it is
StepsOf(p) ==
  UNION {{<<x, x>>} \cup {<<x, d.m>> : d \in {d \in AllEdges(p, x) : d.k # "idle"}} : x \in ReachOf(p)}
StepViews(p, e) == {<<EvState(p, s[1], e), EvState(p, s[2], e)>> : s \in StepsOf(p)}
=============================================================================
