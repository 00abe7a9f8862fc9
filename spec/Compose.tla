------------------------------ MODULE Compose ------------------------------
(* Composition: the parts c.specs make a step together when they agree on   *)
(* what their views show before and after (a part may stay as it is, but    *)
(* not all of them).  The assertions of c.joint are about the state of all  *)
(* parts.  Prints, per composition, the joint steps that violate some.      *)
EXTENDS Views, Json, IOUtils

Cases == JsonDeserialize(IOEnv.FIZZ_CASES)
VARIABLES ci, done

Joint(c, ms) == [EmptyM EXCEPT !.heap = [n \in Range(c.names) |-> LET k == CHOOSE k \in 1..Len(c.names) : c.names[k] = n
                                                                  IN StateRec(ms[k])]]
Viewed(c) == [k \in 1..Len(c.specs) |->
                {<<s[1], s[2], EvState(c.specs[k], s[1], c.views[k]), EvState(c.specs[k], s[2], c.views[k])>> : s \in StepsOf(c.specs[k])}]
\* tuples of steps that agree
RECURSIVE Agree(_, _)
Agree(V, k) ==
  IF k = 1 THEN {<<s>> : s \in V[1]}
  ELSE UNION {{Append(t, s) : s \in {s \in V[k] : s[3] = t[1][3] /\ s[4] = t[1][4]}} : t \in Agree(V, k - 1)}
JointSteps(c) == {t \in Agree(Viewed(c), Len(c.specs)) : \E k \in 1..Len(t) : ~SameVars(t[k][1], t[k][2])}

Fails(c, t) ==
  LET b == Joint(c, [k \in 1..Len(t) |-> t[k][1]])
      a == Joint(c, [k \in 1..Len(t) |-> t[k][2]])
      p == c.joint
      fr(v) == [NoFrame EXCEPT !.loc = [x \in Range(v.ps) |-> IF x = v.ps[1] THEN StateRec(b) ELSE StateRec(a)]]
  IN [b |-> [k \in 1..Len(t) |-> t[k][1].heap], a |-> [k \in 1..Len(t) |-> t[k][2].heap],
      always |-> {j \in 1..Len(p.invs) : p.invs[j].k = "always" /\ ~Truth(EvState(p, a, p.invs[j].e))},
      trans |-> {j \in 1..Len(p.invs) : p.invs[j].k = "transition" /\ ~Truth(Ev(p, EmptyM, fr(p.invs[j]), p.invs[j].e))}]

Init == ci \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ PrintT("@J" \o ToJson([c |-> ci, n |-> Cardinality(JointSteps(Cases[ci])),
                                  f |-> {x \in {Fails(Cases[ci], t) : t \in JointSteps(Cases[ci])} : x.always \cup x.trans # {}}]))
        /\ done' = TRUE
        /\ UNCHANGED ci
=============================================================================
