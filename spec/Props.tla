------------------------------- MODULE Props -------------------------------
(* What the specification itself has to satisfy, for every program, state   *)
(* and transition TLC explores: the properties of properties.jsonl that can *)
(* be said of a single state or a single transition (GoodStep).      *)
(* MCFizz evaluates both while it explores; a failure stops TLC, so a       *)
(* change to the specification cannot give up one of these guarantees.      *)
EXTENDS Fizz

Frames(m) == UNION {{<<i, j>> : j \in 1..Len(m.thr[i].st)} : i \in Live(m)}
FrameAt(m, q) == m.thr[q[1]].st[q[2]]

\* the shape of a machine
TypeOK(p, m) ==
  /\ m.cur \in 0..Len(m.thr) /\ (m.cur # 0 => m.cur \in Live(m))
  /\ (m.thr # <<>> => ~IsNil(Last(m.thr)))
  /\ \A q \in Frames(m) : /\ FrameAt(m, q).d \in 1..Len(p.defs)
                          /\ FrameAt(m, q).o \in 0..Len(m.roles)
                          /\ p.defs[FrameAt(m, q).d].role = (IF FrameAt(m, q).o = 0 THEN "" ELSE m.roles[FrameAt(m, q).o].n)
  /\ \A r \in 1..Len(m.roles) : DOMAIN m.roles[r].iv \subseteq DOMAIN m.roles[r].f
  /\ \A i \in 1..Len(m.ch) : m.ch[i].f.ctl = <<>> /\ m.ch[i].o \in 1..Len(m.roles)

\* P01: an in-flight action is at a yield point only in a definition that says so somewhere: while
\* everything it executes is atomic it is never seen
RECURSIVE AtomicBlock(_, _, _)
AtomicBlock(p, b, n) ==
  /\ p.blocks[b].fl \in {"", "atomic"}
  /\ \A i \in 1..BLen(p, b) :
       LET s == Stmts(p, b)[i] IN
       CASE s.k = "block" -> AtomicBlock(p, s.b, n)
         [] s.k = "if" -> \A j \in 1..Len(s.brs) : AtomicBlock(p, s.brs[j].b, n)
         [] s.k \in {"for", "while"} -> s.fl \in {"", "atomic"} /\ AtomicBlock(p, s.b, n)
         [] s.k = "any" -> s.fl \in {"", "atomic"} /\ (s.b # 0 => AtomicBlock(p, s.b, n))
         [] s.k = "call" ->  \* calls are looked into to depth n
              n > 0 /\ \A d \in {d \in 1..Len(p.defs) : p.defs[d].kind = "func" /\ p.defs[d].fname = s.n} :
                          p.blocks[p.defs[d].b].fl = "atomic" /\ AtomicBlock(p, p.defs[d].b, n - 1)
         [] OTHER -> TRUE
AtomicDef(p, d) == p.blocks[p.defs[d].b].fl = "atomic" /\ AtomicBlock(p, p.defs[d].b, 3)
Indivisible(p, m) ==
  \A i \in Live(m) : \E j \in 1..Len(m.thr[i].st) : ~AtomicDef(p, m.thr[i].st[j].d)

\* P06: only the instance the innermost call runs on goes on; its callers wait for it
Calls(p, m) ==
  \A i \in Live(m) : \A j \in 1..(Len(m.thr[i].st) - 1) : m.thr[i].st[j].ctl # <<>>

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Others(m, n, but) ==
  \A i \in Live(m) \ but : i <= Len(n.thr) /\ n.thr[i] = m.thr[i]

\* P02, P13: an action starts only within the limits
StartsWithin(p, m, e) ==
  e.a = "action" => /\ Cardinality(Live(m)) < p.maxconc
                    /\ p.track => m.d < p.maxact /\ e.m.d = m.d + 1

\* P02, P06: a step is a step of one in-flight action; the one that executed last may besides
\* decide the statement of a parallel block that it is to run next
OneActor(m, e) ==
  CASE e.a \in {"action", "deliver"} -> Others(m, e.m, {m.cur})
    [] e.a = "thread" -> e.s \in Live(m) /\ Others(m, e.m, {m.cur, e.s})
    [] OTHER -> TRUE

\* P07: a crash changes nothing but what it is said to change
CrashExact(p, m, e) ==
  e.a = "crash" =>
    /\ e.m.heap = m.heap /\ e.m.ch = m.ch /\ Len(e.m.roles) = Len(m.roles)
    /\ \A i \in Live(e.m) : m.thr[i] = e.m.thr[i]
    /\ \/ e.m.roles = m.roles /\ Cardinality(Live(e.m)) = Cardinality(Live(m)) - 1
       \/ \E r \in 1..Len(m.roles) :
            /\ \A q \in 1..Len(m.roles) \ {r} : e.m.roles[q] = m.roles[q]
            /\ \A x \in DOMAIN m.roles[r].f :
                 e.m.roles[r].f[x] = IF x \in DOMAIN m.roles[r].iv THEN m.roles[r].iv[x] ELSE m.roles[r].f[x]
            /\ \A i \in Live(m) : i \in Live(e.m) <=> Last(m.thr[i].st).o # r

\* P18: a delivery takes one message, every other step none; sends come after those there are
MessagesOnce(m, e) ==
  CASE e.a = "deliver" -> \E i \in 1..Len(m.ch) : IsPrefixOf(DropAt(m.ch, i), e.m.ch)
    [] e.a = "crash" -> e.m.ch = m.ch
    [] OTHER -> IsPrefixOf(m.ch, e.m.ch)

\* instances are created, not removed, and keep their parameters
RolesStay(m, e) ==
  /\ Len(m.roles) <= Len(e.m.roles)
  /\ \A r \in 1..Len(m.roles) : e.m.roles[r].n = m.roles[r].n /\ DOMAIN e.m.roles[r].p = DOMAIN m.roles[r].p

GoodStep(p, m, e) ==
  StartsWithin(p, m, e) /\ OneActor(m, e) /\ CrashExact(p, m, e) /\ MessagesOnce(m, e) /\ RolesStay(m, e)
=============================================================================
