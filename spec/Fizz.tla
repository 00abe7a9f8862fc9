-------------------------------- MODULE Fizz --------------------------------
(***************************************************************************)
(* The transition semantics of the specification language, as an           *)
(* executable definition.  A program `p` (JSON, see lib/tla.py) is a set   *)
(* of numbered blocks of statements and definitions that refer to them.    *)
(*                                                                         *)
(* The state of a program is a machine `m`:                                *)
(*    heap   state variables                                               *)
(*    roles  role instances  [n, p, f, iv]  (name, params, fields, values  *)
(*           that ephemeral fields return to when the instance crashes)    *)
(*    thr    in-flight actions; [st |-> <<>>] is a free slot               *)
(*    cur    the in-flight action that executed last (0: none)             *)
(*    rets   values returned by the transition into this state             *)
(*    ch     undelivered channel messages                                  *)
(*    d,cnt  actions started so far (kept only when bounds are studied)    *)
(*                                                                         *)
(* A transition runs one in-flight action from a yield point to its next   *)
(* yield point.  `Run` is that relation, built from micro-steps that       *)
(* mirror the checker's statement rules; c = [m, en, tp, tr, lb]:          *)
(*    en  an enabling statement was executed in this transition            *)
(*    tp  the transition counts although nothing enabling was executed     *)
(*    tr  the nondeterministic choices made, in order                      *)
(*    lb  the statement labels passed, in order                            *)
(***************************************************************************)
EXTENDS Values

EmptyFn == [z \in {} |-> 0]
Put(f, k, v) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN v ELSE f[z]]
Without(f, ks) == [z \in DOMAIN f \ ks |-> f[z]]

NilThr == [st |-> <<>>]
IsNil(t) == t.st = <<>>

EmptyM == [heap |-> EmptyFn, roles |-> <<>>, thr |-> <<>>, cur |-> 0,
           rets |-> EmptyFn, ch |-> <<>>, d |-> 0, cnt |-> EmptyFn]

RECURSIVE StripNil(_)
StripNil(ts) == IF ts # <<>> /\ IsNil(Last(ts)) THEN StripNil(Front(ts)) ELSE ts

Live(m) == {i \in 1..Len(m.thr) : ~IsNil(m.thr[i])}

\* an in-flight action disappears
RemoveThr(m, i) ==
  [m EXCEPT !.thr = StripNil([m.thr EXCEPT ![i] = NilThr]), !.cur = IF @ = i THEN 0 ELSE @]

AddThr(m, fr) ==
  LET free == {i \in 1..Len(m.thr) : IsNil(m.thr[i])}
      i == IF free = {} THEN Len(m.thr) + 1 ELSE Min(free)
      t == [st |-> <<fr>>]
  IN IF free = {} THEN [m EXCEPT !.thr = Append(m.thr, t), !.cur = i]
     ELSE [m EXCEPT !.thr[i] = t, !.cur = i]

Frame(d, o, ret, arg) == [d |-> d, o |-> o, ret |-> ret, loc |-> EmptyFn, arg |-> arg, ctl |-> <<>>]

Fr(m) == Last(m.thr[m.cur].st)
SetFr(m, f) == [m EXCEPT !.thr[m.cur].st[Len(m.thr[m.cur].st)] = f]
PushFr(m, f) == [m EXCEPT !.thr[m.cur].st = Append(@, f)]
PopFr(m) == [m EXCEPT !.thr[m.cur].st = Front(@)]

----------------------------------------------------------------------------
(* Names and expressions *)

RoleAttr(r, a) == IF a \in DOMAIN r.f THEN r.f[a] ELSE IF a \in DOMAIN r.p THEN r.p[a] ELSE VErr

Lookup(p, m, f, x) ==
  IF x \in DOMAIN f.loc THEN f.loc[x]
  ELSE IF x \in DOMAIN f.arg THEN f.arg[x]
  ELSE IF x = "self" THEN <<"r", f.o>>
  ELSE IF x \in DOMAIN m.heap THEN m.heap[x]
  ELSE IF x \in DOMAIN p.consts THEN p.consts[x]
  ELSE VErr

----------------------------------------------------------------------------
(* Symmetric values.  A domain allocates values on demand: the active values are those that *)
(* occur anywhere in the machine.  Only what the kind of the domain preserves is meaningful: *)
(* identity (nominal), order (ordinal), distances (interval), positions on a ring           *)
(* (rotational); ordinal and interval values are kept in normal form (see Normal).          *)

RECURSIVE Syms(_)
Syms(v) ==
  CASE Tag(v) = "y" -> {v}
    [] IsSeqV(v) -> UNION {Syms(v[2][i]) : i \in 1..Len(v[2])}
    [] IsSetV(v) -> UNION {Syms(x) : x \in v[2]}
    [] IsMapV(v) -> UNION {Syms(x[1]) \cup Syms(x[2]) : x \in v[2]}
    [] Tag(v) = "B" -> UNION {Syms(x[1]) : x \in v[2]}
    [] Tag(v) = "R" -> UNION {Syms(x[2]) : x \in v[2]}
    [] OTHER -> {}
SymsF(f) == UNION {Syms(f[x]) : x \in DOMAIN f}
SymsFrame(fr) == SymsF(fr.loc) \cup SymsF(fr.arg) \cup UNION {SymsF(fr.ctl[i].rest) : i \in 1..Len(fr.ctl)}
AllSyms(m) ==
  SymsF(m.heap) \cup SymsF(m.rets)
  \cup UNION {SymsF(m.roles[r].p) \cup SymsF(m.roles[r].f) \cup SymsF(m.roles[r].iv) : r \in 1..Len(m.roles)}
  \cup UNION {UNION {SymsFrame(m.thr[i].st[j]) : j \in 1..Len(m.thr[i].st)} : i \in Live(m)}
  \cup UNION {SymsFrame(m.ch[i].f) : i \in 1..Len(m.ch)}
UsedIds(m, D) == {v[2][2] : v \in {v \in AllSyms(m) : v[2][1] = D.n}}

SymList(D, ids) == <<"l", [i \in 1..Cardinality(ids) |-> VY(D.n, SetToSortSeq(ids, LAMBDA a, b : a < b)[i], D.mod)]>>
Active(m, D) == IF D.mat THEN 0..(D.lim - 1) ELSE UsedIds(m, D)

\* the next value a domain allocates
FreshId(m, D) ==
  LET U == UsedIds(m, D) IN
  IF D.kind \in {"ordinal", "interval"} THEN IF U = {} THEN 0 ELSE Max(U) + 1
  ELSE Min((0..D.lim) \ U)
CanFresh(m, D) ==
  LET U == UsedIds(m, D) IN
  /\ Cardinality(U) < D.lim
  /\ D.kind = "interval" /\ U # {} => FreshId(m, D) - Min(U) <= D.div
WithFresh(m, D) == IF CanFresh(m, D) THEN Active(m, D) \cup {FreshId(m, D)} ELSE Active(m, D)

DomOp(m, D, op) ==
  CASE op = "values" -> SymList(D, Active(m, D))
    [] op = "choices" -> SymList(D, IF D.mat THEN Active(m, D) ELSE WithFresh(m, D))
    [] op = "fresh" -> IF CanFresh(m, D) THEN VY(D.n, FreshId(m, D), D.mod) ELSE VErr
    [] op \in {"choose", "min", "max"} ->
         IF Active(m, D) = {} THEN VY(D.n, FreshId(m, D), D.mod)
         ELSE VY(D.n, IF op = "max" THEN Max(Active(m, D)) ELSE Min(Active(m, D)), D.mod)

\* the gaps between the active values of an ordinal domain; gap j lies below the j-th least value
Segments(m, D, after, before) ==
  LET U == UsedIds(m, D)
      n == Cardinality(U)
      id(j) == SetToSortSeq(U, LAMBDA a, b : a < b)[j]
      ok(j) == /\ after # None => j > 0 /\ id(j) >= after[2][2]
               /\ before # None => j < n /\ id(j + 1) <= before[2][2]
      J == {j \in 0..n : IF n = 0 THEN TRUE ELSE ok(j)}
  IN <<"l", [i \in 1..Cardinality(J) |-> <<"g", <<D.n, SetToSortSeq(J, LAMBDA a, b : a < b)[i]>>>>]>>

RECURSIVE MapSym(_, _)
\* replaces the ids of symmetric values: F is a function from <<domain, id>> to id
MapSym(F, v) ==
  CASE Tag(v) = "y" -> IF <<v[2][1], v[2][2]>> \in DOMAIN F THEN <<"y", <<v[2][1], F[<<v[2][1], v[2][2]>>], v[2][3]>>>> ELSE v
    [] IsSeqV(v) -> <<v[1], [i \in 1..Len(v[2]) |-> MapSym(F, v[2][i])]>>
    [] IsSetV(v) -> <<v[1], {MapSym(F, x) : x \in v[2]}>>
    [] IsMapV(v) -> <<v[1], {<<MapSym(F, x[1]), MapSym(F, x[2])>> : x \in v[2]}>>
    [] Tag(v) = "B" -> <<"B", {<<MapSym(F, x[1]), x[2]>> : x \in v[2]}>>
    [] Tag(v) = "R" -> <<"R", {<<x[1], MapSym(F, x[2])>> : x \in v[2]}>>
    [] OTHER -> v
MapSymF(F, f) == [x \in DOMAIN f |-> MapSym(F, f[x])]
MapSymFrame(F, fr) == [fr EXCEPT !.loc = MapSymF(F, @), !.arg = MapSymF(F, @),
                                 !.ctl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.rest = MapSymF(F, @)]]]
MapSymM(F, m) ==
  [m EXCEPT !.heap = MapSymF(F, @), !.rets = MapSymF(F, @),
            !.roles = [r \in 1..Len(@) |-> [@[r] EXCEPT !.p = MapSymF(F, @), !.f = MapSymF(F, @), !.iv = MapSymF(F, @)]],
            !.thr = [i \in 1..Len(@) |-> [st |-> [j \in 1..Len(@[i].st) |-> MapSymFrame(F, @[i].st[j])]]],
            !.ch = [i \in 1..Len(@) |-> [@[i] EXCEPT !.f = MapSymFrame(F, @)]]]

\* ranks of ordinal values, distances from the least interval value
Normal(p, m) ==
  LET Ds == {D \in Range(p.doms) : D.kind \in {"ordinal", "interval"} /\ ~D.mat}
      ids(D) == UsedIds(m, D)
      dom == UNION {{<<D.n, i>> : i \in ids(D)} : D \in Ds}
      new(k) == LET D == CHOOSE D \in Ds : D.n = k[1] IN
                IF D.kind = "ordinal" THEN Cardinality({j \in ids(D) : j < k[2]}) ELSE k[2] - Min(ids(D))
  IN IF Ds = {} THEN m ELSE MapSymM([k \in dom |-> new(k)], m)

\* arithmetic must not lead out of a domain
Spread(p, m) ==
  \A D \in {D \in Range(p.doms) : D.kind \in {"ordinal", "interval"}} :
    LET U == UsedIds(m, D) IN
    U # {} => /\ Cardinality(U) <= D.lim
              /\ D.kind = "interval" /\ D.div > 0 => Max(U) - Min(U) <= D.div

----------------------------------------------------------------------------
RECURSIVE Ev(_, _, _, _)
RoleKey(m, r) ==   \* name and rank of a role instance among those of its role
  m.roles[r].n \o "#" \o ToString(Cardinality({q \in 1..(r - 1) : m.roles[q].n = m.roles[r].n}))

RECURSIVE NextStates(_, _)
EvAll(p, m, f, es) == IF es = <<>> THEN <<>> ELSE TLCEval([i \in 1..Len(es) |-> Ev(p, m, f, es[i])])

Ev(p, m, f, e) ==
  LET o == e[1] IN
  CASE o = "int" -> VI(e[2])
    [] o = "str" -> VS(e[2])
    [] o = "bool" -> VB(e[2])
    [] o = "none" -> None
    [] o = "val" -> e[2]
    [] o = "dom" -> DomOp(m, p.domvars[e[2]], e[3])
    [] o = "chan" -> <<"c", e[2]>>
    [] o = "stub" -> <<"stub", Ev(p, m, f, e[3])[2], Ev(p, m, f, e[2])[2]>>
    [] o = "segs" -> Segments(m, p.domvars[e[2]], IF e[3] = <<"none">> THEN None ELSE Ev(p, m, f, e[3]),
                              IF e[4] = <<"none">> THEN None ELSE Ev(p, m, f, e[4]))
    [] o = "var" -> Lookup(p, m, f, e[2])
    [] o = "attr" -> LET b == Ev(p, m, f, e[2]) IN
                     IF Tag(b) = "r" THEN RoleAttr(m.roles[b[2]], e[3])
                     ELSE IF Tag(b) = "R" THEN MapGet(b, e[3]) ELSE VErr
    [] o = "bin" -> BinOp(e[2], Ev(p, m, f, e[3]), Ev(p, m, f, e[4]))
    [] o = "and" -> LET a == Ev(p, m, f, e[2]) IN IF Truth(a) THEN Ev(p, m, f, e[3]) ELSE a
    [] o = "or" -> LET a == Ev(p, m, f, e[2]) IN IF Truth(a) THEN a ELSE Ev(p, m, f, e[3])
    [] o = "not" -> VB(~Truth(Ev(p, m, f, e[2])))
    [] o = "ife" -> IF Truth(Ev(p, m, f, e[2])) THEN Ev(p, m, f, e[3]) ELSE Ev(p, m, f, e[4])
    [] o = "list" -> <<"l", EvAll(p, m, f, e[2])>>
    [] o = "tuple" -> <<"t", EvAll(p, m, f, e[2])>>
    [] o = "set" -> <<"S", Range(EvAll(p, m, f, e[2]))>>
    [] o = "gset" -> <<"G", Range(EvAll(p, m, f, e[2]))>>
    [] o = "bag" -> BagOfSeq(EvAll(p, m, f, e[2]))
    [] o \in {"dict", "gmap"} ->
         FoldSeq(LAMBDA kv, acc : MapPut(acc, Ev(p, m, f, kv[1]), Ev(p, m, f, kv[2])),
                 <<IF o = "dict" THEN "d" ELSE "M", {}>>, e[2])
    [] o \in {"rec", "struct"} -> <<"R", {<<e[2][i][1], Ev(p, m, f, e[2][i][2])>> : i \in 1..Len(e[2])}>>
    [] o = "idx" -> Index(Ev(p, m, f, e[2]), Ev(p, m, f, e[3]))
    [] o = "fn" -> Fn(e[2], EvAll(p, m, f, e[3]))
    [] o = "meth" -> Meth(Ev(p, m, f, e[2]), e[3], EvAll(p, m, f, e[4]))
    [] o = "comp" ->
         LET xs == Elems(Ev(p, m, f, e[4]))
             G(x) == [f EXCEPT !.loc = Put(@, e[3], x)]
         IN <<"l", FoldLeft(LAMBDA acc, x : IF Truth(Ev(p, m, G(x), e[5])) THEN Append(acc, Ev(p, m, G(x), e[2])) ELSE acc,
                            <<>>, xs)>>
    [] o = "nexts" -> NextStates(p, m)
    \* the transition (of next_states()) is of the role: e[2] the transition, e[3] the role
    [] o = "isof" -> LET v == Ev(p, m, f, e[3]) IN VB(<<"role_ref", VS(RoleKey(m, v[2]))>> \in Ev(p, m, f, e[2])[2])
    [] OTHER -> VErr

\* a role is the record of its fields and parameters
Deep(mm, v) ==
  IF Tag(v) = "r" THEN LET R == mm.roles[v[2]] IN
                       <<"R", {<<x, RoleAttr(R, x)>> : x \in DOMAIN R.f \cup DOMAIN R.p}>>
  ELSE v
StateRec(mm) == <<"R", {<<x, Deep(mm, mm.heap[x])>> : x \in DOMAIN mm.heap}>>

NoFrame == [d |-> 0, o |-> 0, ret |-> "", loc |-> EmptyFn, arg |-> EmptyFn, ctl |-> <<>>]
\* the value of an expression over a state, outside of any action
EvState(p, m, e) == Ev(p, m, NoFrame, e)

SetVar(p, m, x, v) ==
  LET f == Fr(m) IN
  IF x \in DOMAIN f.loc THEN SetFr(m, [f EXCEPT !.loc[x] = v])
  ELSE IF x \in DOMAIN f.arg THEN SetFr(m, [f EXCEPT !.arg[x] = v])
  ELSE IF x \in DOMAIN m.heap THEN [m EXCEPT !.heap[x] = v]
  ELSE IF x \in DOMAIN p.consts THEN m
  ELSE SetFr(m, [f EXCEPT !.loc = Put(@, x, v)])

SetLoc(m, x, v) == LET f == Fr(m) IN SetFr(m, [f EXCEPT !.loc = Put(@, x, v)])

RECURSIVE AssignTo(_, _, _, _)
AssignTo(p, m, t, v) ==
  CASE t[1] = "var" -> SetVar(p, m, t[2], v)
    [] t[1] = "attr" -> LET b == Ev(p, m, Fr(m), t[2]) IN
                        IF Tag(b) = "R" THEN AssignTo(p, m, t[2], MapPut(b, t[3], v))
                        ELSE [m EXCEPT !.roles[b[2]].f = Put(@, t[3], v)]
    [] t[1] = "idx" -> AssignTo(p, m, t[2], PutIndex(Ev(p, m, Fr(m), t[2]), Ev(p, m, Fr(m), t[3]), v))

----------------------------------------------------------------------------
(* Control *)

Top(c) == Last(Fr(c.m).ctl)
SetTop(c, e) == LET f == Fr(c.m) IN [c EXCEPT !.m = SetFr(c.m, [f EXCEPT !.ctl[Len(f.ctl)] = e])]
PopTop(c) == LET f == Fr(c.m) IN [c EXCEPT !.m = SetFr(c.m, [f EXCEPT !.ctl = Front(@)])]
PushTop(c, e) == LET f == Fr(c.m) IN [c EXCEPT !.m = SetFr(c.m, [f EXCEPT !.ctl = Append(@, e)])]

\* every control entry has the same fields, so that entries can be compared
BlkE(b, fl, i) == [t |-> "blk", b |-> b, fl |-> fl, i |-> i, dn |-> {}, x |-> "", rest |-> <<>>]
AnyE(fl) == [t |-> "any", b |-> 0, fl |-> fl, i |-> 0, dn |-> {}, x |-> "", rest |-> <<>>]
ForE(fl, b, x, rest) == [t |-> "for", b |-> b, fl |-> fl, i |-> 0, dn |-> {}, x |-> x, rest |-> rest]
WhileE(fl, b, s) == [t |-> "while", b |-> b, fl |-> fl, i |-> s, dn |-> {}, x |-> "", rest |-> <<>>]

Stmts(p, b) == p.blocks[b].s
BLen(p, b) == Len(p.blocks[b].s)

FlowOf(fl, c) == IF fl # "" THEN fl ELSE Top(c).fl

\* a parallel block (or the end of one of its statements): the next statement is not chosen yet
UndecidedF(f) == f.ctl # <<>> /\ Last(f.ctl).t = "blk" /\ Last(f.ctl).fl = "parallel" /\ Last(f.ctl).i = 0
Undecided(c) == c.m.cur # 0 /\ UndecidedF(Fr(c.m))
AtEnd(p, c) == LET f == Fr(c.m) IN f.ctl # <<>> /\ Last(f.ctl).t = "blk" /\ Last(f.ctl).i > BLen(p, Last(f.ctl).b)

\* choose statement j of the undecided parallel block
DecideF(f, j) == LET e == Last(f.ctl) IN [f EXCEPT !.ctl[Len(f.ctl)] = [e EXCEPT !.i = j, !.dn = @ \cup {j}]]
Open(p, f) == LET e == Last(f.ctl) IN (1..BLen(p, e.b)) \ e.dn

\* end of the statement of the top entry: y says whether this is a yield point
RECURSIVE EOS(_, _)
EOS(p, c) ==
  LET e == Top(c) IN
  CASE e.t = "blk" /\ e.fl = "atomic" -> [c |-> SetTop(c, [e EXCEPT !.i = @ + 1]), y |-> FALSE]
    [] e.t = "blk" /\ e.fl = "serial" -> [c |-> SetTop(c, [e EXCEPT !.i = @ + 1]), y |-> c.en]
    [] e.t = "blk" /\ e.fl = "oneof" -> [c |-> SetTop(c, [e EXCEPT !.i = BLen(p, e.b) + 1]), y |-> FALSE]
    [] e.t = "blk" /\ e.fl = "parallel" ->
         IF e.dn = 1..BLen(p, e.b)
         THEN [c |-> SetTop(c, [e EXCEPT !.i = BLen(p, e.b) + 1]), y |-> FALSE]
         ELSE [c |-> SetTop(c, [e EXCEPT !.i = 0]), y |-> c.en]
    [] e.t = "any" ->
         LET c1 == PopTop(c)
             q == Top(c1)
         IN IF q.fl \in {"oneof", "parallel"} THEN EOS(p, c1)
            ELSE [c |-> SetTop(c1, [q EXCEPT !.i = @ + 1]), y |-> e.fl = "serial" /\ c.en]
    [] e.t \in {"for", "while"} -> [c |-> c, y |-> e.fl # "atomic" /\ c.en]

\* the ephemeral fields of a new instance remember the value Init gave them
SaveInit(p, m, r) ==
  LET R == m.roles[r]
      eph == {a \in DOMAIN R.f : a \notin Range(p.durable[R.n].d) /\ p.durable[R.n].has
                                  /\ (p.durable[R.n].inv => a \in Range(p.durable[R.n].e))}
  IN [m EXCEPT !.roles[r].iv = [a \in eph |-> R.f[a]]]

\* the top frame is finished without a return statement
FrameEnd(p, c) ==
  LET f == Fr(c.m)
      D == p.defs[f.d]
      root == Len(c.m.thr[c.m.cur].st) = 1
      m1 == IF D.kind = "init"
            THEN [c.m EXCEPT !.heap = [x \in (DOMAIN f.loc \cap Range(p.svars)) |-> f.loc[x]]]
            ELSE IF D.kind = "rinit" /\ ~root THEN SaveInit(p, c.m, f.o) ELSE c.m
  IN IF root THEN [c |-> [c EXCEPT !.m = RemoveThr(m1, m1.cur)], y |-> TRUE]
     ELSE LET m2 == PopFr(m1)
              m3 == IF f.ret = "" THEN m2 ELSE SetVar(p, m2, f.ret, None)
          IN EOS(p, [c EXCEPT !.m = m3, !.en = (f.ret # "") \/ c.en])

EndOfBlock(p, c) ==
  LET c1 == PopTop(c) IN
  IF Fr(c1.m).ctl = <<>> THEN FrameEnd(p, c1)
  ELSE LET r == EOS(p, c1) IN
       IF r.y \/ Undecided(r.c) THEN r
       ELSE [c |-> r.c, y |-> Top(r.c).fl \in {"serial", "parallel"} /\ r.c.en]

\* a branch of a nondeterministic choice
Fork(c, m, lab) == [c EXCEPT !.m = m, !.en = c.en \/ c.tp, !.tp = FALSE, !.tr = Append(@, lab)]

RECURSIVE Unwind(_, _)
\* after a yield: leave the blocks that are finished
Unwind(p, c) == IF c.m.cur # 0 /\ c.m.thr[c.m.cur].st # <<>> /\ AtEnd(p, c)
                THEN LET r == EndOfBlock(p, c)
                         dead == Len(Fr(c.m).ctl) = 1 /\ Len(c.m.thr[c.m.cur].st) = 1
                     IN IF dead \/ Undecided(r.c) THEN r.c ELSE Unwind(p, r.c)
                ELSE c

\* outcome of a transition: k = "yield" | "abort" | "idle" (nothing enabling executed) | "err"
Yielded(p, c) ==
  IF p.doms = <<>> THEN {[c |-> c, k |-> IF c.en \/ c.tp THEN "yield" ELSE "idle"]}
  ELSE {[c |-> [c EXCEPT !.m = Normal(p, @)], k |-> IF ~Spread(p, c.m) THEN "abort" ELSE IF c.en \/ c.tp THEN "yield" ELSE "idle"]}
Aborted(c) == {[c |-> c, k |-> "abort"]}

RECURSIVE Run(_, _)
\* end of a statement reached inside Execute
After(p, r) == IF r.y THEN Yielded(p, Unwind(p, r.c)) ELSE Run(p, r.c)

EnterBlock(p, c, b) ==
  LET fl == IF p.blocks[b].fl # "" THEN p.blocks[b].fl ELSE Top(c).fl IN
  CASE fl \in {"atomic", "serial"} -> Run(p, PushTop(c, BlkE(b, fl, 1)))
    [] fl = "parallel" -> Run(p, PushTop(c, BlkE(b, fl, 0)))
    [] fl = "oneof" -> UNION {Run(p, Fork(c, PushTop(c, BlkE(b, fl, j)).m, <<"Stmt", j - 1>>)) : j \in 1..BLen(p, b)}

\* role creation: [m, v] with the new instance and its reference
NewRole(p, m, e) ==
  LET ps == FoldSeq(LAMBDA kv, acc : Put(acc, kv[1], Ev(p, m, Fr(m), kv[2])), EmptyFn, e[3])
  IN [m |-> [m EXCEPT !.roles = Append(@, [n |-> e[2], p |-> ps, f |-> EmptyFn, iv |-> EmptyFn])],
      v |-> <<"r", Len(m.roles) + 1>>]

AfterNewRole(p, c) ==
  LET r == Len(c.m.roles)
      d == p.rinit[c.m.roles[r].n]
  IN IF d = 0 THEN After(p, EOS(p, c))
     ELSE Run(p, [c EXCEPT !.m = PushFr(c.m, Frame(d, r, "", EmptyFn))])

Enabled1(c, m) == [c EXCEPT !.m = m, !.en = TRUE]

\* no value can be allocated: the step is disabled
NoRoom(p, c, e) == e[1] = "dom" /\ e[3] \in {"fresh", "choose", "min", "max"} /\
                   Ev(p, c.m, Fr(c.m), e) = VErr

\* a new ordinal value in a gap: the values above it move up
DoGap(p, c, s) ==
  LET g == Lookup(p, c.m, Fr(c.m), s.e[2])
      D == CHOOSE D \in Range(p.doms) : D.n = g[2][1]
      U == UsedIds(c.m, D)
      rank(i) == Cardinality({j \in U : j < i})
      F == [k \in {<<D.n, i>> : i \in U} |-> IF rank(k[2]) < g[2][2] THEN rank(k[2]) ELSE rank(k[2]) + 1]
  IN IF Cardinality(U) >= D.lim THEN Aborted(c)
     ELSE LET m1 == MapSymM(F, c.m)
          IN After(p, EOS(p, Enabled1(c, AssignTo(p, m1, s.t, VY(D.n, g[2][2], D.mod)))))

DoAssign(p, c, s) ==
  IF s.e[1] = "gapfresh" THEN DoGap(p, c, s)
  ELSE IF s.e[1] = "newrole"
  THEN LET nr == NewRole(p, c.m, s.e) IN AfterNewRole(p, Enabled1(c, AssignTo(p, nr.m, s.t, nr.v)))
  ELSE IF NoRoom(p, c, s.e) THEN Aborted(c)
  ELSE After(p, EOS(p, Enabled1(c, AssignTo(p, c.m, s.t, Ev(p, c.m, Fr(c.m), s.e)))))

DoMutate(p, c, s) ==
  LET isnew == Len(s.a) = 1 /\ s.a[1][1] = "newrole"
      nr == NewRole(p, c.m, s.a[1])
      m0 == IF isnew THEN nr.m ELSE c.m
      as == IF isnew THEN <<nr.v>> ELSE EvAll(p, c.m, Fr(c.m), s.a)
      m1 == AssignTo(p, m0, s.t, Mutate(Ev(p, m0, Fr(m0), s.t), s.m, as))
  IN IF isnew THEN AfterNewRole(p, Enabled1(c, m1))
     ELSE IF \E i \in 1..Len(s.a) : NoRoom(p, c, s.a[i]) THEN Aborted(c) ELSE After(p, EOS(p, Enabled1(c, m1)))

DoIf(p, c, s) ==
  LET B == {i \in 1..Len(s.brs) : Truth(Ev(p, c.m, Fr(c.m), s.brs[i].c))} IN
  IF B = {} THEN After(p, EOS(p, c)) ELSE EnterBlock(p, c, s.brs[Min(B)].b)

DoAny(p, c0, s) ==
  LET c == [c0 EXCEPT !.tp = FALSE]
      xs == Elems(Ev(p, c.m, Fr(c.m), s.it))
      blk == s.b # 0
      Bind(x) == IF blk THEN SetLoc(c.m, s.v, x) ELSE SetVar(p, c.m, s.v, x)
      ok(i) == Truth(Ev(p, Bind(xs[i]), [Fr(Bind(xs[i])) EXCEPT !.loc = Put(@, s.v, xs[i])], s.c))
      I == {i \in 1..Len(xs) : ok(i)}
      \* a fair choice can be told from other choices by statement and role instance
      Lab(i) == IF s.fid = 0 THEN <<"Any", s.v, xs[i]>> ELSE <<"Any", s.v, xs[i], s.fid, Fr(c.m).o>>
  IN IF I = {} THEN IF blk THEN After(p, EOS(p, c)) ELSE Aborted(c)
     ELSE IF blk
     THEN LET fl == FlowOf(s.fl, c) IN
          UNION {EnterBlock(p, PushTop(Fork(c, Bind(xs[i]), Lab(i)), AnyE(fl)), s.b) : i \in I}
     ELSE UNION {LET f1 == Fork([c EXCEPT !.en = TRUE], Bind(xs[i]), Lab(i))
                     e == Top(f1)
                 IN IF e.fl \in {"oneof", "parallel"} THEN After(p, EOS(p, f1))
                    ELSE Run(p, SetTop(f1, [e EXCEPT !.i = @ + 1])) : i \in I}

RECURSIVE PopToLoop(_)
PopToLoop(c) == IF Top(c).t \in {"for", "while"} THEN c ELSE PopToLoop(PopTop(c))
RECURSIVE PopToBody(_)
PopToBody(c) == LET f == Fr(c.m) IN
                IF f.ctl[Len(f.ctl) - 1].t \in {"for", "while"} THEN c ELSE PopToBody(PopTop(c))

DoReturn(p, c, s) ==
  LET f == Fr(c.m)
      D == p.defs[f.d]
      v == IF s.has THEN Ev(p, c.m, f, s.e) ELSE None
      root == Len(c.m.thr[c.m.cur].st) = 1
      key == IF f.o = 0 THEN D.n ELSE RoleKey(c.m, f.o) \o "." \o D.n
  IN IF root
     THEN LET m1 == RemoveThr(c.m, c.m.cur)
          IN IF v = None THEN Yielded(p, [c EXCEPT !.m = m1])
             ELSE Yielded(p, [c EXCEPT !.m = [m1 EXCEPT !.rets = Put(@, key, v)], !.en = TRUE])
     ELSE LET m2 == PopFr(c.m)
              m3 == IF f.ret = "" THEN m2 ELSE SetVar(p, m2, f.ret, v)
          IN After(p, EOS(p, [c EXCEPT !.m = m3, !.en = (f.ret # "") \/ c.en]))

DoCall(p, c, s) ==
  LET f == Fr(c.m)
      recv == IF s.r = "" THEN None ELSE Lookup(p, c.m, f, s.r)
      stub == Tag(recv) = "stub"
      ro == IF s.r = "" THEN 0 ELSE recv[2]
      d == IF s.r = "" THEN p.fdefs[s.n] ELSE p.rfuncs[c.m.roles[ro].n][s.n]
      D == p.defs[d]
      pos == [i \in 1..Len(s.a) |-> <<D.params[i].n, Ev(p, c.m, f, s.a[i])>>]
      named == [i \in 1..Len(s.kw) |-> <<s.kw[i][1], Ev(p, c.m, f, s.kw[i][2])>>]
      given == FoldSeq(LAMBDA kv, acc : Put(acc, kv[1], kv[2]), EmptyFn, pos \o named)
      arg == FoldSeq(LAMBDA pr, acc : IF pr.n \in DOMAIN acc THEN acc ELSE Put(acc, pr.n, Ev(p, c.m, f, pr.df)), given, D.params)
      c1 == [c EXCEPT !.lb = Append(@, s.n \o ".call")]
      fr == Frame(d, ro, s.v, arg)
  IN IF stub
     THEN After(p, EOS(p, [c1 EXCEPT !.en = TRUE, !.m = [c1.m EXCEPT !.ch = Append(@, [c |-> recv[3], o |-> ro, f |-> fr])]]))
     ELSE Run(p, [c1 EXCEPT !.m = PushFr(c1.m, fr)])

RunStmt(p, c, s) ==
  CASE s.k = "assign" -> DoAssign(p, c, s)
    [] s.k = "mut" -> DoMutate(p, c, s)
    [] s.k = "pass" -> LET c1 == [c EXCEPT !.en = TRUE]
                           e == Top(c1)
                       IN IF e.fl \in {"atomic", "serial"} THEN Run(p, SetTop(c1, [e EXCEPT !.i = @ + 1]))
                          ELSE After(p, EOS(p, c1))
    [] s.k = "block" -> EnterBlock(p, c, s.b)
    [] s.k = "if" -> DoIf(p, c, s)
    [] s.k = "any" -> DoAny(p, c, s)
    [] s.k = "for" -> Run(p, PushTop(c, ForE(FlowOf(s.fl, c), s.b, s.v, Elems(Ev(p, c.m, Fr(c.m), s.it)))))
    [] s.k = "while" -> Run(p, PushTop(c, WhileE(FlowOf(s.fl, c), s.b, s.w)))
    [] s.k = "break" -> After(p, EOS(p, PopTop(PopToLoop(c))))
    [] s.k = "continue" -> LET c1 == PopToBody(c)
                               e == Top(c1)
                           IN Run(p, SetTop(c1, [e EXCEPT !.i = BLen(p, e.b) + 1]))
    [] s.k = "return" -> DoReturn(p, c, s)
    [] s.k = "require" -> IF Truth(Ev(p, c.m, Fr(c.m), s.e)) THEN After(p, EOS(p, [c EXCEPT !.tp = FALSE])) ELSE Aborted(c)
    [] s.k = "call" -> DoCall(p, c, s)

ForHead(p, c) ==
  LET e == Top(c) IN
  IF e.rest = <<>> THEN After(p, EOS(p, PopTop(c)))
  ELSE IF e.fl \in {"atomic", "serial"}
  THEN EnterBlock(p, LET c1 == SetTop(c, [e EXCEPT !.rest = Tail(@)]) IN [c1 EXCEPT !.m = SetLoc(c1.m, e.x, Head(e.rest))], e.b)
  ELSE UNION {LET rest == SubSeq(e.rest, 1, i - 1) \o SubSeq(e.rest, i + 1, Len(e.rest))
                  c1 == SetTop(c, [e EXCEPT !.rest = rest])
              IN EnterBlock(p, Fork(c1, SetLoc(c1.m, e.x, e.rest[i]), <<"For", e.rest[i]>>), e.b) : i \in 1..Len(e.rest)}

WhileHead(p, c) ==
  LET e == Top(c) IN
  IF Truth(Ev(p, c.m, Fr(c.m), p.conds[e.i])) THEN EnterBlock(p, c, e.b) ELSE After(p, EOS(p, PopTop(c)))

Run(p, c) ==
  LET f == Fr(c.m) IN
  IF f.ctl = <<>>
  THEN EnterBlock(p, c, p.defs[f.d].b)
  ELSE IF Undecided(c)
  THEN UNION {Run(p, Fork(c, SetFr(c.m, DecideF(f, j)), <<"Stmt", j - 1>>)) : j \in Open(p, f)}
  ELSE IF AtEnd(p, c)
  THEN LET r == EndOfBlock(p, c) IN IF r.y THEN Yielded(p, r.c) ELSE Run(p, r.c)
  ELSE LET e == Last(f.ctl) IN
       CASE e.t = "for" -> ForHead(p, c)
         [] e.t = "while" -> WhileHead(p, c)
         [] OTHER -> LET s == Stmts(p, e.b)[e.i]
                         c1 == IF s.label = "" THEN c ELSE [c EXCEPT !.lb = Append(@, p.defs[f.d].fname \o "." \o s.label)]
                     IN RunStmt(p, c1, s)

----------------------------------------------------------------------------
(* Transitions between yield points *)

Start(m) == [m |-> [m EXCEPT !.rets = EmptyFn], en |-> FALSE, tp |-> FALSE, tr |-> <<>>, lb |-> <<>>]

\* at a yield point inside a parallel block the next statement is decided by whatever happens next
Bases(p, m) ==
  IF m.cur # 0 /\ UndecidedF(Fr(m)) THEN {SetFr(m, DecideF(Fr(m), j)) : j \in Open(p, Fr(m))} ELSE {m}

InitRuns(p) == Run(p, Start(AddThr(EmptyM, Frame(p.init, 0, "", EmptyFn))))

\* limits --------------------------------------------------------------------
RootName(p, m, i) == LET fr == m.thr[i].st[1] IN p.defs[fr.d].fname
RootKey(p, m, i) == LET fr == m.thr[i].st[1] IN
                    IF fr.o = 0 THEN p.defs[fr.d].n ELSE RoleKey(m, fr.o) \o "." \o p.defs[fr.d].n
Count(m, k) == IF k \in DOMAIN m.cnt THEN m.cnt[k] ELSE 0
SumCount(m, ks) == FoldSet(LAMBDA k, a : a + Count(m, k), 0, ks)

\* an action may start: global and per-action limits
MayStart(p, m, d, r) ==
  LET D == p.defs[d]
      key == IF r = 0 THEN D.n ELSE RoleKey(m, r) \o "." \o D.n
      rolekeys == {RoleKey(m, q) \o "." \o D.n : q \in {q \in 1..Len(m.roles) : m.roles[q].n = D.role}}
      conc(ks) == Cardinality({i \in Live(m) : RootKey(p, m, i) \in ks})
      Lim(name, ks, cntks) ==
        IF name \in DOMAIN p.aopts
        THEN /\ p.aopts[name].ma > 0 => SumCount(m, cntks) < p.aopts[name].ma
             /\ p.aopts[name].mc > 0 => conc(ks) < p.aopts[name].mc
        ELSE TRUE
  IN /\ p.track => m.d < p.maxact
     /\ Cardinality(Live(m)) < p.maxconc
     /\ Lim(key, {key}, {key})
     /\ r # 0 => /\ Lim(D.role \o "#." \o D.n, {key}, {key})
                 /\ Lim(D.role \o "." \o D.n, rolekeys, rolekeys)

Bump(p, m, key) == IF p.track THEN [m EXCEPT !.d = @ + 1, !.cnt = Put(@, key, Count(m, key) + 1)] ELSE m

\* s: the in-flight action that continues
Edge(kind, lab, s, o) == [a |-> kind, l |-> lab, s |-> s, tr |-> o.c.tr, lb |-> o.c.lb, m |-> o.c.m, k |-> o.k]
Keep(S) == {o \in S : o.k # "abort"}

ActionEdges(p, m) ==
  UNION {UNION {UNION {
      LET D == p.defs[d]
          key == IF r = 0 THEN D.n ELSE RoleKey(b, r) \o "." \o D.n
          o == Keep(Run(p, Start(AddThr(Bump(p, b, key), Frame(d, r, "", EmptyFn)))))
      IN {Edge("action", key, 0, x) : x \in o}
      : r \in (IF p.defs[d].role = "" THEN {0} ELSE {r \in 1..Len(b.roles) : b.roles[r].n = p.defs[d].role /\ MayStart(p, b, d, r)})}
      : d \in {d \in Range(p.actions) : p.defs[d].role # "" \/ MayStart(p, b, d, 0)}}
      : b \in Bases(p, m)}

ThreadEdges(p, m) ==
  UNION {UNION {
      LET o == Keep(Run(p, [Start([b EXCEPT !.cur = i]) EXCEPT !.tp = TRUE]))
      IN {Edge("thread", RootKey(p, m, i), i, x) : x \in o}
      : i \in Live(b)}
      : b \in Bases(p, m)}

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DeliverEdges(p, m) ==
  UNION {UNION {
      LET msg == b.ch[i]
          o == Keep(Run(p, [Start(AddThr([b EXCEPT !.ch = DropAt(@, i)], msg.f)) EXCEPT !.tp = TRUE]))   \* a message is taken
      IN {Edge("deliver", "channel-" \o ToString(msg.c) \o "-message-" \o ToString(Cardinality({j \in 1..(i - 1) : b.ch[j].c = msg.c})), 0, x) : x \in o}
      : i \in 1..Len(b.ch)}
      : b \in Bases(p, m)}

\* crashes ------------------------------------------------------------------
\* the in-flight action that just yielded is abandoned.  When the last step ended its action, others
\* need not be abandoned here, as that step could have been taken after they were abandoned as well
CrashThreadEdges(p, m) ==
  IF p.crash
  THEN {[a |-> "crash", l |-> "crash", s |-> 0, tr |-> <<>>, lb |-> <<>>, k |-> IF m.cur = 0 THEN "optcrash" ELSE "crash",
         m |-> [RemoveThr(m, i) EXCEPT !.rets = EmptyFn]]
        : i \in {i \in Live(m) : m.cur \in {0, i} /\ p.defs[m.thr[i].st[1].d].crash}}
  ELSE {}

\* instances waiting for a call they made to another instance do not crash
Waiting(m) == UNION {LET st == m.thr[i].st IN
                     {st[j].o : j \in 1..(Len(st) - 1)} \ {0, Last(st).o} : i \in Live(m)}

CrashRole(p, m, r) ==
  LET gone == {i \in Live(m) : Last(m.thr[i].st).o = r}
      m1 == FoldSet(LAMBDA i, acc : [acc EXCEPT !.thr[i] = NilThr], m, gone)
      ts == StripNil(m1.thr)
      R == m.roles[r]
  IN [m EXCEPT !.thr = ts, !.cur = IF @ \in gone THEN 0 ELSE @,
               !.rets = EmptyFn,
               !.roles[r].f = [a \in DOMAIN R.f |-> IF a \in DOMAIN R.iv THEN R.iv[a] ELSE R.f[a]]]

CrashRoleEdges(p, m) ==
  IF p.crash
  THEN {[a |-> "crash", l |-> "crash-" \o RoleKey(m, r), s |-> 0, tr |-> <<>>, lb |-> <<>>, k |-> "crash", m |-> CrashRole(p, m, r)]
        : r \in {r \in 1..Len(m.roles) : p.durable[m.roles[r].n].has /\ r \notin Waiting(m)}}
  ELSE {}

Edges(p, m) == ActionEdges(p, m) \cup ThreadEdges(p, m) \cup DeliverEdges(p, m)
AllEdges(p, m) == Edges(p, m) \cup CrashThreadEdges(p, m) \cup CrashRoleEdges(p, m)

\* next_states(): the steps that are possible in a state whatever the bounds of the exploration, except crashes
Unlimited(p) == [p EXCEPT !.maxconc = 1000000, !.track = FALSE, !.aopts = EmptyFn]
Started(p, m, lab) == CHOOSE x \in {<<p.defs[d].n, r>> : d \in Range(p.actions), r \in 0..Len(m.roles)} :
                        lab = IF x[2] = 0 THEN x[1] ELSE RoleKey(m, x[2]) \o "." \o x[1]
NextStates(p, m) ==
  LET es == {[a |-> e.a, l |-> e.l, s |-> e.s, m |-> e.m] : e \in {x \in Edges(Unlimited(p), m) : x.k = "yield"}}
      Rec(e) == LET st == Started(p, m, e.l) IN
        <<"R", {<<"kind", VS(IF e.a = "deliver" THEN "channel" ELSE e.a)>>,
                <<"name", IF e.a = "action" THEN VS(e.l) ELSE None>>,
                <<"action_name", IF e.a = "action" THEN VS(st[1]) ELSE None>>,
                <<"role_ref", IF e.a = "action" /\ st[2] # 0 THEN VS(RoleKey(m, st[2])) ELSE None>>,
                <<"state", StateRec(e.m)>>}>>
  IN <<"l", LET q == SetToSeq(es) IN [i \in 1..Len(q) |-> Rec(q[i])]>>
=============================================================================
