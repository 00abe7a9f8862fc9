------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values of the modelled specification language, as tagged tuples, and    *)
(* the operators of its expression language.                               *)
(*                                                                         *)
(*   <<"i",3>> <<"s","x">> <<"b",TRUE>> <<"n">>          scalars           *)
(*   <<"l",seq>>  <<"t",seq>>                            list, tuple       *)
(*   <<"S",set>>                                         set               *)
(*   <<"d",{<<k,v>>,...}>>                               dict              *)
(*   <<"B",{<<v,count>>,...}>>                           bag (multiset)    *)
(*   <<"G",set>>                                         genericset        *)
(*   <<"M",{<<k,v>>,...}>>                               genericmap        *)
(*   <<"R",{<<name,v>>,...}>>                            record            *)
(*   <<"r",i>>                                           i-th role instance *)
(*   <<"y",<<domain,id,modulus>>>>                       symmetric value    *)
(*   <<"c",i>>  <<"stub",i,c>>      channel, instance i behind channel c    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VI(n) == <<"i", n>>
VB(b) == <<"b", b>>
VS(s) == <<"s", s>>
None  == <<"n">>
VErr  == <<"err">>             \* an expression that the language rejects

Tag(v) == v[1]

IsSeqV(v) == Tag(v) \in {"l", "t"}
IsMapV(v) == Tag(v) \in {"d", "M"}
IsSetV(v) == Tag(v) \in {"S", "G"}

Truth(v) ==
  CASE Tag(v) = "b" -> v[2]
    [] Tag(v) = "i" -> v[2] # 0
    [] Tag(v) = "n" -> FALSE
    [] Tag(v) = "s" -> v[2] # ""
    [] IsSeqV(v) -> Len(v[2]) > 0
    [] Tag(v) \in {"S", "d", "B", "G", "M"} -> v[2] # {}
    [] OTHER -> TRUE

Keys(v) == {p[1] : p \in v[2]}
MapGet(v, k) == (CHOOSE p \in v[2] : p[1] = k)[2]
MapPut(v, k, x) == <<v[1], {p \in v[2] : p[1] # k} \cup {<<k, x>>}>>
BagCount(v, x) == IF \E p \in v[2] : p[1] = x THEN MapGet(v, x) ELSE 0
BagSize(v) == FoldSet(LAMBDA p, acc : acc + p[2], 0, v[2])
BagSet(v, x, n) == <<"B", {p \in v[2] : p[1] # x} \cup (IF n = 0 THEN {} ELSE {<<x, n>>})>>
BagOfSeq(s) == FoldSeq(LAMBDA x, acc : BagSet(acc, x, BagCount(acc, x) + 1), <<"B", {}>>, s)

\* elements in an order (only values with a defined order are iterated by the corpus:
\* sets are iterated sorted by TLC's order, see Elems)
Less(a, b) ==
  IF Tag(a) = "i" /\ Tag(b) = "i" THEN a[2] < b[2] ELSE FALSE

IntSet(v) == \A x \in v[2] : Tag(x) = "i"

Elems(v) ==
  CASE IsSeqV(v) -> v[2]
    [] IsSetV(v) /\ (\E x \in v[2] : Tag(x) = "y") -> SetToSortSeq(v[2], LAMBDA a, b : a[2][2] < b[2][2])
    [] IsSetV(v) /\ IntSet(v) -> SetToSortSeq(v[2], LAMBDA a, b : a[2] < b[2])
    [] IsSetV(v) -> SetToSeq(v[2])
    [] IsMapV(v) -> SetToSeq(Keys(v))
    [] Tag(v) = "B" -> FoldLeft(LAMBDA acc, pr : acc \o [i \in 1..pr[2] |-> pr[1]], <<>>,
                                IF \A pr \in v[2] : Tag(pr[1]) = "i"
                                THEN SetToSortSeq(v[2], LAMBDA a, b : a[1][2] < b[1][2]) ELSE SetToSeq(v[2]))
    [] OTHER -> <<>>

Member(x, v) ==
  CASE IsSeqV(v) -> \E i \in 1..Len(v[2]) : v[2][i] = x
    [] IsSetV(v) -> x \in v[2]
    [] IsMapV(v) -> x \in Keys(v)
    [] Tag(v) = "B" -> BagCount(v, x) > 0
    [] OTHER -> FALSE

Sz(v) ==
  CASE IsSeqV(v) -> Len(v[2])
    [] IsSetV(v) \/ IsMapV(v) -> Cardinality(v[2])
    [] Tag(v) = "B" -> BagSize(v)
    [] OTHER -> 0

Index(v, k) ==
  CASE IsSeqV(v) -> IF Tag(k) = "i" /\ k[2] >= 0 /\ k[2] < Len(v[2]) THEN v[2][k[2] + 1]
                    ELSE IF Tag(k) = "i" /\ k[2] < 0 /\ -k[2] <= Len(v[2]) THEN v[2][Len(v[2]) + k[2] + 1]
                    ELSE VErr
    [] IsMapV(v) -> IF k \in Keys(v) THEN MapGet(v, k) ELSE VErr
    [] OTHER -> VErr

PutIndex(v, k, x) ==
  \* a tuple has no assignable elements, but an element that is mutable changes inside it
  CASE IsSeqV(v) -> IF k[2] >= 0 /\ k[2] < Len(v[2]) THEN <<v[1], [v[2] EXCEPT ![k[2] + 1] = x]>> ELSE VErr
    [] IsMapV(v) -> MapPut(v, k, x)
    [] OTHER -> VErr

PyMod(a, b) == a % b      \* generators only use b > 0: both floor

\* symmetric values: those of a ring (modulus > 0) wrap around
VY(dom, id, mod) == <<"y", <<dom, IF mod > 0 THEN id % mod ELSE id, mod>>>>
SymAdd(a, n) == VY(a[2][1], a[2][2] + n, a[2][3])
SymSub(a, b) == IF a[2][3] > 0 THEN (a[2][2] - b[2][2]) % a[2][3] ELSE a[2][2] - b[2][2]
Ord(v) == IF Tag(v) = "y" THEN v[2][2] ELSE v[2]

BinOp(op, a, b) ==
  CASE op = "+" -> IF Tag(a) = "i" THEN VI(a[2] + b[2])
                   ELSE IF Tag(a) = "s" THEN VS(a[2] \o b[2])
                   ELSE IF IsSeqV(a) THEN <<Tag(a), a[2] \o b[2]>>
                   ELSE IF Tag(a) = "y" THEN SymAdd(a, b[2])
                   ELSE VErr
    [] op = "-" -> IF Tag(a) = "i" THEN VI(a[2] - b[2])
                   ELSE IF Tag(a) = "y" THEN (IF Tag(b) = "y" THEN VI(SymSub(a, b)) ELSE SymAdd(a, -b[2]))
                   ELSE IF IsSetV(a) THEN <<Tag(a), a[2] \ b[2]>> ELSE VErr
    [] op = "*" -> VI(a[2] * b[2])
    [] op = "%" -> VI(PyMod(a[2], b[2]))
    [] op = "//" -> VI(a[2] \div b[2])
    [] op = "|" -> <<Tag(a), a[2] \cup b[2]>>
    [] op = "&" -> <<Tag(a), a[2] \cap b[2]>>
    [] op = "==" -> VB(a = b)
    [] op = "!=" -> VB(a # b)
    [] op = "<" -> VB(Ord(a) < Ord(b))
    [] op = "<=" -> VB(Ord(a) <= Ord(b))
    [] op = ">" -> VB(Ord(a) > Ord(b))
    [] op = ">=" -> VB(Ord(a) >= Ord(b))
    [] op = "in" -> VB(Member(a, b))
    [] op = "not in" -> VB(~Member(a, b))

SortInts(s) == SortSeq(s, LAMBDA a, b : a[2] < b[2])

\* pure builtin functions
Fn(f, as) ==
  CASE f = "len" -> VI(Sz(as[1]))
    [] f = "range" -> IF Len(as) = 1
                      THEN <<"l", [i \in 1..(IF as[1][2] > 0 THEN as[1][2] ELSE 0) |-> VI(i - 1)]>>
                      ELSE <<"l", [i \in 1..(IF as[2][2] > as[1][2] THEN as[2][2] - as[1][2] ELSE 0) |-> VI(as[1][2] + i - 1)]>>
    [] f = "sum" -> VI(FoldSeq(LAMBDA x, acc : acc + x[2], 0, Elems(as[1])))
    [] f = "min" -> IF Len(as) = 1 THEN SortInts(Elems(as[1]))[1] ELSE SortInts(as)[1]
    [] f = "max" -> IF Len(as) = 1 THEN Last(SortInts(Elems(as[1]))) ELSE Last(SortInts(as))
    [] f = "sorted" -> <<"l", SortInts(Elems(as[1]))>>
    [] f = "list" -> <<"l", Elems(as[1])>>
    [] f = "tuple" -> <<"t", Elems(as[1])>>
    [] f = "set" -> <<"S", Range(Elems(as[1]))>>
    [] f = "bag" -> BagOfSeq(Elems(as[1]))
    [] f = "genericset" -> <<"G", Range(Elems(as[1]))>>
    [] f = "any" -> VB(\E i \in 1..Len(Elems(as[1])) : Truth(Elems(as[1])[i]))
    [] f = "all" -> VB(\A i \in 1..Len(Elems(as[1])) : Truth(Elems(as[1])[i]))
    [] f = "str" -> as[1]
    [] f = "abs" -> VI(IF as[1][2] < 0 THEN -as[1][2] ELSE as[1][2])
    [] f = "bool" -> VB(Truth(as[1]))
    [] f = "reversed" -> <<"l", Reverse(Elems(as[1]))>>

\* pure methods
Meth(v, m, as) ==
  CASE m = "get" -> IF as[1] \in Keys(v) THEN MapGet(v, as[1]) ELSE IF Len(as) > 1 THEN as[2] ELSE None
    [] m = "keys" -> <<"l", SetToSeq(Keys(v))>>
    [] m = "values" -> <<"l", SetToSeq({p[2] : p \in v[2]})>>
    [] m = "count" -> VI(IF Tag(v) = "B" THEN BagCount(v, as[1])
                         ELSE Cardinality({i \in 1..Len(v[2]) : v[2][i] = as[1]}))
    [] m = "union" -> <<Tag(v), v[2] \cup Range(Elems(as[1]))>>
    [] m = "intersection" -> <<Tag(v), v[2] \cap Range(Elems(as[1]))>>
    [] m = "difference" -> <<Tag(v), v[2] \ Range(Elems(as[1]))>>
    [] m = "issubset" -> VB(v[2] \subseteq Range(Elems(as[1])))
    [] m = "issuperset" -> VB(Range(Elems(as[1])) \subseteq v[2])
    [] m = "index" -> VI((CHOOSE i \in 1..Len(v[2]) : v[2][i] = as[1] /\ \A j \in 1..(i - 1) : v[2][j] # as[1]) - 1)

\* mutating methods: the new value of the receiver
Mutate(v, m, as) ==
  CASE m = "append" -> <<"l", Append(v[2], as[1])>>
    [] m = "extend" -> <<"l", v[2] \o Elems(as[1])>>
    [] m = "insert" -> <<"l", LET n == IF as[1][2] > Len(v[2]) THEN Len(v[2]) ELSE as[1][2]
                              IN SubSeq(v[2], 1, n) \o <<as[2]>> \o SubSeq(v[2], n + 1, Len(v[2]))>>
    [] m = "pop" -> IF Tag(v) = "l"
                    THEN IF v[2] = <<>> THEN VErr
                         ELSE IF Len(as) = 0 THEN <<"l", SubSeq(v[2], 1, Len(v[2]) - 1)>>
                         ELSE <<"l", SubSeq(v[2], 1, as[1][2]) \o SubSeq(v[2], as[1][2] + 2, Len(v[2]))>>
                    ELSE <<v[1], {p \in v[2] : p[1] # as[1]}>>
    [] m = "remove" -> IF Tag(v) = "l" THEN <<"l", RemoveFirst(v[2], as[1])>>
                       ELSE IF Tag(v) = "B" THEN BagSet(v, as[1], IF BagCount(v, as[1]) > 0 THEN BagCount(v, as[1]) - 1 ELSE 0)
                       ELSE <<Tag(v), v[2] \ {as[1]}>>
    [] m = "discard" -> IF Tag(v) = "B" THEN BagSet(v, as[1], IF BagCount(v, as[1]) > 0 THEN BagCount(v, as[1]) - 1 ELSE 0)
                        ELSE <<Tag(v), v[2] \ {as[1]}>>
    [] m = "add" -> IF Tag(v) = "B" THEN BagSet(v, as[1], BagCount(v, as[1]) + 1)
                    ELSE <<Tag(v), v[2] \cup {as[1]}>>
    [] m = "update" -> <<v[1], {p \in v[2] : p[1] \notin Keys(as[1])} \cup as[1][2]>>
    [] m = "clear" -> IF Tag(v) = "l" THEN <<"l", <<>>>> ELSE <<v[1], {}>>
    [] m = "setdefault" -> IF as[1] \in Keys(v) THEN v ELSE MapPut(v, as[1], as[2])
=============================================================================
