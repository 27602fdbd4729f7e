------------------------------- MODULE MCCmp --------------------------------
(***************************************************************************)
(* Comparisons on the implementation shaped models, for every pair of      *)
(* operands: contents over Values at every internal placement.  Iterating  *)
(* comparisons walk both operands' raw storage positions side by side;     *)
(* a slice operand is a window of a ring; SparseChunk compares bitmaps and *)
(* then slot by slot.  TLC checks that the results are those of CmpSpec;   *)
(* with Emit every operand is printed for the harness.                     *)
(***************************************************************************)
EXTENDS CmpSpec, ChunkImpl, RingImpl, SparseImpl

CONSTANTS Configs, Values, Emit           \* Configs: sequence of <<kind, n>>
VARIABLES ci, a, b, nan, done

K == Configs[ci][1]
n == Configs[ci][2]
Lists(maxlen) == UNION {[1..k -> Values] : k \in 0..maxlen}
(* operand: pl = <<n, placement...>>, v contents *)
Opd(pl, v) == [pl |-> pl, v |-> v]
Flat(f) == Cat([i \in 1..Cardinality(DOMAIN f) |-> LET k == SetToSortSeq(DOMAIN f, <)[i] IN <<k, f[k]>>])
Maps(keys) == {Flat(f) : f \in UNION {[s -> Values] : s \in SUBSET keys}}
Operands(k, c) ==
  CASE k = "chunk" -> UNION {{Opd(<<c, l>>, v) : l \in 0..(c - Len(v))} : v \in Lists(c)}
    [] k = "inline" -> {Opd(<<c>>, v) : v \in Lists(c)}
    [] k = "ring" -> {Opd(<<c, o, 0, 0>>, v) : o \in 0..(c - 1), v \in Lists(c)}
    [] k = "slice" -> UNION {{Opd(<<c, o, lo, tr>>, v) : o \in 0..(c - 1), lo, tr \in 0..(c - Len(v))} : v \in Lists(c)}
    [] k = "sparse" -> {Opd(<<c, st>>, v) : v \in Maps(0..(c - 1)), st \in {0, 1}}
    [] k = "map" -> {Opd(<<c, 0>>, v) : v \in Maps(0..c)}
Fits(x) == K = "slice" => x.pl[3] + Len(x.v) + x.pl[4] <= n

(* element labels are the values + 1 here: label 0 marks an uninitialised slot *)
Build(x) ==
  CASE K \in {"chunk", "inline"} ->
         LET l == IF K = "chunk" THEN x.pl[2] ELSE 0 IN
         [l |-> l, r |-> l + Len(x.v), n |-> n, mem |-> [i \in 0..(n - 1) |-> IF l <= i /\ i < l + Len(x.v) THEN x.v[i - l + 1] + 1 ELSE 0]]
    [] K \in {"ring", "slice"} ->
         LET len == x.pl[3] + Len(x.v) + x.pl[4]
             w == [i \in 1..len |-> IF i > x.pl[3] /\ i <= x.pl[3] + Len(x.v) THEN x.v[i - x.pl[3]] + 1 ELSE 77]
         IN [RMake(n, x.pl[2], len, 1) EXCEPT !.mem = [i \in 0..(n - 1) |-> LET q == W(n, i + n - x.pl[2]) IN IF q < len THEN w[q + 1] ELSE 0]]
    [] OTHER -> [map |-> {x.v[2 * i - 1] : i \in 1..(Len(x.v) \div 2)}, n |-> n,
                 mem |-> [i \in 0..n |-> LET q == {k \in 1..(Len(x.v) \div 2) : x.v[2 * k - 1] = i}
                                         IN IF q = {} THEN (IF x.pl[2] = 1 THEN 77 ELSE 0) ELSE x.v[2 * (CHOOSE k \in q : TRUE)] + 1]]
Size(x) == Len(x.v)
Item(c, x, i) == LET e == IF K \in {"chunk", "inline"} THEN c.mem[c.l + i] ELSE c.mem[RRaw(c, x.pl[3] + i)]
                 IN IF Assert(e \notin {0, 77}, <<"reads a slot outside the contents", K, x, i>>) THEN e - 1 ELSE 0

(* Iterator::eq / Iterator::partial_cmp *)
RECURSIVE IEq(_, _, _)
IEq(A, B, i) == IF i = Size(a) THEN i = Size(b)
                ELSE IF i = Size(b) THEN FALSE
                ELSE IF EqV(Item(A, a, i), Item(B, b, i), nan) THEN IEq(A, B, i + 1) ELSE FALSE
RECURSIVE ICmp(_, _, _)
ICmp(A, B, i) == IF i = Size(a) THEN (IF i = Size(b) THEN 0 ELSE -1)
                 ELSE IF i = Size(b) THEN 1
                 ELSE LET q == CmpV(Item(A, a, i), Item(B, b, i), nan) IN IF q = 0 THEN ICmp(A, B, i + 1) ELSE q
(* SparseChunk: same bits, then the same values at the indices of the left hand side *)
SEq(A, B) == A.map = B.map /\ \A i \in A.map : i \in B.map /\ EqV(SRead(A, i) - 1, SRead(B, i) - 1, nan)
(* against a map: same number of entries, then looking up the left hand side's indices *)
SEqMap(A, B) == Cardinality(A.map) = Cardinality(B.map) /\ \A i \in A.map : i \in B.map /\ EqV(SRead(A, i) - 1, SRead(B, i) - 1, nan)

Init == /\ ci \in 1..Len(Configs)
        /\ a \in {x \in Operands(K, n) : Fits(x)}
        /\ b \in (IF K = "sparse" THEN Operands("sparse", n) \cup Operands("map", n)
                  ELSE {x \in Operands(K, n) : Fits(x)})
        /\ nan \in BOOLEAN
        /\ done = FALSE
Check ==
  LET A == Build(a)  B == Build(b) IN
  IF K \in {"sparse", "map"}
  THEN /\ Assert(CmpOk("speq", a.v, b.v, nan, LET e == SEqMap(A, B) IN <<Bool(e), Bool(~e), 9, 9>>), <<"map comparison", a, b>>)
       /\ Assert(CmpOk("speq", a.v, b.v, nan, LET e == SEq(A, B) IN <<Bool(e), Bool(~e), 9, 9>>), <<"sparse comparison", a, b>>)
  ELSE /\ Assert(CmpOk("eq", a.v, b.v, nan, LET e == Size(a) = Size(b) /\ IEq(A, B, 0) IN <<Bool(e), Bool(~e), 9, 9>>), <<"equality", a, b>>)
       /\ Assert(CmpOk("cmp", a.v, b.v, nan, <<ICmp(A, B, 0)>>), <<"ordering", a, b>>)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<ci, a, b, nan>>
        /\ Check
        /\ (Emit /\ a = b /\ nan) => PrintT(ToString(<<"C", K, a.pl, a.v>>))
Spec == Init /\ [][Next]_<<ci, a, b, nan, done>>
=============================================================================
