------------------------------ MODULE CmpSpec -------------------------------
(***************************************************************************)
(* Equality, ordering, hashing and printing, as functions of the contents. *)
(*                                                                         *)
(* Contents are sequences of values; for SparseChunk and maps they are     *)
(* <<index, value, index, value, ...>> with ascending indices.  When nan   *)
(* holds, value 0 stands for a value that is not equal to anything, itself *)
(* included (f64's NaN).                                                   *)
(***************************************************************************)
EXTENDS Base

UNORD == 9                       \* partial_cmp: None
EqV(u, v, nan) == u = v /\ ~(nan /\ u = 0)
CmpV(u, v, nan) == IF nan /\ (u = 0 \/ v = 0) THEN UNORD ELSE IF u < v THEN -1 ELSE IF u > v THEN 1 ELSE 0

ListEq(V, W, nan) == Len(V) = Len(W) /\ \A i \in 1..Len(V) : EqV(V[i], W[i], nan)
MapEq(V, W, nan) == Len(V) = Len(W)
                    /\ \A i \in 1..Len(V) : IF i % 2 = 1 THEN V[i] = W[i] ELSE EqV(V[i], W[i], nan)
(* lexicographic: the first position that is not equal decides *)
Lex(V, W, nan) ==
  LET k == Min2(Len(V), Len(W))
      D == {i \in 1..k : CmpV(V[i], W[i], nan) # 0}
  IN IF D # {} THEN CmpV(V[Min(D)], W[Min(D)], nan)
     ELSE IF Len(V) < Len(W) THEN -1 ELSE IF Len(V) > Len(W) THEN 1 ELSE 0

(* eq: <<a == b, a != b, b == a, b != a>>, the last two UNORD where that comparison is not offered
   ord: <<partial_cmp, <, <=, >, >=>>     cmp: <<cmp>>
   hash: <<fed the hasher the same, same hash>>     debug: the numbers printed *)
CmpOk(op, V, W, nan, r) ==
  LET e == IF op = "speq" THEN MapEq(V, W, nan) ELSE ListEq(V, W, nan)
      o == Lex(V, W, nan)
  IN CASE op \in {"eq", "speq"} -> /\ Len(r) = 4
                                   /\ Take(r, 2) = <<Bool(e), Bool(~e)>>
                                   /\ Drop(r, 2) \in {<<UNORD, UNORD>>, <<Bool(e), Bool(~e)>>}
       [] op = "ord" -> r = <<o, Bool(o = -1), Bool(o \in {-1, 0}), Bool(o = 1), Bool(o \in {0, 1})>>
       [] op = "cmp" -> r = <<o>>
       [] op = "hash" -> V = W => r = <<1, 1>>
       [] op = "debug" -> r = V
=============================================================================
