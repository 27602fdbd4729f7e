----------------------------- MODULE SparseImpl -----------------------------
(***************************************************************************)
(* Implementation shaped model of SparseChunk: a bitmap and n slots, of    *)
(* which the ones a configuration names are represented (the others stay   *)
(* untouched).  A slot holds a label, or 0 when it is uninitialised or was *)
(* moved out of; reading or dropping such a slot is an error.              *)
(***************************************************************************)
EXTENDS Base

SEmpty(n, S) == [map |-> {}, n |-> n, mem |-> [i \in S |-> 0]]   \* S: slots represented
SMake(n, S, ks, first) == [map |-> RangeOf(ks), n |-> n, mem |-> [i \in S |-> IF i \in RangeOf(ks) THEN first + (CHOOSE q \in 1..Len(ks) : ks[q] = i) - 1 ELSE 0]]
SRead(c, i) == IF Assert(i \in DOMAIN c.mem /\ c.mem[i] # 0, <<"read of an empty slot", c, i>>) THEN c.mem[i] ELSE 0
SView(c) == [i \in c.map |-> SRead(c, i)]
SOrder(c) == SetToSortSeq(c.map, <)
SAll(c) == LET q == SOrder(c) IN [k \in 1..Len(q) |-> SRead(c, q[k])]
(* insert: set the bit; replace or write.  r: previous value or 0 *)
SInsert(c, i, v) == IF Assert(i \in DOMAIN c.mem, <<"write outside the slots", c, i>>) THEN [c |-> [c EXCEPT !.map = @ \cup {i}, !.mem[i] = v], r |-> IF i \in c.map THEN SRead(c, i) ELSE 0] ELSE [c |-> c, r |-> 0]
SRemove(c, i) == IF i \in c.map THEN [c |-> [c EXCEPT !.map = @ \ {i}, !.mem[i] = 0], r |-> SRead(c, i)] ELSE [c |-> c, r |-> 0]
SFirst(c) == SOrder(c)[1]
RECURSIVE SInsertAll(_, _, _)
SInsertAll(c, ks, vs) == IF ks = <<>> THEN c ELSE SInsertAll(SInsert(c, ks[1], vs[1]).c, Tail(ks), Tail(vs))
SFresh(c) == SEmpty(c.n, DOMAIN c.mem)
SClone(c) == SInsertAll(SFresh(c), SOrder(c), CloneSeq(SAll(c)))

SRes(p, A, B, r, d) == [p |-> p, A |-> A, B |-> B, r |-> r, d |-> d]
NumS(k) == -10 - k

SApplyImpl(op, f, A, B) ==
  LET n == A.n  i == op.x  j == op.y
      Fail == SRes(1, A, B, <<>>, f)
  IN
  CASE op.op \in {"new", "default"} -> SRes(0, SFresh(A), B, <<>>, SAll(A))
    [] op.op = "unit" -> IF i >= n THEN Fail ELSE SRes(0, SInsert(SFresh(A), i, f[1]).c, B, <<>>, SAll(A))
    [] op.op = "pair" -> IF i >= n \/ j >= n THEN Fail
                         ELSE LET s1 == SInsert(SFresh(A), i, f[1])  s2 == SInsert(s1.c, j, f[2])
                              IN SRes(0, s2.c, B, <<>>, SAll(A) \o (IF s2.r = 0 THEN <<>> ELSE <<s2.r>>))
    [] op.op = "from_iter" -> IF \E k \in RangeOf(op.s) : k >= n THEN Fail ELSE SRes(0, SInsertAll(SFresh(A), op.s, f), B, <<>>, SAll(A))
    [] op.op = "insert" -> IF i >= n THEN Fail ELSE LET s == SInsert(A, i, f[1]) IN SRes(0, s.c, B, <<s.r>>, <<>>)
    [] op.op = "remove" -> IF i >= n THEN Fail ELSE LET s == SRemove(A, i) IN SRes(0, s.c, B, <<s.r>>, <<>>)
    [] op.op = "pop" -> IF A.map = {} THEN SRes(0, A, B, <<0>>, <<>>) ELSE LET s == SRemove(A, SFirst(A)) IN SRes(0, s.c, B, <<s.r>>, <<>>)
    [] op.op = "get" -> SRes(0, A, B, <<IF i < n /\ i \in A.map THEN SRead(A, i) ELSE 0>>, <<>>)
    [] op.op = "get_mut" -> IF i < n /\ i \in A.map THEN SRes(0, SInsert(A, i, f[1]).c, B, <<SRead(A, i)>>, <<>>) ELSE SRes(0, A, B, <<0>>, f)
    [] op.op = "index" -> IF i < n /\ i \in A.map THEN SRes(0, A, B, <<SRead(A, i)>>, <<>>) ELSE Fail
    [] op.op = "index_mut" -> IF i < n /\ i \in A.map THEN SRes(0, SInsert(A, i, f[1]).c, B, <<>>, <<SRead(A, i)>>) ELSE Fail
    [] op.op = "first_index" -> SRes(0, A, B, <<IF A.map = {} THEN 0 ELSE NumS(SFirst(A))>>, <<>>)
    [] op.op \in {"clone", "clone_from"} -> SRes(0, A, SClone(A), <<>>, SAll(B))
    [] op.op = "pool_clone" -> LET q == SOrder(A) IN SRes(0, A, B, Cat([k \in 1..Len(q) |-> <<NumS(q[k]), CLONE + SRead(A, q[k])>>]), SAll(SClone(A)))
    [] op.op = "pool_default" -> SRes(0, A, B, <<>>, SAll(SClone(A)))
    [] op.op = "exchange" -> SRes(0, B, A, <<>>, <<>>)
    [] op.op = "drop_all" -> SRes(0, SFresh(A), SFresh(A), <<>>, SAll(A) \o SAll(B))
=============================================================================
