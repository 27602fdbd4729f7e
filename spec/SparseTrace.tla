---------------------------- MODULE SparseTrace -----------------------------
(***************************************************************************)
(* Judges recorded SparseChunk transitions.  Field i holds, one after the  *)
(* other, the occupied indices of A and B before and of A and B after.     *)
(***************************************************************************)
EXTENDS SparseSpec, Lie, Json, IOUtils
CONSTANTS Block
VARIABLES blk, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)

RECURSIVE Strip(_)
Strip(l) == IF l > CLONE /\ l < 5000 THEN Strip(l - CLONE) ELSE l
SameLabel(c, e, r) == CASE c \in {0, 3} -> e = r
                        [] c = 1 -> (IF e > 0 THEN Strip(e) ELSE e) = (IF r > 0 THEN Strip(r) ELSE r)
                        [] OTHER -> IF e > 0 THEN r > 0 ELSE e = r
RECURSIVE Match(_, _, _)
Match(c, E, R) ==
  IF E = <<>> THEN R = <<>>
  ELSE IF R = <<>> THEN FALSE
  ELSE IF E[1] >= EXACT THEN
    /\ Len(R) >= 2
    /\ IF E[1] >= BOUND THEN R[1] <= E[1] - BOUND /\ (R[2] = -2 \/ R[2] >= E[1] - BOUND)
       ELSE R[1] = E[1] - EXACT /\ R[2] = E[1] - EXACT
    /\ Match(c, Tail(E), Drop(R, 2))
  ELSE SameLabel(c, E[1], R[1]) /\ Match(c, Tail(E), Tail(R))
SameSeq(c, s, t) == Len(s) = Len(t) /\ \A q \in 1..Len(s) : SameLabel(c, s[q], t[q])

ExpObs(n, a, b) == <<Cardinality(DOMAIN a), Bool(DOMAIN a = {}), Bool(Cardinality(DOMAIN a) = n),
                     Cardinality(DOMAIN b), Bool(DOMAIN b = {}), Bool(Cardinality(DOMAIN b) = n), 1>>
Pos(x, k) == LET from == CASE k = 1 -> 0 [] k = 2 -> x.la [] k = 3 -> x.la + x.lb [] OTHER -> x.la + x.lb + Len(x.a)
                 len == CASE k = 1 -> x.la [] k = 2 -> x.lb [] k = 3 -> Len(x.a) [] OTHER -> Len(x.b)
             IN SubSeq(x.i, from + 1, from + len)

JudgePlain(x) ==
  LET A == MapOf(Pos(x, 1), Ints(1, x.la))  B == MapOf(Pos(x, 2), Ints(x.la + 1, x.la + x.lb))
      f == Ints(x.la + x.lb + 1, x.la + x.lb + x.nf)
      e == SpApply(x.n, Op(x.op, x.x, x.y, x.nf, x.s), f, A, B)
      sameA == Pos(x, 3) = Keys(e.a) /\ SameSeq(x.c, x.a, Vals(e.a))
      sameB == Pos(x, 4) = Keys(e.b) /\ SameSeq(x.c, x.b, Vals(e.b))
      bad == x.p # e.p
      contents == sameA /\ sameB
      results == e.p = 1 \/ Match(x.c, e.r, x.r)
      drops == CASE x.c = 0 -> x.d = e.d [] x.c \in {1, 3} -> TRUE [] OTHER -> Len(x.d) = Len(e.d)
      obs == SubSeq(x.o, 1, 7) = ExpObs(x.n, e.a, e.b)
      seen == x.a \o x.b \o x.e
      owned == x.c \in {1, 2} \/ (NoDup(seen) /\ \A l \in RangeOf(seen) : l < 5000 /\ ~(l \in RangeOf(x.d)))
  IN (IF bad THEN {"refuse"} ELSE {})
     \cup (IF e.p = 1 /\ ~contents THEN {"refuse"} ELSE {})
     \cup (IF ~contents \/ ~results \/ ~obs \/ bad THEN {"content"} ELSE {})
     \cup (IF (~bad /\ ~drops) \/ ~owned THEN {"own"} ELSE {})
     \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})

SpReadsA(op) == op \in {"clone", "clone_from", "pool_clone", "pool_default", "sp_ref", "sp_entries", "sp_indices", "sp_opt", "index", "get", "first_index"}
PosOk(q, n) == \A k \in 1..Len(q) : q[k] \in 0..(n - 1) /\ (k > 1 => q[k - 1] < q[k])
JudgeSpFault(x) ==
  JudgeFault(x)
  \cup (IF ~PosOk(Pos(x, 3), x.n) \/ ~PosOk(Pos(x, 4), x.n) THEN {"content"} ELSE {})
  \cup (IF SpReadsA(x.op) /\ ~(Pos(x, 3) = Pos(x, 1) /\ SameSeq(x.c, x.a, Ints(1, x.la))) THEN {"content"} ELSE {})

(* a stream that lies about its length must still be collected item by item, or refused *)
JudgeSpLie(x) ==
  LET f == Ints(x.la + x.lb + 1, x.la + x.lb + x.nf)
  IN (IF ~Safe(x) THEN {"own"} ELSE {})
     \cup (IF ~Sound(x) \/ Pos(x, 4) # Pos(x, 2) \/ ~((x.p = 1 /\ Pos(x, 3) = Pos(x, 1) /\ SameSeq(x.c, x.a, Ints(1, x.la)))
                           \/ (x.p = 0 /\ Pos(x, 3) = x.s /\ SameSeq(x.c, x.a, f))) THEN {"content"} ELSE {})
     \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})

Judge(x) == IF x.flt # 0 THEN JudgeSpFault(x) ELSE IF IsLie(x.op) THEN JudgeSpLie(x) ELSE JudgePlain(x)
Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
