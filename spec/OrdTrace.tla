------------------------------ MODULE OrdTrace ------------------------------
(***************************************************************************)
(* Judges what the real containers did (see OrdSpec).  pre: the values.    *)
(***************************************************************************)
EXTENDS OrdSpec, Lie, Json, IOUtils

CONSTANTS Block
VARIABLES blk, done

Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)

Judge(x) ==
  LET o == [p |-> x.p, a |-> x.a, r |-> x.r, d |-> x.d]
  IN IF x.flt # 0
     THEN (IF ~Safe(x) THEN {"own"} ELSE {}) \cup (IF ~Sound(x) THEN {"content"} ELSE {})
          \cup (IF x.op # "ins" /\ ~(IsSort(x.op) \/ x.op = "swap") /\ x.a # Ints(1, x.la) THEN {"content"} ELSE {})
     ELSE (IF ~OrdOk(Op(x.op, x.x, x.y, x.nf, x.s), x.n, x.pre, o) THEN {"content"} ELSE {})
          \cup (IF ~Sound(x) THEN {"content"} ELSE {})
          \cup (IF ~(NoDup(x.a) /\ RangeOf(x.a) \subseteq 1..(x.la + x.nf) /\ RangeOf(x.a) \cap RangeOf(x.d) = {}) THEN {"own"} ELSE {})

Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
