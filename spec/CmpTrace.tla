------------------------------ MODULE CmpTrace ------------------------------
(***************************************************************************)
(* Judges recorded comparisons (see CmpSpec).  k, x: the types of the two  *)
(* sides (x a code), c = 1: value 0 is NaN, s and pre: the contents.       *)
(***************************************************************************)
EXTENDS CmpSpec, Json, IOUtils

CONSTANTS Block
VARIABLES blk, done

Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)
Judge(x) == IF x.p # 0 \/ ~CmpOk(x.op, x.s, x.pre, x.c = 1, x.r) THEN {"content"} ELSE {}

Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
