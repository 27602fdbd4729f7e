------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* Judges what the real containers of many thousand elements did (RunSpec).*)
(* Runs arrive flattened: first, length, first, length, ...                *)
(***************************************************************************)
EXTENDS RunSpec, Json, IOUtils

CONSTANTS Block
VARIABLES blk, done

Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)

Pairs(s) == [q \in 1..(Len(s) \div 2) |-> <<s[2 * q - 1], s[2 * q]>>]
(* elements without identity (c = 2): only how many there are *)
Same(c, s, e) == IF c = 2 THEN RLen(s) = RLen(e) ELSE s = e
Judge(x) ==
  LET A == Run(1, x.la)  B == Run(x.la + 1, x.lb)  f == Run(x.la + x.lb + 1, x.nf)
      e == RunApply(x.k, x.n, x.m, Op(x.op, x.x, x.y, x.nf, x.s), f, A, B)
      la == RLen(e.a)  lb == RLen(e.b)
      bad == x.p # e.p
      contents == Same(x.c, Pairs(x.a), e.a) /\ Same(x.c, Pairs(x.b), e.b)
      results == e.p = 1 \/ Same(x.c, Pairs(x.r), e.r)
      obs == SubSeq(x.o, 1, 7) = <<la, Bool(la = 0), Bool(la = x.n), lb, Bool(lb = 0), Bool(lb = x.m), 1>>
  IN (IF bad \/ (e.p = 1 /\ ~contents) THEN {"refuse"} ELSE {})
     \cup (IF ~contents \/ ~results \/ ~obs \/ bad THEN {"content"} ELSE {})
     \cup (IF ~bad /\ ~Same(x.c, Pairs(x.d), e.d) THEN {"own"} ELSE {})
     \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})

Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
