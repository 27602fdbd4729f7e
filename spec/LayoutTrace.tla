---------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* Judges what was observed of InlineArray<A, T> for many pairs of types.  *)
(* s = <<host size, host align, element size, element align>>; x: CAPACITY *)
(* (BIG: usize::MAX); y, m: size and alignment of the array; p: new() was  *)
(* refused; la: elements the array was filled with; a: their offsets from  *)
(* the start of the array; r: <<length, is_full, contents as pushed,       *)
(* neighbours unharmed, one more was refused, came back in order, empty>>. *)
(***************************************************************************)
EXTENDS LayoutSpec, Json, IOUtils

CONSTANTS Block
VARIABLES blk, done

Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)
Judge(x) ==
  LET hs == x.s[1]  ha == x.s[2]  es == x.s[3]  ea == x.s[4]
      cap == Capacity(hs, ha, es, ea)
  IN (IF x.x # cap THEN {"content"} ELSE {})
     \cup (IF ~SameSize(hs, ha, x.y) THEN {"content"} ELSE {})
     \cup (IF (x.p = 1) # Refused(hs, ha, es, ea) THEN {"refuse"} ELSE {})
     \cup (IF x.p = 0
           THEN (IF ~PlacesOk(x.a, hs, es, ea) \/ Len(x.a) # x.la \/ x.la # Min2(cap, x.nf) THEN {"content"} ELSE {})
                \cup (IF x.r # <<x.la, Bool(x.la = cap), 1, 1, Bool(x.la = cap), 1, 1>> THEN {"content"} ELSE {})
           ELSE {})

Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
