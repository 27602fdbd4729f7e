----------------------------- MODULE LayoutSpec -----------------------------
(***************************************************************************)
(* Where an InlineArray<A, T> may put things.  hs, ha: size and alignment  *)
(* of the host T; es, ea: of the element A.  Word: size and alignment of   *)
(* the length word (usize).                                                *)
(***************************************************************************)
EXTENDS Base

Word == 8
ArrayAlign(ha) == Max2(Word, ha)
Aligned(ea, ha) == ea <= ArrayAlign(ha)         \* alignments are powers of two
(* as many elements as fit next to one word *)
Capacity(hs, ha, es, ea) == IF es = 0 THEN BIG ELSE IF ~Aligned(ea, ha) THEN 0
                            ELSE Max({k \in 0..hs : k = 0 \/ k * es + Word <= hs})
(* construction is refused: no room for the length word, or zero sized elements with too much alignment *)
Refused(hs, ha, es, ea) == hs < Word \/ (es = 0 /\ ~Aligned(ea, ha))
(* the array costs nothing over the host it stands in for *)
SameSize(hs, ha, size) == (ha >= Word /\ hs >= Word) => size = hs
PlacesOk(offs, hs, es, ea) ==
  /\ \A i \in 1..Len(offs) : offs[i] % ea = 0 /\ (es > 0 => offs[i] >= 0 /\ offs[i] + es <= hs)
  /\ es > 0 => \A i \in 1..(Len(offs) - 1) : offs[i + 1] = offs[i] + es      \* a slice of them can be handed out
=============================================================================
