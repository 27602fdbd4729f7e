------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* The layout computation of src/inline_array/mod.rs for every host and    *)
(* element layout within the bounds: the header goes first unless elements *)
(* need more alignment than it, then what goes second is skipped past the  *)
(* first.  Checked: it agrees with LayoutSpec, header and elements are     *)
(* inside the host, aligned and disjoint.                                  *)
(***************************************************************************)
EXTENDS LayoutSpec

CONSTANTS MaxHost, MaxElem, Aligns
VARIABLES hs, ha, es, ea, done

ICap == IF es = 0 THEN BIG ELSE IF ea <= Max2(Word, ha) /\ hs > Word THEN (hs - Word) \div es ELSE 0
HeaderFirst == Word >= ea
ElementOff == IF HeaderFirst THEN Word ELSE 0
HeaderOff == IF HeaderFirst THEN 0 ELSE (IF es = 0 THEN 0 ELSE ICap * es)
Made == hs >= Word /\ (ICap = 0 \/ Max2(Word, ha) % ea = 0)

Init == /\ hs \in 0..MaxHost /\ ha \in Aligns /\ hs % ha = 0
        /\ es \in 0..MaxElem /\ ea \in Aligns /\ es % ea = 0
        /\ done = FALSE
Check ==
  /\ Assert(ICap = Capacity(hs, ha, es, ea), <<"capacity", hs, ha, es, ea, ICap>>)
  /\ Assert(Made = ~Refused(hs, ha, es, ea), <<"refusal", hs, ha, es, ea>>)
  /\ Made => /\ Assert(HeaderOff % Word = 0 /\ HeaderOff + Word <= hs, <<"header", hs, ha, es, ea, HeaderOff>>)
             /\ (es > 0 /\ ICap > 0) =>
                  /\ Assert(PlacesOk([i \in 1..ICap |-> ElementOff + (i - 1) * es], hs, es, ea), <<"elements", hs, ha, es, ea>>)
                  /\ Assert(HeaderOff + Word <= ElementOff \/ ElementOff + ICap * es <= HeaderOff, <<"overlap", hs, ha, es, ea>>)
Next == ~done /\ done' = TRUE /\ UNCHANGED <<hs, ha, es, ea>> /\ Check
Spec == Init /\ [][Next]_<<hs, ha, es, ea, done>>
=============================================================================
