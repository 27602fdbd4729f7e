------------------------------ MODULE ArbTrace ------------------------------
(***************************************************************************)
(* Judges what the real implementations generated.  k container, op: "arb" *)
(* (arbitrary), "rest" (arbitrary_take_rest) or "hint"; e[1]: element kind *)
(* (index into Kinds); s bytes; y = 1 failed; a contents; r = <<bytes      *)
(* used>> or <<lower, upper>>; o: elements neither dropped nor in the      *)
(* container, or dropped twice.                                            *)
(***************************************************************************)
EXTENDS ArbSpec, Json, IOUtils

CONSTANTS Block
VARIABLES blk, done

KindNames == <<"u8", "u16", "unit", "bool", "pick">>
Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)
Judge(x) ==
  LET sp == x.k = "sparse"  kind == KindNames[x.e[1]] IN
  IF x.op = "hint" THEN (IF x.p = 0 /\ HintOk(sp, kind, x.n, x.r[1], x.r[2]) THEN {} ELSE {"content"})
  ELSE (IF ArbOk(sp, kind, x.n, x.s, [p |-> x.p, err |-> x.y, a |-> x.a, used |-> x.r[1]]) THEN {} ELSE {"content"})
       \cup (IF x.o # <<0>> THEN {"own"} ELSE {})

Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
