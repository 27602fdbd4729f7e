------------------------------- MODULE MCArb --------------------------------
(***************************************************************************)
(* The pipeline of src/arbitrary.rs, step by step: an item iterator over   *)
(* the remaining bytes, behind take(CAPACITY), behind the adapter that     *)
(* stops at the first failure, feeding the container's FromIterator, which *)
(* panics when it is full.  TLC checks every byte string up to MaxLen over *)
(* Bytes against ArbSpec, that every length is reachable, and that the     *)
(* size hint encloses what is used.  Every case is printed.                *)
(***************************************************************************)
EXTENDS ArbSpec

CONSTANTS Caps, Bytes, MaxLen, Kinds, Emit
VARIABLES n, kind, sparse, B, pos, taken, got, st

Init == /\ n \in Caps /\ kind \in Kinds /\ sparse \in BOOLEAN
        /\ B \in UNION {[1..k -> Bytes] : k \in 0..MaxLen}
        /\ pos = 0 /\ taken = 0 /\ got = <<>> /\ st = "run"
vars == <<n, kind, sparse, B, pos, taken, got, st>>

(* take(n).next(): asks the item iterator only while fewer than n were taken *)
Pull ==
  /\ st = "run"
  /\ UNCHANGED <<n, kind, sparse, B>>
  /\ IF taken = n THEN st' = "done" /\ UNCHANGED <<pos, taken, got>>
     ELSE LET more == pos < Len(B) /\ B[pos + 1] % 2 = 1
              p1 == Min2(Len(B), pos + 1)
              e == ItemAt(sparse, kind, B, p1)
          IN IF ~more THEN st' = "done" /\ pos' = p1 /\ UNCHANGED <<taken, got>>
             ELSE IF ~e[1] THEN st' = "err" /\ pos' = e[3] /\ UNCHANGED <<taken, got>>
             ELSE /\ st' = IF Len(got) = n THEN "panic" ELSE "run"
                  /\ pos' = e[3] /\ taken' = taken + 1 /\ got' = Append(got, e[2])
Next == Pull
Spec == Init /\ [][Next]_vars

Agrees == st \notin {"run"} =>
            ArbOk(sparse, kind, n, B, [p |-> Bool(st = "panic"), err |-> Bool(st = "err"), a |-> Show(sparse, got), used |-> pos])
Bounded == Len(got) <= n /\ pos <= n * (1 + MaxItem(sparse, kind))
EmitAll == (Emit /\ st = "run" /\ pos = 0 /\ taken = 0) => PrintT(ToString(<<"C", kind, <<n, Bool(sparse)>>, B>>))
Inv == Agrees /\ Bounded /\ EmitAll
=============================================================================
