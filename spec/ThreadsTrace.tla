---------------------------- MODULE ThreadsTrace ----------------------------
(***************************************************************************)
(* Judges what the compiler says of the real types: op names the type,     *)
(* n is its form, s = <<element Send, element Sync, host Send, host Sync>> *)
(* (hosts: of InlineArray, whose memory is never used as a host), x and y: *)
(* whether the type is Send, Sync.  None may allow a harmful history; what *)
(* owns its elements must allow all the others (unless its host is not     *)
(* both).  "readers" and "moved": two threads really used a container; p   *)
(* is 1 if one of them saw something else than what is in it.              *)
(***************************************************************************)
EXTENDS Threads, Sequences, Json, IOUtils, TLC
CONSTANTS Block
VARIABLES blk, done
Recs == ndJsonDeserialize(IOEnv.TRACE)
TLen == Len(Recs)
FormOf(k) == CASE k = 0 -> "own" [] k = 1 -> "read" [] k = 2 -> "excl"
Judge(x) ==
  LET e == [send |-> x.s[1], sync |-> x.s[2]]
      t == [send |-> x.x, sync |-> x.y]
      f == FormOf(x.n)
  IN (IF ~Harmless(e, f, t) THEN {"unsafe"} ELSE {})
     \cup (IF f = "own" /\ x.s[3] = 1 /\ x.s[4] = 1 /\ Harmless(e, f, t) /\ ~IsBest(e, f, t) THEN {"refuse"} ELSE {})
     \cup (IF x.p # 0 THEN {"content"} ELSE {})
Min2(a, b) == IF a < b THEN a ELSE b
Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
