------------------------------ MODULE AnyIter -------------------------------
(***************************************************************************)
(* The iterators over a window [lo, lo + len) of a RingBuffer of any       *)
(* capacity (RItInit, RItTake, RItSkip of RingImpl): the raw positions     *)
(* left and right run towards each other, rem counts down.  However front  *)
(* and back are mixed, what is handed out is the next item from that end,  *)
(* and each item at most once (front, back: how many were handed out).     *)
(* An inductive step, checked with Apalache.                               *)
(***************************************************************************)
EXTENDS AnyRingOps

VARIABLES
  \* @type: Int;
  cap,
  \* @type: $ring;
  buf,
  \* @type: Int;
  lo,
  \* @type: Int;
  len,
  \* @type: Int;
  left,
  \* @type: Int;
  right,
  \* @type: Int;
  rem,
  \* @type: Int;
  front,
  \* @type: Int;
  back,
  \* @type: Bool;
  ok

Inv == /\ cap >= 1 /\ 0 <= buf.o /\ buf.o < cap /\ 0 <= buf.len /\ buf.len <= cap
       /\ 0 <= lo /\ 0 <= len /\ lo + len <= buf.len
       /\ front >= 0 /\ back >= 0 /\ rem >= 0 /\ front + back + rem = len
       /\ left = Raw(cap, buf, Wr(cap, lo + front)) /\ right = Raw(cap, buf, Wr(cap, lo + len - back)) /\ ok
Init == /\ cap \in Int /\ (\E x, y \in Int : buf = Ring(x, y)) /\ lo \in Int /\ len \in Int
        /\ left \in Int /\ right \in Int /\ rem \in Int /\ front \in Int /\ back \in Int /\ ok = TRUE /\ Inv
InitStart == /\ cap \in Int /\ (\E x, y \in Int : buf = Ring(x, y)) /\ lo \in Int /\ len \in Int
             /\ cap >= 1 /\ 0 <= buf.o /\ buf.o < cap /\ 0 <= buf.len /\ buf.len <= cap /\ 0 <= lo /\ 0 <= len /\ lo + len <= buf.len
             /\ left = Raw(cap, buf, Wr(cap, lo)) /\ right = Wr(cap, Raw(cap, buf, Wr(cap, lo)) + len) /\ rem = len /\ front = 0 /\ back = 0 /\ ok = TRUE
Fwd == /\ rem > 0 /\ rem' = rem - 1 /\ left' = Wr(cap, left + 1) /\ front' = front + 1
       /\ ok' = (Slot(cap, left) /\ RankOf(cap, buf, left) = lo + front)
       /\ UNCHANGED <<cap, buf, lo, len, right, back>>
Bwd == LET x == Wr(cap, right + cap - 1) IN
       /\ rem > 0 /\ rem' = rem - 1 /\ right' = x /\ back' = back + 1
       /\ ok' = (Slot(cap, x) /\ RankOf(cap, buf, x) = lo + len - 1 - back)
       /\ UNCHANGED <<cap, buf, lo, len, left, front>>
\* last(): straight to the last of the rest
Last == LET x == Wr(cap, left + rem - 1) IN
        /\ rem > 0 /\ rem' = 0 /\ left' = right /\ front' = front + rem
        /\ ok' = (Slot(cap, x) /\ RankOf(cap, buf, x) = lo + len - 1 - back)
        /\ UNCHANGED <<cap, buf, lo, len, right, back>>
Next == Fwd \/ Bwd \/ Last
=============================================================================
