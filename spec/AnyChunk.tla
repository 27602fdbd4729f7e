------------------------------ MODULE AnyChunk ------------------------------
(***************************************************************************)
(* For every capacity, every pair of windows, every operation and every    *)
(* argument: an arbitrary element ends up exactly where the ideal list has *)
(* it, is never overwritten, and no slot outside the storage is touched.   *)
(* Checked with Apalache as an inductive step: from any state satisfying   *)
(* Inv, one operation leads to a state satisfying Inv.                     *)
(***************************************************************************)
EXTENDS AnyChunkOps

VARIABLES
  \* @type: Int;
  n,
  \* @type: $win;
  a,
  \* @type: $win;
  b,
  \* @type: Int;
  w,
  \* @type: $trk;
  t,
  \* @type: Str;
  last

\* @type: ($win) => Bool;
Fine(c) == 0 <= c.l /\ c.l <= c.r /\ c.r <= n
Shown == CASE w = 1 -> a.l <= t.p /\ t.p < a.r
           [] w = 2 -> b.l <= t.p /\ t.p < b.r
           [] OTHER -> TRUE
Inv == n >= 0 /\ w \in 0..2 /\ Fine(a) /\ Fine(b) /\ t.ok /\ Shown

\* @type: Int;
Rank == IF w = 1 THEN t.p - a.l ELSE t.p - b.l

Init == /\ n \in Int /\ w \in 0..2 /\ last = "init"
        /\ \E l, r \in Int : a = [l |-> l, r |-> r]
        /\ \E l, r \in Int : b = [l |-> l, r |-> r]
        /\ \E p \in Int : t = [p |-> p, ok |-> TRUE]
        /\ Inv

Do(op) ==
  \E i, k \in Int :
    /\ Allowed(op, n, Ln(a), Ln(b), i, k)
    /\ LET o == ChunkStep(op, n, a, b, w, t, i, k)
           e == Expect(op, Ln(a), Ln(b), w, Rank, i, k)
           z == Lengths(op, Ln(a), Ln(b), i, k)
       IN /\ a' = o.a /\ b' = o.b /\ w' = o.w
          /\ t' = [p |-> o.p,
                   ok |-> /\ o.ok /\ o.w = e.w /\ Ln(o.a) = z.w /\ Ln(o.b) = z.q
                          /\ (IF k > 0 THEN o.f - o.a.l = NewAt(op, Ln(a), i) ELSE TRUE)
                          /\ (o.w = 1 => o.p - o.a.l = e.q) /\ (o.w = 2 => o.p - o.b.l = e.q)]
    /\ last' = op
    /\ UNCHANGED n
Next == \E op \in Names : Do(op)
=============================================================================
