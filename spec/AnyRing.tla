------------------------------- MODULE AnyRing ------------------------------
(***************************************************************************)
(* For every capacity, every pair of rings, every operation and every      *)
(* argument: an arbitrary element ends up exactly where the ideal list has *)
(* it, new elements come to stand where they belong, nothing is            *)
(* overwritten and no slot outside the storage is touched.  The loops of   *)
(* insert, insert_from and remove run step by step; Inv has their loop     *)
(* invariants (c: how far the loop is, in indices of the old ring).        *)
(* Checked with Apalache as an inductive step.                             *)
(***************************************************************************)
EXTENDS AnyRingOps

VARIABLES
  \* @type: Int;
  n,
  \* @type: $ring;
  a,
  \* @type: $ring;
  b,
  \* @type: Int;
  w,
  \* @type: $trk;
  t,
  \* the loop: its state, what it does, its arguments, the ring and the place of the element before it, rounds done
  \* @type: $loop;
  s,
  \* @type: Str;
  op,
  \* @type: Int;
  i,
  \* @type: Int;
  k,
  \* @type: $ring;
  old,
  \* @type: $loc;
  was,
  \* @type: Int;
  c
vars == <<n, a, b, w, t, s, op, i, k, old, was, c>>

\* @type: ($ring) => Bool;
Fine(x) == 0 <= x.o /\ x.o < n /\ 0 <= x.len /\ x.len <= n
\* @type: ($ring, Int) => Bool;
Shown(x, p) == Slot(n, p) /\ RankOf(n, x, p) < x.len
Idle == [pc |-> "idle", a |-> Ring(0, 0), cur |-> 0, end |-> 0]

Rest == /\ Fine(a) /\ Fine(b)
        /\ (w = 1 => Shown(a, t.p)) /\ (w = 2 => Shown(b, t.p))
\* the element while a loop runs: its index in the old ring is was.q; its slot when it has moved by d (0 <= d)
\* @type: (Int) => Int;
OldPlus(d) == Wr(n, Raw(n, old, was.q) + d)
\* @type: (Int) => Int;
OldMinus(d) == Wr(n, Raw(n, old, was.q) + n - d)
Common == /\ Fine(old) /\ Fine(b) /\ a = old /\ 0 <= i /\ i < old.len /\ w = was.w
          /\ (w = 1 => 0 <= was.q /\ was.q < old.len) /\ (w = 2 => Shown(b, t.p) /\ was.q = RankOf(n, b, t.p))
Inserting == op = "insert_from" /\ 0 <= k /\ old.len + k <= n
Behind == s.a = Ring(old.o, old.len + k)
Before == s.a = Ring(Wr(n, old.o + n - k), old.len + k)
InvLoop ==
  CASE s.pc = "right" ->      \* indices above c have moved
         /\ Common /\ Inserting /\ s.a = old /\ i <= c /\ c < old.len
         /\ s.cur = Raw(n, old, c) /\ s.end = Raw(n, old, i)
         /\ (w = 1 => t.p = OldPlus(IF was.q > c THEN k ELSE 0))
    [] s.pc = "left" ->       \* indices below c have moved
         /\ Common /\ Inserting /\ Before /\ 0 <= c /\ c < i
         /\ s.cur = Raw(n, s.a, c) /\ s.end = Raw(n, s.a, i)
         /\ (w = 1 => t.p = OldMinus(IF was.q < c THEN k ELSE 0))
    [] s.pc = "put" ->        \* c new items are written
         /\ Common /\ Inserting /\ 0 <= c /\ c <= k /\ s.cur = Raw(n, s.a, i + c)
         /\ \/ Behind /\ (w = 1 => t.p = OldPlus(IF was.q >= i THEN k ELSE 0))
            \/ Before /\ (w = 1 => t.p = OldMinus(IF was.q < i THEN k ELSE 0))
    [] s.pc = "up" ->         \* the gap is at index c
         /\ Common /\ op = "remove" /\ s.a = Ring(old.o, old.len - 1) /\ i <= c /\ c < old.len - 1 /\ was # At(1, i)
         /\ s.cur = Raw(n, old, c) /\ s.end = Raw(n, old, old.len - 1) /\ k = 1
         /\ (w = 1 => t.p = OldMinus(IF i < was.q /\ was.q <= c THEN 1 ELSE 0))
    [] s.pc = "down" ->
         /\ Common /\ op = "remove" /\ s.a = old /\ 0 < c /\ c <= i /\ was # At(1, i)
         /\ s.cur = Raw(n, old, c) /\ s.end = old.o /\ k = 0
         /\ (w = 1 => t.p = OldPlus(IF c <= was.q /\ was.q < i THEN 1 ELSE 0))
    [] s.pc = "close" ->
         /\ Common /\ op = "remove" /\ was # At(1, i)
         /\ \/ s.a = Ring(old.o, old.len - 1) /\ k = 1 /\ (w = 1 => t.p = OldMinus(IF i < was.q THEN 1 ELSE 0))
            \/ s.a = old /\ k = 0 /\ (w = 1 => t.p = OldPlus(IF was.q < i THEN 1 ELSE 0))
    [] OTHER -> Rest /\ s = Idle
Inv == n >= 1 /\ w \in 0..2 /\ t.ok /\ InvLoop

\* @type: ($ring, $ring, Int, Int) => $loc;
Where(x, y, v, p) == At(v, IF v = 1 THEN RankOf(n, x, p) ELSE IF v = 2 THEN RankOf(n, y, p) ELSE 0)

Init == /\ n \in Int /\ w \in 0..2
        /\ \E x, y \in Int : a = Ring(x, y)
        /\ \E x, y \in Int : b = Ring(x, y)
        /\ \E p \in Int : t = [p |-> p, ok |-> TRUE]
        /\ \E x, y \in Int : old = Ring(x, y)
        /\ \E v \in 0..2 : \E q \in Int : was = At(v, q)
        /\ \E pc \in {"idle", "right", "left", "put", "up", "down", "close"} : \E x, y, u, v \in Int :
             s = [pc |-> pc, a |-> Ring(x, y), cur |-> u, end |-> v]
        /\ op \in {"", "insert_from", "remove"} /\ i \in Int /\ k \in Int /\ c \in Int
        /\ Inv

\* only states between operations
InitIdle == /\ n \in Int /\ w \in 0..2
            /\ \E x, y \in Int : a = Ring(x, y)
            /\ \E x, y \in Int : b = Ring(x, y)
            /\ \E p \in Int : t = [p |-> p, ok |-> TRUE]
            /\ old = Ring(0, 0) /\ was = At(0, 0) /\ s = Idle /\ op = "" /\ i = 0 /\ k = 0 /\ c = 0
            /\ Inv

\* the result of an operation is compared with the ideal lists
\* @type: (Str, Int, Int, $ring, $ring, $loc, $out) => Bool;
Right(name, x, y, a0, b0, p, o) ==
  LET e == Expect(name, a0.len, b0.len, p.w, p.q, x, y)
      z == Lengths(name, a0.len, b0.len, x, y)
  IN /\ o.ok /\ o.w = e.w /\ o.a.len = z.w /\ o.b.len = z.q
     /\ (IF y > 0 THEN o.f = Raw(n, o.a, NewAt(name, a0.len, x)) ELSE TRUE)
     /\ (o.w = 1 => RankOf(n, o.a, o.p) = e.q) /\ (o.w = 2 => RankOf(n, o.b, o.p) = e.q)

Go(name) ==
  \E x, y \in Int :
    /\ s.pc = "idle" /\ Allowed(name, n, a.len, b.len, x, y)
    /\ LET o == RingStep(name, n, a, b, w, t, x, y) IN
       /\ a' = o.a /\ b' = o.b /\ w' = o.w /\ t' = [p |-> o.p, ok |-> Right(name, x, y, a, b, Where(a, b, w, t.p), o)]
    /\ UNCHANGED <<n, s, op, i, k, old, was, c>>

BeginInsert ==
  /\ s.pc = "idle"
  /\ \E x, y \in Int :
       /\ Allowed("insert_from", n, a.len, b.len, x, y)
       /\ op' = "insert_from" /\ i' = x /\ k' = y
       /\ s' = InsertStart(n, a, x, y)
       /\ c' = IF s'.pc = "right" THEN a.len - 1 ELSE 0
  /\ old' = a /\ was' = Where(a, b, w, t.p)
  /\ UNCHANGED <<n, a, b, w, t>>
RightRound == /\ s.pc = "right"
              /\ t' = RightMov(n, w = 1, t, s, k) /\ s' = RightNext(n, s, k)
              /\ c' = IF s'.pc = "put" THEN 0 ELSE c - 1
              /\ UNCHANGED <<n, a, b, w, op, i, k, old, was>>
LeftRound == /\ s.pc = "left"
             /\ t' = LeftMov(n, w = 1, t, s, k) /\ s' = LeftNext(n, s)
             /\ c' = IF s'.pc = "put" THEN 0 ELSE c + 1
             /\ UNCHANGED <<n, a, b, w, op, i, k, old, was>>
PutRound == /\ s.pc = "put" /\ c < k
            /\ t' = Fill(n, w = 1, t, s.cur) /\ s' = [s EXCEPT !.cur = Wr(n, s.cur + 1)] /\ c' = c + 1
            /\ UNCHANGED <<n, a, b, w, op, i, k, old, was>>
EndInsert ==
  /\ s.pc = "put" /\ c = k
  /\ LET o == [a |-> s.a, b |-> b, w |-> w, p |-> t.p, ok |-> t.ok, f |-> Raw(n, s.a, i)] IN
     t' = [p |-> t.p, ok |-> Right("insert_from", i, k, old, b, was, o)]
  /\ a' = s.a /\ s' = Idle /\ UNCHANGED <<n, b, w, op, i, k, old, was, c>>

BeginRemove ==
  /\ s.pc = "idle"
  /\ \E x \in Int :
       /\ Allowed("remove", n, a.len, b.len, x, 0)
       /\ op' = "remove" /\ i' = x /\ c' = x
       /\ s' = RemoveStart(n, a, x) /\ k' = IF a.len - x < x THEN 1 ELSE 0
       \* the item itself is read first
       /\ LET v == IF w = 1 /\ t.p = Raw(n, a, x) THEN 0 ELSE w IN
          /\ w' = v
          /\ was' = IF v = w THEN Where(a, b, w, t.p) ELSE At(0, 0)
          /\ t' = [t EXCEPT !.ok = t.ok /\ (v # w => RankOf(n, a, t.p) = x)]
  /\ old' = a /\ UNCHANGED <<n, a, b>>
UpRound == /\ s.pc = "up"
           /\ t' = UpMov(n, w = 1, t, s) /\ s' = UpNext(n, s) /\ c' = c + 1
           /\ UNCHANGED <<n, a, b, w, op, i, k, old, was>>
DownRound == /\ s.pc = "down"
             /\ t' = DownMov(n, w = 1, t, s) /\ s' = DownNext(n, s) /\ c' = c - 1
             /\ UNCHANGED <<n, a, b, w, op, i, k, old, was>>
EndRemove ==
  /\ s.pc = "close"
  /\ LET o == [a |-> RemoveEnd(n, s, k = 1), b |-> b, w |-> w, p |-> t.p, ok |-> t.ok, f |-> -1] IN
     /\ t' = [p |-> t.p, ok |-> Right("remove", i, 0, old, b, was, o)]
     /\ a' = o.a
  /\ s' = Idle /\ UNCHANGED <<n, b, w, op, i, k, old, was, c>>

\* one round or operation each, as the parts of the proof
ShortNames == {"push_front", "push_back", "pop_front", "pop_back", "drop_left", "drop_right", "clear", "io_write", "exchange"}
GoShort == \E name \in ShortNames : Go(name)
GoDrainFront == Go("drain_from_front")
GoDrainBack == Go("drain_from_back")
GoAppend == Go("append")
GoFromFront == Go("from_front")
GoFromBack == Go("from_back")
GoSplit == Go("split_off")
Loop == BeginInsert \/ RightRound \/ LeftRound \/ PutRound \/ EndInsert \/ BeginRemove \/ UpRound \/ DownRound \/ EndRemove
Next == (\E name \in Names : Go(name)) \/ Loop
=============================================================================
