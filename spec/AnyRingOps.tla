----------------------------- MODULE AnyRingOps -----------------------------
(***************************************************************************)
(* The index arithmetic of RingBuffer for an arbitrary capacity n >= 1, in *)
(* the style of AnyChunkOps: one arbitrary element is followed (w: 1 in A, *)
(* 2 in B, 0 in neither; t.p: its raw slot), of what is written only the   *)
(* first slot is known (f).  A container is an origin o and a length len.  *)
(*                                                                         *)
(* Transfers are the one, two or three segments of copy_from.  The loops   *)
(* of insert, insert_from and remove are single steps here (Shift...);     *)
(* AnyRing runs them with a loop invariant, AnyLink (TLC) iterates them.   *)
(***************************************************************************)
EXTENDS AnyList

(* @typeAlias: ring = { o: Int, len: Int };
   @typeAlias: trk = { p: Int, ok: Bool };
   @typeAlias: out = { a: $ring, b: $ring, w: Int, p: Int, ok: Bool, f: Int }; *)
AnyRing_aliases == TRUE

\* the remainder of x by n, for 0 <= x < 2n
\* @type: (Int, Int) => Int;
Wr(n, x) == IF x >= n THEN x - n ELSE x
\* @type: (Int, Int) => Bool;
Slot(n, p) == 0 <= p /\ p < n
\* @type: (Int, Int, Int) => Bool;
Within(p, at, cnt) == at <= p /\ p < at + cnt
\* @type: (Int, $ring, Int) => Int;
Raw(n, c, i) == Wr(n, c.o + i)
\* the index of slot p
\* @type: (Int, $ring, Int) => Int;
RankOf(n, c, p) == Wr(n, p + n - c.o)
\* @type: (Int, Int) => $ring;
Ring(o, len) == [o |-> o, len |-> len]
\* @type: ($ring, $ring, Int, $trk) => $out;
Out(a, b, w, t) == [a |-> a, b |-> b, w |-> w, p |-> t.p, ok |-> t.ok, f |-> -1]

\* one element is copied from slot x to slot y of A (wt: the element is in A)
\* @type: (Int, Bool, $trk, Int, Int) => $trk;
Mov(n, wt, t, x, y) ==
  [p |-> IF wt /\ t.p = x THEN y ELSE t.p,
   ok |-> t.ok /\ Slot(n, x) /\ Slot(n, y) /\ (wt /\ t.p = y => x = y)]
\* a new element is written to slot y of A
\* @type: (Int, Bool, $trk, Int) => $trk;
Fill(n, wt, t, y) == [t EXCEPT !.ok = t.ok /\ Slot(n, y) /\ ~(wt /\ t.p = y)]
\* the same for cnt neighbouring slots
\* @type: (Int, Bool, $trk, Int, Int) => $trk;
FillSeg(n, wt, t, at, cnt) ==
  [t EXCEPT !.ok = t.ok /\ (cnt > 0 => 0 <= at /\ at + cnt <= n) /\ ~(wt /\ Within(t.p, at, cnt))]

(* copy_from: m is where the element was copied to (-1: nowhere), d the slot of the target which must survive (-1: none) *)
\* @typeAlias: cpy = { m: Int, ok: Bool };
\* @type: (Int, Int, Int, Int, Int, Int, $cpy) => $cpy;
Seg(n, p, d, from, to, cnt, r) ==
  [m |-> IF Within(p, from, cnt) THEN p - from + to ELSE r.m,
   ok |-> /\ r.ok /\ (cnt > 0 => 0 <= from /\ from + cnt <= n /\ 0 <= to /\ to + cnt <= n) /\ cnt >= 0
          /\ (d >= 0 => ~Within(d, to, cnt))
          /\ (r.m >= 0 => ~Within(r.m, to, cnt))]           \* not written twice
\* @type: (Int, Int, Int, Int, Int, Int, $cpy) => $cpy;
Copy2(n, p, d, from, to, cnt, r) ==
  IF to + cnt > n
  THEN LET fst == n - to IN Seg(n, p, d, Wr(n, from + fst), 0, cnt - fst, Seg(n, p, d, from, to, fst, r))
  ELSE Seg(n, p, d, from, to, cnt, r)
\* @type: (Int, Int, Int, Int, Int, Int) => $cpy;
Copy3(n, p, d, from, to, cnt) ==
  LET none == [m |-> -1, ok |-> TRUE] IN
  IF from + cnt > n
  THEN LET fst == n - from IN Copy2(n, p, d, 0, Wr(n, to + fst), cnt - fst, Copy2(n, p, d, from, to, fst, none))
  ELSE Copy2(n, p, d, from, to, cnt, none)
(* cnt elements of B from slot from on become elements of A from slot to on *)
\* @type: (Int, $ring, $ring, Int, $trk, Int, Int, Int) => $out;
FromB(n, a, b, w, t, from, to, cnt) ==
  LET r == Copy3(n, IF w = 2 THEN t.p ELSE -1, IF w = 1 THEN t.p ELSE -1, from, to, cnt) IN
  [a |-> a, b |-> b, w |-> IF w = 2 /\ r.m >= 0 THEN 1 ELSE w, p |-> IF w = 2 /\ r.m >= 0 THEN r.m ELSE t.p, ok |-> t.ok /\ r.ok, f |-> -1]

\* @type: (Int, $ring, $ring, Int, $trk) => $out;
RPushBackOp(n, a, b, w, t) ==
  LET at == Raw(n, a, a.len) IN [Out(Ring(a.o, a.len + 1), b, w, Fill(n, w = 1, t, at)) EXCEPT !.f = at]
\* @type: (Int, $ring, $ring, Int, $trk) => $out;
RPushFrontOp(n, a, b, w, t) ==
  LET at == Wr(n, a.o + n - 1) IN [Out(Ring(at, a.len + 1), b, w, Fill(n, w = 1, t, at)) EXCEPT !.f = at]
\* items of A are given up
\* @type: (Int, $ring, $ring, Int, $trk) => $out;
Shrink(n, a, b, w, t) == Out(a, b, IF w = 1 /\ RankOf(n, a, t.p) >= a.len THEN 0 ELSE w, t)
\* @type: (Int, $ring, $ring, Int, $trk, Int) => $out;
DrainF(n, a, b, w, t, k) == FromB(n, Ring(a.o, a.len + k), Ring(Wr(n, b.o + k), b.len - k), w, t, b.o, Raw(n, a, a.len), k)
\* @type: (Int, $ring, $ring, Int, $trk, Int) => $out;
DrainB(n, a, b, w, t, k) ==
  LET o == Wr(n, a.o + n - k) IN FromB(n, Ring(o, a.len + k), Ring(b.o, b.len - k), w, t, Raw(n, b, b.len - k), o, k)
\* @type: (Int, $ring, $ring, Int, $trk, Int) => $out;
SplitAt(n, a, b, w, t, i) ==
  LET r == Copy3(n, IF w = 1 /\ RankOf(n, a, t.p) >= i THEN t.p ELSE -1, -1, Raw(n, a, i), 0, a.len - i)
      moved == w = 1 /\ RankOf(n, a, t.p) >= i
  IN IF i = a.len THEN Out(a, Ring(0, 0), IF w = 2 THEN 0 ELSE w, t)
     ELSE [a |-> Ring(a.o, i), b |-> Ring(0, a.len - i), w |-> IF moved THEN 2 ELSE IF w = 2 THEN 0 ELSE w,
           p |-> IF moved THEN r.m ELSE t.p, ok |-> t.ok /\ r.ok, f |-> -1]
(* copy_from_slice: k new items behind the last one *)
\* @type: (Int, $ring, $ring, Int, $trk, Int) => $out;
WriteSlice(n, a, b, w, t, k) ==
  LET at == Raw(n, a, a.len)  fst == n - at IN
  [Out(Ring(a.o, a.len + k), b, w,
       IF at + k > n THEN FillSeg(n, w = 1, FillSeg(n, w = 1, t, at, fst), 0, k - fst) ELSE FillSeg(n, w = 1, t, at, k)) EXCEPT !.f = at]

(* what is done in one go *)
Names == {"push_front", "push_back", "pop_front", "pop_back", "drop_left", "drop_right", "clear", "io_write",
          "append", "drain_from_front", "drain_from_back", "from_front", "from_back", "split_off", "exchange"}
(* what loops *)
Loops == {"insert", "insert_from", "remove"}

\* @type: (Str, Int, Int, Int, Int, Int) => Bool;
Allowed(op, n, la, lb, i, k) ==
  CASE op \in {"push_front", "push_back"} -> la < n /\ i = 0 /\ k = 1
    [] op \in {"pop_front", "pop_back"} -> la > 0 /\ i = 0 /\ k = 0
    [] op \in {"drop_left", "drop_right", "split_off"} -> 0 <= i /\ i <= la /\ k = 0
    [] op \in {"clear", "exchange"} -> i = 0 /\ k = 0
    [] op = "io_write" -> i = 0 /\ 0 <= k /\ la + k <= n
    [] op = "insert" -> la < n /\ 0 < i /\ i < la /\ k = 1            \* at the ends it is a push
    [] op = "insert_from" -> 0 <= k /\ la + k <= n /\ 0 <= i /\ i < la
    [] op = "remove" -> 0 <= i /\ i < la /\ k = 0
    [] op = "append" -> la + lb <= n /\ i = 0 /\ k = 0
    [] op \in {"drain_from_front", "drain_from_back"} -> 0 <= i /\ i <= lb /\ la + i <= n /\ k = 0
    [] op \in {"from_front", "from_back"} -> 0 <= i /\ i <= lb /\ k = 0
    [] OTHER -> FALSE

\* @type: (Str, Int, $ring, $ring, Int, $trk, Int, Int) => $out;
RingStep(op, n, a, b, w, t, i, k) ==
  CASE op = "push_front" -> RPushFrontOp(n, a, b, w, t)
    [] op = "push_back" -> RPushBackOp(n, a, b, w, t)
    [] op = "pop_front" -> Shrink(n, Ring(Wr(n, a.o + 1), a.len - 1), b, w, t)
    [] op = "pop_back" -> Shrink(n, Ring(a.o, a.len - 1), b, w, t)
    [] op = "drop_left" -> Shrink(n, Ring(Wr(n, a.o + i), a.len - i), b, w, t)
    [] op = "drop_right" -> Shrink(n, Ring(a.o, i), b, w, t)
    [] op = "clear" -> Shrink(n, Ring(0, 0), b, w, t)
    [] op = "io_write" -> WriteSlice(n, a, b, w, t, k)
    [] op = "append" -> DrainF(n, a, b, w, t, b.len)
    [] op = "drain_from_front" -> DrainF(n, a, b, w, t, i)
    [] op = "drain_from_back" -> DrainB(n, a, b, w, t, i)
    [] op = "from_front" -> DrainF(n, Ring(0, 0), b, IF w = 1 THEN 0 ELSE w, t, i)
    [] op = "from_back" -> DrainB(n, Ring(0, 0), b, IF w = 1 THEN 0 ELSE w, t, i)
    [] op = "split_off" -> SplitAt(n, a, b, w, t, i)
    [] OTHER -> Out(b, a, IF w = 0 THEN 0 ELSE 3 - w, t)

(* The loops.  c counts in indices, s is what moves: from slot to slot *)
\* @typeAlias: loop = { pc: Str, a: $ring, cur: Int, end: Int };
(* insert: the smaller part makes room; the length counts the new items at once when the left part moves, else afterwards *)
\* @type: (Int, $ring, Int, Int) => $loop;
InsertStart(n, a, i, k) ==
  IF a.len - i < i THEN [pc |-> "right", a |-> a, cur |-> Raw(n, a, a.len - 1), end |-> Raw(n, a, i)]
  ELSE LET a1 == Ring(Wr(n, a.o + n - k), a.len + k) IN [pc |-> IF i = 0 THEN "put" ELSE "left", a |-> a1, cur |-> a1.o, end |-> Raw(n, a1, i)]
(* one round: the last slot of the part first, up to and including end *)
\* @type: (Int, $loop, Int) => $loop;
RightNext(n, s, k) ==
  IF s.cur = s.end THEN [pc |-> "put", a |-> [s.a EXCEPT !.len = s.a.len + k], cur |-> s.end, end |-> s.end]
  ELSE [s EXCEPT !.cur = Wr(n, s.cur + n - 1)]
\* @type: (Int, Bool, $trk, $loop, Int) => $trk;
RightMov(n, wt, t, s, k) == Mov(n, wt, t, s.cur, Wr(n, s.cur + k))
(* the first slot of the new window first, up to but excluding end *)
\* @type: (Int, $loop) => $loop;
LeftNext(n, s) == LET x == Wr(n, s.cur + 1) IN [s EXCEPT !.cur = x, !.pc = IF x = s.end THEN "put" ELSE "left"]
\* @type: (Int, Bool, $trk, $loop, Int) => $trk;
LeftMov(n, wt, t, s, k) == Mov(n, wt, t, Wr(n, s.cur + k), s.cur)

(* remove: the smaller part closes the gap *)
\* @type: (Int, $ring, Int) => $loop;
RemoveStart(n, a, i) ==
  LET up == a.len - i < i
      x == Raw(n, a, i)
      e == IF up THEN Raw(n, a, a.len - 1) ELSE a.o
  IN [pc |-> IF x = e THEN "close" ELSE IF up THEN "up" ELSE "down", a |-> IF up THEN Ring(a.o, a.len - 1) ELSE a, cur |-> x, end |-> e]
\* @type: (Int, $loop) => $loop;
UpNext(n, s) == LET x == Wr(n, s.cur + 1) IN [s EXCEPT !.cur = x, !.pc = IF x = s.end THEN "close" ELSE "up"]
\* @type: (Int, Bool, $trk, $loop) => $trk;
UpMov(n, wt, t, s) == Mov(n, wt, t, Wr(n, s.cur + 1), s.cur)
\* @type: (Int, $loop) => $loop;
DownNext(n, s) == LET x == Wr(n, s.cur + n - 1) IN [s EXCEPT !.cur = x, !.pc = IF x = s.end THEN "close" ELSE "down"]
\* @type: (Int, Bool, $trk, $loop) => $trk;
DownMov(n, wt, t, s) == Mov(n, wt, t, Wr(n, s.cur + n - 1), s.cur)
\* up: did the part behind the gap move
\* @type: (Int, $loop, Bool) => $ring;
RemoveEnd(n, s, up) == IF up THEN s.a ELSE Ring(Wr(n, s.a.o + 1), s.a.len - 1)
=============================================================================
