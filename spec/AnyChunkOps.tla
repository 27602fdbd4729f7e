---------------------------- MODULE AnyChunkOps ----------------------------
(***************************************************************************)
(* The window arithmetic of Chunk for an arbitrary capacity n.             *)
(*                                                                         *)
(* ChunkImpl has a storage of n slots and is explored for small n.  Here   *)
(* the storage is not represented at all: one arbitrary element is         *)
(* followed through the same slot movements (in which container it is: 1   *)
(* is A, 2 is B, 0 is neither; in which slot p), and of what is written    *)
(* only the first slot is known (f, -1: nothing).  As the element is arbitrary, what is shown    *)
(* for it holds for all of them; as everything is linear integer           *)
(* arithmetic, Apalache shows it for all capacities, windows and arguments *)
(* (AnyChunk), and TLC that ChunkImpl makes the same moves (AnyLink).      *)
(***************************************************************************)
EXTENDS AnyList

(* @typeAlias: win = { l: Int, r: Int };
   @typeAlias: trk = { p: Int, ok: Bool };
   @typeAlias: out = { a: $win, b: $win, w: Int, p: Int, ok: Bool, f: Int }; *)
AnyChunk_aliases == TRUE

\* @type: (Int, Int, Int) => Bool;
In(n, at, cnt) == cnt <= 0 \/ (0 <= at /\ at + cnt <= n)
\* @type: (Int, Int, Int) => Bool;
Within(p, at, cnt) == at <= p /\ p < at + cnt
\* memmove within the storage in which the element is; ok: nothing outside was touched, the element not overwritten
\* @type: (Int, $trk, Int, Int, Int) => $trk;
Move(n, t, from, to, cnt) ==
  [p |-> IF Within(t.p, from, cnt) THEN t.p - from + to ELSE t.p,
   ok |-> t.ok /\ In(n, from, cnt) /\ In(n, to, cnt) /\ (Within(t.p, to, cnt) => Within(t.p, from, cnt))]
\* cnt slots are written
\* @type: (Int, $trk, Int, Int) => $trk;
Fill(n, t, at, cnt) == [t EXCEPT !.ok = t.ok /\ In(n, at, cnt) /\ ~Within(t.p, at, cnt)]

\* @type: ($win) => Int;
Ln(c) == c.r - c.l
\* @type: (Int, $win) => Bool;
Full(n, c) == c.l = 0 /\ c.r = n

\* memmove of a whole window [l, r) of A to another place, element possibly in it
\* @type: (Int, Int, $trk, Int, Int, Int) => $trk;
MoveA(n, w, t, from, to, cnt) == IF w = 1 THEN Move(n, t, from, to, cnt) ELSE [t EXCEPT !.ok = t.ok /\ In(n, from, cnt) /\ In(n, to, cnt)]
\* @type: (Int, Int, $trk, Int, Int) => $trk;
FillA(n, w, t, at, cnt) == IF w = 1 THEN Fill(n, t, at, cnt) ELSE [t EXCEPT !.ok = t.ok /\ In(n, at, cnt)]
\* cnt items are copied from slot from of B to slot to of A
\* @type: (Int, $win, $win, Int, $trk, Int, Int, Int) => $out;
FromB(n, a, b, w, t, from, to, cnt) ==
  [a |-> a, b |-> b,
   w |-> IF w = 2 /\ Within(t.p, from, cnt) THEN 1 ELSE w,
   p |-> IF w = 2 /\ Within(t.p, from, cnt) THEN t.p - from + to ELSE t.p,
   ok |-> t.ok /\ In(n, from, cnt) /\ In(n, to, cnt) /\ (w = 1 => ~Within(t.p, to, cnt)), f |-> -1]
\* @type: ($win, $win, Int, $trk) => $out;
Out(a, b, w, t) == [a |-> a, b |-> b, w |-> w, p |-> t.p, ok |-> t.ok, f |-> -1]
\* k new items are written from slot at of A
\* @type: (Int, $win, $win, Int, $trk, Int, Int) => $out;
Put(n, a, b, w, t, at, k) == [Out(a, b, w, FillA(n, w, t, at, k)) EXCEPT !.f = at]
\* @type: (Int, Int) => $win;
Win(l, r) == [l |-> l, r |-> r]

\* @type: (Int, $win, $win, Int, $trk) => $out;
APushFront(n, a, b, w, t) ==
  LET shift == a.l # a.r /\ a.l = 0
      r == IF a.l = a.r \/ shift THEN n ELSE a.r
      l == IF a.l = a.r THEN n ELSE IF shift THEN n - a.r ELSE a.l
      t1 == IF shift THEN MoveA(n, w, t, 0, n - a.r, a.r) ELSE t
  IN Put(n, Win(l - 1, r), b, w, t1, l - 1, 1)
\* @type: (Int, $win, $win, Int, $trk) => $out;
APushBack(n, a, b, w, t) ==
  LET shift == a.l # a.r /\ a.r = n
      l == IF a.l = a.r \/ shift THEN 0 ELSE a.l
      r == IF a.l = a.r THEN 0 ELSE IF shift THEN n - a.l ELSE a.r
      t1 == IF shift THEN MoveA(n, w, t, a.l, 0, Ln(a)) ELSE t
  IN Put(n, Win(l, r + 1), b, w, t1, r, 1)
\* an item of A is read and given up
\* @type: (Int, $win, Int, $trk) => Int;
Gone(n, c, w, t) == IF w = 1 /\ ~(c.l <= t.p /\ t.p < c.r) THEN 0 ELSE w
\* @type: (Int, $win, $win, Int, $trk) => $out;
Shrink(n, c, b, w, t) == Out(c, b, Gone(n, c, w, t), t)

\* @type: (Int, $win, $win, Int, $trk, Int, Int) => $out;
AInsertMany(n, a, b, w, t, i, k) ==
  LET real == i + a.l
      right == a.r - real
  IN IF a.r = n \/ (a.l >= k /\ i < right)
     THEN Put(n, Win(a.l - k, a.r), b, w, MoveA(n, w, t, a.l, a.l - k, i), real - k, k)
     ELSE IF a.l = 0 \/ a.r + k <= n
     THEN Put(n, Win(a.l, a.r + k), b, w, MoveA(n, w, t, real, real + k, right), real, k)
     ELSE \* an item which was moved to the left is not in the way of the second move
          LET t1 == MoveA(n, w, t, a.l, 0, i)
              left == w = 1 /\ Within(t.p, a.l, i)
              t2 == IF left THEN [t1 EXCEPT !.ok = t1.ok /\ In(n, real, right) /\ In(n, i + k, right) /\ ~Within(t1.p, i + k, right)]
                    ELSE MoveA(n, w, t1, real, i + k, right)
          IN Put(n, Win(0, a.r - a.l + k), b, w, t2, i, k)
\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
AInsert(n, a, b, w, t, i) ==
  LET real == i + a.l
      right == a.r - real
  IN IF a.r = n \/ (a.l > 0 /\ i < right)
     THEN Put(n, Win(a.l - 1, a.r), b, w, MoveA(n, w, t, a.l, a.l - 1, i), real - 1, 1)
     ELSE Put(n, Win(a.l, a.r + 1), b, w, MoveA(n, w, t, real, real + 1, right), real, 1)
\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
ARemove(n, a, b, w, t, i) ==
  LET real == i + a.l
      right == a.r - real - 1
      w1 == IF w = 1 /\ t.p = real THEN 0 ELSE w
  IN IF i < right THEN Out(Win(a.l + 1, a.r), b, w1, MoveA(n, w1, t, a.l, a.l + 1, i))
     ELSE Out(Win(a.l, a.r - 1), b, w1, MoveA(n, w1, t, real + 1, real, right))

\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
ADrainFront(n, a, b, w, t, k) ==
  LET comp == a.r + k > n
      a1 == IF comp THEN Win(0, a.r - a.l) ELSE a
      t1 == IF comp THEN MoveA(n, w, t, a.l, 0, Ln(a)) ELSE t
  IN FromB(n, Win(a1.l, a1.r + k), Win(b.l + k, b.r), w, t1, b.l, a1.r, k)
\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
ADrainBack(n, a, b, w, t, k) ==
  LET comp == a.l < k
      a1 == IF comp THEN Win(n - Ln(a), n) ELSE a
      t1 == IF comp THEN MoveA(n, w, t, a.l, n - Ln(a), Ln(a)) ELSE t
  IN FromB(n, Win(a1.l - k, a1.r), Win(b.l, b.r - k), w, t1, b.r - k, a1.l - k, k)
\* @type: (Int, $win, $win, Int, $trk) => $out;
AAppend(n, a, b, w, t) == LET o == ADrainFront(n, a, b, w, t, Ln(b)) IN [o EXCEPT !.b = Win(0, 0)]
\* the old contents of A are dropped, a new one takes k items from B
\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
AFromFront(n, a, b, w, t, k) == FromB(n, Win(0, k), Win(b.l + k, b.r), IF w = 1 THEN 0 ELSE w, t, b.l, 0, k)
\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
AFromBack(n, a, b, w, t, k) == FromB(n, Win(0, k), Win(b.l, b.r - k), IF w = 1 THEN 0 ELSE w, t, b.r - k, 0, k)
\* the old contents of B are dropped, it becomes what is split off
\* @type: (Int, $win, $win, Int, $trk, Int) => $out;
ASplit(n, a, b, w, t, i) ==
  LET start == a.l + i
      len == a.r - start
      moved == w = 1 /\ Within(t.p, start, len)
  IN IF i = Ln(a) THEN Out(a, Win(0, 0), IF w = 2 THEN 0 ELSE w, t)
     ELSE [a |-> Win(a.l, start), b |-> Win(0, len), w |-> IF moved THEN 2 ELSE IF w = 2 THEN 0 ELSE w,
           p |-> IF moved THEN t.p - start ELSE t.p, ok |-> t.ok /\ In(n, start, len) /\ In(n, 0, len), f |-> -1]

Names == {"push_front", "push_back", "pop_front", "pop_back", "drop_left", "drop_right", "clear", "insert", "insert_from", "remove",
          "append", "drain_from_front", "drain_from_back", "from_front", "from_back", "split_off", "exchange"}

\* when the operation is not refused: i an index or count, k the number of new items
\* @type: (Str, Int, Int, Int, Int, Int) => Bool;
Allowed(op, n, la, lb, i, k) ==
  CASE op \in {"push_front", "push_back"} -> la < n /\ i = 0 /\ k = 1
    [] op \in {"pop_front", "pop_back"} -> la > 0 /\ i = 0 /\ k = 0
    [] op \in {"drop_left", "drop_right", "split_off"} -> 0 <= i /\ i <= la /\ k = 0
    [] op \in {"clear", "exchange"} -> i = 0 /\ k = 0
    [] op = "insert" -> la < n /\ 0 <= i /\ i <= la /\ k = 1
    [] op = "insert_from" -> 0 <= k /\ la + k <= n /\ 0 <= i /\ i <= la
    [] op = "remove" -> 0 <= i /\ i < la /\ k = 0
    [] op = "append" -> la + lb <= n /\ i = 0 /\ k = 0
    [] op \in {"drain_from_front", "drain_from_back"} -> 0 <= i /\ i <= lb /\ la + i <= n /\ k = 0
    [] op \in {"from_front", "from_back"} -> 0 <= i /\ i <= lb /\ k = 0
    [] OTHER -> FALSE

\* @type: (Str, Int, $win, $win, Int, $trk, Int, Int) => $out;
ChunkStep(op, n, a, b, w, t, i, k) ==
  CASE op = "push_front" -> APushFront(n, a, b, w, t)
    [] op = "push_back" -> APushBack(n, a, b, w, t)
    [] op = "pop_front" -> Shrink(n, Win(a.l + 1, a.r), b, w, t)
    [] op = "pop_back" -> Shrink(n, Win(a.l, a.r - 1), b, w, t)
    [] op = "drop_left" -> Shrink(n, Win(a.l + i, a.r), b, w, t)
    [] op = "drop_right" -> Shrink(n, Win(a.l, a.l + i), b, w, t)
    [] op = "clear" -> Shrink(n, Win(0, 0), b, w, t)
    [] op = "insert" -> AInsert(n, a, b, w, t, i)
    [] op = "insert_from" -> AInsertMany(n, a, b, w, t, i, k)
    [] op = "remove" -> ARemove(n, a, b, w, t, i)
    [] op = "append" -> AAppend(n, a, b, w, t)
    [] op = "drain_from_front" -> ADrainFront(n, a, b, w, t, i)
    [] op = "drain_from_back" -> ADrainBack(n, a, b, w, t, i)
    [] op = "from_front" -> AFromFront(n, a, b, w, t, i)
    [] op = "from_back" -> AFromBack(n, a, b, w, t, i)
    [] op = "split_off" -> ASplit(n, a, b, w, t, i)
    [] OTHER -> Out(b, a, IF w = 0 THEN 0 ELSE 3 - w, t)
=============================================================================
