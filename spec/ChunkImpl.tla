----------------------------- MODULE ChunkImpl ------------------------------
(***************************************************************************)
(* Implementation shaped model of Chunk<A, N>: a window [l, r) into n      *)
(* slots.  Every operation of the code is transcribed with its slot copies *)
(* (force_copy and friends are memmove: the source keeps its bits, so an   *)
(* element can wrongly be visible twice or be overwritten - the refinement *)
(* check against SeqSpec would see that).  mem[i] = 0: slot never written. *)
(***************************************************************************)
EXTENDS Base

CLen(c) == c.r - c.l
CView(c) == [i \in 1..CLen(c) |-> c.mem[c.l + i - 1]]
CNew(n) == [l |-> 0, r |-> 0, mem |-> [i \in 0..(n - 1) |-> 0], n |-> n]
CMake(n, l, r, first) ==   \* canonical contents first, first+1, ...
  [l |-> l, r |-> r, n |-> n, mem |-> [i \in 0..(n - 1) |-> IF l <= i /\ i < r THEN first + i - l ELSE 0]]

InB(c, from, cnt) == Assert(cnt <= 0 \/ (from >= 0 /\ from + cnt <= c.n), <<"access outside the storage", c, from, cnt>>)
Copy(c, from, to, cnt) ==       \* force_copy
  IF cnt <= 0 THEN c
  ELSE IF InB(c, from, cnt) /\ InB(c, to, cnt)
       THEN [c EXCEPT !.mem = [i \in 0..(c.n - 1) |-> IF to <= i /\ i < to + cnt THEN c.mem[from + i - to] ELSE c.mem[i]]]
       ELSE c
CopyTo(src, from, dst, to, cnt) ==  \* force_copy_to, returns dst
  IF cnt <= 0 THEN dst
  ELSE IF InB(src, from, cnt) /\ InB(dst, to, cnt)
       THEN [dst EXCEPT !.mem = [i \in 0..(dst.n - 1) |-> IF to <= i /\ i < to + cnt THEN src.mem[from + i - to] ELSE dst.mem[i]]]
       ELSE dst
Write(c, at, s) ==              \* force_write of the sequence s from slot at
  IF s = <<>> THEN c
  ELSE IF InB(c, at, Len(s))
       THEN [c EXCEPT !.mem = [i \in 0..(c.n - 1) |-> IF at <= i /\ i < at + Len(s) THEN s[i - at + 1] ELSE c.mem[i]]]
       ELSE c

CFull(c) == c.l = 0 /\ c.r = c.n
CEmpty(c) == c.l = c.r
Res(p, A, B, r, d) == [p |-> p, A |-> A, B |-> B, r |-> r, d |-> d]

CPushFront(c, x) ==
  LET c1 == IF CEmpty(c) THEN [c EXCEPT !.l = c.n, !.r = c.n]
            ELSE IF c.l = 0 THEN [Copy(c, 0, c.n - c.r, c.r) EXCEPT !.l = c.n - c.r, !.r = c.n]
            ELSE c
  IN [Write(c1, c1.l - 1, <<x>>) EXCEPT !.l = c1.l - 1]
CPushBack(c, x) ==
  LET c1 == IF CEmpty(c) THEN [c EXCEPT !.l = 0, !.r = 0]
            ELSE IF c.r = c.n THEN [Copy(c, c.l, 0, CLen(c)) EXCEPT !.r = c.n - c.l, !.l = 0]
            ELSE c
  IN [Write(c1, c1.r, <<x>>) EXCEPT !.r = c1.r + 1]
RECURSIVE CPushAll(_, _)
CPushAll(c, s) == IF s = <<>> THEN c ELSE CPushAll(CPushBack(c, s[1]), Tail(s))

CInsert(c, i, x) ==
  LET real == i + c.l  right == c.r - real IN
  IF c.r = c.n \/ (c.l > 0 /\ i < right)
  THEN [Write(Copy(c, c.l, c.l - 1, i), real - 1, <<x>>) EXCEPT !.l = c.l - 1]
  ELSE [Write(Copy(c, real, real + 1, right), real, <<x>>) EXCEPT !.r = c.r + 1]

CInsertFrom(c, i, s) ==
  LET real == i + c.l  right == c.r - real  k == Len(s) IN
  IF c.r = c.n \/ (c.l >= k /\ i < right)
  THEN [Write(Copy(c, c.l, c.l - k, i), real - k, s) EXCEPT !.l = c.l - k]
  ELSE IF c.l = 0 \/ c.r + k <= c.n
  THEN [Write(Copy(c, real, real + k, right), real, s) EXCEPT !.r = c.r + k]
  ELSE LET c1 == Copy(c, c.l, 0, i)
           c2 == Copy(c1, real, i + k, right)
       IN [Write(c2, i, s) EXCEPT !.r = c.r - c.l + k, !.l = 0]

CRemove(c, i) ==
  LET real == i + c.l  right == c.r - real - 1 IN
  IF i < right THEN [Copy(c, c.l, c.l + 1, i) EXCEPT !.l = c.l + 1]
  ELSE [Copy(c, real + 1, real, right) EXCEPT !.r = c.r - 1]

CAppendRoom(c, k) == IF c.r + k > c.n THEN [Copy(c, c.l, 0, CLen(c)) EXCEPT !.r = c.r - c.l, !.l = 0] ELSE c
CDrainFront(c, o, k) ==
  LET c1 == CAppendRoom(c, k) IN
  << [CopyTo(o, o.l, c1, c1.r, k) EXCEPT !.r = c1.r + k], [o EXCEPT !.l = o.l + k] >>
CDrainBack(c, o, k) ==
  LET c1 == IF c.l < k THEN [Copy(c, c.l, c.n - CLen(c), CLen(c)) EXCEPT !.l = c.n - CLen(c), !.r = c.n] ELSE c IN
  << [CopyTo(o, o.r - k, c1, c1.l - k, k) EXCEPT !.l = c1.l - k], [o EXCEPT !.r = o.r - k] >>
CFrontOf(o, k) == << [CopyTo(o, o.l, CNew(o.n), 0, k) EXCEPT !.r = k], [o EXCEPT !.l = o.l + k] >>
CBackOf(o, k) == << [CopyTo(o, o.r - k, CNew(o.n), 0, k) EXCEPT !.r = k], [o EXCEPT !.r = o.r - k] >>
CSplit(c, i) ==
  IF i = CLen(c) THEN << c, CNew(c.n) >>
  ELSE LET start == c.l + i  len == c.r - start IN
       << [c EXCEPT !.r = start], [CopyTo(c, start, CNew(c.n), 0, len) EXCEPT !.r = len] >>
CCloneOf(c) == [CNew(c.n) EXCEPT !.l = c.l, !.r = c.r,
                   !.mem = [i \in 0..(c.n - 1) |-> IF c.l <= i /\ i < c.r THEN CLONE + c.mem[i] ELSE 0]]

CApply(op, f, A, B) ==
  LET n == A.n  la == CLen(A)  lb == CLen(B)  i == op.x  j == op.y
      va == CView(A)  vb == CView(B)
      Fail == Res(1, A, B, <<>>, f)
      Fresh(c) == Res(0, c, B, <<>>, va)
      Two(ab) == Res(0, ab[1], ab[2], <<>>, <<>>)
  IN
  CASE op.op \in {"new", "default"} -> Fresh(CNew(n))
    [] op.op = "unit" -> IF n >= 1 THEN Fresh([Write(CNew(n), 0, f) EXCEPT !.r = 1]) ELSE Fail
    [] op.op = "pair" -> IF n >= 2 THEN Fresh([Write(CNew(n), 0, f) EXCEPT !.r = 2]) ELSE Fail
    [] op.op = "from_iter" -> IF Len(f) > n THEN Fail ELSE Fresh(CPushAll(CNew(n), f))
    [] op.op = "collect_from" -> IF i > Len(f) \/ i > n THEN Fail
         ELSE Res(0, CPushAll(CNew(n), Take(f, i)), B, <<>>, va \o Drop(f, i))
    [] op.op = "drain_from" -> LET p == CFrontOf(B, lb) IN Res(0, p[1], p[2], <<>>, va)
    [] op.op = "from_front" -> IF i > lb THEN Fail ELSE LET p == CFrontOf(B, i) IN Res(0, p[1], p[2], <<>>, va)
    [] op.op = "from_back" -> IF i > lb THEN Fail ELSE LET p == CBackOf(B, i) IN Res(0, p[1], p[2], <<>>, va)
    [] op.op \in {"clone", "clone_from"} -> Res(0, A, CCloneOf(A), <<>>, vb)
    [] op.op = "pool_clone" -> Res(0, A, B, CView(CCloneOf(A)), CView(CCloneOf(A)))
    [] op.op = "pool_default" -> Res(0, A, B, <<>>, CView(CCloneOf(A)))
    [] op.op = "clear" -> Res(0, [A EXCEPT !.l = 0, !.r = 0], B, <<>>, va)
    [] op.op = "push_back" -> IF CFull(A) THEN Fail ELSE Res(0, CPushBack(A, f[1]), B, <<>>, <<>>)
    [] op.op = "push_front" -> IF CFull(A) THEN Fail ELSE Res(0, CPushFront(A, f[1]), B, <<>>, <<>>)
    [] op.op = "pop_back" -> IF CEmpty(A) THEN Fail ELSE Res(0, [A EXCEPT !.r = @ - 1], B, <<A.mem[A.r - 1]>>, <<>>)
    [] op.op = "pop_front" -> IF CEmpty(A) THEN Fail ELSE Res(0, [A EXCEPT !.l = @ + 1], B, <<A.mem[A.l]>>, <<>>)
    [] op.op = "drop_left" -> IF i > la THEN Fail ELSE Res(0, [A EXCEPT !.l = @ + i], B, <<>>, Take(va, i))
    [] op.op = "drop_right" -> IF i > la THEN Fail ELSE Res(0, [A EXCEPT !.r = A.l + i], B, <<>>, Drop(va, i))
    [] op.op = "split_off" -> IF i > la THEN Fail ELSE LET p == CSplit(A, i) IN Res(0, p[1], p[2], <<>>, vb)
    [] op.op = "append" -> IF la + lb > n THEN Fail
         ELSE LET p == CDrainFront(A, B, lb) IN Res(0, p[1], [p[2] EXCEPT !.l = 0, !.r = 0], <<>>, <<>>)
    [] op.op = "drain_from_front" -> IF la + i > n \/ i > lb THEN Fail ELSE Two(CDrainFront(A, B, i))
    [] op.op = "drain_from_back" -> IF la + i > n \/ i > lb THEN Fail ELSE Two(CDrainBack(A, B, i))
    [] op.op = "set" -> IF i >= la THEN Fail ELSE Res(0, Write(A, A.l + i, f), B, <<A.mem[A.l + i]>>, <<>>)
    [] op.op = "index" -> IF i >= la THEN Fail ELSE Res(0, A, B, <<va[i + 1]>>, <<>>)
    [] op.op = "index_mut" -> IF i >= la THEN Fail ELSE Res(0, Write(A, A.l + i, f), B, <<>>, <<A.mem[A.l + i]>>)
    [] op.op = "range" -> IF i > j \/ j > la THEN Fail ELSE Res(0, A, B, [q \in 1..(j - i) |-> A.mem[A.l + i + q - 1]], <<>>)
    [] op.op = "get" -> Res(0, A, B, IF i < la THEN <<va[i + 1]>> ELSE <<0>>, <<>>)
    [] op.op = "get_mut" -> IF i >= la THEN Res(0, A, B, <<0>>, f) ELSE Res(0, Write(A, A.l + i, f), B, <<A.mem[A.l + i]>>, <<>>)
    [] op.op = "first_last" -> Res(0, A, B, IF la = 0 THEN <<0, 0>> ELSE <<va[1], va[la]>>, <<>>)
    [] op.op = "swap" -> IF i >= la \/ j >= la THEN Fail ELSE Res(0, [A EXCEPT !.mem[A.l + i] = A.mem[A.l + j], !.mem[A.l + j] = A.mem[A.l + i]], B, <<>>, <<>>)
    [] op.op = "insert" -> IF CFull(A) \/ i > la THEN Fail ELSE Res(0, CInsert(A, i, f[1]), B, <<>>, <<>>)
    [] op.op = "insert_from" -> IF Len(f) > n - la \/ i > la THEN Fail ELSE Res(0, CInsertFrom(A, i, f), B, <<>>, <<>>)
    [] op.op = "insert_huge" -> Fail
    [] op.op = "remove" -> IF i >= la THEN Fail ELSE Res(0, CRemove(A, i), B, <<va[i + 1]>>, <<>>)
    [] op.op = "extend" -> IF Len(f) <= n - la THEN Res(0, CPushAll(A, f), B, <<>>, <<>>)
                           ELSE Res(1, CPushAll(A, Take(f, n - la)), B, <<>>, Drop(f, n - la))
    [] op.op = "extend_ref" -> IF Len(f) <= n - la THEN Res(0, CPushAll(A, CloneSeq(f)), B, <<>>, f)
                          ELSE Res(1, CPushAll(A, CloneSeq(Take(f, n - la))), B, <<>>, f \o <<CLONE + f[n - la + 1]>>)
    [] op.op = "exchange" -> Res(0, B, A, <<>>, <<>>)
    [] op.op = "drop_all" -> Res(0, CNew(n), CNew(n), <<>>, va \o vb)
    [] op.op = "io_write" -> Res(0, CPushAll(A, Take(f, n - la)), B, <<Min2(Len(f), n - la)>>, <<>>)
    [] op.op = "io_read" -> Res(0, [A EXCEPT !.l = @ + Min2(i, la)], B, <<Min2(i, la)>> \o Take(va, i), <<>>)
=============================================================================
