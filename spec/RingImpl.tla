------------------------------ MODULE RingImpl ------------------------------
(***************************************************************************)
(* Implementation shaped model of RingBuffer<A, N>: origin o (the RawIndex *)
(* of the first item), length len, n slots.  Index arithmetic is modulo n, *)
(* transfers are split into the same one, two or three segment copies as   *)
(* copy_from, and insert/remove shift items one by one as the code does.   *)
(***************************************************************************)
EXTENDS Base, IterSpec, SliceSpec

W(n, i) == IF n = 0 THEN 0 ELSE i % n       \* RawIndex + usize / - usize
RNew(n) == [o |-> 0, len |-> 0, n |-> n, mem |-> [i \in 0..(n - 1) |-> 0]]
RMake(n, o, len, first) ==
  [o |-> o, len |-> len, n |-> n,
   mem |-> [i \in 0..(n - 1) |-> LET q == W(n, i + n - o) IN IF q < len THEN first + q ELSE 0]]
RRaw(c, i) == W(c.n, c.o + i)
RView(c) == [i \in 1..c.len |-> c.mem[RRaw(c, i - 1)]]
RRes(p, A, B, r, d) == [p |-> p, A |-> A, B |-> B, r |-> r, d |-> d]

(* force_copy_to: one contiguous segment *)
Seg(src, from, dst, to, cnt) ==
  IF cnt = 0 THEN dst
  ELSE IF Assert(from + cnt <= src.n /\ to + cnt <= dst.n, <<"copy outside the storage", from, to, cnt>>)
       THEN [dst EXCEPT !.mem = [i \in 0..(dst.n - 1) |-> IF to <= i /\ i < to + cnt THEN src.mem[from + i - to] ELSE dst.mem[i]]]
       ELSE dst
RECURSIVE CopyFrom(_, _, _, _, _)
CopyFrom(dst, src, from, to, cnt) ==
  IF from + cnt > src.n
  THEN LET fst == src.n - from IN
       CopyFrom(CopyFrom(dst, src, from, to, fst), src, 0, W(dst.n, to + fst), cnt - fst)
  ELSE IF to + cnt > dst.n
  THEN LET fst == dst.n - to IN
       Seg(src, W(src.n, from + fst), Seg(src, from, dst, to, fst), 0, cnt - fst)
  ELSE Seg(src, from, dst, to, cnt)

Put(c, raw, x) == [c EXCEPT !.mem[raw] = x]
Mov(c, from, to) == [c EXCEPT !.mem[to] = c.mem[from]]

RPushBack(c, x) == [Put(c, RRaw(c, c.len), x) EXCEPT !.len = @ + 1]
RPushFront(c, x) == LET o2 == IF c.o = 0 THEN c.n - 1 ELSE c.o - 1 IN [Put(c, o2, x) EXCEPT !.o = o2, !.len = @ + 1]
RECURSIVE RPushAll(_, _)
RPushAll(c, s) == IF s = <<>> THEN c ELSE RPushAll(RPushBack(c, s[1]), Tail(s))

(* shift right by k: i runs down from the last item to target *)
RECURSIVE ShiftR(_, _, _, _)
ShiftR(c, i, target, k) ==
  IF i = target THEN Mov(c, target, W(c.n, target + k))
  ELSE ShiftR(Mov(c, i, W(c.n, i + k)), W(c.n, i + c.n - 1), target, k)
(* shift left by k: the first cnt logical positions take what is k further on *)
RECURSIVE ShiftL(_, _, _, _)
ShiftL(c, p, cnt, k) ==
  IF p = cnt THEN c ELSE ShiftL(Mov(c, W(c.n, RRaw(c, p) + k), RRaw(c, p)), p + 1, cnt, k)
RECURSIVE PutAll(_, _, _)
PutAll(c, raw, s) == IF s = <<>> THEN c ELSE PutAll(Put(c, raw, s[1]), W(c.n, raw + 1), Tail(s))

RInsertMany(c, i, s) ==       \* the part shared by insert (k = 1) and insert_from
  LET k == Len(s)  right == c.len - i
      c1 == IF right < i THEN [ShiftR(c, RRaw(c, c.len - 1), RRaw(c, i), k) EXCEPT !.len = @ + k]
            ELSE ShiftL([c EXCEPT !.o = W(c.n, c.o + c.n - k), !.len = @ + k], 0, i, k)
  IN PutAll(c1, RRaw(c1, i), s)
RInsert(c, i, x) == IF i = 0 THEN RPushFront(c, x) ELSE IF i = c.len THEN RPushBack(c, x) ELSE RInsertMany(c, i, <<x>>)
RInsertFrom(c, i, s) == IF i = c.len THEN RPushAll(c, s) ELSE RInsertMany(c, i, s)

RECURSIVE CloseUp(_, _, _)
CloseUp(c, i, target) == IF i = target THEN c ELSE CloseUp(Mov(c, W(c.n, i + 1), i), W(c.n, i + 1), target)
RECURSIVE CloseDown(_, _)
CloseDown(c, i) == IF i = c.o THEN c ELSE CloseDown(Mov(c, W(c.n, i + c.n - 1), i), W(c.n, i + c.n - 1))
RRemove(c, i) ==
  IF c.len - i < i THEN CloseUp([c EXCEPT !.len = @ - 1], RRaw(c, i), RRaw(c, c.len - 1))
  ELSE [CloseDown(c, RRaw(c, i)) EXCEPT !.o = W(c.n, @ + 1), !.len = @ - 1]

RDrainFront(c, b, k) ==
  << [CopyFrom(c, b, b.o, RRaw(c, c.len), k) EXCEPT !.len = @ + k], [b EXCEPT !.o = W(b.n, @ + k), !.len = @ - k] >>
RDrainBack(c, b, k) ==
  LET c1 == [c EXCEPT !.o = W(c.n, @ + c.n - k)] IN
  << [CopyFrom(c1, b, W(b.n, b.o + b.len - k), c1.o, k) EXCEPT !.len = @ + k], [b EXCEPT !.len = @ - k] >>
RSplit(c, i) ==
  IF i = c.len THEN << c, RNew(c.n) >>
  ELSE << [c EXCEPT !.len = i], [CopyFrom(RNew(c.n), c, RRaw(c, i), 0, c.len - i) EXCEPT !.len = c.len - i] >>
RCloneOf(c) == [c EXCEPT !.mem = [i \in 0..(c.n - 1) |-> IF W(c.n, i + c.n - c.o) < c.len THEN CLONE + c.mem[i] ELSE 0]]

(* --- slices: a range of logical indices of the buffer, checked with saturating arithmetic *)
Sat(x, y) == Min2(BIG, x + y)
NoBound == -1
RNarrow(lo, hi, form, i, j) ==     \* <<valid, new lo, new hi>>
  LET start == IF form \in {1, 2, 3} THEN Sat(lo, i) ELSE IF form \in 11..13 THEN Sat(Sat(lo, i), 1) ELSE lo
      end == CASE form \in {1, 4, 11} -> Sat(lo, j)
               [] form \in {2, 5, 12} -> Sat(Sat(lo, j), 1)
               [] OTHER -> hi
  IN CASE form \in 1..6 \cup 11..13 -> <<~(start < lo \/ end > hi \/ start > end), start, end>>
       [] form = 7 -> <<i <= hi - lo, lo, lo + i>>
       [] form = 8 -> <<i <= hi - lo, lo + i, hi>>
       [] OTHER -> <<TRUE, lo, hi>>
RECURSIVE RWindow(_, _, _)
RWindow(lo, hi, s) ==
  IF Head(s) = 0 THEN [ok |-> TRUE, lo |-> lo, hi |-> hi, s |-> Tail(s)]
  ELSE LET w == RNarrow(lo, hi, s[1], s[2], s[3])
       IN IF w[1] THEN RWindow(w[2], w[3], Drop(s, 3)) ELSE [ok |-> FALSE, lo |-> 0, hi |-> 0, s |-> <<>>]
(* iterator over raw positions: left and right run towards each other, counting down remaining *)
RItInit(c, w) == [c |-> c, l |-> RRaw(c, w.lo), r |-> W(c.n, RRaw(c, w.lo) + (w.hi - w.lo)), rem |-> w.hi - w.lo, out |-> <<>>, fi |-> 0]
RItHand(mut, st, f, raw) ==
  IF mut THEN [st EXCEPT !.out = Append(@, st.c.mem[raw]), !.c = Put(st.c, raw, f[st.fi + 1]), !.fi = @ + 1]
  ELSE [st EXCEPT !.out = Append(@, st.c.mem[raw])]
RItSkip(st, back) == IF back THEN [st EXCEPT !.rem = @ - 1, !.r = W(st.c.n, @ + st.c.n - 1)]
                     ELSE [st EXCEPT !.rem = @ - 1, !.l = W(st.c.n, @ + 1)]
RItTake(mut, st, f, back) ==
  IF st.rem = 0 THEN [st EXCEPT !.out = Append(@, 0)]
  ELSE IF back THEN LET s2 == RItSkip(st, TRUE) IN RItHand(mut, s2, f, s2.r)
  ELSE RItHand(mut, RItSkip(st, FALSE), f, st.l)
RItHint(st) == [st EXCEPT !.out = @ \o <<st.rem, st.rem, st.rem>>]
RECURSIVE RItAll(_, _, _, _)
RItAll(mut, st, f, back) == IF st.rem = 0 THEN [st EXCEPT !.out = Append(@, -1)] ELSE RItAll(mut, RItTake(mut, st, f, back), f, back)
RECURSIVE RItRun(_, _, _, _)
RItRun(mut, st, f, s) ==
  IF s = <<>> THEN st
  ELSE LET a == Head(s) IN
       RItRun(mut, CASE a \in {1, 2} -> RItHint(RItTake(mut, st, f, a = 2))
                     [] a \in {3, 4} -> RItHint(RItTake(mut, IF st.rem = 0 THEN st ELSE RItSkip(st, a = 4), f, a = 4))
                     [] a = 5 -> [st EXCEPT !.out = Append(@, st.rem), !.rem = 0]
                     [] a = 6 -> IF st.rem = 0 THEN RItTake(mut, st, f, FALSE)      \* last: only the last item is looked at
                                 ELSE RItTake(mut, [st EXCEPT !.rem = 1, !.l = W(st.c.n, st.l + st.rem - 1)], f, FALSE)
                     [] a \in {7, 8} -> RItAll(mut, st, f, a = 8)
                     [] OTHER -> st, f, Tail(s))
RECURSIVE RPutAt(_, _, _)
RPutAt(c, raws, f) == IF raws = <<>> THEN c ELSE RPutAt(Put(c, Head(raws), Head(f)), Tail(raws), Tail(f))
RSlice(op, f, A, B) ==
  LET w == RWindow(0, A.len, op.s)
      len == w.hi - w.lo  i == op.x  j == op.y
      at(k) == RRaw(A, w.lo + k)
      items == [k \in 1..len |-> A.mem[at(k - 1)]]
      Fail == RRes(1, A, B, <<>>, f)
      SwapRaw == [A EXCEPT !.mem[at(i)] = A.mem[at(j)], !.mem[at(j)] = A.mem[at(i)]]
  IN
  IF ~w.ok THEN Fail ELSE
  CASE op.op = "sl_view" -> RRes(0, A, B, <<len>> \o items \o <<1>>, <<>>)
    [] op.op = "sl_index" -> IF i >= len THEN Fail ELSE RRes(0, A, B, <<A.mem[at(i)]>>, <<>>)
    [] op.op = "sl_get" -> RRes(0, A, B, IF i >= len THEN <<0>> ELSE <<A.mem[at(i)]>>, <<>>)
    [] op.op \in {"sl_iter", "sm_iter"} ->
         LET st == RItRun(op.op = "sm_iter", RItInit(A, w), f, w.s) IN RRes(0, st.c, B, st.out, IF op.op = "sm_iter" THEN Drop(f, st.fi) ELSE <<>>)
    [] op.op = "sl_owned" -> LET c == RPushAll(RNew(A.n), CloneSeq(items)) IN RRes(0, A, B, RView(c), RView(c))
    [] op.op = "sm_index" -> IF i >= len THEN Fail ELSE RRes(0, Put(A, at(i), f[1]), B, <<>>, <<A.mem[at(i)]>>)
    [] op.op \in {"sm_get_mut", "sm_set"} -> IF i >= len THEN RRes(0, A, B, <<0>>, f) ELSE RRes(0, Put(A, at(i), f[1]), B, <<A.mem[at(i)]>>, <<>>)
    [] op.op = "sm_swap" -> IF i = j THEN RRes(0, A, B, <<>>, <<>>) ELSE IF i >= len \/ j >= len THEN Fail ELSE RRes(0, SwapRaw, B, <<>>, <<>>)
    [] op.op = "sm_map_pair" -> IF i = j \/ i >= len \/ j >= len THEN Fail ELSE RRes(0, SwapRaw, B, <<A.mem[at(i)], A.mem[at(j)]>>, <<>>)
    [] op.op = "sm_ends" -> IF len = 0 THEN RRes(0, A, B, <<0, 0>>, f)
         ELSE LET c == Put(A, at(0), f[1]) IN RRes(0, Put(c, at(len - 1), f[2]), B, <<A.mem[at(0)], c.mem[at(len - 1)]>>, <<>>)
    [] op.op = "sm_split" -> IF i > len THEN Fail
         ELSE LET raws == [k \in 1..len |-> at(Alternate(0, i, i, len)[k])]
              IN RRes(0, RPutAt(A, raws, f), B, [k \in 1..len |-> A.mem[raws[k]]], <<>>)

RApply(op, f, A, B) ==
  LET n == A.n  la == A.len  lb == B.len  i == op.x  j == op.y
      va == RView(A)  vb == RView(B)  ri == RRaw(A, i)
      Fail == RRes(1, A, B, <<>>, f)
      Fresh(c) == RRes(0, c, B, <<>>, va)
      Two(ab) == RRes(0, ab[1], ab[2], <<>>, <<>>)
  IN
  CASE op.op \in {"new", "default"} -> Fresh(RNew(n))
    [] op.op = "unit" -> IF n >= 1 THEN Fresh(RPushBack(RNew(n), f[1])) ELSE Fail
    [] op.op = "pair" -> IF n >= 2 THEN Fresh(RPushAll(RNew(n), f)) ELSE Fail
    [] op.op = "from_iter" -> IF Len(f) > n THEN Fail ELSE Fresh(RPushAll(RNew(n), f))
    [] op.op = "collect_from" -> IF i > Len(f) \/ i > n THEN Fail
         ELSE RRes(0, RPushAll(RNew(n), Take(f, i)), B, <<>>, va \o Drop(f, i))
    [] op.op = "drain_from" -> LET p == RDrainFront(RNew(n), B, lb) IN RRes(0, p[1], p[2], <<>>, va)
    [] op.op = "from_front" -> IF i > lb THEN Fail ELSE LET p == RDrainFront(RNew(n), B, i) IN RRes(0, p[1], p[2], <<>>, va)
    [] op.op = "from_back" -> IF i > lb THEN Fail ELSE LET p == RDrainBack(RNew(n), B, i) IN RRes(0, p[1], p[2], <<>>, va)
    [] op.op \in {"clone", "clone_from"} -> RRes(0, A, RCloneOf(A), <<>>, vb)
    [] op.op = "pool_clone" -> RRes(0, A, B, RView(RCloneOf(A)), RView(RCloneOf(A)))
    [] op.op = "pool_default" -> RRes(0, A, B, <<>>, RView(RCloneOf(A)))
    [] op.op = "clear" -> RRes(0, [A EXCEPT !.o = 0, !.len = 0], B, <<>>, va)
    [] op.op = "push_back" -> IF la = n THEN Fail ELSE RRes(0, RPushBack(A, f[1]), B, <<>>, <<>>)
    [] op.op = "push_front" -> IF la = n THEN Fail ELSE RRes(0, RPushFront(A, f[1]), B, <<>>, <<>>)
    [] op.op = "pop_back" -> IF la = 0 THEN RRes(0, A, B, <<0>>, <<>>) ELSE RRes(0, [A EXCEPT !.len = @ - 1], B, <<A.mem[RRaw(A, la - 1)]>>, <<>>)
    [] op.op = "pop_front" -> IF la = 0 THEN RRes(0, A, B, <<0>>, <<>>) ELSE RRes(0, [A EXCEPT !.len = @ - 1, !.o = W(n, @ + 1)], B, <<A.mem[A.o]>>, <<>>)
    [] op.op = "drop_left" -> IF i > la THEN Fail ELSE RRes(0, [A EXCEPT !.o = W(n, @ + i), !.len = @ - i], B, <<>>, Take(va, i))
    [] op.op = "drop_right" -> IF i > la THEN Fail ELSE RRes(0, [A EXCEPT !.len = i], B, <<>>, Drop(va, i))
    [] op.op = "split_off" -> IF i > la THEN Fail ELSE LET p == RSplit(A, i) IN RRes(0, p[1], p[2], <<>>, vb)
    [] op.op = "append" -> IF la + lb > n THEN Fail ELSE Two(RDrainFront(A, B, lb))
    [] op.op = "drain_from_front" -> IF la + i > n \/ i > lb THEN Fail ELSE Two(RDrainFront(A, B, i))
    [] op.op = "drain_from_back" -> IF la + i > n \/ i > lb THEN Fail ELSE Two(RDrainBack(A, B, i))
    [] op.op = "set" -> IF i >= la THEN RRes(0, A, B, <<0>>, f) ELSE RRes(0, Put(A, ri, f[1]), B, <<A.mem[ri]>>, <<>>)
    [] op.op = "index" -> IF i >= la THEN Fail ELSE RRes(0, A, B, <<va[i + 1]>>, <<>>)
    [] op.op = "index_mut" -> IF i >= la THEN Fail ELSE RRes(0, Put(A, ri, f[1]), B, <<>>, <<A.mem[ri]>>)
    [] op.op = "get" -> RRes(0, A, B, IF i < la THEN <<va[i + 1]>> ELSE <<0>>, <<>>)
    [] op.op = "get_mut" -> IF i >= la THEN RRes(0, A, B, <<0>>, f) ELSE RRes(0, Put(A, ri, f[1]), B, <<A.mem[ri]>>, <<>>)
    [] op.op = "first_last" -> RRes(0, A, B, IF la = 0 THEN <<0, 0>> ELSE <<va[1], va[la]>>, <<>>)
    [] op.op = "swap" -> IF i = j THEN RRes(0, A, B, <<>>, <<>>) ELSE IF i >= la \/ j >= la THEN Fail
                         ELSE RRes(0, [A EXCEPT !.mem[ri] = A.mem[RRaw(A, j)], !.mem[RRaw(A, j)] = A.mem[ri]], B, <<>>, <<>>)
    [] op.op = "map_pair" -> IF i = j \/ i >= la \/ j >= la THEN Fail
                         ELSE RRes(0, [A EXCEPT !.mem[ri] = A.mem[RRaw(A, j)], !.mem[RRaw(A, j)] = A.mem[ri]], B, <<va[i + 1], va[j + 1]>>, <<>>)
    [] op.op = "insert" -> IF la = n \/ i > la THEN Fail ELSE RRes(0, RInsert(A, i, f[1]), B, <<>>, <<>>)
    [] op.op = "insert_from" -> IF Len(f) > n - la \/ i > la THEN Fail ELSE RRes(0, RInsertFrom(A, i, f), B, <<>>, <<>>)
    [] op.op = "insert_huge" -> Fail
    [] op.op = "remove" -> IF i >= la THEN Fail ELSE RRes(0, RRemove(A, i), B, <<va[i + 1]>>, <<>>)
    [] op.op = "extend" -> IF Len(f) <= n - la THEN RRes(0, RPushAll(A, f), B, <<>>, <<>>)
                           ELSE RRes(1, RPushAll(A, Take(f, n - la)), B, <<>>, Drop(f, n - la))
    [] op.op = "extend_ref" -> IF Len(f) <= n - la THEN RRes(0, RPushAll(A, CloneSeq(f)), B, <<>>, f)
                           ELSE RRes(1, RPushAll(A, CloneSeq(Take(f, n - la))), B, <<>>, f \o <<CLONE + f[n - la + 1]>>)
    [] IsSlice(op.op) -> RSlice(op, f, A, B)
    [] op.op = "exchange" -> RRes(0, B, A, <<>>, <<>>)
    [] op.op = "drop_all" -> RRes(0, RNew(n), RNew(n), <<>>, va \o vb)
    [] op.op = "io_write" ->    \* copy_from_slice, in one or two parts
         LET s == Take(f, n - la)  to == RRaw(A, la) IN
         RRes(0, [PutAll(A, to, s) EXCEPT !.len = @ + Len(s)], B, <<Len(s)>>, <<>>)
    [] op.op = "io_read" -> RRes(0, [A EXCEPT !.len = @ - Min2(i, la), !.o = W(n, @ + Min2(i, la))], B, <<Min2(i, la)>> \o Take(va, i), <<>>)
=============================================================================
