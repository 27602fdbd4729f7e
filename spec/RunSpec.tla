------------------------------ MODULE RunSpec -------------------------------
(***************************************************************************)
(* The lists of SeqSpec for containers of many thousand elements: contents *)
(* are written as runs <<first, length>> of consecutive labels, so that an *)
(* operation costs as many steps as there are runs and not as there are    *)
(* elements.  MCRun checks that every operation here is the one of SeqSpec *)
(* (Expand of the outcome is SeqSpec's outcome), over all small cases.     *)
(***************************************************************************)
EXTENDS Base, SliceSpec

RCLONE == 1000000

(* canonical form: no empty runs, neighbours merged *)
Glue(acc, x) == IF x[2] = 0 THEN acc
                ELSE IF acc # <<>> /\ acc[Len(acc)][1] + acc[Len(acc)][2] = x[1]
                     THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + x[2]>>]
                     ELSE Append(acc, x)
Norm(A) == FoldLeft(Glue, <<>>, A)
RLen(A) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, A)
Run(lo, k) == IF k = 0 THEN <<>> ELSE <<<<lo, k>>>>
One(v) == <<<<v, 1>>>>
RECURSIVE RTake(_, _)
RTake(A, k) == IF k <= 0 \/ A = <<>> THEN <<>>
               ELSE IF A[1][2] <= k THEN <<A[1]>> \o RTake(Tail(A), k - A[1][2])
               ELSE <<<<A[1][1], k>>>>
RECURSIVE RDrop(_, _)
RDrop(A, k) == IF k <= 0 \/ A = <<>> THEN A
               ELSE IF A[1][2] <= k THEN RDrop(Tail(A), k - A[1][2])
               ELSE <<<<A[1][1] + k, A[1][2] - k>>>> \o Tail(A)
RAt(A, i) == RDrop(A, i)[1][1]                       \* i is 0-based and inside
RCut(A, i, j) == RTake(RDrop(A, i), j - i)
RIns(A, i, f) == RTake(A, i) \o f \o RDrop(A, i)
RDel(A, i) == RTake(A, i) \o RDrop(A, i + 1)
RSet(A, i, v) == RTake(A, i) \o One(v) \o RDrop(A, i + 1)
RSwap(A, i, j) == RSet(RSet(A, i, RAt(A, j)), j, RAt(A, i))
RClone(A) == [q \in 1..Len(A) |-> <<RCLONE + A[q][1], A[q][2]>>]
RSort(A) == Norm(SortSeq(A, LAMBDA x, y : x[1] < y[1]))

Out(p, a, b, r, d) == [p |-> p, a |-> Norm(a), b |-> Norm(b), r |-> Norm(r), d |-> RSort(d)]

(* an iterator over positions lo..hi-1 of A: see IterSpec *)
RSt(A) == [lo |-> 0, hi |-> RLen(A), out |-> <<>>, d |-> <<>>]
Put(st, v) == [st EXCEPT !.out = Append(@, <<v, 1>>)]
RHint(st) == LET k == st.hi - st.lo IN Put(Put(Put(st, k), k), k)
RStep(A, st, skip, back) ==      \* nth(skip) or nth_back(skip)
  LET left == st.hi - st.lo IN
  IF skip >= left THEN Put([st EXCEPT !.d = @ \o RCut(A, st.lo, st.hi), !.lo = st.hi], 0)
  ELSE IF back THEN Put([st EXCEPT !.d = @ \o RCut(A, st.hi - skip, st.hi), !.hi = @ - skip - 1], RAt(A, st.hi - skip - 1))
  ELSE Put([st EXCEPT !.d = @ \o RCut(A, st.lo, st.lo + skip), !.lo = @ + skip + 1], RAt(A, st.lo + skip))
RAct(A, st, a) ==
  CASE a \in {1, 3, 10, 11} -> RHint(RStep(A, st, CASE a = 1 -> 0 [] a = 3 -> 1 [] a = 11 -> 2 [] OTHER -> BIG, FALSE))
    [] a \in {2, 4, 14, 15} -> RHint(RStep(A, st, CASE a = 2 -> 0 [] a = 4 -> 1 [] a = 14 -> 2 [] OTHER -> BIG, TRUE))
    [] a = 5 -> Put([st EXCEPT !.d = @ \o RCut(A, st.lo, st.hi), !.lo = st.hi], st.hi - st.lo)
    [] a = 6 -> IF st.lo = st.hi THEN Put(st, 0) ELSE RStep(A, st, st.hi - st.lo - 1, FALSE)
    [] OTHER -> st
RECURSIVE RRun(_, _, _)
RRun(A, st, s) == IF s = <<>> THEN st ELSE RRun(A, RAct(A, st, Head(s)), Tail(s))

(* contents A, B and the fresh elements f as runs *)
RunApply(k, n, m, op, f, A, B) ==
  LET la == RLen(A)  lb == RLen(B)  nf == RLen(f)  i == op.x  j == op.y
      room == n - la
      x1 == IF f = <<>> THEN 0 ELSE f[1][1]
      None1 == One(0)
      Refuse == Out(1, A, B, <<>>, f)
      Fine(a, b, r, d) == Out(0, a, b, r, d)
  IN
  CASE op.op \in {"new", "clear"} -> Fine(<<>>, B, <<>>, A)
    [] op.op = "from_iter" -> IF nf <= n THEN Fine(f, B, <<>>, A) ELSE Refuse
    [] op.op = "collect_from" -> IF i <= nf /\ i <= n THEN Fine(RTake(f, i), B, <<>>, A \o RDrop(f, i)) ELSE Refuse
    [] op.op = "drain_from" -> Fine(B, <<>>, <<>>, A)
    [] op.op = "from_front" -> IF i <= lb THEN Fine(RTake(B, i), RDrop(B, i), <<>>, A) ELSE Refuse
    [] op.op = "from_back" -> IF i <= lb THEN Fine(RDrop(B, lb - i), RTake(B, lb - i), <<>>, A) ELSE Refuse
    [] op.op \in {"clone", "clone_from"} -> Fine(A, RClone(A), <<>>, B)
    [] op.op = "push_back" -> IF room > 0 THEN Fine(A \o f, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "push_front" -> IF room > 0 THEN Fine(f \o A, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "pop_back" -> IF la > 0 THEN Fine(RTake(A, la - 1), B, One(RAt(A, la - 1)), <<>>) ELSE IF k = "chunk" THEN Refuse ELSE Fine(A, B, None1, <<>>)
    [] op.op = "pop_front" -> IF la > 0 THEN Fine(RDrop(A, 1), B, One(RAt(A, 0)), <<>>) ELSE IF k = "chunk" THEN Refuse ELSE Fine(A, B, None1, <<>>)
    [] op.op = "drop_left" -> IF i <= la THEN Fine(RDrop(A, i), B, <<>>, RTake(A, i)) ELSE Refuse
    [] op.op = "drop_right" -> IF i <= la THEN Fine(RTake(A, i), B, <<>>, RDrop(A, i)) ELSE Refuse
    [] op.op = "split_off" -> IF i <= la THEN Fine(RTake(A, i), RDrop(A, i), <<>>, B) ELSE Refuse
    [] op.op = "append" -> IF lb <= room THEN Fine(A \o B, <<>>, <<>>, <<>>) ELSE Refuse
    [] op.op = "drain_from_front" -> IF i <= room /\ i <= lb THEN Fine(A \o RTake(B, i), RDrop(B, i), <<>>, <<>>) ELSE Refuse
    [] op.op = "drain_from_back" -> IF i <= room /\ i <= lb THEN Fine(RDrop(B, lb - i) \o A, RTake(B, lb - i), <<>>, <<>>) ELSE Refuse
    [] op.op = "set" -> IF i < la THEN Fine(RSet(A, i, x1), B, One(RAt(A, i)), <<>>) ELSE IF k = "ring" THEN Fine(A, B, None1, f) ELSE Refuse
    [] op.op = "index" -> IF i < la THEN Fine(A, B, One(RAt(A, i)), <<>>) ELSE Refuse
    [] op.op = "index_mut" -> IF i < la THEN Fine(RSet(A, i, x1), B, <<>>, One(RAt(A, i))) ELSE Refuse
    [] op.op = "get" -> Fine(A, B, IF i < la THEN One(RAt(A, i)) ELSE None1, <<>>)
    [] op.op = "get_mut" -> IF i < la THEN Fine(RSet(A, i, x1), B, One(RAt(A, i)), <<>>) ELSE Fine(A, B, None1, f)
    [] op.op = "first_last" -> Fine(A, B, IF la > 0 THEN One(RAt(A, 0)) \o One(RAt(A, la - 1)) ELSE None1 \o None1, <<>>)
    [] op.op = "swap" -> IF i < la /\ j < la THEN Fine(RSwap(A, i, j), B, <<>>, <<>>)
                         ELSE IF k = "ring" /\ i = j THEN Fine(A, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "insert" -> IF room > 0 /\ i <= la THEN Fine(RIns(A, i, f), B, <<>>, <<>>) ELSE Refuse
    [] op.op = "insert_from" -> IF nf <= room /\ i <= la THEN Fine(RIns(A, i, f), B, <<>>, <<>>) ELSE Refuse
    [] op.op = "remove" -> IF i < la THEN Fine(RDel(A, i), B, One(RAt(A, i)), <<>>) ELSE IF k = "inline" THEN Fine(A, B, None1, <<>>) ELSE Refuse
    [] op.op = "extend" -> IF nf <= room THEN Fine(A \o f, B, <<>>, <<>>) ELSE Out(1, A \o RTake(f, room), B, <<>>, RDrop(f, room))
    [] op.op = "exchange" -> Fine(B, A, <<>>, <<>>)
    [] op.op = "it_ref" -> LET st == RRun(A, RSt(A), op.s) IN Fine(A, B, st.out, <<>>)
    [] op.op = "it_own" -> LET st == RRun(A, RSt(A), op.s) IN Fine(<<>>, B, st.out, st.d \o RCut(A, st.lo, st.hi))
    [] op.op = "it_drain" -> LET st == RRun(A, RSt(A), op.s) IN Fine(RCut(A, st.lo, st.hi), B, st.out, st.d)
    [] IsSlice(op.op) ->
         LET w == WindowFrom(0, la, op.s)  len == w.hi - w.lo  W == RCut(A, w.lo, w.hi) IN
         IF ~w.ok THEN Refuse ELSE
         CASE op.op = "sl_view" -> Fine(A, B, One(len) \o W \o One(1), <<>>)
           [] op.op = "sl_index" -> IF i < len THEN Fine(A, B, One(RAt(W, i)), <<>>) ELSE Refuse
           [] op.op = "sl_get" -> Fine(A, B, IF i < len THEN One(RAt(W, i)) ELSE None1, <<>>)
           [] op.op = "sl_owned" -> Fine(A, B, RClone(W), RClone(W))
           [] op.op = "sl_iter" -> Fine(A, B, RRun(W, RSt(W), w.s).out, <<>>)
           [] op.op = "sm_set" -> IF i < len THEN Fine(RSet(A, w.lo + i, x1), B, One(RAt(W, i)), <<>>) ELSE Fine(A, B, None1, f)
           [] op.op = "sm_swap" -> IF i < len /\ j < len THEN Fine(RSwap(A, w.lo + i, w.lo + j), B, <<>>, <<>>)
                                   ELSE IF i = j THEN Fine(A, B, <<>>, <<>>) ELSE Refuse
           [] op.op = "sm_ends" -> IF len = 0 THEN Fine(A, B, None1 \o None1, f)
                                   ELSE LET A1 == RSet(A, w.lo, x1)
                                        IN Fine(RSet(A1, w.hi - 1, x1 + 1), B, One(RAt(W, 0)) \o One(RAt(A1, w.hi - 1)), <<>>)
=============================================================================
