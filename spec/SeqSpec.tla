------------------------------ MODULE SeqSpec -------------------------------
(***************************************************************************)
(* Abstract specification of the list-like containers: Chunk ("chunk"),    *)
(* RingBuffer ("ring"), InlineArray ("inline") and the pair                *)
(* (Chunk, InlineArray) used for conversions ("xfer").                     *)
(*                                                                         *)
(* Two registers A and B hold containers; A and B are their contents as    *)
(* sequences of labels.  Apply gives the one outcome an operation may have *)
(* on an ideal list of capacity n (m is the capacity of B).                *)
(***************************************************************************)
EXTENDS Base, IterSpec, SliceSpec

(* Refusal style: Chunk panics where the other two answer None *)
OptPop(k) == k \in {"ring", "inline"}
None1 == <<0>>

IsLeak(opname) == opname \in {"leak_own", "leak_drain"}

(* everything the operation op with fresh labels f does to contents A, B *)
Apply(k, n, m, op, f, A, B) ==
  LET la == Len(A)  lb == Len(B)  i == op.x  j == op.y
      x1 == IF f = <<>> THEN 0 ELSE f[1]
      room == n - la
      Refuse == Panic(A, B, f)
  IN
  CASE op.op \in {"new", "default"} -> Ok(<<>>, B, <<>>, A)
    [] op.op = "unit" -> IF n >= 1 THEN Ok(f, B, <<>>, A) ELSE Refuse
    [] op.op = "pair" -> IF n >= 2 THEN Ok(f, B, <<>>, A) ELSE Refuse
    [] op.op = "from_iter" -> IF Len(f) <= n THEN Ok(f, B, <<>>, A) ELSE Refuse
    [] op.op = "collect_from" ->  \* i: count, iterator over f
         IF i <= Len(f) /\ i <= n THEN Ok(Take(f, i), B, <<>>, A \o Drop(f, i)) ELSE Refuse
    [] op.op = "drain_from" -> Ok(B, <<>>, <<>>, A)
    [] op.op = "from_front" -> IF i <= lb THEN Ok(Take(B, i), Drop(B, i), <<>>, A) ELSE Refuse
    [] op.op = "from_back" -> IF i <= lb THEN Ok(Drop(B, lb - i), Take(B, lb - i), <<>>, A) ELSE Refuse
    [] op.op \in {"clone", "clone_from"} -> Ok(A, CloneSeq(A), <<>>, B)
    [] op.op = "pool_clone" -> Ok(A, B, CloneSeq(A), CloneSeq(A))   \* r: contents seen in the pool
    [] op.op = "pool_default" -> Ok(A, B, <<>>, CloneSeq(A))        \* the pool memory was used before
    [] op.op = "range" -> IF i <= j /\ j <= la THEN Ok(A, B, SubSeq(A, i + 1, j), <<>>) ELSE Refuse
    [] op.op = "clear" -> Ok(<<>>, B, <<>>, A)
    [] op.op = "push_back" -> IF room > 0 THEN Ok(A \o f, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "push_front" -> IF room > 0 THEN Ok(f \o A, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "pop_back" -> IF la > 0 THEN Ok(Take(A, la - 1), B, <<A[la]>>, <<>>)
                             ELSE IF OptPop(k) THEN Ok(A, B, None1, <<>>) ELSE Refuse
    [] op.op = "pop_front" -> IF la > 0 THEN Ok(Drop(A, 1), B, <<A[1]>>, <<>>)
                              ELSE IF OptPop(k) THEN Ok(A, B, None1, <<>>) ELSE Refuse
    [] op.op = "drop_left" -> IF i <= la THEN Ok(Drop(A, i), B, <<>>, Take(A, i)) ELSE Refuse
    [] op.op = "drop_right" -> IF i <= la THEN Ok(Take(A, i), B, <<>>, Drop(A, i)) ELSE Refuse
    [] op.op = "split_off" -> IF i <= la THEN Ok(Take(A, i), Drop(A, i), <<>>, B) ELSE Refuse
    [] op.op = "append" -> IF lb <= room THEN Ok(A \o B, <<>>, <<>>, <<>>) ELSE Refuse
    [] op.op = "drain_from_front" -> IF i <= room /\ i <= lb THEN Ok(A \o Take(B, i), Drop(B, i), <<>>, <<>>) ELSE Refuse
    [] op.op = "drain_from_back" -> IF i <= room /\ i <= lb THEN Ok(Drop(B, lb - i) \o A, Take(B, lb - i), <<>>, <<>>) ELSE Refuse
    [] op.op = "set" -> IF i < la THEN Ok(SetAt(A, i, x1), B, <<A[i + 1]>>, <<>>)
                        ELSE IF k = "ring" THEN Ok(A, B, None1, f) ELSE Refuse
    [] op.op = "index" -> IF i < la THEN Ok(A, B, <<A[i + 1]>>, <<>>) ELSE Refuse
    [] op.op = "index_mut" -> IF i < la THEN Ok(SetAt(A, i, x1), B, <<>>, <<A[i + 1]>>) ELSE Refuse
    [] op.op = "get" -> IF i < la THEN Ok(A, B, <<A[i + 1]>>, <<>>) ELSE Ok(A, B, None1, <<>>)
    [] op.op = "get_mut" -> IF i < la THEN Ok(SetAt(A, i, x1), B, <<A[i + 1]>>, <<>>) ELSE Ok(A, B, None1, f)
    [] op.op = "first_last" -> IF la > 0 THEN Ok(A, B, <<A[1], A[la]>>, <<>>) ELSE Ok(A, B, <<0, 0>>, <<>>)
    [] op.op = "swap" ->
         IF (i < la /\ j < la) THEN Ok(SwapAt(A, i, j), B, <<>>, <<>>)
         ELSE IF k = "ring" /\ i = j THEN Ok(A, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "map_pair" -> \* RingBuffer only: swap the two and return them
         IF i = j \/ i >= la \/ j >= la THEN Refuse
         ELSE Ok(SwapAt(A, i, j), B, <<A[i + 1], A[j + 1]>>, <<>>)
    [] op.op = "insert" -> IF room > 0 /\ i <= la THEN Ok(InsAt(A, i, f), B, <<>>, <<>>) ELSE Refuse
    [] op.op = "insert_from" -> IF Len(f) <= room /\ i <= la THEN Ok(InsAt(A, i, f), B, <<>>, <<>>) ELSE Refuse
    [] op.op = "insert_huge" -> Refuse            \* insert_from(i, iterator of usize::MAX - y items)
    [] op.op = "remove" -> IF i < la THEN Ok(DelAt(A, i), B, <<A[i + 1]>>, <<>>)
                           ELSE IF k = "inline" THEN Ok(A, B, None1, <<>>) ELSE Refuse
    [] op.op = "extend" -> IF Len(f) <= room THEN Ok(A \o f, B, <<>>, <<>>)
                           ELSE Panic(A \o Take(f, room), B, Drop(f, room))
    [] op.op = "extend_ref" -> \* the originals f stay with the caller, who drops them
         IF Len(f) <= room THEN Ok(A \o CloneSeq(f), B, <<>>, f)
         ELSE Panic(A \o CloneSeq(Take(f, room)), B, f \o <<CLONE + f[room + 1]>>)
    [] op.op = "exchange" -> Ok(B, A, <<>>, <<>>)    \* mem::swap of the two registers
    [] op.op = "drop_all" -> Ok(<<>>, <<>>, <<>>, A \o B)
    [] IsIter(op.op) -> LET it == IterRun(KindOf(op.op), A, f, op.s) IN Ok(it.a, B, it.r, it.d)
    (* x items are taken from the front of a drain or an owning iterator, y from its back, and the iterator is
       forgotten: never dropped.  This is what the code does; JudgeLeak allows more *)
    [] IsLeak(op.op) ->
         LET x == Min2(i, la)  y == Min2(op.y, la - x) IN
         Ok(IF op.op = "leak_own" THEN <<>> ELSE SubSeq(A, x + 1, la - y), B,
            [q \in 1..i |-> IF q <= x THEN A[q] ELSE 0] \o [q \in 1..op.y |-> IF q <= y THEN A[la + 1 - q] ELSE 0], <<>>)
    [] IsSlice(op.op) -> SliceApply(op, f, A, B)
    (* byte pipes *)
    [] op.op = "io_write" -> Ok(A \o Take(f, room), B, <<Min2(Len(f), room)>>, <<>>)
    [] op.op = "io_read" -> Ok(Drop(A, i), B, <<Min2(i, la)>> \o Take(A, i), <<>>)
    (* A is a Chunk, B an InlineArray *)
    [] op.op \in {"from_inline", "from_inline_mut"} ->
         IF lb <= n THEN Ok(B, <<>>, <<>>, A) ELSE IF op.op = "from_inline" THEN Panic(A, <<>>, B) ELSE Refuse
    [] op.op = "b_push" -> IF lb < m THEN Ok(A, B \o f, <<>>, <<>>) ELSE Refuse
    [] op.op = "b_pop" -> IF lb > 0 THEN Ok(A, Take(B, lb - 1), <<B[lb]>>, <<>>) ELSE Ok(A, B, None1, <<>>)
    [] op.op = "b_remove" -> IF i < lb THEN Ok(A, DelAt(B, i), <<B[i + 1]>>, <<>>) ELSE Ok(A, B, None1, <<>>)

(* Conservation, checked as an invariant of the specification itself: labels neither appear
   nor disappear nor get duplicated.  Clones are new elements. *)
Made(op, f, A) == RangeOf(f) \cup
  (IF op.op \in {"clone", "clone_from", "pool_clone", "pool_default", "sl_owned"} THEN {CLONE + a : a \in RangeOf(A)}
   ELSE IF op.op = "extend_ref" THEN {CLONE + a : a \in RangeOf(f)} ELSE {})
Handed(op, o) == CASE op.op \in {"pop_back", "pop_front", "set", "remove", "get_mut", "b_pop", "b_remove", "sm_get_mut", "sm_set", "sm_split", "leak_own", "leak_drain"} -> RangeOf(o.r) \ {0}
                   [] op.op \in {"it_own", "it_drain"} -> {}     \* checked on IterRun instead
                   [] op.op = "io_read" -> RangeOf(Tail(o.r))
                   [] OTHER -> {}
Conserves(op, f, A, B, o) ==
  LET all == o.a \o o.b \o o.d \o SetToSeq(Handed(op, o))
      before == RangeOf(A) \cup RangeOf(B) \cup Made(op, f, A)
      partial == op.op \in {"extend_ref", "sl_owned", "io_write", "it_own", "it_drain", "it_mut", "sm_iter", "sm_ends", "leak_own"}
  IN /\ NoDup(all)
     /\ RangeOf(all) \subseteq before
     /\ partial \/ RangeOf(all) = before

=============================================================================
