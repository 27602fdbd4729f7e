----------------------------- MODULE SparseSpec -----------------------------
(***************************************************************************)
(* SparseChunk as an ideal map from indices below n to labels, and what    *)
(* its forward iterators do.  Registers A and B are functions with a       *)
(* finite set of indices as domain.  In results, labels are positive, 0 is *)
(* None, -5 is Some(None), and an index or number k is written -10-k;      *)
(* EXACT+k stands for an exact size hint of k and BOUND+k for any valid    *)
(* one.                                                                    *)
(***************************************************************************)
EXTENDS Base

EXACT == 200000
BOUND == 300000
Num(k) == -10 - k

Keys(A) == SetToSortSeq(DOMAIN A, <)
Vals(A) == LET k == Keys(A) IN [i \in 1..Len(k) |-> A[k[i]]]
EmptyMap == [j \in {} |-> 0]
Without(A, i) == [j \in DOMAIN A \ {i} |-> A[j]]
With(A, i, v) == [j \in DOMAIN A \cup {i} |-> IF j = i THEN v ELSE A[j]]
CloneMap(A) == [j \in DOMAIN A |-> CLONE + A[j]]
MapOf(ks, vs) == [j \in RangeOf(ks) |-> vs[CHOOSE q \in 1..Len(ks) : ks[q] = j]]
Has(A, i) == i \in DOMAIN A
At(A, i) == IF Has(A, i) THEN A[i] ELSE 0
MinKey(A) == Keys(A)[1]

(* ------------------------------------------------------------ iterators *)
IsSpIter(op) == op \in {"sp_ref", "sp_mut", "sp_own", "sp_entries", "sp_indices", "sp_opt", "sp_optmut", "sp_optdrain"}
Slots(op) == op \in {"sp_opt", "sp_optmut", "sp_optdrain"}
Writes(op) == op \in {"sp_mut", "sp_optmut"}
Owns(op) == op \in {"sp_own", "sp_optdrain"}
Tight(op) == Slots(op) \/ op = "sp_own"

(* st: items still to come (indices), map, output, dropped, fresh labels used *)
SpInit(op, n, A) == [q |-> IF Slots(op) THEN Ints(0, n - 1) ELSE Keys(A), A |-> A, out |-> <<>>, d |-> <<>>, fi |-> 0]
SpNext(op, st, f) ==
  IF st.q = <<>> THEN [st EXCEPT !.out = Append(@, 0)]
  ELSE LET i == Head(st.q)
           s1 == [st EXCEPT !.q = Tail(@)]
       IN IF op = "sp_indices" THEN [s1 EXCEPT !.out = Append(@, Num(i))]
          ELSE IF ~Has(st.A, i) THEN [s1 EXCEPT !.out = Append(@, -5)]
          ELSE LET s2 == [s1 EXCEPT !.out = (IF op = "sp_entries" THEN Append(@, Num(i)) ELSE @) \o <<st.A[i]>>]
               IN IF Writes(op) THEN [s2 EXCEPT !.A = With(@, i, f[st.fi + 1]), !.fi = @ + 1]
                  ELSE IF Owns(op) THEN [s2 EXCEPT !.A = Without(@, i)] ELSE s2
SpSkip(op, st) ==
  IF st.q = <<>> THEN st
  ELSE LET i == Head(st.q) s1 == [st EXCEPT !.q = Tail(@)]
       IN IF Owns(op) /\ Has(st.A, i) THEN [s1 EXCEPT !.A = Without(@, i), !.d = Append(@, st.A[i])] ELSE s1
SpHint(op, st) == [st EXCEPT !.out = Append(@, (IF Tight(op) THEN EXACT ELSE BOUND) + Len(st.q))]
RECURSIVE SpSkipTo(_, _, _)
SpSkipTo(op, st, k) == IF Len(st.q) <= k THEN st ELSE SpSkipTo(op, SpSkip(op, st), k)
RECURSIVE SpAll(_, _, _)
SpAll(op, st, f) == IF st.q = <<>> THEN [st EXCEPT !.out = Append(@, -1)] ELSE SpAll(op, SpNext(op, st, f), f)
RECURSIVE SpNth(_, _, _, _)
SpNth(op, st, f, c) == IF c = 0 \/ st.q = <<>> THEN SpNext(op, st, f) ELSE SpNth(op, SpSkip(op, st), f, c - 1)
RECURSIVE SpEvery2(_, _, _)
SpEvery2(op, st, f) == IF st.q = <<>> THEN [st EXCEPT !.out = Append(@, -1)] ELSE SpEvery2(op, SpSkip(op, SpNext(op, st, f)), f)
(* 1 next  3 nth(1)  10 nth(usize::MAX)  11 nth(2)  5 count  6 last  7 collect  9 drop here
   12 for_each  16 step_by(2)  18 find the second  20 any, stopping at the second  22 reduce to the last
   25 position of the second  26 min_by to the first *)
SpAct(op, st, f, a) ==
  CASE a = 1 -> SpHint(op, SpNext(op, st, f))
    [] a = 3 -> SpHint(op, SpNth(op, st, f, 1))
    [] a = 10 -> SpHint(op, SpNth(op, st, f, BIG))
    [] a = 11 -> SpHint(op, SpNth(op, st, f, 2))
    [] a = 5 -> LET s2 == SpSkipTo(op, st, 0) IN [s2 EXCEPT !.out = Append(@, Num(Len(st.q)))]
    [] a = 6 -> SpNext(op, SpSkipTo(op, st, 1), f)
    [] a \in {7, 12} -> SpAll(op, st, f)
    [] a = 16 -> SpEvery2(op, st, f)
    [] a = 18 -> SpHint(op, SpNth(op, st, f, 1))
    [] a = 20 -> SpHint(op, IF st.q = <<>> THEN st ELSE LET s2 == SpNext(op, st, f) IN IF s2.q = <<>> THEN s2 ELSE SpNext(op, s2, f))
    [] a = 22 -> SpNext(op, SpSkipTo(op, st, 1), f)
    [] a = 25 -> SpHint(op, LET s2 == SpSkip(op, SpSkip(op, st)) IN [s2 EXCEPT !.out = Append(@, Num(IF Len(st.q) >= 2 THEN 2 ELSE 0))])
    [] a = 26 -> SpSkipTo(op, SpNext(op, st, f), 0)
    [] OTHER -> st
RECURSIVE SpScript(_, _, _, _)
SpScript(op, st, f, s) == IF s = <<>> THEN st ELSE SpScript(op, SpAct(op, st, f, Head(s)), f, Tail(s))
SpRun(op, n, A, f, s) ==
  LET st == SpScript(op, SpInit(op, n, A), f, s)
      unused == Drop(f, st.fi)
  IN IF Owns(op) THEN [a |-> EmptyMap, r |-> st.out, d |-> st.d \o Vals(st.A) \o unused]
     ELSE [a |-> st.A, r |-> st.out, d |-> st.d \o unused]

(* ----------------------------------------------------------- operations *)
SpApply(n, op, f, A, B) ==
  LET i == op.x  j == op.y
      x1 == IF f = <<>> THEN 0 ELSE f[1]
      Refuse == Panic(A, B, f)
      Valid(k) == k < n
  IN
  CASE op.op \in {"new", "default"} -> Ok(EmptyMap, B, <<>>, Vals(A))
    [] op.op = "unit" -> IF Valid(i) THEN Ok(With(EmptyMap, i, x1), B, <<>>, Vals(A)) ELSE Refuse
    [] op.op = "pair" -> IF ~Valid(i) \/ ~Valid(j) THEN Refuse
                         ELSE IF i = j THEN Ok(With(EmptyMap, i, f[2]), B, <<>>, Append(Vals(A), x1))
                         ELSE Ok(With(With(EmptyMap, i, x1), j, f[2]), B, <<>>, Vals(A))
    [] op.op = "from_iter" ->   \* f arrives at positions op.s of a stream of op.x options
         IF \A k \in RangeOf(op.s) : Valid(k) THEN Ok(MapOf(op.s, f), B, <<>>, Vals(A)) ELSE Refuse
    [] op.op = "insert" -> IF Valid(i) THEN Ok(With(A, i, x1), B, <<At(A, i)>>, <<>>) ELSE Refuse
    [] op.op = "remove" -> IF Valid(i) THEN Ok(Without(A, i), B, <<At(A, i)>>, <<>>) ELSE Refuse
    [] op.op = "pop" -> IF DOMAIN A = {} THEN Ok(A, B, <<0>>, <<>>) ELSE Ok(Without(A, MinKey(A)), B, <<A[MinKey(A)]>>, <<>>)
    [] op.op = "get" -> Ok(A, B, <<At(A, i)>>, <<>>)
    [] op.op = "get_mut" -> IF Has(A, i) THEN Ok(With(A, i, x1), B, <<A[i]>>, <<>>) ELSE Ok(A, B, <<0>>, f)
    [] op.op = "index" -> IF Has(A, i) THEN Ok(A, B, <<A[i]>>, <<>>) ELSE Refuse
    [] op.op = "index_mut" -> IF Has(A, i) THEN Ok(With(A, i, x1), B, <<>>, <<A[i]>>) ELSE Refuse
    [] op.op = "first_index" -> Ok(A, B, <<IF DOMAIN A = {} THEN 0 ELSE Num(MinKey(A))>>, <<>>)
    [] op.op \in {"clone", "clone_from"} -> Ok(A, CloneMap(A), <<>>, Vals(B))
    [] op.op = "pool_clone" -> Ok(A, B, Cat([q \in 1..Cardinality(DOMAIN A) |-> <<Num(Keys(A)[q]), CLONE + Vals(A)[q]>>]), CloneSeq(Vals(A)))
    [] op.op = "pool_default" -> Ok(A, B, <<>>, CloneSeq(Vals(A)))
    [] op.op = "exchange" -> Ok(B, A, <<>>, <<>>)
    [] op.op = "drop_all" -> Ok(EmptyMap, EmptyMap, <<>>, Vals(A) \o Vals(B))
    [] IsSpIter(op.op) -> LET it == SpRun(op.op, n, A, f, op.s) IN Ok(it.a, B, it.r, it.d)

(* labels neither appear nor vanish nor get duplicated *)
SpHanded(op, r) == IF (op.op \in {"insert", "remove", "pop", "get_mut"}) \/ (Owns(op.op) \/ Writes(op.op))
                   THEN {l \in RangeOf(r) : l > 0 /\ l < EXACT} ELSE {}
SpConserves(op, f, A, B, o) ==
  LET all == Vals(o.a) \o Vals(o.b) \o o.d \o SetToSeq(SpHanded(op, o.r))
      made == IF op.op \in {"clone", "clone_from", "pool_clone", "pool_default"} THEN RangeOf(CloneSeq(Vals(A))) ELSE {}
  IN NoDup(all) /\ RangeOf(all) = RangeOf(Vals(A)) \cup RangeOf(Vals(B)) \cup RangeOf(f) \cup made
=============================================================================
