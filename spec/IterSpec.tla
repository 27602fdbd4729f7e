------------------------------ MODULE IterSpec ------------------------------
(***************************************************************************)
(* What a double ended iterator over a sequence does.  A script is a       *)
(* sequence of actions; the run of a script is computed by stepping the    *)
(* abstract iterator state                                                 *)
(*   [A, lo, hi, out, d, fi]  :  A[lo+1..hi] is still to be yielded,       *)
(*   out: everything observed so far, d: dropped, fi: fresh labels used.   *)
(* Actions: 1 next   2 next_back   3 nth(1)   4 nth_back(1)                *)
(*          5 count  6 last  7 collect the rest  8 collect the rest in     *)
(*          reverse   9 drop the iterator here                             *)
(*         10 nth(usize::MAX)  11 nth(2)  14 nth_back(2)  15 nth_back(MAX) *)
(*         12 for_each  13 rev().for_each  16 step_by(2)                   *)
(*         17 the rest of rev().skip(1)   24 rev().step_by(2)              *)
(*         18 find the second  19 rfind the second (from the back)         *)
(*         20 any, stopping at the second  21 try_rfold, likewise          *)
(*         22 reduce to the last  26 min_by to the first                   *)
(*         23 rposition of the last  25 position of the second             *)
(* After each that leaves the iterator usable the size hint (lo, hi) and,  *)
(* for exact iterators, the length are observed as well.                   *)
(* Kinds: "ref" shared references, "mut" mutable references (each yielded  *)
(* place is overwritten with a fresh label and the old label handed out),  *)
(* "own" by value, "drain" draining by reference.                          *)
(***************************************************************************)
EXTENDS Base

Owning(kind) == kind \in {"own", "drain"}

ItInit(A) == [A |-> A, lo |-> 0, hi |-> Len(A), out |-> <<>>, d |-> <<>>, fi |-> 0]
Rem(st) == st.hi - st.lo

(* hand out position i (0-based) *)
Hand(kind, st, f, i) ==
  IF kind = "mut" THEN [st EXCEPT !.out = Append(@, st.A[i + 1]), !.A = SetAt(@, i, f[st.fi + 1]), !.fi = @ + 1]
  ELSE [st EXCEPT !.out = Append(@, st.A[i + 1])]
Lose(kind, st, i) == IF Owning(kind) THEN [st EXCEPT !.d = Append(@, st.A[i + 1])] ELSE st
None(st) == [st EXCEPT !.out = Append(@, 0)]

NextF(kind, st, f) == IF Rem(st) = 0 THEN None(st)
                      ELSE LET s2 == Hand(kind, st, f, st.lo) IN [s2 EXCEPT !.lo = @ + 1]
NextB(kind, st, f) == IF Rem(st) = 0 THEN None(st)
                      ELSE LET s2 == Hand(kind, st, f, st.hi - 1) IN [s2 EXCEPT !.hi = @ - 1]
Hints(st) == [st EXCEPT !.out = @ \o <<Rem(st), Rem(st), Rem(st)>>]

RECURSIVE Collect(_, _, _, _)
Collect(kind, st, f, back) ==
  IF Rem(st) = 0 THEN [st EXCEPT !.out = Append(@, -1)]
  ELSE Collect(kind, IF back THEN NextB(kind, st, f) ELSE NextF(kind, st, f), f, back)

RECURSIVE LoseAll(_, _)
LoseAll(kind, st) == IF Rem(st) = 0 THEN st
                     ELSE LET s2 == Lose(kind, st, st.lo) IN LoseAll(kind, [s2 EXCEPT !.lo = @ + 1])

(* skip c items at one end, then take one: nth and nth_back *)
RECURSIVE NthF(_, _, _, _)
NthF(kind, st, f, c) ==
  IF c = 0 \/ Rem(st) = 0 THEN NextF(kind, st, f)
  ELSE LET s2 == Lose(kind, st, st.lo) IN NthF(kind, [s2 EXCEPT !.lo = @ + 1], f, c - 1)
RECURSIVE NthB(_, _, _, _)
NthB(kind, st, f, c) ==
  IF c = 0 \/ Rem(st) = 0 THEN NextB(kind, st, f)
  ELSE LET s2 == Lose(kind, st, st.hi - 1) IN NthB(kind, [s2 EXCEPT !.hi = @ - 1], f, c - 1)
Skip1(kind, st, back) ==
  IF Rem(st) = 0 THEN st
  ELSE IF back THEN LET s2 == Lose(kind, st, st.hi - 1) IN [s2 EXCEPT !.hi = @ - 1]
  ELSE LET s2 == Lose(kind, st, st.lo) IN [s2 EXCEPT !.lo = @ + 1]
TwoItems(kind, st, f, back) ==
  LET One(s) == IF Rem(s) = 0 THEN s ELSE IF back THEN NextB(kind, s, f) ELSE NextF(kind, s, f) IN One(One(st))
RECURSIVE Every2(_, _, _, _)
Every2(kind, st, f, back) ==
  IF Rem(st) = 0 THEN [st EXCEPT !.out = Append(@, -1)]
  ELSE Every2(kind, Skip1(kind, IF back THEN NextB(kind, st, f) ELSE NextF(kind, st, f), back), f, back)
LastOf(kind, st, f) ==
  IF Rem(st) = 0 THEN None(st)
  ELSE LET s2 == LoseAll(kind, [st EXCEPT !.hi = @ - 1])
       IN Hand(kind, [s2 EXCEPT !.hi = st.hi, !.lo = st.hi], f, st.hi - 1)

Act(kind, st, f, a) ==
  CASE a = 1 -> Hints(NextF(kind, st, f))
    [] a = 2 -> Hints(NextB(kind, st, f))
    [] a = 3 -> Hints(NthF(kind, st, f, 1))
    [] a = 4 -> Hints(NthB(kind, st, f, 1))
    [] a = 10 -> Hints(NthF(kind, st, f, BIG))
    [] a = 11 -> Hints(NthF(kind, st, f, 2))
    [] a = 14 -> Hints(NthB(kind, st, f, 2))
    [] a = 15 -> Hints(NthB(kind, st, f, BIG))
    [] a = 5 -> LET s2 == LoseAll(kind, st) IN [s2 EXCEPT !.out = Append(@, Rem(st))]
    [] a \in {6, 22} -> LastOf(kind, st, f)
    [] a \in {7, 12} -> Collect(kind, st, f, FALSE)
    [] a \in {8, 13} -> Collect(kind, st, f, TRUE)
    [] a = 16 -> Every2(kind, st, f, FALSE)
    [] a = 24 -> Every2(kind, st, f, TRUE)
    [] a = 18 -> Hints(NthF(kind, st, f, 1))
    [] a = 19 -> Hints(NthB(kind, st, f, 1))
    [] a = 20 -> Hints(TwoItems(kind, st, f, FALSE))
    [] a = 21 -> Hints(TwoItems(kind, st, f, TRUE))
    [] a = 23 -> Hints(LET s2 == Skip1(kind, st, TRUE) IN [s2 EXCEPT !.out = Append(@, Rem(st))])
    [] a = 25 -> Hints(LET s2 == Skip1(kind, Skip1(kind, st, FALSE), FALSE) IN [s2 EXCEPT !.out = Append(@, IF Rem(st) >= 2 THEN 2 ELSE 0)])
    [] a = 26 -> LoseAll(kind, NextF(kind, st, f))
    [] a = 17 -> Collect(kind, IF Rem(st) = 0 THEN st ELSE LET s2 == Lose(kind, st, st.hi - 1) IN [s2 EXCEPT !.hi = @ - 1], f, TRUE)
    [] OTHER -> st

RECURSIVE RunScript(_, _, _, _)
RunScript(kind, st, f, s) == IF s = <<>> THEN st ELSE RunScript(kind, Act(kind, st, f, Head(s)), f, Tail(s))

Rest(st) == SubSeq(st.A, st.lo + 1, st.hi)

(* the whole life of an iterator over container contents A; result: contents afterwards,
   observations, dropped labels.  Unused fresh labels are dropped by the caller. *)
IterRun(kind, A, f, s) ==
  LET st == RunScript(kind, ItInit(A), f, s)
      unused == Drop(f, st.fi)
  IN CASE kind = "own"   -> [a |-> <<>>, r |-> st.out, d |-> st.d \o Rest(st) \o unused, lo |-> st.lo, hi |-> st.hi]
       [] kind = "drain" -> [a |-> Rest(st), r |-> st.out, d |-> st.d \o unused, lo |-> st.lo, hi |-> st.hi]
       [] OTHER          -> [a |-> st.A, r |-> st.out, d |-> st.d \o unused, lo |-> st.lo, hi |-> st.hi]

KindOf(opname) == CASE opname = "it_ref" -> "ref" [] opname = "it_mut" -> "mut" [] opname = "it_own" -> "own" [] OTHER -> "drain"
IsIter(opname) == opname \in {"it_ref", "it_mut", "it_own", "it_drain"}

(* Scripts to try on an iterator over len items *)
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
ScriptsFor(len) ==
  {w \o <<t>> : w \in Seqs({1, 2}, len + 2), t \in {9}}
  \cup {w \o <<t>> : w \in Seqs({1, 2}, Min2(len, 3)), t \in {5, 6, 7, 8, 12, 13, 16, 17, 22, 24, 26}}
  \cup {w \o <<9>> : w \in Seqs({1, 2, 3, 4}, Min2(len, 3))}
  \cup {v \o <<a>> \o w \o <<9>> : v \in Seqs({1, 2}, 1), a \in {10, 11, 14, 15, 18, 19, 20, 21, 23, 25}, w \in Seqs({1, 2}, 2)}
=============================================================================
