------------------------------- MODULE MCSeq --------------------------------
(***************************************************************************)
(* Exploration of the implementation shaped models.  A state is the kind   *)
(* of container, its capacities and the internal layout of both registers; *)
(* labels are canonical.  Every operation is tried in every reachable      *)
(* layout; TLC checks that its outcome is the one SeqSpec allows           *)
(* (refinement, including ownership: the dropped labels) and that          *)
(* SeqSpec conserves elements.  With Emit every transition is printed, and *)
(* the harness replays it on the real containers.                          *)
(***************************************************************************)
EXTENDS SeqSpec, SeqOps, ChunkImpl, RingImpl, InlineImpl

CONSTANTS Configs, Emit            \* Configs: sequence of <<kind, n, m, op groups>>
VARIABLES ci, la, lb               \* ci: index into Configs
                                   \* la, lb: layouts <<left, right>> / <<origin, length>> / <<0, length>>
vars == <<ci, la, lb>>
K == Configs[ci][1]
n == Configs[ci][2]
m == Configs[ci][3]
Sets == Configs[ci][4]
KindNo == CASE K = "chunk" -> 1 [] K = "ring" -> 2 [] K = "inline" -> 3 [] OTHER -> 4

LenOf(k, lay) == IF k = "chunk" THEN lay[2] - lay[1] ELSE lay[2]
Build(k, cap, lay, first) == CASE k = "chunk" -> CMake(cap, lay[1], lay[2], first)
                               [] k = "ring" -> RMake(cap, lay[1], lay[2], first)
                               [] OTHER -> IMake(cap, lay[2], first)
View(k, c) == CASE k = "chunk" -> CView(c) [] k = "ring" -> RView(c) [] OTHER -> IView(c)
LayOf(k, c) == CASE k = "chunk" -> <<c.l, c.r>> [] k = "ring" -> <<c.o, c.len>> [] OTHER -> <<0, c.len>>
Empty(k, cap) == CASE k = "chunk" -> CNew(cap) [] k = "ring" -> RNew(cap) [] OTHER -> INew(cap)
KA == IF K = "xfer" THEN "chunk" ELSE K
KB == IF K = "xfer" THEN "inline" ELSE K

CRes5(a, b, it) == [p |-> 0, A |-> a, B |-> b, r |-> it.r, d |-> it.d]

(* iterators: where the window ends up *)
IterImpl(op, f, A, B) ==
  LET it == IterRun(KindOf(op.op), View(KA, A), f, op.s)
      A2 == CASE op.op = "it_own" -> Empty(KA, n)
              [] op.op = "it_drain" /\ KA = "chunk" -> [A EXCEPT !.l = A.l + it.lo, !.r = A.l + it.hi]
              [] op.op = "it_drain" /\ KA = "ring" -> [A EXCEPT !.o = W(n, A.o + it.lo), !.len = it.hi - it.lo]
              [] OTHER -> Build(KA, n, IF op.op = "it_drain" THEN <<0, it.hi - it.lo>> ELSE la, 1)
      fix == IF KA = "chunk" THEN [A2 EXCEPT !.mem = [i \in DOMAIN A2.mem |-> IF A2.l <= i /\ i < A2.r THEN it.a[i - A2.l + 1] ELSE 0]]
             ELSE IF KA = "ring" THEN [A2 EXCEPT !.mem = [i \in DOMAIN A2.mem |-> IF W(n, i + n - A2.o) < A2.len THEN it.a[W(n, i + n - A2.o) + 1] ELSE 0]]
             ELSE [A2 EXCEPT !.mem = [i \in DOMAIN A2.mem |-> IF i < A2.len THEN it.a[i + 1] ELSE 0]]
  IN CRes5(fix, B, it)

XferImpl(op, f, A, B) ==
  LET va == CView(A)  vb == IView(B)  i == op.x IN
  CASE op.op \in {"from_inline", "from_inline_mut"} ->
         IF B.len > n THEN [p |-> 1, A |-> A, B |-> IF op.op = "from_inline" THEN INew(m) ELSE B, r |-> <<>>, d |-> IF op.op = "from_inline" THEN vb ELSE <<>>]
         ELSE [p |-> 0, A |-> CPushAll(CNew(n), vb), B |-> INew(m), r |-> <<>>, d |-> va]
    [] op.op = "b_push" -> IF B.len = m THEN [p |-> 1, A |-> A, B |-> B, r |-> <<>>, d |-> f]
                           ELSE [p |-> 0, A |-> A, B |-> IPush(B, f[1]), r |-> <<>>, d |-> <<>>]
    [] op.op = "b_pop" -> IF B.len = 0 THEN [p |-> 0, A |-> A, B |-> B, r |-> <<0>>, d |-> <<>>]
                          ELSE [p |-> 0, A |-> A, B |-> [B EXCEPT !.len = @ - 1], r |-> <<B.mem[B.len - 1]>>, d |-> <<>>]
    [] op.op = "b_remove" -> IF i >= B.len THEN [p |-> 0, A |-> A, B |-> B, r |-> <<0>>, d |-> <<>>]
                          ELSE [p |-> 0, A |-> A, B |-> IRemove(B, i), r |-> <<vb[i + 1]>>, d |-> <<>>]
    [] op.op = "drop_all" -> [p |-> 0, A |-> CNew(n), B |-> INew(m), r |-> <<>>, d |-> va \o vb]
    [] OTHER -> CApply(op, f, A, [CNew(n) EXCEPT !.n = n])

LeakImpl(op, A, B) ==
  LET spec == Apply(K, n, m, op, <<>>, View(KA, A), View(KB, B))
      all == LenOf(KA, la)
      x == Min2(op.x, all)  y == Min2(op.y, all - x)
      A2 == CASE op.op = "leak_own" -> Empty(KA, n)
              [] KA = "chunk" -> [A EXCEPT !.l = A.l + x, !.r = A.r - y]
              [] KA = "ring" -> [A EXCEPT !.o = W(n, A.o + x), !.len = all - x - y]
              [] OTHER -> IMake(n, all - x - y, x + 1)
  IN [p |-> 0, A |-> A2, B |-> B, r |-> spec.r, d |-> <<>>]

Impl(op, f, A, B) ==
  IF IsIter(op.op) THEN IterImpl(op, f, A, B)
  ELSE IF IsLeak(op.op) THEN LeakImpl(op, A, B)
  ELSE CASE K = "chunk" -> CApply(op, f, A, B)
         [] K = "ring" -> RApply(op, f, A, B)
         [] K = "inline" -> IApply(op, f, A, B)
         [] K = "xfer" -> IF op.op \in {"push_back", "push_front", "pop_back", "pop_front"}
                          THEN [XferImpl(op, f, A, B) EXCEPT !.B = B] ELSE XferImpl(op, f, A, B)

Init == /\ ci \in 1..Len(Configs)
        /\ la = LayOf(KA, Empty(KA, n)) /\ lb = LayOf(KB, Empty(KB, m))

Step(op) ==
  LET na == LenOf(KA, la)  nb == LenOf(KB, lb)
      f == Ints(na + nb + 1, na + nb + op.nf)
      A == Build(KA, n, la, 1)  B == Build(KB, m, lb, na + 1)
      spec == Apply(K, n, m, op, f, View(KA, A), View(KB, B))
      impl == Impl(op, f, A, B)
      va == View(KA, impl.A)  vb == View(KB, impl.B)
  IN /\ Assert(impl.p = spec.p /\ va = spec.a /\ vb = spec.b /\ impl.r = spec.r /\ Sorted(impl.d) = spec.d,
               <<"implementation model does not refine the list", op, n, m, la, lb, impl, spec>>)
     /\ Assert(Conserves(op, f, View(KA, A), View(KB, B), spec), <<"not conserved", op, spec>>)
     /\ Assert(Len(va) <= n /\ Len(vb) <= m, <<"over capacity", op, spec>>)
     /\ la' = LayOf(KA, impl.A) /\ lb' = LayOf(KB, impl.B)
     /\ UNCHANGED ci
     /\ (Emit => PrintT(ToString(<<"T", KindNo, n, m, la[1], la[2], lb[1], lb[2], op.op, op.x, op.y, op.nf, "s", op.s, "e",
                               la'[1], la'[2], lb'[1], lb'[2]>>)))

Next == \E op \in OpsOf(Sets, K, n, m, LenOf(KA, la), LenOf(KB, lb)) : Step(op)
Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ (KA = "chunk") => 0 <= la[1] /\ la[1] <= la[2] /\ la[2] <= n
  /\ (KA = "ring") => 0 <= la[1] /\ la[1] < Max2(n, 1) /\ 0 <= la[2] /\ la[2] <= n
  /\ LenOf(KA, la) \in 0..n /\ LenOf(KB, lb) \in 0..m
=============================================================================
