------------------------------ MODULE MCSparse ------------------------------
(***************************************************************************)
(* Exploration of SparseImpl: every set of occupied indices (out of the    *)
(* indices a configuration names) of both registers, every operation,      *)
(* refinement of SparseSpec, conservation; transitions are printed for the *)
(* harness.  Index sets are written as bit masks over the named indices.   *)
(***************************************************************************)
EXTENDS SparseSpec, SparseImpl
CONSTANTS Configs, Emit            \* Configs: sequence of <<n, named indices, op groups>>
VARIABLES ci, ma, mb
vars == <<ci, ma, mb>>
n == Configs[ci][1]
Pool == Configs[ci][2]
Groups == Configs[ci][3]

RECURSIVE Mask(_, _)
Mask(ks, q) == IF q = <<>> THEN 0 ELSE (IF Head(q) \in ks THEN 1 ELSE 0) + 2 * Mask(ks, Tail(q))

O(name, x, y, nf) == Op(name, x, y, nf, <<>>)
Idx == RangeOf(Pool) \cup {n, n + 1, BIG}
In == RangeOf(Pool)
Few == {Pool[1], Pool[Len(Pool)], n, BIG}
SortedSub == {SetToSortSeq(S, <) : S \in SUBSET In}
SpSeqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
SpScripts(len) == {w \o <<t>> : w \in SpSeqs({1}, len + 2), t \in {5, 6, 7, 9}} \cup {w \o <<9>> : w \in SpSeqs({1, 3}, Min2(len, 3))}
               \cup {w \o <<t>> : w \in SpSeqs({1, 3}, 1), t \in {5, 6, 7, 12, 16, 22, 26}}
               \cup {v \o <<a>> \o w \o <<9>> : v \in SpSeqs({1}, 1), a \in {10, 11, 18, 20, 25}, w \in SpSeqs({1}, 1)}
SpNames == {"sp_ref", "sp_mut", "sp_own", "sp_entries", "sp_indices", "sp_opt", "sp_optmut", "sp_optdrain"}
Iters(names, scripts, la) == {Op(nm, x, 0, IF Writes(nm) THEN la ELSE 0, s) : nm \in names, x \in {0}, s \in scripts}
                   \cup {Op("sp_own", 1, 0, 0, s) : s \in scripts}
OpsIn(g, la) ==
  CASE g = "core" ->
         {O(nm, 0, 0, 0) : nm \in {"new", "default", "pop", "first_index", "drop_all"}}
         \cup {O(nm, i, 0, 1) : nm \in {"unit", "insert", "index_mut"}, i \in Idx}
         \cup {O("get_mut", i, y, 1) : i \in Idx, y \in 0..3}
         \cup {O(nm, i, 0, 0) : nm \in {"remove", "get", "index"}, i \in Idx}
         \cup {O("pair", i, j, 2) : i, j \in Few}
         \cup {Op("from_iter", IF s = <<>> THEN 0 ELSE s[Len(s)] + 1, 0, Len(s), s) : s \in SortedSub}
         \cup {Op("from_iter", n + 2, 0, Len(s), s) : s \in {<<>>, <<n>>, <<n + 1>>, <<Pool[1], n>>, <<Pool[1]>>, <<n, n + 1>>}}
    [] g = "two" -> {O(nm, 0, 0, 0) : nm \in {"clone", "clone_from", "exchange"}}
    [] g = "pool" -> {O(nm, 0, 0, 0) : nm \in {"pool_clone", "pool_default"}}
    [] g = "iter" -> Iters(IF n <= 9 THEN SpNames ELSE {nm \in SpNames : ~Slots(nm)}, SpScripts(IF n <= 4 THEN Max2(la, n) ELSE la), la)
                     \cup (IF n <= 9 THEN {} ELSE Iters({nm \in SpNames : Slots(nm)}, SpScripts(2), la))
    [] g = "fewiter" -> Iters(SpNames, {<<9>>, <<1, 9>>, <<1, 1, 9>>, <<3, 9>>}, la)
                        \cup Iters(IF n <= 9 THEN SpNames ELSE {nm \in SpNames : ~Slots(nm)}, {<<1, 5>>, <<6>>, <<1, 7>>}, la)
    [] g = "step" -> {O("insert", i, 0, 1) : i \in In} \cup {O("pop", 0, 0, 0)}
Ops(la) == UNION {OpsIn(g, la) : g \in Groups}

Init == ci \in 1..Len(Configs) /\ ma = {} /\ mb = {}

Step(op) ==
  LET ka == SetToSortSeq(ma, <)  kb == SetToSortSeq(mb, <)
      la == Len(ka)  lb == Len(kb)
      f == Ints(la + lb + 1, la + lb + op.nf)
      A == SMake(n, In, ka, 1)  B == SMake(n, In, kb, la + 1)
      spec == SpApply(n, op, f, SView(A), SView(B))
      impl == IF IsSpIter(op.op) THEN SRes(spec.p, SInsertAll(SEmpty(n, In), Keys(spec.a), Vals(spec.a)), B, spec.r, spec.d) ELSE SApplyImpl(op, f, A, B)
  IN /\ Assert(impl.p = spec.p /\ SView(impl.A) = spec.a /\ SView(impl.B) = spec.b /\ impl.r = spec.r /\ Sorted(impl.d) = spec.d,
               <<"implementation model does not refine the map", op, n, ma, mb, impl, spec>>)
     /\ Assert(SpConserves(op, f, SView(A), SView(B), spec), <<"not conserved", op, spec>>)
     /\ ma' = impl.A.map /\ mb' = impl.B.map /\ UNCHANGED ci
     /\ (Emit => PrintT(ToString(<<"T", 5, n, n, Mask(ma, Pool), 0, Mask(mb, Pool), 0, op.op, op.x, op.y, op.nf, "s", op.s, "e",
                               Mask(ma', Pool), 0, Mask(mb', Pool), 0>>)))
Next == \E op \in Ops(Cardinality(ma)) : Step(op)
Spec == Init /\ [][Next]_vars
TypeOK == ma \subseteq In /\ mb \subseteq In /\ In \subseteq 0..(n - 1)
=============================================================================
