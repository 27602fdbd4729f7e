------------------------------- MODULE MCOrd --------------------------------
(***************************************************************************)
(* Sorted insertion and searching on the implementation shaped models:     *)
(* every contents over Values at every internal placement, every operation *)
(* on every window.  The binary search is the halving loop of array-ops    *)
(* (RingBuffer and its slices) and std (Chunk) on raw storage positions;   *)
(* the insertion that follows is RInsert / CInsert.  TLC checks that the   *)
(* outcome is among those OrdSpec allows; with Emit every case is printed  *)
(* for the harness.                                                        *)
(***************************************************************************)
EXTENDS OrdSpec, ChunkImpl, RingImpl, AnySearchOps

CONSTANTS Configs, Values, Emit           \* Configs: sequence of <<kind, n, all windows?>>
VARIABLES ci, lay, V, done

K == Configs[ci][1]
n == Configs[ci][2]
AllWindows == Configs[ci][3]
LenOf(k, l) == IF k = "chunk" THEN l[2] - l[1] ELSE l[2]
Layouts(k, c) == IF k = "chunk" THEN {<<l, r>> : l \in 0..c, r \in 0..c} \cap {<<l, r>> \in (0..c) \X (0..c) : l <= r}
                 ELSE (0..Max2(0, c - 1)) \X (0..c)
Build(first) == IF K = "chunk" THEN CMake(n, lay[1], lay[2], first) ELSE RMake(n, lay[1], lay[2], first)
View(c) == IF K = "chunk" THEN CView(c) ELSE RView(c)
ValAt(c, w, i) == LET e == IF K = "chunk" THEN c.mem[c.l + w + i] ELSE c.mem[RRaw(c, w + i)] IN V[e]

(* the halving loop: <<found, index>> *)
RECURSIVE Halve(_, _, _, _, _)
Halve(c, w, x, s, key) ==
  LET val(i) == IF key THEN ValAt(c, w, i) \div 2 ELSE ValAt(c, w, i)
      cmp(i) == IF val(i) < x THEN -1 ELSE IF val(i) = x THEN 0 ELSE 1
      r == Answer(s, cmp(s.base))
  IN IF s.size > 1 THEN Halve(c, w, x, Halved(s, cmp(Probe(s))), key) ELSE <<Bool(r.found), r.at>>
Search(c, w, len, x, key) == IF len = 0 THEN <<0, 0>> ELSE Halve(c, w, x, [base |-> 0, size |-> len], key)

O(name, x, y, lo, hi, arg) == Op(name, x, y, IF name = "ins" THEN 1 ELSE 0, <<lo, hi>> \o arg)
Xs == {0} \cup Values \cup {v + 1 : v \in Values}
Windows(len) == IF AllWindows THEN {<<lo, hi>> \in (0..len) \X (0..len) : lo <= hi} ELSE {<<0, len>>}
Pats == UNION {[1..k -> Values] : k \in 0..2}
SortName(nm, w) == IF w[1] = w[2] THEN "sort_empty" ELSE nm
Ops(len) ==
  {O("ins", x, 0, 0, len, <<>>) : x \in Xs}
  \cup (IF K = "chunk" THEN {} ELSE
   UNION {LET ys == IF w = <<0, len>> THEN {0, 1, 2} ELSE {1, 2} IN
     {O(nm, x, y, w[1], w[2], <<>>) : nm \in {"find", "find_by", "find_key", "has"}, x \in Xs, y \in ys}
     \cup {O(nm, 0, y, w[1], w[2], <<>>) : nm \in {"sorted", "sorted_by", "sorted_key"}, y \in ys}
     \cup {O(nm, 0, y, w[1], w[2], p) : nm \in {"starts", "ends"}, y \in (IF AllWindows THEN ys \ {2} ELSE ys), p \in Pats}
     \cup {O(SortName(nm, w), IF w[1] = w[2] THEN (CASE nm = "sort" -> 0 [] nm = "sort_by" -> 1 [] OTHER -> 2) ELSE 0, y, w[1], w[2], <<>>)
              : nm \in {"sort", "sort_by", "sort_key"}, y \in ys \ {1}}
     \cup {O("swap", 0, y, w[1], w[2], <<i, j>>) : i, j \in 0..(w[2] - w[1]), y \in ys \ {1}}
   : w \in Windows(len)})

Impl(op) ==
  LET c == Build(1)  la == Len(V)  lo == op.s[1]  len == op.s[2] - lo
      Same(r) == [p |-> 0, a |-> View(c), r |-> r, d |-> <<>>]
  IN CASE op.op = "ins" ->
            IF la = n THEN [p |-> 1, a |-> View(c), r |-> <<>>, d |-> <<la + 1>>]
            ELSE LET i == Search(c, 0, la, op.x, FALSE)[2]
                 IN [p |-> 0, r |-> <<>>, d |-> <<>>, a |-> View(IF K = "chunk" THEN CInsert(c, i, la + 1) ELSE RInsert(c, i, la + 1))]
       [] op.op \in {"find", "find_by"} -> Same(Search(c, lo, len, op.x, FALSE))
       [] op.op = "find_key" -> Same(Search(c, lo, len, op.x, TRUE))
       [] op.op = "has" -> Same(<<Bool(\E i \in 0..(len - 1) : ValAt(c, lo, i) = op.x)>>)
       [] op.op = "sorted" -> Same(<<Bool(\A i \in 1..(len - 1) : ~(ValAt(c, lo, i - 1) > ValAt(c, lo, i)))>>)
       [] OTHER -> Same(<<>>)
Modelled(op) == op.op \in {"ins", "find", "find_by", "find_key", "has", "sorted"}

Init == /\ ci \in 1..Len(Configs)
        /\ lay \in Layouts(K, n)
        /\ V \in [1..LenOf(K, lay) -> Values]
        /\ done = FALSE
Step(op) ==
  /\ Modelled(op) => Assert(OrdOk(op, n, V, Impl(op)), <<"implementation model is not what OrdSpec allows", op, V, lay, Impl(op)>>)
  /\ (Emit => PrintT(ToString(<<"C", K, op.op, <<n, lay[1], lay[2], op.x, op.y>>, op.s, V>>)))
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<ci, lay, V>>
        /\ \A op \in Ops(Len(V)) : Step(op)
Spec == Init /\ [][Next]_<<ci, lay, V, done>>
=============================================================================
