------------------------------- MODULE MCRun --------------------------------
(***************************************************************************)
(* RunSpec is SeqSpec: for every small capacity, every pair of lengths,    *)
(* every operation of SeqOps that RunSpec has, the outcome written as runs *)
(* stands for the outcome of SeqSpec.  Contents are not only one run: the  *)
(* labels are also taken in other orders.                                  *)
(***************************************************************************)
EXTENDS SeqSpec, SeqOps, RunSpec

CONSTANTS Configs
VARIABLES ci, la, lb, order, phase

K == Configs[ci][1]
N == Configs[ci][2]
Expand(A) == FlattenSeq([q \in 1..Len(A) |-> [j \in 1..A[q][2] |-> LET v == A[q][1] + j - 1 IN IF v > RCLONE THEN v - RCLONE + CLONE ELSE v]])
AsRuns(s) == Norm([q \in 1..Len(s) |-> <<s[q], 1>>])

Known == {"new", "clear", "from_iter", "collect_from", "drain_from", "from_front", "from_back", "clone", "clone_from", "push_back", "push_front", "pop_back", "pop_front",
          "drop_left", "drop_right", "split_off", "append", "drain_from_front", "drain_from_back", "set", "index", "index_mut", "get", "get_mut", "first_last", "swap",
          "insert", "insert_from", "remove", "extend", "exchange", "it_ref", "it_own", "it_drain",
          "sl_view", "sl_index", "sl_get", "sl_owned", "sl_iter", "sm_set", "sm_swap", "sm_ends"}
Plain(s) == \A q \in 1..Len(s) : s[q] \in {1, 2, 3, 4, 5, 6, 9, 10, 11, 14, 15}
Script(op) == IF op.op = "sl_iter" THEN WindowFrom(0, la, op.s).s ELSE IF IsIter(op.op) THEN op.s ELSE <<>>
Groups == UNION {OpsIn(g, K, N, N, la, lb) : g \in Configs[ci][3]}
Ops == {op \in Groups : op.op \in Known /\ Plain(Script(op))}

Arrange(s) == IF order = 0 THEN s ELSE IF order = 1 THEN Rev(s) ELSE [q \in 1..Len(s) |-> s[IF q % 2 = 1 /\ q < Len(s) THEN q + 1 ELSE IF q % 2 = 0 THEN q - 1 ELSE q]]
Agrees(op) ==
  LET A == Arrange(Ints(1, la))  B == Arrange(Ints(la + 1, la + lb))
      f == Ints(la + lb + 1, la + lb + op.nf)
      e == Apply(K, N, N, op, f, A, B)
      g == RunApply(K, N, N, op, AsRuns(f), AsRuns(A), AsRuns(B))
  IN /\ g.p = e.p /\ Expand(g.a) = e.a /\ Expand(g.b) = e.b /\ (e.p = 1 \/ Expand(g.r) = e.r) /\ Expand(g.d) = e.d
     /\ g.a = Norm(g.a) /\ g.b = Norm(g.b)

Init == ci \in 1..Len(Configs) /\ la \in 0..N /\ lb \in 0..N /\ order \in 0..2 /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<ci, la, lb, order>>
Spec == Init /\ [][Next]_<<ci, la, lb, order, phase>>
Linked == phase = 1 => \A op \in Ops : Agrees(op) \/ PrintT(<<"DIFFERS", op, la, lb>>) = FALSE
=============================================================================
