---------------------------- MODULE UnwindSparse ----------------------------
(***************************************************************************)
(* The operations of SparseChunk as micro steps with a panic possible in   *)
(* user code, like Unwind for the list-like containers.                    *)
(*                                                                         *)
(* mem, map     slots and occupied indices of the container A              *)
(* omem, omap   the same for a container under construction                *)
(* lmem, lmap   a container owned by an iterator (drain, option_drain)     *)
(* it           items the caller's iterator still holds (0: None)          *)
(* hand         elements in local variables; given: handed to the caller   *)
(* Unwinding drops iterator, locals, and the containers under construction *)
(* or owned by an iterator; dropping a container drops what its map says,  *)
(* slot by slot (a slot that was never written holds 0).                   *)
(*                                                                         *)
(* Care: "cloneorder": the clone is made before its index is occupied;     *)
(* "inserttake": the value at an occupied index is taken out before the    *)
(* new one is written, and handed over, not dropped in place;              *)
(* "clearbit": an index is vacated before its element is handed out.       *)
(***************************************************************************)
EXTENDS SparseSpec, Lie

CONSTANTS MaxN, Care
VARIABLES cf, pc, S, st

Cells(n) == 0..(n - 1)
SetSeq(s) == SetToSortSeq(s, <)

(* ---- programs *)
CloneStep(i) == IF "cloneorder" \in Care THEN <<<<"clone", i>>, <<"owrite", i>>, <<"oset", i>>>>
                ELSE <<<<"oset", i>>, <<"clone", i>>, <<"owrite", i>>>>
(* insertion of the element in hand *)
InsertProg(own, i) ==
  IF i \in own THEN
    IF "inserttake" \in Care THEN <<<<"swap", i>>>>
    ELSE <<<<"dropslot", i>>, <<"write", i>>>>
  ELSE <<<<"set", i>>, <<"write", i>>>>
(* taking the element of index i out of the iterator's container *)
TakeProg(i) == IF "clearbit" \in Care THEN <<<<"lclear", i>>, <<"ltake", i>>>> ELSE <<<<"ltake", i>>, <<"user">>, <<"lclear", i>>>>
Prog(c) ==
  LET ks == SetSeq(c.own) IN
  CASE c.op = "clone" -> Cat([q \in 1..Len(ks) |-> CloneStep(ks[q])]) \o <<<<"hold">>>>
    [] c.op = "insert" -> <<<<"pull">>>> \o InsertProg(c.own, c.x)
    [] c.op = "from_iter" ->      \* c.s: positions of the values in a stream of c.x options
         Cat([q \in 1..c.x |-> <<<<"pull">>>> \o
                IF q - 1 \notin c.s THEN <<>>
                ELSE IF q - 1 >= c.n THEN <<<<"fail">>>>
                ELSE <<<<"oset", q - 1>>, <<"owrite", q - 1>>>>]) \o <<<<"pull">>, <<"hold">>, <<"dropA">>, <<"install">>>>
    [] c.op = "sp_own" ->         \* take c.x elements, then drop the iterator
         <<<<"own">>>> \o Cat([q \in 1..c.x |-> TakeProg(ks[q])]) \o <<<<"dropL">>>>
    [] c.op = "drop_all" -> <<<<"dropA">>>>

Configs ==
  {c \in UNION {[n : {n}, own : SUBSET Cells(n), x : 0..(n + 2), s : SUBSET (0..n), op : {"clone", "insert", "from_iter", "sp_own", "drop_all"}] : n \in 1..MaxN} :
     /\ (c.op = "from_iter" => \A k \in c.s : k < c.x)
     /\ (c.op # "from_iter" => c.s = {})
     /\ (c.op = "insert" => c.x < c.n)
     /\ (c.op = "sp_own" => c.x <= Cardinality(c.own))
     /\ (c.op \in {"clone", "drop_all"} => c.x = 0)}

La(c) == Cardinality(c.own)
Nf(c) == IF c.op = "insert" THEN 1 ELSE Cardinality(c.s)
Stream(c) == IF c.op = "insert" THEN <<La(c) + 1>>
             ELSE [q \in 1..(IF c.op = "from_iter" THEN c.x ELSE 0) |->
                     IF q - 1 \in c.s THEN La(c) + Cardinality({k \in c.s : k <= q - 1}) ELSE 0]
Init ==
  /\ cf \in Configs /\ pc = 1 /\ st = "run"
  /\ LET void == [s \in Cells(cf.n) |-> 0] IN
     S = [mem |-> [s \in Cells(cf.n) |-> IF s \in cf.own THEN Cardinality({k \in cf.own : k <= s}) ELSE 0], map |-> cf.own,
          omem |-> void, omap |-> {}, lmem |-> void, lmap |-> {}, held |-> FALSE,
          it |-> Stream(cf), hand |-> <<>>, dropped |-> <<>>, given |-> <<>>]

Vis(mem, map) == LET k == SetSeq(map) IN [q \in 1..Len(k) |-> mem[k[q]]]
Live(s) == SelectSeq(s, LAMBDA l : l # 0)
Unwound(s) == [s EXCEPT !.dropped = @ \o Live(s.it) \o s.hand \o Vis(s.omem, s.omap) \o Vis(s.lmem, s.lmap),
                        !.it = <<>>, !.hand = <<>>, !.omap = {}, !.lmap = {}]
Finish(s, how) == S' = s /\ st' = how /\ UNCHANGED <<cf, pc>>
Go(s) == S' = s /\ pc' = pc + 1 /\ UNCHANGED <<cf, st>>
(* dropping the elements of a container one after the other: after a panic the rest leaks *)
DropUpTo(mem, map, k) == LET v == Vis(mem, map) IN Take(v, k)

Step ==
  /\ st = "run"
  /\ LET P == Prog(cf) IN
     IF pc > Len(P) THEN Finish([S EXCEPT !.dropped = @ \o Live(S.it) \o S.hand, !.it = <<>>, !.hand = <<>>], "done")
     ELSE LET ins == P[pc] IN
       CASE ins[1] = "set" -> Go([S EXCEPT !.map = @ \cup {ins[2]}])
         [] ins[1] = "oset" -> Go([S EXCEPT !.omap = @ \cup {ins[2]}])
         [] ins[1] = "lclear" -> Go([S EXCEPT !.lmap = @ \ {ins[2]}])
         [] ins[1] = "write" -> Go([S EXCEPT !.mem[ins[2]] = Head(S.hand), !.hand = Tail(@)])
         [] ins[1] = "owrite" -> Go([S EXCEPT !.omem[ins[2]] = Head(S.hand), !.hand = Tail(@)])
         [] ins[1] = "swap" -> Go([S EXCEPT !.mem[ins[2]] = Head(S.hand), !.given = Append(@, S.mem[ins[2]]), !.hand = Tail(@)])
         [] ins[1] = "ltake" -> Go([S EXCEPT !.given = Append(@, S.lmem[ins[2]])])
         [] ins[1] = "own" -> Go([S EXCEPT !.lmem = S.mem, !.lmap = S.map, !.map = {}])
         [] ins[1] = "hold" -> Go([S EXCEPT !.held = TRUE])
         [] ins[1] = "install" -> Go([S EXCEPT !.mem = S.omem, !.map = S.omap, !.omap = {}])
         [] ins[1] = "fail" -> Finish(Unwound(S), "panicked")
         (* user code *)
         [] ins[1] = "user" -> Go(S) \/ Finish(Unwound(S), "unwound")
         [] ins[1] = "pull" -> \/ Go(IF S.it = <<>> THEN S ELSE [S EXCEPT !.hand = IF Head(S.it) = 0 THEN @ ELSE Append(@, Head(S.it)), !.it = Tail(@)])
                               \/ Finish(Unwound(S), "unwound")
         [] ins[1] = "clone" -> \/ Go([S EXCEPT !.hand = Append(@, CLONE + S.mem[ins[2]])])
                                \/ Finish(Unwound(S), "unwound")
         [] ins[1] = "dropslot" -> LET gone == [S EXCEPT !.dropped = Append(@, S.mem[ins[2]])] IN Go(gone) \/ Finish(Unwound(gone), "unwound")
         [] ins[1] = "dropA" ->
              \/ Go([S EXCEPT !.dropped = @ \o Vis(S.mem, S.map), !.map = {}])
              \/ \E k \in 1..Cardinality(S.map) :      \* the k-th drop panics; the new value is installed all the same
                   Finish([Unwound([S EXCEPT !.dropped = @ \o DropUpTo(S.mem, S.map, k), !.map = {}, !.omap = {}]) EXCEPT
                             !.mem = IF S.held THEN S.omem ELSE @, !.map = IF S.held THEN S.omap ELSE {}], "unwound")
         [] ins[1] = "dropL" ->
              \/ Go([S EXCEPT !.dropped = @ \o Vis(S.lmem, S.lmap), !.lmap = {}])
              \/ \E k \in 1..Cardinality(S.lmap) :
                   Finish(Unwound([S EXCEPT !.dropped = @ \o DropUpTo(S.lmem, S.lmap, k), !.lmap = {}]), "unwound")
Next == Step
Spec == Init /\ [][Next]_<<cf, pc, S, st>>

(* ---- what must hold *)
ViewA == Vis(S.mem, S.map)
Record == [op |-> cf.op, la |-> La(cf), lb |-> 0, nf |-> Nf(cf), n |-> cf.n, m |-> cf.n, c |-> 0, p |-> 1, flt |-> 1,
           a |-> ViewA, b |-> <<>>, e |-> S.given, d |-> Sorted(S.dropped), r |-> <<>>,
           o |-> <<Len(ViewA), Bool(ViewA = <<>>), Bool(Len(ViewA) = cf.n), 0, 1, 0, 1, 1>>]
PanicSafe == st = "unwound" => JudgeFault(Record) = {} /\ NoDup(S.dropped \o ViewA \o S.given)
Refines ==
  st \in {"done", "panicked"} =>
    LET f == Ints(La(cf) + 1, La(cf) + Nf(cf))
        A == MapOf(SetSeq(cf.own), Ints(1, La(cf)))
        map(m, s) == [j \in s |-> m[j]] IN
    CASE cf.op = "sp_own" -> S.map = {} /\ S.given = Take(Ints(1, La(cf)), cf.x) /\ Sorted(S.dropped) = Drop(Ints(1, La(cf)), cf.x)
      [] OTHER -> LET e == SpApply(cf.n, Op(cf.op, cf.x, 0, Nf(cf), SetSeq(cf.s)), f, A, EmptyMap) IN
                  /\ (st = "panicked") = (e.p = 1)
                  /\ map(S.mem, S.map) = e.a /\ map(S.omem, S.omap) = e.b
                  /\ Sorted(S.dropped) = Sorted(e.d)
                  /\ (cf.op = "insert" => S.given = Live(e.r))
=============================================================================
