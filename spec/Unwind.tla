------------------------------- MODULE Unwind -------------------------------
(***************************************************************************)
(* Operations as sequences of micro steps, with a panic possible at every  *)
(* step that runs user code (an element's clone or drop, a comparison, an  *)
(* iterator's next).  Unlike ChunkImpl and friends, where an operation is  *)
(* one step, this shows the moments in between: which slots the container  *)
(* claims to own while user code runs.                                     *)
(*                                                                         *)
(* mem   slots of the container A (0: never written; a slot keeps its bits *)
(*       after its element was moved out or dropped)                       *)
(* own   the slots A claims to own, first to last                          *)
(* omem, oown   the same for a container under construction                *)
(* it    elements the caller's iterator still holds                        *)
(* hand  elements held in local variables                                  *)
(* Unwinding drops the iterator, the locals and the container under        *)
(* construction.  Then A must be a sound container again: the outcome is   *)
(* judged by Lie!JudgeFault, exactly like outcomes of the real code.       *)
(* A run without panic must give the outcome SeqSpec allows.               *)
(*                                                                         *)
(* Care: the code's precautions ("release": give up ownership before       *)
(* dropping; "hole": pretend to be empty while there is a hole in the      *)
(* middle; "count": count clones one by one).  Without any one of them TLC *)
(* must find the corruption, which shows that the model can see it.        *)
(***************************************************************************)
EXTENDS SeqSpec, Lie

CONSTANTS Kinds, MaxN, Care
VARIABLES cf, pc, S, st

(* ---- placements: the owned slots of a container with n slots *)
Places(k, n) ==
  CASE k = "chunk" -> {[i \in 1..(r - l) |-> l + i - 1] : <<l, r>> \in {p \in (0..n) \X (0..n) : p[1] <= p[2]}}
    [] k = "ring" -> {[i \in 1..len |-> (o + i - 1) % n] : o \in 0..(n - 1), len \in 0..n}
    [] k = "inline" -> {[i \in 1..len |-> i - 1] : len \in 0..n}
Slots(lo, hi) == [i \in 1..Max2(0, hi - lo) |-> lo + i - 1]

(* ---- programs: sequences of <<instruction, arguments>> *)
Own(s) == <<<<"own", s>>>>
OOwn(s) == <<<<"oown", s>>>>
Mv(from, to) == IF from = <<>> THEN <<>> ELSE <<<<"mv", from, to>>>>
Put(i) == <<<<"put", i>>>>
PullPut(s) == Cat([q \in 1..Len(s) |-> <<<<"pull">>, <<"put", s[q]>>>>])
DropSlice(s) == <<<<"dropslice", s>>>>       \* drop_in_place of a slice: goes on after a panic
DropLoop(s) == Cat([q \in 1..Len(s) |-> <<<<"dropslice", <<s[q]>>>>>>])   \* one by one: the rest leaks
DropSlots(k, s) == IF k = "ring" THEN DropLoop(s) ELSE DropSlice(s)
Release(k, keep, gone) ==
  IF "release" \in Care THEN Own(keep) \o DropSlots(k, gone) ELSE DropSlots(k, gone) \o Own(keep)

(* push_back of the element in hand: where it goes; r: right end of a chunk's window *)
ChunkPush(n, own) ==
  LET l == own[1]  r == own[Len(own)] + 1 IN
  IF own = <<>> THEN [own |-> <<0>>, prog |-> Put(0) \o Own(<<0>>)]
  ELSE IF r = n THEN LET s == Slots(0, Len(own)) IN
         [own |-> Append(s, Len(own)), prog |-> Mv(own, s) \o Own(s) \o Put(Len(own)) \o Own(Append(s, Len(own)))]
  ELSE [own |-> Append(own, r), prog |-> Put(r) \o Own(Append(own, r))]
PlainPush(k, n, own) ==
  LET s == IF own = <<>> THEN 0 ELSE IF k = "ring" THEN (own[Len(own)] + 1) % n ELSE Len(own)
  IN [own |-> Append(own, s), prog |-> Put(s) \o Own(Append(own, s))]
Push(k, n, own) == IF k = "chunk" THEN ChunkPush(n, own) ELSE PlainPush(k, n, own)
RECURSIVE Extend(_, _, _, _)
Extend(k, n, own, cnt) ==
  <<<<"pull">>>> \o
  IF cnt = 0 THEN <<>>
  ELSE IF Len(own) = n THEN <<<<"fail">>>>
  ELSE LET p == Push(k, n, own) IN p.prog \o Extend(k, n, p.own, cnt - 1)

(* filling the hole [hole] from the iterator; full: all slots afterwards *)
Fill(hole, full) == IF "hole" \in Care THEN Own(<<>>) \o PullPut(hole) \o Own(full) ELSE Own(full) \o PullPut(hole)
InsertFrom(k, n, own, i, c) ==
  LET len == Len(own)
      L == Take(own, i)  R == Drop(own, i)
      base == own[1]
      fwd == [q \in 1..len |-> IF k = "ring" THEN (own[q] + c) % n ELSE own[q] + c]
      back == [q \in 1..len |-> IF k = "ring" THEN (own[q] + n - c) % n ELSE own[q] - c]
      At(start) == [q \in 1..(len + c) |-> IF k = "ring" THEN (start + q - 1) % n ELSE start + q - 1]
      r == IF own = <<>> THEN 0 ELSE own[len] + 1
      LeftWay == Mv(L, Take(back, i)) \o Fill(SubSeq(At(back[1]), i + 1, i + c), At(back[1]))
      RightWay == Mv(R, Drop(fwd, i)) \o Fill(SubSeq(At(base), i + 1, i + c), At(base))
      BothWays == Mv(L, Slots(0, i)) \o Mv(R, Slots(i + c, len + c)) \o Fill(Slots(i, i + c), Slots(0, len + c))
  IN IF c = 0 THEN <<>>
     ELSE IF k = "ring" THEN
       IF i = len THEN Extend(k, n, own, c) ELSE IF len - i < i THEN RightWay ELSE LeftWay
     ELSE IF own = <<>> THEN Fill(Slots(0, c), Slots(0, c))       \* any place will do
     ELSE IF r = n \/ (own[1] >= c /\ i < len - i) THEN LeftWay
     ELSE IF own[1] = 0 \/ r + c <= n THEN RightWay
     ELSE BothWays
(* insertion of the element in hand after comparisons with user code *)
InsertOrdered(k, n, own, i) ==
  LET len == Len(own)
      at == IF own = <<>> THEN 0 ELSE own[1]
      r == at + len
      Shift(s, d) == [q \in 1..Len(s) |-> IF k = "ring" THEN (s[q] + n + d) % n ELSE s[q] + d]
      All(start) == [q \in 1..(len + 1) |-> IF k = "ring" THEN (start + n + q - 1) % n ELSE start + q - 1]
      left == (k = "chunk" /\ len > 0 /\ (r = n \/ (at > 0 /\ i < len - i))) \/ (k = "ring" /\ i <= len - i /\ i < len)
      start == IF left THEN at - 1 ELSE at
  IN [q \in 1..2 |-> <<"user">>] \o
     (IF left THEN Mv(Take(own, i), Shift(Take(own, i), -1)) ELSE Mv(Drop(own, i), Shift(Drop(own, i), 1)))
     \o Put(All(start)[i + 1]) \o Own(All(start))

CloneProg(k, own) ==
  LET step(q) == <<<<"clone", own[q]>>, <<"oput", own[q]>>>> IN
  IF "count" \notin Care THEN OOwn(own) \o Cat([q \in 1..Len(own) |-> step(q)])
  ELSE IF k = "inline" THEN Cat([q \in 1..Len(own) |-> step(q)]) \o OOwn(own)
  ELSE Cat([q \in 1..Len(own) |-> step(q) \o OOwn(Take(own, q))])

(* sorting in place: comparisons and swaps *)
Sorting(own) == IF Len(own) < 2 THEN <<>>
  ELSE <<<<"user">>>> \o Mv(<<own[1], own[Len(own)]>>, <<own[Len(own)], own[1]>>) \o <<<<"user">>>> \o Mv(<<own[1], own[2]>>, <<own[2], own[1]>>)

Prog(c) ==
  LET len == Len(c.own)  i == c.x IN
  CASE c.op = "drop_left" -> Release(c.k, Drop(c.own, i), Take(c.own, i))
    [] c.op = "drop_right" -> Release(c.k, Take(c.own, i), Drop(c.own, i))
    [] c.op = "clear" -> Release(c.k, <<>>, c.own)
    [] c.op = "it_own" -> \* i items are taken, the others dropped with the iterator
         Cat([q \in 1..i |-> <<<<"own", Drop(c.own, q)>>, <<"take", c.own[q]>>>>]) \o Own(<<>>) \o DropSlots(c.k, Drop(c.own, i))
    [] c.op = "extend" -> Extend(c.k, c.n, c.own, c.nf)
    [] c.op = "insert_from" -> InsertFrom(c.k, c.n, c.own, i, c.nf)
    [] c.op = "insert_ordered" -> <<<<"pull">>>> \o InsertOrdered(c.k, c.n, c.own, i)
    [] c.op = "clone" -> CloneProg(c.k, c.own)
    [] c.op = "sort" -> Sorting(c.own)
    [] c.op = "from_iter" -> Cat([q \in 1..c.nf |-> <<<<"pull">>>> \o (IF q > c.n THEN <<<<"fail">>>> ELSE <<<<"oput", q - 1>>>> \o OOwn(Slots(0, q)))]) \o <<<<"pull">>>>

Configs ==
  {c \in UNION {[k : {k}, n : {n}, own : Places(k, n), nf : 0..(n + 1), x : 0..n,
           op : {"drop_left", "drop_right", "clear", "it_own", "extend", "insert_from", "insert_ordered", "clone", "sort", "from_iter"}] : k \in Kinds, n \in 1..MaxN} :
     LET len == Len(c.own) IN
     /\ (c.op \in {"drop_left", "drop_right", "it_own", "insert_from", "insert_ordered"} => c.x <= len)
     /\ (c.op \in {"clear", "extend", "clone", "sort", "from_iter"} => c.x = 0)
     /\ (c.op \in {"drop_left", "drop_right", "clear", "it_own", "clone", "sort"} => c.nf = 0)
     /\ (c.op = "insert_from" => c.nf <= c.n - len)
     /\ (c.op = "insert_ordered" => c.nf = 1 /\ len < c.n)
     /\ (c.k = "inline" => c.op \in {"clear", "it_own", "extend", "clone", "from_iter"})}

(* ---- running *)
Labels(c) == Len(c.own)
Init ==
  /\ cf \in Configs
  /\ pc = 1 /\ st = "run"
  /\ S = [mem |-> [s \in 0..(cf.n - 1) |-> IF s \in RangeOf(cf.own) THEN CHOOSE q \in 1..Len(cf.own) : cf.own[q] = s ELSE 0],
          own |-> cf.own, omem |-> [s \in 0..(cf.n - 1) |-> 0], oown |-> <<>>,
          it |-> Ints(Len(cf.own) + 1, Len(cf.own) + cf.nf), hand |-> <<>>, dropped |-> <<>>, given |-> <<>>]

Visible(mem, own) == [q \in 1..Len(own) |-> mem[own[q]]]
(* the end of the operation, with or without panic: temporaries go away *)
Unwound(s) == [s EXCEPT !.dropped = @ \o s.it \o s.hand \o Visible(s.omem, s.oown), !.it = <<>>, !.hand = <<>>, !.oown = <<>>]
Finish(s, how) == S' = s /\ st' = how /\ UNCHANGED <<cf, pc>>
Go(s) == S' = s /\ pc' = pc + 1 /\ UNCHANGED <<cf, st>>

Step ==
  /\ st = "run"
  /\ LET P == Prog(cf) IN
     IF pc > Len(P) THEN Finish([S EXCEPT !.dropped = @ \o S.it \o S.hand, !.it = <<>>, !.hand = <<>>], "done")
     ELSE LET ins == P[pc] IN
       CASE ins[1] = "own" -> Go([S EXCEPT !.own = ins[2]])
         [] ins[1] = "oown" -> Go([S EXCEPT !.oown = ins[2]])
         [] ins[1] = "mv" -> Go([S EXCEPT !.mem = [s \in DOMAIN S.mem |->
                               IF s \in RangeOf(ins[3]) THEN S.mem[ins[2][CHOOSE q \in 1..Len(ins[3]) : ins[3][q] = s]] ELSE S.mem[s]]])
         [] ins[1] = "put" -> Go([S EXCEPT !.mem[ins[2]] = Head(S.hand), !.hand = Tail(@)])
         [] ins[1] = "oput" -> Go([S EXCEPT !.omem[ins[2]] = Head(S.hand), !.hand = Tail(@)])
         [] ins[1] = "take" -> Go([S EXCEPT !.given = Append(@, S.mem[ins[2]])])
         [] ins[1] = "fail" -> Finish(Unwound(S), "panicked")
         (* user code *)
         [] ins[1] = "pull" -> \/ Go(IF S.it = <<>> THEN S ELSE [S EXCEPT !.hand = Append(@, Head(S.it)), !.it = Tail(@)])
                               \/ Finish(Unwound(S), "unwound")
         [] ins[1] = "user" -> Go(S) \/ Finish(Unwound(S), "unwound")
         [] ins[1] = "clone" -> \/ Go([S EXCEPT !.hand = Append(@, CLONE + S.mem[ins[2]])])
                                \/ Finish(Unwound(S), "unwound")
         [] ins[1] = "dropslice" ->
              LET gone == [S EXCEPT !.dropped = @ \o Visible(S.mem, ins[2])] IN
              Go(gone) \/ (ins[2] # <<>> /\ Finish(Unwound(gone), "unwound"))
Next == Step
Spec == Init /\ [][Next]_<<cf, pc, S, st>>

(* ---- what must hold *)
ViewA == Visible(S.mem, S.own)
Record == [op |-> cf.op, la |-> Labels(cf), lb |-> 0, nf |-> cf.nf, n |-> cf.n, m |-> cf.n, c |-> 0, p |-> 1, flt |-> 1,
           a |-> ViewA, b |-> <<>>, e |-> S.given, d |-> Sorted(S.dropped), r |-> <<>>,
           o |-> <<Len(ViewA), Bool(ViewA = <<>>), Bool(Len(ViewA) = cf.n), 0, 1, 0, 1, 1>>]
(* after a panic: sound; and everything can still be dropped exactly once afterwards *)
PanicSafe == st = "unwound" => JudgeFault(Record) = {} /\ NoDup(S.dropped \o ViewA \o S.given)
(* without an injected panic: what the specification of the operation says *)
Refines ==
  st \in {"done", "panicked"} =>
    LET f == Ints(Labels(cf) + 1, Labels(cf) + cf.nf)
        A == Ints(1, Labels(cf)) IN
    CASE cf.op \in {"sort", "insert_ordered"} -> st = "done" /\ RangeOf(ViewA) = RangeOf(A) \cup RangeOf(f) /\ NoDup(ViewA) /\ S.dropped = <<>>
      [] cf.op = "it_own" -> ViewA = <<>> /\ S.given = Take(A, cf.x) /\ Sorted(S.dropped) = Drop(A, cf.x)
      [] cf.op = "from_iter" -> /\ ViewA = A /\ (st = "panicked") = (cf.nf > cf.n)
                                /\ Visible(S.omem, S.oown) = (IF st = "panicked" THEN <<>> ELSE f)
                                /\ Sorted(S.dropped) = (IF st = "panicked" THEN f ELSE <<>>)
      [] OTHER -> LET e == Apply(cf.k, cf.n, cf.n, Op(cf.op, cf.x, 0, cf.nf, <<>>), f, A, <<>>) IN
                  /\ (st = "panicked") = (e.p = 1)
                  /\ ViewA = e.a /\ Visible(S.omem, S.oown) = e.b /\ Sorted(S.dropped) = e.d
=============================================================================
