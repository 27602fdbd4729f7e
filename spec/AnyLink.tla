------------------------------- MODULE AnyLink ------------------------------
(***************************************************************************)
(* The operators about arbitrary capacities (AnyList, AnyChunkOps,         *)
(* AnyRingOps; AnyChunk and AnyRing are checked with Apalache) say what    *)
(* the models of small capacities say: AnyList what SeqSpec says, the      *)
(* others make the moves of ChunkImpl and RingImpl.  Every operation on    *)
(* every pair of layouts, every element followed.  AnySlice narrows like   *)
(* SliceSpec and RNarrow.                                                  *)
(***************************************************************************)
EXTENDS SeqSpec, ChunkImpl, RingImpl

CONSTANTS MaxN, MaxSolo, Kinds      \* beyond MaxN slots the second container is empty
VARIABLES kind, n, la, lb, op, i, k
C == INSTANCE AnyChunkOps
R == INSTANCE AnyRingOps
S == INSTANCE AnySlice WITH m <- BIG, lo <- 0, hi <- 0, form <- 0, i <- 0, j <- 0
Nums == 0..6 \cup {BIG - 1, BIG}
ASSUME \A len \in 0..4, f \in 1..13, x, y \in Nums :
         LET s == S!Ideal(len, f, x, y)  p == Narrow(len, f, x, y) IN s.ok = p[1] /\ (s.ok => s.lo = p[2] /\ s.hi = p[3])
ASSUME \A l, h \in 0..4, f \in 1..13, x, y \in Nums :
         l <= h => LET s == S!Code(BIG, l, h, f, x, y)  p == RNarrow(l, h, f, x, y) IN s.ok = p[1] /\ s.lo = p[2] /\ s.hi = p[3]

\* arguments which the operation has
Indices(name, cap) == IF name \in {"drop_left", "drop_right", "split_off", "insert", "insert_from", "remove",
                                   "drain_from_front", "drain_from_back", "from_front", "from_back"} THEN 0..(cap + 1) ELSE {0}
Counts(name, cap) == CASE name \in {"push_front", "push_back", "insert"} -> {1}
                       [] name \in {"insert_from", "io_write"} -> 0..(cap + 1)
                       [] OTHER -> {0}
Windows(cap) == {<<l, r>> \in (0..cap) \X (0..cap) : l <= r}
Rings(cap) == (0..(cap - 1)) \X (0..cap)
Init == /\ kind \in Kinds /\ n \in (IF kind = "chunk" THEN 0 ELSE 1)..MaxSolo
        /\ la \in (IF kind = "chunk" THEN Windows(n) ELSE Rings(n))
        /\ lb \in (IF n > MaxN THEN {<<0, 0>>} ELSE IF kind = "chunk" THEN Windows(n) ELSE Rings(n))
        /\ op \in (IF kind = "chunk" THEN C!Names ELSE R!Names \cup R!Loops)
        /\ i \in Indices(op, n) /\ k \in Counts(op, n)
Spec == Init /\ [][FALSE]_<<kind, n, la, lb, op, i, k>>

IsChunk == kind = "chunk"
A0 == IF IsChunk THEN CMake(n, la[1], la[2], 1) ELSE RMake(n, la[1], la[2], 1)
na == IF IsChunk THEN CLen(A0) ELSE la[2]
B0 == IF IsChunk THEN CMake(n, lb[1], lb[2], na + 1) ELSE RMake(n, lb[1], lb[2], na + 1)
nb == IF IsChunk THEN CLen(B0) ELSE lb[2]
fresh == Ints(na + nb + 1, na + nb + k)
TheOp == Op(op, i, 0, k, <<>>)
Vw(c) == IF IsChunk THEN CView(c) ELSE RView(c)
model == IF IsChunk THEN CApply(TheOp, fresh, A0, B0) ELSE RApply(TheOp, fresh, A0, B0)
list == Apply(kind, n, n, TheOp, fresh, Vw(A0), Vw(B0))
allowed == IF IsChunk THEN C!Allowed(op, n, na, nb, i, k) ELSE R!Allowed(op, n, na, nb, i, k)

\* the loops of AnyRing, one round after the other
RECURSIVE RightLoop(_, _, _)
RightLoop(wt, t, s) == IF s.pc # "right" THEN <<t, s>> ELSE RightLoop(wt, R!RightMov(n, wt, t, s, k), R!RightNext(n, s, k))
RECURSIVE LeftLoop(_, _, _)
LeftLoop(wt, t, s) == IF s.pc # "left" THEN <<t, s>> ELSE LeftLoop(wt, R!LeftMov(n, wt, t, s, k), R!LeftNext(n, s))
RECURSIVE PutLoop(_, _, _, _)
PutLoop(wt, t, cur, c) == IF c = 0 THEN t ELSE PutLoop(wt, R!Fill(n, wt, t, cur), R!Wr(n, cur + 1), c - 1)
RECURSIVE UpLoop(_, _, _)
UpLoop(wt, t, s) == IF s.pc # "up" THEN <<t, s>> ELSE UpLoop(wt, R!UpMov(n, wt, t, s), R!UpNext(n, s))
RECURSIVE DownLoop(_, _, _)
DownLoop(wt, t, s) == IF s.pc # "down" THEN <<t, s>> ELSE DownLoop(wt, R!DownMov(n, wt, t, s), R!DownNext(n, s))
Looped(a, b, w, t) ==
  IF op = "remove"
  THEN LET w1 == IF w = 1 /\ t.p = R!Raw(n, a, i) THEN 0 ELSE w
           up == a.len - i < i
           s == R!RemoveStart(n, a, i)
           e == IF up THEN UpLoop(w1 = 1, t, s) ELSE DownLoop(w1 = 1, t, s)
       IN [a |-> R!RemoveEnd(n, e[2], up), b |-> b, w |-> w1, p |-> e[1].p, ok |-> e[1].ok, f |-> -1]
  ELSE LET s == R!InsertStart(n, a, i, k)
           e == IF s.pc = "right" THEN RightLoop(w = 1, t, s) ELSE LeftLoop(w = 1, t, s)
           z == PutLoop(w = 1, e[1], R!Raw(n, e[2].a, i), k)
       IN [a |-> e[2].a, b |-> b, w |-> w, p |-> z.p, ok |-> z.ok, f |-> R!Raw(n, e[2].a, i)]

\* where label x is before the operation
Start(x) == IF x = 0 THEN [w |-> 0, p |-> 0]
            ELSE IF x <= na THEN [w |-> 1, p |-> IF IsChunk THEN la[1] + x - 1 ELSE RRaw(A0, x - 1)]
            ELSE [w |-> 2, p |-> IF IsChunk THEN lb[1] + x - na - 1 ELSE RRaw(B0, x - na - 1)]
AnyOut(x) ==
  LET t == [p |-> Start(x).p, ok |-> TRUE]  w == Start(x).w IN
  IF IsChunk THEN C!ChunkStep(op, n, C!Win(la[1], la[2]), C!Win(lb[1], lb[2]), w, t, i, k)
  ELSE LET a == R!Ring(la[1], la[2])  b == R!Ring(lb[1], lb[2])
       IN IF op \in R!Loops THEN Looped(a, b, w, t) ELSE R!RingStep(op, n, a, b, w, t, i, k)

SameLay(o) == IF IsChunk THEN /\ o.a.l = model.A.l /\ o.a.r = model.A.r /\ o.b.l = model.B.l /\ o.b.r = model.B.r
              ELSE /\ o.a.o = model.A.o /\ o.a.len = model.A.len
                   /\ o.b.len = model.B.len /\ (o.b.len > 0 => o.b.o = model.B.o)
SamePlace(x) ==
  LET o == AnyOut(x) IN
  /\ o.ok /\ SameLay(o)
  /\ (x > 0 => CASE o.w = 1 -> model.A.mem[o.p] = x
                 [] o.w = 2 -> model.B.mem[o.p] = x
                 [] OTHER -> x \notin RangeOf(Vw(model.A)) \cup RangeOf(Vw(model.B)))
  /\ (k > 0 => o.f >= 0 /\ model.A.mem[o.f] = na + nb + 1)
SameList(x) ==
  LET e == C!Expect(op, na, nb, Start(x).w, IF x <= na THEN x - 1 ELSE x - na - 1, i, k) IN
  CASE e.w = 1 -> list.a[e.q + 1] = x
    [] e.w = 2 -> list.b[e.q + 1] = x
    [] OTHER -> x \notin RangeOf(list.a) \cup RangeOf(list.b)
Linked ==
    /\ (allowed => /\ list.p = 0
                   /\ \A x \in 0..(na + nb) : SamePlace(x)
                   /\ \A x \in 1..(na + nb) : SameList(x)
                   /\ C!Lengths(op, na, nb, i, k) = C!At(Len(list.a), Len(list.b))
                   /\ (k > 0 => list.a[C!NewAt(op, na, i) + 1] = na + nb + 1))
    \* what is left out: refused, or something else (a push, nothing, a short write)
    /\ (~allowed => list.p = 1 \/ (~IsChunk /\ op \in {"insert", "insert_from", "pop_front", "pop_back"}) \/ (op = "io_write" /\ na + k > n))
=============================================================================
