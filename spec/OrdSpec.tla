------------------------------ MODULE OrdSpec -------------------------------
(***************************************************************************)
(* Sorted insertion, searching, sorting and membership.                    *)
(*                                                                         *)
(* V: values of the contents (position i holds element number i).  Several *)
(* outcomes are allowed: an equal element may be found or a new one placed *)
(* anywhere among its equals, and sorting is not stable.                   *)
(*                                                                         *)
(* op.x: the value looked for or inserted; op.y: 0 on the container, 1 on  *)
(* a Slice, 2 on a SliceMut; op.s = <<from, to>> \o further values: the    *)
(* window worked on.  Outcome o: p panicked, a elements afterwards (number *)
(* Len(V) + 1 is the new one), r results, d dropped elements.              *)
(***************************************************************************)
EXTENDS Base

NonDec(W) == \A i \in 1..(Len(W) - 1) : W[i] <= W[i + 1]
Keys(W) == [i \in 1..Len(W) |-> W[i] \div 2]
Neg(W) == [i \in 1..Len(W) |-> 0 - W[i]]
Vals(a, V, x) == [i \in 1..Len(a) |-> IF a[i] = Len(V) + 1 THEN x ELSE V[a[i]]]

(* r = <<1, i>>: W[i] (from 0) is x;  <<0, i>>: not there, i is where it belongs *)
FindOk(W, x, r) ==
  /\ Len(r) = 2 /\ r[1] \in {0, 1} /\ r[2] \in 0..Len(W) /\ (r[1] = 1 => r[2] < Len(W))
  /\ NonDec(W) => IF r[1] = 1 THEN W[r[2] + 1] = x
                  ELSE /\ \A i \in 1..r[2] : W[i] < x
                       /\ \A i \in (r[2] + 1)..Len(W) : W[i] > x

IsSort(name) == name \in {"sort", "sort_by", "sort_key", "sort_empty"}
IsOrd(name) == name \in {"ins", "find", "find_by", "find_key", "has", "sorted", "sorted_by", "sorted_key", "starts", "ends", "swap"}
               \/ IsSort(name)

OrdOk(op, n, V, o) ==
  LET la == Len(V)  x == op.x
      lo == op.s[1]  hi == op.s[2]  arg == Drop(op.s, 2)
      W == SubSeq(V, lo + 1, hi)
      Same == o.p = 0 /\ o.a = Ints(1, la) /\ o.d = <<>>
      Says(b) == Same /\ o.r = <<Bool(b)>>
      Inside == SubSeq(o.a, lo + 1, hi)
      Permuted == /\ o.p = 0 /\ o.d = <<>> /\ o.r = <<>> /\ Len(o.a) = la /\ RangeOf(o.a) = 1..la
                  /\ \A i \in 1..la : (i <= lo \/ i > hi) => o.a[i] = i
  IN
  CASE op.op = "ins" ->
         IF la = n THEN o.p = 1 /\ o.a = Ints(1, la) /\ o.d = <<la + 1>>
         ELSE /\ o.p = 0 /\ o.d = <<>> /\ o.r = <<>>
              /\ \E q \in 0..la : o.a = InsAt(Ints(1, la), q, <<la + 1>>)
              /\ NonDec(V) => NonDec(Vals(o.a, V, x))
    [] op.op \in {"find", "find_by"} -> Same /\ FindOk(W, x, o.r)
    [] op.op = "find_key" -> Same /\ FindOk(Keys(W), x, o.r)
    [] op.op = "has" -> Says(x \in RangeOf(W))
    [] op.op = "sorted" -> Says(NonDec(W))
    [] op.op = "sorted_by" -> Says(NonDec(Neg(W)))
    [] op.op = "sorted_key" -> Says(NonDec(Keys(W)))
    [] op.op = "starts" -> Says(Len(arg) <= Len(W) /\ Take(W, Len(arg)) = arg)
    [] op.op = "ends" -> Says(Len(arg) <= Len(W) /\ Drop(W, Len(W) - Len(arg)) = arg)
    [] op.op = "sort" -> Permuted /\ NonDec(Vals(Inside, V, 0))
    [] op.op = "sort_by" -> Permuted /\ NonDec(Neg(Vals(Inside, V, 0)))
    [] op.op = "sort_key" -> Permuted /\ NonDec(Keys(Vals(Inside, V, 0)))
    [] op.op = "sort_empty" -> Permuted              \* one of the three above, on an empty window
    [] op.op = "swap" ->         \* positions arg[1], arg[2] of the window
         IF arg[1] < Len(W) /\ arg[2] < Len(W)
         THEN o.p = 0 /\ o.d = <<>> /\ o.a = SwapAt(Ints(1, la), lo + arg[1], lo + arg[2])
         ELSE o.a = Ints(1, la) /\ o.d = <<>> /\ (arg[1] # arg[2] => o.p = 1)
=============================================================================
