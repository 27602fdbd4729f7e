----------------------------- MODULE InlineImpl -----------------------------
(***************************************************************************)
(* Implementation shaped model of InlineArray: len items in slots 0..len-1 *)
(* of n slots; the words of the header are modelled in InlineLayout.       *)
(***************************************************************************)
EXTENDS Base

INew(n) == [len |-> 0, n |-> n, mem |-> [i \in 0..(n - 1) |-> 0]]
IMake(n, len, first) == [len |-> len, n |-> n, mem |-> [i \in 0..(n - 1) |-> IF i < len THEN first + i ELSE 0]]
IView(c) == [i \in 1..c.len |-> c.mem[i - 1]]
IRes(p, A, B, r, d) == [p |-> p, A |-> A, B |-> B, r |-> r, d |-> d]
ICopy(c, from, to, cnt) ==
  IF cnt <= 0 THEN c
  ELSE IF Assert(from >= 0 /\ to >= 0 /\ from + cnt <= c.n /\ to + cnt <= c.n, <<"access outside the storage", c, from, to, cnt>>)
       THEN [c EXCEPT !.mem = [i \in 0..(c.n - 1) |-> IF to <= i /\ i < to + cnt THEN c.mem[from + i - to] ELSE c.mem[i]]]
       ELSE c
IPush(c, x) == [c EXCEPT !.mem[c.len] = x, !.len = @ + 1]
RECURSIVE IPushAll(_, _)
IPushAll(c, s) == IF s = <<>> THEN c ELSE IPushAll(IPush(c, s[1]), Tail(s))
IInsert(c, i, x) == [ICopy(c, i, i + 1, c.len - i) EXCEPT !.mem[i] = x, !.len = @ + 1]
IRemove(c, i) == [ICopy(c, i + 1, i, c.len - 1 - i) EXCEPT !.len = @ - 1]
ISplit(c, i) == << [c EXCEPT !.len = i], IPushAll(INew(c.n), Drop(IView(c), i)) >>

IApply(op, f, A, B) ==
  LET n == A.n  la == A.len  i == op.x  j == op.y
      va == IView(A)  vb == IView(B)
      Fail == IRes(1, A, B, <<>>, f)
      Fresh(c) == IRes(0, c, B, <<>>, va)
  IN
  CASE op.op \in {"new", "default"} -> Fresh(INew(n))
    [] op.op = "from_iter" -> IF Len(f) > n THEN Fail ELSE Fresh(IPushAll(INew(n), f))
    [] op.op \in {"clone", "clone_from"} -> IRes(0, A, IPushAll(INew(n), CloneSeq(va)), <<>>, vb)
    [] op.op = "clear" -> IRes(0, [A EXCEPT !.len = 0], B, <<>>, va)
    [] op.op = "push_back" -> IF la = n THEN Fail ELSE IRes(0, IPush(A, f[1]), B, <<>>, <<>>)
    [] op.op = "pop_back" -> IF la = 0 THEN IRes(0, A, B, <<0>>, <<>>) ELSE IRes(0, [A EXCEPT !.len = @ - 1], B, <<A.mem[la - 1]>>, <<>>)
    [] op.op = "split_off" -> IF i > la THEN Fail ELSE LET p == ISplit(A, i) IN IRes(0, p[1], p[2], <<>>, vb)
    [] op.op = "index" -> IF i >= la THEN Fail ELSE IRes(0, A, B, <<va[i + 1]>>, <<>>)
    [] op.op = "index_mut" -> IF i >= la THEN Fail ELSE IRes(0, [A EXCEPT !.mem[i] = f[1]], B, <<>>, <<A.mem[i]>>)
    [] op.op = "get" -> IRes(0, A, B, IF i < la THEN <<va[i + 1]>> ELSE <<0>>, <<>>)
    [] op.op = "get_mut" -> IF i >= la THEN IRes(0, A, B, <<0>>, f) ELSE IRes(0, [A EXCEPT !.mem[i] = f[1]], B, <<A.mem[i]>>, <<>>)
    [] op.op = "first_last" -> IRes(0, A, B, IF la = 0 THEN <<0, 0>> ELSE <<va[1], va[la]>>, <<>>)
    [] op.op = "swap" -> IF i >= la \/ j >= la THEN Fail ELSE IRes(0, [A EXCEPT !.mem[i] = A.mem[j], !.mem[j] = A.mem[i]], B, <<>>, <<>>)
    [] op.op = "insert" -> IF la = n \/ i > la THEN Fail ELSE IRes(0, IInsert(A, i, f[1]), B, <<>>, <<>>)
    [] op.op = "remove" -> IF i >= la THEN IRes(0, A, B, <<0>>, <<>>) ELSE IRes(0, IRemove(A, i), B, <<va[i + 1]>>, <<>>)
    [] op.op = "extend" -> IF Len(f) <= n - la THEN IRes(0, IPushAll(A, f), B, <<>>, <<>>)
                           ELSE IRes(1, IPushAll(A, Take(f, n - la)), B, <<>>, Drop(f, n - la))
    [] op.op = "extend_ref" -> IF Len(f) <= n - la THEN IRes(0, IPushAll(A, CloneSeq(f)), B, <<>>, f)
                           ELSE IRes(1, IPushAll(A, CloneSeq(Take(f, n - la))), B, <<>>, f \o <<CLONE + f[n - la + 1]>>)
    [] op.op = "exchange" -> IRes(0, B, A, <<>>, <<>>)
    [] op.op = "drop_all" -> IRes(0, INew(n), INew(n), <<>>, va \o vb)
=============================================================================
