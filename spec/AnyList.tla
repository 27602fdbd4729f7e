------------------------------ MODULE AnyList -------------------------------
(***************************************************************************)
(* What an operation on two lists A and B does to the item at index q of   *)
(* A (w = 1) or B (w = 2), and to their lengths la and lb, for numbers of  *)
(* any size: SeqSpec without the lists.  i: index or count, k: number of   *)
(* new items.  AnyLink (TLC) shows that it says the same as SeqSpec.       *)
(***************************************************************************)
EXTENDS Integers

(* @typeAlias: loc = { w: Int, q: Int }; *)
AnyList_aliases == TRUE

\* The ideal lists: where the item at index q of A (w = 1) or B (w = 2) has to be afterwards
\* @type: (Int, Int) => $loc;
At(w, q) == [w |-> w, q |-> q]
\* @type: (Str, Int, Int, Int, Int, Int, Int) => $loc;
Expect(op, la, lb, w, q, i, k) ==
  LET gone == At(0, 0)
      same == At(w, q)
      ins(x) == IF w = 1 /\ q >= x THEN At(1, q + k) ELSE same
  IN CASE w = 0 -> gone
    [] op = "push_front" -> ins(0)
    [] op \in {"push_back", "io_write"} -> same
    [] op = "pop_front" -> IF w = 2 THEN same ELSE IF q = 0 THEN gone ELSE At(1, q - 1)
    [] op = "pop_back" -> IF w = 1 /\ q = la - 1 THEN gone ELSE same
    [] op = "drop_left" -> IF w = 2 THEN same ELSE IF q < i THEN gone ELSE At(1, q - i)
    [] op = "drop_right" -> IF w = 1 /\ q >= i THEN gone ELSE same
    [] op = "clear" -> IF w = 1 THEN gone ELSE same
    [] op \in {"insert", "insert_from"} -> ins(i)
    [] op = "remove" -> IF w = 2 \/ q < i THEN same ELSE IF q = i THEN gone ELSE At(1, q - 1)
    [] op = "append" -> IF w = 2 THEN At(1, la + q) ELSE same
    [] op = "drain_from_front" -> IF w = 1 THEN same ELSE IF q < i THEN At(1, la + q) ELSE At(2, q - i)
    [] op = "drain_from_back" -> IF w = 1 THEN At(1, q + i) ELSE IF q < lb - i THEN same ELSE At(1, q - (lb - i))
    [] op = "from_front" -> IF w = 1 THEN gone ELSE IF q < i THEN At(1, q) ELSE At(2, q - i)
    [] op = "from_back" -> IF w = 1 THEN gone ELSE IF q < lb - i THEN same ELSE At(1, q - (lb - i))
    [] op = "split_off" -> IF w = 2 THEN gone ELSE IF q < i THEN same ELSE At(2, q - i)
    [] op = "exchange" -> At(3 - w, q)
    [] OTHER -> gone
\* the index at which the new items begin
\* @type: (Str, Int, Int) => Int;
NewAt(op, la, i) == CASE op = "push_front" -> 0 [] op \in {"push_back", "io_write"} -> la [] op \in {"insert", "insert_from"} -> i [] OTHER -> -1
\* the lengths afterwards
\* @type: (Str, Int, Int, Int, Int) => $loc;
Lengths(op, la, lb, i, k) ==
  CASE op \in {"push_front", "push_back", "io_write", "insert", "insert_from"} -> At(la + k, lb)
    [] op \in {"pop_front", "pop_back", "remove"} -> At(la - 1, lb)
    [] op = "drop_left" -> At(la - i, lb)
    [] op = "drop_right" -> At(i, lb)
    [] op = "clear" -> At(0, lb)
    [] op = "append" -> At(la + lb, 0)
    [] op \in {"drain_from_front", "drain_from_back"} -> At(la + i, lb - i)
    [] op \in {"from_front", "from_back"} -> At(i, lb - i)
    [] op = "split_off" -> At(i, la - i)
    [] op = "exchange" -> At(lb, la)
    [] OTHER -> At(-1, -1)
=============================================================================
