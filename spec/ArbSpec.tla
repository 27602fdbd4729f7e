------------------------------ MODULE ArbSpec -------------------------------
(***************************************************************************)
(* Generation of containers from bytes (the `arbitrary` feature).          *)
(*                                                                         *)
(* A container's bytes are read item by item: a byte whose lowest bit says *)
(* whether another item follows (bytes that are missing read as zero),     *)
(* then the item; never more items than the capacity.  An item that cannot *)
(* be generated fails the whole.  For SparseChunk an item is an Option of  *)
(* the element and its position is the index.                              *)
(*                                                                         *)
(* Element kinds: "u8", "u16", "unit" (no bytes), "bool", "pick" (a byte;  *)
(* 2 is refused).                                                          *)
(***************************************************************************)
EXTENDS Base

At(B, i) == IF i <= Len(B) THEN B[i] ELSE 0
(* generating an element from the bytes after the first `pos`: <<ok, value, pos afterwards>> *)
Fwd(B, pos, k) == Min2(Len(B), pos + k)
ElemAt(kind, B, pos) ==
  CASE kind = "u8" -> <<TRUE, At(B, pos + 1), Fwd(B, pos, 1)>>
    [] kind = "u16" -> <<TRUE, At(B, pos + 1) + 256 * At(B, pos + 2), Fwd(B, pos, 2)>>
    [] kind = "unit" -> <<TRUE, 0, pos>>
    [] kind = "bool" -> <<TRUE, At(B, pos + 1) % 2, Fwd(B, pos, 1)>>
    [] kind = "pick" -> <<At(B, pos + 1) # 2, At(B, pos + 1), Fwd(B, pos, 1)>>
MaxBytes(kind) == CASE kind = "u16" -> 2 [] kind = "unit" -> 0 [] OTHER -> 1
NONE == -1
ItemAt(sparse, kind, B, pos) ==
  IF ~sparse THEN ElemAt(kind, B, pos)
  ELSE IF At(B, pos + 1) % 2 = 1 THEN ElemAt(kind, B, Fwd(B, pos, 1))
  ELSE <<TRUE, NONE, Fwd(B, pos, 1)>>
MaxItem(sparse, kind) == MaxBytes(kind) + Bool(sparse)

(* [ok, items, pos] *)
RECURSIVE Items(_, _, _, _, _, _)
Items(sparse, kind, n, B, pos, items) ==
  IF Len(items) = n \/ pos >= Len(B) THEN [ok |-> TRUE, items |-> items, pos |-> pos]
  ELSE IF B[pos + 1] % 2 = 0 THEN [ok |-> TRUE, items |-> items, pos |-> pos + 1]
  ELSE LET e == ItemAt(sparse, kind, B, pos + 1) IN
       IF e[1] THEN Items(sparse, kind, n, B, e[3], Append(items, e[2])) ELSE [ok |-> FALSE, items |-> items, pos |-> e[3]]
Gen(sparse, kind, n, B) == Items(sparse, kind, n, B, 0, <<>>)

Show(sparse, items) ==           \* the contents; for sparse containers index, value, ...
  IF ~sparse THEN items
  ELSE Cat([i \in 1..Len(items) |-> IF items[i] = NONE THEN <<>> ELSE <<i - 1, items[i]>>])

(* o: p panicked, err failed, a contents, used bytes consumed *)
ArbOk(sparse, kind, n, B, o) ==
  LET g == Gen(sparse, kind, n, B) IN
  /\ o.p = 0
  /\ o.err = Bool(~g.ok)
  /\ g.ok => o.a = Show(sparse, g.items)
  (* having filled the container it may or may not look whether there was to be more *)
  /\ (g.ok /\ o.used >= 0) => o.used = g.pos \/ (Len(g.items) = n /\ o.used = Fwd(B, g.pos, 1))
(* a size hint must enclose the number of bytes generation uses (none, when there are none); hi = -1: no upper bound;
   numbers from a billion up are written as a billion *)
HintOk(sparse, kind, n, lo, hi) ==
  lo = 0 /\ (hi = -1 \/ hi >= n * (1 + MaxItem(sparse, kind)))
=============================================================================
