----------------------------- MODULE SliceSpec ------------------------------
(***************************************************************************)
(* Windows onto the contents A of a RingBuffer (Slice, SliceMut).          *)
(*                                                                         *)
(* op.s describes how the window is made: triples <<form, i, j>> applied   *)
(* one after the other (the first to the buffer, the others to the window  *)
(* made so far), then 0, then (iterators only) the script of IterSpec.     *)
(*   1 i..j   2 i..=j   3 i..   4 ..j   5 ..=j   6 ..                      *)
(*   7 left half of split_at(i)   8 right half of split_at(i)              *)
(*   9 a copy of the window       10 From<&buffer> (the whole buffer)      *)
(*   11, 12, 13: the bounds (excluded i, excluded j), (excluded i,         *)
(*   included j), (excluded i, unbounded)                                  *)
(* op.x is the index used on the window, op.y how it is accessed:          *)
(*   0 Slice   1 SliceMut   2 SliceMut turned into Slice by unmut          *)
(*   3 SliceMut turned into Slice by into                                  *)
(***************************************************************************)
EXTENDS Base, IterSpec

IsSlice(name) == name \in {"sl_view", "sl_index", "sl_get", "sl_iter", "sl_owned", "sm_index", "sm_get_mut", "sm_set", "sm_swap",
                           "sm_map_pair", "sm_iter", "sm_ends", "sm_split"}

(* one narrowing step of a window of len items: <<valid, from, to>> relative to the window *)
Narrow(len, form, i, j) ==
  CASE form = 1 -> <<i <= j /\ j <= len, i, j>>
    [] form = 2 -> <<j < len /\ i <= j + 1, i, j + 1>>
    [] form = 3 -> <<i <= len, i, len>>
    [] form = 4 -> <<j <= len, 0, j>>
    [] form = 5 -> <<j < len, 0, j + 1>>
    [] form = 7 -> <<i <= len, 0, i>>
    [] form = 8 -> <<i <= len, i, len>>
    [] form = 11 -> <<i < j /\ j <= len, i + 1, j>>
    [] form = 12 -> <<j < len /\ i <= j, i + 1, j + 1>>
    [] form = 13 -> <<i < len, i + 1, len>>
    [] OTHER -> <<TRUE, 0, len>>

(* ok, lo, hi: the window A[lo+1..hi]; s: what follows the path *)
RECURSIVE WindowFrom(_, _, _)
WindowFrom(lo, hi, s) ==
  IF Head(s) = 0 THEN [ok |-> TRUE, lo |-> lo, hi |-> hi, s |-> Tail(s)]
  ELSE LET w == Narrow(hi - lo, s[1], s[2], s[3])
       IN IF w[1] THEN WindowFrom(lo + w[2], lo + w[3], Drop(s, 3))
          ELSE [ok |-> FALSE, lo |-> 0, hi |-> 0, s |-> <<>>]
WindowOf(A, s) == WindowFrom(0, Len(A), s)

(* write the fresh labels alternately to the two halves of the window, split at position i *)
RECURSIVE Alternate(_, _, _, _)
Alternate(l, le, r, re) ==  \* positions in the order they are written
  IF l = le /\ r = re THEN <<>>
  ELSE (IF l < le THEN <<l>> ELSE <<>>) \o (IF r < re THEN <<r>> ELSE <<>>) \o
       Alternate(IF l < le THEN l + 1 ELSE l, le, IF r < re THEN r + 1 ELSE r, re)
RECURSIVE WriteAll(_, _, _)
WriteAll(A, pos, f) == IF pos = <<>> THEN A ELSE WriteAll(SetAt(A, Head(pos), Head(f)), Tail(pos), Tail(f))

SliceApply(op, f, A, B) ==
  LET w == WindowOf(A, op.s)
      len == w.hi - w.lo
      W == SubSeq(A, w.lo + 1, w.hi)
      i == op.x  j == op.y
      in == i < len
      Refuse == Panic(A, B, f)
  IN
  IF ~w.ok THEN Refuse ELSE
  CASE op.op = "sl_view" -> Ok(A, B, <<len>> \o W \o <<1>>, <<>>)      \* 1: all ways of looking agree
    [] op.op = "sl_index" -> IF in THEN Ok(A, B, <<W[i + 1]>>, <<>>) ELSE Refuse
    [] op.op = "sl_get" -> Ok(A, B, <<IF in THEN W[i + 1] ELSE 0>>, <<>>)
    [] op.op = "sl_iter" -> LET it == IterRun("ref", W, <<>>, w.s) IN Ok(A, B, it.r, <<>>)
    [] op.op = "sl_owned" -> Ok(A, B, CloneSeq(W), CloneSeq(W))         \* looked at and dropped
    [] op.op = "sm_index" -> IF in THEN Ok(SetAt(A, w.lo + i, f[1]), B, <<>>, <<W[i + 1]>>) ELSE Refuse
    [] op.op \in {"sm_get_mut", "sm_set"} -> IF in THEN Ok(SetAt(A, w.lo + i, f[1]), B, <<W[i + 1]>>, <<>>) ELSE Ok(A, B, <<0>>, f)
    [] op.op = "sm_swap" -> IF in /\ j < len THEN Ok(SwapAt(A, w.lo + i, w.lo + j), B, <<>>, <<>>)
                            ELSE IF i = j THEN Ok(A, B, <<>>, <<>>) ELSE Refuse
    [] op.op = "sm_map_pair" -> IF i = j \/ ~in \/ j >= len THEN Refuse
                                ELSE Ok(SwapAt(A, w.lo + i, w.lo + j), B, <<W[i + 1], W[j + 1]>>, <<>>)
    [] op.op = "sm_iter" -> LET it == IterRun("mut", W, f, w.s)
                            IN Ok(Take(A, w.lo) \o it.a \o Drop(A, w.hi), B, it.r, it.d)
    [] op.op = "sm_ends" -> \* overwrite the first, then the last
         IF len = 0 THEN Ok(A, B, <<0, 0>>, f)
         ELSE LET A1 == SetAt(A, w.lo, f[1]) IN Ok(SetAt(A1, w.hi - 1, f[2]), B, <<W[1], A1[w.hi]>>, <<>>)
    [] op.op = "sm_split" -> \* split at i and overwrite every item through its half
         IF i > len THEN Refuse
         ELSE LET pos == [k \in 1..len |-> w.lo + Alternate(0, i, i, len)[k]]
              IN Ok(WriteAll(A, pos, f), B, [k \in 1..len |-> A[pos[k] + 1]], <<>>)

(* --- which windows and accesses to try on a buffer of len items *)
Ends(len) == 0..(len + 1) \cup {BIG}
Paths1(len) ==
  {<<form, i, j>> : form \in {1, 2}, i, j \in Ends(len)} \cup {<<form, i, 0>> : form \in {3, 7, 8}, i \in Ends(len)}
  \cup {<<form, i, j>> : form \in {11, 12}, i, j \in Ends(len)} \cup {<<13, i, 0>> : i \in Ends(len)}
  \cup {<<form, 0, j>> : form \in {4, 5}, j \in Ends(len)} \cup {<<form, 0, 0>> : form \in {6, 9, 10}}
Good1(len) == {p \in Paths1(len) : Narrow(len, p[1], p[2], p[3])[1]}
Wide(len, p) == LET w == Narrow(len, p[1], p[2], p[3]) IN w[3] - w[2]
(* a second step after every kind of first one; first steps that are not the whole buffer *)
First(len) == {p \in Good1(len) : p[1] \in {1, 3, 7, 8} /\ Wide(len, p) < len} \cup {<<10, 0, 0>>, <<9, 0, 0>>}
Paths2(len) == {p \o q : p \in First(len), q \in {<<6, 0, 0>>}}
               \cup UNION {{p \o q : q \in {q1 \in Paths1(Wide(len, p)) : q1[1] \notin {10, 12}}} : p \in First(len)}
Win(len) == {p \in Good1(len) : p[1] \in {1, 7, 8}}     \* windows used for item access
Op2(name, x, y, nf, p, s) == Op(name, x, y, nf, p \o <<0>> \o s)

SlScripts(len) == {w \o <<t>> : w \in Seqs({1, 2}, Min2(len + 1, 3)), t \in {9, 7}} \cup {<<3, 9>>, <<4, 9>>, <<5>>, <<6>>, <<1, 3, 9>>, <<2, 4, 9>>}

SliceViews(len) ==
  {Op2("sl_view", 0, y, 0, p, <<>>) : y \in 0..3, p \in Paths1(len)} \cup {Op2("sl_view", 0, y, 0, p, <<>>) : y \in 0..1, p \in Paths2(len)}
SliceAccess(len) ==
  UNION {LET wl == Wide(len, p) IN
    {Op2(nm, i, y, 0, p, <<>>) : nm \in {"sl_index", "sl_get"}, i \in Ends(wl), y \in 0..1}
    \cup {Op2(nm, i, 0, 1, p, <<>>) : nm \in {"sm_index", "sm_get_mut", "sm_set"}, i \in Ends(wl)}
    \cup {Op2(nm, i, j, 0, p, <<>>) : nm \in {"sm_swap", "sm_map_pair"}, i, j \in Ends(wl)}
    \cup {Op2("sm_split", i, 0, wl, p, <<>>) : i \in Ends(wl)}
    \cup {Op2("sl_owned", 0, y, 0, p, <<>>) : y \in 0..1} \cup {Op2("sm_ends", 0, 0, 2, p, <<>>)}
    \cup {Op2("sl_iter", 0, y, 0, p, s) : y \in 0..1, s \in SlScripts(wl)}
    \cup {Op2("sm_iter", 0, 0, wl, p, s) : s \in SlScripts(wl)}
   : p \in Win(len)}
=============================================================================
