------------------------------ MODULE AnySlice ------------------------------
(***************************************************************************)
(* Narrowing a window [lo, hi) of a buffer for numbers of any size: the    *)
(* saturating arithmetic of the code (Code, as in RNarrow) accepts what    *)
(* the mathematics accepts (Ideal, as in SliceSpec!Narrow) and yields the  *)
(* same window, for every largest number m > hi the arithmetic may have.   *)
(* Checked with Apalache on all states.                                    *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  m,
  \* @type: Int;
  lo,
  \* @type: Int;
  hi,
  \* @type: Int;
  form,
  \* @type: Int;
  i,
  \* @type: Int;
  j

(* @typeAlias: win = { ok: Bool, lo: Int, hi: Int }; *)
AnySlice_aliases == TRUE
\* @type: (Bool, Int, Int) => $win;
Win(ok, x, y) == [ok |-> ok, lo |-> x, hi |-> y]

\* @type: (Int, Int, Int, Int) => $win;
Ideal(len, f, x, y) ==
  CASE f = 1 -> Win(x <= y /\ y <= len, x, y)
    [] f = 2 -> Win(y < len /\ x <= y + 1, x, y + 1)
    [] f = 3 -> Win(x <= len, x, len)
    [] f = 4 -> Win(y <= len, 0, y)
    [] f = 5 -> Win(y < len, 0, y + 1)
    [] f = 7 -> Win(x <= len, 0, x)
    [] f = 8 -> Win(x <= len, x, len)
    [] f = 11 -> Win(x < y /\ y <= len, x + 1, y)
    [] f = 12 -> Win(y < len /\ x <= y, x + 1, y + 1)
    [] f = 13 -> Win(x < len, x + 1, len)
    [] OTHER -> Win(TRUE, 0, len)
\* @type: (Int, Int, Int) => Int;
SatTo(mx, x, y) == IF x + y > mx THEN mx ELSE x + y
\* @type: (Int, Int, Int, Int, Int, Int) => $win;
Code(mx, l, h, f, x, y) ==
  LET start == IF f \in {1, 2, 3} THEN SatTo(mx, l, x) ELSE IF f \in {11, 12, 13} THEN SatTo(mx, SatTo(mx, l, x), 1) ELSE l
      end == CASE f \in {1, 4, 11} -> SatTo(mx, l, y)
               [] f \in {2, 5, 12} -> SatTo(mx, SatTo(mx, l, y), 1)
               [] OTHER -> h
  IN CASE f \in {1, 2, 3, 4, 5, 6, 11, 12, 13} -> Win(~(start < l \/ end > h \/ start > end), start, end)
       [] f = 7 -> Win(x <= h - l, l, l + x)
       [] f = 8 -> Win(x <= h - l, l + x, h)
       [] OTHER -> Win(TRUE, l, h)

Init == /\ m \in Int /\ lo \in Int /\ hi \in Int /\ i \in Int /\ j \in Int
        /\ form \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
        /\ 0 <= lo /\ lo <= hi /\ hi < m /\ 0 <= i /\ i <= m /\ 0 <= j /\ j <= m
Next == UNCHANGED <<m, lo, hi, form, i, j>>
Inv == LET x == Ideal(hi - lo, form, i, j)
           y == Code(m, lo, hi, form, i, j)
       IN x.ok = y.ok /\ (x.ok => y.lo = lo + x.lo /\ y.hi = lo + x.hi /\ lo <= y.lo /\ y.lo <= y.hi /\ y.hi <= hi)
=============================================================================
