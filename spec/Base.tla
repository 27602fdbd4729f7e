-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Helpers shared by all modules.                                          *)
(*                                                                         *)
(* Elements are abstract labels (positive integers).  Before each step the *)
(* labels are canonical: container A shows 1..la, container B shows        *)
(* la+1..la+lb and the elements handed to the operation are the following  *)
(* integers.  All containers are polymorphic in the element type, so by    *)
(* data independence nothing is lost by this renaming, and the state of a  *)
(* container is its length and its internal layout alone.                  *)
(* A clone of element e is written 1000+e.  0 stands for "None".           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

BIG == 1000000                  \* stands for usize::MAX in arguments
CLONE == 1000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Ints(lo, hi) == [i \in 1..Max2(0, hi - lo + 1) |-> lo + i - 1]   \* <<lo, ..., hi>>
Take(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
InsAt(s, i, t) == Take(s, i) \o t \o Drop(s, i)                  \* i is 0-based
DelAt(s, i) == Take(s, i) \o Drop(s, i + 1)
SetAt(s, i, v) == [s EXCEPT ![i + 1] = v]
SwapAt(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
CloneSeq(s) == [i \in 1..Len(s) |-> CLONE + s[i]]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Sorted(s) == SortSeq(s, <)                \* multiset of labels as a sorted sequence
Cat(ss) == FlattenSeq(ss)
Bool(b) == IF b THEN 1 ELSE 0

RECURSIVE IsSubseq(_, _)
IsSubseq(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                  ELSE IF Head(s) = Head(t) THEN IsSubseq(Tail(s), Tail(t)) ELSE IsSubseq(s, Tail(t))

(* Operation and outcome records *)
Op(name, x, y, nf, s) == [op |-> name, x |-> x, y |-> y, nf |-> nf, s |-> s]
(* p: panicked, a, b: visible contents afterwards, r: returned labels / numbers,
   d: labels of all elements dropped by the operation *)
Ok(a, b, r, d) == [p |-> 0, a |-> a, b |-> b, r |-> r, d |-> Sorted(d)]
Panic(a, b, d) == [p |-> 1, a |-> a, b |-> b, r |-> <<>>, d |-> Sorted(d)]
=============================================================================
