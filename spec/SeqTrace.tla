------------------------------ MODULE SeqTrace ------------------------------
(***************************************************************************)
(* Trace validation: every transition observed on the real containers must *)
(* be the one SeqSpec allows.  A record holds the canonical state before   *)
(* (lengths la, lb), the operation and everything observed afterwards.     *)
(* Because states are canonical (labels 1..la, la+1..la+lb), a history is  *)
(* accepted iff all its steps are; equal steps of different histories are  *)
(* judged once.                                                            *)
(*                                                                         *)
(* c: how much can be seen of an element: 0 identity and drops, 1 the      *)
(* value only (clones look like originals, drops are invisible), 2 nothing *)
(* but the number of elements and drops, 3 identity without drops.         *)
(* o: lenA, emptyA, fullA, lenB, emptyB, fullB, all views agree, memory    *)
(* around the containers untouched.   e: elements handed to the caller.    *)
(***************************************************************************)
EXTENDS SeqSpec, Lie, Json, IOUtils

CONSTANTS Block
VARIABLES blk, done

File == IOEnv.TRACE
Recs == ndJsonDeserialize(File)
TLen == Len(Recs)

RECURSIVE Strip(_)
Strip(l) == IF l > CLONE /\ l < 5000 THEN Strip(l - CLONE) ELSE l
StripSeq(s) == [i \in 1..Len(s) |-> Strip(s[i])]
SameSeq(c, s, t) == CASE c \in {0, 3} -> s = t
                      [] c = 1 -> StripSeq(s) = StripSeq(t)
                      [] OTHER -> Len(s) = Len(t)
SameDrops(c, s, t) == CASE c = 0 -> s = t [] c \in {1, 3} -> TRUE [] OTHER -> Len(s) = Len(t)

ExpObs(n, m, a, b) == <<Len(a), Bool(a = <<>>), Bool(Len(a) = n), Len(b), Bool(b = <<>>), Bool(Len(b) = m), 1, 1>>

JudgePlain(x) ==
  LET A == Ints(1, x.la)  B == Ints(x.la + 1, x.la + x.lb)
      f == Ints(x.la + x.lb + 1, x.la + x.lb + x.nf)
      e == Apply(x.k, x.n, x.m, Op(x.op, x.x, x.y, x.nf, x.s), f, A, B)
      sameA == SameSeq(x.c, x.a, e.a)
      sameB == SameSeq(x.c, x.b, e.b)
      bad == x.p # e.p
      contents == sameA /\ sameB
      results == e.p = 1 \/ SameSeq(x.c, x.r, e.r)
      drops == SameDrops(x.c, x.d, e.d)
      obs == SubSeq(x.o, 1, 7) = SubSeq(ExpObs(x.n, x.m, e.a, e.b), 1, 7)
      \* ownership: everything visible or handed out is alive, known and in one place only
      seen == x.a \o x.b \o x.e
      owned == x.c \in {1, 2} \/ (NoDup(seen) /\ \A l \in RangeOf(seen) : l < 5000 /\ ~(l \in RangeOf(x.d)))
  IN (IF bad THEN {"refuse"} ELSE {})
     \cup (IF e.p = 1 /\ ~contents THEN {"refuse"} ELSE {})
     \cup (IF ~contents \/ ~results \/ ~obs \/ bad THEN {"content"} ELSE {})
     \cup (IF (~bad /\ ~drops) \/ ~owned THEN {"own"} ELSE {})
     \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})

Judge(x) == IF x.flt # 0 THEN JudgeFault(x) ELSE IF IsLie(x.op) THEN JudgeLie(x) ELSE IF IsLeak(x.op) THEN JudgeLeak(x) ELSE JudgePlain(x)

Blocks == 0..((TLen - 1) \div Block)
Init == blk \in Blocks /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED blk
        /\ \A i \in (blk * Block + 1)..Min2(TLen, (blk + 1) * Block) :
             LET j == Judge(Recs[i]) IN j = {} \/ PrintT(<<"BAD", i, j>>)
Spec == Init /\ [][Next]_<<blk, done>>
=============================================================================
