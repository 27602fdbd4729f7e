-------------------------------- MODULE Lie ---------------------------------
(***************************************************************************)
(* What must hold after an injected panic in user code (FaultOk) and after *)
(* an iterator that lied about its length (LieOk).  Both allow leaks, and  *)
(* several outcomes; they forbid corruption.  Unwind.tla shows that the    *)
(* implementation shaped step sequences satisfy FaultOk.                   *)
(***************************************************************************)
EXTENDS SeqSpec

IsLie(op) == op \in {"lie_extend", "lie_insert", "lie_from_iter", "lie_collect"}

Known(l, top) == \/ l \in 1..top
                 \/ l > CLONE /\ l - CLONE \in 1..top
RECURSIVE Base0(_)
Base0(l) == IF l > CLONE /\ l < 5000 THEN Base0(l - CLONE) ELSE l

(* every element visible or handed out is a live element that existed before, came with the
   operation, or is a clone; it is in one place; nothing was dropped twice or is both dropped and seen *)
Safe(x) ==
  LET top == x.la + x.lb + x.nf
      seen == x.a \o x.b \o x.e
  IN CASE x.c \in {0, 3} -> /\ NoDup(seen) /\ NoDup(x.d)
                     /\ RangeOf(seen) \cap RangeOf(x.d) = {}
                     /\ \A l \in RangeOf(seen) \cup RangeOf(x.d) : Known(l, top)
       [] x.c = 1 -> \A l \in RangeOf(x.a) \cup RangeOf(x.b) : Base0(l) \in 1..top
       [] OTHER -> Len(x.a) + Len(x.b) + Len(x.d) <= x.la + x.lb + 2 * x.nf + x.la
Sound(x) ==      \* the observers agree with the contents
  /\ x.o[1] = Len(x.a) /\ x.o[2] = Bool(x.a = <<>>) /\ x.o[3] = Bool(Len(x.a) = x.n)
  /\ x.o[4] = Len(x.b) /\ x.o[5] = Bool(x.b = <<>>) /\ x.o[6] = Bool(Len(x.b) = x.m)
  /\ x.o[7] = 1 /\ Len(x.a) <= x.n /\ Len(x.b) <= x.m

ReadsA(op) == op \in {"clone", "clone_from", "pool_clone", "pool_default", "it_ref", "index", "get", "first_last", "range", "sl_view", "sl_index", "sl_get", "sl_iter", "sl_owned"}
SameBase(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Base0(s[i]) = Base0(t[i])

JudgeFault(x) ==
  (IF ~Safe(x) THEN {"own"} ELSE {})
  \cup (IF ~Sound(x) THEN {"content"} ELSE {})
  \cup (IF ReadsA(x.op) /\ ~(IF x.c \in {0, 3} THEN x.a = Ints(1, x.la) ELSE IF x.c = 1 THEN SameBase(x.a, Ints(1, x.la)) ELSE Len(x.a) = x.la)
        THEN {"content"} ELSE {})
  \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
JudgeLie(x) ==
  LET old == SelectSeq(x.a, LAMBDA l : l <= x.la)
      new == SelectSeq(x.a, LAMBDA l : l > x.la + x.lb)
      oldb == SelectSeq(x.a, LAMBDA l : l > x.la /\ l <= x.la + x.lb)
      ordered == x.c = 2 \/ (NoDup(x.a) /\ Increasing(old) /\ Increasing(new) /\ oldb = <<>>)
      bsame == IF x.c = 2 THEN Len(x.b) = x.lb ELSE x.b = Ints(x.la + 1, x.la + x.lb)
  IN (IF ~Safe(x) THEN {"own"} ELSE {})
     \cup (IF ~Sound(x) \/ ~ordered \/ ~bsame THEN {"content"} ELSE {})
     \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})

(* an iterator that owns or drains A was forgotten: what it had may be lost, but not seen twice or dropped twice *)
JudgeLeak(x) ==
  LET A == Ints(1, x.la)
      front == Min2(x.x, x.la)  back == Min2(x.y, x.la - front)
      given == [q \in 1..x.x |-> IF q <= front THEN A[q] ELSE 0] \o [q \in 1..x.y |-> IF q <= back THEN A[x.la + 1 - q] ELSE 0]
      left == SubSeq(A, front + 1, x.la - back)
      Fits(e, r) == CASE x.c \in {0, 3} -> e = r [] x.c = 1 -> Base0(e) = Base0(r) [] OTHER -> (e = 0) = (r = 0)
  IN (IF \/ ~Safe(x) \/ ~Sound(x) \/ x.p # 0
         \/ Len(x.r) # Len(given) \/ \E q \in 1..Len(given) : ~Fits(given[q], x.r[q])
         \/ (x.op = "leak_own" /\ x.a # <<>>)
         \/ Len(x.a) > Len(left)
         \/ (x.c \in {0, 3} /\ ~(RangeOf(x.a) \subseteq RangeOf(left) /\ \A q \in 2..Len(x.a) : x.a[q - 1] < x.a[q]))
         \/ (IF x.c = 2 THEN Len(x.b) # x.lb ELSE ~SameBase(x.b, Ints(x.la + 1, x.la + x.lb)))
      THEN {"own"} ELSE {})
     \cup (IF x.o[8] # 1 THEN {"guard"} ELSE {})
=============================================================================
