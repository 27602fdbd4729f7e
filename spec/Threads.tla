------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Which histories two threads can have with a handle to elements, given   *)
(* whether the handle's type may be sent (Send) and shared (Sync), and     *)
(* which of them are allowed by the element's own type.                    *)
(* A handle holds its elements by value ("own": a container, an owning     *)
(* iterator), borrows them for reading ("read": an iterator over           *)
(* references, a slice; the lender goes on reading) or for itself alone    *)
(* ("excl": a mutable iterator, a drain, a mutable slice; the lender       *)
(* waits).  Everything starts on thread 1.                                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

Forms == {"own", "read", "excl"}
Flags == {0, 1}
(* at: the thread with the handle itself; refs: threads with a reference to it *)
Start == [at |-> 1, refs |-> {}]

Succ(t, s) ==    \* t: [send, sync] of the handle's type
  {z \in {[s EXCEPT !.at = 3 - s.at]} : t.send = 1 /\ s.refs = {}}
  \cup {z \in {[s EXCEPT !.refs = {1, 2}]} : t.sync = 1 /\ s.refs = {}}      \* both threads hold a reference
  \cup {z \in {[s EXCEPT !.refs = {}]} : s.refs # {}}

(* what thread q can do to the elements in state s: 2 change, take or drop them, 1 read them, 0 nothing *)
Lender(f, q) == f = "read" /\ q = 1
Access(f, s, q) ==
  IF s.refs # {} THEN (IF q \in s.refs \/ Lender(f, q) THEN 1 ELSE 0)
  ELSE IF s.at = q THEN (IF f = "read" THEN 1 ELSE 2)
  ELSE IF Lender(f, q) THEN 1 ELSE 0

(* elements that are not Send stay with thread 1 for anything but reading;
   elements that are not Sync are never reachable from two threads at once *)
Allowed(e, f, s) == /\ e.send = 1 \/ Access(f, s, 2) < 2
                    /\ e.sync = 1 \/ Access(f, s, 1) = 0 \/ Access(f, s, 2) = 0
                    /\ (e.send = 1 \/ e.sync = 1) \/ Access(f, s, 2) = 0

RECURSIVE Closure(_, _)
Closure(t, S) == LET S2 == S \cup UNION {Succ(t, s) : s \in S} IN IF S2 = S THEN S ELSE Closure(t, S2)
Reach(t) == Closure(t, {Start})
Harmless(e, f, t) == \A s \in Reach(t) : Allowed(e, f, s)
Marks == [send : Flags, sync : Flags]
(* the one type that permits every history the elements allow and no other *)
Leq(t, u) == t.send <= u.send /\ t.sync <= u.sync
IsBest(e, f, t) == Harmless(e, f, t) /\ \A u \in Marks : Harmless(e, f, u) => Leq(u, t)
=============================================================================
