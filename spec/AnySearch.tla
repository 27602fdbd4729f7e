----------------------------- MODULE AnySearch ------------------------------
(***************************************************************************)
(* Binary search in a sorted list of any length: less items less than what *)
(* is searched for, then same equal ones, then greater ones.  Inv is the   *)
(* loop invariant (an inductive step, checked with Apalache); every round  *)
(* looks at an item of the list and leaves fewer; the answer is an equal   *)
(* item if there is one, else the only place where it can be inserted.     *)
(***************************************************************************)
EXTENDS AnySearchOps

VARIABLES
  \* @type: Int;
  len,
  \* @type: Int;
  less,
  \* @type: Int;
  same,
  \* @type: $rng;
  s,
  \* @type: Bool;
  done,
  \* @type: $ans;
  r,
  \* @type: Bool;
  ok

\* @type: (Int) => Int;
Cmp(x) == IF x < less THEN -1 ELSE IF x < less + same THEN 0 ELSE 1
Sorted == 0 <= less /\ 0 <= same /\ less + same <= len
LoopInv == /\ 0 <= s.base /\ 1 <= s.size /\ s.base + s.size <= len
           /\ (s.base = 0 \/ Cmp(s.base) <= 0)
           /\ (s.base + s.size = len \/ Cmp(s.base + s.size) > 0)
Right == IF r.found THEN less <= r.at /\ r.at < less + same ELSE same = 0 /\ r.at = less
Inv == Sorted /\ ok /\ (IF done THEN Right ELSE LoopInv)

Init == /\ len \in Int /\ less \in Int /\ same \in Int
        /\ \E x, y \in Int : s = [base |-> x, size |-> y]
        /\ done = FALSE /\ r = [found |-> FALSE, at |-> 0] /\ ok = TRUE
        /\ Inv
\* the loop invariant holds when the loop starts: on the whole list, if there are items
InitStart == /\ len \in Int /\ less \in Int /\ same \in Int
             /\ s = [base |-> 0, size |-> len]
             /\ done = (len = 0) /\ r = [found |-> FALSE, at |-> 0] /\ ok = TRUE
             /\ len >= 0 /\ Sorted
Next == /\ ~done /\ UNCHANGED <<len, less, same>>
        /\ IF s.size > 1
           THEN LET t == Halved(s, Cmp(Probe(s))) IN
                s' = t /\ ok' = (t.size < s.size /\ 0 <= Probe(s) /\ Probe(s) < len) /\ UNCHANGED <<done, r>>
           ELSE r' = Answer(s, Cmp(s.base)) /\ done' = TRUE /\ UNCHANGED <<s, ok>>
=============================================================================
