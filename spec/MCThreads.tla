----------------------------- MODULE MCThreads -----------------------------
(***************************************************************************)
(* Every element type, form of handle and marking of its type: explores    *)
(* the histories of the harmless markings, and checks that there is always *)
(* one best marking, which is the rule of Rust's own references and boxes. *)
(* With WithHarmful the harmful markings are explored too: a control that  *)
(* must fail.                                                              *)
(***************************************************************************)
EXTENDS Threads, TLC
CONSTANTS WithHarmful
VARIABLES e, f, t, s
vars == <<e, f, t, s>>
Rule(el, fm) == CASE fm = "own" -> [send |-> el.send, sync |-> el.sync]
                  [] fm = "excl" -> [send |-> el.send, sync |-> el.sync]
                  [] OTHER -> [send |-> el.sync, sync |-> el.sync]
ASSUME \A el \in Marks, fm \in Forms : \E b \in Marks : IsBest(el, fm, b) /\ b = Rule(el, fm)
Init == /\ e \in Marks /\ f \in Forms /\ t \in Marks /\ s = Start
        /\ WithHarmful \/ Leq(t, Rule(e, f))
Next == s' \in Succ(t, s) /\ UNCHANGED <<e, f, t>>
Spec == Init /\ [][Next]_vars
TypeOK == s.at \in {1, 2} /\ s.refs \subseteq {1, 2}
Safe == Allowed(e, f, s)
=============================================================================
