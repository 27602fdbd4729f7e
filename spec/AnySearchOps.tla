---------------------------- MODULE AnySearchOps ----------------------------
(***************************************************************************)
(* One round of the halving loop of binary_search (array-ops, std).        *)
(* cmp: -1, 0 or 1 as the item looked at is less, equal or greater than    *)
(* what is searched for.  Used by MCOrd on real contents and by AnySearch  *)
(* for lists of any length.                                                *)
(***************************************************************************)
EXTENDS Integers

(* @typeAlias: rng = { base: Int, size: Int }; *)
AnySearch_aliases == TRUE
\* the item a round looks at
\* @type: ($rng) => Int;
Probe(s) == s.base + s.size \div 2
\* @type: ($rng, Int) => $rng;
Halved(s, cmp) == [base |-> IF cmp > 0 THEN s.base ELSE Probe(s), size |-> s.size - s.size \div 2]
\* the answer, when one item is left
\* @typeAlias: ans = { found: Bool, at: Int };
\* @type: ($rng, Int) => $ans;
Answer(s, cmp) == [found |-> cmp = 0, at |-> IF cmp < 0 THEN s.base + 1 ELSE s.base]
=============================================================================
