------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* Answer sets of ground logic programs, by their definition.              *)
(*                                                                         *)
(* Atoms are integers >= 2.  A rule is a record                            *)
(*   k   "n" normal, "c" choice, "i" integrity constraint                  *)
(*   h   heads (one for "n", any number for "c", none for "i")             *)
(*   p,m positive and negative body atoms                                  *)
(* Externals are <<atom, value>> with value "true", "false" or "free".     *)
(*                                                                         *)
(* An answer set is the least model of the reduct.  It is guessed on the   *)
(* atoms the reduct depends on (choice heads, free externals, negated      *)
(* atoms) and everything else is derived.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SeqRange(q) == {q[i] : i \in DOMAIN q}

Guessed(rules, ext) ==
    UNION {SeqRange(r.m) \cup (IF r.k = "c" THEN SeqRange(r.h) ELSE {}) : r \in rules}
    \cup {x[1] : x \in {y \in ext : y[2] = "free"}}

\* what one application of the rules derives from M under the guess G
Derived(rules, ext, G, M) ==
    LET fires(r) == SeqRange(r.p) \subseteq M /\ SeqRange(r.m) \cap G = {}
    IN UNION {IF fires(r) THEN (IF r.k = "c" THEN SeqRange(r.h) \cap G ELSE SeqRange(r.h)) ELSE {}
              : r \in {x \in rules : x.k # "i"}}
       \cup {x[1] : x \in {y \in ext : y[2] = "true" \/ (y[2] = "free" /\ y[1] \in G)}}

RECURSIVE LeastModel(_, _, _, _)
LeastModel(rules, ext, G, M) ==
    LET N == M \cup Derived(rules, ext, G, M)
    IN IF N = M THEN M ELSE LeastModel(rules, ext, G, N)

Violates(rules, G, M) == \E r \in rules : r.k = "i" /\ SeqRange(r.p) \subseteq M /\ SeqRange(r.m) \cap G = {}

AnswerSets(rules, ext) ==
    LET U == Guessed(rules, ext)
        M(G) == LeastModel(rules, ext, G, {})
    IN {X \in {M(G) : G \in {H \in SUBSET U : M(H) \cap U = H}} : ~ Violates(rules, X \cap U, X)}
=============================================================================
