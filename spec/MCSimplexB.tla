---------------------------- MODULE MCSimplexB -----------------------------
\* optimisation: two variables, three rows (the last one is the objective),
\* strict and non-strict bounds, all storing modes
EXTENDS MCSimplex
R(a, b) == <<RInt(a), RInt(b)>>
Q(c, k) == <<RInt(c), RInt(k)>>
cTableaus == << <<R(1, 1), R(1, -1), R(1, 2)>>, <<R(1, 1), R(2, 1), R(-1, 1)>>, <<R(2, -1), R(1, 1), R(1, 0)>> >>
cBnds == SetToSeq(
    {[v |-> v, r |-> "le", q |-> Q(1, k)] : v \in 1..4, k \in {0, -1}}
    \cup {[v |-> v, r |-> "ge", q |-> Q(c, 0)] : v \in 1..4, c \in {-1, 1}}
    \cup {[v |-> 3, r |-> "eq", q |-> Q(0, 0)]})
cLitOf == <<2, 3, 4>>
=============================================================================
