---------------------------- MODULE MCSimplexA -----------------------------
\* feasibility: two variables, two rows, three literals with one bound each
EXTENDS MCSimplex
R(a, b) == <<RInt(a), RInt(b)>>
Q(c) == QRat(RInt(c))
cTableaus == << <<R(1, 1), R(1, -1)>>, <<R(1, 1), R(2, 1)>>, <<R(2, -1), R(1, 1)>> >>
cBnds == SetToSeq({[v |-> v, r |-> r, q |-> Q(c)] : v \in {1, 3, 4}, r \in {"le", "ge", "eq"}, c \in {-1, 1}})
cLitOf == <<2, 3, 4>>
=============================================================================
