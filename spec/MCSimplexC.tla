---------------------------- MODULE MCSimplexC -----------------------------
\* literals with several bounds: three variables, two rows, four bounds
\* (two of them of the same literal)
EXTENDS MCSimplex
R(a, b, c) == <<RInt(a), RInt(b), RInt(c)>>
Q(c) == QRat(RInt(c))
cTableaus == << <<R(1, 1, 0), R(0, 1, -1)>>, <<R(1, -1, 1), R(1, 1, 0)>>, <<R(1, 1, 1), R(1, -2, 0)>> >>
cBnds == SetToSeq({[v |-> v, r |-> r, q |-> Q(c)] : v \in {4, 5}, r \in {"le", "ge", "eq"}, c \in {0, 1}}
                  \cup {[v |-> 1, r |-> "le", q |-> Q(0)], [v |-> 1, r |-> "ge", q |-> Q(1)]})
cLitOf == <<2, 2, 3, 4>>
=============================================================================
