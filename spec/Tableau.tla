------------------------------ MODULE Tableau -------------------------------
(***************************************************************************)
(* Systems of equations y_i = sum_j A[i][j] * x_j and the exchange of a    *)
(* dependent variable y_i with an independent variable x_j.                *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets

Rows(A) == DOMAIN A
Cols(A) == DOMAIN A[1]

RECURSIVE Dot(_, _, _)
Dot(r, x, j) == IF j = 0 THEN RZero ELSE RAdd(Dot(r, x, j - 1), RMul(r[j], x[j]))

\* the dependent values for given independent values
Image(A, x) == [i \in Rows(A) |-> Dot(A[i], x, Len(x))]

\* what the exchange of y_i and x_j has to compute
Exchange(A, i, j) ==
    LET p == A[i][j]
        row == [l \in Cols(A) |-> IF l = j THEN RDiv(ROne, p) ELSE RNeg(RDiv(A[i][l], p))]
    IN [k \in Rows(A) |->
          IF k = i THEN row
          ELSE [l \in Cols(A) |-> IF l = j THEN RMul(A[k][j], row[j])
                                  ELSE RAdd(A[k][l], RMul(A[k][j], row[l]))]]

\* A system assigns names to its variables: bas and non are sequences of the
\* dependent and independent variables.  A point is a function from names.
Unit(n, j) == [l \in 1..n |-> IF l = j THEN ROne ELSE RZero]
PointOf(A, bas, non, x) ==
    [v \in {bas[i] : i \in DOMAIN bas} \cup {non[j] : j \in DOMAIN non} |->
        IF \E j \in DOMAIN non : non[j] = v THEN x[CHOOSE j \in DOMAIN non : non[j] = v]
        ELSE Image(A, x)[CHOOSE i \in DOMAIN bas : bas[i] = v]]
\* a basis of the space of points that satisfy the system
\* (as a sequence: TLC cannot order big numbers in a set)
Solutions(A, bas, non) == [j \in DOMAIN non |-> PointOf(A, bas, non, Unit(Len(non), j))]
\* the points satisfy a system
SolvedBy(A, bas, non, pts) ==
    \A q \in DOMAIN pts :
      LET p == pts[q]
          img == Image(A, [j \in DOMAIN non |-> p[non[j]]])
      IN \A i \in DOMAIN bas : REq(img[i], p[bas[i]])
\* Two systems over the same variables with the same number of independent
\* variables have the same solutions iff one's basis solves the other.
Equivalent(A, basA, nonA, B, basB, nonB) == SolvedBy(B, basB, nonB, Solutions(A, basA, nonA))
=============================================================================
