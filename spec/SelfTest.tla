------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* The Java override of Rat and LinProg against their TLA+ definitions.    *)
(* RatDef/LinProgDef are generated copies of the two modules under other   *)
(* names, so TLC evaluates them as written (LinProgDef on top of the       *)
(* overridden Rat, which is compared separately, to avoid overflows).      *)
(* States are small random systems; the invariants compare every operator. *)
(***************************************************************************)
EXTENDS LinProg, Lang
CONSTANT N
D == INSTANCE RatDef
L == INSTANCE LinProgDef
A == INSTANCE LangDef
VARIABLES k, case

Coefs == {<<-3, 1>>, <<-2, 1>>, <<-1, 1>>, <<-1, 2>>, <<0, 1>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 3>>, <<3, 2>>}
Rhs == {<<-2, 1>>, <<-1, 1>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<5, 3>>}
Wide == {RNorm(n, d) : n \in -40..40, d \in {1, 2, 3, 5, 7, 12}}

\* (the argument keeps TLC from evaluating the random choice once only)
RandCon(n, j) == [co |-> [i \in 1..n |-> RandomElement(Coefs)], rel |-> RandomElement(Rels), rhs |-> RandomElement(Rhs)]
RandCase(j) ==
    LET n == RandomElement(1..(3 + 0 * j))
        m == RandomElement(1..(5 + 0 * j))
    IN [n |-> n, cons |-> [i \in 1..m |-> RandCon(n, i + j)],
        obj |-> [i \in 1..n |-> RandomElement(Coefs)],
        a |-> RandomElement(Wide), b |-> RandomElement(Wide),
        pt |-> [i \in 1..n |-> <<RandomElement(Wide), RandomElement(Rhs)>>]]

Init == k = 0 /\ case = RandCase(k)
Next == k < N /\ k' = k + 1 /\ case' = RandCase(k')
Spec == Init /\ [][Next]_<<k, case>>

RatAgree ==
    LET a == case.a
        b == case.b
        qa == <<a, b>>
        qb == <<b, a>>
    IN /\ RAdd(a, b) = D!RAdd(a, b)
       /\ RSub(a, b) = D!RSub(a, b)
       /\ RMul(a, b) = D!RMul(a, b)
       /\ (b[1] # 0 => RDiv(a, b) = D!RDiv(a, b))
       /\ RNeg(a) = D!RNeg(a)
       /\ RSign(a) = D!RSign(a)
       /\ RLt(a, b) = D!RLt(a, b)
       /\ RLe(a, b) = D!RLe(a, b)
       /\ REq(a, b) = D!REq(a, b)
       /\ RIsInt(a) = D!RIsInt(a)
       /\ RNum(a) = D!RNum(a)
       /\ RDen(a) = D!RDen(a)
       /\ IGcd(RNum(a), RNum(b)) = D!IGcd(D!RNum(a), D!RNum(b))
       /\ IGcd(RDen(a), RNum(b)) = D!IGcd(D!RDen(a), D!RNum(b))
       /\ RText(a) = D!RText(a)
       /\ QLe(qa, qb) = D!QLe(qa, qb)
       /\ QText(qa) = D!QText(qa)
\* strings that are or nearly are numbers
Pieces == {"", "0", "1", "-", ".", "-1", "12", "00", "7.5", ".5", "3.", "0.10", "x", " ", "\"", "9", "-0"}
DecAgree ==
    \A a, b, c \in Pieces : LET w == "\"" \o a \o b \o c \o "\""
                             IN Decimal(w) = A!Decimal(w)
DecOnce == k = 0 => DecAgree /\ Decimal("x") = A!Decimal("x") /\ Decimal("\"") = A!Decimal("\"")
LinAgree ==
    /\ Feasible(case.n, case.cons) = L!Feasible(case.n, case.cons)
    /\ Sup(case.n, case.cons, case.obj) = L!Sup(case.n, case.cons, case.obj)
    /\ \A i \in DOMAIN case.cons : Holds(case.cons[i], case.pt) = L!Holds(case.cons[i], case.pt)
\* evidence that the comparison is not vacuous
Kinds == PrintT(<<"KIND", Sup(case.n, case.cons, case.obj).kind, Sup(case.n, case.cons, case.obj).attained>>)
=============================================================================
