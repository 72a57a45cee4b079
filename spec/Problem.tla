------------------------------ MODULE Problem ------------------------------
(***************************************************************************)
(* Linear constraints guarded by literals, and their meaning.              *)
(*                                                                         *)
(* Literals are non-zero integers, the literal 1 is true.  A problem is a  *)
(* record                                                                  *)
(*   n      number of columns (user variables)                             *)
(*   cons   sequence of constraints [l, e, r, b]: if literal l is true,    *)
(*          then (sum of elements) r b, with r in <=, <, =, >=, >          *)
(*   obj    sequence of elements of the objective (to maximise)            *)
(*   hasobj whether there is an objective                                  *)
(* An element is <<c, j, w>>: it contributes w * column j (w itself if j   *)
(* is 0) if its condition literal c is true and nothing otherwise.         *)
(***************************************************************************)
EXTENDS LinProg, SequencesExt, Integers

Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Range2(s) == {s[i] : i \in DOMAIN s}

\* ----- literals --------------------------------------------------------------
True(l, S) == l = 1 \/ l \in S
Known(l, S) == True(l, S) \/ True(-l, S)
KnownEls(els, S) == \A i \in DOMAIN els : Known(els[i][1], S)
Consistent(S) == \A l \in S : -l \notin S
Neg(S) == {-l : l \in S}

\* ----- resolving conditions --------------------------------------------------
(* Column coefficients and constant of a sequence of elements if exactly the
   literals in S are true.  (Column 0 is the constant.)                       *)
RECURSIVE SumCol(_, _, _, _)
SumCol(els, S, j, k) ==
    IF k = 0 THEN RZero
    ELSE IF els[k][2] = j /\ True(els[k][1], S)
         THEN RAdd(SumCol(els, S, j, k - 1), els[k][3])
         ELSE SumCol(els, S, j, k - 1)

Co(els, S, n) == [j \in 1..n |-> SumCol(els, S, j, Len(els))]
Cst(els, S) == SumCol(els, S, 0, Len(els))

LinOf(c, S, n) == [co |-> Co(c.e, S, n), rel |-> c.r, rhs |-> RSub(c.b, Cst(c.e, S))]

\* indices of the constraints that S asserts and whose conditions S decides
Asserted(P, S) == {i \in DOMAIN P.cons : P.cons[i].l \in S /\ KnownEls(P.cons[i].e, S)}

System(P, S) ==
    LET idx == SetToSeq(Asserted(P, S))
    IN [k \in DOMAIN idx |-> LinOf(P.cons[idx[k]], S, P.n)]

ObjCo(P, S) == Co(P.obj, S, P.n)
ObjKnown(P, S) == P.hasobj /\ KnownEls(P.obj, S)
\* columns that need a value if exactly the literals in S are true
Needed(P, S) ==
    LET used == {i \in DOMAIN P.cons : True(P.cons[i].l, S)}
    IN {j \in 1..P.n : \/ RSign(ObjCo(P, S)[j]) # 0
                       \/ \E i \in used : RSign(SumCol(P.cons[i].e, S, j, Len(P.cons[i].e))) # 0}
\* an objective that is constant under S need not be reported
ObjectiveOK(P, S, reported) ==
    IF reported THEN P.hasobj ELSE \A j \in 1..P.n : RSign(ObjCo(P, S)[j]) = 0
Best(P, S) == Sup(P.n, System(P, S), ObjCo(P, S))

(***************************************************************************)
(* Required improvement of the objective (global optimisation).            *)
(*   none   nothing is required                                            *)
(*   ge     the objective has to be at least q = c + k*e                   *)
(*   unb    the objective has to be unbounded                              *)
(***************************************************************************)
NoReq == [kind |-> "none", q |-> QZero]

(* Is there a numeric assignment for S that meets the requirement?  How far a
   strict optimum stays below the supremum c is open, so for k < 0 there are
   two readings: the weak one is implied by any improvement, the strong one
   (weak = FALSE) implies an improvement.                                     *)
Improves(P, S, req, weak) ==
    CASE req.kind = "none" -> Feasible(P.n, System(P, S))
      [] req.kind = "unb"  -> Best(P, S).kind = "unbounded"
      [] req.kind = "ge"   ->
           LET k == RSign(req.q[2])
               con == [co |-> ObjCo(P, S), rel |-> IF k > 0 THEN ">" ELSE ">=", rhs |-> req.q[1]]
               s == Best(P, S)
           IN IF k >= 0 \/ ~ weak THEN Feasible(P.n, Append(System(P, S), con))
              ELSE s.kind = "unbounded" \/ (s.kind = "finite" /\ RLe(req.q[1], s.val))

(***************************************************************************)
(* Verdict of the theory on the set S of asserted literals: an accepted    *)
(* set has to be feasible as far as the conditions are decided.            *)
(***************************************************************************)
AcceptOK(P, S, req) ==
    IF req.kind = "none" \/ ~ ObjKnown(P, S)
    THEN Feasible(P.n, System(P, S))
    ELSE Improves(P, S, req, TRUE)

(***************************************************************************)
(* A clause is a consequence of the constraints if its negation, together  *)
(* with base (literals that are true anyway), cannot be satisfied.  Conditions *)
(* the negation leaves open are split.  A clause with an auxiliary literal *)
(* (beyond the nv variables of the program) defines that literal.          *)
(***************************************************************************)
Premises(cl, base, nv) == base \cup {-l : l \in {x \in Range2(cl) : Abs(x) <= nv}}

OpenConds(P, S, req) ==
    {Abs(l) : l \in
        UNION {{P.cons[i].e[k][1] : k \in DOMAIN P.cons[i].e} : i \in {j \in DOMAIN P.cons : P.cons[j].l \in S}}
        \cup (IF req.kind # "none" THEN {P.obj[k][1] : k \in DOMAIN P.obj} ELSE {})}
    \ {Abs(l) : l \in S \cup {1}}

Completions(vars) == {{IF v \in pos THEN v ELSE -v : v \in vars} : pos \in SUBSET vars}

Refuted(P, S, req) ==
    \/ ~ Consistent(S)
    \/ ~ Feasible(P.n, System(P, S))
    \/ \A T \in Completions(OpenConds(P, S, req)) : ~ Improves(P, S \cup T, req, FALSE)

ClauseOK(P, cl, base, nv, req) ==
    \/ \E i \in DOMAIN cl : cl[i] > nv \/ cl[i] \in base
    \/ Refuted(P, Premises(cl, base, nv), req)

(***************************************************************************)
(* Values.  pt maps columns to (infinitesimally extended) rationals.       *)
(***************************************************************************)
Satisfies(P, S, pt) == \A i \in Asserted(P, S) : Holds(LinOf(P.cons[i], S, P.n), pt)

ObjValue(P, S, pt) == LinVal(ObjCo(P, S), pt, P.n)

(***************************************************************************)
(* The objective reported for a total set S of true literals: value q and  *)
(* flag bounded.  The value is the supremum; in strict mode it stays       *)
(* infinitesimally below it exactly if it is not attained.                 *)
(***************************************************************************)
OptimumOK(P, S, q, bounded) ==
    LET s == Best(P, S)
    IN CASE s.kind = "unbounded" -> ~ bounded
         [] s.kind = "finite" -> /\ bounded
                                 /\ REq(q[1], s.val)
                                 /\ IF s.attained THEN RSign(q[2]) = 0 ELSE RSign(q[2]) < 0
         [] OTHER -> FALSE

(***************************************************************************)
(* Sign of a decision on literal f, given the current values.              *)
(*   agree(l): every constraint of l holds, differ(l): none holds          *)
(***************************************************************************)
ConsOf(P, l) == {i \in DOMAIN P.cons : P.cons[i].l = l}
Plain(P, l) == \A i \in ConsOf(P, l) : \A k \in DOMAIN P.cons[i].e : P.cons[i].e[k][1] = 1
Conds(P) == UNION {{P.cons[i].e[k][1] : k \in DOMAIN P.cons[i].e} : i \in DOMAIN P.cons}
            \cup {P.obj[k][1] : k \in DOMAIN P.obj}
HoldsAt(P, i, pt) == Holds(LinOf(P.cons[i], {1}, P.n), pt)
Barely(P, i, pt) ==
    /\ P.cons[i].r \in {"<", ">"}
    /\ REq(LinVal(Co(P.cons[i].e, {1}, P.n), pt, P.n)[1], LinOf(P.cons[i], {1}, P.n).rhs)
ZeroCon(P, i) == \A j \in 1..P.n : RSign(LinOf(P.cons[i], {1}, P.n).co[j]) = 0

DecisionOK(P, mode, f, r, pt) ==
    LET pos == ConsOf(P, f)
        neg == ConsOf(P, -f)
        clear == /\ Plain(P, f) /\ Plain(P, -f)
                 /\ \A i \in pos \cup neg : ~ ZeroCon(P, i)
        \* infinitesimally satisfied strict constraints count either way
        fits(S) == S = {} \/ \A i \in S : HoldsAt(P, i, pt) /\ ~ Barely(P, i, pt)
        miss(S) == S = {} \/ \A i \in S : ~ HoldsAt(P, i, pt)
        \* the literal whose truth agrees with the values
        want == IF pos \cup neg = {} THEN f
                ELSE IF fits(pos) /\ miss(neg) THEN f
                ELSE IF miss(pos) /\ fits(neg) THEN -f
                \* a literal disagrees as soon as one of its constraints does
                ELSE IF mode = "match" /\ neg = {} /\ \E i \in pos : ~ HoldsAt(P, i, pt) THEN -f
                ELSE 0
    IN /\ r = f \/ r = -f
       /\ mode = "none" => r = f
       /\ (mode # "none" /\ clear /\ want # 0 /\ f \notin Conds(P) /\ -f \notin Conds(P)) =>
            r = IF pos \cup neg = {} THEN f
                ELSE IF mode = "match" THEN want ELSE -want
=============================================================================
