------------------------------ MODULE LinProg ------------------------------
(***************************************************************************)
(* Systems of linear constraints over the rationals.                       *)
(*                                                                         *)
(* A constraint is a record [co, rel, rhs]: co is a sequence of rationals  *)
(* (one per column), rel one of "<=", "<", "=", ">=", ">", rhs a rational. *)
(*                                                                         *)
(* Feasible, Sup are defined by Fourier-Motzkin elimination.  For speed    *)
(* TLC evaluates them with the Java override (a primal simplex over        *)
(* unbounded rationals, unrelated to the algorithm under test), which      *)
(* module SelfTest checks against the definitions given here.              *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

\* ----- meaning of a constraint at a point -----------------------------------
RECURSIVE LinVal(_, _, _)
\* value of co over a point of infinitesimal-extended rationals, columns 1..n
LinVal(co, pt, n) ==
    IF n = 0 THEN QZero
    ELSE QAdd(LinVal(co, pt, n - 1), QScale(co[n], pt[n]))

Rel(a, rel, b) ==
    CASE rel = "<=" -> QLe(a, b)
      [] rel = "<"  -> QLt(a, b)
      [] rel = "="  -> QEq(a, b)
      [] rel = ">=" -> QLe(b, a)
      [] rel = ">"  -> QLt(b, a)

Holds(con, pt) == Rel(LinVal(con.co, pt, Len(con.co)), con.rel, QRat(con.rhs))

\* ----- feasibility by Fourier-Motzkin ---------------------------------------
\* normal form: sum co*x <= rhs or sum co*x < rhs
LOCAL FlipCon(c) == [co |-> [i \in DOMAIN c.co |-> RNeg(c.co[i])],
                     rhs |-> RNeg(c.rhs), strict |-> c.strict]
LOCAL NormCon(c) ==
    LET b == [co |-> c.co, rhs |-> c.rhs, strict |-> FALSE]
    IN CASE c.rel = "<=" -> {b}
         [] c.rel = "<"  -> {[b EXCEPT !.strict = TRUE]}
         [] c.rel = ">=" -> {FlipCon(b)}
         [] c.rel = ">"  -> {FlipCon([b EXCEPT !.strict = TRUE])}
         [] c.rel = "="  -> {b, FlipCon(b)}

\* combine an upper bound u (co[n] > 0) and a lower bound l (co[n] < 0) on column n
LOCAL Combine(u, l, n) ==
    LET fu == RNeg(l.co[n])
        fl == u.co[n]
    IN [co |-> [i \in 1..(n - 1) |-> RAdd(RMul(fu, u.co[i]), RMul(fl, l.co[i]))],
        rhs |-> RAdd(RMul(fu, u.rhs), RMul(fl, l.rhs)),
        strict |-> u.strict \/ l.strict]

LOCAL Drop(c, n) == [c EXCEPT !.co = [i \in 1..(n - 1) |-> c.co[i]]]

RECURSIVE FMSat(_, _)
FMSat(n, cs) ==
    IF n = 0
    THEN \A c \in cs : IF c.strict THEN RSign(c.rhs) > 0 ELSE RSign(c.rhs) >= 0
    ELSE LET pos == {c \in cs : RSign(c.co[n]) > 0}
             neg == {c \in cs : RSign(c.co[n]) < 0}
             zer == {c \in cs : RSign(c.co[n]) = 0}
         IN FMSat(n - 1, {Drop(c, n) : c \in zer}
                          \cup {Combine(u, l, n) : u \in pos, l \in neg})

\* is there a rational point satisfying the sequence cons over n columns?
Feasible(n, cons) ==
    FMSat(n, UNION {NormCon(cons[i]) : i \in DOMAIN cons})

\* ----- optimisation -----------------------------------------------------------
(* The objective is added as column 1 (so it is eliminated last); what is left
   are bounds on the objective value.                                          *)
RECURSIVE FMElim(_, _)
FMElim(n, cs) ==
    IF n = 1 THEN cs
    ELSE LET pos == {c \in cs : RSign(c.co[n]) > 0}
             neg == {c \in cs : RSign(c.co[n]) < 0}
             zer == {c \in cs : RSign(c.co[n]) = 0}
         IN FMElim(n - 1, {Drop(c, n) : c \in zer}
                           \cup {Combine(u, l, n) : u \in pos, l \in neg})

\* supremum of the objective obj over the solutions of cons (n columns):
\*   [kind |-> "infeasible" | "unbounded" | "finite", val, attained]
Sup(n, cons, obj) ==
    IF ~ Feasible(n, cons) THEN [kind |-> "infeasible", val |-> RZero, attained |-> FALSE]
    ELSE
    LET shift(c) == [c EXCEPT !.co = [i \in 1..(n + 1) |-> IF i = 1 THEN RZero ELSE c.co[i - 1]]]
        defn == [co |-> [i \in 1..(n + 1) |-> IF i = 1 THEN ROne ELSE RNeg(obj[i - 1])],
                 rel |-> "=", rhs |-> RZero]
        all == UNION ({NormCon(shift(cons[i])) : i \in DOMAIN cons} \cup {NormCon(defn)})
        bnds == {c \in FMElim(n + 1, all) : RSign(c.co[1]) > 0}
        ups == {[val |-> RDiv(c.rhs, c.co[1]), strict |-> c.strict] : c \in bnds}
    IN IF ups = {} THEN [kind |-> "unbounded", val |-> RZero, attained |-> FALSE]
       ELSE LET m == CHOOSE u \in ups : \A w \in ups : RLe(u.val, w.val)
                at == ~ \E u \in ups : u.val = m.val /\ u.strict
            IN [kind |-> "finite", val |-> m.val, attained |-> at]
=============================================================================
