----------------------------- MODULE Objective -----------------------------
(***************************************************************************)
(* Global optimisation: the incumbent objective and what it requires of    *)
(* later models.  See Problem for requirements.                            *)
(***************************************************************************)
EXTENDS Problem

\* does a model with objective ob = <<value, bounded>> meet the requirement req?
Meets(req, ob) ==
    CASE req.kind = "none" -> TRUE
      [] req.kind = "unb"  -> ~ ob[2]
      [] OTHER             -> ~ ob[2] \/ QLe(req.q, ob[1])

\* the requirement after a model with objective ob
After(req, ob, step) ==
    IF ~ ob[2] THEN [kind |-> "unb", q |-> QZero]
    ELSE IF req.kind = "unb" THEN req
    ELSE [kind |-> "ge", q |-> QAdd(ob[1], step)]

\* an assignment with supremum sp that should still be found under req: it improves
Beats(sp, P, S, req, step) ==
    IF QEq(step, QZero)
    THEN sp.kind = "finite" /\ (\/ RLt(req.q[1], sp.val)
                                \/ REq(req.q[1], sp.val) /\ sp.attained /\ RSign(req.q[2]) < 0)
    ELSE RSign(req.q[2]) >= 0 /\ Improves(P, S, req, FALSE)

Unbounded(F, sup) == {S \in F : sup[S].kind = "unbounded"}
\* optimal and attained
Top(F, sup) == {S \in F : sup[S].kind = "finite" /\ sup[S].attained
                          /\ \A R \in F : sup[R].kind = "finite" /\ RLe(sup[R].val, sup[S].val)}
=============================================================================
