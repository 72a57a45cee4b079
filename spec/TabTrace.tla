------------------------------ MODULE TabTrace ------------------------------
(***************************************************************************)
(* Trace specification of the tableau: entries are set, then dependent and *)
(* independent variables exchanged.  Between exchanges the system has to   *)
(* have the solutions of the system before, judged on the coefficients     *)
(* read back; they also have to be the unique ones, and all views of the   *)
(* tableau have to agree.                                                  *)
(***************************************************************************)
EXTENDS Tableau, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LPX_TRACES)

VARIABLES tr, pos, s

T == Traces[tr]
Ev == T.ev[pos]

Zero == [i \in 1..T.m |-> [j \in 1..T.n |-> RZero]]
Bas0 == [i \in 1..T.m |-> i]
Non0 == [j \in 1..T.n |-> T.m + j]

Init ==
    /\ tr \in DOMAIN Traces
    /\ pos = 1
    /\ s = [A |-> Zero, bas |-> Bas0, non |-> Non0, last |-> Zero]

L(name, cond) == IF cond THEN {name} ELSE {}
Read == [i \in 1..T.m |-> [j \in 1..T.n |-> Ev.val[i][j]]]
NonZero(A) == {<<i, j, RText(A[i][j])>> : <<i, j>> \in {x \in (1..T.m) \X (1..T.n) : RSign(A[x[1]][x[2]]) # 0}}
ToSet(q) == {q[i] : i \in DOMAIN q}

Effect ==
    LET o == Ev.op
    IN CASE o[1] = "set"   -> [s EXCEPT !.A[o[2]][o[3]] = o[4]]
         [] o[1] = "clear" -> [s EXCEPT !.A = Zero, !.bas = Bas0, !.non = Non0]
         [] o[1] = "pivot" -> [s EXCEPT !.A = Exchange(s.A, o[2], o[3]),
                                        !.bas[o[2]] = s.non[o[3]], !.non[o[3]] = s.bas[o[2]]]

Step ==
    IF Ev.e = "end" THEN [s |-> s, bad |-> L("end_" \o Ev.how, Ev.how # "ok")]
    ELSE LET x == Effect
             R == Read
         IN [s |-> [x EXCEPT !.last = R],
             bad |-> L("tab_equiv", Ev.op[1] = "pivot" /\ ~ Equivalent(s.last, s.bas, s.non, R, x.bas, x.non))
                     \cup L("tab_value", \E i \in 1..T.m, j \in 1..T.n : RText(x.A[i][j]) # Ev.all[i][j])
                     \cup L("tab_rows", ToSet(Ev.rows) # NonZero(x.A) \/ Len(Ev.rows) # Cardinality(NonZero(x.A)))
                     \cup L("tab_cols", ToSet(Ev.cols) # NonZero(x.A) \/ Len(Ev.cols) # Cardinality(NonZero(x.A)))
                     \cup L("tab_size", Ev.size # Cardinality(NonZero(x.A)) \/ (Ev.empty = 1) # (NonZero(x.A) = {}))]

Next ==
    /\ pos <= Len(T.ev)
    /\ LET r == Step
       IN /\ s' = r.s
          /\ IF r.bad = {} THEN TRUE ELSE PrintT(<<"REJECT", T.id, pos, r.bad>>)
          /\ IF pos < Len(T.ev) THEN TRUE ELSE PrintT(<<"DONE", T.id>>)
    /\ pos' = pos + 1
    /\ UNCHANGED tr

Spec == Init /\ [][Next]_<<tr, pos, s>>
View == <<tr, pos>>
=============================================================================
