----------------------------- MODULE SolveTrace -----------------------------
(***************************************************************************)
(* Trace specification of complete solve calls.                            *)
(*                                                                         *)
(* A trace is what harness/solve.cc recorded while the real clingo solved  *)
(* programs with the theory: a sequence of steps, each adding rules and    *)
(* constraints to the program and then solving it.  What has to come out   *)
(* is determined by the answer sets of everything added so far (Program),  *)
(* the meaning of their constraints (Lang) and linear arithmetic           *)
(* (Problem, Objective).                                                   *)
(***************************************************************************)
EXTENDS Objective, Program, Lang, Options, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LPX_TRACES)

VARIABLES tr, pos, s, M, cols

T == Traces[tr]
\* the configuration: given, or a command line that leads to it
Opt == IF "args" \in DOMAIN T THEN OptSetAll(Defaults, T.args).o
       ELSE [Defaults EXCEPT !.strict = T.strict, !.global = T.global, !.gstep = T.gstep,
                             !.bounds = IF T.bounds THEN "changed" ELSE "none"]
\* does the front end leave out the objective?
NoObj == "noobj" \in DOMAIN T /\ T.noobj

\* columns: the variables of the trace and those it should have had
ColsOf(raw) ==
    T.cols \o SetToSeq(UNION {raw[k].may : k \in DOMAIN raw} \ Range2(T.cols))
ColOf(v) == IF v = "" THEN 0 ELSE CHOOSE j \in DOMAIN cols : cols[j] = v
AsCols(e) == [i \in DOMAIN e |-> <<e[i][1], ColOf(e[i][2]), e[i][3]>>]
Bad == [ok |-> FALSE, cons |-> <<>>, obj |-> <<>>, may |-> {}]
RawMeaning(k) ==
    LET m == Meaning(T.steps[k].atoms)
        strict == \E i \in DOMAIN T.steps[k].atoms :
                    T.steps[k].atoms[i].g # <<>> /\ T.steps[k].atoms[i].g[1] \in {"<", ">"}
    IN IF ~ m.ok \/ (strict /\ ~ Opt.strict) THEN Bad ELSE m
StepMeaning(m) ==
    [ok |-> m.ok,
     cons |-> [i \in DOMAIN m.cons |-> [m.cons[i] EXCEPT !.e = AsCols(@)]],
     obj |-> AsCols(m.obj),
     may |-> {ColOf(v) : v \in m.may}]
Point(pt) == [j \in DOMAIN cols |-> IF j \in DOMAIN pt THEN pt[j] ELSE QZero]

RECURSIVE Upto(_, _)
Upto(f, k) == IF k = 0 THEN <<>> ELSE Upto(f, k - 1) \o f[k]
ProblemAt(k) ==
    [n |-> Len(cols),
     cons |-> Upto([i \in DOMAIN M |-> M[i].cons], k),
     obj |-> Upto([i \in DOMAIN M |-> M[i].obj], k),
     hasobj |-> \E i \in 1..k : M[i].obj # <<>>]
MaybeAt(k) == UNION {M[i].may : i \in 1..k}
Proper(k) == \A i \in 1..k : M[i].ok
RulesAt(k) == UNION {Range2(T.steps[i].rules) : i \in 1..k}
OrdAt(k) == UNION {Range2(T.steps[i].ord) : i \in 1..k}      \* <<name, atom>>
AtomsAt(k) == UNION {Range2(T.steps[i].all) : i \in 1..k}    \* all atoms

(***************************************************************************)
(* How the host is asked to solve: all answer sets (enum), the union or    *)
(* the intersection of their atoms (brave, cautious), one answer set for   *)
(* each choice of projected atoms (project), those with the least costs    *)
(* (opt).                                                                  *)
(***************************************************************************)
Mode == IF "mode" \in DOMAIN T THEN T.mode ELSE "enum"
Consequences == Mode \in {"brave", "cautious"}
ProjAt(k) == UNION {Range2(T.steps[i].proj) : i \in 1..k}
Proj(S, k) == IF Mode = "project" THEN S \cap ProjAt(k) ELSE S
\* weak constraints <<weight, priority, literal>>
WeakAt(k) == Upto([i \in DOMAIN T.steps |-> T.steps[i].weak], k)
RECURSIVE SumWeak(_, _, _)
SumWeak(W, S, p) ==
    IF W = <<>> THEN 0
    ELSE (IF W[1][2] = p /\ W[1][3] \in S THEN W[1][1] ELSE 0) + SumWeak(Tail(W), S, p)
\* costs in order of decreasing priority
Costs(S, k) == [p \in 1..3 |-> SumWeak(WeakAt(k), S, 4 - p)]
Cheaper(c, d) == \E p \in 1..3 : c[p] < d[p] /\ \A q \in 1..(p - 1) : c[q] = d[q]
Cheapest(F, k) == {S \in F : ~ \E S2 \in F : Cheaper(Costs(S2, k), Costs(S, k))}

\* an answer set as a set of true literals
Lits(X, k) == {1} \cup X \cup {-a : a \in AtomsAt(k) \ X}

(***************************************************************************)
(* The answer sets of step k that satisfy the assumptions and whose        *)
(* constraints are feasible.                                               *)
(***************************************************************************)
Expected(k, P) ==
    LET A == {Lits(X, k) : X \in AnswerSets(RulesAt(k), Range2(T.steps[k].ext))}
    IN {S \in A : /\ \A l \in Range2(T.steps[k].assume) : l \in S
                  /\ Feasible(P.n, System(P, S))}

Init ==
    /\ tr \in DOMAIN Traces
    /\ pos = 1
    /\ \E raw \in {[k \in DOMAIN T.steps |-> RawMeaning(k)]} :
         /\ cols = ColsOf(raw)
         /\ M = [k \in DOMAIN raw |-> StepMeaning(raw[k])]
    /\ s = [step |-> 0, F |-> {}, P |-> <<>>, models |-> <<>>, n |-> 0, ap |-> 0, ab |-> 0, done |-> FALSE, dead |-> FALSE, idx |-> {}]

Ev == T.ev[pos]
P == s.P
Once(q) == Cardinality(Range2(q)) = Len(q)
\* pairs <<variable, index>> reported so far: indices do not change
Stable(ix) == \A x, y \in ix : (x[1] = y[1]) = (x[2] = y[2])
L(name, cond) == IF cond THEN {name} ELSE {}
Global == Opt.global /\ P.hasobj

\* options given to a front end
DoCli == [s |-> s, bad |-> L("o_accept", Ev.ok # OptLine(Defaults, T.args).ok)]
DoHelp == [s |-> s, bad |-> L("o_help", ~ Ev.ok \/ ~ OptHelpOK(Ev.opts))]
DoScript == [s |-> s, bad |-> L("o_script", ~ Ev.ok)]
DoVersion == [s |-> s, bad |-> L("o_version", ~ Ev.ok \/ Len(Ev.header) # 1 \/ Ev.text # Ev.header)]

DoStart ==
    LET k == Ev.step
        pb == ProblemAt(k)
        ok == Proper(k)
    IN [s |-> [s EXCEPT !.step = k, !.P = pb, !.models = <<>>, !.done = FALSE, !.n = @ + 1,
                        !.F = IF ok THEN Expected(k, pb) ELSE {}],
        bad |-> {}]

OrdOf(S) == {x[1] : x \in {y \in OrdAt(s.step) : y[2] \in S}}
\* requirement of the models a thread has reported
RECURSIVE ReqAfter(_, _)
ReqAfter(t, i) ==
    IF i = 0 THEN NoReq
    ELSE IF t >= 0 /\ s.models[i].t # t THEN ReqAfter(t, i - 1)
    ELSE After(ReqAfter(t, i - 1), s.models[i].ob, Opt.gstep)

\* the best objective of all models, as a requirement
BestReq ==
    IF s.models = <<>> THEN NoReq
    ELSE IF \E i \in DOMAIN s.models : ~ s.models[i].ob[2] THEN [kind |-> "unb", q |-> QZero]
    ELSE LET b == CHOOSE i \in DOMAIN s.models :
                    \A j \in DOMAIN s.models : QLe(s.models[j].ob[1], s.models[i].ob[1])
         IN [kind |-> "ge", q |-> QAdd(s.models[b].ob[1], Opt.gstep)]

\* a report of consequences belongs to some answer set
DoConsequences ==
    LET val(S) == /\ Satisfies(P, S, Point(Ev.pt))
                  /\ Needed(P, S) \subseteq Range2(Ev.extcols)
                  /\ ObjectiveOK(P, S, Ev.obj # <<>>)
                  /\ Ev.obj # <<>> => OptimumOK(P, S, Ev.obj[1][1], Ev.obj[1][2])
        some == UNION {OrdOf(S) : S \in s.F}
        every == {a \in some : \A S \in s.F : a \in OrdOf(S)}
    IN IF ~ Proper(s.step) THEN [s |-> s, bad |-> {"m_malformed"}]
       ELSE [s |-> [s EXCEPT !.models = Append(@, [t |-> Ev.t, S |-> {}, ob |-> <<QZero, TRUE>>, plain |-> TRUE,
                                                   a |-> Range2(Ev.atoms), pr |-> FALSE])],
             bad |-> IF s.F = {} THEN {"invented"}
                     ELSE L("m_sat", ~ \E S \in s.F : val(S))
                          \cup L("h_brave", Mode = "brave" /\ ~ Range2(Ev.atoms) \subseteq some)
                          \cup L("h_cautious", Mode = "cautious" /\ ~ every \subseteq Range2(Ev.atoms))
                          \cup L("m_api", ~ Ev.apisame \/ Ev.bogus # <<>>)]

DoModel ==
    LET fit == {S \in s.F : OrdOf(S) = Range2(Ev.atoms)}
        pr == "pr" \in DOMAIN Ev /\ Ev.pr
        has == Ev.obj # <<>> \/ (NoObj /\ P.hasobj)
        ob == IF Ev.obj # <<>> THEN Ev.obj[1]
              ELSE IF has /\ fit # {}
              THEN LET S == CHOOSE X \in fit : TRUE
                   IN <<ObjValue(P, S, Point(Ev.pt)), Best(P, S).kind # "unbounded">>
              ELSE <<QZero, TRUE>>
        req == ReqAfter(IF T.threads = 1 THEN -1 ELSE Ev.t, Len(s.models))
        common == L("m_api", ~ Ev.apisame \/ Ev.bogus # <<>>)
                  \cup L("m_index", ~ Stable(s.idx \cup Range2(Ev.idx)))
                  \cup L("m_text", \E i \in DOMAIN Ev.texts : QText(Ev.texts[i][2]) # Ev.texts[i][1])
                  \cup L("m_text", Ev.objtext # "" /\ QText(ob[1]) # Ev.objtext)
                  \cup L("m_objset", (Ev.obj # <<>> /\ ~ P.hasobj) \/ Len(Ev.obj) > 1)
    IN IF ~ Proper(s.step) THEN [s |-> s, bad |-> {"m_malformed"}]
       ELSE IF fit = {}
       THEN [s |-> [s EXCEPT !.idx = @ \cup Range2(Ev.idx), !.models = Append(@, [t |-> Ev.t, S |-> {}, ob |-> ob, plain |-> ~ has, a |-> {}, pr |-> pr])],
             bad |-> {"invented"} \cup common]
       ELSE LET S == CHOOSE X \in fit : TRUE
            IN [s |-> [s EXCEPT !.idx = @ \cup Range2(Ev.idx), !.models = Append(@, [t |-> Ev.t, S |-> S, ob |-> ob, plain |-> ~ has, a |-> Range2(Ev.atoms), pr |-> pr])],
                bad |-> common
                        \cup L("m_vars", ~ (Needed(P, S) \subseteq Range2(Ev.extcols)
                                            /\ Range2(Ev.extcols) \subseteq MaybeAt(s.step)
                                            /\ Once(Ev.extcols)))
                        \cup L("m_sat", ~ Satisfies(P, S, Point(Ev.pt)))
                        \* the first of the optimal answer sets is reported once more as such
                        \cup L("m_dup", \E i \in DOMAIN s.models :
                                           /\ Proj(s.models[i].S, s.step) = Proj(S, s.step)
                                           /\ Mode = "opt" => s.models[i].pr = pr)
                        \cup L("h_opt", Mode = "opt" /\ pr /\ S \notin Cheapest(s.F, s.step))
                        \cup L("m_objset", IF NoObj THEN Ev.obj # <<>> ELSE ~ ObjectiveOK(P, S, Ev.obj # <<>>))
                        \cup L("m_opt", P.hasobj /\ has /\ ~ OptimumOK(P, S, ob[1], ob[2]))
                        \cup L("m_attain", P.hasobj /\ Ev.obj # <<>> /\ ob[2] /\ ~ QEq(ObjValue(P, S, Point(Ev.pt)), ob[1]))
                        \cup L("m_improve", Global /\ has /\ ~ Meets(req, ob))]

\* all answer sets, or what is asked for instead
Missed(found) ==
    CASE Mode = "enum" -> L("incomplete", ~ (s.F \subseteq found))
      [] Mode = "project" -> L("h_project", ~ ({Proj(S, s.step) : S \in s.F} \subseteq {Proj(S, s.step) : S \in found}))
      \* without costs that could differ, no answer set is reported as optimal
      [] Mode = "opt" -> LET pr == {s.models[i].S : i \in {j \in DOMAIN s.models : s.models[j].pr}}
                         IN L("h_opt", ~ (Cheapest(s.F, s.step) \subseteq IF pr = {} THEN found ELSE pr))
      [] s.models = <<>> -> {}
      [] Mode = "brave" -> L("h_brave", s.models[Len(s.models)].a # UNION {OrdOf(S) : S \in s.F})
      [] OTHER -> L("h_cautious", \E a \in s.models[Len(s.models)].a : \E S \in s.F : a \notin OrdOf(S))

DoDone ==
    LET found == {s.models[i].S : i \in DOMAIN s.models}
        sup == [S \in s.F |-> Best(P, S)]
        req == BestReq
        unb == Unbounded(s.F, sup)
        top == Top(s.F, sup)
    IN [s |-> [s EXCEPT !.done = TRUE, !.dead = @ \/ (s.models = <<>> /\ Proper(s.step))],
        bad |-> L("verdict", Ev.sat = 2 \/ (Ev.sat = 1) # (s.models # <<>>)
                             \/ (s.models = <<>> /\ s.F # {})
                             \/ ("lim" \in DOMAIN Ev /\ Ev.lim = 0 /\ ~ Ev.all) )
                \cup IF ~ Ev.all THEN {}
                     ELSE IF ~ Global \/ \E i \in DOMAIN s.models : s.models[i].plain THEN Missed(found)
                     ELSE L("g_none", s.F # {} /\ found = {})
                          \cup L("g_unb", ~ (unb \subseteq found))
                          \cup L("g_opt", unb = {} /\ req.kind = "ge" /\ \E S \in s.F : Beats(sup[S], P, S, req, Opt.gstep))
                          \cup L("g_ties", unb = {} /\ QEq(Opt.gstep, QZero) /\ ~ (top \subseteq found))]

DoStats ==
    [s |-> [s EXCEPT !.ap = Ev.ap, !.ab = Ev.ab],
     bad |-> L("st_off", Opt.bounds = "none" /\ Ev.sb # 0)
             \cup L("st_pivots", Ev.pv > 0 /\ Ev.pv # Ev.sp)    \* pivots that were counted
             \cup L("st_accu", Ev.ap # s.ap + Ev.sp \/ Ev.ab # s.ab + Ev.sb)
             \cup L("st_range", Ev.sp < 0 \/ Ev.sb < 0 \/ ~ Ev.ok)]

\* a malformed step is refused with a message, while grounding or solving
DoError ==
    [s |-> s, bad |-> L("refused", Proper(Ev.step)) \cup L("nomsg", Ev.msg = "")]

\* all steps were solved unless one was malformed (nobody looks at what is
\* added to a program without solutions)
DoEnd ==
    [s |-> s,
     bad |-> IF Ev.how # "ok" THEN {"end_" \o Ev.how}
             ELSE L("accepted", s.step > 0 /\ s.done /\ ~ s.dead /\ ~ Proper(s.step))]

Step ==
    CASE Ev.e = "cli"   -> DoCli
      [] Ev.e = "help"  -> DoHelp
      [] Ev.e = "version" -> DoVersion
      [] Ev.e = "script" -> DoScript
      [] Ev.e = "start" -> DoStart
      [] Ev.e = "model" -> IF Consequences THEN DoConsequences ELSE DoModel
      [] Ev.e = "done"  -> DoDone
      [] Ev.e = "stats" -> DoStats
      [] Ev.e = "error" -> DoError
      [] Ev.e = "end"   -> DoEnd
      [] OTHER          -> [s |-> s, bad |-> {}]

Next ==
    /\ pos <= Len(T.ev)
    /\ LET r == Step
       IN /\ s' = r.s
          /\ IF r.bad = {} THEN TRUE ELSE PrintT(<<"REJECT", T.id, pos, r.bad>>)
          /\ IF pos < Len(T.ev) THEN TRUE ELSE PrintT(<<"DONE", T.id>>)
    /\ pos' = pos + 1
    /\ UNCHANGED <<tr, M, cols>>

Spec == Init /\ [][Next]_<<tr, pos, s, M, cols>>
View == <<tr, pos>>
=============================================================================
