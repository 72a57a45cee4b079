----------------------------- MODULE HostTrace -----------------------------
(***************************************************************************)
(* Trace specification of the theory at its interface with the solver.     *)
(*                                                                         *)
(* A trace is what harness/host.cc recorded while it drove the real theory *)
(* through propagate, check, undo, decide and model callbacks, or what     *)
(* harness/interpose.cc recorded between the theory and the real clingo    *)
(* (T.recorded; completeness is then the business of SolveTrace).  The state  *)
(* kept here is the abstract state of the theory: the literals delivered   *)
(* per thread and level, the last values it exposed, the incumbent         *)
(* objective, the models so far and the counters.  Every event is one      *)
(* action; it computes the set of violated requirements (labels).  A trace *)
(* is a behaviour of the theory iff no label is ever produced.             *)
(***************************************************************************)
EXTENDS Objective, Lang, Options, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LPX_TRACES)

VARIABLES
    tr, pos,    \* trace and position in it
    s,          \* abstract state of the theory
    M, cols     \* meaning of the atoms of each step, variables (constant along a trace)

T == Traces[tr]
Threads == 1..T.threads

(***************************************************************************)
(* The problem after step k: everything of the first k steps accumulates.  *)
(* What the atoms mean is defined in module Lang; columns are positions in *)
(* cols.                                                                   *)
(***************************************************************************)
\* columns: the variables of the trace and those it should have had
ColsOf(raw) ==
    T.cols \o SetToSeq(UNION {raw[k].may : k \in DOMAIN raw} \ Range2(T.cols))
ColOf(v) == IF v = "" THEN 0 ELSE CHOOSE j \in DOMAIN cols : cols[j] = v
AsCols(e) == [i \in DOMAIN e |-> <<e[i][1], ColOf(e[i][2]), e[i][3]>>]
RawMeaning(k) == Meaning(T.steps[k].atoms)
\* uses a strict relation
StrictAtoms(atoms) == \E i \in DOMAIN atoms : atoms[i].g # <<>> /\ atoms[i].g[1] \in {"<", ">"}
StepMeaning(m) ==
    [ok |-> m.ok,
     strict |-> FALSE,
     cons |-> [i \in DOMAIN m.cons |-> [m.cons[i] EXCEPT !.e = AsCols(@)]],
     obj |-> AsCols(m.obj),
     may |-> {ColOf(v) : v \in m.may}]
Point(pt) == [j \in DOMAIN cols |-> IF j \in DOMAIN pt THEN pt[j] ELSE QZero]

RECURSIVE Upto(_, _)
Upto(f, k) == IF k = 0 THEN <<>> ELSE Upto(f, k - 1) \o f[k]
ProblemAt(k) ==
    [n |-> Len(cols),
     cons |-> Upto([i \in DOMAIN M |-> M[i].cons], k),
     obj |-> Upto([i \in DOMAIN M |-> M[i].obj], k),
     hasobj |-> \E i \in 1..k : M[i].obj # <<>>]
ClausesAt(k) == Upto([i \in DOMAIN T.steps |-> T.steps[i].clauses], k)
MaybeAt(k) == UNION {M[i].may : i \in 1..k}
\* all atoms of the first k steps denote linear constraints
Proper(k) == \A i \in 1..k : M[i].ok /\ (M[i].strict => s.opts.strict)
NvAt(k) == T.steps[k].nv

Zero == [j \in DOMAIN cols |-> QZero]
Start(k) ==
    [seen |-> [t \in Threads |-> <<>>],     \* <<level, literals>> in order of delivery
     dirty |-> [t \in Threads |-> FALSE],   \* refused and not yet backtracked
     v |-> [t \in Threads |-> Zero],
     aux |-> [t \in Threads |-> <<>>],      \* <<literal, requirement>>
     best |-> NoReq,                        \* improvement required over the incumbent
     hist |-> <<NoReq>>,                    \* ... and after each model before
     models |-> [t \in Threads |-> {}],
     plain |-> FALSE,                       \* a model came without objective
     lo |-> 0, hi |-> 0,                    \* bounds on the number of propagated bounds
     step |-> k, P |-> IF k = 0 THEN <<>> ELSE ProblemAt(k)]

Init ==
    /\ tr \in DOMAIN Traces
    /\ pos = 1
    /\ \E raw \in {[k \in DOMAIN T.steps |-> RawMeaning(k)]} :
         /\ cols = ColsOf(raw)
         /\ M = [k \in DOMAIN raw |-> [StepMeaning(raw[k]) EXCEPT !.strict = StrictAtoms(T.steps[k].atoms)]]
    /\ s = Start(0) @@ [facts |-> {}, ap |-> 0, ab |-> 0, idx |-> {}, opts |-> T.opts]

Ev == T.ev[pos]
Th == Ev.t + 1
P == s.P
NV == NvAt(s.step)

LitsUpto(t, lv) == UNION {Range2(s.seen[t][i][2]) : i \in {j \in DOMAIN s.seen[t] : s.seen[t][j][1] <= lv}}
AllSeen(t) == LitsUpto(t, 100000)
\* requirement enforced by the auxiliary literals in S (the last one is the strongest)
ReqOf(t, S) ==
    LET on == {i \in DOMAIN s.aux[t] : s.aux[t][i][1] \in S /\ s.aux[t][i][2].kind = "ge"}
    IN IF on = {} THEN NoReq
       ELSE s.aux[t][CHOOSE i \in on : \A j \in on : j <= i][2]
Prog(S) == {l \in S : Abs(l) <= NV}

\* The requirement a thread has to know: with several threads, others may report
\* models while it works; g is the number of models reported before it started.
Heard == IF "g" \in DOMAIN Ev THEN s.hist[Ev.g + 1] ELSE s.best
\* the requirement only grows
Stronger(a, b) == IF a.kind = "unb" \/ b.kind = "none" \/ (a.kind = "ge" /\ b.kind = "ge" /\ QLe(b.q, a.q)) THEN a ELSE b

Clauses == SelectSeq(Ev.calls, LAMBDA c : "c" \in DOMAIN c)
BadClauses(base, req) ==
    {i \in DOMAIN Clauses : ~ ClauseOK(P, Clauses[i].c, base, NV, req)}

Once(q) == Cardinality(Range2(q)) = Len(q)
\* pairs <<variable, index>> reported so far: indices do not change
Stable(ix) == \A x, y \in ix : (x[1] = y[1]) = (x[2] = y[2])
L(name, cond) == IF cond THEN {name} ELSE {}

(***************************************************************************)
(* Effects of options, checked in scenarios built to show them.            *)
(***************************************************************************)
Probe(kind) == "probe" \in DOMAIN T /\ T.probe = kind
Within(c, S) == Range2(c) \subseteq S

\* constraints that bound a single variable
OneVar(pb, i) == Cardinality({j \in 1..pb.n : RSign(LinOf(pb.cons[i], {1}, pb.n).co[j]) # 0}) = 1
Clash(pb, i, j) ==
    OneVar(pb, i) /\ OneVar(pb, j)
    /\ ~ Feasible(pb.n, <<LinOf(pb.cons[i], {1}, pb.n), LinOf(pb.cons[j], {1}, pb.n)>>)
\* propagate-conflicts: binary clauses for conflicting bounds on a variable
ConfOK(pb, calls) ==
    \A i, j \in DOMAIN pb.cons : i < j /\ pb.cons[i].l # pb.cons[j].l /\ Clash(pb, i, j) =>
        (s.opts.conflicts = \E k \in DOMAIN calls : Within(calls[k].c, {-pb.cons[i].l, -pb.cons[j].l}))

\* propagate-bounds: the bounds 2 and 3 contradict the row 4, which becomes known
\* always, or if the values of the row change
BoundsOK(before, now, v) ==
    (2 \in now /\ 3 \in now /\ ~ (2 \in before /\ 3 \in before)) =>
        ((\E i \in DOMAIN Clauses : Within(Clauses[i].c, {-2, -3, -4}) /\ -4 \in Range2(Clauses[i].c))
         = (s.opts.bounds = "full" \/ (s.opts.bounds = "changed" /\ \E j \in DOMAIN v : ~ QEq(v[j], s.v[1][j]))))

\* store: does backtracking keep the values of a satisfiable fixpoint?
StoreOK(v) ==
    LET checked == T.ev[pos - 1].e \in {"check", "model"}
        keep == s.opts.store = "partial" \/ (s.opts.store = "total" /\ checked)
    IN \A j \in DOMAIN v : QEq(v[j], IF keep THEN s.v[1][j] ELSE QZero)

(***************************************************************************)
(* Events.  Each returns [s |-> next state, bad |-> labels].               *)
(***************************************************************************)
DoOpt ==
    LET r == OptSet(s.opts, Ev.key, Ev.val)
    IN [s |-> [s EXCEPT !.opts = r.o],
        bad |-> L("o_accept", Ev.ok # r.ok) \cup L("o_msg", ~ Ev.ok /\ Ev.msg = "")]

DoValid ==
    [s |-> s, bad |-> L("o_accept", Ev.ok # OptValid(s.opts)) \cup L("o_msg", ~ Ev.ok /\ Ev.msg = "")]

DoCli ==
    LET r == OptLine(s.opts, Ev.args)
    IN [s |-> [s EXCEPT !.opts = r.o],
        bad |-> L("o_accept", Ev.ok # r.ok) \cup L("o_exit", ~ Ev.ok /\ ~ r.parsed /\ Ev.rc = 0)]

Enter(k) ==
        Start(k) @@ [facts |-> s.facts \cup
                              (IF s.step = 0 THEN {}
                               ELSE {l \in UNION {LitsUpto(t, 0) : t \in Threads} : Abs(l) <= NvAt(s.step)}),
                           ap |-> s.ap, ab |-> s.ab, idx |-> s.idx, opts |-> s.opts]

DoSkip == [s |-> Enter(Ev.step), bad |-> {}]

DoInit ==
    LET k == Ev.step
        st == Enter(k)
        base == Range2(Ev.fix)
        pb == ProblemAt(k)
    IN [s |-> st,
        bad |-> L("accepted", Ev.ok /\ ~ Proper(k)) \cup
                IF ~ Ev.ok \/ ~ Proper(k) THEN {} ELSE
                L("init_clause", \E i \in DOMAIN Ev.calls :
                                    ~ ClauseOK(pb, Ev.calls[i].c, base, NvAt(k), NoReq))
                \cup L("o_conf", Probe("conf") /\ ~ ConfOK(pb, Ev.calls))
                \cup L("decide_off", s.opts.select # "none" /\ ~ Ev.dec)
                \cup L("vars", ~ (Range2(Ev.cols) \subseteq MaybeAt(k)
                                  /\ Once(Ev.cols)))]

DoProp ==
    LET t == Th
        st1 == [s EXCEPT !.seen[t] = Append(@, <<Ev.lv, Ev.ch>>)]
        S == AllSeen(t) \cup Range2(Ev.ch)
        base == {1} \cup Range2(Ev.z) \cup LitsUpto(t, 0)
        \* facts of earlier steps arrive with the first check
        acc == ~ Ev.ref /\ (s.step = 1 \/ s.facts \subseteq S)
    IN [s |-> [st1 EXCEPT !.dirty[t] = @ \/ Ev.ref,
                          !.v[t] = Point(Ev.v),
                          !.lo = @ + Cardinality({i \in DOMAIN Clauses : Clauses[i].f > 0}),
                          !.hi = @ + Len(Clauses)],
        bad |-> L("clause", BadClauses(Prog(base), s.best) # {})
                \cup L("contract", Ev.bad)
                \cup L("accept", acc /\ ~ s.dirty[t] /\ ~ AcceptOK(P, Prog(S), ReqOf(t, S)))
                \cup L("values", acc /\ ~ s.dirty[t] /\ ~ Satisfies(P, Prog(S), Point(Ev.v)))
                \cup L("nobounds", s.opts.bounds = "none" /\ \E i \in DOMAIN Clauses : Clauses[i].f > 0)
                \cup L("o_bounds", Probe("bounds") /\ ~ BoundsOK(AllSeen(t), S, Point(Ev.v)))]

DoCheck ==
    LET t == Th
        fx == IF Ev.lv = 0 /\ s.step > 1 THEN s.facts ELSE {}
        st1 == IF fx = {} \/ fx \subseteq AllSeen(t) THEN s
               ELSE [s EXCEPT !.seen[t] = Append(@, <<0, SetToSeq(fx)>>)]
        req == Heard
        new == [i \in DOMAIN SelectSeq(Ev.calls, LAMBDA c : "a" \in DOMAIN c) |->
                  <<SelectSeq(Ev.calls, LAMBDA c : "a" \in DOMAIN c)[i].a, req>>]
        S == AllSeen(t) \cup fx \cup (IF Ev.tot THEN Range2(Ev.asg) ELSE {})
        base == {1} \cup Range2(Ev.z) \cup LitsUpto(t, 0) \cup fx
        acc == ~ Ev.ref /\ ~ s.dirty[t]
        plain == {i \in DOMAIN Clauses : \A j \in DOMAIN Clauses[i].c : Clauses[i].c[j] <= NV}
    IN [s |-> [st1 EXCEPT !.dirty[t] = @ \/ Ev.ref,
                          !.v[t] = Point(Ev.v),
                          !.aux[t] = @ \o new,
                          !.lo = @ + Cardinality({i \in plain : Clauses[i].f > 0}),
                          !.hi = @ + Cardinality(plain)],
        bad |-> L("clause", BadClauses(Prog(base), s.best) # {})
                \cup L("contract", Ev.bad)
                \cup L("accept", acc /\ ~ AcceptOK(P, Prog(S), ReqOf(t, S)))
                \cup L("values", acc /\ ~ Satisfies(P, Prog(S), Point(Ev.v)))]

DoUndo ==
    LET t == Th
        keep == SelectSeq(s.seen[t], LAMBDA x : x[1] < Ev.lv)
        st1 == [s EXCEPT !.seen[t] = keep, !.dirty[t] = FALSE, !.v[t] = Point(Ev.v)]
        S == UNION {Range2(keep[i][2]) : i \in DOMAIN keep}
    IN [s |-> st1, bad |-> L("undo", ~ Satisfies(P, Prog(S), Point(Ev.v)))
                             \cup L("o_store", Probe("store") /\ ~ StoreOK(Point(Ev.v)))]

DoDecide ==
    [s |-> s, bad |-> L("decide", ~ DecisionOK(P, s.opts.select, Ev.f, Ev.r, s.v[Th]))]

DoModel ==
    LET t == Th
        S == Range2(Ev.asg) \cup {1}
        pt == Point(Ev.pt)
        ob == IF Ev.obj = <<>> THEN <<QZero, TRUE>> ELSE Ev.obj[1]
        improved == Meets(Heard, ob)
        nb == IF ~ s.opts.global \/ Ev.obj = <<>> THEN s.best ELSE Stronger(s.best, After(s.best, ob, s.opts.gstep))
    IN [s |-> [s EXCEPT !.models[t] = @ \cup {S}, !.best = nb, !.hist = Append(@, nb), !.plain = @ \/ Ev.obj = <<>>, !.idx = @ \cup Range2(Ev.idx)],
        bad |-> L("m_sat", ~ Satisfies(P, S, pt))
                \cup L("m_vars", ~ (Needed(P, S) \subseteq Range2(Ev.extcols)
                                    /\ Range2(Ev.extcols) \subseteq MaybeAt(s.step)
                                    /\ Once(Ev.extcols)))
                \cup L("m_api", ~ Ev.apisame \/ Ev.bogus # <<>>)
                \cup L("m_index", ~ Stable(s.idx \cup Range2(Ev.idx)))
                \cup L("m_text", \E i \in DOMAIN Ev.texts : QText(Ev.texts[i][2]) # Ev.texts[i][1])
                \cup L("m_dup", ~ T.recorded /\ ~ T.replayed /\ S \in s.models[t])
                \cup L("m_objset", ~ ObjectiveOK(P, S, Ev.obj # <<>>) \/ Len(Ev.obj) > 1)
                \cup L("m_opt", P.hasobj /\ Ev.obj # <<>> /\ ~ OptimumOK(P, S, ob[1], ob[2]))
                \cup L("m_attain", P.hasobj /\ Ev.obj # <<>> /\ ob[2] /\ ~ QEq(ObjValue(P, S, pt), ob[1]))
                \cup L("m_improve", s.opts.global /\ Ev.obj # <<>> /\ (T.threads = 1 \/ ~ T.recorded) /\ ~ improved)
                \cup L("m_text", Ev.objtext # "" /\ QText(ob[1]) # Ev.objtext)]

DoStats ==
    [s |-> [s EXCEPT !.ap = Ev.ap, !.ab = Ev.ab],
     bad |-> L("st_bounds", ~ (s.lo <= Ev.sb /\ Ev.sb <= s.hi))
             \cup L("st_off", s.opts.bounds = "none" /\ Ev.sb # 0)
             \cup L("st_pivots", Ev.pv > 0 /\ Ev.pv # Ev.sp)    \* pivots that were counted
             \cup L("st_accu", Ev.ap # s.ap + Ev.sp \/ Ev.ab # s.ab + Ev.sb)
             \cup L("st_range", Ev.sp < 0)]

(***************************************************************************)
(* After an exhausted search every thread has reported all models.         *)
(***************************************************************************)
ClauseTrue(c, S) == \E i \in DOMAIN c : c[i] \in S
AllModels(k) ==
    LET pb == ProblemAt(k)
        cl == ClausesAt(k)
        nv == NvAt(k)
    IN {S \in {X \cup {1} : X \in Completions(2..nv)} :
            Range2(T.steps[k].assume) \subseteq S /\ (\A i \in DOMAIN cl : ClauseTrue(cl[i], S)) /\ Feasible(pb.n, System(pb, S))}

DoFin ==
    LET k == Max2(s.step, 1)
        pb == ProblemAt(k)
        F == AllModels(k)
        full == s.opts.global /\ pb.hasobj /\ ~ s.plain
        sup == [S \in F |-> Best(pb, S)]
        unb == Unbounded(F, sup)
        found == UNION {s.models[t] : t \in Threads}
        top == Top(F, sup)
    IN [s |-> s,
        bad |-> IF ~ Ev.all \/ T.recorded THEN {}
                ELSE IF ~ full THEN
                    L("incomplete", \E t \in Threads : ~ (F \subseteq s.models[t]))
                    \cup L("invented", \E t \in Threads : ~ (s.models[t] \subseteq F))
                ELSE L("invented", ~ (found \subseteq F))
                     \cup L("g_none", F # {} /\ found = {})
                     \cup L("g_unb", unb # {} /\ \E t \in Threads : ~ (unb \subseteq s.models[t]))
                     \cup L("g_opt", unb = {} /\ s.best.kind = "ge" /\ \E S \in F : Beats(sup[S], pb, S, s.best, s.opts.gstep))
                     \cup L("g_ties", unb = {} /\ QEq(s.opts.gstep, QZero)
                                      /\ \E t \in Threads : ~ (top \subseteq s.models[t]))]

\* a malformed atom is rejected with an error, anything else succeeds
DoEnd ==
    [s |-> s,
     bad |-> IF Ev.how = "error"
             THEN L("refused", Proper(s.step))
                  \cup L("nomsg", Ev.msg = "")
             ELSE L("end_" \o Ev.how, Ev.how # "ok")]

Step ==
    CASE Ev.e = "init"  -> DoInit
      [] Ev.e = "opt"   -> DoOpt
      [] Ev.e = "valid" -> DoValid
      [] Ev.e = "cli"   -> DoCli
      [] Ev.e = "skip"  -> DoSkip
      [] Ev.e = "prop"  -> DoProp
      [] Ev.e = "check" -> DoCheck
      [] Ev.e = "undo"  -> DoUndo
      [] Ev.e = "dec"   -> DoDecide
      [] Ev.e = "model" -> DoModel
      [] Ev.e = "stats" -> DoStats
      [] Ev.e = "fin"   -> DoFin
      [] Ev.e = "end"   -> DoEnd
      [] OTHER          -> [s |-> s, bad |-> {}]

\* nothing happens after a malformed step was accepted
Judged == IF s.step > 0 /\ ~ Proper(s.step) /\ Ev.e \notin {"init", "skip", "end"}
          THEN [s |-> s, bad |-> L("m_malformed", Ev.e = "model")] ELSE Step

Next ==
    /\ pos <= Len(T.ev)
    /\ LET r == Judged
       IN /\ s' = r.s
          /\ IF r.bad = {} THEN TRUE ELSE PrintT(<<"REJECT", T.id, pos, r.bad>>)
          /\ IF pos < Len(T.ev) THEN TRUE ELSE PrintT(<<"DONE", T.id>>)
    /\ pos' = pos + 1
    /\ UNCHANGED <<tr, M, cols>>

Spec == Init /\ [][Next]_<<tr, pos, s, M, cols>>
View == <<tr, pos>>
=============================================================================
