----------------------------- MODULE Incumbent -----------------------------
(***************************************************************************)
(* Global optimisation with several threads.  The threads share one        *)
(* incumbent objective; each enumerates all assignments in an order of its *)
(* own.  Time passes between the last check of an assignment, which reads  *)
(* the incumbent, and the report of the model, which updates it, so a      *)
(* model may be outdated when it is reported.                              *)
(*                                                                         *)
(* Checked exhaustively: all objective values, enumeration orders and      *)
(* interleavings within the bounds below.  The same steps, without values, *)
(* enumerate the schedules that harness/host.cc replays with real problems *)
(* (INC_EMIT: their length).                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

NT == atoi(IOEnv.INC_THREADS)
NA == atoi(IOEnv.INC_MODELS)
Emit == IF "INC_EMIT" \in DOMAIN IOEnv THEN atoi(IOEnv.INC_EMIT) ELSE 0
Values == IF Emit > 0 THEN {0} ELSE 0..2
Unb == 99                         \* the objective is unbounded
Steps == IF Emit > 0 THEN {0} ELSE {0, 1, 2}

Threads == 1..NT
Models == 1..NA
Perms == {f \in [Models -> Models] : \A i, j \in Models : f[i] = f[j] => i = j}

VARIABLES
    val,      \* optimum of each assignment
    order,    \* in which a thread enumerates the assignments
    step,     \* required improvement
    inc,      \* incumbent: value, number of updates, bounded
    th,       \* threads: position, incumbents read, enforced bound, waiting to report
    log,      \* what was reported: <<thread, assignment>>
    hist      \* schedule

vars == <<val, order, step, inc, th, log, hist>>
None == -99

Init ==
    /\ val \in [Models -> Values \cup IF Emit > 0 THEN {} ELSE {Unb}]
    /\ order \in {o \in [Threads -> Perms] :
                    \* the names of the assignments do not matter
                    /\ \A i \in Models : o[1][i] = i
                    /\ Emit > 0 => \A t \in Threads : o[t] = o[1]}
    /\ step \in Steps
    /\ inc = [val |-> 0, gen |-> 0, bounded |-> TRUE]
    /\ th = [t \in Threads |-> [at |-> 1, gen |-> 0, bound |-> None, discard |-> FALSE, wait |-> FALSE, known |-> None]]
    /\ log = {}
    /\ hist = <<>>

\* what the thread knows after looking at the incumbent
Read(x) ==
    IF x.gen = inc.gen THEN x
    ELSE IF ~ inc.bounded THEN [x EXCEPT !.gen = inc.gen, !.discard = TRUE]
    ELSE [x EXCEPT !.gen = inc.gen, !.bound = IF inc.val + step > @ THEN inc.val + step ELSE @]
\* is the assignment a model under what the thread knows?
Passes(x, a) == val[a] = Unb \/ (~ x.discard /\ val[a] >= x.bound)
\* the best value a thread could have known about at its last check
Best(S) == IF \E r \in S : val[r[2]] = Unb THEN Unb
           ELSE IF S = {} THEN None ELSE val[(CHOOSE r \in S : \A q \in S : val[q[2]] <= val[r[2]])[2]]

Check(t) ==
    /\ ~ th[t].wait /\ th[t].at <= NA
    /\ LET x == Read(th[t])
           ok == Passes(x, order[t][x.at])
       IN th' = [th EXCEPT ![t] = IF ok THEN [x EXCEPT !.wait = TRUE, !.known = Best(log)]
                                  ELSE [x EXCEPT !.at = @ + 1]]
    /\ UNCHANGED <<inc, log>>

Report(t) ==
    /\ th[t].wait
    /\ LET a == order[t][th[t].at]
           b == val[a] # Unb
       IN /\ log' = log \cup {<<t, a>>}
          /\ IF inc.bounded /\ (~ b \/ inc.gen = 0 \/ val[a] > inc.val)
             THEN inc' = [val |-> IF b THEN val[a] ELSE inc.val, gen |-> inc.gen + 1, bounded |-> b]
             ELSE UNCHANGED inc
    /\ th' = [th EXCEPT ![t].wait = FALSE, ![t].at = @ + 1]

Next ==
    \E t \in Threads :
        /\ (Check(t) \/ Report(t))
        /\ hist' = IF Emit > 0 THEN Append(hist, t) ELSE hist
        /\ Emit > 0 => Len(hist) < Emit
        /\ UNCHANGED <<val, order, step>>
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Requirements.                                                           *)
(***************************************************************************)
\* a model improves on what had been reported when it was last checked
Improves ==
    \A t \in Threads : th[t].wait =>
        LET v == val[order[t][th[t].at]]
        IN v = Unb \/ th[t].known = None \/ (th[t].known # Unb /\ v >= th[t].known + step)
\* the incumbent is the best report
Best_ == inc.gen > 0 => (IF inc.bounded THEN Best(log) = inc.val ELSE Best(log) = Unb)
None_ == inc.gen = 0 => log = {}
Over == \A t \in Threads : th[t].at > NA
UnbAll == {a \in Models : val[a] = Unb}
Final ==
    Over =>
        /\ log # {}
        /\ IF UnbAll # {} THEN \A t \in Threads, a \in UnbAll : <<t, a>> \in log
           ELSE /\ \A a \in Models : val[a] < Best(log) + step \/ (step = 0 /\ val[a] = Best(log))
                /\ step = 0 => \A t \in Threads, a \in Models : (\A b \in Models : val[b] <= val[a]) => <<t, a>> \in log
\* the incumbent only improves
Grows == [][inc'.gen >= inc.gen /\ (~ inc.bounded => ~ inc'.bounded)
            /\ (inc.gen > 0 /\ inc.bounded /\ inc'.bounded => inc'.val >= inc.val)]_vars

Done == (Emit > 0 /\ (Len(hist) = Emit \/ Over)) => PrintT(<<"SCHED", ToJson(hist)>>)
=============================================================================
