------------------------------- MODULE Steps -------------------------------
(***************************************************************************)
(* Multi-shot solving.  In each step the host reinitialises the theory,    *)
(* propagates what holds on level zero, decides the literal of the step    *)
(* (the root) and searches above it.  Everything above level zero is taken *)
(* back when the step ends; what holds on level zero stays and is not      *)
(* delivered again to a watch that was there before.  The theory builds a  *)
(* new tableau in each step, so it has to remember the literals of level   *)
(* zero and asserts them with the first check on level zero, which it asks *)
(* for if there are any.                                                   *)
(*                                                                         *)
(* Checked exhaustively: whenever the theory is asked to judge an          *)
(* assignment, every watched literal of it is asserted, and nothing else.  *)
(* The histories of the host are written out (STEPS_EMIT) and              *)
(* harness/host.cc replays them with real problems.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

NLits == atoi(IOEnv.STEPS_LITS)
Length == atoi(IOEnv.STEPS_LEN)
NSteps == atoi(IOEnv.STEPS_NUM)
Emit == "STEPS_EMIT" \in DOMAIN IOEnv
Lits == 1..NLits

VARIABLES
    zero,      \* host: literals on level zero
    levels,    \* host: literals of each level above; the first one is the root
    step,      \* host: current step
    since,     \* step in which a literal is watched first
    used,      \* number of literals used so far
    hist,      \* operations
    new,       \* theory: literals of level zero received in this step
    facts,     \* theory: those of earlier steps
    done,      \* theory: facts are asserted
    asserted   \* theory: asserted literals by level, level zero first

vars == <<zero, levels, step, since, used, hist, new, facts, done, asserted>>

Range3(f) == {f[i] : i \in DOMAIN f}
Assigned == zero \cup UNION {levels[i] : i \in DOMAIN levels}
Watched(k) == {l \in Lits : since[l] <= k}
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)][1]
All == UNION Range3(asserted)

Init ==
    /\ since \in IF Emit THEN {[l \in Lits |-> 1]} ELSE [Lits -> 1..NSteps]
    /\ zero = {} /\ levels = <<>> /\ step = 1 /\ used = 0 /\ hist = <<>>
    /\ new = {} /\ facts = {} /\ done = FALSE /\ asserted = <<{}>>

Batches ==
    {b \in {<<i>> : i \in Lits} \cup {<<i, j>> : i \in Lits, j \in Lits} :
        /\ \A i \in DOMAIN b : b[i] \notin Assigned
        /\ Len(b) = 2 => b[1] # b[2]
        /\ Emit => /\ b[1] <= used + 1
                   /\ Len(b) = 2 => b[2] <= (IF b[1] > used THEN b[1] ELSE used) + 1}
Max3(S) == CHOOSE m \in S : \A o \in S : o <= m
Use(b) == used' = IF Emit THEN Max3({used} \cup Range3(b)) ELSE used
\* histories are only kept to be replayed
Log(o) == hist' = IF Emit THEN Append(hist, o) ELSE <<o>>

\* literals become true on level zero; the theory is told, then it may assert its facts
Zero(b) ==
    /\ levels = <<>>
    /\ zero' = zero \cup Range3(b)
    /\ LET S == Range3(b) \cap Watched(step)
       IN /\ new' = new \cup S
          /\ asserted' = [asserted EXCEPT ![1] = @ \cup S \cup facts]
    /\ done' = TRUE
    /\ Use(b) /\ Log(<<"same">> \o b)
    /\ UNCHANGED <<levels, step, since, facts>>
\* search begins below the root
Root ==
    /\ levels = <<>>
    /\ levels' = <<{}>>
    /\ asserted' = <<asserted[1] \cup facts, {}>>
    /\ done' = TRUE
    /\ Log(<<"root">>)
    /\ UNCHANGED <<zero, step, since, used, new, facts>>
New(b) ==
    /\ levels # <<>>
    /\ levels' = Append(levels, Range3(b))
    /\ asserted' = Append(asserted, Range3(b) \cap Watched(step))
    /\ Use(b) /\ Log(<<"new">> \o b)
    /\ UNCHANGED <<zero, step, since, new, facts, done>>
Same(b) ==
    /\ levels # <<>>
    /\ levels' = [levels EXCEPT ![Len(levels)] = @ \cup Range3(b)]
    /\ asserted' = [asserted EXCEPT ![Len(asserted)] = @ \cup (Range3(b) \cap Watched(step))]
    /\ Use(b) /\ Log(<<"same">> \o b)
    /\ UNCHANGED <<zero, step, since, new, facts, done>>
\* the root stays
Pop(n) ==
    /\ Last # "pop"
    /\ levels' = SubSeq(levels, 1, n)
    /\ asserted' = SubSeq(asserted, 1, n + 1)
    /\ Log(<<"pop", n>>)
    /\ UNCHANGED <<zero, step, since, used, new, facts, done>>
Check ==
    /\ levels # <<>> /\ Last # "check"
    /\ Log(<<"check">>)
    /\ UNCHANGED <<zero, levels, step, since, used, new, facts, done, asserted>>
\* the next step: a new tableau; literals watched from now on are delivered if they hold
NextStep ==
    /\ levels # <<>> /\ step < NSteps
    /\ step' = step + 1
    /\ levels' = <<>>
    /\ facts' = facts \cup new
    /\ LET late == {l \in zero : since[l] = step + 1}
       IN /\ new' = late
          /\ asserted' = <<late \cup (facts \cup new)>>
    /\ done' = TRUE
    /\ Log(<<"step">>)
    /\ UNCHANGED <<zero, since, used>>

Next ==
    /\ Emit => Len(hist) < Length
    /\ IF Last = "check" THEN (\E n \in 1..Len(levels) : Pop(n)) \/ NextStep
       ELSE \/ \E b \in Batches : Zero(b) \/ New(b) \/ Same(b)
            \/ Root \/ Check \/ NextStep
            \/ \E n \in 1..(Len(levels) - 1) : Pop(n)
Spec == Init /\ [][Next]_vars

\* the assertions are those of the watched literals, level by level
Sound == All \subseteq (Assigned \cap Watched(step))
Complete == done => Assigned \cap Watched(step) \subseteq All
Levels ==
    done => /\ Len(asserted) = Len(levels) + 1
            /\ asserted[1] = zero \cap Watched(step)
            /\ \A i \in DOMAIN levels : asserted[i + 1] = levels[i] \cap Watched(step)
Memory == facts \cup new = zero \cap Watched(step)

\* complete histories with all steps are written out
Done == (Emit /\ Len(hist) = Length /\ step = NSteps /\ Last \notin {"step", "root"}) => PrintT(<<"SCHED", ToJson(hist)>>)
=============================================================================
