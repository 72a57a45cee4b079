------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* What a solver may do to the theory within one search: open a level and  *)
(* assign literals, assign further literals on the current level,          *)
(* backtrack to any level, check a total assignment.  TLC enumerates all   *)
(* schedules of Length operations over NLits literals (in order of first   *)
(* use: the problems they are combined with are drawn symmetrically);      *)
(* harness/host.cc replays them against the real theory.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

NLits == atoi(IOEnv.SCHED_LITS)
Length == atoi(IOEnv.SCHED_LEN)

VARIABLES
    levels,   \* the literals of each level above zero
    zero,     \* literals of level zero
    used,     \* number of literals used so far
    hist      \* operations

Range3(f) == {f[i] : i \in DOMAIN f}
Assigned == Range3(zero) \cup UNION {Range3(levels[i]) : i \in DOMAIN levels}
Last == IF hist = <<>> THEN "none" ELSE hist[Len(hist)][1]

Init == levels = <<>> /\ zero = <<>> /\ used = 0 /\ hist = <<>>

\* batches of one or two free literals; new literals are used in order
Batches ==
    {b \in {<<i>> : i \in 1..NLits} \cup {<<i, j>> : i \in 1..NLits, j \in 1..NLits} :
        /\ \A i \in DOMAIN b : b[i] \notin Assigned
        /\ Len(b) = 2 => b[1] # b[2]
        /\ b[1] <= used + 1
        /\ Len(b) = 2 => b[2] <= (IF b[1] > used THEN b[1] ELSE used) + 1}
Use(b) == used' = (IF \E i \in DOMAIN b : b[i] > used
                   THEN (CHOOSE m \in Range3(b) : \A o \in Range3(b) : o <= m) ELSE used)

New(b) ==
    /\ levels' = Append(levels, b)
    /\ Use(b)
    /\ hist' = Append(hist, <<"new">> \o b)
    /\ UNCHANGED zero
Same(b) ==
    /\ IF levels = <<>> THEN zero' = zero \o b /\ UNCHANGED levels
       ELSE levels' = [levels EXCEPT ![Len(levels)] = @ \o b] /\ UNCHANGED zero
    /\ Use(b)
    /\ hist' = Append(hist, <<"same">> \o b)
Pop(n) ==
    /\ Last # "pop"
    /\ levels' = SubSeq(levels, 1, n)
    /\ hist' = Append(hist, <<"pop", n>>)
    /\ UNCHANGED <<zero, used>>
\* the other literals become false on levels of their own; then the next step backtracks
Check ==
    /\ Last \notin {"check"}
    /\ hist' = Append(hist, <<"check">>)
    /\ UNCHANGED <<levels, zero, used>>

Next ==
    /\ Len(hist) < Length
    /\ IF Last = "check" THEN \E n \in 0..Len(levels) : Pop(n)
       ELSE (\E b \in Batches : New(b) \/ Same(b)) \/ (\E n \in 0..(Len(levels) - 1) : Pop(n)) \/ Check
Spec == Init /\ [][Next]_<<levels, zero, used, hist>>

\* complete schedules are written out
Done == Len(hist) = Length => PrintT(<<"SCHED", ToJson(hist)>>)
=============================================================================
