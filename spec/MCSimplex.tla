----------------------------- MODULE MCSimplex -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the simplex procedure (module Simplex) under  *)
(* every schedule of a solver, for families of small problems.  TLC checks *)
(* that the procedure keeps the contract that HostTrace demands of the     *)
(* real code: exact verdicts, justified clauses, satisfying values after   *)
(* acceptance and backtracking, optimality and termination.                *)
(***************************************************************************)
EXTENDS Simplex, IOUtils

CONSTANTS
    NUser,       \* number of user variables
    Tableaus,    \* sequence of possible tableaus (sequences of rows)
    Bnds,        \* sequence of possible bounds [v, r, q]
    LitOf,       \* literal of the first, second, ... bound
    Objs,        \* possible objective variables (0: none)
    Stores,      \* possible storing modes
    Depth        \* maximal number of levels

VARIABLES p, x

NB == Len(LitOf)
\* every K-th problem (environment variables MC_EVERY, MC_SLICE; all if they are not set)
Every == IF "MC_EVERY" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_EVERY) ELSE 1
Slice == IF "MC_SLICE" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_SLICE) % Every ELSE 0
Kept(t, f, o) ==
    LET h[i \in 0..NB] == IF i = 0 THEN 7 * t + 3 * o ELSE h[i - 1] + f[i] * (2 * i * i + 3 * i)
    IN h[NB] % Every = Slice
\* bounds with literals that occur once are interchangeable
Alone(i) == \A j \in 1..NB : LitOf[j] = LitOf[i] => j = i
Ordered(f) == \A i \in 1..(NB - 1) : Alone(i) /\ Alone(i + 1) => f[i] <= f[i + 1]

Lits == {LitOf[i] : i \in 1..NB}

Init ==
    \E t \in DOMAIN Tableaus, f \in [1..NB -> DOMAIN Bnds], o \in Objs, s \in Stores :
        /\ Ordered(f)
        /\ Kept(t, f, o)
        /\ p = [n |-> NUser, rows |-> Tableaus[t], obj |-> o, store |-> s,
                bnds |-> [i \in 1..NB |-> [l |-> LitOf[i], v |-> Bnds[f[i]].v, r |-> Bnds[f[i]].r, q |-> Bnds[f[i]].q]]]
        /\ x = Start(p)

Idle == x.st \in {"sat", "unsat"}
AssertNew ==
    /\ x.st = "sat" /\ Level(x) < Depth
    /\ \E l \in Lits \ Seen(x) : x' = Tell(p, [x EXCEPT !.piv = 0], <<l>>, TRUE)
AssertSame ==
    /\ x.st = "sat"
    /\ \E l \in Lits \ Seen(x) : x' = Tell(p, [x EXCEPT !.piv = 0], <<l>>, FALSE)
Search == x.st = "run" /\ x' = Micro(p, x)
BeginOpt == x.st = "sat" /\ p.obj # 0 /\ x' = [x EXCEPT !.st = "opt", !.piv = 0]
Optimise == x.st = "opt" /\ x' = [OptMicro(p, x) EXCEPT !.piv = x.piv + 1]
Store == x.st = "sat" /\ p.obj = 0 /\ p.store = "total" /\ x' = StoreSat(x)
Backtrack == Idle /\ Level(x) > 0 /\ x' = [Undo(x) EXCEPT !.piv = 0]

Next == (AssertNew \/ AssertSame \/ Search \/ BeginOpt \/ Optimise \/ Store \/ Backtrack) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, x>>

(***************************************************************************)
(* Requirements.                                                           *)
(***************************************************************************)
Equations == EquationsOK(x) /\ BasisOK(p, x)
Columns == x.st # "unsat" => NonBasicOK(p, x) /\ QueueOK(p, x)
Bounds == x.st # "unsat" => Tightest(p, x, Seen(x))
\* an accepted assignment is satisfiable and the values witness it
Accepted == x.st = "sat" => /\ WithinBounds(p, x)
                            /\ Feasible(p.n, SysOf(p, Seen(x)))
\* a conflict consists of asserted literals that cannot hold together
Refused == x.st = "unsat" =>
              /\ \A l \in x.clause : -l \in Seen(x)
              /\ ~ Feasible(p.n, SysOf(p, {-l : l \in x.clause}))
ObjCoOf == p.rows[p.obj - p.n]
Optimal ==
    [][x.st = "opt" /\ x'.st = "sat" =>
          LET s == Sup(p.n, SysOf(p, Seen(x)), ObjCoOf)
              q == x'.val[p.obj]
          IN IF s.kind = "unbounded" THEN ~ x'.bounded
             ELSE x'.bounded /\ REq(q[1], s.val) /\ (s.attained = (RSign(q[2]) = 0)) /\ RSign(q[2]) <= 0]_<<p, x>>

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* no basis is visited twice
Terminates == x.piv <= Binom(NVars(p), p.n) * (IF x.st = "opt" THEN Pow2(p.n) ELSE 1)
=============================================================================
