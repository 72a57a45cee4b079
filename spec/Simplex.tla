------------------------------ MODULE Simplex ------------------------------
(***************************************************************************)
(* The incremental simplex procedure of the theory as a state machine:     *)
(* bounds with a trail, values with a trail, a tableau, the queue of       *)
(* violated rows, selection by smallest index, optimisation.               *)
(*                                                                         *)
(* A problem is a record                                                   *)
(*   n     number of user variables (1..n)                                 *)
(*   rows  coefficients of the row variables (n+1..n+Len(rows))            *)
(*   bnds  sequence of bounds [l, v, r, q]: literal l asserts variable v   *)
(*         r q, r in "le", "ge", "eq", q an extended rational              *)
(*   obj   the row variable that is maximised, or 0                        *)
(*   store "no", "partial", "total"                                        *)
(* All operators are functions of the state x of one thread; modules       *)
(* MCSimplex and SimplexTrace make behaviours of them.                     *)
(***************************************************************************)
EXTENDS LinProg, Tableau, SequencesExt

SMin(S) == CHOOSE a \in S : \A b \in S : a <= b
RangeOf(f) == {f[i] : i \in DOMAIN f}

NVars(p) == p.n + Len(p.rows)
UnitRow(n, j) == [l \in 1..n |-> IF l = j THEN ROne ELSE RZero]

Start(p) ==
    [val |-> [v \in 1..NVars(p) |-> QZero],
     lvl |-> [v \in 1..NVars(p) |-> 0],
     up |-> [v \in 1..NVars(p) |-> 0],
     lo |-> [v \in 1..NVars(p) |-> 0],
     bt |-> <<>>,                       \* <<variable, "up" or "lo", bound before>>
     at |-> <<>>,                       \* <<level before, variable, value before>>
     off |-> <<>>,                      \* <<level, length of bt, length of at>>
     bas |-> [i \in 1..Len(p.rows) |-> p.n + i],
     non |-> [j \in 1..p.n |-> j],
     A |-> p.rows,
     queue |-> {},
     trail |-> <<<<>>>>,                \* literals of level 0, 1, ...
     clause |-> {},
     bounded |-> TRUE,
     piv |-> 0,
     st |-> "sat"]                      \* run, opt, sat, unsat

Level(x) == Len(x.trail) - 1
LitLevel(x, l) == (CHOOSE i \in DOMAIN x.trail : l \in RangeOf(x.trail[i])) - 1
Basic(x, v) == v \in RangeOf(x.bas)
RowOf(x, v) == CHOOSE i \in DOMAIN x.bas : x.bas[i] = v
ColOfV(x, v) == CHOOSE j \in DOMAIN x.non : x.non[j] = v
Upper(p, x, v) == p.bnds[x.up[v]].q
Lower(p, x, v) == p.bnds[x.lo[v]].q
Above(p, x, v) == x.up[v] # 0 /\ QLt(Upper(p, x, v), x.val[v])
Below(p, x, v) == x.lo[v] # 0 /\ QLt(x.val[v], Lower(p, x, v))
Violated(p, x, v) == Above(p, x, v) \/ Below(p, x, v)
Enqueue(p, x, v) == IF Violated(p, x, v) THEN [x EXCEPT !.queue = @ \cup {v}] ELSE x

\* change a value, remembering the one of the previous level
SetValue(x, level, v, q) ==
    IF x.lvl[v] = level THEN [x EXCEPT !.val[v] = q]
    ELSE [x EXCEPT !.val[v] = q, !.lvl[v] = level, !.at = Append(@, <<x.lvl[v], v, x.val[v]>>)]

RECURSIVE SetRows(_, _, _, _, _, _)
\* add d * A[i][j] to the values of the rows 1..k except row skip
SetRows(p, x, level, j, d, k) ==
    IF k[1] = 0 THEN x
    ELSE LET y == SetRows(p, x, level, j, d, <<k[1] - 1, k[2]>>)
             i == k[1]
         IN IF i = k[2] \/ RSign(x.A[i][j]) = 0 THEN y
            ELSE LET z == SetValue(y, level, x.bas[i], QAdd(x.val[x.bas[i]], QScale(x.A[i][j], d)))
                 IN Enqueue(p, z, x.bas[i])

\* give independent variable j the value q
Move(p, x, level, j, q) ==
    LET v == x.non[j]
        y == SetRows(p, x, level, j, QSub(q, x.val[v]), <<Len(x.bas), 0>>)
    IN SetValue(y, level, v, q)

\* exchange row i and column j so that the variable of the row gets value q
Pivot(p, x, level, i, j, q) ==
    LET vi == x.bas[i]
        vj == x.non[j]
        d == QDivR(QSub(q, x.val[vi]), x.A[i][j])
        x1 == SetValue(x, level, vi, q)
        x2 == SetValue(x1, level, vj, QAdd(x.val[vj], d))
        x3 == SetRows(p, x2, level, j, d, <<Len(x.bas), i>>)
        x4 == [x3 EXCEPT !.bas[i] = vj, !.non[j] = vi, !.A = Exchange(x.A, i, j), !.piv = @ + 1]
    IN Enqueue(p, x4, vj)

(***************************************************************************)
(* Asserting a bound.                                                      *)
(***************************************************************************)
UpdateUpper(p, x, b) ==
    LET v == p.bnds[b].v
        old == x.up[v]
    IN IF old # 0 /\ ~ QLt(p.bnds[b].q, p.bnds[old].q) THEN x
       ELSE [x EXCEPT !.up[v] = b,
                      !.bt = IF old = 0 \/ LitLevel(x, p.bnds[old].l) < Level(x)
                             THEN Append(@, <<v, "up", old>>) ELSE @]
UpdateLower(p, x, b) ==
    LET v == p.bnds[b].v
        old == x.lo[v]
    IN IF old # 0 /\ ~ QLt(p.bnds[old].q, p.bnds[b].q) THEN x
       ELSE [x EXCEPT !.lo[v] = b,
                      !.bt = IF old = 0 \/ LitLevel(x, p.bnds[old].l) < Level(x)
                             THEN Append(@, <<v, "lo", old>>) ELSE @]
Crossed(p, x, v) == x.up[v] # 0 /\ x.lo[v] # 0 /\ QLt(Upper(p, x, v), Lower(p, x, v))

UpdateBound(p, x, b) ==
    LET v == p.bnds[b].v
        y == CASE p.bnds[b].r = "le" -> UpdateUpper(p, x, b)
               [] p.bnds[b].r = "ge" -> UpdateLower(p, x, b)
               [] OTHER -> LET u == UpdateUpper(p, x, b)
                           IN IF Crossed(p, u, v) THEN u ELSE UpdateLower(p, u, b)
    IN IF Crossed(p, y, v)
       THEN [y EXCEPT !.st = "unsat", !.clause = {-p.bnds[y.up[v]].l, -p.bnds[y.lo[v]].l}]
       ELSE IF Basic(y, v) THEN Enqueue(p, y, v)
       ELSE IF Below(p, y, v) THEN Move(p, y, Level(y), ColOfV(y, v), Lower(p, y, v))
       ELSE IF Above(p, y, v) THEN Move(p, y, Level(y), ColOfV(y, v), Upper(p, y, v))
       ELSE y

RECURSIVE UpdateBounds(_, _, _)
UpdateBounds(p, x, bs) ==
    IF bs = <<>> \/ x.st = "unsat" THEN x ELSE UpdateBounds(p, UpdateBound(p, x, bs[1]), Tail(bs))

BoundsOf(p, l) == SelectSeq([i \in DOMAIN p.bnds |-> i], LAMBDA i : p.bnds[i].l = l)
RECURSIVE BoundsOfAll(_, _)
BoundsOfAll(p, ls) == IF ls = <<>> THEN <<>> ELSE BoundsOf(p, ls[1]) \o BoundsOfAll(p, Tail(ls))

\* literals ls become true (on a new level or the current one)
Tell(p, x, ls, new) ==
    LET t == IF new THEN Append(x.trail, ls) ELSE [x.trail EXCEPT ![Len(x.trail)] = @ \o ls]
        y == [x EXCEPT !.trail = t, !.st = "run", !.clause = {}]
        z == IF y.off = <<>> \/ y.off[Len(y.off)][1] < Level(y)
             THEN [y EXCEPT !.off = Append(@, <<Level(y), Len(y.bt), Len(y.at)>>)] ELSE y
    IN UpdateBounds(p, z, BoundsOfAll(p, ls))

(***************************************************************************)
(* One step towards a solution.                                            *)
(***************************************************************************)
\* can independent variable j be moved so that the violated row i improves?
Free(p, x, i, j, below) ==
    LET v == x.non[j]
        upward == below = (RSign(x.A[i][j]) > 0)
    IN /\ RSign(x.A[i][j]) # 0
       /\ IF upward THEN ~ (x.up[v] # 0 /\ QLe(Upper(p, x, v), x.val[v]))
                    ELSE ~ (x.lo[v] # 0 /\ QLe(x.val[v], Lower(p, x, v)))
Reason(p, x, i, below) ==
    {-p.bnds[IF below THEN x.lo[x.bas[i]] ELSE x.up[x.bas[i]]].l}
    \cup {-p.bnds[IF below = (RSign(x.A[i][j]) > 0) THEN x.up[x.non[j]] ELSE x.lo[x.non[j]]].l :
            j \in {k \in DOMAIN x.non : RSign(x.A[i][k]) # 0}}

StoreSat(x) ==
    LET k == CHOOSE n \in 0..Len(x.off) :
               /\ \A i \in (n + 1)..Len(x.off) : x.off[i][3] > 0
               /\ n = 0 \/ x.off[n][3] = 0
    IN [x EXCEPT !.at = <<>>,
                 !.lvl = [v \in DOMAIN x.lvl |-> IF \E i \in DOMAIN x.at : x.at[i][2] = v THEN 0 ELSE x.lvl[v]],
                 !.off = [i \in DOMAIN x.off |-> IF i > k THEN <<x.off[i][1], x.off[i][2], 0>> ELSE x.off[i]]]

Micro(p, x) ==
    IF x.queue = {}
    THEN LET y == IF p.store = "partial" THEN StoreSat(x) ELSE x IN [y EXCEPT !.st = "sat"]
    ELSE LET v == SMin(x.queue)
         IN IF ~ Basic(x, v) \/ ~ Violated(p, x, v) THEN [x EXCEPT !.queue = @ \ {v}]
            ELSE LET i == RowOf(x, v)
                     below == Below(p, x, v)
                     free == {x.non[j] : j \in {k \in DOMAIN x.non : Free(p, x, i, k, below)}}
                 IN IF free = {} THEN [x EXCEPT !.queue = @ \ {v}, !.st = "unsat", !.clause = Reason(p, x, i, below)]
                    ELSE Pivot(p, [x EXCEPT !.queue = @ \ {v}], Level(x), i, ColOfV(x, SMin(free)),
                               IF below THEN Lower(p, x, v) ELSE Upper(p, x, v))

(***************************************************************************)
(* One step of optimisation (state "opt").                                 *)
(***************************************************************************)
OptMicro(p, x) ==
    LET z == RowOf(x, p.obj)
        inc(j) == RSign(x.A[z][j]) > 0
        enter == {x.non[j] : j \in {k \in DOMAIN x.non :
                    /\ RSign(x.A[z][k]) # 0
                    /\ LET v == x.non[k]
                       IN IF inc(k) THEN x.up[v] = 0 \/ QLt(x.val[v], Upper(p, x, v))
                                    ELSE x.lo[v] = 0 \/ QLt(Lower(p, x, v), x.val[v])}}
        store(y) == IF p.store # "no" THEN StoreSat(y) ELSE y
        done(y) == [store(y) EXCEPT !.st = "sat"]
    IN IF enter = {} THEN [done(x) EXCEPT !.bounded = TRUE]
       ELSE LET v == SMin(enter)
                e == ColOfV(x, v)
                up == inc(e)
                lim(i) == IF (RSign(x.A[i][e]) > 0) = up THEN x.up[x.bas[i]] ELSE x.lo[x.bas[i]]
                new(i) == QAdd(x.val[v], QDivR(QSub(p.bnds[lim(i)].q, x.val[x.bas[i]]), x.A[i][e]))
                cand == {i \in DOMAIN x.bas :
                            /\ RSign(x.A[i][e]) # 0
                            /\ lim(i) # 0
                            /\ IF up THEN ~ (x.up[v] # 0 /\ QLe(Upper(p, x, v), new(i)))
                                     ELSE ~ (x.lo[v] # 0 /\ QLe(new(i), Lower(p, x, v)))}
                level == IF x.off = <<>> THEN 0 ELSE x.off[Len(x.off)][1]
            IN IF cand # {}
               THEN LET tight == {i \in cand : \A k \in cand : IF up THEN QLe(new(i), new(k)) ELSE QLe(new(k), new(i))}
                        l == CHOOSE i \in tight : \A k \in tight : x.bas[i] <= x.bas[k]
                    IN Pivot(p, x, level, l, e, p.bnds[lim(l)].q)
               ELSE IF (up /\ x.up[v] = 0) \/ (~ up /\ x.lo[v] = 0) THEN [done(x) EXCEPT !.bounded = FALSE]
               ELSE Move(p, x, level, e, IF up THEN Upper(p, x, v) ELSE Lower(p, x, v))

(***************************************************************************)
(* Backtracking: the last level is undone.                                 *)
(***************************************************************************)
RECURSIVE RestoreBounds(_, _, _)
RestoreBounds(x, from, k) ==     \* in order of assertion; k entries are left
    IF k = Len(x.bt) THEN [x EXCEPT !.bt = SubSeq(@, 1, from)]
    ELSE LET r == x.bt[k + 1]
             y == IF r[2] = "up" THEN [x EXCEPT !.up[r[1]] = r[3]] ELSE [x EXCEPT !.lo[r[1]] = r[3]]
         IN RestoreBounds(y, from, k + 1)
RECURSIVE RestoreValues(_, _, _)
RestoreValues(x, from, k) ==
    IF k = Len(x.at) THEN [x EXCEPT !.at = SubSeq(@, 1, from)]
    ELSE LET r == x.at[k + 1]
         IN RestoreValues([x EXCEPT !.lvl[r[2]] = r[1], !.val[r[2]] = r[3]], from, k + 1)

Undo(x) ==
    LET d == Level(x)
        y == [x EXCEPT !.trail = SubSeq(@, 1, d), !.st = "sat", !.clause = {}]
    IN IF x.off = <<>> \/ x.off[Len(x.off)][1] # d THEN y      \* nothing was asserted on this level
       ELSE LET o == x.off[Len(x.off)]
                b == RestoreBounds(y, o[2], o[2])
                v == RestoreValues(b, o[3], o[3])
            IN [v EXCEPT !.queue = {}, !.off = SubSeq(@, 1, Len(@) - 1)]

(***************************************************************************)
(* What has to hold of a state.                                            *)
(***************************************************************************)
Seen(x) == UNION {RangeOf(x.trail[i]) : i \in DOMAIN x.trail}
\* bounds in effect after asserting the literals in S
Of(p, S, v, rel) == {b \in DOMAIN p.bnds : p.bnds[b].l \in S /\ p.bnds[b].v = v /\ p.bnds[b].r \in {rel, "eq"}}
Tightest(p, x, S) ==
    \A v \in 1..NVars(p) :
        /\ IF Of(p, S, v, "le") = {} THEN x.up[v] = 0
           ELSE x.up[v] \in Of(p, S, v, "le") /\ \A b \in Of(p, S, v, "le") : QLe(Upper(p, x, v), p.bnds[b].q)
        /\ IF Of(p, S, v, "ge") = {} THEN x.lo[v] = 0
           ELSE x.lo[v] \in Of(p, S, v, "ge") /\ \A b \in Of(p, S, v, "ge") : QLe(p.bnds[b].q, Lower(p, x, v))
WithinBounds(p, x) == \A v \in 1..NVars(p) : ~ Violated(p, x, v)
NonBasicOK(p, x) == \A j \in DOMAIN x.non : ~ Violated(p, x, x.non[j])
QueueOK(p, x) == \A i \in DOMAIN x.bas : Violated(p, x, x.bas[i]) => x.bas[i] \in x.queue
QDot(row, non, val) == LinVal(row, [j \in DOMAIN non |-> val[non[j]]], Len(row))
EquationsOK(x) == \A i \in DOMAIN x.bas : QEq(x.val[x.bas[i]], QDot(x.A[i], x.non, x.val))
BasisOK(p, x) ==
    Equivalent(p.rows, [i \in 1..Len(p.rows) |-> p.n + i], [j \in 1..p.n |-> j], x.A, x.bas, x.non)

\* the constraints over the user variables asserted by S
RowCo(p, v) == IF v <= p.n THEN UnitRow(p.n, v) ELSE p.rows[v - p.n]
RelOf(b) == LET strict == RSign(b.q[2]) # 0
            IN CASE b.r = "le" -> IF strict THEN "<" ELSE "<="
                 [] b.r = "ge" -> IF strict THEN ">" ELSE ">="
                 [] OTHER -> "="
SysOf(p, S) ==
    LET bs == SelectSeq([i \in DOMAIN p.bnds |-> i], LAMBDA i : p.bnds[i].l \in S)
    IN [k \in DOMAIN bs |-> [co |-> RowCo(p, p.bnds[bs[k]].v), rel |-> RelOf(p.bnds[bs[k]]), rhs |-> p.bnds[bs[k]].q[1]]]
=============================================================================
