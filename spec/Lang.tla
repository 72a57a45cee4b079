-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The constraint language: what theory atoms denote.                      *)
(*                                                                         *)
(* Terms are tuples                                                        *)
(*   <<"n", q>>           a number                                         *)
(*   <<"s", name>>        a symbol, or a string if name is quoted          *)
(*   <<"f", name, args>>  a function or an operator                        *)
(*   <<"t", args>>        a tuple                                          *)
(*   <<"l", args>>        a list or a set                                  *)
(* An atom is a record [n, l, e, g]: name, literal, sequence of elements   *)
(* [c, t] (condition literal, 1 if there is none; tuple of terms) and the  *)
(* guard, <<>> or <<relation, term>>.                                      *)
(*                                                                         *)
(* Meaning(atoms) is a record [ok, cons, obj, may]: whether the atoms are  *)
(* well formed, the constraints [l, e, r, b] over variable names (see      *)
(* module Problem, there with column numbers), the objective, and the      *)
(* variables that may be assigned.                                         *)
(***************************************************************************)
EXTENDS Rat, Sequences, Integers, FiniteSets, TLC

Char(s, i) == SubSeq(s, i, i)
DigitVal == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5
            @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
IsDigit(c) == c \in DOMAIN DigitVal
Quoted(s) == Len(s) >= 2 /\ Char(s, 1) = "\"" /\ Char(s, Len(s)) = "\""

(***************************************************************************)
(* Decimal strings: an optional minus, digits, an optional dot and digits. *)
(***************************************************************************)
RECURSIVE Digits(_, _, _)
Digits(s, i, j) ==         \* the characters i..j-1 of s are digits
    i >= j \/ (IsDigit(Char(s, i)) /\ Digits(s, i + 1, j))
RECURSIVE DigitsVal(_, _, _, _)
DigitsVal(s, i, j, acc) ==
    IF i >= j THEN acc
    ELSE DigitsVal(s, i + 1, j, RAdd(RMul(acc, RInt(10)), RInt(DigitVal[Char(s, i)])))
RECURSIVE FindDot(_, _)
FindDot(s, i) == IF i > Len(s) THEN Len(s) + 1 ELSE IF Char(s, i) = "." THEN i ELSE FindDot(s, i + 1)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN RInt(1) ELSE RMul(RInt(10), Pow10(k - 1))

Decimal(name) ==           \* <<>> or <<value>>
    LET s == SubSeq(name, 2, Len(name) - 1)
        neg == Len(s) > 0 /\ Char(s, 1) = "-"
        b == IF neg THEN 2 ELSE 1
        d == FindDot(s, 1)
        f == Len(s) - d                    \* number of digits after the dot
        ok == /\ d > b /\ Digits(s, b, d)
              /\ d <= Len(s) => (f > 0 /\ Digits(s, d + 1, Len(s) + 1))
        v == IF d > Len(s) THEN DigitsVal(s, b, d, RZero)
             ELSE RDiv(DigitsVal(s, d + 1, Len(s) + 1, DigitsVal(s, b, d, RZero)), Pow10(f))
    IN IF ~ Quoted(name) \/ ~ ok THEN <<>> ELSE <<IF neg THEN RNeg(v) ELSE v>>

(***************************************************************************)
(* Evaluation of a term to a number or to a symbol (a variable name).      *)
(***************************************************************************)
VNum(q) == [k |-> "num", q |-> q, s |-> "", f |-> FALSE]
VSym(t, fun) == [k |-> "sym", q |-> RZero, s |-> t, f |-> fun]
VErr == [k |-> "err", q |-> RZero, s |-> "", f |-> FALSE]

Op2(t, o) == t[1] = "f" /\ t[2] = o /\ Len(t[3]) = 2
Op1(t, o) == t[1] = "f" /\ t[2] = o /\ Len(t[3]) = 1

\* numbers in arguments have to fit an int
RInt32(q) == /\ RIsInt(q)
             /\ RLe(RNorm(-2147483647 - 1, 1), q) /\ RLe(q, RInt(2147483647))
ArgText(v) == IF v.k = "num" THEN RText(v.q) ELSE v.s
ArgOK(v) == v.k = "sym" \/ (v.k = "num" /\ RInt32(v.q))

RECURSIVE Join(_, _)
Join(args, i) ==
    IF i > Len(args) THEN ""
    ELSE ArgText(args[i]) \o (IF i < Len(args) THEN "," ELSE "") \o Join(args, i + 1)

RECURSIVE Eval(_, _)
Eval(numstr, t) ==
    CASE t[1] = "n" -> VNum(t[2])
      [] t[1] = "s" ->
            IF Quoted(t[2])
            THEN LET d == IF numstr THEN Decimal(t[2]) ELSE <<>>
                 IN IF d # <<>> THEN VNum(d[1]) ELSE VSym(t[2], FALSE)
            ELSE VSym(t[2], TRUE)
      [] Op2(t, "+") \/ Op2(t, "-") \/ Op2(t, "*") \/ Op2(t, "/") ->
            LET a == Eval(numstr, t[3][1])
                b == Eval(numstr, t[3][2])
            IN IF a.k # "num" \/ b.k # "num" THEN VErr
               ELSE CASE t[2] = "+" -> VNum(RAdd(a.q, b.q))
                      [] t[2] = "-" -> VNum(RSub(a.q, b.q))
                      [] t[2] = "*" -> VNum(RMul(a.q, b.q))
                      [] OTHER -> IF RSign(b.q) = 0 THEN VErr ELSE VNum(RDiv(a.q, b.q))
      [] Op1(t, "-") ->
            LET a == Eval(numstr, t[3][1])
            IN CASE a.k = "num" -> VNum(RNeg(a.q))
                 [] a.k = "sym" /\ a.f ->
                      VSym(IF Char(a.s, 1) = "-" THEN SubSeq(a.s, 2, Len(a.s)) ELSE "-" \o a.s, TRUE)
                 [] OTHER -> VErr
      [] Op2(t, "..") \/ t[1] = "l" -> VErr
      [] OTHER ->
            LET raw == t[Len(t)]
                args == [i \in DOMAIN raw |-> Eval(FALSE, raw[i])]
            IN IF \E i \in DOMAIN args : ~ ArgOK(args[i]) THEN VErr
               ELSE IF t[1] = "t"
                    THEN VSym("(" \o Join(args, 1) \o (IF Len(args) = 1 THEN ",)" ELSE ")"), FALSE)
                    ELSE IF Len(args) = 0 THEN VSym(t[2], TRUE)
                    ELSE VSym(t[2] \o "(" \o Join(args, 1) \o ")", TRUE)

EvalNum(t) == LET v == Eval(TRUE, t) IN IF v.k = "num" THEN v ELSE VErr
EvalVar(t) == LET v == Eval(FALSE, t) IN IF v.k = "sym" THEN v ELSE VErr

(***************************************************************************)
(* Linear terms: sequences of <<variable, coefficient>>; the variable ""   *)
(* stands for a constant.                                                  *)
(***************************************************************************)
LOk(m) == [ok |-> TRUE, m |-> m]
LErr == [ok |-> FALSE, m |-> <<>>]
LScale(m, q) == [i \in DOMAIN m |-> <<m[i][1], RMul(m[i][2], q)>>]
LConst(m) == \A i \in DOMAIN m : m[i][1] = ""

RECURSIVE LProd(_, _, _)
LProd(a, b, k) ==
    IF k = 0 THEN <<>>
    ELSE LET i == ((k - 1) \div Len(b)) + 1
             j == ((k - 1) % Len(b)) + 1
         IN Append(LProd(a, b, k - 1),
                   <<IF a[i][1] = "" THEN b[j][1] ELSE a[i][1], RMul(a[i][2], b[j][2])>>)

RECURSIVE Lin(_)
Lin(t) ==
    CASE t[1] = "n" -> LOk(<<<<"", t[2]>>>>)
      [] Op2(t, "+") -> LET a == Lin(t[3][1])
                            b == Lin(t[3][2])
                        IN IF a.ok /\ b.ok THEN LOk(a.m \o b.m) ELSE LErr
      [] Op2(t, "-") -> LET a == Lin(t[3][1])
                            b == Lin(t[3][2])
                        IN IF a.ok /\ b.ok THEN LOk(a.m \o LScale(b.m, RInt(-1))) ELSE LErr
      [] Op1(t, "-") -> LET a == Lin(t[3][1]) IN IF a.ok THEN LOk(LScale(a.m, RInt(-1))) ELSE LErr
      [] Op1(t, "+") -> Lin(t[3][1])
      [] Op2(t, "*") -> LET a == Lin(t[3][1])
                            b == Lin(t[3][2])
                        IN IF a.ok /\ b.ok /\ (LConst(a.m) \/ LConst(b.m))
                           THEN LOk(LProd(a.m, b.m, Len(a.m) * Len(b.m))) ELSE LErr
      [] Op2(t, "/") -> LET a == Lin(t[3][1])
                            b == EvalNum(t[3][2])
                        IN IF a.ok /\ b.k = "num" /\ RSign(b.q) # 0
                           THEN LOk(LScale(a.m, RDiv(ROne, b.q))) ELSE LErr
      [] t[1] = "s" /\ Quoted(t[2]) ->
            LET d == Decimal(t[2])
            IN IF d # <<>> THEN LOk(<<<<"", d[1]>>>>) ELSE LOk(<<<<t[2], RInt(1)>>>>)
      [] OTHER -> LET v == EvalVar(t) IN IF v.k = "sym" THEN LOk(<<<<v.s, RInt(1)>>>>) ELSE LErr

(***************************************************************************)
(* Atoms.                                                                  *)
(***************************************************************************)
El(c, m) == [i \in DOMAIN m |-> <<c, m[i][1], m[i][2]>>]
Con(l, e, r, b) == [l |-> l, e |-> e, r |-> r, b |-> b]
AErr == [ok |-> FALSE, cons |-> <<>>, obj |-> <<>>, isobj |-> FALSE]
ACons(cs) == [ok |-> TRUE, cons |-> cs, obj |-> <<>>, isobj |-> FALSE]
Rels == {"<=", ">=", "=", "<", ">"}
Is(a, n) == a.n = <<"s", n>>

RECURSIVE Elems(_, _)
Elems(es, i) ==            \* [ok, m] over elements <<condition, variable, coefficient>>
    IF i > Len(es) THEN LOk(<<>>)
    ELSE IF Len(es[i].t) # 1 THEN LErr
    ELSE LET a == Lin(es[i].t[1])
             r == Elems(es, i + 1)
         IN IF a.ok /\ r.ok THEN LOk(El(es[i].c, a.m) \o r.m) ELSE LErr

Single(a) == Len(a.e) = 1 /\ Len(a.e[1].t) = 1 /\ a.e[1].c = 1

AtomMeaning(a) ==
    CASE Is(a, "sum") ->
           IF a.g = <<>> THEN AErr
           ELSE LET lhs == Elems(a.e, 1)
                    rhs == Lin(a.g[2])
                IN IF lhs.ok /\ rhs.ok /\ a.g[1] \in Rels
                   THEN ACons(<<Con(a.l, lhs.m \o El(1, LScale(rhs.m, RInt(-1))), a.g[1], RZero)>>)
                   ELSE AErr
      [] Is(a, "diff") ->
           IF a.g = <<>> \/ ~ Single(a) \/ ~ Op2(a.e[1].t[1], "-") THEN AErr
           ELSE LET x == Eval(TRUE, a.e[1].t[1][3][1])
                    y == Eval(TRUE, a.e[1].t[1][3][2])
                    rhs == Lin(a.g[2])
                    part(v, q) == IF v.k = "num" THEN <<1, "", RMul(v.q, q)>> ELSE <<1, v.s, q>>
                IN IF x.k = "err" \/ y.k = "err" \/ ~ rhs.ok \/ a.g[1] \notin Rels THEN AErr
                   ELSE ACons(<<Con(a.l, <<part(x, RInt(1)), part(y, RInt(-1))>>
                                          \o El(1, LScale(rhs.m, RInt(-1))), a.g[1], RZero)>>)
      [] Is(a, "dom") ->
           IF a.g = <<>> \/ ~ Single(a) \/ ~ Op2(a.e[1].t[1], "..") THEN AErr
           ELSE LET v == EvalVar(a.g[2])
                    lo == EvalNum(a.e[1].t[1][3][1])
                    hi == EvalNum(a.e[1].t[1][3][2])
                IN IF v.k # "sym" \/ lo.k # "num" \/ hi.k # "num" THEN AErr
                   ELSE ACons(<<Con(a.l, <<<<1, v.s, RInt(1)>>>>, "<=", hi.q),
                                Con(a.l, <<<<1, v.s, RInt(1)>>>>, ">=", lo.q)>>)
      [] Is(a, "maximize") \/ Is(a, "minimize") ->
           LET m == Elems(a.e, 1)
               sgn == IF Is(a, "minimize") THEN RInt(-1) ELSE RInt(1)
           IN IF ~ m.ok THEN AErr
              ELSE [ok |-> TRUE, cons |-> <<>>, isobj |-> TRUE,
                    obj |-> [i \in DOMAIN m.m |-> <<m.m[i][1], m.m[i][2], RMul(m.m[i][3], sgn)>>]]
      [] OTHER -> ACons(<<>>)

(***************************************************************************)
(* All atoms of a step.                                                    *)
(***************************************************************************)
RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(f) THEN <<>> ELSE f[i] \o Flat(f, i + 1)

RECURSIVE SumFor(_, _, _, _)
SumFor(e, c, v, i) ==
    IF i = 0 THEN RZero
    ELSE IF e[i][1] = c /\ e[i][2] = v THEN RAdd(e[i][3], SumFor(e, c, v, i - 1)) ELSE SumFor(e, c, v, i - 1)

Names(e) == {e[i][2] : i \in DOMAIN e} \ {""}
Meaning(atoms) ==
    LET ms == [i \in DOMAIN atoms |-> AtomMeaning(atoms[i])]
        cons == Flat([i \in DOMAIN ms |-> ms[i].cons], 1)
        obj == Flat([i \in DOMAIN ms |-> ms[i].obj], 1)
        ok == /\ \A i \in DOMAIN ms : ms[i].ok
              \* constants do not belong into objectives
              /\ RSign(SumFor(obj, 1, "", Len(obj))) = 0
    IN [ok |-> ok, cons |-> cons, obj |-> obj,
        may |-> UNION {Names(cons[i].e) : i \in DOMAIN cons} \cup Names(obj)]
=============================================================================
