-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* A rational is a pair <<n, d>> in lowest terms with d > 0.  The          *)
(* definitions below are the meaning.  TLC integers are 32 bit, so the     *)
(* module is evaluated by a Java override (java/lpx/Overrides.java) that   *)
(* computes the same functions with unbounded integers: a numerator or     *)
(* denominator that does not fit a TLC integer is written as a decimal     *)
(* string.  Module SelfTest checks the override against the definitions.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL RAbs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)

\* the rational n/d in lowest terms
RNorm(n, d) ==
    LET g == RGcd(RAbs(n), RAbs(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN <<s * (n \div g), s * (d \div g)>>

RAdd(a, b) == RNorm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a)    == <<-a[1], a[2]>>
RSub(a, b) == RNorm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RNorm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RNorm(a[1] * b[2], a[2] * b[1])
RSign(a)   == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
\* (use REq instead of =: TLC cannot compare the string form with an integer)
REq(a, b)  == a[1] * b[2] = b[1] * a[2]
RIsInt(a)  == a[2] = 1
RNum(a)    == <<a[1], 1>>
RDen(a)    == <<a[2], 1>>
\* greatest common divisor of two integers
IGcd(a, b) == <<RGcd(RAbs(a[1]), RAbs(b[1])), 1>>
\* canonical text of a rational: "n" or "n/d"
RText(a)   == IF a[2] = 1 THEN ToString(a[1]) ELSE ToString(a[1]) \o "/" \o ToString(a[2])

RZero == <<0, 1>>
ROne  == <<1, 1>>
RInt(n) == <<n, 1>>

(***************************************************************************)
(* Rationals extended by a positive infinitesimal: <<c, k>> is c + k*e.    *)
(***************************************************************************)
QAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
QSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
QNeg(a)    == <<RNeg(a[1]), RNeg(a[2])>>
QScale(r, a) == <<RMul(r, a[1]), RMul(r, a[2])>>
QDivR(a, r) == <<RDiv(a[1], r), RDiv(a[2], r)>>
QLt(a, b)  == RLt(a[1], b[1]) \/ (REq(a[1], b[1]) /\ RLt(a[2], b[2]))
QEq(a, b)  == REq(a[1], b[1]) /\ REq(a[2], b[2])
QLe(a, b)  == ~ QLt(b, a)
QZero      == <<RZero, RZero>>
QRat(r)    == <<r, RZero>>
\* canonical text: the rational part is omitted if zero (unless both are)
QText(a) ==
    IF RSign(a[2]) = 0 THEN RText(a[1])
    ELSE (IF RSign(a[1]) = 0 THEN "" ELSE RText(a[1]) \o "+")
         \o (IF REq(a[2], ROne) THEN "" ELSE RText(a[2]) \o "*")
         \o "e"
=============================================================================
