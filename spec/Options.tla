------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Configuration of the theory.                                            *)
(*                                                                         *)
(* A configuration is a record; setting a key to a value either changes    *)
(* exactly one part of it or is refused and changes nothing.  Keys are     *)
(* compared exactly, values without regard to case.  Both are given as     *)
(* sequences of characters.                                                *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

Defaults ==
    [strict |-> FALSE, global |-> FALSE, gstep |-> QZero, conflicts |-> FALSE, bounds |-> "none",
     select |-> "none", store |-> "no"]

OUpper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerOf == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
ODigits == <<"0","1","2","3","4","5","6","7","8","9">>
OHas(seq, c) == \E i \in DOMAIN seq : seq[i] = c
OIndex(seq, c) == CHOOSE i \in DOMAIN seq : seq[i] = c
OLower(v) == [i \in DOMAIN v |-> IF OHas(OUpper, v[i]) THEN LowerOf[OIndex(OUpper, v[i])] ELSE v[i]]

RECURSIVE OJoin(_)
OJoin(v) == IF v = <<>> THEN "" ELSE v[1] \o OJoin(Tail(v))
OWord(v) == OJoin(OLower(v))

(***************************************************************************)
(* Values.  Each parser yields a sequence with the value or the empty one. *)
(***************************************************************************)
OBool(v) ==
    CASE OWord(v) \in {"yes", "on", "1"} -> <<TRUE>>
      [] OWord(v) \in {"no", "off", "0"} -> <<FALSE>>
      [] OTHER -> <<>>
OneOf(v, set) == IF OWord(v) \in set THEN <<OWord(v)>> ELSE <<>>

\* an optionally signed decimal number
RECURSIVE ODecimal(_, _)
ODecimal(v, acc) ==
    IF v = <<>> THEN acc
    ELSE ODecimal(Tail(v), RAdd(RMul(<<10, 1>>, acc), <<OIndex(ODigits, v[1]) - 1, 1>>))
OIsDecimal(v) == v # <<>> /\ \A i \in DOMAIN v : OHas(ODigits, v[i])
OWhole(v) ==
    IF v # <<>> /\ v[1] = "-" THEN (IF OIsDecimal(Tail(v)) THEN <<RNeg(ODecimal(Tail(v), RZero))>> ELSE <<>>)
    ELSE IF OIsDecimal(v) THEN <<ODecimal(v, RZero)>> ELSE <<>>
\* n or n/d with d not zero
ORational(v) ==
    LET s == {i \in DOMAIN v : v[i] = "/"}
    IN IF s = {} THEN OWhole(v)
       ELSE IF Cardinality(s) > 1 THEN <<>>
       ELSE LET k == CHOOSE i \in s : TRUE
                n == OWhole(SubSeq(v, 1, k - 1))
                d == OWhole(SubSeq(v, k + 1, Len(v)))
            IN IF n = <<>> \/ d = <<>> THEN <<>>
               ELSE IF RSign(d[1]) = 0 THEN <<>> ELSE <<RDiv(n[1], d[1])>>

\* <<global, step>>
ObjMode(v) ==
    LET w == OLower(v)
        head == OJoin(SubSeq(w, 1, IF Len(w) < 7 THEN Len(w) ELSE 7))
        rest == SubSeq(v, 8, Len(v))
    IN CASE OWord(v) = "local" -> <<<<FALSE, QZero>>>>
         [] OWord(v) = "global" -> <<<<TRUE, QZero>>>>
         [] head = "global," /\ OWord(rest) = "e" -> <<<<TRUE, <<RZero, ROne>>>>>>
         [] head = "global," /\ ORational(rest) # <<>> -> <<<<TRUE, QRat(ORational(rest)[1])>>>>
         [] OTHER -> <<>>

\* the values a key accepts, and the configuration they lead to
OptSet(o, key, v) ==
    LET k == OJoin(key)
        p == CASE k \in {"strict", "propagate-conflicts"} -> OBool(v)
               [] k = "propagate-bounds" -> OneOf(v, {"none", "changed", "full"})
               [] k = "select" -> OneOf(v, {"none", "match", "conflict"})
               [] k = "store" -> OneOf(v, {"no", "partial", "total"})
               [] k = "objective" -> ObjMode(v)
               [] OTHER -> <<>>
    IN IF p = <<>> THEN [ok |-> FALSE, o |-> o]
       ELSE [ok |-> TRUE,
             o |-> CASE k = "strict" -> [o EXCEPT !.strict = p[1]]
                     [] k = "propagate-conflicts" -> [o EXCEPT !.conflicts = p[1]]
                     [] k = "propagate-bounds" -> [o EXCEPT !.bounds = p[1]]
                     [] k = "select" -> [o EXCEPT !.select = p[1]]
                     [] k = "store" -> [o EXCEPT !.store = p[1]]
                     [] OTHER -> [o EXCEPT !.global = p[1][1], !.gstep = p[1][2]]]

\* a step with an infinitesimal part needs strict mode
OptValid(o) == o.strict \/ RSign(o.gstep[2]) = 0

\* a whole command line: every option is fine and given once, and so is their combination
RECURSIVE OptSetAll(_, _)
OptSetAll(o, args) ==
    IF args = <<>> THEN [ok |-> OptValid(o), parsed |-> TRUE, o |-> o]
    ELSE LET r == OptSet(o, args[1][1], args[1][2])
         IN IF r.ok THEN OptSetAll(r.o, Tail(args)) ELSE [ok |-> FALSE, parsed |-> FALSE, o |-> o]
OptLine(o, args) ==
    IF Cardinality({OJoin(args[i][1]) : i \in DOMAIN args}) = Len(args) THEN OptSetAll(o, args)
    ELSE [ok |-> FALSE, parsed |-> FALSE, o |-> o]

\* what the help lists: names, whether it is a flag, and the words of its value
OptDocumented ==
    {<<"strict", TRUE, {}>>, <<"propagate-conflicts", TRUE, {}>>, <<"propagate-bounds", FALSE, {"none", "changed", "full"}>>,
     <<"objective", FALSE, {"local", "global", "step"}>>, <<"select", FALSE, {"none", "match", "conflict"}>>,
     <<"store", FALSE, {"no", "partial", "total"}>>}
OptHelpOK(list) ==
    /\ Len(list) = Cardinality(OptDocumented)
    /\ {<<list[i][1], list[i][2], {list[i][3][j] : j \in DOMAIN list[i][3]}>> : i \in DOMAIN list} = OptDocumented
=============================================================================
