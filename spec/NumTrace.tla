------------------------------ MODULE NumTrace ------------------------------
(***************************************************************************)
(* Trace specification of the number types.                                *)
(*                                                                         *)
(* A machine with three registers each for integers, rationals and         *)
(* rationals with an epsilon part.  The state is the exact value of every  *)
(* register; an operation changes the registers it writes and no others,   *)
(* whichever overload, value category or aliasing it is used with.  The    *)
(* text of every register is compared after every operation.               *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.LPX_TRACES)

VARIABLES tr, pos, m

T == Traces[tr]
Ev == T.ev[pos]
O == Ev.op

Regs(z) == [r \in 1..3 |-> z]
Init ==
    /\ tr \in DOMAIN Traces
    /\ pos = 1
    /\ m = [i |-> Regs(RZero), r |-> Regs(RZero), q |-> Regs(QZero)]

\* the registers hold integers as rationals with denominator one
AsQ(t, j) == IF t = "F" THEN QRat(O.v)
             ELSE IF t = "I" THEN QRat(m.i[j]) ELSE IF t = "R" THEN QRat(m.r[j]) ELSE m.q[j]
Bin(p, a, b) ==
    CASE p = "+" -> QAdd(a, b)
      [] p = "-" -> QSub(a, b)
      [] p = "*" -> QScale(b[1], a)
      [] p = "/" -> QDivR(a, b[1])
Put(t, d, v) ==
    CASE t = "I" -> [m EXCEPT !.i[d] = v[1]]
      [] t = "R" -> [m EXCEPT !.r[d] = v[1]]
      [] t = "Q" -> [m EXCEPT !.q[d] = v]
Sign(q) == IF RSign(q[1]) # 0 THEN RSign(q[1]) ELSE RSign(q[2])
B01(b) == IF b THEN 1 ELSE 0
Same(x) == [m |-> m, r |-> x]
New(x) == [m |-> x, r |-> <<>>]
IntMin == <<"-2147483648", 1>>
IntMax == <<2147483647, 1>>

Effect ==
    CASE O.o \in {"int", "inti"} -> New(Put("I", O.d, QRat(O.v)))
      [] O.o \in {"rat", "rati"} -> New(Put("R", O.d, QRat(O.v)))
      [] O.o \in {"ratnd", "mk"} -> New(Put("R", O.d, QRat(RDiv(m.i[O.a], m.i[O.b]))))
      [] O.o = "q"    -> New(Put("Q", O.d, <<m.r[O.a], m.r[O.b]>>))
      [] O.o = "copy" -> New(Put(O.t, O.d, AsQ(O.t, O.a)))
      [] O.o = "swap" ->
            New(CASE O.t = "I" -> [m EXCEPT !.i[O.a] = m.i[O.b], !.i[O.b] = m.i[O.a]]
                  [] O.t = "R" -> [m EXCEPT !.r[O.a] = m.r[O.b], !.r[O.b] = m.r[O.a]]
                  [] O.t = "Q" -> [m EXCEPT !.q[O.a] = m.q[O.b], !.q[O.b] = m.q[O.a]])
      [] O.o = "neg"  -> New(Put(O.t, O.d, QNeg(AsQ(O.t, O.a))))
      [] O.o = "bin"  -> New(Put(O.t, O.d, Bin(O.op, AsQ(O.t, O.a), AsQ(O.bt, O.b))))
      [] O.o = "cmp"  ->
            LET c == Sign(QSub(AsQ(O.t, O.a), AsQ(O.bt, O.b)))
            IN Same(<<c, B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0), B01(c = 0), B01(c # 0)>>)
      [] O.o = "gcd"  -> New(Put("I", O.d, QRat(IGcd(m.i[O.a], m.i[O.b]))))
      [] O.o = "gcddiv" ->
            LET g == IGcd(m.i[O.a], m.i[O.b])
            IN Same(<<RText(g), RText(RDiv(m.i[O.a], g)), RText(RDiv(m.i[O.b], g))>>)
      [] O.o = "divide" -> New(Put("I", O.d, QRat(RDiv(m.i[O.d], m.i[O.a]))))
      [] O.o = "addmul" -> New(Put("I", O.d, QRat(RAdd(m.i[O.d], RMul(m.i[O.a], m.i[O.b])))))
      [] O.o = "asint"  ->
            Same(IF RLe(IntMin, m.i[O.a]) /\ RLe(m.i[O.a], IntMax) THEN <<RText(m.i[O.a])>> ELSE <<>>)
      [] O.o = "num" -> New(Put("I", O.d, QRat(RNum(m.r[O.a]))))
      [] O.o = "den" -> New(Put("I", O.d, QRat(RDen(m.r[O.a]))))
      [] O.o = "show" -> Same(<<RText(O.vs), RText(O.vc), QText(<<O.vc, O.vk>>)>>)
      [] O.o = "asrat" ->
            IF RSign(m.q[O.a][2]) = 0 THEN [m |-> Put("R", O.d, QRat(m.q[O.a][1])), r |-> <<1>>]
            ELSE Same(<<2>>)

L(name, cond) == IF cond THEN {name} ELSE {}
Texts(f, Op(_)) == [j \in 1..3 |-> Op(f[j])]

Step ==
    IF Ev.e = "end" THEN [m |-> m, bad |-> L("end_" \o Ev.how, Ev.how # "ok")]
    ELSE LET x == Effect
         IN [m |-> x.m,
             bad |-> L(IF O.o = "show" THEN "num_show" ELSE "num_result", x.r # Ev.r)
                     \cup L("num_int", \E j \in 1..3 : RText(x.m.i[j]) # Ev.I[j])
                     \cup L("num_rat", \E j \in 1..3 : RText(x.m.r[j]) # Ev.R[j])
                     \cup L("num_eps", \E j \in 1..3 : QText(x.m.q[j]) # Ev.Q[j])]

Next ==
    /\ pos <= Len(T.ev)
    /\ LET r == Step
       IN /\ m' = r.m
          /\ IF r.bad = {} THEN TRUE ELSE PrintT(<<"REJECT", T.id, pos, r.bad>>)
          /\ IF pos < Len(T.ev) THEN TRUE ELSE PrintT(<<"DONE", T.id>>)
    /\ pos' = pos + 1
    /\ UNCHANGED tr

Spec == Init /\ [][Next]_<<tr, pos, m>>
View == <<tr, pos>>
=============================================================================
