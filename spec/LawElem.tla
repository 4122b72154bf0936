-------------------------------- MODULE LawElem -------------------------------
(* The specification of elementary functions obeys the laws it stands for:    *)
(* the points are homomorphisms, and the textbook identities hold at them.    *)
EXTENDS ElemPre
Q(n, d) == IF n % d = 0 THEN I(n \div d) ELSE LET f == RedFr(<<n, d>>) IN IF f[2] = 1 THEN I(f[1]) ELSE <<"q", I(f[1]), I(f[2])>>
X == Sy("x")
Y == Sy("y")
PiK(k, d) == Fold(E2("Times", Q(k, d), Sy("Pi")))
\* angles
Angles == {PiK(k, 12) : k \in -13..13} \cup {X, Y, Neg(X), E2("Times", I(2), X), E2("Times", Q(1, 2), Y), E2("Plus", X, Y), E2("Times", X, Y), E2("Plus", X, PiK(1, 4)), En("Times", <<<<"c", I(0), I(1)>>, X>>),
            E2("Plus", I(1), X), <<"c", I(1), I(2)>>, E2("Times", I(15), Sy("Degree")), E2("Times", I(-105), Sy("Degree")), I(0), Q(-1, 2)}
Bases == {I(2), I(3), I(6), I(12), Q(1, 2), Q(2, 3), Q(8, 9), X, Y}
Exps == {I(0), I(1), I(2), I(-1), Q(1, 2), Q(-1, 2), Q(1, 3), Q(2, 3), X, E2("Times", I(2), X), E2("Plus", I(1), X), Neg(Y), E2("Plus", X, Y)}
Kinds == {"point", "trig", "sum", "power", "log", "conj", "diff"}
CONSTANT Deep
VARIABLES kind, p, s, t, set
Terms0(k) ==
  CASE k = "point" -> {<<I(0), I(0)>>}
    [] k \in {"trig", "conj"} -> {<<a, I(0)>> : a \in Angles}
    [] k = "sum" -> Angles \X Angles
    [] k = "power" -> Bases \X Exps
    [] k = "log" -> {<<b, I(0)>> : b \in Bases \cup {I(-2), Q(-3, 4), I(1)}}
    [] k = "diff" -> {<<E1(f, a), I(0)>> : f \in {"Sin", "Cos", "Tan", "Cot", "Sec", "Csc", "Sinh", "Cosh", "Log", "Exp"}, a \in {X, E2("Times", I(2), X), E2("Plus", I(1), X)}}
LInit == kind \in Kinds /\ p \in 1..(IF Deep THEN Len(Points) ELSE 1) /\ s \in {w[1] : w \in Terms0(kind)} /\ t = I(0) /\ set = FALSE
LNext == ~set /\ set' = TRUE /\ UNCHANGED <<kind, p, s>> /\ t' \in {w[2] : w \in {w \in Terms0(kind) : w[1] = s}}
V == Points[p]
F(u) == FVal(V, u)
Eq(a, b) == a < 0 \/ b < 0 \/ a = b                  \* where both are defined
Sum2 == E2("Plus", s, t)
S(u) == F(E1("Sin", u))
C(u) == F(E1("Cos", u))
Is1(a) == a < 0 \/ a = 1
PointOk == kind = "point" => /\ FPow(V, V.zeta, 24) = 1 /\ FPow(V, V.zeta, 12) = V.q - 1 /\ FPow(V, V.zeta, 8) # 1
                             /\ FPow(V, V.g, V.m) = 1 /\ (V.q - 1) % (24 * V.m) = 0
                             /\ \A d \in DOMAIN V.six : FPow(V, V.six[d], 6) = d /\ FPow(V, V.six[d], 3) = V.two[d]
                             /\ \A d \in DOMAIN V.two : FPow(V, V.two[d], 2) = d
                             \* 2 Cos[Pi/4] = Sqrt[2], 2 Cos[Pi/6] = Sqrt[3]
                             /\ FMul(V, 2, C(PiK(1, 4))) = V.two[2] /\ FMul(V, 2, C(PiK(1, 6))) = V.two[3]
                             /\ C(PiK(1, 3)) = FDiv(V, 1, 2) /\ S(PiK(1, 2)) = 1 /\ C(PiK(1, 1)) = V.q - 1
TrigOk == kind = "trig" => /\ Is1(FAdd(V, FPow(V, S(s), 2), FPow(V, C(s), 2)))
                           /\ Eq(S(Fold(Neg(s))), FNeg(V, S(s))) /\ Eq(C(Fold(Neg(s))), C(s))
                           /\ Eq(FMul(V, F(E1("Tan", s)), F(E1("Cot", s))), 1)
                           /\ Eq(F(E1("Sec", s)), F(E2("Power", E1("Cos", s), I(-1))))
                           /\ Eq(S(E2("Plus", s, PiK(2, 1))), S(s)) /\ Eq(S(E2("Plus", s, PiK(1, 2))), C(s)) /\ Eq(C(E2("Plus", s, PiK(1, 1))), FNeg(V, C(s)))
                           /\ Is1(FAdd(V, FPow(V, F(E1("Cosh", s)), 2), FNeg(V, FPow(V, F(E1("Sinh", s)), 2))))
                           /\ Eq(S(Fold(E2("Times", Sy("I"), s))), FMul(V, Im1(V), F(E1("Sinh", s))))
                           /\ S(s) >= 0 /\ C(s) >= 0
SumOk == kind = "sum" => /\ Eq(S(Fold(Sum2)), FAdd(V, FMul(V, S(s), C(t)), FMul(V, C(s), S(t))))
                         /\ Eq(C(Fold(Sum2)), FAdd(V, FMul(V, C(s), C(t)), FNeg(V, FMul(V, S(s), S(t)))))
                         /\ Eq(F(E1("Exp", Fold(Sum2))), FMul(V, F(E1("Exp", s)), F(E1("Exp", t))))
                         /\ S(Fold(Sum2)) >= 0 /\ C(Fold(Sum2)) >= 0
PowerOk == kind = "power" => /\ Eq(F(E2("Power", s, Fold(E2("Plus", t, I(1))))), FMul(V, F(E2("Power", s, t)), F(s)))
                             /\ Eq(FPow(V, F(E2("Power", s, t)), 6), F(E2("Power", s, Fold(E2("Times", I(6), t)))))
                             /\ Eq(F(E2("Power", s, t)), F(E1("Exp", Fold(E2("Times", t, E1("Log", s))))))
                             /\ Eq(FMul(V, F(E2("Power", s, t)), F(E2("Power", s, Fold(Neg(t))))), 1)
LogOk == kind = "log" => /\ Eq(F(E2("Power", Sy("E"), E1("Log", s))), F(s))
                         /\ (Small(s) => Eq(F(E1("Log", CxTerm(CxInv(NumPart(s))))), IF Num(s) > 0 THEN FNeg(V, F(E1("Log", s))) ELSE U))
ConjOk == kind = "conj" => LET D == Conj(V)
                           IN /\ Eq(FVal(V, E1("Conjugate", E1("Conjugate", s))), F(s))
                              /\ Eq(FAdd(V, FVal(V, E1("Re", s)), FMul(V, Im1(V), FVal(V, E1("Im", s)))), F(s))
                              /\ Eq(FVal(D, E1("Re", s)), FVal(V, E1("Re", s))) /\ Eq(FVal(D, E1("Im", s)), FVal(V, E1("Im", s)))
                              /\ Eq(FPow(V, F(E1("Abs", s)), 2), IF Const(V, s) THEN Sq(V, s) ELSE U)
\* the derivative of the reciprocal, the square and the quotient of functions
DiffOk == kind = "diff" => LET d == DTerm(s, X)
                           IN /\ d # NoX
                              /\ Eq(F(DTerm(Pw(s, 2), X)), F(En("Times", <<I(2), s, d>>)))
                              /\ Eq(F(DTerm(E2("Plus", Pw(E1("Sin", s[3]), 2), Pw(E1("Cos", s[3]), 2)), X)), 0)
                              /\ Eq(F(DTerm(Mul(s, Pw(s, -1)), X)), 0)
                              /\ Eq(F(DTerm(E1("Tan", s[3]), X)), F(DTerm(Mul(E1("Sin", s[3]), Pw(E1("Cos", s[3]), -1)), X)))
                              /\ Eq(F(DTerm(E1("Log", s), X)), F(Mul(d, Pw(s, -1))))
Holds == set => PointOk /\ TrigOk /\ SumOk /\ PowerOk /\ LogOk /\ ConjOk /\ DiffOk
LSpec == LInit /\ [][LNext]_<<kind, p, s, t, set>>
=============================================================================
