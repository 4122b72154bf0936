-------------------------------- MODULE LawAlg --------------------------------
(* The laws that make Algebra.tla a denotation: polynomials and rational     *)
(* functions are a ring and a field, derivation is a derivation and agrees   *)
(* on expressions and polynomials, division has quotient and remainder.      *)
EXTENDS Algebra
CONSTANT Deep
X == Sy("x")
Y == Sy("y")
Pw(a, n) == E2("Power", a, I(n))
Tm(a, b) == E2("Times", a, b)
Pl(a, b) == E2("Plus", a, b)
H2 == <<"q", I(1), I(2)>>
Small == <<I(0), I(2), X, Y, Pl(X, I(1)), Pl(Tm(I(3), X), Y), Pw(Pl(X, I(-2)), 2), Tm(X, Pw(Y, -1)), Pw(Pl(X, Y), -1)>>
More == <<I(-1), H2, Pl(Pw(X, 3), Tm(I(-2), X)), Pw(Tm(X, Y), 2), Pl(Pw(X, -1), Y), Pl(Pl(X, Y), Pw(Pl(X, Tm(I(-1), Y)), 2)), Pw(Pl(I(1), Pw(X, 2)), -2), E2("Power", X, H2), Pl(E2("Power", I(2), H2), X), Tm(<<"c", I(1), I(2)>>, X)>>
T == IF Deep THEN Small \o More ELSE Small
VARIABLES i, j, k
Init == i \in 1..Len(T) /\ j = 0 /\ k = 0
Next == \/ j = 0 /\ j' \in 1..Len(T) /\ UNCHANGED <<i, k>>
        \/ j # 0 /\ k = 0 /\ k' \in 1..Len(T) /\ UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j, k>>
R(n) == Rat(T[n])
Eq(a, b) == Compare(a, b) \in {"eq", "oof"}
Eq1(a, b) == Compare(a, b) = "eq"
Plain(n) == \A g \in Gens(R(n)[1]) \cup Gens(R(n)[2]) : g[1] = "s"
Unary ==
  /\ Eq1(R(i), R(i)) /\ Eq1(RAdd(R(i), RNeg(R(i))), R0)
  /\ (~PIsZero(R(i)[1]) => Eq1(RMul(R(i), RInv(R(i))), RC(Z1)))
  /\ (Plain(i) => Eq1(Deriv(T[i], X), RDeriv(R(i), X)) /\ Eq1(Deriv(T[i], Y), RDeriv(R(i), Y)))
  /\ Eq1(Rat(Pw(T[i], 2)), RMul(R(i), R(i)))
  /\ (Plain(i) => Eq1(RDeriv(RDeriv(R(i), X), Y), RDeriv(RDeriv(R(i), Y), X)))
UniP(n) == PIsConst(R(n)[2]) /\ IsUni(R(n)[1], X) /\ Plain(n)
U(n) == UTrim(UOf(R(n)[1], X))
Binary ==
  /\ Eq1(RAdd(R(i), R(j)), RAdd(R(j), R(i))) /\ Eq1(RMul(R(i), R(j)), RMul(R(j), R(i)))
  /\ Eq1(Rat(Pl(T[i], T[j])), RAdd(R(i), R(j))) /\ Eq1(Rat(Tm(T[i], T[j])), RMul(R(i), R(j)))
  /\ (Plain(i) /\ Plain(j) => /\ Eq1(RDeriv(RMul(R(i), R(j)), X), RAdd(RMul(RDeriv(R(i), X), R(j)), RMul(R(i), RDeriv(R(j), X))))
                              /\ Eq1(Deriv(Tm(T[i], T[j]), X), RDeriv(RMul(R(i), R(j)), X))
                              /\ Eq1(Deriv(Pl(T[i], T[j]), X), RAdd(RDeriv(R(i), X), RDeriv(R(j), X))))
  /\ (UniP(i) /\ UniP(j) /\ U(j) # <<>>
      => LET d == UDivMod(U(i), U(j))
             back(v) == QAdd(QMul(UEval(d[1], v), UEval(U(j), v)), UEval(d[2], v))
             g == UGcd(U(i), U(j))
         IN /\ Len(d[2]) < Len(U(j)) /\ \A v \in {I(-2), I(0), I(1), I(5), H2} : back(v) = UEval(U(i), v)
            /\ UDivMod(U(i), g)[2] = <<>> /\ UDivMod(U(j), g)[2] = <<>>)
  \* different values are told apart
  /\ (Compare(R(i), R(j)) = "eq" => Compare(RAdd(R(i), RC(Z1)), R(j)) = "ne")
  \* substitution is a homomorphism
  /\ (Plain(i) /\ Plain(j) => LET e == [s \in {Y} |-> R(j)]
                              IN Eq(RatOf(Tm(T[i], Pl(T[i], Y)), e), RMul(RatOf(T[i], e), RAdd(RatOf(T[i], e), R(j)))))
Ternary ==
  /\ Eq1(RAdd(RAdd(R(i), R(j)), R(k)), RAdd(R(i), RAdd(R(j), R(k))))
  /\ Eq1(RMul(RMul(R(i), R(j)), R(k)), RMul(R(i), RMul(R(j), R(k))))
  /\ Eq1(RMul(R(i), RAdd(R(j), R(k))), RAdd(RMul(R(i), R(j)), RMul(R(i), R(k))))
  /\ (Compare(R(i), R(j)) = "eq" /\ Compare(R(j), R(k)) = "eq" => Compare(R(i), R(k)) = "eq")
Holds == IF (IF j = 0 THEN Unary ELSE IF k = 0 THEN Binary ELSE Ternary) THEN TRUE ELSE PrintT(<<i, j, k>>) /\ FALSE
===============================================================================
