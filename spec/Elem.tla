--------------------------------- MODULE Elem ---------------------------------
(* The value of an expression of elementary functions.  An expression stands  *)
(* for an element of a field of functions in which x, E^x, E^(I x), Log[x], Pi *)
(* and the roots and logarithms of the primes have no relation but those of    *)
(* the definitions; it is looked at under maps of that field onto prime        *)
(* fields GF(q), q = 1 mod 24.  The maps send                                  *)
(*   E^(I Pi/12)   to an element zeta of order 24, I = zeta^6,                 *)
(*   E^u           to g^(e(u)), g of order m, e linear over the Gaussian       *)
(*                 integers mod m,                                             *)
(*   x             to a sixth power, and other functions to arbitrary values   *)
(*                 that depend on the value of the argument.                   *)
(* Two expressions with different images have different values.                *)
EXTENDS Terms, ElemTab
U == -1                                              \* not defined
FAdd(V, a, b) == IF a < 0 \/ b < 0 THEN U ELSE (a + b) % V.q
FMul(V, a, b) == IF a < 0 \/ b < 0 THEN U ELSE (a * b) % V.q
FNeg(V, a) == IF a < 0 THEN U ELSE (V.q - a) % V.q
RECURSIVE FPow(_, _, _)
FPow(V, a, n) == IF a < 0 THEN U ELSE IF n = 0 THEN 1 ELSE LET h == FPow(V, (a * a) % V.q, n \div 2) IN IF n % 2 = 0 THEN h ELSE (h * a) % V.q
FInv(V, a) == IF a <= 0 THEN U ELSE FPow(V, a, V.q - 2)
FDiv(V, a, b) == FMul(V, a, FInv(V, b))
\* a^n for an integer n; 0^0 and 0^-1 are not defined
FExp(V, a, n) == IF a < 0 THEN U ELSE IF n > 0 THEN FPow(V, a, n) ELSE IF a = 0 THEN U ELSE IF n = 0 THEN 1 ELSE FPow(V, FInv(V, a), -n)
FI(V, n) == n % V.q
ZetaPow(V, k) == FPow(V, V.zeta, (IF V.cj = 1 THEN -k ELSE k) % 24)
Im1(V) == ZetaPow(V, 6)
\* ------------------------------------------------------- exact numbers
Small(t) == t[1] = "i" \/ (t[1] = "q" /\ t[2][1] = "i" /\ t[3][1] = "i")
Num(t) == IF t[1] = "i" THEN t[2] ELSE t[2][2]
Den(t) == IF t[1] = "i" THEN 1 ELSE t[3][2]
FBig(V, z) == LET v == FoldRight(LAMBDA d, acc : (acc * 10000 + d) % V.q, z[3], 0) IN IF z[2] < 0 THEN (V.q - v) % V.q ELSE v
FNum(V, t) ==
  CASE t[1] = "i" -> FI(V, t[2])
    [] t[1] = "z" -> FBig(V, t)
    [] t[1] = "q" -> LET p(u) == IF u[1] = "i" THEN FI(V, u[2]) ELSE FBig(V, u) IN FDiv(V, p(t[2]), p(t[3]))
    [] OTHER -> U
CRe(t) == IF t[1] = "c" THEN t[2] ELSE t
CIm(t) == IF t[1] = "c" THEN t[3] ELSE I(0)
Primes == {2, 3, 5, 7, 11, 13}
RECURSIVE Val(_, _)
Val(n, p) == IF n % p # 0 THEN 0 ELSE 1 + Val(n \div p, p)
Rest(n, S) == FoldLeft(LAMBDA acc, p : acc \div (p ^ Val(n, p)), n, SetToSeq(S))
\* n^(a/b) for n > 0
RootPos(V, n, a, b) ==
  LET S == {2, 3, 5, 7}
      one(p) == LET e == Val(n, p) * a
                IN IF e % b = 0 THEN FExp(V, FI(V, p), e \div b)
                   ELSE IF (2 * e) % b = 0 THEN FExp(V, V.two[p], (2 * e) \div b)
                   ELSE IF p \in {2, 3} /\ (6 * e) % b = 0 THEN FExp(V, V.six[p], (6 * e) \div b)
                   ELSE U
  IN IF Rest(n, S) # 1 THEN U ELSE FoldLeft(LAMBDA acc, p : FMul(V, acc, one(p)), 1, SetToSeq(S))
\* (-1)^(a/b), the principal value
RootNeg(V, a, b) == IF (12 * a) % b = 0 THEN ZetaPow(V, (12 * a) \div b) ELSE U
RootNum(V, t, a, b) ==
  LET r == FDiv(V, RootPos(V, Abs(Num(t)), a, b), RootPos(V, Den(t), a, b))
  IN IF Num(t) = 0 THEN (IF a > 0 THEN 0 ELSE U) ELSE IF Num(t) > 0 THEN r ELSE FMul(V, RootNeg(V, a, b), r)
\* logarithms of positive integers, in the field and as exponents
LogPos(V, n) == IF Rest(n, Primes) # 1 THEN U ELSE FoldLeft(LAMBDA acc, p : (acc + Val(n, p) * V.logp[p]) % V.q, 0, SetToSeq(Primes))
LamPos(V, n) == IF Rest(n, Primes) # 1 THEN U ELSE FoldLeft(LAMBDA acc, p : (acc + Val(n, p) * V.lamp[p]) % V.m, 0, SetToSeq(Primes))
\* ----------------------------------------- exponents: <<re, im>> modulo m
GU == <<U, U>>
GAdd(V, a, b) == IF a = GU \/ b = GU THEN GU ELSE <<(a[1] + b[1]) % V.m, (a[2] + b[2]) % V.m>>
GMul(V, a, b) == IF a = GU \/ b = GU THEN GU ELSE <<(a[1] * b[1] - a[2] * b[2]) % V.m, (a[1] * b[2] + a[2] * b[1]) % V.m>>
MInv(a, m) == CHOOSE x \in 0..(m - 1) : (a * x) % m = 1
MNum(V, t) == IF ~Small(t) THEN U
              ELSE IF \E x \in 1..(V.m - 1) : ((Den(t) % V.m) * x) % V.m = 1 THEN ((Num(t) % V.m) * MInv(Den(t) % V.m, V.m)) % V.m ELSE U
GNum(V, t) == LET a == MNum(V, CRe(t))
                  b == MNum(V, CIm(t))
              IN IF a = U \/ b = U THEN GU ELSE <<a, IF V.cj = 1 THEN (V.m - b) % V.m ELSE b>>
IsN(t) == t[1] \in {"i", "z", "q", "c"}
Key(V, s) == IF V.cj = 1 /\ V.re = 0 THEN s \o "*" ELSE s
RECURSIVE HasI(_)
HasI(t) == t[1] = "c" \/ t \in {Sy("I"), Sy("Pi"), Sy("Degree")} \/ (t[1] = "e" /\ \E i \in 3..Len(t) : HasI(t[i]))
\* a product with its (small) numbers brought together
RECURSIVE Factors(_)
Factors(t) == IF HasHead(t, "Times") THEN Flat1([i \in 1..N(t) |-> Factors(t[i + 2])]) ELSE <<t>>
\* the product of the numbers among factors: <<re, im>> as small fractions <<n, d>>
RedFr(f) == LET g == CHOOSE g \in 1..Max2(Abs(f[1]), f[2]) : (f[1] % g = 0 /\ f[2] % g = 0 /\ \A h \in (g + 1)..Max2(Abs(f[1]), f[2]) : f[1] % h # 0 \/ f[2] % h # 0) IN <<f[1] \div g, f[2] \div g>>
FrMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
FrSub(a, b) == <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
FrAdd(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
FrOf(t) == <<Num(t), Den(t)>>
Tiny(t) == Small(t) /\ Abs(Num(t)) < 300 /\ Den(t) < 60
NumPart(t) == IF t = Sy("I") THEN <<<<0, 1>>, <<1, 1>>>> ELSE <<FrOf(CRe(t)), FrOf(CIm(t))>>
IsNumF(t) == t = Sy("I") \/ (IsN(t) /\ Tiny(CRe(t)) /\ Tiny(CIm(t)))
CxMul(a, b) == <<RedFr(FrSub(FrMul(a[1], b[1]), FrMul(a[2], b[2]))), RedFr(FrAdd(FrMul(a[1], b[2]), FrMul(a[2], b[1])))>>
CxTerm(c) == LET r(f) == IF f[2] = 1 THEN I(f[1]) ELSE <<"q", I(f[1]), I(f[2])>> IN IF c[2][1] = 0 THEN r(c[1]) ELSE <<"c", r(c[1]), r(c[2])>>
TinyC(c) == Abs(c[1][1]) < 300 /\ Abs(c[2][1]) < 300 /\ c[1][2] < 60 /\ c[2][2] < 60
CxZero(c) == c[1][1] = 0 /\ c[2][1] = 0
CxOne == <<<<1, 1>>, <<0, 1>>>>
FoldNum(t) ==
  LET fs == Factors(t)
      c == FoldLeft(LAMBDA acc, u : IF TinyC(acc) THEN CxMul(acc, NumPart(u)) ELSE acc, CxOne, SelectSeq(fs, LAMBDA u : IsNumF(u)))
      rest == SelectSeq(fs, LAMBDA u : ~IsNumF(u))
  IN IF ~TinyC(c) THEN t ELSE IF Len(rest) = 0 \/ CxZero(c) THEN CxTerm(c)
     ELSE IF c = CxOne THEN (IF Len(rest) = 1 THEN rest[1] ELSE En("Times", rest)) ELSE En("Times", <<CxTerm(c)>> \o rest)
RECURSIVE HasPi(_)
HasPi(t) == t \in {Sy("Pi"), Sy("Degree")} \/ (t[1] = "e" /\ \E i \in 3..Len(t) : HasPi(t[i]))
RECURSIVE PowPlus(_)
PowPlus(t) == t[1] = "e" /\ ((HSym(t) = "Power" /\ N(t) = 2 /\ HasHead(t[3], "Plus")) \/ \E i \in 3..Len(t) : PowPlus(t[i]))
RECURSIVE FVal(_, _), ExpOf(_, _), GVal(_, _)
\* the arbitrary functions
Hash(V, k, v) == IF v < 0 THEN U ELSE FMul(V, FPow(V, (v + 17 * k + 5) % V.q, 5), 31 + k)
EvenHash(V, k, v) == IF v < 0 THEN U ELSE Hash(V, k, IF 2 * v > V.q THEN V.q - v ELSE v)
OddHash(V, k, v) == IF v < 0 THEN U ELSE IF v = 0 THEN 0 ELSE IF 2 * v > V.q THEN FNeg(V, Hash(V, k, V.q - v)) ELSE Hash(V, k, v)
\* functions within an exponent: arbitrary values, odd functions of the value
Opaque(t) == (HSym(t) \in {"Sin", "Cos"} /\ N(t) = 1) \/ (HeadN(t, "Power", 2) /\ t[3] = Sy("E")) \/ HeadN(t, "Exp", 1)
GVal(V, t) ==
  CASE IsN(t) -> GNum(V, t)
    [] t = Sy("I") -> GNum(V, <<"c", I(0), I(1)>>)
    [] t = Sy("Pi") -> <<V.pie, 0>>
    [] t = Sy("Degree") -> GMul(V, <<V.pie, 0>>, GNum(V, <<"q", I(1), I(180)>>))
    [] t[1] = "s" -> (IF t[2] \in SymNames THEN <<V.exp[Key(V, t[2])], 0>> ELSE GU)
    [] HasHead(t, "Plus") -> FoldLeft(LAMBDA acc, u : GAdd(V, acc, GVal(V, u)), <<0, 0>>, Args(t))
    [] HasHead(t, "Times") -> (IF Cardinality({i \in 3..Len(t) : Opaque(t[i])}) > 1 THEN GU ELSE FoldLeft(LAMBDA acc, u : GMul(V, acc, GVal(V, u)), <<1, 0>>, Args(t)))
    [] HeadN(t, "Power", 2) /\ t[4][1] = "i" /\ t[4][2] \in 1..6 /\ ~(HasHead(t[3], "Plus") /\ HasPi(t[3])) -> LET b == GVal(V, t[3]) IN FoldLeft(LAMBDA acc, u : GMul(V, acc, b), <<1, 0>>, [k \in 1..t[4][2] |-> k])
    [] HeadN(t, "Power", 2) /\ t[4][1] = "i" /\ t[4][2] \in -6..-1 ->
         LET b == GVal(V, t[3])
         IN IF b[1] < 0 \/ b[2] # 0 \/ ~(\E x \in 1..(V.m - 1) : (b[1] * x) % V.m = 1) THEN GU
            ELSE LET w == MInv(b[1], V.m) IN FoldLeft(LAMBDA acc, u : GMul(V, acc, <<w, 0>>), <<1, 0>>, [k \in 1..(-t[4][2]) |-> k])
    [] Opaque(t) /\ ~HasI(t) ->
         LET v == FVal(V, t) IN IF v < 0 THEN GU ELSE IF v = 0 THEN <<0, 0>> ELSE IF 2 * v > V.q THEN <<(-Hash(V, 3, V.q - v)) % V.m, 0>> ELSE <<Hash(V, 3, v) % V.m, 0>>
    [] OTHER -> GU
GToF(V, w) == IF w = GU THEN U ELSE FPow(V, V.g, (w[1] + w[2] * V.J) % V.m)
RECURSIVE HasLog(_)
HasLog(t) == HSym(t) = "Log" \/ (t[1] = "e" /\ \E i \in 3..Len(t) : HasLog(t[i]))
\* E^t
ExpOf(V, t) ==
  IF HasHead(t, "Plus") THEN FoldLeft(LAMBDA acc, u : FMul(V, acc, ExpOf(V, u)), 1, Args(t))
  ELSE LET gs == Factors(t)
           plus == {i \in 1..Len(gs) : HasHead(gs[i], "Plus")}
           nums == SelectSeq(gs, LAMBDA u : IsNumF(u))
           rest == SelectSeq(gs, LAMBDA u : ~IsNumF(u))
           c == FoldLeft(LAMBDA acc, u : CxMul(acc, NumPart(u)), <<<<1, 1>>, <<0, 1>>>>, nums)
           lg == {i \in 1..Len(rest) : HSym(rest[i]) = "Log"}
       IN IF plus # {} /\ (HasPi(t) \/ HasLog(t) \/ Cardinality(plus) = 1)
          THEN LET k == CHOOSE i \in plus : TRUE
               IN FoldLeft(LAMBDA acc, u : FMul(V, acc, ExpOf(V, En("Times", <<u>> \o RemoveAt1(gs, k)))), 1, Args(gs[k]))
          ELSE IF Len(rest) = 0 THEN GToF(V, GNum(V, CxTerm(c)))
          ELSE IF rest = <<Sy("Pi")>>
          THEN (IF (12 * c[2][1]) % c[2][2] # 0 THEN U
                ELSE FMul(V, ZetaPow(V, (12 * c[2][1]) \div c[2][2]), GToF(V, GMul(V, GNum(V, CxTerm(<<c[1], <<0, 1>>>>)), <<V.pie, 0>>))))
          ELSE IF rest = <<Sy("Degree")>>
          THEN (IF c[2][1] % (15 * c[2][2]) # 0 THEN U
                ELSE FMul(V, ZetaPow(V, c[2][1] \div (15 * c[2][2])), GToF(V, GMul(V, GNum(V, CxTerm(<<c[1], <<0, 1>>>>)), GVal(V, Sy("Degree"))))))
          ELSE IF HasPi(t) /\ \E i \in 1..Len(rest) : IsN(rest[i]) THEN U
          ELSE IF lg # {}
          THEN (IF Len(rest) > 1 /\ \E i \in 1..Len(rest) : HasPi(rest[i]) THEN U
                ELSE LET k == CHOOSE i \in lg : TRUE
                         ot == RemoveAt1(rest, k)
                         cc == IF c = <<<<1, 1>>, <<0, 1>>>> THEN <<>> ELSE <<CxTerm(c)>>
                     IN FVal(V, E2("Power", rest[k][3], IF Len(ot) = 0 THEN CxTerm(c) ELSE En("Times", cc \o ot))))
          ELSE GToF(V, FoldLeft(LAMBDA acc, u : GMul(V, acc, GVal(V, u)), GNum(V, CxTerm(c)), rest))
EI(V, t) == ExpOf(V, En("Times", <<Sy("I"), t>>))
CosOf(V, t) == LET e == EI(V, t) IN FDiv(V, FAdd(V, e, FInv(V, e)), 2)
SinOf(V, t) == LET e == EI(V, t) IN FDiv(V, FAdd(V, e, FNeg(V, FInv(V, e))), FMul(V, 2, Im1(V)))
CoshOf(V, t) == LET e == ExpOf(V, t) IN FDiv(V, FAdd(V, e, FInv(V, e)), 2)
SinhOf(V, t) == LET e == ExpOf(V, t) IN FDiv(V, FAdd(V, e, FNeg(V, FInv(V, e))), 2)
\* Sin and Cos of ArcTan[p/q]
TriInv(V, t, cos) ==
  LET u == t[3]
      h == <<"q", I(Num(u) * Num(u) + Den(u) * Den(u)), I(Den(u) * Den(u))>>
      r == RootNum(V, h, -1, 2)
  IN IF cos THEN r ELSE FMul(V, FNum(V, u), r)
PiTimes(V, n, d) == FMul(V, V.pi, FDiv(V, FI(V, n), FI(V, d)))
ATan(V, n, d) == \* ArcTan[n/d], d > 0
  LET f == RedFr(<<n, d>>) IN IF f[1] = 0 THEN 0 ELSE IF Abs(f[1]) = f[2] THEN PiTimes(V, f[1], 4 * f[2]) ELSE OddHash(V, 1, FDiv(V, FI(V, f[1]), FI(V, f[2])))
ATan2(V, x, y) ==                                    \* the argument of x + I y, rational numbers
  LET n == Num(y) * Den(x)
      d == Den(y) * Num(x)
      r == IF d > 0 THEN ATan(V, n, d) ELSE ATan(V, -n, -d)
  IN IF Num(x) > 0 THEN r ELSE IF Num(x) < 0 THEN FAdd(V, r, IF Num(y) >= 0 THEN V.pi ELSE FNeg(V, V.pi))
     ELSE IF Num(y) > 0 THEN PiTimes(V, 1, 2) ELSE IF Num(y) < 0 THEN PiTimes(V, -1, 2) ELSE U
ASin(V, u) == LET h == IF Num(u) < 0 THEN -1 ELSE 1
              IN IF Num(u) = 0 THEN 0 ELSE IF Den(u) = 1 /\ Abs(Num(u)) = 1 THEN PiTimes(V, h, 2) ELSE IF Den(u) = 2 /\ Abs(Num(u)) = 1 THEN PiTimes(V, h, 6) ELSE OddHash(V, 2, FNum(V, u))
RECURSIVE NoSym(_)
NoSym(t) == IF t[1] = "s" THEN t[2] \notin SymNames ELSE IF t[1] = "e" THEN \A i \in 3..Len(t) : NoSym(t[i]) ELSE TRUE
Sq(V, t) == FMul(V, FVal(V, t), FVal([V EXCEPT !.cj = 1 - @], t))
\* the value does not depend on the symbols (or is not defined)
Const(V, t) == NoSym(t) \/ FVal(V, t) < 0 \/ FVal(V, t) = FVal([V EXCEPT !.sym = [k \in DOMAIN @ |-> (@[k] + 1) % V.q], !.exp = [k \in DOMAIN @ |-> (@[k] + 1) % V.m], !.lam = [k \in DOMAIN @ |-> (@[k] + 1) % V.m]], t)
AbsOf(V, t) ==
  LET fs == Factors(t)
      c == FoldLeft(LAMBDA acc, u : CxMul(acc, NumPart(u)), <<<<1, 1>>, <<0, 1>>>>, SelectSeq(fs, LAMBDA u : IsNumF(u)))
      rest == SelectSeq(fs, LAMBDA u : ~IsNumF(u) /\ u # Sy("Pi"))
      pis == SelectSeq(fs, LAMBDA u : u = Sy("Pi"))
      n2 == RedFr(FrAdd(FrMul(c[1], c[1]), FrMul(c[2], c[2])))
      m2 == RootNum(V, IF n2[2] = 1 THEN I(n2[1]) ELSE <<"q", I(n2[1]), I(n2[2])>>, 1, 2)
      ab == IF c[2][1] = 0 THEN FDiv(V, FI(V, Abs(c[1][1])), FI(V, c[1][2])) ELSE IF c[1][1] = 0 THEN FDiv(V, FI(V, Abs(c[2][1])), FI(V, c[2][2])) ELSE m2
      k == FMul(V, ab, FPow(V, V.pi, Len(pis)))
  IN IF Len(rest) = 0 THEN k ELSE IF Const(V, t) THEN U ELSE Hash(V, 4, Sq(V, t))
Conj(V) == [V EXCEPT !.cj = 1 - @]
FVal(V, t) ==
  CASE t[1] \in {"i", "z", "q"} -> FNum(V, t)
    [] t[1] = "c" -> FAdd(V, FNum(V, t[2]), FMul(V, FNum(V, t[3]), Im1(V)))
    [] t[1] = "s" -> (CASE t[2] = "I" -> Im1(V) [] t[2] = "E" -> GToF(V, <<1, 0>>) [] t[2] = "Pi" -> V.pi
                        [] t[2] = "Degree" -> PiTimes(V, 1, 180)
                        [] t[2] \in SymNames -> FPow(V, V.sym[Key(V, t[2])], 6)
                        [] OTHER -> U)
    [] t[1] # "e" -> U
    [] HasHead(t, "Plus") -> FoldLeft(LAMBDA acc, u : FAdd(V, acc, FVal(V, u)), 0, Args(t))
    [] HasHead(t, "Times") -> FoldLeft(LAMBDA acc, u : FMul(V, acc, FVal(V, u)), 1, Args(t))
    [] HeadN(t, "Sqrt", 1) -> FVal(V, E2("Power", t[3], <<"q", I(1), I(2)>>))
    [] HeadN(t, "Exp", 1) -> ExpOf(V, t[3])
    [] HeadN(t, "Power", 2) -> LET b == t[3]
                                   e == t[4]
       IN (CASE b = Sy("E") -> ExpOf(V, e)
             [] e[1] = "i" -> FExp(V, FVal(V, b), e[2])
             [] HasHead(e, "Plus") -> FoldLeft(LAMBDA acc, u : FMul(V, acc, FVal(V, E2("Power", b, u))), 1, Args(e))
             [] HasHead(e, "Times") /\ (\E i \in 3..Len(e) : HasHead(e[i], "Plus")) ->
                  LET k == CHOOSE i \in 1..N(e) : HasHead(e[i + 2], "Plus")
                  IN FoldLeft(LAMBDA acc, u : FMul(V, acc, FVal(V, E2("Power", b, FoldNum(En("Times", <<u>> \o RemoveAt1(Args(e), k)))))), 1, Args(e[k + 2]))
             [] PowPlus(e) -> U
             [] e[1] = "q" /\ Small(e) /\ Small(b) -> RootNum(V, b, Num(e), Den(e))
             [] e[1] = "q" /\ Small(e) /\ b[1] = "s" /\ b[2] \in SymNames ->
                  (IF (6 * Num(e)) % Den(e) = 0 THEN FExp(V, V.sym[Key(V, b[2])], (6 * Num(e)) \div Den(e)) ELSE U)
             [] e[1] = "q" /\ Small(e) /\ HeadN(b, "Times", 2) /\ Small(b[3]) /\ Num(b[3]) > 0 ->
                  FMul(V, RootNum(V, b[3], Num(e), Den(e)), FVal(V, E2("Power", b[4], e)))
             [] IsN(e) -> U
             [] b = I(1) -> 1
             [] b = I(-1) -> GToF(V, GMul(V, <<77, 0>>, GVal(V, e)))
             [] b[1] = "i" /\ b[2] < -1 -> FMul(V, FVal(V, E2("Power", I(-1), e)), FVal(V, E2("Power", I(-b[2]), e)))
             [] b[1] = "i" /\ b[2] > 1 -> (IF LamPos(V, b[2]) = U THEN U ELSE GToF(V, GMul(V, <<LamPos(V, b[2]), 0>>, GVal(V, e))))
             [] b[1] = "q" /\ Small(b) /\ Num(b) > 0 ->
                  (IF LamPos(V, Num(b)) = U \/ LamPos(V, Den(b)) = U THEN U ELSE GToF(V, GMul(V, <<(LamPos(V, Num(b)) - LamPos(V, Den(b))) % V.m, 0>>, GVal(V, e))))
             [] b[1] = "s" /\ b[2] \in SymNames -> GToF(V, GMul(V, <<V.lam[Key(V, b[2])], 0>>, GVal(V, e)))
             \* positive numbers can be taken out of the base; the power of what is left is arbitrary
             [] HasHead(b, "Times") /\ Small(b[3]) /\ Num(b[3]) > 0 /\ N(b) > 1 -> FMul(V, FVal(V, E2("Power", b[3], e)), FVal(V, E2("Power", IF N(b) = 2 THEN b[4] ELSE En("Times", Tail(Args(b))), e)))
             [] HasHead(b, "Times") /\ Small(b[3]) /\ Num(b[3]) < 0 /\ b[3] # I(-1) /\ N(b) > 1 ->
                  FMul(V, FVal(V, E2("Power", IF b[3][1] = "i" THEN I(-Num(b[3])) ELSE <<"q", I(-Num(b[3])), I(Den(b[3]))>>, e)), FVal(V, E2("Power", En("Times", <<I(-1)>> \o Tail(Args(b))), e)))
             [] HSym(b) \in {"Plus", "Times", "Sin", "Cos", "Log"} /\ ~NoSym(b) -> (LET v == FVal(V, b) IN IF v < 0 THEN U ELSE GToF(V, GMul(V, <<Hash(V, 6, v) % V.m, 0>>, GVal(V, e))))
             [] OTHER -> U)
    [] HeadN(t, "Log", 1) -> LET u == t[3]
       IN (CASE u = Sy("E") -> 1
             [] Small(u) -> (IF Num(u) = 0 \/ LogPos(V, Abs(Num(u))) = U \/ LogPos(V, Den(u)) = U THEN U
                             ELSE FAdd(V, FAdd(V, LogPos(V, Abs(Num(u))), FNeg(V, LogPos(V, Den(u)))), IF Num(u) > 0 THEN 0 ELSE FMul(V, Im1(V), V.pi)))
             \* the principal value of Log[E^z]: the imaginary part is brought into (-Pi, Pi]
             [] HeadN(u, "Power", 2) /\ u[3] = Sy("E") /\ (u[4] = Sy("I") \/ IsN(u[4])) ->
                  LET z == IF u[4] = Sy("I") THEN <<"c", I(0), I(1)>> ELSE u[4]
                      im == CIm(z)
                      \* k with |im - 2 Pi k| < Pi
                      k == CHOOSE k \in -40..40 : LET v == Num(im) * 113 - 710 * k * Den(im) IN v <= 355 * Den(im) /\ v > -355 * Den(im)
                  IN IF ~Tiny(CRe(z)) \/ ~Tiny(im) \/ Abs(Num(im)) > 200 * Den(im) THEN U
                     ELSE FAdd(V, FVal(V, z), FNeg(V, FMul(V, FMul(V, FI(V, 2 * k), V.pi), Im1(V))))
             [] HeadN(u, "Power", 2) /\ u[3] = Sy("E") /\ HeadN(u[4], "Times", 2) /\ IsNumF(u[4][3]) /\ u[4][4] = Sy("Pi") ->
                  LET c == NumPart(u[4][3])
                      k == CHOOSE k \in -400..400 : c[2][1] - 2 * k * c[2][2] <= c[2][2] /\ c[2][1] - 2 * k * c[2][2] > -c[2][2]
                  IN FAdd(V, FVal(V, u[4]), FNeg(V, FMul(V, FMul(V, FI(V, 2 * k), V.pi), Im1(V))))
             [] HasHead(u, "Times") /\ N(u) > 1 /\ Small(u[3]) /\ Num(u[3]) > 0 ->
                  FAdd(V, FVal(V, E1("Log", u[3])), FVal(V, E1("Log", IF N(u) = 2 THEN u[4] ELSE En("Times", Tail(Args(u))))))
             [] Const(V, u) -> U
             [] OTHER -> Hash(V, 5, FVal(V, u)))
    [] HeadN(t, "Sin", 1) -> (IF HeadN(t[3], "ArcSin", 1) THEN FVal(V, t[3][3]) ELSE IF HeadN(t[3], "ArcTan", 1) /\ Small(t[3][3]) THEN TriInv(V, t[3], FALSE) ELSE SinOf(V, t[3]))
    [] HeadN(t, "Cos", 1) -> (IF HeadN(t[3], "ArcCos", 1) THEN FVal(V, t[3][3]) ELSE IF HeadN(t[3], "ArcTan", 1) /\ Small(t[3][3]) THEN TriInv(V, t[3], TRUE) ELSE CosOf(V, t[3]))
    [] HeadN(t, "Tan", 1) -> (IF HeadN(t[3], "ArcTan", 1) THEN FVal(V, t[3][3]) ELSE FDiv(V, SinOf(V, t[3]), CosOf(V, t[3])))
    [] HeadN(t, "Cot", 1) -> FDiv(V, CosOf(V, t[3]), SinOf(V, t[3]))
    [] HeadN(t, "Sec", 1) -> FInv(V, CosOf(V, t[3]))
    [] HeadN(t, "Csc", 1) -> FInv(V, SinOf(V, t[3]))
    [] HeadN(t, "Sinh", 1) -> SinhOf(V, t[3])
    [] HeadN(t, "Cosh", 1) -> CoshOf(V, t[3])
    [] HeadN(t, "Tanh", 1) -> FDiv(V, SinhOf(V, t[3]), CoshOf(V, t[3]))
    [] HeadN(t, "Coth", 1) -> FDiv(V, CoshOf(V, t[3]), SinhOf(V, t[3]))
    [] HeadN(t, "Sech", 1) -> FInv(V, CoshOf(V, t[3]))
    [] HeadN(t, "Csch", 1) -> FInv(V, SinhOf(V, t[3]))
    [] HeadN(t, "ArcTan", 1) -> (IF Tiny(t[3]) THEN ATan(V, Num(t[3]), Den(t[3])) ELSE IF Const(V, t[3]) THEN U ELSE OddHash(V, 1, FVal(V, t[3])))
    [] HeadN(t, "ArcTan", 2) /\ Tiny(t[3]) /\ Tiny(t[4]) -> ATan2(V, t[3], t[4])
    [] HeadN(t, "ArcSin", 1) -> (IF Tiny(t[3]) THEN ASin(V, t[3]) ELSE IF Const(V, t[3]) THEN U ELSE OddHash(V, 2, FVal(V, t[3])))
    [] HeadN(t, "ArcCos", 1) -> FAdd(V, PiTimes(V, 1, 2), FNeg(V, FVal(V, E1("ArcSin", t[3]))))
    [] HeadN(t, "Abs", 1) -> AbsOf(V, t[3])
    [] HeadN(t, "Sign", 1) /\ Small(t[3]) -> FI(V, IF Num(t[3]) > 0 THEN 1 ELSE IF Num(t[3]) < 0 THEN -1 ELSE 0)
    [] HeadN(t, "Conjugate", 1) -> FVal(Conj(V), t[3])
    [] HeadN(t, "Re", 1) -> FDiv(V, FAdd(V, FVal(V, t[3]), FVal(Conj(V), t[3])), 2)
    [] HeadN(t, "Im", 1) -> FDiv(V, FAdd(V, FVal(V, t[3]), FNeg(V, FVal(Conj(V), t[3]))), FMul(V, 2, Im1(V)))
    [] HeadN(t, "Arg", 1) /\ IsN(t[3]) /\ Tiny(CRe(t[3])) /\ Tiny(CIm(t[3])) -> (IF t[3] = I(0) THEN 0 ELSE ATan2(V, CRe(t[3]), CIm(t[3])))
    [] OTHER -> U
=============================================================================
