--------------------------------- MODULE Num ---------------------------------
(* Exact arithmetic: unbounded integers (little endian limbs, base 10000),   *)
(* rationals in lowest terms, exact dyadic reals and complex numbers.        *)
(* An operation whose result is not exactly representable gives NaR.         *)
EXTENDS Terms

B == 10000
LIM == 1073741824
NaR == <<"fx", "?">>

\* ------------------------------------------------------------ magnitudes
RECURSIVE MOf(_)
MOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MOf(n \div B)
RECURSIVE MTrim(_)
MTrim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
RECURSIVE MCmpR(_, _, _)
MCmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE MCmpR(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpR(a, b, Len(a))
RECURSIVE MAddR(_, _, _, _)
MAddR(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == At(a, i) + At(b, i) + c IN <<x % B>> \o MAddR(a, b, i + 1, x \div B)
MAdd(a, b) == MAddR(a, b, 1, 0)
RECURSIVE MSubR(_, _, _, _)
MSubR(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] - At(b, i) - c
       IN IF x < 0 THEN <<x + B>> \o MSubR(a, b, i + 1, 1) ELSE <<x>> \o MSubR(a, b, i + 1, 0)
MSub(a, b) == MTrim(MSubR(a, b, 1, 0))      \* a >= b
RECURSIVE MMulS(_, _, _, _)
MMulS(a, d, i, c) ==                        \* a * d, 0 <= d < B
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == a[i] * d + c IN <<x % B>> \o MMulS(a, d, i + 1, x \div B)
MMul1(a, d) == IF d = 0 THEN <<>> ELSE MMulS(a, d, 1, 0)
MMul(a, b) == FoldRight(LAMBDA d, acc : MAdd(MMul1(a, d), IF acc = <<>> THEN <<>> ELSE <<0>> \o acc), b, <<>>)
\* largest q in lo..hi with b*q <= a
RECURSIVE MDig(_, _, _, _)
MDig(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF MCmp(MTrim(MMul1(b, m)), a) <= 0 THEN MDig(a, b, m, hi) ELSE MDig(a, b, lo, m - 1)
\* <<quotient, remainder>>, b # 0
MDivMod(a, b) ==
  LET step(d, acc) ==
        LET r0 == IF acc[2] = <<>> /\ d = 0 THEN <<>> ELSE <<d>> \o acc[2]
            q == IF MCmp(r0, b) < 0 THEN 0 ELSE MDig(r0, b, 1, B - 1)
        IN TLCEval(<<IF q = 0 /\ acc[1] = <<>> THEN <<>> ELSE <<q>> \o acc[1],
                     IF q = 0 THEN r0 ELSE MSub(r0, MTrim(MMul1(b, q)))>>)
  IN FoldRight(step, a, <<<<>>, <<>>>>)

\* ---------------------------------------------------------------- integers
MNat(m) == FoldRight(LAMBDA d, acc : acc * B + d, m, 0)
ZMk(sg, m) ==                               \* normal form of sg * m
  IF m = <<>> THEN <<"i", 0>>
  ELSE IF Len(m) < 3 \/ (Len(m) = 3 /\ (m[3] < 10 \/ (m[3] = 10 /\ MCmp(m, <<1824, 7374, 10>>) < 0)))
       THEN <<"i", sg * MNat(m)>>
       ELSE <<"z", sg, m>>
ZMag(a) == IF a[1] = "i" THEN MOf(Abs(a[2])) ELSE a[3]
ZSg(a) == IF a[1] = "i" THEN (IF a[2] > 0 THEN 1 ELSE IF a[2] < 0 THEN -1 ELSE 0) ELSE a[2]
ZI(n) == IF Abs(n) < LIM THEN <<"i", n>> ELSE ZMk(IF n < 0 THEN -1 ELSE 1, MOf(Abs(n)))
ZNeg(a) == IF a[1] = "i" THEN <<"i", -a[2]>> ELSE <<"z", -a[2], a[3]>>
ZAbs(a) == IF ZSg(a) < 0 THEN ZNeg(a) ELSE a
ZAdd(a, b) ==
  IF a[1] = "i" /\ b[1] = "i" THEN ZI(a[2] + b[2])
  ELSE IF ZSg(a) = 0 THEN b ELSE IF ZSg(b) = 0 THEN a
  ELSE IF ZSg(a) = ZSg(b) THEN ZMk(ZSg(a), MAdd(ZMag(a), ZMag(b)))
  ELSE LET c == MCmp(ZMag(a), ZMag(b))
       IN IF c = 0 THEN <<"i", 0>>
          ELSE IF c > 0 THEN ZMk(ZSg(a), MSub(ZMag(a), ZMag(b)))
          ELSE ZMk(ZSg(b), MSub(ZMag(b), ZMag(a)))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) ==
  IF a[1] = "i" /\ b[1] = "i" /\ Abs(a[2]) < 32768 /\ Abs(b[2]) < 32768 THEN ZI(a[2] * b[2])
  ELSE IF ZSg(a) = 0 \/ ZSg(b) = 0 THEN <<"i", 0>>
  ELSE ZMk(ZSg(a) * ZSg(b), MMul(ZMag(a), ZMag(b)))
ZCmp(a, b) ==
  IF a[1] = "i" /\ b[1] = "i" THEN (IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0)
  ELSE IF ZSg(a) < ZSg(b) THEN -1 ELSE IF ZSg(a) > ZSg(b) THEN 1
  ELSE ZSg(a) * MCmp(ZMag(a), ZMag(b))
\* floored quotient and remainder (the remainder has the sign of b)
ZDivMod(a, b) ==
  IF a[1] = "i" /\ b[1] = "i" /\ b[2] > 0 THEN <<<<"i", a[2] \div b[2]>>, <<"i", a[2] % b[2]>>>>
  ELSE LET qr == MDivMod(ZMag(a), ZMag(b))
           q0 == ZMk(ZSg(a) * ZSg(b), MTrim(qr[1]))
           r0 == ZMk(ZSg(a), MTrim(qr[2]))
       IN IF ZSg(r0) # 0 /\ ZSg(a) # ZSg(b) THEN <<ZSub(q0, <<"i", 1>>), ZAdd(r0, b)>> ELSE <<q0, r0>>
ZMod(a, b) == ZDivMod(a, b)[2]
ZQuo(a, b) == ZDivMod(a, b)[1]
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
RECURSIVE ZGcdR(_, _)
ZGcdR(a, b) ==
  IF a[1] = "i" /\ b[1] = "i" THEN <<"i", GcdI(a[2], b[2])>>
  ELSE IF ZSg(b) = 0 THEN a ELSE ZGcdR(b, TLCEval(ZMod(a, b)))
ZGcd(a, b) == ZGcdR(ZAbs(a), ZAbs(b))
RECURSIVE ZPow(_, _)
ZPow(a, n) ==                               \* n >= 0 a TLA+ integer
  IF n = 0 THEN <<"i", 1>>
  ELSE LET h == ZPow(a, n \div 2) IN IF n % 2 = 0 THEN ZMul(h, h) ELSE ZMul(a, ZMul(h, h))
Z0 == <<"i", 0>>
Z1 == <<"i", 1>>
ZIsEven(a) == IF a[1] = "i" THEN a[2] % 2 = 0 ELSE a[3][1] % 2 = 0

\* --------------------------------------------------------------- rationals
NumOf(a) == IF a[1] = "q" THEN a[2] ELSE a
DenOf(a) == IF a[1] = "q" THEN a[3] ELSE Z1
QMk(n, d) ==                                \* d # 0
  LET g == ZGcd(n, d)
      n1 == IF g = Z1 THEN n ELSE ZQuo(n, g)
      d1 == IF g = Z1 THEN d ELSE ZQuo(d, g)
      n2 == IF ZSg(d1) < 0 THEN ZNeg(n1) ELSE n1
      d2 == ZAbs(d1)
  IN IF d2 = Z1 THEN n2 ELSE <<"q", n2, d2>>
QAdd(a, b) == IF a[1] # "q" /\ b[1] # "q" THEN ZAdd(a, b)
              ELSE QMk(ZAdd(ZMul(NumOf(a), DenOf(b)), ZMul(NumOf(b), DenOf(a))), ZMul(DenOf(a), DenOf(b)))
QMul(a, b) == IF a[1] # "q" /\ b[1] # "q" THEN ZMul(a, b)
              ELSE QMk(ZMul(NumOf(a), NumOf(b)), ZMul(DenOf(a), DenOf(b)))
QNeg(a) == IF a[1] = "q" THEN <<"q", ZNeg(a[2]), a[3]>> ELSE ZNeg(a)
QSub(a, b) == QAdd(a, QNeg(b))
QInv(a) == QMk(DenOf(a), NumOf(a))
QCmp(a, b) == IF a[1] # "q" /\ b[1] # "q" THEN ZCmp(a, b)
              ELSE ZCmp(ZMul(NumOf(a), DenOf(b)), ZMul(NumOf(b), DenOf(a)))
QSg(a) == ZSg(NumOf(a))
RECURSIVE QPow(_, _)
QPow(a, n) == IF n < 0 THEN QInv(QPow(a, -n))
              ELSE IF a[1] = "q" THEN QMk(ZPow(a[2], n), ZPow(a[3], n)) ELSE ZPow(a, n)
QFloor(a) == IF a[1] = "q" THEN ZQuo(a[2], a[3]) ELSE a
QCeil(a) == IF a[1] = "q" THEN ZNeg(ZQuo(ZNeg(a[2]), a[3])) ELSE a
\* nearest integer, ties to even
QRound(a) ==
  IF a[1] # "q" THEN a
  ELSE LET f == ZQuo(a[2], a[3])
           c == QCmp(QSub(a, f), <<"q", <<"i", 1>>, <<"i", 2>>>>)
       IN IF c < 0 THEN f ELSE IF c > 0 THEN ZAdd(f, Z1)
          ELSE IF ZIsEven(f) THEN f ELSE ZAdd(f, Z1)

\* ------------------------------------------------------------------- reals
\* the exact value of an exact number or of a dyadic real
QOf(a) == IF a[1] = "f" THEN QMk(a[2], a[3]) ELSE a
RECURSIVE Pow2I(_)
Pow2I(n) == n = 1 \/ (n % 2 = 0 /\ Pow2I(n \div 2))
FMk(q) ==                                   \* the real with the value q
  IF NumOf(q)[1] = "i" /\ DenOf(q)[1] = "i" /\ Pow2I(DenOf(q)[2]) THEN <<"f", NumOf(q), DenOf(q)>> ELSE NaR

\* ------------------------------------------- sums and products of numbers
RECURSIVE NAdd(_, _)
RECURSIVE NMul(_, _)
CMk(re, im) == IF re = NaR \/ im = NaR THEN NaR ELSE IF im = Z0 THEN re ELSE <<"c", re, im>>
Re1(a) == IF a[1] = "c" THEN a[2] ELSE a
Im1(a) == IF a[1] = "c" THEN a[3] ELSE Z0
NAdd(a, b) ==
  IF a[1] = "fx" \/ b[1] = "fx" THEN NaR
  ELSE IF a[1] = "c" \/ b[1] = "c" THEN CMk(NAdd(Re1(a), Re1(b)), NAdd(Im1(a), Im1(b)))
  ELSE IF a[1] = "f" \/ b[1] = "f" THEN FMk(QAdd(QOf(a), QOf(b)))
  ELSE QAdd(a, b)
NNeg(a) == IF a[1] = "fx" THEN NaR
           ELSE IF a[1] = "c" THEN <<"c", IF Re1(a)[1] = "f" THEN <<"f", ZNeg(Re1(a)[2]), Re1(a)[3]>> ELSE QNeg(Re1(a)),
                                          IF Im1(a)[1] = "f" THEN <<"f", ZNeg(Im1(a)[2]), Im1(a)[3]>> ELSE QNeg(Im1(a))>>
           ELSE IF a[1] = "f" THEN <<"f", ZNeg(a[2]), a[3]>> ELSE QNeg(a)
NMul(a, b) ==
  IF a[1] = "fx" \/ b[1] = "fx" THEN NaR
  ELSE IF a[1] = "c" \/ b[1] = "c"
       THEN CMk(NAdd(NMul(Re1(a), Re1(b)), NNeg(NMul(Im1(a), Im1(b)))),
                NAdd(NMul(Re1(a), Im1(b)), NMul(Im1(a), Re1(b))))
  ELSE IF a[1] = "f" \/ b[1] = "f" THEN FMk(QMul(QOf(a), QOf(b)))
  ELSE QMul(a, b)
=============================================================================
