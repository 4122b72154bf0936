-------------------------------- MODULE LawNum --------------------------------
(* The arithmetic of the specification is the one of the integers, rationals *)
(* and Gaussian rationals: field laws, the equations that define division,   *)
(* gcd and rounding, the order of the numbers, and unique normal forms, on   *)
(* all pairs (and triples with Third) of numbers around the boundaries of    *)
(* the representation.                                                       *)
EXTENDS Num
Big(n, k) == ZAdd(ZPow(<<"i", n>>, k), Z0)
Ints == {ZI(n) : n \in {0, 1, -1, 2, -2, 3, -3, 7, -12, 30, 9999, 10000, -10001, LIM - 1, LIM, -LIM, 1 - LIM, LIM + 1}}
        \cup {Big(10, 8), Big(10, 12), ZSub(Big(10, 12), Z1), ZNeg(Big(2, 31)), Big(2, 63), ZSub(Big(2, 63), Z1), ZNeg(Big(2, 64)), Big(7, 40), Big(-3, 41)}
Quos == {QMk(n, d) : n \in {Z1, ZI(-3), ZI(7), Big(10, 12)}, d \in {ZI(2), ZI(-5), ZI(10000), Big(2, 40)}}
Cs == {CMk(ZI(1), ZI(2)), CMk(Z0, ZI(-1)), CMk(QMk(ZI(1), ZI(2)), ZI(3)), CMk(Big(2, 40), QMk(ZI(-1), ZI(3)))}
CONSTANT Deep
Few == {ZI(n) : n \in {0, 1, -3, 10000, LIM - 1, -LIM}} \cup {ZSub(Big(10, 12), Z1), ZNeg(Big(2, 31)), Big(2, 63), Big(-3, 41)}
       \cup {QMk(ZI(-3), ZI(2)), QMk(Big(10, 12), ZI(7)), QMk(ZI(7), Big(2, 40)), CMk(Z0, ZI(-1)), CMk(QMk(ZI(1), ZI(2)), ZI(3))}
U == IF Deep THEN Ints \cup Quos \cup Cs ELSE Few
Third == {ZI(-7), ZI(10000), QMk(ZI(-3), ZI(2)), Big(2, 40), CMk(ZI(1), ZI(2))}
VARIABLES x, y
Init == x \in U /\ y = <<>>
Next == y = <<>> /\ y' \in U /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>
-------------------------------------------------------------------------------
Limbs(m) == Len(m) >= 1 /\ m[Len(m)] # 0 /\ \A i \in 1..Len(m) : m[i] \in 0..(B - 1)
ZOk(a) == \/ a[1] = "i" /\ Len(a) = 2 /\ Abs(a[2]) < LIM
          \/ a[1] = "z" /\ a[2] \in {-1, 1} /\ Limbs(a[3]) /\ MCmp(a[3], MOf(LIM)) >= 0
QOk(a) == ZOk(a) \/ (a[1] = "q" /\ ZOk(a[2]) /\ ZOk(a[3]) /\ ZSg(a[3]) = 1 /\ a[3] # Z1 /\ ZGcd(a[2], a[3]) = Z1)
NOk(a) == QOk(a) \/ (a[1] = "c" /\ QOk(a[2]) /\ QOk(a[3]) /\ a[3] # Z0)
IsZ(a) == a[1] \in {"i", "z"}
IsQ(a) == a[1] \in {"i", "z", "q"}
Two == y # <<>>
-------------------------------------------------------------------------------
Normal == Two => NOk(NAdd(x, y)) /\ NOk(NMul(x, y)) /\ NOk(NNeg(x))
Ring == Two => /\ NAdd(x, y) = NAdd(y, x) /\ NMul(x, y) = NMul(y, x)
               /\ NAdd(x, NNeg(x)) = Z0 /\ NAdd(x, Z0) = x /\ NMul(x, Z1) = x /\ NMul(x, Z0) = Z0
               /\ NAdd(NAdd(x, y), NNeg(y)) = x
               /\ \A z \in Third : /\ NAdd(NAdd(x, y), z) = NAdd(x, NAdd(y, z))
                                   /\ NMul(NMul(x, y), z) = NMul(x, NMul(y, z))
                                   /\ NMul(NAdd(x, y), z) = NAdd(NMul(x, z), NMul(y, z))
Field == (IsQ(x) /\ x # Z0) => QMul(x, QInv(x)) = Z1 /\ QInv(QInv(x)) = x
Division == (Two /\ IsZ(x) /\ IsZ(y) /\ y # Z0) =>
              LET d == ZDivMod(x, y) IN /\ ZAdd(ZMul(d[1], y), d[2]) = x
                                        /\ ZCmp(ZAbs(d[2]), ZAbs(y)) < 0 /\ (d[2] = Z0 \/ ZSg(d[2]) = ZSg(y))
Gcd == (Two /\ IsZ(x) /\ IsZ(y) /\ (x # Z0 \/ y # Z0)) =>
              LET g == ZGcd(x, y) IN /\ ZSg(g) = 1 /\ ZMod(x, g) = Z0 /\ ZMod(y, g) = Z0
                                     /\ ZGcd(ZQuo(x, g), ZQuo(y, g)) = Z1
                                     /\ \A z \in {ZI(-7), ZI(10000)} : ZGcd(ZMul(x, z), ZMul(y, z)) = ZMul(g, ZAbs(z))
Ordered == (Two /\ IsQ(x) /\ IsQ(y)) => /\ QCmp(x, y) = QSg(QSub(x, y)) /\ QCmp(x, y) = -QCmp(y, x)
                                        /\ (QCmp(x, y) = 0) = (x = y)
                                        /\ \A z \in {ZI(-7), QMk(ZI(-3), ZI(2))} : QCmp(QAdd(x, z), QAdd(y, z)) = QCmp(x, y) /\ QCmp(QMul(x, z), QMul(y, z)) = -QCmp(x, y)
Rounding == IsQ(x) => LET f == QFloor(x) c == QCeil(x) r == QRound(x) h == QMk(Z1, ZI(2))
                      IN /\ IsZ(f) /\ IsZ(c) /\ IsZ(r) /\ QCmp(f, x) <= 0 /\ QCmp(x, ZAdd(f, Z1)) < 0 /\ QCmp(x, c) <= 0 /\ QCmp(ZSub(c, Z1), x) < 0
                         /\ LET d == QSub(x, r) IN QCmp(d, h) <= 0 /\ QCmp(QNeg(h), d) <= 0 /\ (d \in {h, QNeg(h)} => ZIsEven(r))
Power == (IsQ(x) /\ x # Z0 /\ y = <<>>) => \A m, n \in {-3, -1, 0, 1, 2, 5} : QMul(QPow(x, m), QPow(x, n)) = QPow(x, m + n)
===============================================================================
