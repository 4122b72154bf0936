-------------------------------- MODULE LawInt --------------------------------
(* The equations that define the integer functions, checked on what the      *)
(* interpreter of the specification computes for all small arguments.        *)
EXTENDS Interp
CONSTANT Deep
R == IF Deep THEN 20 ELSE 8
VARIABLES f, a, b
Fns2 == {"GCD", "LCM", "Mod", "PowerMod", "IntegerDigits", "Partitions", "Multinomial", "Boole", "Range"}
Fns1 == {"PrimeQ", "FactorInteger", "EulerPhi", "Factorial", "Fibonacci", "Prime", "Parity", "Permutations", "Digits", "PrimePi", "Abs"}
Init == f \in Fns1 \cup Fns2 /\ a = -R - 1 /\ b = 0
Next == a < R /\ a' = a + 1 /\ f' = f /\ b' \in (IF f \in Fns1 THEN {0} ELSE -R..R)
Spec == Init /\ [][Next]_<<f, a, b>>
V(t) == Ev(t, Init0)
Two(h) == V(E2(h, I(a), I(b)))
One(h) == V(E1(h, I(a)))
Known1(r) == r[2].oof = ""
Divides(d, n) == d # 0 /\ n % Abs(d) = 0
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
GcdOf(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE MaxOf({d \in 1..(Abs(x) + Abs(y)) : Divides(d, x) /\ Divides(d, y)})
PrimeN(n) == n > 1 /\ \A d \in 2..(n - 1) : ~Divides(d, n)
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN 1 ELSE x * PowN(x, n - 1)
RECURSIVE FactN(_)
FactN(n) == IF n = 0 THEN 1 ELSE n * FactN(n - 1)
RECURSIVE FibN(_)
FibN(n) == IF n <= 1 THEN n ELSE FibN(n - 1) + FibN(n - 2)
RECURSIVE SumS(_)
SumS(x) == IF x = <<>> THEN 0 ELSE Head(x) + SumS(Tail(x))
RECURSIVE FromD(_, _)
FromD(ds, base) == IF ds = <<>> THEN 0 ELSE FromD(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
Nums(t) == [i \in 1..N(t) |-> t[i + 2][2]]
AllI(t) == HasHead(t, "List") /\ \A i \in 3..Len(t) : t[i][1] = "i"
Want ==
  LET r == IF f \in {"GCD", "LCM", "Mod"} THEN Two(f) ELSE <<Null, Init0>> IN
  CASE f = "GCD" -> r[1] = I(GcdOf(a, b))
    [] f = "LCM" -> (IF a = 0 \/ b = 0 THEN r[1] = I(0) ELSE r[1][1] = "i" /\ r[1][2] > 0 /\ r[1][2] * GcdOf(a, b) = Abs(a * b))
    [] f = "Mod" -> (IF b = 0 THEN r[1] \in {E2("Mod", I(a), I(0)), Indet}
                     ELSE r[1][1] = "i" /\ Divides(b, a - r[1][2]) /\ r[1][2] \in 0..(Abs(b) - 1))
    [] f = "PowerMod" -> (IF a < 0 THEN \A m \in 1..7 : LET x == V(E3("PowerMod", I(b), I(-(Abs(a) % 4) - 1), I(m)))[1]
                                                       IN IF b = 0 THEN TRUE ELSE IF GcdOf(b, m) = 1 THEN x[1] = "i" /\ x[2] \in 0..(m - 1) /\ (x[2] * PowN(b, (Abs(a) % 4) + 1) - 1) % m = 0
                                                          ELSE x[1] = "e"
                          ELSE (b = 0 /\ a % 6 = 0) \/ \A m \in 1..7 : LET x == V(E3("PowerMod", I(b), I(a % 6), I(m))) IN ~Known1(x) \/ x[1] = I(PowN(b, a % 6) % m))
    [] f = "IntegerDigits" -> (IF b < 2 \/ a < 0 THEN TRUE
                               ELSE LET x == V(E2("IntegerDigits", I(a), I(b)))
                                    IN ~Known1(x) \/ (AllI(x[1]) /\ FromD(Nums(x[1]), b) = a /\ N(x[1]) >= 1 /\ (a > 0 => x[1][3] # I(0))
                                                      /\ \A i \in 1..N(x[1]) : Nums(x[1])[i] \in 0..(b - 1)))
    [] f = "Partitions" -> (IF a < 0 \/ a > 7 \/ b < 1 THEN TRUE
                            ELSE LET x == V(E2("IntegerPartitions", I(a), I(b)))
                                     all == {p \in UNION {[1..k -> 1..a] : k \in 0..b} : SumS(p) = a /\ \A i \in 2..Len(p) : p[i] <= p[i - 1]}
                                 IN ~Known1(x) \/ b > 4 \/ (N(x[1]) = Cardinality(all) /\ {Nums(x[1][i]) : i \in 3..Len(x[1])} = all))
    [] f = "Multinomial" -> (IF a < 0 \/ b < 0 \/ a + b > 12 THEN TRUE ELSE LET x == V(E2("Multinomial", I(a), I(b))) IN ~Known1(x) \/ x[1] = I(FactN(a + b) \div (FactN(a) * FactN(b))))
    [] f = "Boole" -> TRUE
    [] f = "Range" -> \A d \in {-3, -1, 1, 2} : LET x == V(E3("Range", I(a), I(b), I(d)))
                                                   want == {a + k * d : k \in 0..(2 * R + 2)} \cap (IF d > 0 THEN a..b ELSE b..a)
                                               IN ~Known1(x) \/ (AllI(x[1]) /\ N(x[1]) = Cardinality(want) /\ \A k \in 1..N(x[1]) : Nums(x[1])[k] = a + (k - 1) * d)
    [] f = "PrimeQ" -> LET x == One("PrimeQ") IN ~Known1(x) \/ x[1] = Bool(PrimeN(a)) \/ (a < 0 /\ x[1] = Bool(PrimeN(-a)))
    [] f = "FactorInteger" -> (IF a < 2 THEN TRUE ELSE LET x == One("FactorInteger")
                               IN /\ \A i \in 3..Len(x[1]) : PrimeN(x[1][i][3][2]) /\ x[1][i][4][2] >= 1
                                  /\ \A i \in 4..Len(x[1]) : x[1][i - 1][3][2] < x[1][i][3][2]
                                  /\ FoldLeft(LAMBDA acc, p : acc * PowN(p[3][2], p[4][2]), 1, Args(x[1])) = a)
    [] f = "EulerPhi" -> (IF a < 1 THEN TRUE ELSE LET x == One("EulerPhi") IN ~Known1(x) \/ x[1] = I(Cardinality({k \in 1..a : GcdOf(k, a) = 1})))
    [] f = "Factorial" -> (IF a < 0 \/ a > 9 THEN TRUE ELSE One("Factorial")[1] = I(FactN(a)))
    [] f = "Fibonacci" -> (IF a < 0 THEN One("Fibonacci")[1] = I((IF (-a) % 2 = 0 THEN -1 ELSE 1) * FibN(-a)) ELSE LET x == One("Fibonacci") IN ~Known1(x) \/ x[1] = I(FibN(a)))
    [] f = "Prime" -> (IF a < 1 THEN TRUE ELSE LET x == One("Prime") IN PrimeN(x[1][2]) /\ Cardinality({p \in 1..x[1][2] : PrimeN(p)}) = a)
    [] f = "PrimePi" -> (IF a < 2 THEN TRUE ELSE LET x == One("PrimePi") IN ~Known1(x) \/ x[1] = I(Cardinality({p \in 1..a : PrimeN(p)})))
    [] f = "Parity" -> One("EvenQ")[1] = Bool(a % 2 = 0) /\ One("OddQ")[1] = Bool(a % 2 = 1) /\ One("Sign")[1] = I(IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0)
                        /\ One("Positive")[1] = Bool(a > 0) /\ One("Negative")[1] = Bool(a < 0)
    [] f = "Abs" -> One("Abs")[1] = I(Abs(a))
    [] f = "Permutations" -> (IF a < 1 \/ a > 4 THEN TRUE
                              ELSE LET l == <<Sy("x"), Sy("y"), Sy("x"), Sy("z")>>
                                       x == V(E1("Permutations", En("List", SubSeq(l, 1, a))))[1]
                                       want == {[i \in 1..a |-> l[p[i]]] : p \in {q \in [1..a -> 1..a] : \A i, j \in 1..a : i # j => q[i] # q[j]}}
                                   IN N(x) = Cardinality(want) /\ {Args(x[i]) : i \in 3..Len(x)} = want)
    [] f = "Digits" -> (IF a < 0 THEN TRUE ELSE LET x == V(E1("FromDigits", E1("IntegerDigits", I(a * 37)))) IN ~Known1(x) \/ x[1] = I(a * 37))
Holds == a < -R \/ IF Want THEN TRUE ELSE PrintT(<<f, a, b>>) /\ FALSE
===============================================================================
