--------------------------------- MODULE Lib ---------------------------------
(* Meaning of the library functions that need no evaluation of their own:    *)
(* equality, sums and products of terms, lists, levels, integers, matrices,  *)
(* combinatorics and strings. "?" or OOFT as a result = not modelled.         *)
EXTENDS Print

OOFT == <<"oof">>
Infty == Sy("Infinity")
NegInfty == E2("Times", I(-1), Infty)
CInfty == Sy("ComplexInfinity")
Indet == Sy("Indeterminate")
Specials == {"Infinity", "ComplexInfinity", "Indeterminate"}
HasSpecial(t) == Symbols(t) \cap Specials # {}
RECURSIVE HasInexact(_)
HasInexact(t) == t[1] \in {"f", "fx"} \/ (t[1] \in {"e", "c"} /\ \E i \in 2..Len(t) : HasInexact(t[i]))
IsTI(t) == t[1] = "i"                     \* a machine sized integer of the model
IsNZ(t) == t[1] = "i" /\ t[2] >= 0

\* --------------------------------------------------------------- equality
(* "T" known equal, "F" known different, "U" undecided *)
RECURSIVE IsEq(_, _)
IsEq(a, b) ==
  CASE a[1] \in {"i", "z", "q", "f"} /\ b[1] \in {"i", "z", "q", "f"} -> IF QCmp(QOf(a), QOf(b)) = 0 THEN "T" ELSE "F"
    [] a[1] \in {"i", "z", "q", "f"} /\ b[1] = "c" -> "F"
    [] a[1] = "c" /\ b[1] = "c" -> IF IsEq(a[2], b[2]) = "T" /\ IsEq(a[3], b[3]) = "T" THEN "T" ELSE "F"
    [] a[1] = "c" /\ IsNum(b) -> "F"
    [] IsStr(a) /\ IsStr(b) -> IF a = b THEN "T" ELSE "F"
    [] IsS(a) /\ IsS(b) -> IF a = b THEN "T" ELSE IF {a[2], b[2]} = {"True", "False"} THEN "F" ELSE "U"
    [] IsE(a) /\ IsE(b) -> IF Len(a) = Len(b) /\ \A i \in 2..Len(a) : IsEq(a[i], b[i]) = "T" THEN "T" ELSE "U"
    [] OTHER -> "U"

\* ------------------------------------------------------- sums and products
NumPrefix(args) ==          \* how many leading arguments are numbers
  LET f == {i \in 1..Len(args) : ~IsNum(args[i])}
  IN IF f = {} THEN Len(args) ELSE (CHOOSE i \in f : \A j \in f : i <= j) - 1
\* <<coefficient, variables>> of a term of a sum
SplitTerm(t) ==
  IF HasHead(t, "Times") /\ N(t) >= 2 /\ IsNum(t[3]) THEN <<t[3], SubSeq(t, 4, Len(t))>>
  ELSE IF HasHead(t, "Times") THEN <<Z1, Args(t)>>
  ELSE <<Z1, <<t>>>>
\* neighbours with the same variables are merged, their coefficients summed
Collect(parts) ==
  FoldLeft(LAMBDA acc, p :
    LET c == SplitTerm(p)
        l == Len(acc)
    IN IF ~(IsS(p) \/ IsE(p)) \/ l = 0 THEN Append(acc, <<p, c[1], c[2], 1>>)
       ELSE IF (IsS(acc[l][1]) \/ IsE(acc[l][1])) /\ acc[l][3] = c[2]
            THEN [acc EXCEPT ![l] = <<@[1], NAdd(@[2], c[1]), @[3], @[4] + 1>>]
            ELSE Append(acc, <<p, c[1], c[2], 1>>), <<>>, parts)
PlusStep(t) ==
  LET args == Args(t)
      k == NumPrefix(args)
      sum == FoldLeft(LAMBDA a, b : NAdd(a, b), Z0, SubSeq(args, 1, k))
      rest == SubSeq(args, k + 1, Len(args))
      col == Collect(rest)
      parts == (IF k > 0 /\ sum # Z0 THEN <<sum>> ELSE <<>>)
               \o [i \in 1..Len(col) |-> IF col[i][4] = 1 THEN col[i][1]
                                         ELSE IF col[i][2] = Z1
                                              THEN (IF Len(col[i][3]) = 1 THEN col[i][3][1] ELSE En("Times", col[i][3]))
                                              ELSE En("Times", <<col[i][2]>> \o col[i][3])]
  IN IF args = <<>> THEN Z0
     ELSE IF \E i \in 1..k : args[i][1] = "fx" THEN OOFT
     ELSE IF HasTag(sum, "fx") THEN OOFT
     ELSE IF k = Len(args) THEN sum
     ELSE IF \E i \in 1..Len(rest) : HasSpecial(rest[i])
     THEN LET inf == \E i \in 1..Len(rest) : rest[i] = Infty
              ninf == \E i \in 1..Len(rest) : rest[i] = NegInfty
          IN IF Len(args) = 1 THEN args[1]
             ELSE IF HasInexact(sum) THEN OOFT
             ELSE IF rest = <<Infty>> THEN Infty
             ELSE IF rest = <<NegInfty>> THEN NegInfty
             ELSE IF Len(args) = 2 /\ inf /\ ninf THEN Indet
             ELSE OOFT
     ELSE IF HasInexact(sum) /\ \E i \in 1..Len(rest) : HasTag(rest[i], "i") \/ HasTag(rest[i], "z") \/ HasTag(rest[i], "q")
                                                       \/ HasTag(rest[i], "c") \/ Symbols(rest[i]) \cap {"Pi", "E", "I"} # {} THEN OOFT
     ELSE IF \E i \in 1..Len(col) : HasTag(col[i][2], "fx") THEN OOFT
     ELSE IF Len(parts) = 1 THEN parts[1]
     ELSE En("Plus", parts)

\* base and exponent of a factor
BaseOf(t) == IF HeadN(t, "Power", 2) THEN t[3] ELSE t
ExpOf(t) == IF HeadN(t, "Power", 2) THEN t[4] ELSE Z1
CanMerge(x, y) == /\ BaseOf(x) = BaseOf(y)
                  /\ ~(IsNum(BaseOf(x)) /\ IsNum(ExpOf(x)) /\ IsNum(ExpOf(y)))
RECURSIVE MergeAt(_, _)
MergeAt(args, i) ==
  IF i >= Len(args) THEN 0 ELSE IF CanMerge(args[i], args[i + 1]) THEN i ELSE MergeAt(args, i + 1)
TimesStep(t) ==
  LET args == Args(t)
      k == NumPrefix(args)
      prod == FoldLeft(LAMBDA a, b : NMul(a, b), Z1, SubSeq(args, 1, k))
      rest == SubSeq(args, k + 1, Len(args))
      parts == (IF k > 0 /\ prod # Z1 THEN <<prod>> ELSE <<>>) \o rest
      m == MergeAt(parts, 1)
  IN IF args = <<>> THEN Z1
     ELSE IF \E i \in 1..k : args[i][1] = "fx" THEN OOFT
     ELSE IF HasTag(prod, "fx") THEN OOFT
     ELSE IF k = Len(args) THEN prod
     ELSE IF prod = Z0 THEN (IF \E i \in 1..Len(rest) : rest[i] \in {Infty, CInfty, Indet} THEN Indet
                             ELSE IF \E i \in 1..Len(rest) : HasSpecial(rest[i]) THEN OOFT ELSE Z0)
     ELSE IF Len(parts) = 1 THEN parts[1]
     ELSE IF \E i \in 1..Len(rest) : HasSpecial(rest[i])
     THEN (IF parts = <<I(-1), Infty>> THEN NegInfty
           ELSE IF Len(parts) = 2 /\ IsNum(parts[1]) /\ parts[2] = CInfty THEN CInfty ELSE OOFT)
     ELSE IF HasInexact(prod) /\ \E i \in 1..Len(rest) : HasTag(rest[i], "i") \/ HasTag(rest[i], "z") \/ HasTag(rest[i], "q")
                                                       \/ HasTag(rest[i], "c") \/ Symbols(rest[i]) \cap {"Pi", "E", "I"} # {} THEN OOFT
     ELSE IF Len(parts) = 2 /\ parts[1] = I(-1) /\ HasHead(parts[2], "Plus")
     THEN En("Plus", [i \in 1..N(parts[2]) |-> E2("Times", parts[2][i + 2], I(-1))])
     ELSE IF m > 0 THEN En("Times", SubSeq(parts, 1, m - 1)
                                    \o <<E2("Power", BaseOf(parts[m]), E2("Plus", ExpOf(parts[m]), ExpOf(parts[m + 1])))>>
                                    \o SubSeq(parts, m + 2, Len(parts)))
     ELSE IF \E i \in 1..Len(parts) : HeadN(parts[i], "Power", 2) /\ IsNum(parts[i][3]) /\ IsNum(parts[i][4]) THEN OOFT
     ELSE En("Times", parts)

RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN Z1 ELSE IF n = 1 THEN a
              ELSE LET h == CPow(a, n \div 2) IN IF n % 2 = 0 THEN NMul(h, h) ELSE NMul(a, NMul(h, h))
CInv(a) == LET d == QAdd(QMul(a[2], a[2]), QMul(a[3], a[3])) IN CMk(QMul(a[2], QInv(d)), QNeg(QMul(a[3], QInv(d))))
MaxPow == 400
PowerStep(t) ==             \* two arguments
  LET b == t[3]
      e == t[4]
      eInt == IsInt(e)
      eZ == e = Z0
  IN IF HasTag(t, "fx") THEN OOFT
     ELSE IF e = Z1 THEN b
     ELSE IF b \in {Infty, CInfty, Indet} \/ e \in {Infty, CInfty, Indet, NegInfty} \/ b = NegInfty
     THEN (IF b = Indet \/ e = Indet THEN Indet
           ELSE IF e = CInfty THEN Indet
           ELSE IF b = Infty /\ e = I(-1) THEN Z0
           ELSE IF b \in {Infty, NegInfty} /\ eZ THEN Indet
           ELSE OOFT)
     ELSE IF HasTag(b, "f") \/ e[1] \in {"f", "c"} THEN OOFT
     ELSE IF eZ THEN (IF b = Z0 THEN Indet ELSE Z1)
     ELSE IF b = Z0 /\ IsNum(e) THEN (IF eInt THEN (IF ZSg(e) > 0 THEN Z0 ELSE CInfty) ELSE OOFT)
     ELSE IF b = Z1 THEN Z1
     ELSE IF IsExact(b) /\ eInt
     THEN (IF ~IsTI(e) \/ Abs(e[2]) > MaxPow THEN (IF b = I(-1) THEN (IF ZIsEven(e) THEN Z1 ELSE I(-1)) ELSE OOFT)
           ELSE QPow(b, e[2]))
     ELSE IF b[1] = "c" /\ eInt
     THEN (IF ~IsTI(e) \/ Abs(e[2]) > 40 THEN OOFT
           ELSE LET x == CPow(b, Abs(e[2]))
                IN IF e[2] > 0 THEN x ELSE IF x[1] = "c" THEN CInv(x) ELSE QInv(x))
     ELSE IF IsNum(b) /\ IsNum(e) THEN OOFT
     ELSE IF HasHead(b, "Power") /\ N(b) = 2
     THEN (IF eInt /\ (IsInt(b[4]) \/ (IsS(b[4]))) THEN E2("Power", b[3], E2("Times", b[4], e))
           ELSE IF eInt /\ ~IsE(b[4]) THEN OOFT
           ELSE IF b[4][1] = "q" THEN OOFT ELSE t)
     ELSE IF HasHead(b, "Times") /\ N(b) >= 2
     THEN (IF b[3][1] = "c" THEN OOFT
           ELSE IF eInt \/ (IsNum(b[3]) /\ b[3] # I(-1))
           THEN E2("Times", E2("Power", b[3], e), E2("Power", En("Times", SubSeq(b, 4, Len(b))), e))
           ELSE t)
     ELSE IF HasHead(b, "Times") THEN OOFT
     ELSE IF b[1] = "s" /\ b[2] \in {"E", "Pi", "I", "Degree"} THEN OOFT
     ELSE IF HSym(b) \in {"Tan", "Cot", "Sin", "Cos", "Sqrt", "Log", "Exp"} THEN OOFT
     ELSE IF HasHead(b, "Plus") /\ HasSpecial(b) THEN OOFT
     ELSE t

\* -------------------------------------------------------------- comparison
RealCmp(a, b) == QCmp(QOf(a), QOf(b))

\* ------------------------------------------------------------------- lists
RECURSIVE Dedupe(_)
Dedupe(seq) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, seq)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
RECURSIVE FlattenA(_, _, _)
FlattenA(args, h, n) ==     \* arguments with head h spliced, n levels deep
  FoldLeft(LAMBDA acc, x : IF n > 0 /\ IsE(x) /\ Hd(x) = h THEN acc \o FlattenA(Args(x), h, n - 1) ELSE Append(acc, x), <<>>, args)
RECURSIVE DepthOf(_)
DepthOf(t) == IF t[1] # "e" THEN 1
              ELSE 1 + FoldLeft(LAMBDA m, i : Max2(m, DepthOf(t[i])), IF N(t) = 0 THEN 1 ELSE 0, [i \in 1..N(t) |-> i + 2])
\* depth used by level specifications: an atom has 1, an expression one more
\* than its deepest argument
RECURSIVE Depth1(_)
Depth1(t) == IF t[1] # "e" THEN 1
             ELSE 1 + FoldLeft(LAMBDA m, i : Max2(m, Depth1(t[i])), 1, [i \in 1..N(t) |-> i + 2])
RECURSIVE LeafCnt(_)
LeafCnt(t) == IF t[1] = "e" THEN FoldLeft(LAMBDA a, x : a + LeafCnt(x), 0, Tail(t)) ELSE 1

BIG == 2000000
NOLEVEL == [ok |-> FALSE, mind |-> FALSE, maxd |-> FALSE, lo |-> 1, hi |-> 1]
LevVal(x) == IF x[1] = "z" THEN x[2] * BIG ELSE IF x[1] = "i" THEN x[2] ELSE IF x = Infty THEN BIG ELSE IF x = NegInfty THEN -BIG ELSE -BIG - 1
IsLev(x) == x[1] \in {"i", "z"} \/ x = Infty \/ x = NegInfty
Level(x) ==
  IF IsLev(x) THEN (IF LevVal(x) < 0 THEN [ok |-> TRUE, mind |-> FALSE, maxd |-> TRUE, lo |-> 1, hi |-> -LevVal(x)]
                    ELSE [ok |-> TRUE, mind |-> FALSE, maxd |-> FALSE, lo |-> 1, hi |-> LevVal(x)])
  ELSE IF HeadN(x, "List", 1) /\ IsLev(x[3])
  THEN LET v == LevVal(x[3])
       IN IF v < 0 THEN [ok |-> TRUE, mind |-> TRUE, maxd |-> TRUE, lo |-> -v, hi |-> -v]
          ELSE [ok |-> TRUE, mind |-> FALSE, maxd |-> FALSE, lo |-> v, hi |-> v]
  ELSE IF HeadN(x, "List", 2) /\ IsLev(x[3]) /\ IsLev(x[4])
  THEN LET v == LevVal(x[3])
           w == LevVal(x[4])
       IN [ok |-> TRUE, mind |-> v < 0, maxd |-> w < 0, lo |-> Abs(v), hi |-> Abs(w)]
  ELSE NOLEVEL
InLevel(sp, lev, dep) ==
  /\ (IF sp.mind THEN dep <= sp.lo ELSE lev >= sp.lo)
  /\ (IF sp.maxd THEN dep >= sp.hi ELSE lev <= sp.hi)
\* positions (sequences of indices) of all parts inside a level range, each
\* part after its own parts, from left to right; the expression itself last
RECURSIVE PosIn(_, _, _)
PosIn(t, sp, pos) ==
  LET inner == IF t[1] # "e" \/ (~sp.mind /\ ~sp.maxd /\ Len(pos) >= sp.hi) THEN <<>>
               ELSE FoldLeft(LAMBDA acc, i : acc \o PosIn(t[i + 2], sp, Append(pos, i)), <<>>, [i \in 1..N(t) |-> i])
  IN IF pos # <<>> /\ InLevel(sp, Len(pos), Depth1(t)) THEN Append(inner, pos) ELSE inner
RECURSIVE PartAt(_, _)
PartAt(t, pos) == IF pos = <<>> THEN t ELSE PartAt(t[pos[1] + 2], Tail(pos))
RECURSIVE SetAt(_, _, _)
SetAt(t, pos, x) == IF pos = <<>> THEN x ELSE [t EXCEPT ![pos[1] + 2] = SetAt(@, Tail(pos), x)]

\* Part: specs one after the other; OOFT = invalid, stays unevaluated
RECURSIVE PartOf(_, _)
PartOf(t, specs) ==
  IF specs = <<>> THEN t
  ELSE LET p == specs[1]
           more == Tail(specs)
           many(is) == LET xs == [k \in 1..Len(is) |-> PartOf(t[is[k] + 2], more)]
                       IN IF \E k \in 1..Len(xs) : xs[k] = OOFT THEN OOFT ELSE <<"e", Hd(t)>> \o xs
       IN IF t[1] # "e" THEN OOFT
          ELSE IF p[1] = "i" THEN (IF p[2] < 0 \/ p[2] > N(t) THEN OOFT ELSE PartOf(t[p[2] + 2], more))
          ELSE IF p = Sy("All") THEN many([k \in 1..N(t) |-> k])
          ELSE IF HeadN(p, "Span", 2) /\ p[3][1] = "i" /\ (p[4][1] = "i" \/ p[4] = Sy("All"))
          THEN LET a == p[3][2]
                   b == IF p[4][1] = "i" THEN p[4][2] ELSE N(t)
               IN IF a < 1 \/ b < 0 \/ a > N(t) + 1 \/ b > N(t) THEN OOFT
                  ELSE many([k \in 1..Max2(0, b - a + 1) |-> a + k - 1])
          ELSE OOFT
\* sub-array dimensions: the leading levels on which t is rectangular
RECURSIVE Dims(_)
Dims(t) ==
  IF t[1] # "e" THEN <<>>
  ELSE IF N(t) = 0 THEN <<0>>
  ELSE LET ds == [i \in 1..N(t) |-> IF IsE(t[i + 2]) /\ Hd(t[i + 2]) = Hd(t) THEN Dims(t[i + 2]) ELSE <<>>]
           RECURSIVE common(_, _)
           common(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                           ELSE IF a[1] # b[1] THEN <<>> ELSE <<a[1]>> \o common(Tail(a), Tail(b))
       IN <<N(t)>> \o FoldLeft(LAMBDA acc, d : common(acc, d), ds[1], ds)
IsLst(t) == HasHead(t, "List")
IsVec(t) == IsLst(t) /\ \A i \in 3..Len(t) : ~IsLst(t[i])
IsMat(t) == IsLst(t) /\ N(t) > 0 /\ \A i \in 3..Len(t) : IsVec(t[i]) /\ N(t[i]) = N(t[3])

\* ---------------------------------------------------------------- integers
ZsOk(args) == \A i \in 1..Len(args) : IsInt(args[i])
RECURSIVE IsPrimeR(_, _)
IsPrimeR(n, d) == IF d * d > n THEN TRUE ELSE IF n % d = 0 THEN FALSE ELSE IsPrimeR(n, d + 1)
IsPrime(n) == n >= 2 /\ IsPrimeR(n, 2)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN Z1 ELSE ZMul(I(n), Fact(n - 1))
RECURSIVE NextPrime(_)
NextPrime(n) == IF IsPrime(n) THEN n ELSE NextPrime(n + 1)
RECURSIVE NthPrime(_)
NthPrime(k) == IF k = 1 THEN 2 ELSE NextPrime(NthPrime(k - 1) + 1)
RECURSIVE FactorsR(_, _)
FactorsR(n, d) ==          \* <<prime, exponent>> pairs of n, smallest prime first
  IF n = 1 THEN <<>>
  ELSE IF d * d > n THEN <<<<n, 1>>>>
  ELSE IF n % d # 0 THEN FactorsR(n, d + 1)
  ELSE LET RECURSIVE ex(_)
           ex(m) == IF m % d = 0 THEN 1 + ex(m \div d) ELSE 0
           RECURSIVE strip(_)
           strip(m) == IF m % d = 0 THEN strip(m \div d) ELSE m
       IN <<<<d, ex(n)>>>> \o FactorsR(strip(n), d + 1)
\* partitions of n into parts of at most k, largest first
RECURSIVE Partitions(_, _)
Partitions(n, k) ==
  IF n = 0 THEN <<<<>>>>
  ELSE FoldLeft(LAMBDA acc, i : acc \o Map1(LAMBDA r : <<i>> \o r, Partitions(n - i, i)),
                <<>>, [j \in 1..Min2(n, k) |-> Min2(n, k) - j + 1])
\* all orders of a sequence, chosen from left to right, without repeats
RECURSIVE Perms(_)
Perms(seq) ==
  IF seq = <<>> THEN <<<<>>>>
  ELSE LET idx == SelectSeq([i \in 1..Len(seq) |-> i], LAMBDA i : ~\E j \in 1..(i - 1) : seq[j] = seq[i])
       IN FoldLeft(LAMBDA acc, i : acc \o Map1(LAMBDA r : <<seq[i]>> \o r, Perms(RemoveAt1(seq, i))), <<>>, idx)

\* ----------------------------------------------------------------- strings
RECURSIVE ReplStr(_, _, _, _)
ReplStr(s, old, new, i) ==
  IF i > Len(s) THEN (IF old = "" THEN new ELSE "")
  ELSE IF old = "" THEN new \o SubSeq(s, i, i) \o ReplStr(s, old, new, i + 1)
  ELSE IF i + Len(old) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(old) - 1) = old
       THEN new \o ReplStr(s, old, new, i + Len(old))
       ELSE SubSeq(s, i, i) \o ReplStr(s, old, new, i + 1)
=============================================================================
