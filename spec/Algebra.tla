------------------------------- MODULE Algebra -------------------------------
(* What algebraic expressions denote: rational functions with exact rational *)
(* coefficients in generators. A generator is a symbol or an expression that *)
(* is not a sum, product or integer power (Sqrt[2], Sin[x], the unit I).     *)
(*   monomial: function from generators to exponents > 0 (One always present)*)
(*   polynomial: function from monomials to numbers # 0                      *)
(*   rational function: <<numerator, denominator>>; denominator zero: it is  *)
(*   not defined                                                             *)
EXTENDS Num
One1 == <<"1">>
M1 == [g \in {One1} |-> 0]
MonGet(m, g) == IF g \in DOMAIN m THEN m[g] ELSE 0
MonMul(m, k) == [g \in DOMAIN m \cup DOMAIN k |-> MonGet(m, g) + MonGet(k, g)]
MonOf(g, e) == IF e = 0 THEN M1 ELSE [h \in {One1, g} |-> IF h = g THEN e ELSE 0]
MonDrop(m, g) == [h \in DOMAIN m \ {g} |-> m[h]]
P0 == [m \in {} |-> Z0]
PTerm(c, m) == IF c = Z0 THEN P0 ELSE [k \in {m} |-> c]
PC(c) == PTerm(c, M1)
PGet(p, m) == IF m \in DOMAIN p THEN p[m] ELSE Z0
PAdd(p, q) ==
  LET ms == {m \in DOMAIN p \cup DOMAIN q : QAdd(PGet(p, m), PGet(q, m)) # Z0}
  IN [m \in ms |-> QAdd(PGet(p, m), PGet(q, m))]
PScale(p, c, k) == IF c = Z0 THEN P0 ELSE FoldLeft(LAMBDA acc, m : (MonMul(m, k) :> QMul(c, p[m])) @@ acc, P0, SetToSeq(DOMAIN p))
PMul(p, q) == IF DOMAIN p = {} \/ DOMAIN q = {} THEN P0
              ELSE FoldLeft(LAMBDA acc, m : PAdd(acc, PScale(q, p[m], m)), P0, SetToSeq(DOMAIN p))
PNeg(p) == [m \in DOMAIN p |-> QNeg(p[m])]
PSub(p, q) == PAdd(p, PNeg(q))
PIsZero(p) == DOMAIN p = {}
PIsConst(p) == DOMAIN p \subseteq {M1}
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN PC(Z1) ELSE IF n = 1 THEN p ELSE PMul(p, PPow(p, n - 1))
Gens(p) == UNION {DOMAIN m : m \in DOMAIN p} \ {One1}
PDeg(p, g) == IF PIsZero(p) THEN -1 ELSE CHOOSE d \in {MonGet(m, g) : m \in DOMAIN p} : \A m \in DOMAIN p : MonGet(m, g) <= d
\* the coefficient of g^n
PCoef(p, g, n) ==
  LET ms == {m \in DOMAIN p : MonGet(m, g) = n}
  IN FoldLeft(LAMBDA acc, m : (MonDrop(m, g) :> p[m]) @@ acc, P0, SetToSeq(ms))
PDeriv(p, g) ==
  LET ms == {m \in DOMAIN p : MonGet(m, g) > 0}
      dn(m) == IF m[g] = 1 THEN MonDrop(m, g) ELSE [m EXCEPT ![g] = @ - 1]
  IN FoldLeft(LAMBDA acc, m : (dn(m) :> QMul(p[m], I(m[g]))) @@ acc, P0, SetToSeq(ms))
\* -------------------------------------------------------- rational functions
R0 == <<P0, PC(Z1)>>
RC(c) == <<PC(c), PC(Z1)>>
RUndef == <<PC(Z1), P0>>
RDefined(a) == ~PIsZero(a[2])
RAdd(a, b) == IF a[2] = b[2] THEN <<PAdd(a[1], b[1]), a[2]>>
              ELSE <<PAdd(PMul(a[1], b[2]), PMul(b[1], a[2])), PMul(a[2], b[2])>>
RMul(a, b) == IF RDefined(a) /\ RDefined(b) /\ a[1] = b[2] THEN <<b[1], a[2]>>
              ELSE IF RDefined(a) /\ RDefined(b) /\ a[2] = b[1] THEN <<a[1], b[2]>>
              ELSE <<PMul(a[1], b[1]), PMul(a[2], b[2])>>
RNeg(a) == <<PNeg(a[1]), a[2]>>
RInv(a) == IF RDefined(a) THEN <<a[2], a[1]>> ELSE a
RPow(a, n) == IF ~RDefined(a) \/ (n = 0 /\ PIsZero(a[1])) THEN RUndef
              ELSE IF n >= 0 THEN <<PPow(a[1], n), PPow(a[2], n)>>
              ELSE <<PPow(a[2], -n), PPow(a[1], -n)>>
RDeriv(a, g) == <<PSub(PMul(PDeriv(a[1], g), a[2]), PMul(a[1], PDeriv(a[2], g))), PMul(a[2], a[2])>>
\* ---------------------------------------------- what an expression denotes
\* env: what symbols stand for (a function from symbols to rational functions)
ImUnit == <<"c", Z0, Z1>>
Endless == {<<"s", "Infinity">>, <<"s", "ComplexInfinity">>, <<"s", "Indeterminate">>}
SmallI(t) == t[1] = "i" /\ Abs(t[2]) <= 40
RECURSIVE RatOf(_, _)
RatOf(t, env) ==
  CASE t[1] \in {"i", "z", "q"} -> RC(t)
    [] t[1] = "c" -> (IF t[2][1] \in {"f", "fx"} \/ t[3][1] \in {"f", "fx"} THEN RUndef
                      ELSE RAdd(RC(t[2]), RMul(RC(t[3]), <<PTerm(Z1, MonOf(ImUnit, 1)), PC(Z1)>>)))
    [] t[1] = "s" -> (IF t \in DOMAIN env THEN env[t] ELSE IF t \in Endless THEN RUndef
                      ELSE IF t = Sy("I") THEN <<PTerm(Z1, MonOf(ImUnit, 1)), PC(Z1)>>
                      ELSE <<PTerm(Z1, MonOf(t, 1)), PC(Z1)>>)
    [] t[1] = "e" /\ HSym(t) = "Plus" -> FoldLeft(LAMBDA acc, x : RAdd(acc, RatOf(x, env)), R0, Args(t))
    [] t[1] = "e" /\ HSym(t) = "Times" -> FoldLeft(LAMBDA acc, x : RMul(acc, RatOf(x, env)), RC(Z1), Args(t))
    [] HeadN(t, "Divide", 2) -> RMul(RatOf(t[3], env), RInv(RatOf(t[4], env)))
    [] HeadN(t, "Sqrt", 1) -> RatOf(E2("Power", t[3], <<"q", I(1), I(2)>>), env)
    [] HeadN(t, "Power", 2) ->
         LET x0 == IF t[4][1] = "e" THEN RatOf(t[4], [x \in {} |-> R0]) ELSE R0   \* an exponent that is a number when evaluated
             e == IF t[4][1] = "e" /\ RDefined(x0) /\ PIsConst(x0[1]) /\ PIsConst(x0[2])
                  THEN QMul(PGet(x0[1], M1), QInv(x0[2][M1])) ELSE t[4]
         IN
         IF SmallI(e) THEN RPow(RatOf(t[3], env), e[2])
         ELSE IF e[1] = "q" /\ SmallI(e[2]) /\ SmallI(e[3])
         THEN LET p == e[2][2]
                  q == e[3][2]
                  b == RatOf(t[3], env)
                  g == E2("Power", t[3], <<"q", I(1), I(q)>>)
              IN IF DOMAIN env \cap {Sy(n) : n \in Symbols(t)} # {} THEN RUndef
                 ELSE RMul(RPow(b, p \div q), IF p % q = 0 THEN RC(Z1) ELSE <<PTerm(Z1, MonOf(g, p % q)), PC(Z1)>>)
         ELSE IF IsNum(e) THEN RUndef
         ELSE IF HeadN(e, "Plus", 2) /\ SmallI(e[3])
         THEN RMul(RPow(RatOf(t[3], env), e[3][2]), <<PTerm(Z1, MonOf(E2("Power", t[3], e[4]), 1)), PC(Z1)>>)
         ELSE <<PTerm(Z1, MonOf(t, 1)), PC(Z1)>>
    [] t[1] = "e" -> (IF DOMAIN env \cap {Sy(n) : n \in Symbols(t)} # {} THEN RUndef ELSE <<PTerm(Z1, MonOf(t, 1)), PC(Z1)>>)
    [] OTHER -> RUndef
NoEnv == [x \in {} |-> R0]
Rat(t) == RatOf(t, NoEnv)
\* I^2 = -1, (b^(1/q))^q = b and Cos[u]^2 = 1 - Sin[u]^2
RootDeg(g) == IF g = ImUnit \/ HeadN(g, "Cos", 1) THEN 2 ELSE IF HeadN(g, "Power", 2) /\ g[4][1] = "q" THEN g[4][3][2] ELSE 0
RootVal(g) == IF g = ImUnit THEN RC(I(-1))
              ELSE IF HeadN(g, "Cos", 1) THEN <<PAdd(PC(Z1), PTerm(I(-1), MonOf(E1("Sin", g[3]), 2))), PC(Z1)>> ELSE Rat(g[3])
RECURSIVE PReduce(_, _)
PReduce(p, fuel) ==
  LET bad == {m \in DOMAIN p : \E g \in DOMAIN m : g # One1 /\ RootDeg(g) > 1 /\ m[g] >= RootDeg(g)}
  IN IF bad = {} \/ fuel = 0 THEN p
     ELSE LET red(m) == LET g == CHOOSE g \in DOMAIN m : g # One1 /\ RootDeg(g) > 1 /\ m[g] >= RootDeg(g)
                            rest == IF m[g] = RootDeg(g) THEN MonDrop(m, g) ELSE [m EXCEPT ![g] = @ - RootDeg(g)]
                        IN RMul(<<PTerm(p[m], rest), PC(Z1)>>, RootVal(g))
              s == FoldLeft(LAMBDA acc, m : RAdd(acc, red(m)), <<[m \in DOMAIN p \ bad |-> p[m]], PC(Z1)>>, SetToSeq(bad))
          IN PReduce(s[1], fuel - 1)
IsZero(p) == PIsZero(PReduce(p, 8))
\* roots of different numbers, powers of one base, logarithms and trigonometric
\* functions of different arguments may be related in ways that are not modelled
Trig == {"Sin", "Cos", "Tan", "Cot", "Sec", "Csc"}
Related(g, h) == \/ HeadN(g, "Power", 2) /\ HeadN(h, "Power", 2) /\ (g[3] = h[3] \/ RootDeg(g) > 1 \/ RootDeg(h) > 1)
                 \/ HeadN(g, "Log", 1) /\ HeadN(h, "Log", 1)
                 \/ HSym(g) \in Trig /\ HSym(h) \in Trig /\ ~({HSym(g), HSym(h)} = {"Sin", "Cos"} /\ Args(g) = Args(h))
                 \/ HSym(g) = HSym(h) /\ HSym(g) \notin Trig \cup {"Power", "Log"}
                 \/ {HSym(g), HSym(h)} \in {{"Power", "Abs"}, {"Abs", "Sign"}}
                 \/ HSym(g) \in Trig /\ h[1] = "e" /\ h[2] = Sy("Power") /\ h[3] = Sy("E")
Unrelated(p) ==
  LET fs == {g \in Gens(p) : g[1] = "e"}
  IN \A g, h \in fs : g # h => ~Related(g, h)
\* "eq", "ne" or "oof" (one of them is not defined, or not decided)
Compare(a, b) ==
  IF ~RDefined(a) \/ ~RDefined(b) \/ IsZero(a[2]) \/ IsZero(b[2]) THEN "oof"
  ELSE LET d == PSub(PMul(a[1], b[2]), PMul(b[1], a[2]))
       IN IF IsZero(d) THEN "eq" ELSE IF Unrelated(PReduce(d, 8)) THEN "ne" ELSE "oof"
\* --------------------------------------------------------------- derivatives
RECURSIVE Deriv(_, _)
Deriv(t, x) ==
  IF x[1] = "s" /\ x[2] \notin Symbols(t) THEN R0
  ELSE CASE t = x -> RC(Z1)
    [] t[1] # "e" -> RUndef
    [] HSym(t) = "Plus" -> FoldLeft(LAMBDA acc, u : RAdd(acc, Deriv(u, x)), R0, Args(t))
    [] HSym(t) = "Times" -> FoldLeft(LAMBDA acc, i : RAdd(acc, RMul(Deriv(t[i], x), Rat(En("Times", RemoveAt1(Args(t), i - 2))))), R0, [i \in 1..N(t) |-> i + 2])
    [] HeadN(t, "Power", 2) ->
         (IF t[4][1] \in {"i", "q"} THEN RMul(RC(t[4]), RMul(Deriv(t[3], x), RMul(Rat(t), RInv(Rat(t[3])))))
          ELSE LET lg == IF t[3] = Sy("E") THEN RC(Z1) ELSE Rat(E1("Log", t[3]))
               IN RMul(Rat(t), RAdd(RMul(Deriv(t[4], x), lg), RMul(Rat(t[4]), RMul(Deriv(t[3], x), RInv(Rat(t[3])))))))
    [] HeadN(t, "Sin", 1) -> RMul(Deriv(t[3], x), Rat(E1("Cos", t[3])))
    [] HeadN(t, "Cos", 1) -> RNeg(RMul(Deriv(t[3], x), Rat(E1("Sin", t[3]))))
    [] HeadN(t, "Log", 1) -> RMul(Deriv(t[3], x), RInv(Rat(t[3])))
    [] OTHER -> RUndef
\* ------------------------- polynomials in one variable: <<c0, c1, ..>>, no zero at the end
UTrim(u) == LET k == {i \in 1..Len(u) : u[i] # Z0} IN IF k = {} THEN <<>> ELSE SubSeq(u, 1, CHOOSE i \in k : \A j \in k : j <= i)
IsUni(p, g) == Gens(p) \subseteq {g}
UOf(p, g) == IF PIsZero(p) THEN <<>> ELSE [i \in 1..(PDeg(p, g) + 1) |-> PGet(PCoef(p, g, i - 1), M1)]
UAt(u, i) == IF i <= Len(u) THEN u[i] ELSE Z0
\* the coefficient c of the quotient at x^s is decided from the top
UDivMod(a, b) ==                            \* b # <<>>; <<quotient, remainder>>
  LET n == Len(a) - Len(b)
      step(st, s) == LET c == QMul(UAt(st[2], s + Len(b)), QInv(b[Len(b)]))
                     IN <<<<c>> \o st[1], [i \in 1..Len(st[2]) |-> QSub(st[2][i], IF i > s /\ i <= s + Len(b) THEN QMul(c, b[i - s]) ELSE Z0)]>>
      res == FoldLeft(step, <<<<>>, a>>, [i \in 1..(n + 1) |-> n + 1 - i])
  IN IF n < 0 THEN <<<<>>, a>> ELSE <<res[1], UTrim(res[2])>>
RECURSIVE UGcd(_, _)
UGcd(a, b) == IF b = <<>> THEN a ELSE UGcd(b, UDivMod(a, b)[2])
UMonic(a) == IF a = <<>> THEN a ELSE [i \in 1..Len(a) |-> QMul(a[i], QInv(a[Len(a)]))]
UDeriv(a) == IF Len(a) <= 1 THEN <<>> ELSE [i \in 1..(Len(a) - 1) |-> QMul(a[i + 1], I(i))]
USquareFree(a) == Len(UGcd(a, UDeriv(a))) <= 1
UEval(a, v) == FoldRight(LAMBDA c, acc : QAdd(c, QMul(acc, v)), a, Z0)
=============================================================================
