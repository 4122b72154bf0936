------------------------------- MODULE AlgTrace -------------------------------
(* Algebra of the real code: inputs as read, and what they evaluated to      *)
(*   [id, steps: <<[text, read, res]>>]                                      *)
(* An input is a list {Hold[fn], e1, .., ek, fn[e1, .., ek]}: what fn gave   *)
(* is compared with what it has to be for e1, .., ek, and every ei itself    *)
(* has to keep its value when it is evaluated.                               *)
EXTENDS Algebra, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos
Init == tr \in 1..Len(Traces) /\ pos = 1
Say(kind, why) == PrintT(kind \o " " \o ToString(tr) \o " " \o ToString(pos) \o " " \o why)
Same == {"Expand", "ExpandAll", "Together", "Apart", "Factor", "FactorTerms", "FactorSquareFree", "Simplify", "FullSimplify", "PowerExpand"}
Verdict(c, why) == IF c = "eq" THEN "ok" ELSE IF c = "oof" THEN "oof" ELSE why
Is(b, why) == IF b THEN "ok" ELSE why
Left(r, fn) == r[1] = "e" /\ HSym(r) = fn            \* not evaluated
\* sums below products or positive integer powers
RECURSIVE Expanded(_)
Expanded(t) ==
  CASE HasHead(t, "Plus") -> \A i \in 3..Len(t) : Expanded(t[i]) /\ ~HasHead(t[i], "Plus")
    [] HasHead(t, "Times") -> \A i \in 3..Len(t) : Expanded(t[i]) /\ ~HasHead(t[i], "Plus")
    [] HasHead(t, "Power") -> ~(HasHead(t[3], "Plus") /\ t[4][1] = "i" /\ t[4][2] > 0)
    [] OTHER -> TRUE
Poly(r) == RDefined(r) /\ PIsConst(r[2])
PolyOf(r) == PScale(r[1], QInv(r[2][M1]), M1)        \* the polynomial of a rational function with a constant denominator
SymOnly(p) == \A g \in Gens(p) : g[1] = "s"
UniOk(t, x) == LET r == Rat(t) IN Poly(r) /\ IsUni(PolyOf(r), x)
Uni(t, x) == UOf(PolyOf(Rat(t)), x)
RECURSIVE DerivN(_, _, _)
DerivN(r, x, n) == IF n = 0 THEN r ELSE DerivN(RDeriv(r, x), x, n - 1)
Env1(x, r) == [s \in {x} |-> r]
RECURSIVE SumOf(_, _, _, _)
SumOf(t, x, i, n) == IF i > n THEN R0 ELSE RAdd(RatOf(t, Env1(x, RC(I(i)))), SumOf(t, x, i + 1, n))
AllOk(vs) == IF \E v \in vs : v \notin {"ok", "oof"} THEN CHOOSE v \in vs : v \notin {"ok", "oof"} ELSE IF "oof" \in vs THEN "oof" ELSE "ok"
RECURSIVE ProdOf(_, _, _, _)
ProdOf(t, x, i, n) == IF i > n THEN RC(Z1) ELSE RMul(RatOf(t, Env1(x, RC(I(i)))), ProdOf(t, x, i + 1, n))
RECURSIVE SumStep(_, _, _, _, _)
SumStep(t, x, i, n, d) == IF (d > 0 /\ i > n) \/ (d < 0 /\ i < n) THEN R0 ELSE RAdd(RatOf(t, Env1(x, RC(I(i)))), SumStep(t, x, i + d, n, d))
Judge(fn, a, r) ==
  LET n == Len(a)
      v == IF n = 0 THEN R0 ELSE Rat(a[1])
  IN
  CASE fn \in Same /\ n \in {1, 2} ->
         AllOk({Verdict(Compare(v, Rat(r)), "another value"),
                IF fn = "Expand" /\ Poly(v) THEN Is(Expanded(r), "not expanded") ELSE "ok",
                IF fn = "FactorSquareFree" /\ Poly(v) /\ (\E g \in Gens(v[1]) : g[1] = "s" /\ IsUni(v[1], g)) /\ HasHead(r, "Times")
                THEN LET g == CHOOSE g \in Gens(v[1]) : TRUE
                         bases == {IF HeadN(r[i], "Power", 2) THEN r[i][3] ELSE r[i] : i \in 3..Len(r)}
                     IN Is(\A b \in bases : UniOk(b, g) => USquareFree(Uni(b, g)), "a factor is not square free")
                ELSE "ok"})
    [] fn = "D" /\ n = 2 /\ IsS(a[2]) -> (IF Left(r, "D") THEN "oof" ELSE Verdict(Compare(Deriv(a[1], a[2]), Rat(r)), "not the derivative"))
    [] fn = "D" /\ n = 2 /\ HeadN(a[2], "List", 2) /\ a[2][4][1] = "i" /\ a[2][4][2] >= 0 ->
         (IF ~RDefined(v) \/ ~SymOnly(v[1]) \/ ~SymOnly(v[2]) THEN "oof"
          ELSE Verdict(Compare(DerivN(v, a[2][3], a[2][4][2]), Rat(r)), "not the derivative"))
    [] fn = "Grad" /\ n = 2 -> (IF ~HeadN(r, "List", N(a[2])) THEN "not a list"
                                ELSE AllOk({Verdict(Compare(Deriv(a[1], a[2][i]), Rat(r[i])), "not the gradient") : i \in 3..Len(a[2])}))
    [] fn = "NumDen" /\ n = 1 -> (IF ~HeadN(r, "List", 2) THEN "oof" ELSE Verdict(Compare(v, RMul(Rat(r[3]), RInv(Rat(r[4])))), "numerator and denominator of another value"))
    [] fn = "Coefficient" /\ n \in {2, 3} /\ IsS(a[2]) /\ (n = 3 => a[3][1] = "i") ->
         (IF ~Poly(v) \/ ~SymOnly(v[1]) THEN "oof"
          ELSE Verdict(Compare(<<PCoef(PolyOf(v), a[2], IF n = 3 THEN a[3][2] ELSE 1), PC(Z1)>>, Rat(r)), "not the coefficient"))
    [] fn = "Coefficient" /\ n = 2 /\ HasHead(a[2], "Times") ->      \* of x^i y^j
         (LET m == Rat(a[2])[1]
              mm == CHOOSE k \in DOMAIN m : TRUE
              p == PolyOf(v)
              cf == FoldLeft(LAMBDA acc, g : PCoef(acc, g, mm[g]), p, SetToSeq(DOMAIN mm \ {One1}))
          IN IF ~Poly(v) \/ ~SymOnly(v[1]) \/ Cardinality(DOMAIN m) # 1 THEN "oof" ELSE Verdict(Compare(<<cf, PC(Z1)>>, Rat(r)), "not the coefficient"))
    [] fn = "CoefficientList" /\ n = 2 /\ IsS(a[2]) ->
         (IF ~Poly(v) \/ ~SymOnly(v[1]) \/ PIsZero(v[1]) THEN "oof"
          ELSE LET p == PolyOf(v) IN
               IF ~HeadN(r, "List", PDeg(p, a[2]) + 1) THEN "not as many coefficients"
               ELSE AllOk({Verdict(Compare(<<PCoef(p, a[2], i), PC(Z1)>>, Rat(r[i + 3])), "not the coefficients") : i \in 0..PDeg(p, a[2])}))
    [] fn = "Exponent" /\ n = 2 /\ IsS(a[2]) ->
         (IF ~Poly(v) \/ ~SymOnly(v[1]) \/ PIsZero(v[1]) THEN "oof" ELSE Is(r = I(PDeg(v[1], a[2])), "not the degree"))
    [] fn = "Variables" /\ n = 1 ->
         (IF ~Poly(v) \/ ~SymOnly(v[1]) THEN "oof"
          ELSE Is(HasHead(r, "List") /\ {r[i] : i \in 3..Len(r)} = {Sy(s) : s \in Symbols(a[1]) \ {"Plus", "Times", "Power"}} /\ N(r) = Cardinality({r[i] : i \in 3..Len(r)}), "not the variables"))
    [] fn = "PolynomialQ" /\ n = 2 /\ IsS(a[2]) ->
         (IF ~RDefined(v) \/ ~SymOnly(v[1]) \/ ~SymOnly(v[2]) \/ (~PIsConst(v[2]) /\ a[2] \in Gens(v[2])) THEN "oof" ELSE Is(r = True, "a polynomial"))
    [] fn \in {"PolynomialQuotientRemainder", "PolynomialQuotient", "PolynomialRemainder"} /\ n = 3 /\ IsS(a[3]) ->
         (IF ~UniOk(a[1], a[3]) \/ ~UniOk(a[2], a[3]) \/ Left(r, fn) THEN "oof"
          ELSE LET p == Uni(a[1], a[3])
                   d == Uni(a[2], a[3])
               IN IF d = <<>> THEN "oof"
                  ELSE LET qr == UDivMod(p, d)
                           eq(u, t) == UniOk(t, a[3]) /\ Uni(t, a[3]) = u
                       IN Is(CASE fn = "PolynomialQuotient" -> eq(qr[1], r)
                               [] fn = "PolynomialRemainder" -> eq(qr[2], r)
                               [] OTHER -> HeadN(r, "List", 2) /\ eq(qr[1], r[3]) /\ eq(qr[2], r[4]), "not quotient and remainder"))
    [] fn = "PolynomialGCD" /\ n = 2 ->
         (LET gs == Gens(v[1]) \cup Gens(Rat(a[2])[1])
          IN IF Cardinality(gs) # 1 \/ ~SymOnly(v[1]) \/ Left(r, fn) THEN "oof"
             ELSE LET x == CHOOSE g \in gs : TRUE
                  IN IF ~UniOk(a[1], x) \/ ~UniOk(a[2], x) THEN "oof"
                     ELSE Is(UniOk(r, x) /\ UMonic(Uni(r, x)) = UMonic(UGcd(Uni(a[1], x), Uni(a[2], x))), "not the greatest common divisor"))
    [] fn = "SquareFreeQ" /\ n = 1 ->
         (IF ~Poly(v) \/ Cardinality(Gens(v[1])) # 1 \/ ~SymOnly(v[1]) THEN "oof"
          ELSE LET x == CHOOSE g \in Gens(v[1]) : TRUE IN Is(r = Bool(USquareFree(Uni(a[1], x))), "square free or not"))
    [] fn = "Sum" /\ n = 2 /\ HeadN(a[2], "List", 3) /\ a[2][4][1] = "i" /\ a[2][5][1] = "i" /\ IsS(a[2][3]) ->
         Verdict(Compare(SumOf(a[1], a[2][3], a[2][4][2], a[2][5][2]), Rat(r)), "not the sum")
    [] fn = "Product" /\ n = 2 /\ HeadN(a[2], "List", 3) /\ a[2][4][1] = "i" /\ a[2][5][1] = "i" /\ IsS(a[2][3]) ->
         Verdict(Compare(ProdOf(a[1], a[2][3], a[2][4][2], a[2][5][2]), Rat(r)), "not the product")
    [] fn = "Sum" /\ n = 2 /\ HeadN(a[2], "List", 4) /\ \A i \in 4..6 : a[2][i][1] = "i" /\ IsS(a[2][3]) /\ a[2][6][2] # 0 ->
         Verdict(Compare(SumStep(a[1], a[2][3], a[2][4][2], a[2][5][2], a[2][6][2]), Rat(r)), "not the sum")
    [] fn = "Sum" /\ n = 2 /\ HeadN(a[2], "List", 3) /\ a[2][4][1] = "i" /\ IsS(a[2][5]) /\ IsS(a[2][3]) ->
         (IF "Sum" \in Symbols(r) THEN "oof"
          ELSE LET nn == a[2][5]
                   n1 == RAdd(Rat(nn), RC(Z1))
               IN AllOk({Verdict(Compare(RAdd(RatOf(r, Env1(nn, n1)), RNeg(Rat(r))), RatOf(a[1], Env1(a[2][3], n1))), "not the sum"),
                         Verdict(Compare(RatOf(r, Env1(nn, RC(a[2][4]))), RatOf(a[1], Env1(a[2][3], RC(a[2][4])))), "not the sum")}))
    [] fn \in {"Re", "Im", "Conjugate", "ComplexExpand"} /\ n = 1 /\ RDefined(v) /\ PIsConst(PReduce(v[2], 8)) /\ Gens(v[1]) \subseteq {ImUnit} ->
         LET z == PScale(PReduce(v[1], 8), QInv(PReduce(v[2], 8)[M1]), M1)
             re == PC(PGet(z, M1))
             im == PC(PGet(z, MonOf(ImUnit, 1)))
             iu == PTerm(Z1, MonOf(ImUnit, 1))
             want == CASE fn = "Re" -> re [] fn = "Im" -> im [] fn = "Conjugate" -> PSub(re, PMul(im, iu)) [] OTHER -> z
         IN Verdict(Compare(<<want, PC(Z1)>>, Rat(r)), "not that part")
    [] fn = "SolveSys" /\ n = 5 ->                         \* l1, r1, l2, r2, {x, y}
         (IF ~HasHead(r, "List") \/ ~(\A i \in 3..Len(r) : HeadN(r[i], "List", 2) /\ \A m \in 3..4 : HeadN(r[i][m], "Rule", 2)) THEN "oof"
          ELSE LET env(s) == [x \in {s[3][3], s[4][3]} |-> IF x = s[3][3] THEN Rat(s[3][4]) ELSE Rat(s[4][4])]
                   off(i, s) == RatOf(E2("Plus", a[i], E2("Times", I(-1), a[i + 1])), env(s))
                   d1 == RAdd(v, RNeg(Rat(a[2])))
                   d2 == RAdd(Rat(a[3]), RNeg(Rat(a[4])))
                   cf(d, x) == PGet(PCoef(d[1], x, 1), M1)
                   det == QSub(QMul(cf(d1, a[5][3]), cf(d2, a[5][4])), QMul(cf(d1, a[5][4]), cf(d2, a[5][3])))
               IN AllOk({Verdict(Compare(off(1, r[i]), R0), "not a solution") : i \in 3..Len(r)}
                        \cup {Verdict(Compare(off(3, r[i]), R0), "not a solution") : i \in 3..Len(r)}
                        \cup {IF ~PIsConst(d1[2]) \/ ~PIsConst(d2[2]) \/ ~(Gens(d1[1]) \cup Gens(d2[1]) \subseteq {a[5][3], a[5][4]}) THEN "ok"
                               ELSE Is((det # Z0 => N(r) = 1), "not the one solution")}))
    [] fn = "Solve" /\ n = 3 /\ IsS(a[3]) ->
         (IF ~HasHead(r, "List") \/ ~(\A i \in 3..Len(r) : HeadN(r[i], "List", 1) /\ HeadN(r[i][3], "Rule", 2) /\ r[i][3][3] = a[3]) THEN "oof"
          ELSE LET x == a[3]
                   d == RAdd(Rat(a[1]), RNeg(Rat(a[2])))
                   sols == {r[i][3][4] : i \in 3..Len(r)}
               IN AllOk({(LET w == RatOf(E2("Plus", a[1], E2("Times", I(-1), a[2])), Env1(x, Rat(s)))
                          IN Verdict(Compare(w, R0), "not a solution")) : s \in sols}
                        \cup {IF Poly(d) /\ IsUni(d[1], x) /\ ~PIsConst(d[1])
                              THEN LET u == UOf(PolyOf(d), x)
                                       k == Len(u) - Len(UGcd(u, UDeriv(u)))
                                   IN IF \E s \in sols : Gens(PReduce(Rat(s)[1], 8)) \ {ImUnit} # {} THEN "ok"
                                      ELSE IF Len(u) > 3 THEN "ok"
                                      ELSE Is(Cardinality(sols) = k, "not all solutions")
                              ELSE "ok"}))
    [] OTHER -> "oof"
\* the list as read: Hold[fn], the arguments, the call
Why(x) ==
  IF x.res[1] \in {"panic", "err", "slow"} THEN "no expression"
  ELSE LET k == N(x.res)
           fn == x.read[3][3][2]
           a == [i \in 1..(k - 2) |-> x.res[i + 3]]
           h == [i \in 1..(k - 2) |-> x.read[i + 3]]
       IN IF ~HasHead(x.res, "List") \/ N(x.read) # k THEN "no list"
          ELSE LET js == {j \in 1..(k - 2) : h[j] # a[j] /\ ~HasHead(h[j], "List") /\ ~HasHead(h[j], "Equal")}
                   arg == AllOk({LET c == Compare(Rat(h[i]), Rat(a[i]))
                                 gs == Gens(Rat(h[i])[1]) \cup Gens(Rat(h[i])[2])
                                 \* the arguments of other functions and powers are not in normal form before evaluation
                                 plain == \A g \in gs : g[1] = "e" => Len(g) > 2 /\ IsNum(g[3])
                             IN IF c = "ne" /\ ~plain THEN "oof" ELSE Verdict(c, "evaluation changed the value of an argument") : i \in js})
               IN IF arg \notin {"ok", "oof"} THEN arg ELSE Judge(fn, a, x.res[k + 2])
Step == /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ LET w == Why(Traces[tr].steps[pos])
           IN (IF w = "ok" THEN TRUE ELSE IF w = "oof" THEN Say("OOF", "") ELSE Say("MISMATCH", w)) = TRUE
Done == pos = Len(Traces[tr].steps) + 1 /\ Say("DONE", "") /\ pos' = pos + 1 /\ tr' = tr
Next == Step \/ Done
Spec == Init /\ [][Next]_<<tr, pos>>
=============================================================================
