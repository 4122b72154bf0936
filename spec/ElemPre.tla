-------------------------------- MODULE ElemPre -------------------------------
(* What an input of elementary functions stands for: derivatives, functions   *)
(* that keep the value, numbers brought together; and the verdict on a result. *)
EXTENDS Elem
Same == {"TrigToExp", "TrigExpand", "TrigReduce", "Expand", "ExpandAll", "Simplify", "FullSimplify", "Together", "ComplexExpand", "Factor", "Identity"}
Neg(t) == En("Times", <<I(-1), t>>)
Mul(a, b) == E2("Times", a, b)
Pw(a, n) == E2("Power", a, I(n))
NoX == <<"none">>
RECURSIVE DTerm(_, _)
DTerm(t, x) ==
  IF t = x THEN I(1)
  ELSE IF t[1] # "e" THEN I(0)
  ELSE LET u == IF N(t) >= 1 THEN t[3] ELSE I(0)
           d == DTerm(u, x)
           ch(f) == IF d = NoX THEN NoX ELSE Mul(d, f)
       IN CASE x[2] \notin Symbols(t) -> I(0)
            [] HSym(t) = "List" -> LET ds == [i \in 1..N(t) |-> DTerm(t[i + 2], x)] IN IF \E i \in DOMAIN ds : ds[i] = NoX THEN NoX ELSE Lst(ds)
            [] HSym(t) = "Plus" -> LET ds == [i \in 1..N(t) |-> DTerm(t[i + 2], x)] IN IF \E i \in DOMAIN ds : ds[i] = NoX THEN NoX ELSE En("Plus", ds)
            [] HSym(t) = "Times" -> LET ds == [i \in 1..N(t) |-> DTerm(t[i + 2], x)]
                                    IN IF \E i \in DOMAIN ds : ds[i] = NoX THEN NoX ELSE En("Plus", [i \in 1..N(t) |-> En("Times", [j \in 1..N(t) |-> IF i = j THEN ds[i] ELSE t[j + 2]])])
            [] HeadN(t, "Power", 2) ->
                 (IF x[2] \notin Symbols(t[4]) THEN ch(En("Times", <<t[4], E2("Power", u, E2("Plus", t[4], I(-1)))>>))
                  ELSE IF x[2] \notin Symbols(u) THEN (LET e == DTerm(t[4], x) IN IF e = NoX THEN NoX ELSE En("Times", <<t, E1("Log", u), e>>))
                  ELSE LET e == DTerm(t[4], x)
                       IN IF e = NoX \/ d = NoX THEN NoX ELSE Mul(t, E2("Plus", Mul(e, E1("Log", u)), En("Times", <<t[4], d, Pw(u, -1)>>))))
            [] HeadN(t, "Sqrt", 1) -> ch(Mul(<<"q", I(1), I(2)>>, E2("Power", u, <<"q", I(-1), I(2)>>)))
            [] HeadN(t, "Exp", 1) -> ch(t)
            [] HeadN(t, "Log", 1) -> ch(Pw(u, -1))
            [] HeadN(t, "Sin", 1) -> ch(E1("Cos", u))
            [] HeadN(t, "Cos", 1) -> ch(Neg(E1("Sin", u)))
            [] HeadN(t, "Tan", 1) -> ch(Pw(E1("Cos", u), -2))
            [] HeadN(t, "Cot", 1) -> ch(Neg(Pw(E1("Sin", u), -2)))
            [] HeadN(t, "Sec", 1) -> ch(Mul(E1("Sin", u), Pw(E1("Cos", u), -2)))
            [] HeadN(t, "Csc", 1) -> ch(Neg(Mul(E1("Cos", u), Pw(E1("Sin", u), -2))))
            [] HeadN(t, "Sinh", 1) -> ch(E1("Cosh", u))
            [] HeadN(t, "Cosh", 1) -> ch(E1("Sinh", u))
            [] HeadN(t, "ArcTan", 1) -> ch(Pw(E2("Plus", I(1), Pw(u, 2)), -1))
            [] OTHER -> NoX
RECURSIVE DN(_, _, _)
DN(t, x, n) == IF n = 0 \/ t = NoX THEN t ELSE DN(DTerm(t, x), x, n - 1)
\* what an input stands for: without the functions that keep the value, derivatives, ..
\* numbers among the factors, summands and bases are brought together (if they are small)
CxInv(c) == LET n == FrAdd(FrMul(c[1], c[1]), FrMul(c[2], c[2]))
                i == <<n[2], n[1]>>
            IN <<RedFr(FrMul(c[1], i)), RedFr(FrMul(<<-c[2][1], c[2][2]>>, i))>>
RECURSIVE CxPow(_, _)
CxPow(c, n) == IF n = 0 THEN CxOne ELSE LET h == CxPow(c, n - 1) IN IF TinyC(h) THEN CxMul(h, c) ELSE h
RECURSIVE Terms1(_)
Terms1(t) == IF HasHead(t, "Plus") THEN Flat1([i \in 1..N(t) |-> Terms1(t[i + 2])]) ELSE <<t>>
Fold(t) ==
  CASE t = Sy("I") -> <<"c", I(0), I(1)>>
    [] HasHead(t, "Times") -> FoldNum(t)
    [] HasHead(t, "Plus") ->
         (LET ss == Terms1(t)
              c == FoldLeft(LAMBDA acc, u : IF TinyC(acc) THEN <<RedFr(FrAdd(acc[1], NumPart(u)[1])), RedFr(FrAdd(acc[2], NumPart(u)[2]))>> ELSE acc, <<<<0, 1>>, <<0, 1>>>>, SelectSeq(ss, LAMBDA u : IsNumF(u)))
              rest == SelectSeq(ss, LAMBDA u : ~IsNumF(u))
          IN IF ~TinyC(c) THEN t ELSE IF Len(rest) = 0 THEN CxTerm(c)
             ELSE IF CxZero(c) THEN (IF Len(rest) = 1 THEN rest[1] ELSE En("Plus", rest)) ELSE En("Plus", <<CxTerm(c)>> \o rest))
    [] HeadN(t, "Power", 2) /\ IsNumF(t[3]) /\ t[4][1] = "i" /\ Abs(t[4][2]) < 5 /\ ~CxZero(NumPart(t[3])) ->
         (LET c == CxPow(IF t[4][2] < 0 THEN CxInv(NumPart(t[3])) ELSE NumPart(t[3]), Abs(t[4][2])) IN IF TinyC(c) THEN CxTerm(c) ELSE t)
    [] OTHER -> t
RECURSIVE Pre(_)
Pre(t) ==
  IF t[1] # "e" THEN Fold(t)
  ELSE LET a == [i \in 1..N(t) |-> Pre(t[i + 2])]
       IN CASE HSym(t) \in Same /\ N(t) = 1 -> a[1]
            [] HeadN(t, "D", 2) /\ IsS(t[4]) -> DTerm(a[1], t[4])
            [] HeadN(t, "D", 2) /\ HeadN(t[4], "List", 2) /\ t[4][4][1] = "i" -> DN(a[1], t[4][3], t[4][4][2])
            [] HeadN(t, "Divide", 2) -> Fold(Mul(a[1], Fold(Pw(a[2], -1))))
            [] HeadN(t, "Subtract", 2) -> Fold(E2("Plus", a[1], Fold(Neg(a[2]))))
            [] HeadN(t, "Minus", 1) -> Fold(Neg(a[1]))
            [] HeadN(t, "ReIm", 1) -> Lst(<<E1("Re", a[1]), E1("Im", a[1])>>)
            [] HeadN(t, "RotationMatrix", 1) -> Lst(<<Lst(<<E1("Cos", a[1]), Neg(E1("Sin", a[1]))>>), Lst(<<E1("Sin", a[1]), E1("Cos", a[1])>>)>>)
            [] OTHER -> Fold(<<"e", t[2]>> \o a)
RECURSIVE HasH(_, _)
HasH(t, S) == t[1] = "e" /\ (HSym(t) \in S \/ \E i \in 3..Len(t) : HasH(t[i], S))
RECURSIVE HasS(_, _)
HasS(t, S) == IF t[1] = "s" THEN t[2] \in S ELSE t[1] = "e" /\ \E i \in 2..Len(t) : HasS(t[i], S)
\* a power of other than two arguments
RECURSIVE Malformed(_)
Malformed(t) == t[1] = "e" /\ ((HSym(t) = "Power" /\ N(t) # 2) \/ \E i \in 3..Len(t) : Malformed(t[i]))
NoValue == {"Infinity", "ComplexInfinity", "Indeterminate", "DirectedInfinity", "$Failed", "$Aborted", "UnexpectedInfinitePowerBase"}
RECURSIVE Verdict(_, _, _)
Verdict(t, r, re) ==
  IF HasHead(t, "List")
  THEN (IF ~HasHead(r, "List") \/ N(r) # N(t) THEN "not a list of values"
        ELSE LET vs == {Verdict(t[i], r[i], re) : i \in 3..Len(t)}
             IN IF vs \ {"ok", "oof"} # {} THEN CHOOSE v \in vs : v \notin {"ok", "oof"} ELSE IF "oof" \in vs THEN "oof" ELSE "ok")
  ELSE IF HeadN(t, "Abs", 1) /\ HeadN(r, "Power", 2) /\ r[4] = <<"q", I(1), I(2)>>   \* the squares
  THEN LET P == [i \in 1..Len(Points) |-> [Points[i] EXCEPT !.re = re]]
           vs == [i \in 1..Len(Points) |-> <<Sq(P[i], t[3]), FVal(P[i], r[3])>>]
       IN IF \E i \in DOMAIN vs : vs[i][1] >= 0 /\ vs[i][2] >= 0 /\ vs[i][1] # vs[i][2] THEN "another value"
          ELSE IF \A i \in DOMAIN vs : vs[i][1] < 0 \/ vs[i][2] < 0 THEN "oof" ELSE "ok"
  ELSE LET P == [i \in 1..Len(Points) |-> [Points[i] EXCEPT !.re = re]]
           vs == [i \in 1..Len(Points) |-> <<FVal(P[i], t), FVal(P[i], r)>>]
       IN IF \E i \in DOMAIN vs : vs[i][1] >= 0 /\ vs[i][2] >= 0 /\ vs[i][1] # vs[i][2] THEN "another value"
          ELSE IF (\A i \in DOMAIN vs : vs[i][1] >= 0) /\ (HasS(r, NoValue) \/ Malformed(r)) THEN "no value"
          ELSE IF (\A i \in DOMAIN vs : vs[i][1] >= 0) /\ HasS(r, {"Private`a", "Private`b", "Private`x", "Private`rest"}) THEN "a name of the library"
          ELSE IF \A i \in DOMAIN vs : vs[i][1] < 0 \/ vs[i][2] < 0 THEN "oof" ELSE "ok"
TrigHeads == {"Sin", "Cos", "Tan", "Cot", "Sec", "Csc"}
\* the functions whose derivatives are known: the result is a formula
Known == {"Plus", "Times", "Power", "Sqrt", "Log", "Sin", "Cos", "Exp", "List", "Rational", "Complex"}
RECURSIVE OnlyH(_, _)
OnlyH(t, S) == t[1] # "e" \/ (HSym(t) \in S /\ \A i \in 3..Len(t) : OnlyH(t[i], S))
==============================================================================
