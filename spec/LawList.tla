-------------------------------- MODULE LawList -------------------------------
(* What the structural list operations, level specifications and iterators   *)
(* mean, stated on positions and sets, checked on what the interpreter of    *)
(* the specification computes, for all small lists, indices and levels.      *)
EXTENDS Interp
CONSTANT Deep
R == IF Deep THEN 6 ELSE 3
VARIABLES f, n, a, b
Fns == {"Part", "Take", "TakeTo", "Span", "Ends", "Pad", "Set", "Nest", "Fold", "Map", "Table", "TableList", "SumDo", "Tuples",
        "Level", "LevelUse", "Flatten", "Thread", "Select", "ReplPart", "Tally"}
OnlyN == {"Fold", "Map", "TableList", "Thread"}
OnlyNA == {"Take", "Ends", "Pad", "Nest", "Tuples", "Flatten", "ReplPart", "Tally"}
Lengths == 0..(IF Deep THEN 5 ELSE 3)
Init == f \in Fns /\ n = -1 /\ a = 0 /\ b = 0
Next == n < 0 /\ f' = f /\ n' \in (IF f \in {"Level", "LevelUse"} THEN {0} ELSE Lengths)
        /\ a' \in (IF f \in OnlyN THEN {0} ELSE -R..R) /\ b' \in (IF f \in OnlyN \cup OnlyNA THEN {0} ELSE -R..R)
Spec == Init /\ [][Next]_<<f, n, a, b>>
V(t) == Ev(t, Init0)
Nm == <<"p", "q", "r", "u", "v">>
el(i) == Sy(Nm[i])
L(m) == Lst([i \in 1..m |-> el(i)])
G(m) == En("gg", [i \in 1..m |-> el(i)])
\* the position an index addresses in a list of m elements, 0 if none (the language
\* has no positions from the end)
Pos(i, m) == IF i > 0 /\ i <= m THEN i ELSE 0
Pick(m, ps) == Lst([k \in 1..Len(ps) |-> el(ps[k])])
\* what is asked of the value of t: to be w; to list the elements of w once
\* each (in ascending order); not to be a list
Is(t, w) == <<t, "is", w>>
Left(t) == <<t, "is", t>>
Lists(t, S) == <<t, "set", S>>
Ascends(t, S) == <<t, "asc", S>>
NoList(t) == <<t, "nolist", Null>>
Seq1(i, j, d) == LET c == IF d > 0 THEN (IF j < i THEN 0 ELSE (j - i) \div d + 1) ELSE (IF j > i THEN 0 ELSE (i - j) \div (-d) + 1)
                 IN [k \in 1..c |-> i + (k - 1) * d]
(* ---------------- trees and levels ---------------- *)
T1 == Lst(<<el(1), Lst(<<el(2), Lst(<<el(3)>>)>>)>>)
T2 == En("gg", <<E2("List", el(1), E1("hh", el(2))), el(3)>>)
T3 == E1("gg", E1("gg", E2("gg", I(1), Lst(<<I(2), I(2)>>))))
Trees == <<T1, T2, T3, E2("hh", T1, T2)>>
Pth(p, t) == [p |-> p, t |-> t]
RECURSIVE Dep(_)
Dep(t) == IF ~IsE(t) THEN 1 ELSE 1 + FoldLeft(LAMBDA m, x : Max2(m, Dep(x)), 0, Args(t))
\* level k: k levels below the top for k >= 0, depth -k for k < 0
InLevels(x, lo, hi) == (IF lo >= 0 THEN Len(x.p) >= lo ELSE Dep(x.t) <= -lo) /\ (IF hi >= 0 THEN Len(x.p) <= hi ELSE Dep(x.t) >= -hi)
\* subexpressions are listed before what contains them
RECURSIVE Post(_, _)
Post(p, t) == (IF IsE(t) THEN Flat1([i \in 1..N(t) |-> Post(Append(p, i), t[i + 2])]) ELSE <<>>) \o <<Pth(p, t)>>
Addr(t, lo, hi) == SelectSeq(Post(<<>>, t), LAMBDA x : InLevels(x, lo, hi))
RECURSIVE WrapAt(_, _, _, _)
WrapAt(p, t, lo, hi) == LET new == IF IsE(t) THEN <<"e", t[2]>> \o [i \in 1..N(t) |-> WrapAt(Append(p, i), t[i + 2], lo, hi)] ELSE t
                      IN IF InLevels(Pth(p, t), lo, hi) THEN E1("kk", new) ELSE new
Spc == Lst(<<I(a), I(b)>>)
AnyPat == E0("Blank")
(* ---------------- sets ---------------- *)
Some(m, k) == Lst([i \in 1..m |-> el(((i * (k + R + 1)) % 3) + 1)])
SetOf(t) == {t[i] : i \in 3..Len(t)}
Nm2(t) == CHOOSE i \in 1..5 : el(i) = t
Asc(t) == \A i \in 4..Len(t) : Nm2(t[i - 1]) < Nm2(t[i])
It == IF n = 0 THEN Lst(<<Sy("it"), I(a), I(b)>>) ELSE IF n = 1 THEN Lst(<<Sy("it"), I(b)>>) ELSE Lst(<<Sy("it"), I(a), I(b), I(<<1, -1, 2, -2, 3>>[n])>>)
ItVals == IF n = 0 THEN Seq1(a, b, 1) ELSE IF n = 1 THEN Seq1(1, b, 1) ELSE Seq1(a, b, <<1, -1, 2, -2, 3>>[n])
RECURSIVE App(_), Fol(_)
App(k) == IF k = 0 THEN el(1) ELSE E1("gg", App(k - 1))
Fol(k) == IF k = 0 THEN Sy("w") ELSE E2("gg", Fol(k - 1), el(k))
If(c, x) == IF c THEN x ELSE <<>>
Asks ==
  CASE f = "Part" -> (IF a = 0 THEN <<Is(E2("Part", G(n), I(0)), Sy("gg"))>> ELSE IF Pos(a, n) = 0 THEN <<Left(E2("Part", L(n), I(a)))>> ELSE <<Is(E2("Part", L(n), I(a)), el(Pos(a, n)))>>)
                     \o If(Pos(a, n) > 0 /\ Pos(b, n) > 0, <<Is(E3("Part", Lst([i \in 1..n |-> Lst([j \in 1..n |-> I(i * 10 + j)])]), I(a), I(b)), I(Pos(a, n) * 10 + Pos(b, n)))>>)
    [] f = "Take" -> IF a = 0 THEN <<>> ELSE IF a < 0 \/ a > n THEN <<NoList(E2("Take", L(n), I(a)))>> ELSE <<Is(E2("Take", L(n), I(a)), Pick(n, Seq1(1, a, 1)))>>
    [] f = "TakeTo" -> If(Pos(a, n) > 0 /\ Pos(b, n) >= Pos(a, n), <<Is(E2("Take", L(n), Lst(<<I(a), I(b)>>)), Pick(n, Seq1(a, b, 1)))>>)
    [] f = "Span" -> If(Pos(a, n) > 0 /\ Pos(b, n) >= Pos(a, n), <<Is(E2("Part", L(n), E2("Span", I(a), I(b))), Pick(n, Seq1(a, b, 1))), Is(E2("Part", L(n), E2("Span", I(a), Sy("All"))), Pick(n, Seq1(a, n, 1)))>>)
    [] f = "Ends" -> (IF n > 0 THEN <<Is(E1("First", L(n)), el(1)), Is(E1("Last", L(n)), el(n)), Is(E2("Prepend", E1("Rest", L(n)), E1("First", L(n))), L(n))>>
                      ELSE <<Left(E1("First", L(0))), Left(E1("Last", L(0))), Left(E1("Rest", L(0)))>>)
                     \o <<Is(E1("Reverse", L(n)), Pick(n, Seq1(n, 1, -1))), Is(E1("Length", L(n)), I(n)), Is(E2("Join", L(n), L(Abs(a) % 4)), Lst(Args(L(n)) \o Args(L(Abs(a) % 4)))),
                          Is(E2("Append", G(n), Sy("w")), En("gg", Args(G(n)) \o <<Sy("w")>>))>>
    [] f = "Pad" -> If(a >= n, <<Is(E3("PadRight", L(n), I(a), Sy("w")), Lst(Args(L(n)) \o [k \in 1..(a - n) |-> Sy("w")])),
                                 Is(E3("PadLeft", L(n), I(a), Sy("w")), Lst([k \in 1..(a - n) |-> Sy("w")] \o Args(L(n)))),
                                 Is(E2("ConstantArray", Sy("w"), I(a)), Lst([k \in 1..a |-> Sy("w")]))>>)
    [] f = "Set" -> LET x == Some(n, a)
                        y == Some(Abs(b), b)
                    IN <<Ascends(E2("Union", x, y), SetOf(x) \cup SetOf(y)), Ascends(E2("Intersection", x, y), SetOf(x) \cap SetOf(y)), Ascends(E2("Complement", x, y), SetOf(x) \ SetOf(y)),
                         Lists(E1("DeleteDuplicates", x), SetOf(x))>>
                       \o [k \in 1..3 |-> Is(E2("MemberQ", x, el(k)), Bool(el(k) \in SetOf(x)))] \o [k \in 1..3 |-> Is(E2("Count", x, el(k)), I(Cardinality({i \in 3..Len(x) : x[i] = el(k)})))]
    [] f = "Tally" -> LET x == Some(n, a) IN <<Lists(E1("Tally", x), {Lst(<<e, I(Cardinality({i \in 3..Len(x) : x[i] = e}))>>) : e \in SetOf(x)})>>
    [] f = "Nest" -> If(a >= 0, <<Is(E3("Nest", Sy("gg"), el(1), I(a)), App(a)), Is(E3("NestList", Sy("gg"), el(1), I(a)), Lst([k \in 1..(a + 1) |-> App(k - 1)]))>>)
    [] f = "Fold" -> <<Is(E3("Fold", Sy("gg"), Sy("w"), L(n)), Fol(n)), Is(E3("FoldList", Sy("gg"), Sy("w"), L(n)), Lst([k \in 1..(n + 1) |-> Fol(k - 1)]))>>
    [] f = "Map" -> <<Is(E2("Map", Sy("hh"), G(n)), En("gg", [k \in 1..n |-> E1("hh", el(k))])), Is(E2("Apply", Sy("hh"), G(n)), En("hh", Args(G(n)))),
                      Is(E2("MapIndexed", Sy("hh"), L(n)), Lst([k \in 1..n |-> E2("hh", el(k), Lst(<<I(k)>>))])), Is(E2("Array", Sy("hh"), I(n)), Lst([k \in 1..n |-> E1("hh", I(k))]))>>
    [] f = "Tuples" -> If(n \in 1..3 /\ a \in 1..3, <<Lists(E2("Tuples", L(n), I(a)), {Lst(g) : g \in [1..a -> {el(k) : k \in 1..n}]})>>)
    [] f = "Table" -> <<Is(E2("Table", E1("hh", Sy("it")), It), Lst([k \in 1..Len(ItVals) |-> E1("hh", I(ItVals[k]))]))>>
                      \o If(n = 0, <<Is(E2("Range", I(a), I(b)), Lst([k \in 1..Len(ItVals) |-> I(ItVals[k])]))>>)
                      \o If(n < 3, <<Is(E3("Table", E2("hh", Sy("it"), Sy("jt")), It, Lst(<<Sy("jt"), I(2)>>)), Lst(Flat1([k \in 1..Len(ItVals) |-> [m \in 1..2 |-> E2("hh", I(ItVals[k]), I(m))]])))>>)
    [] f = "TableList" -> <<Is(E2("Table", E1("hh", Sy("it")), Lst(<<Sy("it"), L(n)>>)), Lst([k \in 1..n |-> E1("hh", el(k))]))>>
    [] f = "SumDo" -> <<Is(E2("Sum", Sy("it"), It), I(FoldLeft(LAMBDA s, k : s + k, 0, ItVals))), Is(E2("Sum", E2("Power", Sy("it"), I(2)), It), I(FoldLeft(LAMBDA s, k : s + k * k, 0, ItVals))),
                        Is(E2("Product", E2("Plus", Sy("it"), I(1)), It), I(FoldLeft(LAMBDA s, k : s * (k + 1), 1, ItVals))),
                        Is(En("CompoundExpression", <<E2("Set", Sy("lg"), Lst(<<>>)), E2("Do", E2("Set", Sy("lg"), E2("Append", Sy("lg"), Sy("it"))), It), Sy("lg")>>), Lst([k \in 1..Len(ItVals) |-> I(ItVals[k])]))>>
    [] f = "Level" -> [i \in 1..Len(Trees) |-> Is(E3("Count", Trees[i], AnyPat, Spc), I(Len(Addr(Trees[i], a, b))))]
    [] f = "LevelUse" -> [i \in 1..Len(Trees) |-> Is(E3("Map", Sy("kk"), Trees[i], Spc), WrapAt(<<>>, Trees[i], a, b))]
    [] f = "Flatten" -> LET t == Lst(<<L(n), Lst(<<L(Abs(a) % 4), E1("gg", L(2))>>), el(1)>>)
                        IN <<Is(E1("Flatten", t), Lst(Args(L(n)) \o Args(L(Abs(a) % 4)) \o <<E1("gg", L(2)), el(1)>>)), Is(E2("Flatten", t, I(1)), Lst(Args(L(n)) \o <<L(Abs(a) % 4), E1("gg", L(2)), el(1)>>))>>
    [] f = "Thread" -> <<Is(E1("Thread", E2("hh", L(n), L(n))), Lst([k \in 1..n |-> E2("hh", el(k), el(k))]))>> \o If(n > 0, <<Is(E1("Transpose", Lst(<<L(n), L(n)>>)), Lst([k \in 1..n |-> Lst(<<el(k), el(k)>>)]))>>)
    [] f = "Select" -> LET x == Lst([k \in 1..n |-> I((k * (a + R + 1)) % 5)])
                       IN <<Is(E2("Select", x, Sy("EvenQ")), Lst(SelectSeq(Args(x), LAMBDA i : i[2] % 2 = 0))), Is(E2("Cases", x, I(b)), Lst(SelectSeq(Args(x), LAMBDA i : i = I(b)))),
                            Is(E2("DeleteCases", x, I(b)), Lst(SelectSeq(Args(x), LAMBDA i : i # I(b))))>>
    [] f = "ReplPart" -> If(Pos(a, n) > 0, <<Is(E2("ReplacePart", G(n), E2("Rule", I(a), Sy("w"))), En("gg", [k \in 1..n |-> IF k = Pos(a, n) THEN Sy("w") ELSE el(k)]))>>)
Meets(v, kind, w) ==
  CASE kind = "is" -> v = w
    [] kind = "nolist" -> ~HasHead(v, "List")
    [] OTHER -> HasHead(v, "List") /\ SetOf(v) = w /\ N(v) = Cardinality(w) /\ (kind = "asc" => Asc(v))
Decide(ask) == \E r \in {V(ask[1])} : r[2].oof # "" \/ Meets(r[1], ask[2], ask[3]) \/ (PrintT(ToString(<<"LAW", f, n, a, b, "got", r[1], ask>>)) /\ FALSE)
Holds == n < 0 \/ \A ask \in {Asks[i] : i \in DOMAIN Asks} : Decide(ask)
===============================================================================
