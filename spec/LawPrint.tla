------------------------------- MODULE LawPrint -------------------------------
(* The printed text of an expression is a text of that expression: read by   *)
(* the grammar (Parser) it is the same expression again, for every nesting   *)
(* of two (with Deep three) printable operators.                             *)
EXTENDS Interp
G == INSTANCE Parser
CONSTANT Deep
Two == {"Set", "SetDelayed", "Rule", "RuleDelayed", "Equal", "Unequal", "SameQ", "UnsameQ", "And", "Or", "StringJoin", "Less", "GreaterEqual", "ReplaceAll", "ReplaceRepeated",
        "Plus", "Times", "Power", "List", "f", "Hold", "Condition", "Alternatives"}
A == {Sy("a"), I(7), Str("s\"\\")}
Blanks == {E0("Blank"), E1("Blank", Sy("List")), E0("BlankSequence"), E0("BlankNullSequence"), E1("Blank", I(2)), E2("Pattern", Sy("x"), E0("Blank")), E2("Pattern", Sy("x"), E1("BlankSequence", Sy("List"))),
           E2("Pattern", Sy("x"), I(3)), E1("Optional", E2("Pattern", Sy("x"), E0("Blank"))), E1("Optional", E0("Blank")), E2("Pattern", I(2), E0("Blank")), E2("Optional", E2("Pattern", Sy("x"), E0("Blank")), I(1))}
Ones == {E1(h, x) : h \in {"Plus", "List", "f", "Equal", "And", "Rule", "Not"}, x \in {Sy("a"), I(7)}} \cup {E0("Plus"), E0("f"), E0("List"), <<"e", E1("f", Sy("a")), Sy("b")>>, <<"e", I(-2), Sy("b")>>}
Nums == {E2("Times", I(2), Sy("a")), E2("Times", I(-1), Sy("a")), E3("Times", I(-1), E2("Plus", Sy("a"), Sy("b")), Sy("c")), E2("Power", Sy("a"), I(-1)), E2("Power", I(-3), Sy("a")), E2("Power", Sy("a"), <<"q", I(1), I(2)>>),
         E2("Times", Sy("a"), E2("Power", Sy("b"), I(-1))), E2("Times", I(-1), E2("Power", Sy("b"), I(-1))), E2("Power", <<"q", I(2), I(3)>>, Sy("a")), E2("Times", <<"q", I(2), I(3)>>, Sy("a")), E2("Power", Sy("a"), E2("Power", Sy("b"), I(-1))),
         E3("Times", I(-1), Sy("a"), E2("Power", Sy("b"), I(-1))), <<"q", I(-1), I(2)>>, <<"c", I(2), I(-3)>>, <<"c", I(0), I(1)>>, <<"c", I(0), <<"q", I(-1), I(2)>>>>, I(-5), <<"z", -1, <<1, 2, 30>>>>}
L1 == {E2(h, x, y) : h \in Two, x \in {Sy("a"), I(7)}, y \in {Sy("b")}} \cup Nums \cup {E3(h, Sy("a"), Sy("b"), Sy("c")) : h \in Two} \cup Blanks \cup Ones
L2 == {E2(h, x, Sy("z")) : h \in Two, x \in L1} \cup {E2(h, Sy("z"), x) : h \in Two, x \in L1} \cup {E3(h, Sy("y"), x, Sy("z")) : h \in Two, x \in L1}
      \cup {<<"e", x, Sy("z")>> : x \in L1} \cup {E2("Pattern", Sy("n"), x) : x \in L1} \cup {E1("Optional", x) : x \in L1}
VARIABLES t, d
Init == t \in A \cup L1 \cup L2 /\ d = 2
Next == /\ Deep /\ d = 2 /\ d' = 3
        /\ \E h \in {"Set", "Rule", "Equal", "And", "Less", "ReplaceAll", "Plus", "Times", "Power", "f", "Pattern"} :
             \/ t' = E2(h, t, Sy("w")) /\ h # "Pattern"
             \/ t' = E2(h, IF h = "Pattern" THEN Sy("w") ELSE Sy("z"), t)
Spec == Init /\ [][Next]_<<t, d>>
\* signs, fractions and roots read as the operations that make them
RECURSIVE Arith(_)
Arith(x) == x[1] \in {"q", "c"} \/ (x[1] = "z" /\ x[2] < 0) \/ (x[1] = "i" /\ x[2] < 0)
            \/ (x[1] = "e" /\ (HSym(x) \in {"Times", "Power"} \/ \E i \in 2..Len(x) : Arith(x[i])))
RECURSIVE Holding(_)
Holding(x) == x[1] = "e" /\ (HSym(x) \in {"Hold", "Set", "SetDelayed", "RuleDelayed", "Condition", "Pattern", "ReplaceAll", "ReplaceRepeated", "And", "Or"} \/ \E i \in 2..Len(x) : Holding(x[i]))
ReadBack == LET x == PStr(t, "TOP", <<>>)
                r == G!Read(x)
            IN IF r = <<"ok", t>> \/ (Arith(t) /\ Holding(t)) THEN TRUE
               ELSE IF Arith(t) /\ r[1] = "ok" THEN LET u == Ev(r[2], Init0) v == Ev(t, Init0)
                                                     IN IF u[1] = v[1] \/ u[2].oof # "" \/ v[2].oof # "" THEN TRUE ELSE PrintT(<<x, u[1], t>>) /\ FALSE
               ELSE PrintT(<<x, r, t>>) /\ FALSE
===============================================================================
