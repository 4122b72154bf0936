------------------------------- MODULE LawOrder -------------------------------
(* The laws of the canonical order, checked on every triple of a universe    *)
(* that has all kinds of atoms and the heads the order treats specially.     *)
EXTENDS Order
Atoms == {I(-2), I(0), I(1), I(2), <<"z", 1, <<0, 0, 0, 1>>>>, <<"q", I(1), I(2)>>, <<"q", I(-3), I(2)>>, <<"f", I(1), I(2)>>, <<"f", I(1), I(1)>>,
          <<"c", I(1), I(2)>>, <<"c", I(0), <<"q", I(1), I(2)>>>>, Str(""), Str("a"), Str("ab"), Sy("a"), Sy("b"), Sy("Pi")}
Small == {I(2), <<"q", I(1), I(2)>>, Str("a"), Sy("a"), Sy("b")}
Simple == {E1("f", x) : x \in Small} \cup {E2(h, x, y) : h \in {"f", "Plus"}, x \in {I(2), Sy("a")}, y \in {I(2), Sy("b")}} \cup {E0("f"), E0("List")}
Mult == {E2("Times", x, y) : x \in {I(2), I(3), Sy("a")}, y \in {Sy("a"), Sy("b"), E1("f", Sy("a"))}}
        \cup {E3("Times", I(2), Sy("a"), Sy("b")), E3("Times", I(3), Sy("a"), Sy("b"))}
Pows == {E2("Power", x, y) : x \in {Sy("a"), Sy("b")}, y \in {I(2), I(-1), Sy("b")}} \cup {E2("Power", E1("f", Sy("a")), I(2)), E2("Power", I(2), Sy("a"))}
Both == {E2("Times", x, y) : x \in {I(2), Sy("a")}, y \in {E2("Power", Sy("a"), I(2)), E2("Power", Sy("b"), I(-1))}}
Odd == {E1("Times", Sy("a")), E0("Times"), E1("Power", Sy("a")), E2("Times", Sy("a"), I(2)), E2("Times", I(2), I(3)), E2("Times", I(2), E2("Times", I(2), Sy("a"))), E3("Power", Sy("a"), Sy("b"), I(2)),
        E2("Times", Str("a"), Sy("a")), E2("Times", <<"c", I(0), I(1)>>, Sy("a")), E2("Times", <<"q", I(1), I(2)>>, Sy("a")), E2("Times", <<"f", I(2), I(1)>>, Sy("a")), E2("Power", Sy("a"), I(1)), E2("Power", I(2), I(3)),
        E2("Power", E2("Power", Sy("a"), I(2)), I(2)), E2("Power", E2("Times", I(2), Sy("a")), I(2)), E2("Power", Sy("a"), E2("Times", I(2), Sy("a"))), E2("Plus", Sy("a"), E2("Times", I(2), Sy("b"))), E2("Plus", E2("Power", Sy("a"), I(2)), I(1)),
        <<"e", E1("f", Sy("a")), I(1)>>, <<"e", I(2), Sy("a")>>, E1("Times", I(2)), E2("Power", Sy("a"), Sy("a")), E2("Power", E1("f", Sy("a")), I(1)), E2("Times", I(1), Sy("a")), E2("Times", I(1), E1("f", Sy("a"))), E2("Times", I(1), E2("Power", Sy("a"), I(2))),
        E2("Power", E2("Times", I(1), Sy("a")), I(1)), E2("Times", I(1), E2("Power", Sy("a"), I(1))), E2("Power", E1("List", Sy("a")), I(1)), E1("List", E2("Power", Sy("a"), I(1)))}
CONSTANT Deep
Few == {I(-2), I(2), <<"q", I(1), I(2)>>, <<"f", I(2), I(1)>>, <<"c", I(0), I(1)>>, Str(""), Str("a"), Sy("a"), Sy("b"), E0("f"), E1("f", Sy("a")), E2("f", I(2), Sy("b")),
        E2("Times", I(2), Sy("a")), E2("Times", I(3), Sy("a")), E2("Times", Sy("a"), Sy("b")), E3("Times", I(2), Sy("a"), Sy("b")), E2("Power", Sy("a"), I(2)), E2("Power", Sy("a"), I(-1)), E2("Power", E1("f", Sy("a")), I(2)),
        E2("Times", I(2), E2("Power", Sy("a"), I(2))), E1("Times", Sy("a")), E0("Times"), E2("Times", Sy("a"), I(2)), E2("Times", Str("a"), Sy("a")), E2("Power", Sy("a"), I(1)), E2("Plus", Sy("a"), I(2)),
        <<"e", E1("f", Sy("a")), I(1)>>, <<"e", I(2), Sy("a")>>, E1("List", Sy("a")), E2("Times", I(1), Sy("a"))}
U == IF ~Deep THEN Few ELSE Odd \cup Atoms \cup Simple \cup Mult \cup Pows \cup Both
VARIABLES x, y
Init == x \in U /\ y \in U
Next == FALSE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Total == Ord(x, y) \in {-1, 0, 1}
Anti == Ord(x, y) = -Ord(y, x)
Ident == (Ord(x, y) = 0) <=> (x = y)
Trans == Ord(x, y) = 1 => \A z \in U : Ord(y, z) = 1 => (IF Ord(x, z) = 1 THEN TRUE ELSE PrintT(<<x, y, z>>) /\ FALSE)
SortPerm == LET s == <<x, y>> t == <<y, x>> IN SortO(s) = SortO(t)
===============================================================================
