-------------------------------- MODULE LawLogic ------------------------------
(* A simplified Boolean expression has the truth value of the expression     *)
(* under every valuation of its symbols, and operands are evaluated exactly  *)
(* up to the one that decides.                                               *)
EXTENDS Interp
CONSTANT Deep
Leaves == {True, False, Sy("p"), Sy("q"), E1("Not", Sy("p")), E1("Not", Sy("q"))}
Small == {True, False, Sy("p"), Sy("q")}
Ops == {"And", "Or"}
VARIABLES h, k, x, y, z
Init == h \in Ops /\ k \in Ops \cup {"Log"} /\ x = Null /\ y = Null /\ z = Null
Next == x = Null /\ UNCHANGED <<h, k>> /\ x' \in Leaves /\ y' \in Leaves \cup {E2(k, True, Sy("p"))} /\ z' \in (IF Deep THEN Leaves ELSE Small)
Spec == Init /\ [][Next]_<<h, k, x, y, z>>
RECURSIVE Tv(_, _)
Tv(t, v) ==
  CASE t = True -> TRUE [] t = False -> FALSE [] IsS(t) -> v[t[2]]
    [] HasHead(t, "Not") -> ~Tv(t[3], v)
    [] HasHead(t, "And") -> \A i \in 3..Len(t) : Tv(t[i], v)
    [] HasHead(t, "Or") -> \E i \in 3..Len(t) : Tv(t[i], v)
Same(t) == LET r == Ev(t, Init0)
           IN r[2].oof = "" /\ \A v \in [{"p", "q"} -> BOOLEAN] : Tv(r[1], v) = Tv(t, v)
Logged(i, t) == En("CompoundExpression", <<E2("Set", Sy("lg"), E2("Append", Sy("lg"), I(i))), t>>)
\* operands before the first one with the deciding value, and that one
Upto(ts, d) == IF \E i \in 1..3 : ts[i] = d THEN CHOOSE i \in 1..3 : ts[i] = d /\ \A j \in 1..(i - 1) : ts[j] # d ELSE 3
Want ==
  IF k = "Log"
  THEN LET ts == <<x, y, z>>
           c == Upto(ts, IF h = "And" THEN False ELSE True)
       IN Ev(En("CompoundExpression", <<E2("Set", Sy("lg"), Lst(<<>>)), En(h, [i \in 1..3 |-> Logged(i, ts[i])]), Sy("lg")>>), Init0)[1] = Lst([i \in 1..c |-> I(i)])
  ELSE LET t1 == E2(h, x, E2(k, y, z))
           t2 == E3(h, x, y, z)
           t3 == E1("Not", E2(h, E2(k, x, y), E1("Not", z)))
       IN Same(t1) /\ Same(t2) /\ Same(t3)
Holds == x = Null \/ (k = "Log" /\ IsE(y) /\ HSym(y) = "Log") \/ IF Want THEN TRUE ELSE PrintT(ToString(<<"LAW", h, k, x, y, z>>)) /\ FALSE
===============================================================================
