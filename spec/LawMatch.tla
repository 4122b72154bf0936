------------------------------- MODULE LawMatch -------------------------------
(* What the pattern language means, stated without any order of trial: the   *)
(* set of all derivations of "p matches a". The matcher of the interpreter   *)
(* has to find every derivation, once, and nothing else: its solutions are   *)
(* sound, complete and free of duplicates. A solution is first in the        *)
(* sequence only if no other one gives less to the earlier sequence          *)
(* patterns (ShortestFirst).                                                 *)
EXTENDS Interp
CONSTANTS Deep            \* the larger universe
Attrs == [f |-> {}, u |-> {"Orderless"}, v |-> {"Flat"}, w |-> {"Flat", "Orderless"}, q |-> {"Flat", "Orderless", "OneIdentity"}, p |-> {"Flat", "OneIdentity"}]
S0 == [Init0 EXCEPT !.def = [h \in DOMAIN Attrs |-> [own |-> <<>>, rules |-> <<>>, attr |-> Attrs[h]]] @@ @]
B0 == E0("Blank")
Pat(x, b) == E2("Pattern", Sy(x), b)
-------------------------------------------------------------------------------
Functional(b) == \A e1, e2 \in b : e1[1] = e2[1] => e1[2] = e2[2]
\* the shape of an argument pattern: bounds, pattern of one element, name, default
Form(p, h) ==
  LET opt == HasHead(p, "Optional")
      t == IF opt THEN p[3] ELSE p
      nm == IF HasHead(t, "Pattern") THEN t[3][2] ELSE ""
      b == IF HasHead(t, "Pattern") THEN t[4] ELSE t
      flat == "Flat" \in Attrs[h]
      \* in a flat head a blank can also stand for h[several], if h is the head it asks for
      blank == HasHead(b, "Blank") /\ N(b) = 0
  IN [name |-> nm, opt |-> opt, d |-> IF opt THEN p[4] ELSE Null,
      wrap |-> flat /\ blank,
      one |-> IF HasHead(b, "BlankSequence") \/ HasHead(b, "BlankNullSequence") THEN En("Blank", Args(b))
              ELSE IF HasHead(b, "Repeated") \/ HasHead(b, "RepeatedNull") THEN b[3] ELSE b,
      lo |-> IF opt \/ HasHead(b, "BlankNullSequence") \/ HasHead(b, "RepeatedNull") THEN 0 ELSE 1,
      hi |-> IF HasHead(b, "BlankSequence") \/ HasHead(b, "BlankNullSequence") \/ HasHead(b, "Repeated") \/ HasHead(b, "RepeatedNull")
                \/ (flat /\ blank) THEN 99 ELSE 1]
\* what the name of an argument pattern stands for
Value(f, seg, h) == IF seg = <<>> /\ f.opt THEN f.d
                    ELSE IF Len(seg) = 1 /\ (~f.wrap \/ f.opt \/ "OneIdentity" \in Attrs[h]) THEN seg[1]
                    ELSE IF f.wrap THEN En(h, seg) ELSE En("Sequence", seg)
RECURSIVE Der(_, _)
RECURSIVE DerEach(_, _)
RECURSIVE DerForms(_, _, _, _, _)
\* the derivations of a sequence of elements, each by the same pattern
DerEach(seg, p) == IF seg = <<>> THEN {<<<<>>, {}>>}
                   ELSE {<<<<d[1], r[1]>>, d[2] \cup r[2]>> : d \in Der(Head(seg), p), r \in DerEach(Tail(seg), p)}
DerForm(f, seg, h) == {<<d[1], IF f.name = "" THEN d[2] ELSE d[2] \cup {<<f.name, Value(f, seg, h)>>}>> : d \in DerEach(seg, f.one)}
\* the arguments are distributed by g (argument -> form)
Picked(args, g, k) == LET ix == SelectSeq([i \in 1..Len(args) |-> i], LAMBDA i : g[i] = k) IN [i \in 1..Len(ix) |-> args[ix[i]]]
DerForms(args, forms, g, k, h) ==
  IF k > Len(forms) THEN {<<<<>>, {}>>}
  ELSE {<<<<d[1], r[1]>>, d[2] \cup r[2]>> : d \in DerForm(forms[k], Picked(args, g, k), h), r \in DerForms(args, forms, g, k + 1, h)}
DerArgs(args, pats, h) ==
  LET forms == Map1(LAMBDA p : Form(p, h), pats)
      ord == "Orderless" \in Attrs[h]
      gs == {g \in [1..Len(args) -> 1..Len(pats)] :
               /\ (ord \/ \A i, j \in 1..Len(args) : i < j => g[i] <= g[j])
               /\ \A k \in 1..Len(pats) : LET c == Cardinality({i \in 1..Len(args) : g[i] = k}) IN c >= forms[k].lo /\ c <= forms[k].hi}
  IN UNION {{<<<<g, d[1]>>, d[2]>> : d \in {e \in DerForms(args, forms, g, 1, h) : Functional(e[2])}} : g \in gs}
Der(a, p) ==
  IF p[1] # "e" THEN (IF a = p THEN {<<<<>>, {}>>} ELSE {})
  ELSE IF HasHead(p, "Blank") THEN (IF N(p) = 0 \/ HeadOf(a) = p[3] THEN {<<<<>>, {}>>} ELSE {})
  ELSE IF HasHead(p, "Pattern") THEN {e \in {<<d[1], d[2] \cup {<<p[3][2], a>>}>> : d \in Der(a, p[4])} : Functional(e[2])}
  ELSE IF HasHead(p, "HoldPattern") THEN Der(a, p[3])
  ELSE IF ~IsE(a) \/ Hd(a) # Hd(p) THEN {}
  ELSE DerArgs(Args(a), Args(p), HSym(p))
-------------------------------------------------------------------------------
AsSet(b) == {<<x, b[x]>> : x \in DOMAIN b}
Elems == IF Deep THEN {I(1), I(2), Sy("a")} ELSE {I(1), Sy("a")}
MaxArgs == IF Deep THEN 4 ELSE 3
Forms1 == {Pat("x", B0), Pat("y", B0), Pat("x", E0("BlankSequence")), Pat("y", E0("BlankNullSequence")), I(1), Pat("x", E1("Blank", Sy("Integer")))}
Forms0 == {Pat("x", B0), Pat("x", E0("BlankSequence")), Pat("y", E0("BlankNullSequence"))} \cup IF Deep THEN Forms1 ELSE {}
Forms2 == Forms1 \cup {B0, E0("BlankSequence"), E0("BlankNullSequence"), E1("BlankSequence", Sy("Integer")), Pat("x", E0("BlankNullSequence")), Pat("y", E0("BlankSequence")),
                       E2("Optional", Pat("x", B0), I(7)), E2("Optional", Pat("y", B0), I(1)), E2("Optional", Pat("x", E1("Blank", Sy("Integer"))), Sy("a")), E1("HoldPattern", Pat("x", B0)),
                       Pat("x", E1("f", Pat("y", B0))), E1("f", Pat("x", B0)), E2("f", Pat("x", E0("BlankNullSequence")), Pat("y", E0("BlankNullSequence"))),
                       E1("Repeated", I(1)), E1("RepeatedNull", Sy("a")), Pat("x", E1("Repeated", I(1))), E1("Repeated", Pat("x", B0)), E1("RepeatedNull", E1("f", Pat("y", B0)))}
Pats == {<<>>} \cup {<<p1>> : p1 \in Forms2} \cup {<<p1, p2>> : p1 \in Forms2, p2 \in IF Deep THEN Forms2 ELSE Forms1}
        \cup {<<p1, p2, p3>> : p1 \in Forms0, p2 \in Forms0, p3 \in IF Deep THEN Forms2 ELSE Forms0}
Seqs(U, n) == UNION {[1..k -> U] : k \in 0..n}
Ins == Seqs(Elems, MaxArgs) \cup Seqs({I(1), E1("f", I(1)), E2("f", I(1), Sy("a"))}, 2)
VARIABLES h, as, ps
Init == h \in DOMAIN Attrs /\ ps \in Pats /\ as = <<>>
\* the arguments one by one, so that the work is shared by the workers
Next == /\ \E x \in Elems \cup {E1("f", I(1)), E2("f", I(1), Sy("a"))} : Append(as, x) \in Ins /\ as' = Append(as, x)
        /\ UNCHANGED <<h, ps>>
Spec == Init /\ [][Next]_<<h, as, ps>>
Sols == Match(En(h, as), En(h, ps), <<>>, S0)
Sound == LET ders == Der(En(h, as), En(h, ps)) sols == Sols
         IN IF {AsSet(sols[i]) : i \in 1..Len(sols)} = {d[2] : d \in ders} /\ Len(sols) = Cardinality(ders) THEN TRUE
            ELSE PrintT(<<h, as, ps, sols, ders>>) /\ FALSE
\* replacing the names of the pattern by what they stand for gives an expression
\* that is equal to the one that was matched
RECURSIVE Names(_)
Names(p) == IF p[1] # "e" THEN p ELSE IF HasHead(p, "Pattern") THEN p[3] ELSE [i \in 1..Len(p) |-> IF i <= 2 THEN p[i] ELSE Names(p[i])]
RECURSIVE AllNamed(_)
AllNamed(p) == \/ p[1] # "e"
               \/ HasHead(p, "Pattern") /\ ~HasHead(p[4], "Repeated")
               \/ HSym(p) \in DOMAIN Attrs /\ \A i \in 3..Len(p) : AllNamed(p[i])
Instance == AllNamed(En(h, ps)) =>
  \A i \in 1..Len(Sols) : LET v == Ev(ReplPD(Names(En(h, ps)), Sols[i]), S0)[1]
                           IN IF v = Ev(En(h, as), S0)[1] THEN TRUE ELSE PrintT(<<h, as, ps, Sols[i], v>>) /\ FALSE
\* in ordered heads the earlier parts take as little as they can: no solution
\* comes after one in which the first part that differs takes more
SegLen(v) == IF HasHead(v, "Sequence") THEN N(v) ELSE 1
Shortest == (h = "f" /\ \A i \in 1..Len(ps) : HasHead(ps[i], "Pattern") /\ IsBlank(ps[i][4]) /\ \A j \in 1..(i - 1) : ps[i][3] # ps[j][3]) =>
  \A i \in 1..Len(Sols) : \A j \in 1..(i - 1) :
     LET c == {k \in 1..Len(ps) : SegLen(Sols[i][ps[k][3][2]]) # SegLen(Sols[j][ps[k][3][2]])}
     IN c # {} /\ LET k == CHOOSE m \in c : \A o \in c : m <= o IN SegLen(Sols[j][ps[k][3][2]]) < SegLen(Sols[i][ps[k][3][2]])
===============================================================================
