------------------------------- MODULE RandTrace -------------------------------
(* Sessions with random numbers by the real code:                             *)
(*   [id, rows, steps: <<[ast, text, res]>>]                                   *)
(* rows[s][k]: draw k after SeedRandom[seed s], as another process gave it.   *)
(* Every session draws those numbers, at those places.                        *)
EXTENDS Rand, Json, IOUtils, TLC, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, st
vars == <<tr, pos, st>>
Rows == Traces[1].rows
Abs(n) == IF n < 0 THEN -n ELSE n
(* whole part and 20 bits *)
Fix(r) == r[2] * 1048576 + (r[3] \div 64)
RECURSIVE Same(_,_)
Same(v, r) ==
  CASE v[1] = "d" -> r = Rows[v[2]][v[3]]
    [] v[1] = "sc" -> /\ r[1] = "r"
                      /\ \E u \in {Rows[v[4]][v[5]][3] \div 64} : \E d \in {Fix(r) - v[2] * 1048576 - v[3] * u} :
                           IF v[3] >= 0 THEN d >= -1 /\ d <= v[3] + 1 ELSE d >= v[3] - 1 /\ d <= 1
    [] v[1] = "li" -> /\ r[1] = "e" /\ Len(r) = Len(v) + 1 /\ r[2] = <<"s", "System`List">>
                      /\ \A i \in 2..Len(v) : Same(v[i], r[i + 1])
    [] v[1] = "ho" -> r[1] = "e" /\ r[2] = <<"s", "System`Hold">>
    [] OTHER -> r = v
RECURSIVE Far(_)
Far(v) == CASE v[1] = "d" -> v[3] > Len(Rows[v[2]])
            [] v[1] = "sc" -> v[5] > Len(Rows[v[4]])
            [] v[1] = "li" -> \E i \in 2..Len(v) : Far(v[i])
            [] OTHER -> FALSE
Say(kind, why) == PrintT(kind \o " " \o ToString(tr) \o " " \o ToString(pos) \o " " \o why)
(* the numbers themselves: in [0, 1), no two alike, and spread *)
All == {<<s, k>> \in (1..Len(Rows)) \X (1..Len(Rows[1])) : TRUE}
Num == Cardinality(All)
RowsOk ==
  /\ \A p \in All : \E r \in {Rows[p[1]][p[2]]} : r[1] = "r" /\ r[2] = 0
  /\ Cardinality({Rows[p[1]][p[2]] : p \in All}) = Num
  /\ \A b \in 0..15 : \E p \in All : Rows[p[1]][p[2]][3] \div 4194304 = b
  /\ \E h \in {Cardinality({p \in All : Rows[p[1]][p[2]][3] < 33554432})} : 10 * h > 4 * Num /\ 10 * h < 6 * Num
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ st = St0
Step == /\ pos <= Len(Traces[tr].steps)
        /\ \E x \in {Traces[tr].steps[pos]} : \E r \in {Ev(x.ast, st)} :
             /\ st' = r.st
             /\ (IF Far(r.v) THEN Say("OOF", "") ELSE IF Same(r.v, x.res) THEN TRUE ELSE Say("MISMATCH", ToString(r.v))) = TRUE
        /\ pos' = pos + 1 /\ tr' = tr
Done == /\ pos = Len(Traces[tr].steps) + 1
        /\ (IF tr > 1 \/ RowsOk THEN TRUE ELSE PrintT("MISMATCH 1 1 the draws are not in [0, 1), alike, or not spread")) = TRUE
        /\ Say("DONE", "") /\ pos' = pos + 1 /\ UNCHANGED <<tr, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
================================================================================
