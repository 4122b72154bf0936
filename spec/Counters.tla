------------------------------- MODULE Counters -------------------------------
(* Groups of four time counters: recordings add up per key, merging adds the *)
(* totals and the numbers of recordings of another group. Times are integers *)
(* (quarters).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, ctr, bad
vars == <<tr, pos, ctr, bad>>
Limit == 25
X == Traces[tr].steps[pos]
\* ctr[group][counter]: a set of records [key, v, n], one per key
Has(c, k) == \E e \in c : e.key = k
Of(c, k) == IF Has(c, k) THEN CHOOSE e \in c : e.key = k ELSE [key |-> k, v |-> 0, n |-> 0]
Plus(c, e) == {d \in c : d.key # e.key} \cup {[key |-> e.key, v |-> Of(c, e.key).v + e.v, n |-> Of(c, e.key).n + e.n]}
Merged(c, d) == {e \in c : ~Has(d, e.key)} \cup
                {[key |-> e.key, v |-> Of(c, e.key).v + e.v, n |-> Of(c, e.key).n + e.n] : e \in d}
Add(x) == ctr' = [ctr EXCEPT ![x.g][x.c] = Plus(@, [key |-> x.key, v |-> x.v, n |-> 1])]
Merge(x) == ctr' = [ctr EXCEPT ![x.g] = [c \in 1..4 |-> Merged(ctr[x.g][c], ctr[x.h][c])]]
\* a report: the true entries, largest totals first, none larger left out, at most Limit
Reports(c, s) ==
  /\ Len(s) = (IF Cardinality(c) < Limit THEN Cardinality(c) ELSE Limit)
  /\ \A i \in 1..Len(s) : [key |-> s[i].key, v |-> s[i].v, n |-> s[i].n] \in c
  /\ \A i, j \in 1..Len(s) : i < j => s[i].v >= s[j].v /\ s[i].key # s[j].key
  /\ \A e \in c : (\E i \in 1..Len(s) : s[i].key = e.key) \/ (\A i \in 1..Len(s) : s[i].v >= e.v)
Show(x) == Len(x.out) = 4 /\ (\A c \in 1..4 : Reports(ctr[x.g][c], x.out[c])) = TRUE /\ UNCHANGED ctr
Act(x) == CASE x.k = "add" -> Add(x) [] x.k = "merge" -> Merge(x) [] OTHER -> Show(x)
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = FALSE /\ ctr = [g \in 0..3 |-> [c \in 1..4 |-> {}]]
Report(w) == PrintT(w \o " " \o ToString(tr) \o " " \o ToString(pos))
Step == /\ ~bad /\ pos # 0 /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ IF ENABLED Act(X) THEN Act(X) /\ bad' = FALSE
           ELSE Report("MISMATCH") /\ bad' = TRUE /\ UNCHANGED ctr
Done == /\ pos # 0 /\ (bad \/ pos = Len(Traces[tr].steps) + 1)
        /\ Report("DONE") /\ pos' = 0 /\ UNCHANGED <<tr, ctr, bad>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
