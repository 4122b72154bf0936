--------------------------------- MODULE Rand ---------------------------------
(* Random numbers. The state of a session is the seed the generator was last  *)
(* given, the number of draws since then, and the values of variables. An     *)
(* expression is a tree; Ev gives its value and the state after it: which     *)
(* evaluations draw, in which order, and which do not.                        *)
(*   dr            RandomReal[]           sc m        RandomReal[m]            *)
(*   rg a b        RandomReal[{a, b}]     se s        SeedRandom[seed s]       *)
(*   li e..        {e, ...}               ta e n      Table[e, n]              *)
(*   do e n        Do[e, n]               sq e..      (e; ...)                 *)
(*   set x e       x = e                  sd x e      x := e                   *)
(*   va x          x                      no n        an integer, no draw      *)
(*   ift a b       If[RandomReal[] < 1, a, b]   iff a b  If[RandomReal[] < 0, a, b] *)
(*   ho e          Hold[e]                f1 e        f1[v_] := {v, v}         *)
(*   f2 e          f2[v_] := {v, v}, f2 HoldAll                                *)
(*   ct a b c      Catch[a; Throw[b]; c]                                       *)
(*   an e          False && (e; True)     ma e ms     Map[(e; RandomReal[#])&, ms] *)
(*   mo e b        Module[{v = e}, {v, b, v}]                                  *)
(*   nl n e        NestList[(e; # + 1)&, 0, n]                                 *)
(*   wh n e        a loop While of n rounds, e in each                         *)
(* The value of a draw is <<"d", seed, number of the draw>>, of a scaled one   *)
(* <<"sc", lower end, width, seed, number>>.                                   *)
EXTENDS Integers, Sequences
RECURSIVE Ev(_,_), EvAll(_,_,_), EvCopies(_,_,_), EvMap(_,_,_,_)
Null == <<"s", "System`Null">>
Draw(st) == [st EXCEPT !.k = @ + 1]
EvAll(es, i, st) ==
  IF i > Len(es) THEN [v |-> <<>>, st |-> st]
  ELSE LET r == Ev(es[i], st) q == EvAll(es, i + 1, r.st) IN [v |-> <<r.v>> \o q.v, st |-> q.st]
EvCopies(e, n, st) ==
  IF n = 0 THEN [v |-> <<>>, st |-> st]
  ELSE LET r == Ev(e, st) q == EvCopies(e, n - 1, r.st) IN [v |-> <<r.v>> \o q.v, st |-> q.st]
EvMap(e, ms, i, st) ==
  IF i > Len(ms) THEN [v |-> <<>>, st |-> st]
  ELSE LET r == Ev(<<"sq", e, <<"sc", ms[i]>>>>, st) q == EvMap(e, ms, i + 1, r.st) IN [v |-> <<r.v>> \o q.v, st |-> q.st]
Ev(e, st) ==
  CASE e[1] = "dr" -> [v |-> <<"d", st.seed, st.k + 1>>, st |-> Draw(st)]
    [] e[1] = "sc" -> [v |-> <<"sc", 0, e[2], st.seed, st.k + 1>>, st |-> Draw(st)]
    [] e[1] = "rg" -> [v |-> <<"sc", e[2], e[3] - e[2], st.seed, st.k + 1>>, st |-> Draw(st)]
    [] e[1] = "se" -> [v |-> Null, st |-> [st EXCEPT !.seed = e[2], !.k = 0]]
    [] e[1] = "li" -> LET q == EvAll(Tail(e), 1, st) IN [v |-> <<"li">> \o q.v, st |-> q.st]
    [] e[1] = "ta" -> LET q == EvCopies(e[2], e[3], st) IN [v |-> <<"li">> \o q.v, st |-> q.st]
    [] e[1] = "do" -> LET q == EvCopies(e[2], e[3], st) IN [v |-> Null, st |-> q.st]
    [] e[1] = "sq" -> LET q == EvAll(Tail(e), 1, st) IN [v |-> q.v[Len(q.v)], st |-> q.st]
    [] e[1] = "set" -> LET r == Ev(e[3], st) IN [v |-> r.v, st |-> [r.st EXCEPT !.env[e[2]] = <<"val", r.v>>]]
    [] e[1] = "sd" -> [v |-> Null, st |-> [st EXCEPT !.env[e[2]] = <<"del", e[3]>>]]
    [] e[1] = "va" -> IF st.env[e[2]][1] = "val" THEN [v |-> st.env[e[2]][2], st |-> st] ELSE Ev(st.env[e[2]][2], st)
    [] e[1] = "no" -> [v |-> <<"i", e[2]>>, st |-> st]
    [] e[1] = "ift" -> Ev(e[2], Draw(st))
    [] e[1] = "iff" -> Ev(e[3], Draw(st))
    [] e[1] = "ho" -> [v |-> <<"ho">>, st |-> st]
    [] e[1] = "f1" -> LET r == Ev(e[2], st) IN [v |-> <<"li", r.v, r.v>>, st |-> r.st]
    [] e[1] = "f2" -> LET q == EvCopies(e[2], 2, st) IN [v |-> <<"li">> \o q.v, st |-> q.st]
    [] e[1] = "ct" -> Ev(e[3], Ev(e[2], st).st)
    [] e[1] = "an" -> [v |-> <<"s", "System`False">>, st |-> st]
    [] e[1] = "ma" -> LET q == EvMap(e[2], e[3], 1, st) IN [v |-> <<"li">> \o q.v, st |-> q.st]
    [] e[1] = "mo" -> LET r == Ev(e[2], st) q == Ev(e[3], r.st) IN [v |-> <<"li", r.v, q.v, r.v>>, st |-> q.st]
    [] e[1] = "nl" -> LET q == EvCopies(e[3], e[2], st) IN [v |-> <<"li">> \o [i \in 1..e[2] + 1 |-> <<"i", i - 1>>], st |-> q.st]
    [] e[1] = "wh" -> LET q == EvCopies(e[3], e[2], st) IN [v |-> Null, st |-> q.st]
Env0 == [x \in {"x", "y", "z"} |-> <<"val", <<"i", 0>>>>]
St0 == [seed |-> 1, k |-> 0, env |-> Env0]
===============================================================================
