------------------------------- MODULE Streams --------------------------------
(* The output streams and the log switch of two interpreter sessions. What   *)
(* each recorded step delivered to the streams has to be what this           *)
(* specification delivers.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, level, dbg, bad
vars == <<tr, pos, level, dbg, bad>>

\* the open streams, in the order of their numbers
Open == <<<<"stdout", "1">>, <<"stderr", "2">>>>
\* the stream number an address denotes, 0 for none
Addr(name, idx) ==
  LET h == {i \in 1..Len(Open) : Open[i][1] = name /\ (idx = "" \/ idx = Open[i][2])}
  IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
LevelOf(n) == CASE n = "Debug" -> 5 [] n = "Info" -> 4 [] n = "Notice" -> 3
X == Traces[tr].steps[pos]
Sent(x, i, t) == x.o1 = (IF i = 1 THEN t ELSE "") /\ x.o2 = (IF i = 2 THEN t ELSE "")
Logged(x, yes) == x.c1 = 0 /\ x.c2 = (IF yes THEN 1 ELSE 0)
Keep == UNCHANGED <<level, dbg>>
Write(x) == /\ Sent(x, Addr(x.name, x.idx), x.text) /\ Keep
            /\ IF x.k = "api" THEN x.res = <<IF Addr(x.name, x.idx) # 0 THEN "true" ELSE "false">>
               ELSE x.res = <<"System`Null">>
Invalid(x) == x.c1 = 0 /\ x.c2 = 0 /\ Keep          \* not an address at all: diagnosed, not written
ListStreams(x) == /\ x.res = Open[1] \o Open[2] /\ Sent(x, 0, "") /\ Keep
Act(x) ==
  CASE x.k \in {"ws", "api"} -> IF x.bad = 1 THEN Invalid(x) ELSE Write(x)
    [] x.k = "print" -> Sent(x, 1, x.text \o "\n") /\ x.res = <<"System`Null">> /\ Keep
    [] x.k = "streams" -> ListStreams(x)
    [] x.k = "bad" -> Invalid(x)
    [] x.k = "level" -> level' = [level EXCEPT ![x.es] = LevelOf(x.name)] /\ dbg' = [dbg EXCEPT ![x.es] = TRUE]
    [] x.k = "on" -> level' = [level EXCEPT ![x.es] = x.n] /\ dbg' = [dbg EXCEPT ![x.es] = TRUE]
    [] x.k = "off" -> level' = [level EXCEPT ![x.es] = 1] /\ dbg' = [dbg EXCEPT ![x.es] = FALSE]
    [] x.k = "setstate" -> dbg' = [dbg EXCEPT ![x.es] = (x.n = 1)] /\ UNCHANGED level
    [] x.k = "debugf" -> Logged(x, dbg[x.es] /\ level[x.es] >= 5) /\ Keep
    [] x.k = "infof" -> Logged(x, dbg[x.es] /\ level[x.es] >= 4) /\ Keep
    [] x.k = "errorf" -> Logged(x, level[x.es] >= 1) /\ Keep
Init == /\ tr \in 1..Len(Traces) /\ pos = 1 /\ bad = FALSE
        /\ level = [s \in 0..1 |-> 1] /\ dbg = [s \in 0..1 |-> FALSE]
Report(w) == PrintT(w \o " " \o ToString(tr) \o " " \o ToString(pos))
Step == /\ ~bad /\ pos # 0 /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ IF ENABLED Act(X) THEN Act(X) /\ bad' = FALSE
           ELSE Report("MISMATCH") /\ bad' = TRUE /\ Keep
Done == /\ pos # 0 /\ (bad \/ pos = Len(Traces[tr].steps) + 1)
        /\ Report("DONE") /\ pos' = 0 /\ UNCHANGED <<tr, level, dbg, bad>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
