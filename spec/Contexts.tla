------------------------------- MODULE Contexts -------------------------------
(* Name resolution: symbols are known by full name; a short name denotes the *)
(* first known symbol along the context path, otherwise a symbol of the      *)
(* current context. A recorded history of context changes and uses of names  *)
(* has to be a behaviour of this specification.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, known, ctx, path, save, val, bad
vars == <<tr, pos, known, ctx, path, save, val, bad>>

Qualified(n) == \E i \in 1..Len(n) : SubSeq(n, i, i) = "`"
\* system symbols used by the inputs
Sys == {"System`Length", "System`Plus", "System`Map"}
Resolve(n, k) ==
  IF Qualified(n) THEN n
  ELSE LET hits == {i \in 1..Len(path) : (path[i] \o n) \in k}
       IN IF hits = {} THEN ctx \o n ELSE path[CHOOSE i \in hits : \A j \in hits : i <= j] \o n
RECURSIVE Names(_, _)
\* the full names of a list of names, read in order; reading makes them known
Names(ts, k) == IF ts = <<>> THEN <<<<>>, k>>
                ELSE LET f == Resolve(Head(ts), k)
                         r == Names(Tail(ts), k \cup {f})
                     IN <<<<f>> \o r[1], r[2]>>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Value(f) == IF f \in DOMAIN val THEN val[f] ELSE f

Init == /\ tr \in 1..Len(Traces) /\ pos = 1
        /\ known = Sys /\ ctx = "Global`" /\ path = <<"System`", "Global`">>
        /\ save = [ctx |-> "", path |-> <<>>, pkg |-> "", inner |-> ""]
        /\ val = [q \in {""} |-> ""] /\ bad = FALSE
X == Traces[tr].steps[pos]
Use(x) == LET r == Names(x.toks, known)
          IN /\ x.names = r[1] /\ known' = r[2]
             /\ x.out = [i \in 1..Len(r[1]) |-> Value(r[1][i])]
             /\ UNCHANGED <<ctx, path, save, val>>
Set(x) == LET r == Names(x.toks, known)
          IN /\ x.names = r[1] /\ known' = r[2] /\ x.out = <<x.arg>>
             /\ val' = (r[1][1] :> x.arg) @@ val
             /\ UNCHANGED <<ctx, path, save>>
Begin(x) == /\ save' = [save EXCEPT !.inner = ctx]
            /\ ctx' = IF SubSeq(x.arg, 1, 1) = "`" THEN ctx \o SubSeq(x.arg, 2, Len(x.arg)) ELSE x.arg
            /\ x.out = <<ctx'>> /\ UNCHANGED <<known, path, val>>
End(x) == /\ ctx' = save.inner /\ x.out = <<ctx>> /\ UNCHANGED <<known, path, val, save>>
BeginPackage(x) == /\ save' = [save EXCEPT !.ctx = ctx, !.path = path, !.pkg = x.arg]
                   /\ ctx' = x.arg /\ path' = <<x.arg, "System`">>
                   /\ UNCHANGED <<known, val>>
EndPackage(x) == /\ ctx' = save.ctx /\ path' = <<save.pkg>> \o save.path
                 /\ UNCHANGED <<known, val, save>>
SetContext(x) == ctx' = x.arg /\ x.out = <<x.arg>> /\ UNCHANGED <<known, path, val, save>>
SetPath(x) == path' = x.p /\ x.out = x.p /\ UNCHANGED <<known, ctx, val, save>>
KnownNames(x) == LET e == {n \in known : StartsWith(n, x.arg)}
                 IN /\ ToSet(x.out) = e /\ Len(x.out) = Cardinality(e)
                    /\ UNCHANGED <<known, ctx, path, val, save>>
Act(x) == CASE x.k = "use" -> Use(x) [] x.k = "set" -> Set(x) [] x.k = "begin" -> Begin(x) [] x.k = "end" -> End(x)
            [] x.k = "bpkg" -> BeginPackage(x) [] x.k = "epkg" -> EndPackage(x) [] x.k = "setctx" -> SetContext(x)
            [] x.k = "setpath" -> SetPath(x) [] OTHER -> KnownNames(x)
Good(x) == Act(x) /\ x.ctx = ctx' /\ x.cpath = path'
Report(w) == PrintT(w \o " " \o ToString(tr) \o " " \o ToString(pos))
Step == /\ ~bad /\ pos # 0 /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ IF ENABLED Good(X) THEN Good(X) /\ bad' = FALSE
           ELSE Report("MISMATCH") /\ bad' = TRUE /\ UNCHANGED <<known, ctx, path, save, val>>
Done == /\ (bad \/ pos = Len(Traces[tr].steps) + 1) /\ pos # 0
        /\ Report("DONE") /\ pos' = 0 /\ UNCHANGED <<tr, known, ctx, path, save, val, bad>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
