------------------------------- MODULE Graphics -------------------------------
(* Rendering of a graphics expression as a walk: a stack of styles, one per  *)
(* open list; directives change the innermost style, a line draws with it.   *)
(* Numbers are quarters; a style is <<show, R, G, B, A, thickness>>.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, todo, styles, drawn, failed, phase
vars == <<tr, todo, styles, drawn, failed, phase>>
Byte(q) == (255 * q) \div 4
Black == <<1, 0, 0, 0, 255, 0>>
Apply1(st, d) == CASE d[1] = "rgb" -> <<st[1], Byte(d[2]), Byte(d[3]), Byte(d[4]), 255, st[6]>>
                   [] d[1] = "op" -> [st EXCEPT ![5] = Byte(d[2])]
                   [] d[1] = "th" -> [st EXCEPT ![6] = d[2]]
                   [] OTHER -> st                 \* unknown directives are skipped
RECURSIVE ApplyAll(_, _)
ApplyAll(st, ds) == IF ds = <<>> THEN st ELSE ApplyAll(Apply1(st, Head(ds)), Tail(ds))
\* todo: a sequence of primitives and the marker <<"end">> closing a list
Init == /\ tr \in 1..Len(Traces) /\ todo = <<Traces[tr].g>> /\ styles = <<Black>>
        /\ drawn = <<>> /\ failed = FALSE /\ phase = "walk"
X == Head(todo)
Top == styles[Len(styles)]
Walk == /\ phase = "walk" /\ todo # <<>> /\ ~failed /\ UNCHANGED <<tr, phase>>
        /\ LET h == X[1] IN
           CASE h = "list" -> /\ todo' = Tail(X) \o <<<<"end">>>> \o Tail(todo) /\ styles' = Append(styles, Top)
                              /\ UNCHANGED <<drawn, failed>>
             [] h = "end"  -> /\ todo' = Tail(todo) /\ styles' = SubSeq(styles, 1, Len(styles) - 1)
                              /\ UNCHANGED <<drawn, failed>>
             [] h = "dir"  -> /\ todo' = Tail(todo) /\ styles' = [styles EXCEPT ![Len(styles)] = ApplyAll(@, Tail(X))]
                              /\ UNCHANGED <<drawn, failed>>
             [] h = "line" -> /\ todo' = Tail(todo) /\ drawn' = Append(drawn, [pts |-> Tail(X), st |-> Top])
                              /\ UNCHANGED <<styles, failed>>
             [] h = "bad"  -> failed' = TRUE /\ todo' = todo /\ UNCHANGED <<styles, drawn>>
             [] OTHER      -> todo' = Tail(todo) /\ UNCHANGED <<styles, drawn, failed>>
Same == /\ Traces[tr].err = failed
        /\ failed \/ Traces[tr].series = drawn
Check == /\ phase = "walk" /\ (todo = <<>> \/ failed) /\ phase' = "done"
         /\ IF Same THEN TRUE ELSE PrintT("MISMATCH " \o ToString(tr) \o " 1 " \o ToString(drawn))
         /\ PrintT("DONE " \o ToString(tr)) /\ UNCHANGED <<tr, todo, styles, drawn, failed>>
Spec == Init /\ [][Walk \/ Check]_vars
\* one style per open list, the outermost is never changed by inner lists
Balanced == phase = "done" /\ ~failed => Len(styles) = 1
=============================================================================
