------------------------------- MODULE PrintTrace -------------------------------
(* Round trips of the real code: an input was evaluated to res, res was shown *)
(* in InputForm and in FullForm, and the shown text was read and evaluated.   *)
(*   [id, named, steps: <<[text, res, forms: <<[form, shown, read, val]>>]>>] *)
(* The text has to denote res: what it reads as, evaluated, is res again, and *)
(* it reads as the grammar (Parser.tla) says unless names were resolved.      *)
EXTENDS Parser, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos
Init == tr \in 1..Len(Traces) /\ pos = 1
Say(kind, why) == PrintT(kind \o " " \o ToString(tr) \o " " \o ToString(pos) \o " " \o why)
Neg(t) == IF t[1] \in {"q", "f"} THEN t[2][2] < 0 ELSE IF t[1] \in {"i", "z"} THEN t[2] < 0 ELSE FALSE
\* Power[-3, 1/2] and Power[1.5, 1/2] stay, Sqrt[-3] and Sqrt[1.5] do not
RootOfNumber(t) == /\ t[1] = "e" /\ Len(t) = 4 /\ t[2] = <<"s", "Power">>
                   /\ t[4][1] = "q" /\ (Neg(t[3]) \/ t[3][1] = "f")
\* HoldForm is shown without its head on purpose; the input of Out depends on the line
RECURSIVE Exact(_)
Exact(t) ==
  CASE t[1] = "e" -> /\ ~(t[2][1] = "s" /\ t[2][2] \in {"HoldForm", "Out", "In"})
                     /\ \A i \in 2..Len(t) : Exact(t[i])
                     /\ ~RootOfNumber(t)
    [] t[1] = "fx" -> FALSE
    [] t[1] = "c" -> Exact(t[2]) /\ Exact(t[3])
    [] OTHER -> TRUE
Holds == {"Hold", "Pattern", "HoldComplete", "Function", "RuleDelayed", "SetDelayed", "Condition"}
Signed(t) == (t[1] = "i" /\ t[2] < 0) \/ (t[1] = "z" /\ t[2] < 0) \/ t[1] \in {"q", "c", "f"}
\* inside of a held expression the sign of a number and the bar of a fraction
\* read as the operations they are evaluated from, so the text is another
\* expression with the same value
RECURSIVE HeldExact(_)
HeldExact(t) ==
  t[1] = "e" =>
  \A i \in 2..Len(t) : /\ ~(Signed(t[i]) /\ HSym(t) # "List")
                       /\ HeldExact(t[i])
                       /\ ~(t[1] = "e" /\ t[i][1] \in {"q", "c"})
RECURSIVE Decided(_)
Decided(t) ==
  t[1] = "e" => /\ \A i \in 2..Len(t) : Decided(t[i])
                /\ (HSym(t) \in Holds => HeldExact(t))
Why(x) ==
  IF x.res[1] \in {"panic", "err"} THEN "no expression"
  ELSE IF ~(Exact(x.res) /\ Decided(x.res)) THEN "oof"
  ELSE LET bad == {i \in 1..Len(x.forms) : x.forms[i].val # x.res}
       IN IF bad # {} THEN "denotes another expression: " \o x.forms[CHOOSE i \in bad : TRUE].form
          ELSE IF Traces[tr].named THEN "ok"
          ELSE LET off == {i \in 1..Len(x.forms) : LET r == Read(x.forms[i].shown)
                                                   IN r # <<"oof">> /\ r # x.forms[i].read}
               IN IF off # {} THEN "read against the grammar: " \o x.forms[CHOOSE i \in off : TRUE].form ELSE "ok"
Step == /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ LET w == Why(Traces[tr].steps[pos])
           IN (IF w = "ok" THEN TRUE ELSE IF w = "oof" THEN Say("OOF", "") ELSE Say("MISMATCH", w)) = TRUE
Done == pos = Len(Traces[tr].steps) + 1 /\ Say("DONE", "") /\ pos' = pos + 1 /\ tr' = tr
Next == Step \/ Done
Spec == Init /\ [][Next]_<<tr, pos>>
=============================================================================
