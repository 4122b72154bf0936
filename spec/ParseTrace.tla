------------------------------- MODULE ParseTrace -------------------------------
(* Validation of recorded readings: [id, steps: <<[text, out]>>]; out is      *)
(* <<"ok", term>> or <<"err">>, names without the context they resolve to.    *)
EXTENDS Parser, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos
Init == tr \in 1..Len(Traces) /\ pos = 1
Say(kind, why) == PrintT(kind \o " " \o ToString(tr) \o " " \o ToString(pos) \o " " \o why)
Step == /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ LET x == Traces[tr].steps[pos]
               r == IF "foreign" \in DOMAIN x /\ IsForeign(x.text) THEN <<"err">> ELSE Read(x.text)
           IN (IF r = <<"oof">> THEN Say("OOF", "")
               ELSE IF r # x.out THEN Say("MISMATCH", ToString(r)) ELSE TRUE) = TRUE
Done == pos = Len(Traces[tr].steps) + 1 /\ Say("DONE", "") /\ pos' = pos + 1 /\ tr' = tr
Next == Step \/ Done
Spec == Init /\ [][Next]_<<tr, pos>>
=============================================================================
