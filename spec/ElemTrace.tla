------------------------------- MODULE ElemTrace ------------------------------
(* Evaluation of expressions of elementary functions by the real code:        *)
(*   [id, steps: <<[text, read, res]>>]                                       *)
(* The result has the value of the input.                                     *)
EXTENDS ElemPre, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos
Init == tr \in 1..Len(Traces) /\ pos = 1
Say(kind, why) == PrintT(kind \o " " \o ToString(tr) \o " " \o ToString(pos) \o " " \o why)
Why(x) ==
  IF x.res[1] \in {"panic", "err", "slow"} THEN "no expression"
  ELSE LET v == Verdict(Pre(x.read), x.res, IF HasH(x.read, {"ComplexExpand"}) THEN 1 ELSE 0)
       IN IF v \notin {"ok", "oof"} THEN v
          ELSE IF HeadN(x.read, "D", 2) /\ IsS(x.read[4]) /\ OnlyH(x.read[3], Known) /\ HasH(x.res, {"D"}) THEN "no derivative"
          ELSE v
Step == /\ pos <= Len(Traces[tr].steps)
        /\ pos' = pos + 1 /\ tr' = tr
        /\ LET w == Why(Traces[tr].steps[pos])
           IN (IF w = "ok" THEN TRUE ELSE IF w = "oof" THEN Say("OOF", "") ELSE Say("MISMATCH", w)) = TRUE
Done == pos = Len(Traces[tr].steps) + 1 /\ Say("DONE", "") /\ pos' = pos + 1 /\ tr' = tr
Next == Step \/ Done
Spec == Init /\ [][Next]_<<tr, pos>>
=============================================================================
