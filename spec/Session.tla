------------------------------- MODULE Session -------------------------------
(* Validation of recorded sessions: every recorded input is an action of the *)
(* interpreter specification, and the recorded result must be the result of  *)
(* that action in the state reached so far.                                  *)
(* The trace file holds one session per line:                                *)
(*   [id, steps: <<[n: scenario, in: term, out: term], ...>>]                *)
(* A result <<"panic">>, <<"crash">>, <<"hang">> is a failure of the         *)
(* implementation to answer; <<"big">> a result that was not recorded.       *)
EXTENDS Interp, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Hist               \* keep In, Out and $Line
VARIABLES sess, pos, st, skip

vars == <<sess, pos, st, skip>>
Init == /\ sess \in 1..Len(Traces)
        /\ pos = 1
        /\ st = Init0
        /\ skip = -1

Say(kind, why) == PrintT(kind \o " " \o ToString(Traces[sess].id) \o " " \o ToString(pos) \o " " \o why)
\* names that show an unknown counter
RECURSIVE HasUnkn(_)
HasUnkn(n) == Len(n) >= 4 /\ (SubSeq(n, 1, 4) = "$700" \/ HasUnkn(SubSeq(n, 2, Len(n))))
ShowsUnkn(r) == LET mn == OwnOf("$ModuleNumber", r[2])
                IN mn # <<>> /\ mn[1][1] = "i" /\ mn[1][2] >= UNKN
                   /\ \E n \in Symbols(r[1]) : HasUnkn(n) \/ n = "$ModuleNumber"
(* The history: the input and the result of every line are rules of In and
   Out, the line number is the value of $Line, and $PrePrint is applied to
   what is shown only. *)
WithHist(in, r) ==
  LET line == IF OwnOf("$Line", r[2]) = <<>> THEN Sy("$Line") ELSE OwnOf("$Line", r[2])[1]
      s1 == Define(E1("Out", line), r[1], Define(E1("In", line), in, r[2]))
      pp == OwnOf("$PrePrint", s1)
      shown == IF pp = <<>> THEN <<r[1], s1>> ELSE Ev(<<"e", pp[1], r[1]>>, s1)
      nx == Ev(E2("Plus", Sy("$Line"), I(1)), shown[2])
  IN TLCEval(<<shown[1], Define(Sy("$Line"), nx[1], nx[2])>>)
\* steps around the interpreter: a fresh interpreter, a new source file
Line(in, s0) ==
  IF in[1] = "new" THEN <<Null, [Init0 EXCEPT !.files = s0.files]>>
  ELSE IF in[1] = "file" THEN <<Null, [s0 EXCEPT !.files = (in[2] :> <<"src", SubSeq(in, 3, Len(in))>>) @@ @,
                                              !.seen = @ \cup UNION {Symbols(in[i]) : i \in 3..Len(in)}]>>
  ELSE LET s == [s0 EXCEPT !.seen = @ \cup Symbols(in)] r == TopEval(in, s) IN IF Hist /\ r[2].oof = "" THEN WithHist(in, r) ELSE r
BadOut(o) == Len(o) = 1 /\ o[1] \in {"panic", "crash", "hang"}
Step ==
  /\ pos <= Len(Traces[sess].steps)
  /\ pos' = pos + 1
  /\ sess' = sess
  /\ LET x == Traces[sess].steps[pos]
     IN IF x.n = skip THEN UNCHANGED <<st, skip>>
        ELSE LET r == Line(x.in, st)
             IN IF r[2].oof # "" \/ HasTag(r[1], "fx") \/ ShowsUnkn(r)
                THEN /\ Say("OOF", r[2].oof)
                     /\ skip' = x.n /\ st' = Unknown(st)
                ELSE IF x.out[1] = "big"
                THEN /\ Say("BIG", "")
                     /\ skip' = x.n /\ st' = Unknown(st)
                ELSE IF BadOut(x.out) \/ r[1] # x.out
                THEN /\ Say("MISMATCH", ToString(r[1]))
                     /\ skip' = x.n /\ st' = Unknown(st)
                ELSE /\ st' = r[2] /\ skip' = skip
Done == /\ pos = Len(Traces[sess].steps) + 1
        /\ Say("DONE", "")
        /\ pos' = pos + 1
        /\ UNCHANGED <<sess, st, skip>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
