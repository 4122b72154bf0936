-------------------------------- MODULE Interp --------------------------------
EXTENDS Lib, Prelude

\* heads whose meaning is written below
BI_CTRL == {"If", "While", "Which", "Switch", "CompoundExpression", "With", "Module", "Block", "Do", "Table", "Sum",
  "Product", "ParallelTable", "Throw", "Catch", "Sow", "Reap", "Set", "SetDelayed", "Attributes", "Clear",
  "DownValues", "Unique", "Range", "Scan", "Default", "Save", "Get"}
BI_BOOL == {"And", "Or", "Not", "TrueQ", "BooleanQ", "Equal", "Unequal", "SameQ", "UnsameQ", "Less", "LessEqual",
  "Greater", "GreaterEqual", "Inequality", "Max", "Min", "AtomQ", "NumberQ", "NumericQ", "Order", "Sort"}
BI_NUM == {"Plus", "Times", "Power", "ExpreduceLikePlus", "Rational", "Complex", "GCD", "Mod", "PrimeQ", "PrimePi", "Prime",
  "Factorial", "FactorInteger", "N", "Numerator", "Denominator", "Re", "Im", "IntegerPartitions", "Permutations"}
BI_LIST == {"Length", "Depth", "Head", "LeafCount", "MemberQ", "Cases", "DeleteCases", "Union", "Complement", "Intersection",
  "PadRight", "PadLeft", "Part", "Thread", "Append", "Prepend", "DeleteDuplicates", "Select", "Join", "Count",
  "Reverse", "Flatten", "Map", "MapIndexed", "Apply", "FoldList", "NestList", "NestWhileList", "FixedPoint", "Array",
  "ReplaceAll", "Replace", "ReplaceRepeated", "ReplaceList", "ReplacePart", "MatchQ", "Dimensions", "VectorQ", "MatrixQ",
  "Dot", "Transpose", "Distribute", "StringLength", "StringTake", "StringReplace", "StringJoin", "ToString"}
BUILTINS == BI_CTRL \cup BI_BOOL \cup BI_NUM \cup BI_LIST
\* heads without a meaning of their own
INERT == {"List", "Rule", "RuleDelayed", "Blank", "BlankSequence", "BlankNullSequence", "Pattern", "Alternatives",
  "Except", "PatternTest", "Condition", "Optional", "Repeated", "RepeatedNull", "HoldPattern", "Verbatim", "Hold",
  "HoldComplete", "HoldForm", "Slot", "Function", "Sequence", "Evaluate", "Unevaluated", "Return", "Break", "Span",
  "All", "Null", "MessageName", "In", "Out"}
KNOWN == BUILTINS \cup DOMAIN PreRules \cup INERT
(* ------------------------------------------------------------------------ *)
(* The interpreter as a big-step semantics over an explicit state.           *)
(* A state s is a record:                                                     *)
(*   def   name -> [own: <<>> or <<value>>, rules: <<lhs,rhs>>*, attr: set]   *)
(*   thr   <<>> or <<Throw[v]>> while a thrown value looks for its Catch      *)
(*   reap  TRUE once values are collected; sown: the values sown so far       *)
(*   out   text written to streams: sequence of <<stream, text>>              *)
(*   files name -> <<"mx", saved definitions>> or <<"src", expressions>>       *)
(*   seen  full names read so far                                             *)
(*   fuel  evaluation steps left; oof: "" or why the model gave up            *)
(* Ev(t, s) is <<value, state>>.                                              *)
RECURSIVE Ev(_, _)
RECURSIVE Loop(_, _, _, _)
RECURSIVE Match(_, _, _, _)
RECURSIVE SeqM(_, _, _, _, _, _, _)
RECURSIVE Builtin(_, _, _)

MAXDEPTH == 120
Oof(t, s, why) == <<t, IF s.oof = "" THEN [s EXCEPT !.oof = why] ELSE s>>
Pure(t, s) == <<t, s>>

\* ------------------------------------------------------------- definitions
Blank0 == [own |-> <<>>, rules |-> <<>>, attr |-> {}]
DefOf(n, s) ==
  IF n \in DOMAIN s.def THEN s.def[n]
  ELSE IF n \in SysNames
       THEN [own |-> IF n \in DOMAIN PreOwn THEN PreOwn[n] ELSE <<>>,
             rules |-> IF n \in DOMAIN PreRules THEN PreRules[n] ELSE <<>>, attr |-> SysAttr[n]]
       ELSE Blank0
AttrOf(n, s) == IF n \in DOMAIN s.def THEN s.def[n].attr
                ELSE IF n \in SysNames THEN SysAttr[n] ELSE {}
RulesOf(n, s) == IF n \in DOMAIN s.def THEN s.def[n].rules
                 ELSE IF n \in DOMAIN PreRules THEN PreRules[n] ELSE <<>>
OwnOf(n, s) == IF n \in DOMAIN s.def THEN s.def[n].own
               ELSE IF n \in DOMAIN PreOwn THEN PreOwn[n] ELSE <<>>
SetDef(n, d, s) == [s EXCEPT !.def = (n :> d) @@ @]
IsDef(n, s) == n \in DOMAIN s.def \/ n \in SysNames
\* default value of a head for optional arguments
DefaultOf(n, s) ==
  IF n \in DOMAIN s.def /\ n \notin {"Plus", "Times", "Power", "ExpreduceLikePlus"} THEN <<>>
  ELSE CASE n \in {"Plus", "ExpreduceLikePlus"} -> <<Z0>> [] n \in {"Times", "Power"} -> <<Z1>> [] OTHER -> <<>>

\* ----------------------------------------------------------- substitution
RECURSIVE Subst(_, _)
Subst(t, b) == IF t[1] = "s" THEN (IF t[2] \in DOMAIN b THEN b[t[2]] ELSE t)
               ELSE IF t[1] = "e" THEN [i \in 1..Len(t) |-> IF i = 1 THEN "e" ELSE Subst(t[i], b)]
               ELSE t
ReplPD(t, b) == IF b = <<>> \/ DOMAIN b = {} THEN t ELSE TLCEval(Subst(t, b))

\* ----------------------------------------------------------------- matching
(* Match(a, p, b, s): the sequence of binding functions that extend b and    *)
(* make p match a, in the order in which they are tried.                     *)
IsBlank(p) == IsBlankH(p)
BlankOnly(p) == IsBlank(p) \/ (HasHead(p, "Pattern") /\ Len(p) >= 4 /\ IsBlank(p[4]))
BlankOk(bl, a) == N(bl) < 1 \/ HeadOf(a) = bl[3]
FirstSol(sols) == IF sols = <<>> THEN <<>> ELSE <<sols[1]>>
OofB(why) == <<("!oof" :> why)>>
IsOofB(b) == DOMAIN b # {} /\ "!oof" \in DOMAIN b
Bind(b, n, v) == IF n \in DOMAIN b THEN (IF b[n] = v THEN <<b>> ELSE <<>>) ELSE <<(n :> v) @@ b>>
RECURSIVE DependsB(_)
DependsB(p) == p[1] = "e" /\ (HSym(p) \in {"Condition", "Except"} \/ \E i \in 2..Len(p) : DependsB(p[i]))

INF == 1000000
ParseForm(c, flat, head, hdef) ==
  LET isOpt == HasHead(c, "Optional")
      t1 == IF isOpt THEN c[3] ELSE c
      isPT == HasHead(t1, "PatternTest")
      t2 == IF isPT THEN t1[3] ELSE t1
      isPat == HasHead(t2, "Pattern") /\ IsS(t2[3])
      t3 == IF isPat THEN t2[4] ELSE t2
      impl == HasHead(t3, "Blank") /\ flat
      d == IF N(c) >= 2 THEN <<c[4]>> ELSE hdef
      repOk == HasHead(t3, "Repeated") /\ N(t3) >= 1 /\
               (N(t3) < 2 \/ (HasHead(t3[4], "List") /\ N(t3[4]) = 1 /\ t3[4][3][1] = "i"))
      r == IF isOpt THEN <<IF d = <<>> THEN 1 ELSE 0, IF impl /\ ~isPT /\ N(t3) < 1 THEN INF ELSE 1, t3>>
           ELSE IF HasHead(t3, "BlankNullSequence") THEN <<0, INF, En("Blank", Args(t3))>>
           ELSE IF impl
                THEN (IF N(t3) >= 1 /\ IsS(t3[3])
                      THEN (IF t3[3][2] = head THEN <<2, INF, E0("Blank")>> ELSE <<1, 1, t3>>)
                      ELSE <<1, INF, t3>>)
           ELSE IF repOk THEN (IF N(t3) >= 2 THEN <<t3[4][3][2], t3[4][3][2], t3[3]>> ELSE <<1, INF, t3[3]>>)
           ELSE IF HasHead(t3, "RepeatedNull") /\ N(t3) = 1 THEN <<0, INF, t3[3]>>
           ELSE IF HasHead(t3, "BlankSequence") THEN <<1, INF, En("Blank", Args(t3))>>
           ELSE <<1, 1, t3>>
      form == IF isPT THEN E2("PatternTest", r[3], t1[4]) ELSE r[3]
      wrap == impl /\ (isOpt \/ ~(N(t3) >= 1 /\ IsS(t3[3]) /\ t3[3][2] # head))
  IN [lo |-> r[1], hi |-> r[2], form |-> form, opt |-> isOpt, impl |-> wrap,
      d |-> IF isOpt THEN d ELSE <<>>, pat |-> IF isPat THEN t2[3][2] ELSE ""]

DefSeq(f, seq, b, head, s) ==
  IF f.pat = "" THEN <<b>>
  ELSE LET v == IF Len(seq) = 1 /\ (~f.impl \/ "OneIdentity" \in AttrOf(head, s) \/ f.opt) THEN seq[1]
                ELSE IF Len(seq) = 0 /\ f.opt /\ f.d # <<>> THEN f.d[1]
                ELSE IF f.impl THEN <<"e", Sy(head)>> \o seq
                ELSE <<"e", Sy("Sequence")>> \o seq
       IN Bind(b, f.pat, v)

\* all ways to match the assigned components asg[f] with the forms, at most lim
RECURSIVE Assn(_, _, _, _, _, _, _)
Assn(fi, ci, asg, c, b, s, lim) ==
  IF fi > Len(asg) THEN <<b>>
  ELSE IF ci > Len(asg[fi])
  THEN LET d == DefSeq(c.forms[fi], [k \in 1..Len(asg[fi]) |-> c.comps[asg[fi][k]]], b, c.head, s)
       IN IF d = <<>> THEN <<>> ELSE Assn(fi + 1, 1, asg, c, d[1], s, lim)
  ELSE LET subs == Match(c.comps[asg[fi][ci]], c.forms[fi].form, b, s)
       IN FoldLeft(LAMBDA acc, sb : IF Len(acc) >= lim THEN acc
                                    ELSE IF IsOofB(sb) THEN acc \o <<sb>>
                                    ELSE TLCEval(acc \o Assn(fi, ci + 1, asg, c, sb, s, lim - Len(acc))),
                   <<>>, subs)
\* choices of component indices for unordered arguments
RECURSIVE Orderless(_, _, _, _, _, _, _)
Orderless(sizes, fi, asg, c, b, s, lim) ==
  \* asg: the assignments of the forms before fi and the part of fi chosen so far
  IF fi > Len(sizes) THEN Assn(1, 1, asg, c, b, s, lim)
  ELSE IF Len(asg) < fi THEN Orderless(sizes, fi, asg \o <<<<>>>>, c, b, s, lim)
  ELSE IF Len(asg[fi]) = sizes[fi] THEN Orderless(sizes, fi + 1, asg, c, b, s, lim)
  ELSE LET taken == UNION {{asg[k][j] : j \in 1..Len(asg[k])} : k \in 1..Len(asg)}
           from == IF asg[fi] = <<>> THEN 1 ELSE asg[fi][Len(asg[fi])] + 1
           cand == SelectSeq([k \in 1..Len(c.comps) |-> k],
                             LAMBDA k : k >= from /\ k \notin taken /\ c.fm[fi][k])
       IN FoldLeft(LAMBDA acc, k : IF Len(acc) >= lim THEN acc
                                   ELSE TLCEval(acc \o Orderless(sizes, fi, [asg EXCEPT ![fi] = @ \o <<k>>], c, b, s, lim - Len(acc))),
                   <<>>, cand)
RECURSIVE Contig(_, _)
Contig(sizes, from) == IF sizes = <<>> THEN <<>>
                       ELSE <<[k \in 1..sizes[1] |-> from + k - 1]>> \o Contig(Tail(sizes), from + sizes[1])
\* size vectors: required parts as short, optional parts as long as possible
RECURSIVE Alloc(_, _, _, _, _, _, _)
Alloc(fi, rem, sizes, c, b, s, lim) ==
  IF fi > Len(c.forms)
  THEN (IF rem > 0 THEN <<>>
        ELSE IF c.ord THEN Orderless(sizes, 1, <<>>, c, b, s, lim)
        ELSE Assn(1, 1, Contig(sizes, 1), c, b, s, lim))
  ELSE LET f == c.forms[fi]
           up == Min2(f.hi, rem)
           cand == IF fi = Len(c.forms) THEN (IF f.lo <= rem /\ rem <= f.hi THEN <<rem>> ELSE <<>>)
                   ELSE IF up < f.lo THEN <<>>
                   ELSE IF f.opt THEN [k \in 1..(up - f.lo + 1) |-> up - k + 1]
                   ELSE [k \in 1..(up - f.lo + 1) |-> f.lo + k - 1]
       IN FoldLeft(LAMBDA acc, k : IF Len(acc) >= lim THEN acc
                                   ELSE TLCEval(acc \o Alloc(fi + 1, rem - k, sizes \o <<k>>, c, b, s, lim - Len(acc))),
                   <<>>, cand)
SeqM(comps, pats, ordless, flat, head, bs, lim) ==
  LET b == bs[1]
      s == bs[2]
      forms == Map1(LAMBDA p : ParseForm(p, flat, head, DefaultOf(head, s)), pats)
      fm == [i \in 1..Len(forms) |->
              IF DependsB(forms[i].form) THEN [j \in 1..Len(comps) |-> TRUE]
              ELSE [j \in 1..Len(comps) |-> Match(comps[j], forms[i].form, <<>>, s) # <<>>]]
      minN == FoldLeft(LAMBDA acc, f : acc + f.lo, 0, forms)
  IN IF minN > Len(comps) THEN <<>>
     ELSE IF \E i \in 1..Len(forms) : Cardinality({j \in 1..Len(comps) : fm[i][j]}) < forms[i].lo THEN <<>>
     ELSE Alloc(1, Len(comps), <<>>, [comps |-> comps, forms |-> TLCEval(forms), ord |-> ordless, head |-> head, fm |-> fm], b, s, lim)
ALL == 5000

MatchStruct(a, p, b, s) ==
  LET vOp == IsE(p) /\ IsE(a) /\ HasHead(Hd(p), "Verbatim") /\ N(Hd(p)) = 1 /\ Hd(a) = Hd(p)[3]
      q == IF vOp THEN <<"e", Hd(p)[3]>> \o Args(p) ELSE p
  IN IF BlankOnly(q)
     THEN LET bl == IF HasHead(q, "Pattern") THEN q[4] ELSE q
          IN IF ~BlankOk(bl, a) THEN <<>>
             ELSE IF HasHead(q, "Pattern") /\ IsS(q[3]) THEN Bind(b, q[3][2], a) ELSE <<b>>
     ELSE IF a[1] = "q" /\ IsE(q) THEN FirstSol(Match(E2("Rational", a[2], a[3]), q, b, s))
     ELSE IF a[1] = "c" /\ IsE(q) THEN FirstSol(Match(E2("Complex", a[2], a[3]), q, b, s))
     ELSE LET ph == IF IsE(q) THEN HSym(q) ELSE ""
              can == ph # "" /\ "OneIdentity" \in AttrOf(ph, s) /\ DefaultOf(ph, s) # <<>>
                     /\ \E i \in 3..Len(q) : HasHead(q[i], "Optional")
              assume == can /\ (~IsE(a) \/ (HSym(a) # "" /\ HSym(a) # ph))
              a1 == IF assume THEN E1(ph, a) ELSE a
          IN IF ~assume /\ ~IsE(a) THEN (IF a = q THEN <<b>> ELSE <<>>)
             ELSE IF ~IsE(q) THEN <<>>
             ELSE IF HSym(a1) # "" /\ HSym(a1) = ph
             THEN LET at == AttrOf(ph, s)
                  IN SeqM(Args(a1), Args(q), "Orderless" \in at /\ ~vOp, "Flat" \in at /\ ~vOp, ph, <<b, s>>, ALL)
             ELSE SeqM(Tail(a1), Tail(q), FALSE, FALSE, "!Seq", <<b, s>>, ALL)
CondTrue(t, s) == LET r == Ev(t, s) IN IF r[2].oof # "" THEN "oof" ELSE IF r[1] = True THEN "yes" ELSE "no"
RECURSIVE CondSols(_, _, _)
CondSols(sols, test, s) ==
  IF sols = <<>> THEN <<>>
  ELSE IF IsOofB(sols[1]) THEN <<sols[1]>>
  ELSE LET c == CondTrue(ReplPD(test, sols[1]), s)
       IN IF c = "oof" THEN OofB("cond") ELSE IF c = "yes" THEN <<sols[1]>> ELSE CondSols(Tail(sols), test, s)
RECURSIVE AltSols(_, _, _, _)
AltSols(a, alts, b, s) == IF alts = <<>> THEN <<>>
                          ELSE LET m == Match(a, alts[1], b, s)
                               IN IF m # <<>> THEN <<m[1]>> ELSE AltSols(a, Tail(alts), b, s)
Match(a, p, b, s) ==
  IF p[1] # "e" THEN (IF a = p THEN <<b>> ELSE <<>>)
  ELSE LET h == HSym(p)
           n == N(p)
  IN CASE h = "Except" /\ n = 1 ->
            (LET m == Match(a, p[3], b, s) IN IF m = <<>> THEN <<b>> ELSE IF IsOofB(m[1]) THEN m ELSE <<>>)
       [] h = "Except" /\ n = 2 ->
            (LET m == Match(a, p[3], b, s) IN IF m = <<>> THEN FirstSol(Match(a, p[4], b, s)) ELSE IF IsOofB(m[1]) THEN m ELSE <<>>)
       [] h = "Alternatives" -> AltSols(a, Args(p), b, s)
       [] h = "PatternTest" /\ n = 2 ->
            (LET m == Match(a, p[3], b, s)
             IN IF m = <<>> \/ IsOofB(m[1]) THEN m
                ELSE IF p[4] = Sy("NumberQ") THEN (IF IsNum(a) THEN <<m[1]>> ELSE <<>>)
                ELSE LET c == CondTrue(<<"e", p[4], a>>, s)
                     IN IF c = "oof" THEN OofB("test") ELSE IF c = "yes" THEN <<m[1]>> ELSE <<>>)
       [] h = "Condition" /\ n = 2 ->
            (LET m == CondSols(Match(a, p[3], b, s), p[4], s)
             IN IF m # <<>> THEN m ELSE MatchStruct(a, p, b, s))
       [] h = "Optional" /\ n = 1 ->
            (LET m == Match(a, p[3], b, s) IN IF m # <<>> THEN <<m[1]>> ELSE MatchStruct(a, p, b, s))
       [] h = "Pattern" /\ ~BlankOnly(p) /\ n = 2 /\ IsS(p[3]) ->
            SeqM(<<a>>, <<p>>, FALSE, FALSE, "Sequence", <<b, s>>, ALL)
       [] h = "Verbatim" /\ n = 1 -> (IF a = p[3] THEN <<b>> ELSE <<>>)
       [] h = "HoldPattern" /\ n = 1 -> Match(a, p[3], b, s)
       [] OTHER -> MatchStruct(a, p, b, s)

\* -------------------------------------------------------- applying a rule
RECURSIVE IsCondRhs(_)
IsCondRhs(r) == HasHead(r, "Condition") \/ (HSym(r) \in {"With", "Module"} /\ N(r) = 2 /\ HasHead(r[4], "Condition"))
RECURSIVE ApplyModule(_, _)
RECURSIVE ApplyWith(_, _)
RECURSIVE TryCond(_, _)
\* <<applicable, value, state>>
TryCond(r, s) ==
  LET w == IF HSym(r) = "With" /\ IsCondRhs(r) THEN ApplyWith(r, s)
           ELSE IF HSym(r) = "Module" /\ IsCondRhs(r) THEN ApplyModule(r, s)
           ELSE <<FALSE, r, s>>
      c == IF HasHead(r, "Condition") THEN <<TRUE, r, s>>
           ELSE IF w[1] /\ HasHead(w[2], "Condition") THEN <<TRUE, w[2], w[3]>>
           ELSE <<FALSE, r, w[3]>>
  IN IF ~c[1] THEN <<TRUE, r, c[3]>>
     ELSE IF N(c[2]) # 2 THEN <<FALSE, r, Oof(r, c[3], "condition")[2]>>
     ELSE LET e == Ev(c[2][4], c[3])
          IN IF e[1] = True THEN TryCond(c[2][3], e[2]) ELSE <<FALSE, r, e[2]>>
RECURSIVE TrySols(_, _, _, _)
TrySols(t, sols, rhs, s) ==
  IF sols = <<>> THEN <<FALSE, t, s>>
  ELSE IF IsOofB(sols[1]) THEN <<FALSE, t, Oof(t, s, "match")[2]>>
  ELSE LET r == TryCond(ReplPD(rhs, sols[1]), s)
       IN IF r[1] THEN r ELSE TrySols(t, Tail(sols), rhs, r[3])
\* <<replaced, value, state>>
Repl(t, lhs, rhs, s) ==
  IF s.oof # "" THEN <<FALSE, t, s>>
  ELSE TrySols(t, Match(t, lhs, <<>>, s), rhs, s)
RECURSIVE TryRules(_, _, _)
TryRules(t, rules, s) ==
  IF rules = <<>> \/ s.oof # "" THEN <<FALSE, t, s>>
  ELSE LET r == Repl(t, rules[1][1], rules[1][2], s)
       IN IF r[1] THEN r ELSE TryRules(t, Tail(rules), r[3])

\* ------------------------------------------------------------ ReplaceAll
RECURSIVE ReplAll(_, _, _, _)
FlatReplace(t, lhs, rhs, ordless, s) ==
  LET st == E2("Pattern", Sy("System`Expreduce`start"), E0("BlankNullSequence"))
      en == E2("Pattern", Sy("System`Expreduce`end"), E0("BlankNullSequence"))
      loose == <<"e", Hd(lhs)>> \o (IF ordless THEN <<>> ELSE <<st>>) \o Args(lhs) \o <<en>>
      m == Match(t, loose, <<>>, s)
  IN IF m = <<>> THEN <<FALSE, t, s>>
     ELSE IF IsOofB(m[1]) THEN <<FALSE, t, Oof(t, s, "match")[2]>>
     ELSE <<TRUE, ReplPD(<<"e", Hd(t)>> \o (IF ordless THEN <<>> ELSE <<Sy("System`Expreduce`start")>>)
                         \o <<rhs, Sy("System`Expreduce`end")>>, m[1]), s>>
ReplAll(t, r, stop, s) ==
  IF t[1] # "e" THEN (LET x == Repl(t, r[3], r[4], s) IN <<x[2], x[3]>>)
  ELSE IF stop # "" /\ HasHead(t, stop) THEN <<t, s>>
  ELSE LET x == Repl(t, r[3], r[4], s)
       IN IF x[1] THEN <<x[2], x[3]>>
          ELSE LET lhs == r[3]
                   fl == HSym(t) # "" /\ IsE(lhs) /\ HSym(lhs) = HSym(t) /\ "Flat" \in AttrOf(HSym(t), s)
                   y == IF fl THEN FlatReplace(t, lhs, r[4], "Orderless" \in AttrOf(HSym(t), s), x[3]) ELSE <<FALSE, t, x[3]>>
               IN IF y[1] THEN <<y[2], y[3]>>
                  ELSE FoldLeft(LAMBDA acc, i : LET z == ReplAll(t[i], r, stop, acc[2])
                                                IN TLCEval(<<Append(acc[1], z[1]), z[2]>>),
                                <<<<"e">>, y[3]>>, [i \in 1..Len(t) - 1 |-> i + 1])
RulesIn(r) == IF HSym(r) \in {"Rule", "RuleDelayed"} THEN <<r>>
              ELSE IF HasHead(r, "List") THEN SelectSeq(Args(r), LAMBDA x : HSym(x) \in {"Rule", "RuleDelayed"})
              ELSE <<>>
RulesReplAll(t, rules, s) ==
  FoldLeft(LAMBDA acc, r : TLCEval(ReplAll(acc[1], r, "", acc[2])), <<t, s>>, rules)

\* ------------------------------------------------------------ definitions
RECURSIVE MaskRhs(_)
MaskRhs(r) ==
  IF HasHead(r, "Condition") THEN E2("Condition", MaskRhs(r[3]), r[4])
  ELSE IF HSym(r) \in {"With", "Module"} /\ IsCondRhs(r) THEN <<"e", Hd(r), r[3], MaskRhs(r[4])>>
  ELSE Sy("!")
DEFCX == <<"Global`", "System`", "Private`">>
\* "?" = not computable by the model
Specificity(lhs, rhs) ==
  IF HasHead(rhs, "Condition") THEN (IF IsE(lhs) /\ N(lhs) = 1 /\ IsInt(lhs[3]) THEN 110 ELSE 100)
  ELSE IF IsE(lhs) /\ N(lhs) = 1 /\ IsInt(lhs[3]) THEN 110
  ELSE IF Printable(lhs) THEN 13 + Len(PStr(lhs, "TOP", DEFCX)) ELSE 0 - 1
RECURSIVE InsPos(_, _, _)
InsPos(rules, sp, i) ==
  IF i > Len(rules) THEN i
  ELSE LET x == Specificity(rules[i][1], rules[i][2]) IN IF x < 0 THEN -1 ELSE IF x < sp THEN i ELSE InsPos(rules, sp, i + 1)
AddRule(rules, lhs, rhs) ==
  LET same == SelectSeq([i \in 1..Len(rules) |-> i],
                        LAMBDA i : rules[i][1] = lhs /\ MaskRhs(rules[i][2]) = MaskRhs(rhs))
  IN IF same # <<>> THEN [rules EXCEPT ![same[1]] = <<lhs, rhs>>]
     ELSE IF rules = <<>> THEN <<<<lhs, rhs>>>>
     ELSE LET sp == Specificity(lhs, rhs)
              i == IF sp < 0 THEN -1 ELSE InsPos(rules, sp, 1)
          IN IF i < 0 THEN <<>>
             ELSE SubSeq(rules, 1, i - 1) \o <<<<lhs, rhs>>>> \o SubSeq(rules, i, Len(rules))
ATTRS == {"Orderless", "Flat", "OneIdentity", "Listable", "Constant", "NumericFunction", "Protected", "Locked",
          "ReadProtected", "HoldFirst", "HoldRest", "HoldAll", "HoldAllComplete", "NHoldFirst", "NHoldRest",
          "NHoldAll", "SequenceHold", "Temporary", "Stub"}
Define(lhs, rhs, s) ==
  IF IsS(lhs)
  THEN (IF HasHead(rhs, "Condition") THEN Oof(Null, s, "conditional own value")[2]
        ELSE SetDef(lhs[2], [DefOf(lhs[2], s) EXCEPT !.own = <<rhs>>], s))
  ELSE IF ~IsE(lhs) THEN s
  ELSE IF HeadN(lhs, "Attributes", 1) /\ IsS(lhs[3])
  THEN (IF ~HasHead(rhs, "List") \/ \E i \in 3..Len(rhs) : ~IsS(rhs[i]) THEN s
        ELSE SetDef(lhs[3][2], [DefOf(lhs[3][2], s) EXCEPT !.attr = {rhs[i][2] : i \in 3..Len(rhs)} \cap ATTRS], s))
  ELSE IF HeadN(lhs, "DownValues", 1) /\ IsS(lhs[3])
  THEN LET bare(p) == IF HeadN(p, "HoldPattern", 1) THEN p[3] ELSE p
           rs == Map1(LAMBDA r : <<bare(r[3]), r[4]>>, Args(rhs))
       IN IF ~HasHead(rhs, "List") \/ \E i \in 3..Len(rhs) : HSym(rhs[i]) \notin {"Rule", "RuleDelayed"} \/ N(rhs[i]) # 2 THEN s
          ELSE IF \E i \in DOMAIN rs : ~IsE(rs[i][1]) THEN Oof(Null, s, "DownValues")[2]
          ELSE SetDef(lhs[3][2], [DefOf(lhs[3][2], s) EXCEPT !.rules = rs, !.own = <<>>], s)
  ELSE IF HSym(lhs) \in {"Attributes", "DownValues"} THEN Oof(Null, s, "define")[2]
  ELSE LET n == IF HSym(lhs) # "" THEN HSym(lhs)
                ELSE IF HasHead(Hd(lhs), "Verbatim") /\ N(Hd(lhs)) = 1 /\ IsS(Hd(lhs)[3]) THEN Hd(lhs)[3][2] ELSE ""
       IN IF n = "" THEN s
          ELSE LET d == DefOf(n, s)
                   rs == AddRule(d.rules, lhs, rhs)
               IN IF rs = <<>> THEN Oof(Null, s, "specificity")[2] ELSE SetDef(n, [d EXCEPT !.rules = rs], s)

\* ------------------------------------------------------------ local names
RECURSIVE SnagR(_, _, _)
SnagR(prefix, n, s) == IF IsDef(prefix \o IStr(n), s) THEN SnagR(prefix, n + 1, s) ELSE n
\* <<name, state>>
Snag(prefix, s) ==
  LET mn == OwnOf("$ModuleNumber", s)
  IN IF mn = <<>> \/ mn[1][1] # "i" THEN <<prefix, Oof(Null, s, "module number")[2]>>
     ELSE LET n == SnagR(prefix, mn[1][2], s)
          IN <<prefix \o IStr(n), SetDef("$ModuleNumber", [DefOf("$ModuleNumber", s) EXCEPT !.own = <<I(n + 1)>>], s)>>
\* the counter of fresh names is unknown: a number that no session reaches stands
\* for it, results that show it are not judged
UNKN == 700000000
Unknown(s) == [s EXCEPT !.def = ("$ModuleNumber" :> [DefOf("$ModuleNumber", s) EXCEPT !.own = <<I(UNKN)>>]) @@ @]
LocalSym(l) == IF HSym(l) \in {"Set", "SetDelayed"} /\ N(l) = 2 THEN l[3] ELSE l
ApplyModule(t, s) ==    \* <<ok, body, state>>
  IF N(t) # 2 \/ ~HasHead(t[3], "List") \/ \E i \in 3..Len(t[3]) : ~IsS(LocalSym(t[3][i])) THEN <<FALSE, t, s>>
  ELSE LET ls == Args(t[3])
           u == FoldLeft(LAMBDA acc, l : LET x == Snag(LocalSym(l)[2] \o "$", acc[2])
                                         IN TLCEval(<<Append(acc[1], x[1]), x[2]>>), <<<<>>, s>>, ls)
           d == FoldLeft(LAMBDA acc, i :
                  LET l == ls[i]
                      e == IF HSym(l) = "Set" THEN Ev(l[4], acc[2])
                           ELSE IF HSym(l) = "SetDelayed" THEN <<l[4], acc[2]>> ELSE <<Null, acc[2]>>
                  IN TLCEval(<<(LocalSym(l)[2] :> Sy(u[1][i])) @@ acc[1],
                       SetDef(u[1][i], [Blank0 EXCEPT !.own = IF IsE(l) THEN <<e[1]>> ELSE <<>>], e[2])>>),
                  <<<<>>, u[2]>>, [i \in 1..Len(ls) |-> i])
       IN <<TRUE, ReplPD(t[4], d[1]), d[2]>>
ApplyWith(t, s) ==
  IF N(t) # 2 \/ ~HasHead(t[3], "List")
     \/ \E i \in 3..Len(t[3]) : ~(HSym(t[3][i]) \in {"Set", "SetDelayed"} /\ N(t[3][i]) = 2) THEN <<FALSE, t, s>>
  ELSE LET r == RulesReplAll(t[4], Map1(LAMBDA d : E2("Rule", d[3], d[4]), Args(t[3])), s)
       IN <<TRUE, r[1], r[2]>>

\* ---------------------------------------------------------- pure functions
RECURSIVE Slots(_, _)
Slots(t, args) ==
  IF t[1] # "e" \/ HasHead(t, "Function") THEN t
  ELSE IF HeadN(t, "Slot", 1) /\ t[3][1] = "i" /\ t[3][2] >= 1 /\ t[3][2] <= Len(args) THEN args[t[3][2]]
  ELSE [i \in 1..Len(t) |-> IF i = 1 THEN "e" ELSE Slots(t[i], args)]
\* <<applied, value, state>>
ApplyPure(f, args, s) ==
  IF N(f) = 1 THEN <<TRUE, TLCEval(Slots(f[3], args)), s>>
  ELSE IF N(f) = 2 /\ IsS(f[3]) /\ args # <<>>
  THEN LET r == ReplAll(f[4], E2("Rule", f[3], args[1]), "Function", s) IN <<TRUE, r[1], r[2]>>
  ELSE <<FALSE, f, s>>

\* --------------------------------------------------------------- evaluation
MergeHead(t, h) ==      \* splice the arguments of parts with head h
  IF \E i \in 2..Len(t) : HasHead(t[i], h)
  THEN FoldLeft(LAMBDA acc, x : IF HasHead(x, h) THEN acc \o Args(x) ELSE Append(acc, x), <<"e">>, Tail(t))
  ELSE t
MergeEval(t, s) ==
  IF \E i \in 2..Len(t) : HasHead(t[i], "Evaluate")
  THEN FoldLeft(LAMBDA acc, x :
         IF HasHead(x, "Evaluate")
         THEN FoldLeft(LAMBDA a2, y : LET r == Ev(y, a2[2]) IN TLCEval(<<Append(a2[1], r[1]), r[2]>>), acc, Args(x))
         ELSE TLCEval(<<Append(acc[1], x), acc[2]>>), <<<<"e">>, s>>, Tail(t))
  ELSE <<t, s>>
\* lists in the arguments of a Listable head: thread over the parts, if all
\* lists have the same length; otherwise unchanged
Thread(t) ==
  LET ls == {i \in 3..Len(t) : HasHead(t[i], "List")}
  IN IF ls = {} THEN t
     ELSE LET n == N(t[CHOOSE i \in ls : TRUE])
          IN IF \E i \in ls : N(t[i]) # n THEN t
             ELSE Lst([k \in 1..n |-> [i \in 1..Len(t) |-> IF i \in ls THEN t[i][k + 2] ELSE t[i]]])
EvSym(t, s) ==
  LET o == OwnOf(t[2], s)
  IN IF o = <<>> THEN <<t, s>>
     ELSE IF o[1] = t THEN <<t, s>>
     ELSE LET r == Ev(o[1], s)
          IN IF HasHead(r[1], "Return") THEN <<IF N(r[1]) >= 1 THEN r[1][3] ELSE Null, r[2]>> ELSE r
HoldsPart(at, i) ==     \* i: position among the arguments, 0 = head
  \/ "HoldAll" \in at \/ "HoldAllComplete" \in at
  \/ (i = 1 /\ "HoldFirst" \in at) \/ (i > 1 /\ "HoldRest" \in at)
SpliceRaw == {"Sequence", "Evaluate", "Unevaluated"}
\* Evaluate a compound; done = compound parts already evaluated in this loop,
\* inDef = the expression came out of a definition
Loop(t, inDef, done, s) ==
  IF s.oof # "" THEN <<t, s>>
  ELSE IF s.fuel <= 0 THEN Oof(t, s, "fuel")
  ELSE IF t[1] # "e" THEN Ev(t, s)
  ELSE IF inDef /\ HasHead(t, "Return") THEN (IF N(t) >= 1 THEN Ev(t[3], s) ELSE <<Null, s>>)
  ELSE
  LET h == HSym(t)
      at == IF h = "" THEN {} ELSE AttrOf(h, s)
      s0 == [s EXCEPT !.fuel = @ - 1]
      \* the parts, from left to right
      ev == IF "HoldAll" \in at \/ "HoldAllComplete" \in at THEN <<t, s0>>
            ELSE FoldLeft(LAMBDA acc, i :
                   IF acc[2].thr # <<>> \/ acc[2].oof # "" THEN acc
                   ELSE IF HoldsPart(at, i - 2) \/ (t[i][1] \notin {"e", "s", "c"}) \/ (t[i][1] = "e" /\ t[i] \in done)
                        THEN <<Append(acc[1], t[i]), acc[2]>>
                   ELSE LET r == Ev(t[i], acc[2]) IN TLCEval(<<Append(acc[1], r[1]), r[2]>>),
                   <<<<"e">>, s0>>, [i \in 1..Len(t) - 1 |-> i + 1])
      s1 == ev[2]
  IN IF s1.oof # "" THEN <<t, s1>>
     ELSE IF s1.thr # <<>> THEN <<s1.thr[1], s1>>
     ELSE
     LET t1 == ev[1]
         m1 == IF h = "" \/ ("SequenceHold" \notin at /\ "HoldAllComplete" \notin at) THEN MergeHead(t1, "Sequence") ELSE t1
         m2 == IF "HoldAllComplete" \in at THEN <<m1, s1>> ELSE MergeEval(m1, s1)
         t2 == MergeHead(m2[1], "Unevaluated")
         s2 == m2[2]
         done2 == TLCEval(IF m2[1] = t2 THEN done \cup {t1[i] : i \in {j \in 2..Len(t1) : t1[j][1] = "e" /\ ~HoldsPart(at, j - 2)}} ELSE done)
     IN IF s2.oof # "" THEN <<t, s2>>
        ELSE IF s2.thr # <<>> THEN <<s2.thr[1], s2>>
        ELSE IF t2[2][1] = "e" /\ h = ""
        THEN (IF HasHead(Hd(t2), "Function")
              THEN LET r == ApplyPure(Hd(t2), Args(t2), s2)
                   IN IF r[1] /\ r[2] # t THEN Loop(r[2], inDef, {}, r[3])
                      ELSE IF t2 = t THEN <<t, r[3]>> ELSE Loop(t2, inDef, done2, r[3])
              ELSE IF t2 = t THEN <<t, s2>> ELSE Loop(t2, inDef, done2, s2))
        ELSE IF h = "" THEN (IF t2 = t THEN <<t, s2>> ELSE Loop(t2, inDef, done2, s2))
        ELSE
        LET t3 == IF "Flat" \in at THEN MergeHead(t2, h) ELSE t2
            t4 == IF "Orderless" \in at THEN <<"e", t3[2]>> \o SortO(Args(t3)) ELSE t3
            t5 == IF "Listable" \in at THEN Thread(t4) ELSE t4
        IN IF t5 # t4 THEN Loop(t5, inDef, {}, s2)
           ELSE
           LET bi == IF h \in BUILTINS THEN Builtin(h, t4, s2)
                     ELSE IF h \in SysNames /\ h \notin KNOWN THEN Oof(t4, s2, "head " \o h)
                     ELSE <<t4, s2>>
               ru == IF bi[1] = t4 /\ bi[2].oof = "" /\ bi[2].thr = <<>> THEN TryRules(t4, RulesOf(h, bi[2]), bi[2])
                     ELSE <<FALSE, bi[1], bi[2]>>
               s3 == ru[3]
           IN IF s3.oof # "" THEN <<ru[2], s3>>
              ELSE IF s3.thr # <<>> THEN <<s3.thr[1], s3>>
              ELSE IF ru[2] = t /\ ~ru[1] THEN <<t, s3>>
              ELSE IF ru[2] = t THEN <<t, s3>>
              ELSE Loop(ru[2], inDef \/ ru[1], IF bi[1] = t4 /\ ~ru[1] THEN done2 ELSE done2, s3)
Ev(t, s) ==
  IF s.oof # "" THEN <<t, s>>
  ELSE CASE t[1] = "s" -> EvSym(t, s)
         [] t[1] = "e" -> (IF s.thr # <<>> THEN <<s.thr[1], s>>
                           ELSE IF s.depth > MAXDEPTH THEN Oof(t, s, "depth")
                           ELSE LET r == Loop(t, FALSE, {}, [s EXCEPT !.depth = @ + 1])
                                IN <<r[1], [r[2] EXCEPT !.depth = s.depth]>>)
         [] OTHER -> <<t, s>>

\* ------------------------------------------------------ pieces of builtins
\* evaluate a sequence of expressions from left to right
EvAll(ts, s) == FoldLeft(LAMBDA acc, x : IF acc[2].thr # <<>> \/ acc[2].oof # "" THEN acc
                                         ELSE LET r == Ev(x, acc[2]) IN TLCEval(<<Append(acc[1], r[1]), r[2]>>), <<<<>>, s>>, ts)
Bad(s) == s.thr # <<>> \/ s.oof # ""
Quit(t, s) == <<t, s>>
Tr(b, s) == <<Bool(b), s>>
PartOr(t, i) == IF N(t) >= i THEN Arg(t, i) ELSE Null
RECURSIVE WhileR(_, _, _)
WhileR(test, body, s) ==
  LET c == Ev(test, s)
  IN IF Bad(c[2]) THEN <<Null, c[2]>>
     ELSE IF c[2].fuel <= 0 THEN Oof(Null, c[2], "fuel")
     ELSE IF c[1] # True THEN <<Null, c[2]>>
     ELSE LET r == Ev(body, [c[2] EXCEPT !.fuel = @ - 1])
          IN IF Bad(r[2]) THEN r
             ELSE IF HasHead(r[1], "Return") THEN <<PartOr(r[1], 1), r[2]>>
             ELSE IF HasHead(r[1], "Break") THEN <<Null, r[2]>>
             ELSE WhileR(test, body, r[2])
RECURSIVE CompoundR(_, _)
CompoundR(ts, s) ==
  LET r == Ev(ts[1], s)
  IN IF Bad(r[2]) \/ HasHead(r[1], "Return") \/ Len(ts) = 1 THEN r ELSE CompoundR(Tail(ts), r[2])
RECURSIVE WhichR(_, _, _)
WhichR(ts, i, s) ==         \* ts: test1, value1, ...
  IF i > Len(ts) THEN <<Null, s>>
  ELSE LET c == Ev(ts[i], s)
       IN IF Bad(c[2]) THEN <<Null, c[2]>> ELSE IF c[1] = True THEN Ev(ts[i + 1], c[2]) ELSE WhichR(ts, i + 2, c[2])
RECURSIVE SwitchR(_, _, _, _)
SwitchR(t, x, i, s) ==
  IF i > N(t) THEN <<t, s>>
  ELSE LET m == Match(x, Arg(t, i), <<>>, s)
       IN IF m = <<>> THEN SwitchR(t, x, i + 2, s)
          ELSE IF IsOofB(m[1]) THEN Oof(t, s, "match") ELSE <<Arg(t, i + 1), s>>
MatchB(x, p, s) == LET m == Match(x, p, <<>>, s) IN IF m = <<>> THEN "no" ELSE IF IsOofB(m[1]) THEN "oof" ELSE "yes"
\* indices of the arguments that match; <<>> with oof in the state if unknown
MatchIdx(args, p, s) ==
  LET r == [i \in 1..Len(args) |-> MatchB(args[i], p, s)]
  IN IF \E i \in 1..Len(args) : r[i] = "oof" THEN <<-1>> ELSE SelectSeq([i \in 1..Len(args) |-> i], LAMBDA i : r[i] = "yes")

\* --------------------------------------------------------------- iterators
MAXIT == 400
RECURSIVE RangeVals(_, _, _, _)
RangeVals(a, b, d, left) ==
  IF left = 0 THEN <<OOFT>>
  ELSE IF (IF QSg(QOf(d)) < 0 THEN RealCmp(a, b) < 0 ELSE RealCmp(a, b) > 0) THEN <<>>
  ELSE <<a>> \o RangeVals(TLCEval(NAdd(a, d)), b, d, left - 1)
\* the values an iterator specification stands for: <<"ok", var, values, s>>
RangeSpec(var, ps, s) ==
  IF \A i \in 1..Len(ps) : IsNum(ps[i])
  THEN IF \E i \in 1..Len(ps) : ps[i][1] \in {"c", "fx"} THEN <<"oof", "", <<>>, s>>
       ELSE IF Len(ps) > 3 THEN <<"bad", "", <<>>, s>>
       ELSE LET a == IF Len(ps) = 1 THEN Z1 ELSE ps[1]
                b == IF Len(ps) = 1 THEN ps[1] ELSE ps[2]
                d == IF Len(ps) = 3 THEN ps[3] ELSE Z1
            IN IF QSg(QOf(d)) = 0 THEN <<"bad", "", <<>>, s>>
               ELSE LET v == RangeVals(NAdd(a, NMul(Z0, d)), b, d, MAXIT)
                    IN IF OOFT \in Range(v) THEN <<"oof", "", <<>>, s>> ELSE <<"ok", var, v, s>>
  ELSE IF Len(ps) = 1 /\ HasHead(ps[1], "List") THEN <<"ok", var, Args(ps[1]), s>>
  ELSE <<"bad", "", <<>>, s>>
IterSpec(t, s) ==
  LET l == IF HasHead(t, "List") THEN <<t, s>> ELSE Ev(t, s)
      ps == IF HasHead(l[1], "List") /\ N(l[1]) >= 1 THEN EvAll(SubSeq(l[1], 4, Len(l[1])), l[2]) ELSE <<<<>>, l[2]>>
  IN IF Bad(ps[2]) THEN <<"oof", "", <<>>, ps[2]>>
     ELSE IF ~HasHead(l[1], "List") \/ N(l[1]) < 2 THEN <<"bad", "", <<>>, ps[2]>>
     ELSE IF l[1][3][1] = "e" THEN <<"oof", "", <<>>, ps[2]>>
     ELSE IF ~IsS(l[1][3]) THEN <<"bad", "", <<>>, ps[2]>>
     ELSE RangeSpec(l[1][3][2], ps[1], ps[2])
\* all specifications, first varying slowest: <<status, names, tuples, s>>
IterAll(ts, s) ==
  FoldLeft(LAMBDA acc, t :
    IF acc[1] # "ok" THEN acc
    ELSE LET r == IterSpec(t, acc[4])
         IN IF r[1] # "ok" THEN <<r[1], <<>>, <<>>, r[4]>>
            ELSE TLCEval(<<"ok", Append(acc[2], r[2]), Flat1([i \in 1..Len(acc[3]) |-> [j \in 1..Len(r[3]) |-> Append(acc[3][i], r[3][j])]]), r[4]>>),
    <<"ok", <<>>, <<<<>>>>, s>>, ts)
SetOwn(n, v, s) == SetDef(n, [DefOf(n, s) EXCEPT !.own = v], s)
\* runs body for every tuple; step \in {"Do", "Table", "Plus", "Times"}
IterRun(step, body, it) ==
  LET names == it[2]
      s0 == it[4]
      old == [i \in 1..Len(names) |-> OwnOf(names[i], s0)]
      one(acc, tup) ==
        IF acc[3] THEN acc
        ELSE LET s1 == FoldLeft(LAMBDA st, i : SetOwn(names[i], <<tup[i]>>, st), acc[2], [i \in 1..Len(names) |-> i])
                 r == Ev(body, s1)
                 q == IF step \in {"Plus", "Times"} /\ ~Bad(r[2]) THEN Ev(E2(step, acc[1], r[1]), r[2]) ELSE r
             IN IF Bad(q[2]) THEN TLCEval(<<q[1], q[2], TRUE>>)
                ELSE IF step = "Do" /\ HasHead(r[1], "Return")
                     THEN TLCEval(<<PartOr(r[1], 1), r[2], TRUE>>)
                ELSE IF step = "Table" THEN TLCEval(<<Append(acc[1], r[1]), r[2], FALSE>>)
                ELSE IF step = "Do" THEN TLCEval(<<Null, r[2], FALSE>>)
                ELSE TLCEval(<<q[1], q[2], FALSE>>)
      init == CASE step = "Do" -> Null [] step = "Table" -> <<"e", Sy("List")>> [] step = "Plus" -> Z0 [] OTHER -> Z1
      fin == FoldLeft(one, <<init, s0, FALSE>>, it[3])
      s2 == FoldLeft(LAMBDA st, i : SetOwn(names[i], old[i], st), fin[2], [i \in 1..Len(names) |-> i])
  IN <<fin[1], s2>>
Iterate(step, t, s) ==
  IF N(t) < 2 THEN <<t, s>>
  ELSE LET it == IterAll(SubSeq(t, 4, Len(t)), s)
       IN IF it[1] = "oof" THEN (IF Bad(it[4]) /\ it[4].oof = "" THEN Oof(t, it[4], "throw in iterator") ELSE Oof(t, it[4], "iterator"))
          ELSE IF it[1] = "bad" THEN <<t, it[4]>>
          ELSE IF \E i, j \in 1..Len(it[2]) : i # j /\ it[2][i] = it[2][j] THEN Oof(t, it[4], "same iterator twice")
          ELSE IterRun(step, t[3], it)

\* ------------------------------------------------------------ control flow
BiCtrl(h, t, s) ==
  LET n == N(t)
  IN
  CASE h = "If" ->
         (IF n \notin {2, 3} THEN <<t, s>>
          ELSE LET c == IsEq(t[3], True)
               IN IF c = "U" THEN <<t, s>> ELSE IF c = "T" THEN <<t[4], s>> ELSE <<PartOr(t, 3), s>>)
    [] h = "While" -> (IF n # 2 THEN (IF n = 1 THEN Oof(t, s, "While") ELSE <<t, s>>) ELSE WhileR(t[3], t[4], s))
    [] h = "CompoundExpression" -> (IF n = 0 THEN Oof(t, s, "empty compound") ELSE CompoundR(Args(t), s))
    [] h = "Which" -> (IF n % 2 = 1 THEN <<t, s>> ELSE WhichR(Args(t), 1, s))
    [] h = "Switch" -> (IF n < 3 \/ n % 2 = 0 THEN <<t, s>> ELSE SwitchR(t, t[3], 2, s))
    [] h = "With" -> (LET r == ApplyWith(t, s) IN IF r[1] THEN <<r[2], r[3]>> ELSE <<t, r[3]>>)
    [] h = "Module" \/ h = "Block" ->
         (LET u == <<"e", Sy("Module")>> \o Args(t)
              r == ApplyModule(u, s) IN IF r[1] THEN <<r[2], r[3]>> ELSE IF h = "Block" THEN <<u, s>> ELSE <<t, r[3]>>)
    [] h = "Do" -> Iterate("Do", t, s)
    [] h = "Table" -> Iterate("Table", t, s)
    [] h = "Sum" -> (LET r == Iterate("Plus", t, s) IN IF r[1] = t THEN Oof(t, s, "symbolic sum") ELSE r)
    [] h = "Product" -> Iterate("Times", t, s)
    [] h = "ParallelTable" ->
         (IF n < 2 \/ t[4][1] = "i" THEN (IF n = 2 THEN Oof(t, s, "ParallelTable") ELSE <<t, s>>)
          ELSE LET it == IterAll(SubSeq(t, 4, Len(t)), s)
               IN IF it[1] # "ok" THEN (IF it[1] = "bad" THEN <<t, it[4]>> ELSE Oof(t, it[4], "iterator"))
                  ELSE LET r == EvAll([k \in 1..Len(it[3]) |->
                                        ReplPD(t[3], [nm \in Range(it[2]) |-> it[3][k][CHOOSE i \in 1..Len(it[2]) : it[2][i] = nm]])], it[4])
                       IN IF r[2].def # it[4].def \/ r[2].out # it[4].out \/ Bad(r[2])
                          THEN Oof(t, r[2], "parallel effects") ELSE <<Lst(r[1]), r[2]>>)
    [] h = "Range" -> (IF n \notin {1, 2, 3} THEN <<t, s>>
                       ELSE LET r == RangeSpec("$DUMMY", Args(t), s)
                            IN IF r[1] = "oof" THEN Oof(t, s, "range") ELSE IF r[1] = "bad" THEN <<t, s>> ELSE <<Lst(r[3]), s>>)
    [] h = "Throw" -> (IF n # 1 THEN <<t, s>> ELSE <<t, [s EXCEPT !.thr = <<t>>]>>)
    [] h = "Catch" -> (IF n # 1 THEN <<t, s>>
                       ELSE LET r == Ev(t[3], s)
                            IN IF r[2].oof = "" /\ r[2].thr # <<>> THEN <<r[2].thr[1][3], [r[2] EXCEPT !.thr = <<>>]>> ELSE r)
    [] h = "Sow" -> (IF n # 1 THEN <<t, s>> ELSE <<t[3], IF s.reap THEN [s EXCEPT !.sown = Append(@, t[3])] ELSE s>>)
    [] h = "Reap" -> (IF n # 1 THEN <<t, s>>
                      ELSE LET r == Ev(t[3], [s EXCEPT !.reap = TRUE, !.sown = <<>>])
                               back == [r[2] EXCEPT !.reap = s.reap, !.sown = s.sown]
                           IN IF Bad(r[2]) THEN <<r[1], back>>
                              ELSE <<Lst(<<r[1], Lst(<<Lst(r[2].sown)>>)>>), back>>)
    [] h = "Set" -> (IF n # 2 THEN <<t, s>> ELSE <<t[4], Define(t[3], t[4], s)>>)
    [] h = "SetDelayed" ->
         (IF n # 2 THEN <<t, s>>
          ELSE IF ~IsE(t[3]) \/ (HSym(t[3]) # "" /\ AttrOf(HSym(t[3]), s) \cap {"HoldAll", "HoldAllComplete"} # {})
               THEN <<Null, Define(t[3], t[4], s)>>
               ELSE LET r == EvAll(Tail(t[3]), s)
                    IN IF Bad(r[2]) THEN r ELSE <<Null, Define(<<"e">> \o r[1], t[4], r[2])>>)
    [] h = "Attributes" -> (IF n # 1 \/ ~IsS(t[3]) THEN <<t, s>>
                            ELSE <<Lst(SortO(SetToSeq({Sy(a) : a \in AttrOf(t[3][2], s)}))), s>>)
    [] h = "Clear" -> (<<Null, FoldLeft(LAMBDA st, x : IF IsS(x) /\ IsDef(x[2], st) THEN SetDef(x[2], Blank0, st) ELSE st, s, Args(t))>>)
    [] h = "DownValues" ->
         (IF n # 1 \/ ~IsS(t[3]) THEN <<t, s>>
          ELSE <<Lst(Map1(LAMBDA r : E2("RuleDelayed", E1("HoldPattern", r[1]), r[2]), RulesOf(t[3][2], s))), s>>)
    [] h = "Save" ->
         (IF n # 2 \/ ~IsStr(t[3]) \/ ~HasHead(t[4], "List") \/ N(t[4]) = 0 \/ \E i \in 3..Len(t[4]) : ~IsStr(t[4][i]) THEN <<t, s>>
          ELSE LET ns == {t[4][i][2] : i \in 3..Len(t[4])}
               IN IF \E x \in ns : x \notin s.seen /\ x \notin DOMAIN s.def THEN <<t, s>>
                  ELSE IF \E x \in ns : x \notin DOMAIN s.def /\ x \in SysNames THEN Oof(t, s, "Save")
                  ELSE IF Len(t[3][2]) > 6 THEN <<Null, s>>      \* cannot be written
                  ELSE <<Null, [s EXCEPT !.files = (t[3][2] :> <<"mx", [x \in ns |-> DefOf(x, s)]>>) @@ @]>>)
    [] h = "Get" ->
         (IF n # 1 THEN <<t, s>>
          ELSE IF ~IsStr(t[3]) \/ t[3][2] \notin DOMAIN s.files THEN <<Sy("$Failed"), s>>
          ELSE LET f == s.files[t[3][2]]
               IN IF f[1] = "mx" THEN <<Null, [s EXCEPT !.def = f[2] @@ @, !.seen = @ \cup DOMAIN f[2]]>>
                  ELSE FoldLeft(LAMBDA acc, x : IF Bad(acc[2]) THEN acc ELSE TLCEval(Ev(x, acc[2])), <<Null, s>>, f[2]))
    [] h = "Unique" -> (IF n = 0 THEN (LET x == Snag("Global`$", s) IN <<Sy(x[1]), x[2]>>)
                        ELSE IF n = 1 /\ IsStr(t[3]) THEN (LET x == Snag("Global`" \o t[3][2], s) IN <<Sy(x[1]), x[2]>>)
                        ELSE Oof(t, s, "Unique"))
    [] h = "Scan" ->
         (IF n # 2 THEN <<t, s>>
          ELSE IF ~IsE(t[4]) THEN <<t, s>>
          ELSE LET r == FoldLeft(LAMBDA acc, x :
                          IF acc[3] \/ Bad(acc[2]) THEN acc
                          ELSE LET e == Ev(<<"e", t[3], x>>, acc[2])
                               IN IF HasHead(e[1], "Return") /\ N(e[1]) > 1 THEN TLCEval(<<Null, Oof(t, e[2], "return")[2], TRUE>>)
                                  ELSE IF HasHead(e[1], "Return") THEN TLCEval(<<PartOr(e[1], 1), e[2], TRUE>>)
                                  ELSE TLCEval(<<Null, e[2], FALSE>>), <<Null, s, FALSE>>, Args(t[4]))
               IN <<r[1], r[2]>>)
    [] OTHER -> Oof(t, s, h)

\* ------------------------------------------------- booleans and comparisons
RECURSIVE AndOr(_, _, _, _, _)
AndOr(h, ts, i, kept, s) ==
  IF i > Len(ts) THEN <<IF kept = <<>> THEN Bool(h = "And") ELSE IF Len(kept) = 1 THEN kept[1] ELSE En(h, kept), s>>
  ELSE LET r == Ev(ts[i], s)
       IN IF Bad(r[2]) THEN r
          ELSE IF r[1] = Bool(h = "Or") THEN r
          ELSE AndOr(h, ts, i + 1, IF r[1] = Bool(h = "And") THEN kept ELSE Append(kept, r[1]), r[2])
\* "T", "F" or "U" for the comparison of neighbours
RECURSIVE CompR(_, _, _)
CompR(h, args, i) ==
  IF i > Len(args) THEN "T"
  ELSE IF args[i][1] = "c" \/ ~IsNum(args[i]) THEN (IF IsNum(args[i]) \/ Symbols(args[i]) \cap {"Pi", "E", "Degree", "Sqrt", "Sin", "Cos", "Log", "GoldenRatio", "Power"} = {} THEN "U" ELSE "?")
  ELSE IF args[i][1] = "fx" THEN "?"
  ELSE IF i = 1 THEN CompR(h, args, 2)
  ELSE LET c == RealCmp(args[i - 1], args[i])
           ok == CASE h = "Less" -> c < 0 [] h = "LessEqual" -> c <= 0 [] h = "Greater" -> c > 0 [] OTHER -> c >= 0
       IN IF ok THEN CompR(h, args, i + 1) ELSE "F"
CompT(h, t, s) == LET c == CompR(h, Args(t), 1)
                  IN IF c = "U" THEN <<t, s>> ELSE IF c = "?" THEN Oof(t, s, "comparison") ELSE Tr(c = "T", s)
CompSign(op) == CASE op \in {Sy("Less"), Sy("LessEqual")} -> -1 [] op = Sy("Equal") -> 0
                  [] op \in {Sy("Greater"), Sy("GreaterEqual")} -> 1 [] OTHER -> 5
EqualT(t, s) ==
  LET rs == [i \in 1..(N(t) - 1) |-> IsEq(t[3], t[i + 3])]
  IN IF N(t) < 2 THEN Tr(TRUE, s)
     ELSE IF \A i \in 1..Len(rs) : rs[i] # "U" THEN Tr(\A i \in 1..Len(rs) : rs[i] = "T", s)
     ELSE IF N(t) # 2 THEN (IF \E i \in 3..Len(t) : t[i][1] = "fx" THEN Oof(t, s, "real") ELSE <<t, s>>)
     ELSE IF IsReal(t[3]) /\ IsReal(t[4]) THEN (IF "fx" \in {t[3][1], t[4][1]} THEN Oof(t, s, "real") ELSE Tr(RealCmp(t[3], t[4]) = 0, s))
     ELSE IF Symbols(t) \cap {"Pi", "E", "Degree", "Sqrt", "Log", "Sin", "Cos", "GoldenRatio", "Infinity"} # {} \/ (IsNum(t[3]) /\ IsNum(t[4])) THEN Oof(t, s, "numeric equality")
     ELSE <<t, s>>
\* an inequality chain that mixes operators
\* kept: the chain so far; skip: the operator of the skipped comparisons that are
\* known to hold between the end of kept and the current left side ("" if none)
SameDir(o1, o2) == CompSign(o1) # 5 /\ CompSign(o2) # 5 /\ ~({CompSign(o1), CompSign(o2)} = {-1, 1})
Stronger(o1, o2) == IF o1 = <<>> \/ CompSign(o1) = 0 THEN o2 ELSE IF o2 \in {Sy("Less"), Sy("Greater")} THEN o2 ELSE o1
RECURSIVE IneqR(_, _, _, _, _)
IneqR(t, i, kept, skip, s) ==     \* i: index of the operator
  IF i > N(t) THEN
     (LET k == kept IN IF Len(k) <= 1 THEN <<True, s>>
                       ELSE IF Len(k) = 3 THEN <<<<"e", k[2], k[1], k[3]>>, s>> ELSE <<En("Inequality", k), s>>)
  ELSE LET lhs == Arg(t, i - 1)
           op == Arg(t, i)
           \* right sides for which lhs op rhs follows from the chain
           later == {j \in (i + 1)..N(t) : (j - i) % 2 = 1 /\ \A m \in (i + 2)..(j - 1) : (m - i) % 2 = 0 =>
                                             CompSign(Arg(t, m)) # 5 /\ CompSign(Arg(t, m)) \in {0, CompSign(op)}}
           c(j) == IF CompSign(op) = 0 THEN (LET e == EqualT(E2("Equal", lhs, Arg(t, j)), s) IN IF e[2].oof # "" THEN "?" ELSE IF e[1] = True THEN "T" ELSE IF e[1] = False THEN "F" ELSE "U")
                   ELSE CompR(op[2], <<lhs, Arg(t, j)>>, 1)
       IN IF \E j \in later : c(j) = "?" THEN Oof(t, s, "comparison")
          ELSE IF \E j \in later : c(j) = "F" THEN <<False, s>>
          ELSE IF c(i + 1) = "T" /\ (skip = <<>> \/ kept = <<>> \/ SameDir(skip, op)) THEN IneqR(t, i + 2, kept, Stronger(skip, op), s)
          ELSE IneqR(t, i + 2, (IF kept = <<>> THEN <<lhs>> ELSE IF skip # <<>> THEN kept \o <<skip, lhs>> ELSE kept) \o <<op, Arg(t, i + 1)>>, <<>>, s)
BiBool(h, t, s) ==
  LET n == N(t)
      a == IF n >= 1 THEN t[3] ELSE Null
  IN
  CASE h \in {"And", "Or"} -> AndOr(h, Args(t), 1, <<>>, s)
    [] h = "Not" -> (IF n # 1 THEN <<t, s>> ELSE IF a = True THEN <<False, s>> ELSE IF a = False THEN <<True, s>> ELSE <<t, s>>)
    [] h = "TrueQ" -> (IF n # 1 THEN <<t, s>> ELSE Tr(a = True, s))
    [] h = "BooleanQ" -> (IF n # 1 THEN <<t, s>> ELSE Tr(a \in {True, False}, s))
    [] h = "AtomQ" -> (IF n # 1 THEN <<t, s>> ELSE Tr(a[1] # "e", s))
    [] h = "NumberQ" -> (IF n # 1 THEN <<t, s>> ELSE Tr(IsNum(a), s))
    [] h = "NumericQ" -> (IF n # 1 THEN <<t, s>> ELSE IF IsNum(a) THEN Tr(TRUE, s)
                          ELSE IF a[1] = "t" \/ (a[1] = "s" /\ a[2] \notin SysNames) THEN Tr(FALSE, s) ELSE Oof(t, s, "NumericQ"))
    [] h = "SameQ" -> Tr(\A i \in 2..n : Arg(t, i) = a, s)
    [] h = "UnsameQ" -> Tr(\A i \in 1..n : \A j \in 1..n : i # j => Arg(t, i) # Arg(t, j), s)
    [] h = "Equal" -> EqualT(t, s)
    [] h = "Unequal" -> (IF n < 2 THEN <<t, s>>
                         ELSE LET ps == {IsEq(t[p[1]], t[p[2]]) : p \in {p \in (3..Len(t)) \X (3..Len(t)) : p[1] < p[2]}}
                              IN IF \E p \in (3..Len(t)) \X (3..Len(t)) : p[1] < p[2] /\ IsEq(t[p[1]], t[p[2]]) = "U" /\ IsNum(t[p[1]]) /\ IsNum(t[p[2]]) THEN Oof(t, s, "Unequal")
                                 ELSE IF "T" \in ps THEN Tr(FALSE, s) ELSE IF "U" \in ps THEN <<t, s>> ELSE Tr(TRUE, s))
    \* the infinities are only compared by <=
    [] h = "LessEqual" /\ n = 2 /\ IsReal(t[3]) /\ t[4] \in {Infty, NegInfty} -> Tr(t[4] = Infty, s)
    [] h = "LessEqual" /\ n = 2 /\ t[3] \in {Infty, NegInfty} /\ IsReal(t[4]) -> Tr(t[3] = NegInfty, s)
    [] h \in {"Less", "LessEqual", "Greater", "GreaterEqual"} -> CompT(h, t, s)
    [] h = "Inequality" ->
         (IF n = 0 THEN <<t, s>> ELSE IF n = 1 THEN <<True, s>> ELSE IF n % 2 = 0 THEN <<t, s>>
          ELSE IF \E i \in 1..n : HasSpecial(Arg(t, i)) THEN Oof(t, s, "infinity")
          ELSE LET f == CompSign(Arg(t, 2))
                   mixed == {i \in {j \in 4..n : j % 2 = 0} : CompSign(Arg(t, i)) \in {5, -f}}
                   first == CHOOSE i \in mixed : \A j \in mixed : i <= j
               IN IF f = 5 THEN <<t, s>>
                  ELSE IF f # 0 /\ mixed # {} /\ CompSign(Arg(t, first)) = 5 THEN <<t, s>>
                  ELSE IF f # 0 /\ mixed # {}
                  THEN <<E2("And", En("Inequality", SubSeq(Args(t), 1, first - 1)), En("Inequality", SubSeq(Args(t), first - 1, n))), s>>
                  ELSE IF \E i \in {j \in 2..n : j % 2 = 0} : CompSign(Arg(t, i)) = 5 THEN Oof(t, s, "operator")
                  ELSE IneqR(t, 2, <<>>, <<>>, s))
    [] h \in {"Max", "Min"} ->
         (LET f == FlattenA(Args(t), Sy("List"), BIG)
              x == IF f # Args(t) THEN SortO(f) ELSE f
              k == NumPrefix(x)
          IN IF \E i \in 1..k : x[i][1] \in {"c", "fx"} THEN Oof(t, s, "extrema")
             ELSE IF \E i \in 1..Len(x) : HasSpecial(x[i]) THEN (IF Len(x) = 1 THEN <<x[1], s>> ELSE Oof(t, s, "infinity"))
             ELSE IF x = <<>> THEN <<IF h = "Max" THEN NegInfty ELSE Infty, s>>
             ELSE IF Len(x) = 1 THEN <<x[1], s>>
             ELSE IF k <= 1 THEN <<En(h, x), s>>
             ELSE IF h = "Max" THEN <<En(h, SubSeq(x, k, Len(x))), s>>
             ELSE <<En(h, <<x[1]>> \o SubSeq(x, k + 1, Len(x))), s>>)
    [] h = "Order" -> (IF n # 2 THEN <<t, s>> ELSE <<I(Ord(t[3], t[4])), s>>)
    [] h = "Sort" -> (IF n = 1 /\ IsE(a) THEN <<<<"e", Hd(a)>> \o SortO(Args(a)), s>> ELSE <<t, s>>)
    [] OTHER -> Oof(t, s, h)

\* ----------------------------------------------------------------- numbers
BiNum(h, t, s) ==
  LET n == N(t)
      a == IF n >= 1 THEN t[3] ELSE Null
      R(x) == IF x = OOFT THEN Oof(t, s, h) ELSE <<x, s>>
  IN
  CASE h = "Plus" -> R(PlusStep(t))
    [] h = "Times" -> R(TimesStep(t))
    [] h = "Power" -> (IF n # 2 THEN <<t, s>> ELSE R(PowerStep(t)))
    [] h = "ExpreduceLikePlus" -> Oof(t, s, h)
    [] h = "Rational" -> (IF n # 2 \/ ~IsInt(t[3]) \/ ~IsInt(t[4]) THEN <<t, s>>
                          ELSE IF t[4] = Z0 THEN <<IF t[3] = Z0 THEN Indet ELSE CInfty, s>> ELSE <<QMk(t[3], t[4]), s>>)
    [] h = "Complex" -> (IF n # 2 \/ ~IsReal(t[3]) \/ ~IsReal(t[4]) THEN Oof(t, s, h) ELSE R(IF HasTag(t, "fx") \/ HasInexact(t) THEN OOFT ELSE CMk(t[3], t[4])))
    [] h = "GCD" -> (IF ZsOk(Args(t)) THEN <<FoldLeft(LAMBDA g, x : ZGcd(g, x), Z0, Args(t)), s>>
                     ELSE IF \E i \in 3..Len(t) : t[i][1] = "q" THEN Oof(t, s, h) ELSE <<t, s>>)
    [] h = "Mod" -> (IF n = 2 /\ IsInt(t[3]) /\ IsInt(t[4])
                     THEN (IF t[4] = Z0 THEN <<Indet, s>> ELSE <<ZMod(t[3], ZAbs(t[4])), s>>)
                     ELSE IF n = 2 /\ (IsNum(t[3]) \/ HasHead(t[3], "Times")) THEN Oof(t, s, h) ELSE <<t, s>>)
    [] h = "PrimeQ" -> (IF n # 1 THEN <<t, s>> ELSE IF ~IsInt(a) THEN Tr(FALSE, s)
                        ELSE IF ~IsTI(a) THEN Oof(t, s, h) ELSE Tr(LET u == IF a[2] < 0 THEN -a[2] ELSE a[2] IN u >= 2 /\ IsPrime(u), s))
    [] h = "PrimePi" -> (IF n # 1 \/ ~IsInt(a) THEN (IF n = 1 /\ IsNum(a) THEN Oof(t, s, h) ELSE <<t, s>>)
                         ELSE IF ZSg(a) <= 0 THEN <<Z0, s>>
                         ELSE IF ~IsTI(a) \/ a[2] > 3000 \/ a[2] = 1 THEN Oof(t, s, h)
                         ELSE <<I(Cardinality({p \in 2..a[2] : IsPrime(p)})), s>>)
    [] h = "Prime" -> (IF n # 1 \/ ~IsInt(a) \/ ZSg(a) <= 0 THEN <<t, s>>
                       ELSE IF ~IsTI(a) \/ a[2] > 300 THEN Oof(t, s, h) ELSE <<I(NthPrime(a[2])), s>>)
    [] h = "Factorial" -> (IF n # 1 \/ ~IsInt(a) THEN (IF n = 1 /\ IsNum(a) THEN Oof(t, s, h) ELSE <<t, s>>)
                           ELSE IF ZSg(a) < 0 THEN <<CInfty, s>> ELSE IF ~IsTI(a) \/ a[2] > 120 THEN Oof(t, s, h) ELSE <<Fact(a[2]), s>>)
    [] h = "FactorInteger" ->
         (IF n = 1 /\ a[1] = "q" /\ IsTI(NumOf(a)) /\ IsTI(DenOf(a))
          THEN <<Lst(SortO(Map1(LAMBDA p : Lst(<<I(p[1]), I(p[2])>>),
                   (IF NumOf(a)[2] < 0 THEN <<<<-1, 1>>>> ELSE <<>>) \o FactorsR(Abs(NumOf(a)[2]), 2)
                   \o Map1(LAMBDA p : <<p[1], -p[2]>>, FactorsR(DenOf(a)[2], 2))))), Unknown(s)>>
          ELSE IF n # 1 \/ ~IsInt(a) THEN (IF n = 1 /\ a[1] = "q" THEN Oof(t, s, h) ELSE <<t, s>>)
          ELSE IF ~IsTI(a) THEN Oof(t, s, h)
          ELSE IF a[2] \in {0, 1, -1} THEN <<Lst(<<Lst(<<a, I(1)>>)>>), Unknown(s)>>
          ELSE <<Lst(Map1(LAMBDA p : Lst(<<I(p[1]), I(p[2])>>), (IF a[2] < 0 THEN <<<<-1, 1>>>> ELSE <<>>) \o FactorsR(Abs(a[2]), 2))), Unknown(s)>>)
    [] h = "Numerator" -> (IF n = 1 /\ IsExact(a) THEN <<NumOf(a), s>> ELSE IF n # 1 THEN <<t, s>> ELSE IF HasHead(a, "Times") THEN Oof(t, s, h) ELSE <<a, s>>)
    [] h = "Denominator" -> (IF n = 1 /\ IsExact(a) THEN <<DenOf(a), s>> ELSE IF n # 1 THEN <<t, s>> ELSE IF HasHead(a, "Times") THEN Oof(t, s, h) ELSE <<Z1, s>>)
    [] h = "Re" -> (IF n = 1 /\ IsNum(a) THEN <<Re1(a), s>> ELSE Oof(t, s, h))
    [] h = "Im" -> (IF n = 1 /\ IsNum(a) THEN <<IF a[1] = "c" THEN a[3] ELSE Z0, s>> ELSE Oof(t, s, h))
    [] h = "IntegerPartitions" ->
         (IF n \notin {1, 2} \/ ~ZsOk(Args(t)) THEN <<t, s>>
          ELSE IF ZSg(a) < 0 THEN <<Lst(<<>>), s>>
          ELSE IF ~IsTI(a) \/ a[2] > 14 \/ (n = 2 /\ ~IsTI(t[4])) THEN Oof(t, s, h)
          ELSE <<Lst(Map1(LAMBDA p : Lst(Map1(I, p)),
                   SelectSeq(Partitions(a[2], a[2]), LAMBDA p : n = 1 \/ Len(p) <= t[4][2]))), s>>)
    [] h = "Permutations" -> (IF n # 1 \/ ~IsE(a) THEN <<t, s>>
                              ELSE IF N(a) = 0 \/ N(a) > 6 THEN Oof(t, s, h)
                              ELSE <<Lst(Map1(Lst, Perms(Args(a)))), s>>)
    [] h = "N" -> (IF n = 1 /\ IsReal(a) /\ a[1] # "fx" THEN R(IF FMk(QOf(a)) = NaR THEN OOFT ELSE FMk(QOf(a))) ELSE Oof(t, s, h))
    [] OTHER -> Oof(t, s, h)

\* ------------------------------------------------------------------- lists
SameHeads(t) == \A i \in 3..Len(t) : IsE(t[i]) /\ Hd(t[i]) = Hd(t[3])
LevelFn(h, f, x, pos) ==
  CASE h = "Map" -> <<"e", f, x>>
    [] h = "MapIndexed" -> <<"e", f, x, Lst(Map1(I, pos))>>
    [] h = "Apply" -> IF IsE(x) THEN <<"e", f>> \o Args(x) ELSE x
ApplyLevels(h, f, t, sp) ==
  LET ps == PosIn(t, sp, <<>>)
      r == FoldLeft(LAMBDA acc, p : TLCEval(SetAt(acc, p, LevelFn(h, f, PartAt(acc, p), p))), t, ps)
  IN IF sp.lo = 0 /\ sp.hi = 0 THEN LevelFn(h, f, t, <<>>)
     ELSE IF ~IsE(t) THEN (IF InLevel(sp, 0, 0) THEN LevelFn(h, f, t, <<>>) ELSE t)
     ELSE IF InLevel(sp, 0, IF sp.mind \/ sp.maxd THEN Depth1(t) ELSE 0) THEN LevelFn(h, f, r, <<>>) ELSE r
RECURSIVE FixR(_, _, _)
FixR(f, x, s) ==
  LET r == Ev(<<"e", f, x>>, s)
  IN IF Bad(r[2]) THEN r ELSE IF r[2].fuel <= 0 THEN Oof(x, r[2], "fuel") ELSE IF r[1] = x THEN r ELSE FixR(f, r[1], [r[2] EXCEPT !.fuel = @ - 1])
\* f applied over and over, each time to the value of the time before
RECURSIVE NestR(_, _, _, _), FoldR(_, _, _, _, _)
NestR(f, acc, k, s) ==
  IF k = 0 THEN <<acc, s>>
  ELSE LET r == Ev(<<"e", f, acc[Len(acc)]>>, s)
       IN IF Bad(r[2]) THEN <<<<r[1]>>, r[2]>> ELSE NestR(f, Append(acc, r[1]), k - 1, r[2])
FoldR(f, acc, xs, i, s) ==
  IF i > Len(xs) THEN <<acc, s>>
  ELSE LET r == Ev(<<"e", f, acc[Len(acc)], xs[i]>>, s)
       IN IF Bad(r[2]) THEN <<<<r[1]>>, r[2]>> ELSE FoldR(f, Append(acc, r[1]), xs, i + 1, r[2])
RECURSIVE NestW(_, _, _, _, _, _, _)
NestW(f, test, m, max, vals, i, s) ==   \* vals: the values so far, evaluated
  LET r == Ev(<<"e", f, vals[Len(vals)]>>, s)
      vs == Append(vals, r[1])
      l == Len(vs)
      c == IF Bad(r[2]) THEN r ELSE IF i >= m THEN Ev(<<"e", test>> \o (IF m >= 0 THEN SubSeq(vs, l - m + 1, l) ELSE vs), r[2]) ELSE <<True, r[2]>>
  IN IF Bad(r[2]) THEN <<<<r[1]>>, r[2]>>
     ELSE IF Bad(c[2]) THEN <<vs, Oof(Null, c[2], "throw in nest")[2]>>
     ELSE IF c[2].fuel <= 0 \/ i > 60 THEN <<vs, Oof(Null, c[2], "fuel")[2]>>
     ELSE IF c[1] # True \/ (i > max /\ max # -1) THEN <<vs, c[2]>>
     ELSE NestW(f, test, m, max, vs, i + 1, c[2])
RECURSIVE RepRep(_, _, _)
RepRep(t, r, s) ==
  LET x == Ev(E2("ReplaceAll", t, r), s)
  IN IF Bad(x[2]) THEN x ELSE IF x[2].fuel <= 0 THEN Oof(t, x[2], "fuel") ELSE IF x[1] = t THEN x ELSE RepRep(x[1], r, [x[2] EXCEPT !.fuel = @ - 1])
DotT(t, s) ==
  LET a == t[3]
      b == t[4]
      dot(u, v) == En("Plus", [k \in 1..Len(u) |-> E2("Times", u[k], v[k])])
      col(j) == [k \in 1..N(b) |-> b[k + 2][j + 2]]
  IN IF N(t) = 1 THEN <<t[3], s>>
     ELSE IF N(t) > 2 /\ IsVec(t[N(t) + 2]) /\ \A k \in 1..N(t) - 1 : IsMat(t[k + 2])
     THEN (IF N(t) = 3 /\ N(a[3]) > 0 /\ N(a[3]) = N(b) /\ N(b[3]) > 0 /\ N(b[3]) = N(t[5]) THEN <<E2("Dot", E2("Dot", a, b), t[5]), s>>
           ELSE Oof(t, s, "Dot of several matrices and a vector"))
     ELSE IF N(t) # 2 THEN <<t, s>>
     ELSE IF IsVec(a) /\ IsVec(b) THEN (IF N(a) # N(b) THEN <<t, s>> ELSE <<dot(Args(a), Args(b)), s>>)
     ELSE IF IsMat(a) /\ IsMat(b) /\ N(a[3]) > 0
     THEN (IF N(a[3]) # N(b) THEN <<t, s>>
           ELSE <<Lst([i \in 1..N(a) |-> Lst([j \in 1..N(b[3]) |-> dot(Args(a[i + 2]), col(j))])]), s>>)
     ELSE IF IsMat(a) /\ IsVec(b) /\ N(a[3]) > 0
     THEN (IF N(a[3]) # N(b) THEN Oof(t, s, "Dot matrix vector") ELSE <<Lst([i \in 1..N(a) |-> E2("Dot", a[i + 2], b)]), s>>)
     ELSE IF IsLst(a) \/ IsLst(b) THEN <<t, s>> ELSE <<t, s>>
BiList(h, t, s) ==
  LET n == N(t)
      a == IF n >= 1 THEN t[3] ELSE Null
      b == IF n >= 2 THEN t[4] ELSE Null
  IN
  CASE h = "Length" -> (IF n # 1 THEN <<t, s>> ELSE <<I(IF IsE(a) THEN N(a) ELSE 0), s>>)
    [] h = "Depth" -> (IF n # 1 THEN <<t, s>> ELSE <<I(DepthOf(a)), s>>)
    [] h = "Head" -> (IF n # 1 THEN <<t, s>> ELSE <<HeadOf(a), s>>)
    [] h = "LeafCount" -> (IF n # 1 THEN <<t, s>> ELSE <<I(LeafCnt(a)), s>>)
    [] h = "Reverse" -> (IF n # 1 \/ ~IsE(a) THEN <<t, s>> ELSE <<<<"e", Hd(a)>> \o RevSeq(Args(a)), s>>)
    [] h = "MemberQ" -> (IF n # 2 THEN <<t, s>> ELSE IF ~IsE(a) THEN Tr(FALSE, s)
                         ELSE LET m == MatchIdx(Args(a), b, s) IN IF m = <<-1>> THEN Oof(t, s, "match") ELSE Tr(m # <<>>, s))
    [] h = "Cases" ->
         (IF n # 2 \/ ~IsE(a) THEN <<t, s>>
          ELSE IF HeadN(b, "Rule", 2)
          THEN LET ms == Map1(LAMBDA x : Match(x, b[3], <<>>, s), Args(a))
               IN IF \E i \in 1..Len(ms) : ms[i] # <<>> /\ IsOofB(ms[i][1]) THEN Oof(t, s, "match")
                  ELSE <<Lst(Flat1([i \in 1..Len(ms) |-> IF ms[i] = <<>> THEN <<>> ELSE <<ReplPD(b[4], ms[i][1])>>])), s>>
          ELSE LET m == MatchIdx(Args(a), b, s)
               IN IF m = <<-1>> THEN Oof(t, s, "match") ELSE <<Lst([i \in 1..Len(m) |-> Arg(a, m[i])]), s>>)
    [] h = "DeleteCases" ->
         (IF n # 2 \/ ~IsE(a) THEN <<t, s>>
          ELSE LET m == MatchIdx(Args(a), b, s)
               IN IF m = <<-1>> THEN Oof(t, s, "match")
                  ELSE <<<<"e", Hd(a)>> \o Flat1([i \in 1..N(a) |-> IF i \in Range(m) THEN <<>> ELSE <<Arg(a, i)>>]), s>>)
    [] h = "Union" -> (IF n = 0 THEN <<Lst(<<>>), s>> ELSE IF ~SameHeads(t) THEN <<t, s>>
                       ELSE <<<<"e", Hd(a)>> \o Dedupe(SortO(Flat1([i \in 1..n |-> Args(Arg(t, i))]))), s>>)
    [] h \in {"Complement", "Intersection"} ->
         (IF n = 0 \/ ~SameHeads(t) THEN <<t, s>>
          ELSE LET keep(x) == IF h = "Complement" THEN \A i \in 2..n : ~\E j \in 3..Len(Arg(t, i)) : Arg(t, i)[j] = x
                              ELSE \A i \in 2..n : \E j \in 3..Len(Arg(t, i)) : Arg(t, i)[j] = x
               IN <<<<"e", Hd(a)>> \o SortO(Dedupe(SelectSeq(Args(a), keep))), s>>)
    [] h \in {"PadRight", "PadLeft"} ->
         (IF n \notin {2, 3} \/ ~IsE(a) \/ ~IsInt(b) THEN <<t, s>>
          ELSE IF b[1] = "z" \/ b[2] > 500 THEN Oof(t, s, h)
          ELSE LET x == IF n = 3 THEN t[5] ELSE Z0
                   l == N(a)
                   k == Max2(0, b[2])
               IN <<<<"e", Hd(a)>> \o (IF h = "PadRight" THEN [i \in 1..k |-> IF i <= l THEN Arg(a, i) ELSE x]
                                       ELSE [i \in 1..k |-> IF i + l - k >= 1 THEN Arg(a, i + l - k) ELSE x]), s>>)
    [] h = "Part" -> (IF n = 0 THEN <<t, s>> ELSE LET r == PartOf(a, SubSeq(t, 4, Len(t))) IN <<IF r = OOFT THEN t ELSE r, s>>)
    [] h = "Thread" ->
         (IF n # 1 THEN <<t, s>> ELSE IF ~IsE(a) THEN <<a, s>>
          ELSE <<Thread(a), s>>)
    [] h = "Append" -> (IF n # 2 \/ ~IsE(a) THEN <<t, s>> ELSE <<Append(a, b), s>>)
    [] h = "Prepend" -> (IF n # 2 \/ ~IsE(a) THEN <<t, s>> ELSE <<<<"e", Hd(a), b>> \o Args(a), s>>)
    [] h = "DeleteDuplicates" -> (IF n # 1 \/ ~IsE(a) THEN <<t, s>> ELSE <<<<"e", Hd(a)>> \o Dedupe(Args(a)), s>>)
    [] h = "Select" ->
         (IF n \notin {2, 3} \/ ~IsE(a) THEN <<t, s>>
          ELSE IF n = 3 /\ (~IsInt(t[5]) \/ t[5][2] < 0) THEN <<t, s>>
          ELSE LET r == FoldLeft(LAMBDA acc, x :
                          IF Bad(acc[2]) \/ (n = 3 /\ IsTI(t[5]) /\ Len(acc[1]) >= t[5][2]) THEN acc
                          ELSE LET e == Ev(<<"e", b, x>>, acc[2]) IN TLCEval(<<IF e[1] = True THEN Append(acc[1], x) ELSE acc[1], e[2]>>),
                          <<<<>>, s>>, Args(a))
               IN IF r[2].thr # <<>> THEN Oof(t, r[2], "throw in Select") ELSE <<<<"e", Hd(a)>> \o r[1], r[2]>>)
    [] h = "Join" -> (IF n = 0 THEN <<Lst(<<>>), s>> ELSE IF ~SameHeads(t) THEN <<t, s>>
                      ELSE <<<<"e", Hd(a)>> \o Flat1([i \in 1..n |-> Args(Arg(t, i))]), s>>)
    [] h = "Count" ->
         (IF n # 3 THEN <<t, s>>
          ELSE LET sp == Level(t[5])
               IN IF ~sp.ok THEN <<t, s>>
                  ELSE LET ps == PosIn(a, sp, <<>>) \o (IF InLevel(sp, 0, IF IsE(a) /\ (sp.mind \/ sp.maxd) THEN Depth1(a) ELSE 0) THEN <<<<>>>> ELSE <<>>)
                           m == MatchIdx(Map1(LAMBDA p : PartAt(a, p), ps), b, s)
                       IN IF m = <<-1>> THEN Oof(t, s, "match") ELSE <<I(Len(m)), s>>)
    [] h = "Flatten" ->
         (IF n = 0 \/ ~IsE(a) \/ (n > 1 /\ ~IsLev(b)) THEN <<t, s>>
          ELSE <<<<"e", Hd(a)>> \o FlattenA(Args(a), Hd(a), IF n > 1 THEN LevVal(b) ELSE BIG), s>>)
    [] h \in {"Map", "MapIndexed", "Apply"} ->
         (IF n = 2 THEN (IF ~IsE(b) THEN <<b, s>>
                         ELSE IF h = "Apply" THEN Ev(<<"e", a>> \o Args(b), s)
                         ELSE <<<<"e", Hd(b)>> \o [i \in 1..N(b) |-> LevelFn(h, a, Arg(b, i), <<i>>)], s>>)
          ELSE IF n # 3 THEN <<t, s>>
          ELSE LET sp == Level(t[5]) IN IF ~sp.ok THEN <<t, s>> ELSE <<ApplyLevels(h, a, b, sp), s>>)
    [] h = "FoldList" ->
         (IF n # 3 \/ ~IsE(t[5]) THEN <<t, s>>
          ELSE LET r == FoldR(a, <<b>>, Args(t[5]), 1, s)
               IN IF Bad(r[2]) THEN <<r[1][1], r[2]>> ELSE <<<<"e", Hd(t[5])>> \o r[1], r[2]>>)
    [] h = "NestList" ->
         (IF n # 3 \/ ~IsTI(t[5]) \/ t[5][2] < 0 THEN <<t, s>>
          ELSE IF t[5][2] > 60 THEN Oof(t, s, h)
          ELSE LET r == NestR(a, <<b>>, t[5][2], s)
               IN IF Bad(r[2]) THEN <<r[1][1], r[2]>> ELSE <<Lst(r[1]), r[2]>>)
    [] h = "NestWhileList" ->
         (IF n < 3 \/ n > 6 THEN <<t, s>>
          ELSE LET m == IF n < 4 THEN 1 ELSE IF IsTI(Arg(t, 4)) /\ Arg(t, 4)[2] >= 0 THEN Arg(t, 4)[2] ELSE IF Arg(t, 4) = Sy("All") THEN -1 ELSE -9
                   mx == IF n < 5 THEN -1 ELSE IF IsTI(Arg(t, 5)) /\ Arg(t, 5)[2] >= 0 THEN Arg(t, 5)[2] ELSE IF Arg(t, 5) = Infty \/ (Arg(t, 5)[1] = "z" /\ Arg(t, 5)[2] = 1) THEN -1 ELSE -9
                   extra == IF n = 6 /\ IsTI(Arg(t, 6)) /\ Arg(t, 6)[2] >= 0 THEN Arg(t, 6)[2] ELSE 0
               IN IF m = -9 \/ mx = -9 THEN <<t, s>>
                  ELSE LET r == NestW(a, t[5], m, mx, <<b>>, 2, s)
                           q == IF Bad(r[2]) THEN r ELSE NestR(a, r[1], extra, r[2])
                       IN IF Bad(q[2]) THEN <<IF r[2].oof = "" THEN q[1][1] ELSE t, q[2]>> ELSE <<Lst(q[1]), q[2]>>)
    [] h = "FixedPoint" -> (IF n # 2 THEN <<t, s>> ELSE FixR(a, b, s))
    [] h = "Array" -> (IF n # 2 THEN <<t, s>> ELSE IF ~IsInt(b) THEN <<b, s>>
                       ELSE IF ~IsTI(b) \/ b[2] > MAXIT THEN Oof(t, s, h) ELSE <<Lst([k \in 1..Max2(0, b[2]) |-> <<"e", a, I(k)>>]), s>>)
    [] h = "ReplaceAll" -> (IF n # 2 THEN <<t, s>>
                            ELSE IF HSym(b) \in {"Rule", "RuleDelayed"} /\ N(b) # 2 THEN Oof(t, s, h)
                            ELSE IF HSym(b) \notin {"Rule", "RuleDelayed", "List"} THEN <<a, s>>
                            ELSE RulesReplAll(a, RulesIn(b), s))
    [] h = "ReplaceRepeated" -> (IF n # 2 THEN <<t, s>> ELSE IF RulesIn(b) = <<>> THEN Oof(t, s, h) ELSE RepRep(a, b, s))
    [] h = "Replace" ->
         (IF n # 2 THEN <<t, s>>
          ELSE IF RulesIn(b) = <<>> THEN <<t, s>>
          ELSE LET r == TryRules(a, Map1(LAMBDA q : <<q[3], q[4]>>, RulesIn(b)), s) IN <<r[2], r[3]>>)
    [] h = "ReplaceList" ->
         (IF n # 2 \/ ~HeadN(b, "Rule", 2) THEN <<t, s>>
          ELSE LET m == Match(a, b[3], <<>>, s)
               IN IF \E i \in 1..Len(m) : IsOofB(m[i]) THEN Oof(t, s, "match")
                  ELSE IF Len(m) >= ALL THEN Oof(t, s, "too many")
                  ELSE <<Lst(Map1(LAMBDA q : ReplPD(b[4], q), m)), s>>)
    [] h = "ReplacePart" ->
         (IF n = 2 /\ HeadN(b, "Rule", 2) THEN <<E2("ReplacePart", a, Lst(<<b>>)), s>>
          ELSE IF n # 2 \/ ~HasHead(b, "List") \/ \E i \in 3..Len(b) : ~HasHead(b[i], "Rule") THEN <<t, s>>
          ELSE IF \E i \in 3..Len(b) : ~HeadN(b[i], "Rule", 2) THEN Oof(t, s, h)
          ELSE LET rs == Map1(LAMBDA r : <<IF HasHead(r[3], "List") THEN Args(r[3]) ELSE <<r[3]>>, r[4]>>, Args(b))
                   RECURSIVE go(_, _)
                   go(x, pos) ==
                     LET hit == SelectSeq(rs, LAMBDA r : Match(Lst(Map1(I, pos)), Lst(r[1]), <<>>, s) # <<>>)
                     IN IF pos # <<>> /\ hit # <<>> THEN hit[1][2]
                        ELSE IF ~IsE(x) THEN x
                        ELSE <<"e", Hd(x)>> \o [i \in 1..N(x) |-> go(Arg(x, i), Append(pos, i))]
               IN IF \E i \in 1..Len(rs) : \E j \in 1..Len(rs[i][1]) : IsE(rs[i][1][j]) /\ ~IsBlank(rs[i][1][j]) THEN Oof(t, s, h)
                  ELSE <<go(a, <<>>), s>>)
    [] h = "MatchQ" -> (IF n # 2 THEN <<t, s>> ELSE LET m == MatchB(a, b, s) IN IF m = "oof" THEN Oof(t, s, "match") ELSE Tr(m = "yes", s))
    [] h = "Dimensions" -> (IF n # 1 THEN <<t, s>> ELSE <<Lst(Map1(I, Dims(a))), s>>)
    [] h = "VectorQ" -> (IF n # 1 THEN <<t, s>> ELSE Tr(IsVec(a), s))
    [] h = "MatrixQ" -> (IF n # 1 THEN <<t, s>> ELSE Tr(IsMat(a), s))
    [] h = "Dot" -> (IF n = 0 THEN <<t, s>> ELSE DotT(t, s))
    [] h = "Transpose" ->
         (IF n # 1 THEN <<t, s>>
          ELSE IF ~IsLst(a) \/ Len(Dims(a)) < 2 \/ N(a) = 0 \/ N(a[3]) = 0 THEN (IF IsLst(a) /\ Len(Dims(a)) >= 2 THEN Oof(t, s, h) ELSE <<t, s>>)
          ELSE <<Lst([j \in 1..N(a[3]) |-> Lst([i \in 1..N(a) |-> a[i + 2][j + 2]])]), s>>)
    [] h = "Distribute" ->
         (IF n # 2 THEN <<t, s>> ELSE IF ~IsE(a) THEN <<a, s>>
          ELSE <<<<"e", b>> \o FoldLeft(LAMBDA acc, i :
                   LET x == Arg(a, i)
                       alts == IF IsE(x) /\ Hd(x) = b THEN Args(x) ELSE <<x>>
                   IN TLCEval(Flat1([j \in 1..Len(acc) |-> Map1(LAMBDA y : Append(acc[j], y), alts)])),
                   <<<<"e", Hd(a)>>>>, [i \in 1..N(a) |-> i]), s>>)
    [] h = "StringLength" -> (IF n # 1 \/ ~IsStr(a) THEN <<t, s>> ELSE <<I(Len(a[2])), s>>)
    [] h = "StringJoin" -> (IF \E i \in 3..Len(t) : ~IsStr(t[i]) THEN <<t, s>> ELSE <<Str(FoldLeft(LAMBDA acc, x : acc \o x[2], "", Args(t))), s>>)
    [] h = "StringTake" ->
         (IF n # 2 \/ ~IsStr(a) \/ ~HeadN(b, "List", 2) THEN <<t, s>>
          ELSE IF (b[3][1] = "z" /\ b[3][2] = 1) \/ (b[4][1] = "z" /\ b[4][2] = -1) THEN Oof(t, s, h)
          ELSE IF ~IsTI(b[3]) \/ ~IsTI(b[4]) THEN <<t, s>>
          ELSE LET i == b[3][2]
                   j == b[4][2]
               IN IF i < 1 \/ j > Len(a[2]) THEN <<t, s>> ELSE IF j < i THEN (IF j < i - 1 THEN Oof(t, s, h) ELSE <<Str(""), s>>) ELSE <<Str(SubSeq(a[2], i, j)), s>>)
    [] h = "StringReplace" ->
         (IF n # 2 \/ ~IsStr(a) \/ ~HeadN(b, "Rule", 2) \/ ~IsStr(b[3]) \/ ~IsStr(b[4]) THEN <<t, s>>
          ELSE <<Str(ReplStr(a[2], b[3][2], b[4][2], 1)), s>>)
    [] h = "ToString" ->
         (IF n = 1 /\ IsStr(a) THEN <<a, s>>
          ELSE IF n = 1 /\ IsInt(a) THEN <<Str(ZStr(a)), s>>
          ELSE IF n = 1 /\ IsLst(a) /\ \A i \in 3..Len(a) : IsStr(a[i]) \/ IsInt(a[i])
          THEN LET tx == Map1(LAMBDA x : IF IsStr(x) THEN x[2] ELSE ZStr(x), Args(a))
               IN <<Str("{" \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE ", ") \o tx[i], "", [i \in 1..Len(tx) |-> i]) \o "}"), s>>
          ELSE IF n = 2 /\ b = Sy("InputForm") /\ Printable(a) THEN <<Str(PStr(a, "TOP", <<"Global`", "System`">>)), s>>
          ELSE IF n = 1 THEN Oof(t, s, h) ELSE IF n = 2 /\ IsS(b) THEN Oof(t, s, h) ELSE <<t, s>>)
    [] OTHER -> Oof(t, s, h)

Builtin(h, t, s) ==
  IF h \in BI_NUM THEN BiNum(h, t, s)
  ELSE IF h \in BI_LIST THEN BiList(h, t, s)
  ELSE IF h \in BI_CTRL THEN BiCtrl(h, t, s)
  ELSE IF h = "Default" THEN Oof(t, s, h)
  ELSE BiBool(h, t, s)

FUEL == 6000
Init0 == [def |-> <<>>, thr |-> <<>>, reap |-> FALSE, sown |-> <<>>, out |-> <<>>, fuel |-> FUEL, depth |-> 0, oof |-> "",
          files |-> [x \in {""} |-> <<"src", <<>>>>], seen |-> {}]
\* one input of a session: evaluation, then a pending throw ends the input
TopEval(t, s) ==
  LET r == Ev(t, [s EXCEPT !.fuel = FUEL])
      v == IF r[2].thr # <<>> THEN E1("Hold", r[2].thr[1]) ELSE r[1]
  IN TLCEval(<<v, [r[2] EXCEPT !.thr = <<>>]>>)
=============================================================================
