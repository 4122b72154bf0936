-------------------------------- MODULE Print --------------------------------
(* The InputForm text of expressions, with the parentheses the operator      *)
(* levels require. cx = names printed without context.                        *)
EXTENDS Order

RECURSIVE IStr(_)
IStr(n) == IF n < 0 THEN "-" \o IStr(-n) ELSE IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1)
           ELSE IStr(n \div 10) \o SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1)
Pad4(n) == IF n < 10 THEN "000" \o IStr(n) ELSE IF n < 100 THEN "00" \o IStr(n)
           ELSE IF n < 1000 THEN "0" \o IStr(n) ELSE IStr(n)
RECURSIVE LimbStr(_, _)
LimbStr(m, i) == IF i = 0 THEN "" ELSE Pad4(m[i]) \o LimbStr(m, i - 1)
ZStr(a) == IF a[1] = "i" THEN IStr(a[2])
           ELSE (IF a[2] < 0 THEN "-" ELSE "") \o IStr(a[3][Len(a[3])]) \o LimbStr(a[3], Len(a[3]) - 1)

\* the levels of the operators in the grammar
Prec == [Alternatives |-> 16, And |-> 25, Apply |-> 64, CompoundExpression |-> 1, Condition |-> 13,
  Dot |-> 51, Equal |-> 30, Factorial |-> 26, Function |-> 9, Greater |-> 30, GreaterEqual |-> 30,
  Less |-> 30, LessEqual |-> 30, Map |-> 64, Not |-> 26, Or |-> 23, PatternTest |-> 71, Plus |-> 34,
  Power |-> 59, ReplaceAll |-> 11, ReplaceRepeated |-> 11, Rule |-> 12, RuleDelayed |-> 12,
  SameQ |-> 29, Set |-> 3, SetDelayed |-> 3, Span |-> 31, StringJoin |-> 60, Times |-> 42,
  Unequal |-> 30, UnsameQ |-> 29]
NeedsPar(h, prev) ==
  IF prev = "TOP" THEN FALSE
  ELSE ~(prev \in DOMAIN Prec /\ h \in DOMAIN Prec /\ Prec[prev] < Prec[h])
Infix1 == [Set |-> " = ", SetDelayed |-> " := ", Rule |-> " -> ", RuleDelayed |-> " :> ",
  Equal |-> " == ", Unequal |-> " != ", SameQ |-> " === ", UnsameQ |-> " =!= "]
\* printed without own level: always in parentheses below the top
Infix0 == [And |-> " && ", Or |-> " || ", StringJoin |-> " <> "]
\* each argument in parentheses
InfixS == [Less |-> " < ", Greater |-> " > ", LessEqual |-> " <= ", GreaterEqual |-> " >= ",
  ReplaceAll |-> " /. ", ReplaceRepeated |-> " //. "]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE StripCtx(_, _)
StripCtx(n, cxs) == IF cxs = <<>> THEN n
                    ELSE IF /\ StartsWith(n, cxs[1])
                            /\ \A i \in (Len(cxs[1]) + 1)..Len(n) : SubSeq(n, i, i) # "`"
                         THEN SubSeq(n, Len(cxs[1]) + 1, Len(n))
                    ELSE StripCtx(n, Tail(cxs))
\* the characters that end a string, or start an escape in one, written as read
RECURSIVE Escape(_)
Escape(x) == IF x = "" THEN ""
             ELSE LET c == SubSeq(x, 1, 1)
                  IN (IF c = "\\" THEN "\\\\" ELSE IF c = "\"" THEN "\\\"" ELSE c) \o Escape(SubSeq(x, 2, Len(x)))
\* printable exactly by PStr below
RECURSIVE Printable(_)
Printable(t) ==
  CASE t[1] \in {"s", "i", "z", "q", "t"} -> TRUE
    [] t[1] = "c" -> Printable(t[2]) /\ Printable(t[3])
    [] t[1] = "e" -> /\ HSym(t) \notin {"Infix", "Definition", "Part",
                                        "Log", "Sin", "Cos", "Tan", "InputForm", "FullForm", "TraditionalForm",
                                        "TeXForm", "StandardForm", "OutputForm", "Association"}
                     /\ \A i \in 2..Len(t) : Printable(t[i])
    [] OTHER -> FALSE
RECURSIVE PStr(_, _, _)
RECURSIVE Joined(_, _, _, _, _)
Joined(args, sep, prev, par, cxs) ==
  IF args = <<>> THEN ""
  ELSE LET x == PStr(args[1], prev, cxs)
           y == IF par \/ (sep = " <> " /\ args[1][1] \in {"i", "z"} /\ args[1][2] < 0) THEN "(" \o x \o ")" ELSE x
       IN IF Len(args) = 1 THEN y ELSE y \o sep \o Joined(Tail(args), sep, prev, par, cxs)
RECURSIVE PlusJ(_, _)
PlusJ(args, cxs) ==
  IF args = <<>> THEN ""
  ELSE LET x == PStr(args[1], "Plus", cxs)
       IN (IF SubSeq(x, 1, 1) = "-" THEN " - " \o SubSeq(x, 2, Len(x)) ELSE " + " \o x) \o PlusJ(Tail(args), cxs)
Wrap(x, p) == IF p THEN "(" \o x \o ")" ELSE x
Head0(t, cxs) == LET x == PStr(t, "", cxs) IN IF t[1] \in {"i", "z"} /\ SubSeq(x, 1, 1) = "-" THEN Wrap(x, TRUE) ELSE x
Default(t, prev, cxs) == Head0(Hd(t), cxs) \o "[" \o Joined(Args(t), ", ", "TOP", FALSE, cxs) \o "]"
OptShort(t) == LET b == IF t[1] = "e" /\ HSym(t) = "Pattern" /\ N(t) = 2 /\ t[3][1] = "s" THEN t[4] ELSE t
               IN b[1] = "e" /\ HSym(b) = "Blank" /\ N(b) = 0
IsBlankH(t) == HSym(t) \in {"Blank", "BlankSequence", "BlankNullSequence"}
\* complex numbers are printed as the sums and products they are read from
CplxEx(t) == LET im == IF t[3] = Z1 THEN Sy("I") ELSE E2("Times", t[3], Sy("I"))
             IN IF t[2] = Z0 THEN im ELSE E2("Plus", t[2], im)
\* <<numerator, denominator>> of a factor, each of them possibly empty
SplitF(x) == IF HasHead(x, "Power") /\ N(x) = 2 /\ x[4] = I(-1) THEN <<<<>>, <<x[3]>>>>
             ELSE IF x[1] = "q" THEN <<IF x[2] = Z1 THEN <<>> ELSE <<x[2]>>, <<x[3]>>>>
             ELSE <<<<x>>, <<>>>>
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o CatAll(Tail(ss))
IsSum(xs) == Len(xs) >= 2 /\ HasHead(xs[2], "Plus")
TimesStr(t, prev, cxs) ==
  LET fs == CatAll([i \in 1..N(t) |-> IF t[i + 2][1] = "c" /\ HasHead(CplxEx(t[i + 2]), "Times") THEN Args(CplxEx(t[i + 2])) ELSE <<t[i + 2]>>])
      nums == CatAll([i \in 1..Len(fs) |-> SplitF(fs[i])[1]])
      dens == CatAll([i \in 1..Len(fs) |-> SplitF(fs[i])[2]])
      Infix(xs) == IF Len(xs) = 1 THEN PStr(xs[1], prev, cxs) ELSE Wrap(Joined(xs, "*", "Times", FALSE, cxs), NeedsPar("Times", prev))
  IN IF dens # <<>>
     THEN IF nums = <<>> THEN Default(t, prev, cxs)
          ELSE LET ns == Infix(nums)
                   neg == StartsWith(ns, "-1*")
                   body == "(" \o (IF neg THEN SubSeq(ns, 4, Len(ns)) ELSE ns) \o ")/(" \o Infix(dens) \o ")"
               IN Wrap((IF neg THEN "-" ELSE "") \o Wrap(body, neg /\ IsSum(nums)), NeedsPar("Times", prev))
     ELSE IF Len(nums) < 2 THEN Default(t, prev, cxs)
     ELSE LET ns == Infix(nums)
          IN IF ~StartsWith(ns, "-1*") THEN ns
             ELSE "-" \o Wrap(SubSeq(ns, 4, Len(ns)), Len(nums) > 2 /\ IsSum(nums))
PowerStr(t, prev, cxs) ==
  IF N(t) # 2 THEN Default(t, prev, cxs)
  ELSE LET b == PStr(t[3], "TOP", cxs)
       IN IF t[4] = <<"q", I(1), I(2)>> THEN "Sqrt[" \o b \o "]"
          ELSE IF t[4] = <<"q", I(-1), I(2)>> THEN "(1/Sqrt[" \o b \o "])"
          ELSE IF t[4] = I(-1) THEN "(1/(" \o b \o "))"
          ELSE Wrap(Wrap(PStr(t[3], "Power", cxs), t[3][1] \in {"i", "z"} /\ t[3][2] < 0) \o "^" \o PStr(t[4], "Power", cxs), NeedsPar("Power", prev))
PStr(t, prev, cxs) ==
  CASE t[1] = "s" -> StripCtx(t[2], cxs)
    [] t[1] \in {"i", "z"} -> ZStr(t)
    [] t[1] = "q" -> Wrap(ZStr(t[2]) \o "/" \o ZStr(t[3]), NeedsPar("Times", prev))
    [] t[1] = "c" -> PStr(CplxEx(t), prev, cxs)
    [] t[1] = "t" -> "\"" \o Escape(t[2]) \o "\""
    [] t[1] = "e" ->
       LET h == HSym(t)
           n == N(t)
       IN CASE h = "List" -> "{" \o Joined(Args(t), ", ", "TOP", FALSE, cxs) \o "}"
            [] IsBlankH(t) /\ (IF n = 1 THEN t[3][1] = "s" ELSE n = 0) ->
                 (IF h = "Blank" THEN "_" ELSE IF h = "BlankSequence" THEN "__" ELSE "___")
                 \o (IF n = 1 THEN PStr(t[3], prev, cxs) ELSE "")
            [] h = "Pattern" /\ n = 2 /\ t[3][1] = "s" ->
                 LET name == PStr(t[3], "TOP", cxs)
                     pat  == PStr(t[4], "TOP", cxs)
                 IN IF IsBlankH(t[4]) /\ SubSeq(pat, 1, 1) = "_" THEN name \o pat
                    ELSE Wrap("(" \o name \o ") : (" \o pat \o ")", prev # "TOP")
            [] h = "Optional" /\ n = 1 /\ OptShort(t[3]) -> PStr(t[3], prev, cxs) \o "."
            [] h = "HoldForm" /\ n = 1 -> PStr(t[3], prev, cxs)
            [] h \in DOMAIN Infix1 /\ n >= 2 /\ (n = 2 \/ h \notin {"Set", "SetDelayed", "Rule", "RuleDelayed"}) ->
                 Wrap(Joined(Args(t), Infix1[h], h, FALSE, cxs), NeedsPar(h, prev))
            [] h \in DOMAIN Infix0 /\ n >= 2 ->
                 Wrap(Joined(Args(t), Infix0[h], "", FALSE, cxs), prev # "TOP")
            [] h \in DOMAIN InfixS /\ n >= 2 /\ (n = 2 \/ h \notin {"ReplaceAll", "ReplaceRepeated"}) ->
                 Wrap(Joined(Args(t), InfixS[h], "", TRUE, cxs), prev # "TOP")
            [] h = "Plus" /\ n >= 2 ->
                 Wrap(PStr(t[3], "Plus", cxs) \o PlusJ(SubSeq(t, 4, Len(t)), cxs), NeedsPar("Plus", prev))
            [] h = "Times" -> TimesStr(t, prev, cxs)
            [] h = "Power" -> PowerStr(t, prev, cxs)
            [] OTHER -> Default(t, prev, cxs)
    [] OTHER -> "?"
=============================================================================
