-------------------------------- MODULE Terms --------------------------------
(* Expressions of the language as tagged tuples:                             *)
(*   <<"s",name>>  symbol (System names bare, others with their context)     *)
(*   <<"i",n>>     integer, |n| < 2^30        <<"z",sg,limbs>> bigger ones    *)
(*   <<"q",n,d>>   rational in lowest terms   <<"f",n,d>> exact dyadic real   *)
(*   <<"t",str>>   string                     <<"c",re,im>> complex           *)
(*   <<"e",h,a1,..,an>> compound expression                                  *)
(*   <<"fx",text>> a real outside of the exact fragment                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Sy(n) == <<"s", n>>
I(n) == <<"i", n>>
Str(x) == <<"t", x>>
E0(h) == <<"e", Sy(h)>>
E1(h, a) == <<"e", Sy(h), a>>
E2(h, a, b) == <<"e", Sy(h), a, b>>
E3(h, a, b, c) == <<"e", Sy(h), a, b, c>>
En(h, args) == <<"e", Sy(h)>> \o args
Lst(args) == En("List", args)
Null == Sy("Null")
True == Sy("True")
False == Sy("False")
Bool(b) == IF b THEN True ELSE False

IsE(t) == t[1] = "e"
IsS(t) == t[1] = "s"
IsStr(t) == t[1] = "t"
IsInt(t) == t[1] \in {"i", "z"}
IsNum(t) == t[1] \in {"i", "z", "q", "f", "fx", "c"}
IsReal(t) == t[1] \in {"i", "z", "q", "f", "fx"}
IsExact(t) == t[1] \in {"i", "z", "q"}
\* head of a compound expression, number of arguments, arguments
Hd(t) == t[2]
N(t) == Len(t) - 2
Arg(t, i) == t[i + 2]
Args(t) == SubSeq(t, 3, Len(t))
HasHead(t, h) == t[1] = "e" /\ t[2] = <<"s", h>>
HeadN(t, h, n) == t[1] = "e" /\ Len(t) = n + 2 /\ t[2] = <<"s", h>>
HSym(t) == IF t[1] = "e" /\ t[2][1] = "s" THEN t[2][2] ELSE ""
\* the head every expression has
HeadOf(t) ==
  CASE t[1] = "e" -> t[2]
    [] t[1] = "s" -> Sy("Symbol")
    [] t[1] \in {"i", "z"} -> Sy("Integer")
    [] t[1] = "q" -> Sy("Rational")
    [] t[1] \in {"f", "fx"} -> Sy("Real")
    [] t[1] = "t" -> Sy("String")
    [] t[1] = "c" -> Sy("Complex")

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
Map1(F(_), seq) == [i \in 1..Len(seq) |-> F(seq[i])]
RemoveAt1(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
RECURSIVE Flat1(_)
Flat1(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

RECURSIVE Symbols(_)
Symbols(t) ==
  IF t[1] = "s" THEN {t[2]}
  ELSE IF t[1] = "e" THEN UNION {Symbols(t[i]) : i \in 2..Len(t)} ELSE {}
RECURSIVE Size(_)
Size(t) == IF t[1] = "e" THEN 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, Tail(t)) ELSE 1
RECURSIVE HasTag(_, _)
HasTag(t, g) == t[1] = g \/ (t[1] = "e" /\ \E i \in 2..Len(t) : HasTag(t[i], g))
=============================================================================
