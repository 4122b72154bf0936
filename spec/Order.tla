-------------------------------- MODULE Order --------------------------------
(* The canonical order of expressions: Ord(a,b) = 1 when a comes first,      *)
(* -1 when b comes first, 0 when they are identical in the order.            *)
EXTENDS Num, SysTab

CHARS == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~éüα日"
ChOrd == [c \in {SubSeq(CHARS, i, i) : i \in 1..Len(CHARS)} |->
            CHOOSE i \in 1..Len(CHARS) : SubSeq(CHARS, i, i) = c]
ChO(c) == IF c \in DOMAIN ChOrd THEN ChOrd[c] ELSE 1000
RECURSIVE StrCmpR(_, _, _)
StrCmpR(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE 1)
  ELSE IF i > Len(b) THEN -1
  ELSE LET x == SubSeq(a, i, i)
           y == SubSeq(b, i, i)
       IN IF x = y THEN StrCmpR(a, b, i + 1) ELSE IF ChO(x) < ChO(y) THEN 1 ELSE -1
StrCmp(a, b) == IF a = b THEN 0 ELSE StrCmpR(a, b, 1)
FullName(n) == IF n \in SysNames THEN "System`" \o n ELSE n
SymCmp(a, b) == IF a = b THEN 0 ELSE StrCmpR(FullName(a), FullName(b), 1)

NumRank(a) == CASE a[1] \in {"i", "z"} -> 0 [] a[1] = "q" -> 1 [] a[1] \in {"f", "fx"} -> 2 [] OTHER -> 3
RECURSIVE NumOrd(_, _)
NumOrd(a, b) ==
  IF a[1] = "c" /\ b[1] = "c"
  THEN LET o == NumOrd(a[2], b[2]) IN IF o # 0 THEN o ELSE NumOrd(a[3], b[3])
  ELSE LET o == QCmp(QOf(Re1(b)), QOf(Re1(a)))
       IN IF o # 0 THEN o
          ELSE IF NumRank(a) < NumRank(b) THEN 1 ELSE IF NumRank(a) > NumRank(b) THEN -1 ELSE 0

Class(t) == IF IsNum(t) THEN 1 ELSE IF t[1] = "t" THEN 2 ELSE IF t[1] = "s" THEN 3 ELSE 4
IsPow(t) == HasHead(t, "Power")
IsTimes(t) == HasHead(t, "Times")
Pow1(t) == E2("Power", t, Z1)
Times1(t) == E2("Times", Z1, t)

\* compared in a common form: the one that had it already comes last
Tie(o, d) == IF o # 0 THEN o ELSE d
RECURSIVE Ord(_, _)
RECURSIVE SeqOrd(_, _, _)
SeqOrd(a, b, i) ==      \* part by part, equally long
  IF i > Len(a) THEN 0
  ELSE LET o == Ord(a[i], b[i]) IN IF o # 0 THEN o ELSE SeqOrd(a, b, i + 1)
RECURSIVE TimesBack(_, _, _, _)
TimesBack(a, b, i, j) == \* factors from the last to the first, skipping pairs of numbers
  IF i < 2 \/ j < 2 THEN 0
  ELSE IF IsNum(a[i]) /\ IsNum(b[j]) THEN TimesBack(a, b, i - 1, j - 1)
  ELSE LET o == Ord(a[i], b[j]) IN IF o # 0 THEN o ELSE TimesBack(a, b, i - 1, j - 1)
RECURSIVE TimesNums(_, _, _)
TimesNums(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN 0
  ELSE IF IsNum(a[i]) /\ IsNum(b[i])
       THEN LET o == Ord(a[i], b[i]) IN IF o # 0 THEN o ELSE TimesNums(a, b, i + 1)
       ELSE TimesNums(a, b, i + 1)
LenOrd(a, b) == IF Len(a) < Len(b) THEN 1 ELSE IF Len(a) > Len(b) THEN -1 ELSE 0
Ord(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumOrd(a, b)
  ELSE IF IsE(a) /\ IsE(b)
  THEN IF ~IsTimes(a) /\ IsTimes(b) THEN Tie(Ord(Times1(a), b), 1)
       ELSE IF IsPow(a) /\ ~IsPow(b) THEN Tie(Ord(a, Pow1(b)), -1)
       ELSE IF ~IsTimes(b) /\ IsTimes(a) THEN Tie(Ord(a, Times1(b)), -1)
       ELSE IF ~IsPow(a) /\ IsPow(b) THEN Tie(Ord(Pow1(a), b), 1)
       ELSE IF IsTimes(a) /\ IsTimes(b)
       THEN LET o == TimesBack(a, b, Len(a), Len(b))
            IN IF o # 0 THEN o
               ELSE LET p == TimesNums(a, b, 2) IN IF p # 0 THEN p ELSE LenOrd(a, b)
       ELSE IF Len(a) # Len(b) THEN LenOrd(a, b) ELSE SeqOrd(a, b, 2)
  ELSE IF IsS(a) /\ IsS(b) THEN SymCmp(a[2], b[2])
  ELSE IF IsStr(a) /\ IsStr(b) THEN StrCmp(a[2], b[2])
  ELSE IF IsS(a) /\ IsE(b)
  THEN (IF IsPow(b) THEN Tie(Ord(Pow1(a), b), 1) ELSE IF IsTimes(b) THEN Tie(Ord(Times1(a), b), 1) ELSE 1)
  ELSE IF IsE(a) /\ IsS(b)
  THEN (IF IsPow(a) THEN Tie(Ord(a, Pow1(b)), -1) ELSE IF IsTimes(a) THEN Tie(Ord(a, Times1(b)), -1) ELSE -1)
  ELSE IF Class(a) < Class(b) THEN 1 ELSE -1

\* insertion into a list sorted by Ord; canonical sorting
RECURSIVE InsR(_, _, _)
InsR(x, seq, i) == IF i = 0 \/ Ord(seq[i], x) >= 0 THEN i ELSE InsR(x, seq, i - 1)
Insert1(seq, x) == LET i == InsR(x, seq, Len(seq))
                   IN TLCEval(SubSeq(seq, 1, i) \o <<x>> \o SubSeq(seq, i + 1, Len(seq)))
SortO(seq) == IF Len(seq) < 2 THEN seq ELSE FoldLeft(Insert1, <<>>, seq)
=============================================================================
