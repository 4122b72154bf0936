-------------------------------- MODULE Parser --------------------------------
(* Source text of the language: the tokens, the operator table with its      *)
(* levels and associativity, and the expression a text denotes.              *)
(* Read(text) is <<"ok", term>>, <<"err">> for a text that is no expression, *)
(* or <<"oof">> for tokens that are left out (reals, messages, ...).         *)
(* Names are not resolved here: a bare name stands for itself.               *)
EXTENDS Terms

(* ---------------------------------------------------------------- tokens *)
\* longest first
OPS3 == {"===", "=!=", "//.", "//@", "@@@", ">>>", "...", "^:="}
OPS2 == {"!=", "&&", "**", "*=", "++", "+=", "--", "-=", "->", "..", "/*", "/.", "//", "/:", "/;", "/=", "/@",
         "::", ":=", ":>", ";;", "<<", "<=", "<>", "==", ">=", ">>", "@*", "@@", "[[", "^=", "||", "~~"}
OPS1 == {"!", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "]",
         "^", "{", "}", "|", "~"}
LETTERS == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","$"}
DIGITS == {"0","1","2","3","4","5","6","7","8","9"}
DVal(c) == CHOOSE d \in 0..9 : SubSeq("0123456789", d + 1, d + 1) = c
Ch(x, i) == IF i >= 1 /\ i <= Len(x) THEN SubSeq(x, i, i) ELSE ""
IsWs(c) == c \in {" ", "\t", "\r"}
RECURSIVE Run(_, _, _)       \* the first position from i on that is not in set
Run(x, i, set) == IF Ch(x, i) \in set THEN Run(x, i + 1, set) ELSE i
\* a number of any size from its digits
RECURSIVE DigVal(_)
DigVal(ds) == IF ds = "" THEN 0 ELSE 10 * DigVal(SubSeq(ds, 1, Len(ds) - 1)) + DVal(Ch(ds, Len(ds)))
RECURSIVE Limbs4(_)
Limbs4(ds) == IF Len(ds) <= 4 THEN <<DigVal(ds)>>
              ELSE <<DigVal(SubSeq(ds, Len(ds) - 3, Len(ds)))>> \o Limbs4(SubSeq(ds, 1, Len(ds) - 4))
RECURSIVE NoZeros(_)
NoZeros(ds) == IF Len(ds) > 1 /\ Ch(ds, 1) = "0" THEN NoZeros(SubSeq(ds, 2, Len(ds))) ELSE ds
NumOf(ds0) == LET ds == NoZeros(ds0)
              IN IF Len(ds) <= 9 THEN I(DigVal(ds))
                 ELSE IF Len(ds) = 10 /\ LET l == Limbs4(ds) IN l[3] * 10000 + l[2] < 107374 \/ (l[3] * 10000 + l[2] = 107374 /\ l[1] < 1824)
                      THEN I(Limbs4(ds)[3] * 100000000 + Limbs4(ds)[2] * 10000 + Limbs4(ds)[1])
                 ELSE <<"z", 1, Limbs4(ds)>>
\* reals that are exact: n / 2^k
RECURSIVE Halve(_, _, _)
Halve(n, d, k) == IF k = 0 THEN <<n, d>> ELSE IF n % 2 = 0 /\ d % 2 = 0 THEN Halve(n \div 2, d \div 2, k - 1) ELSE <<n, d>>
RealOf(is, fs) ==
  LET n == DigVal(is \o fs)
      five == <<1, 5, 25, 125, 625>>[Len(fs) + 1]
      h == Halve(n \div five, 2^Len(fs), Len(fs))
  IN IF Len(is) + Len(fs) > 8 \/ Len(fs) > 4 THEN <<"oof">>
     ELSE IF n % five # 0 THEN <<"oof">> ELSE <<"f", I(h[1]), I(h[2])>>
NegNum0(t) == I(-t[2])
NegNum(t) == IF t[1] = "i" THEN I(-t[2]) ELSE IF t[1] = "f" THEN <<"f", NegNum0(t[2]), t[3]>> ELSE <<"z", -t[2], t[3]>>
\* the position after the closing of a comment
RECURSIVE AfterComment(_, _, _)
AfterComment(x, i, d) ==
  IF i > Len(x) THEN i
  ELSE IF Ch(x, i) = "(" /\ Ch(x, i + 1) = "*" THEN AfterComment(x, i + 2, d + 1)
  ELSE IF Ch(x, i) = "*" /\ Ch(x, i + 1) = ")" THEN (IF d = 1 THEN i + 2 ELSE AfterComment(x, i + 2, d - 1))
  ELSE AfterComment(x, i + 1, d)
\* <<contents, position after the closing quote>>
RECURSIVE StrLit(_, _, _)
StrLit(x, i, acc) ==
  LET c == Ch(x, i) d == Ch(x, i + 1)
  IN IF c = "" THEN <<acc, 0>>
     ELSE IF c = "\"" THEN <<acc, i + 1>>
     ELSE IF c = "\\" /\ d \in {"\\", "\"", " "} THEN StrLit(x, i + 2, acc \o d)
     ELSE IF c = "\\" /\ d = "n" THEN StrLit(x, i + 2, acc \o "\n")
     ELSE IF c = "\\" /\ d = "t" THEN StrLit(x, i + 2, acc \o "\t")
     ELSE StrLit(x, i + 1, acc \o c)
Blanks == <<"Blank", "BlankSequence", "BlankNullSequence">>
PatTerm(nm, k, hd, opt) ==
  LET b == IF hd = "" THEN E0(Blanks[k]) ELSE E1(Blanks[k], Sy(hd))
      q == IF nm = "" THEN b ELSE E2("Pattern", Sy(nm), b)
  IN IF opt THEN E1("Optional", q) ELSE q
Top(stk) == IF stk = <<>> THEN "" ELSE stk[Len(stk)]
PopS(stk) == IF stk = <<>> THEN <<>> ELSE SubSeq(stk, 1, Len(stk) - 1)
AlNum == LETTERS \cup DIGITS
RECURSIVE Lex(_, _, _, _)    \* text, position, open brackets, tokens so far
Lex(x, i, stk, acc) ==
  LET c == Ch(x, i)
      c2 == SubSeq(x, i, Min2(i + 1, Len(x)))
      c3 == SubSeq(x, i, Min2(i + 2, Len(x)))
      Tk(tok, j) == Lex(x, j, stk, Append(acc, tok))
  IN IF c = "" THEN acc
     ELSE IF IsWs(c) THEN Lex(x, i + 1, stk, acc)
     ELSE IF c2 = "(*" THEN Lex(x, AfterComment(x, i + 2, 1), stk, acc)
     ELSE IF c = "\"" THEN LET r == StrLit(x, i + 1, "") IN IF r[2] = 0 THEN <<<<"oof">>>> ELSE Tk(<<"lit", Str(r[1])>>, r[2])
     ELSE IF c \in LETTERS \/ c = "_" THEN
       LET j == Run(x, i, AlNum)
           k == Run(x, j, {"_"}) - j
       IN IF k > 3 THEN <<<<"oof">>>>
          ELSE IF k > 0 THEN
            LET m == IF Ch(x, j + k) \in LETTERS THEN Run(x, j + k, AlNum) ELSE j + k
                opt == Ch(x, m) = "."
            IN IF opt /\ (k > 1 \/ m > j + k) THEN <<<<"oof">>>>
               ELSE IF Ch(x, m) \in {"`", "_"} THEN <<<<"oof">>>>
               ELSE Tk(<<"lit", PatTerm(SubSeq(x, i, j - 1), k, SubSeq(x, j + k, m - 1), opt)>>, IF opt THEN m + 1 ELSE m)
          ELSE IF Ch(x, j) = "`" THEN
            LET m == Run(x, j, AlNum \cup {"`"})
                nm == SubSeq(x, i, m - 1)
                u == Run(x, m, {"_"}) - m
                e == IF u > 0 /\ Ch(x, m + u) \in LETTERS THEN Run(x, m + u, AlNum) ELSE m + u
            IN IF u > 0 THEN (IF u > 3 \/ Ch(x, e) \in {".", "`", "_"} THEN <<<<"oof">>>> ELSE Tk(<<"lit", PatTerm(nm, u, SubSeq(x, m + u, e - 1), FALSE)>>, e))
               ELSE Tk(<<"lit", Sy(IF SubSeq(nm, 1, Min2(7, Len(nm))) \in {"System`", "Global`"} THEN SubSeq(nm, 8, Len(nm)) ELSE nm)>>, m)
          ELSE Tk(<<"lit", Sy(SubSeq(x, i, j - 1))>>, j)
     ELSE IF c \in DIGITS THEN
       LET j == Run(x, i, DIGITS)
           m == Run(x, j + 1, DIGITS)
       IN IF Ch(x, j) = "." /\ Ch(x, m) # "`" /\ SubSeq(x, m, Min2(m + 1, Len(x))) # "*^" THEN
            LET r == RealOf(SubSeq(x, i, j - 1), SubSeq(x, j + 1, m - 1)) IN IF r = <<"oof">> THEN <<r>> ELSE Tk(<<"lit", r>>, m)
          ELSE IF Ch(x, j) \in {".", "`"} \/ SubSeq(x, j, Min2(j + 1, Len(x))) \in {"^^", "*^"} THEN <<<<"oof">>>>
          ELSE Tk(<<"lit", NumOf(SubSeq(x, i, j - 1))>>, j)
     ELSE IF c = "." /\ Ch(x, i + 1) \in DIGITS THEN
       LET m == Run(x, i + 1, DIGITS)
           r == RealOf("", SubSeq(x, i + 1, m - 1))
       IN IF r = <<"oof">> \/ Ch(x, m) \in {"`", "*"} THEN <<<<"oof">>>> ELSE Tk(<<"lit", r>>, m)
     ELSE IF c = "#" THEN
       LET j == Run(x, i + 1, DIGITS)
       IN IF Ch(x, j) \in LETTERS \cup {"#"} THEN <<<<"oof">>>>
          ELSE Tk(<<"lit", E1("Slot", IF j = i + 1 THEN I(1) ELSE NumOf(SubSeq(x, i + 1, j - 1)))>>, j)
     ELSE IF c = "%" THEN
       LET j == Run(x, i, {"%"})
           m == Run(x, j, DIGITS)
       IN IF m > j THEN (IF j = i + 1 THEN Tk(<<"lit", E1("Out", NumOf(SubSeq(x, j, m - 1)))>>, m) ELSE <<<<"oof">>>>)
          ELSE Tk(<<"lit", E1("Out", E2("Plus", Sy("$Line"), I(-(j - i))))>>, j)
     ELSE IF c3 \in OPS3 THEN Tk(<<"op", c3>>, i + 3)
     ELSE IF c2 = "]]" THEN
       (IF Top(stk) = "[[" THEN Lex(x, i + 2, PopS(stk), Append(acc, <<"op", "]]">>))
        ELSE Lex(x, i + 1, PopS(stk), Append(acc, <<"op", "]">>)))
     ELSE IF c2 = "[[" THEN Lex(x, i + 2, Append(stk, "[["), Append(acc, <<"op", "[[">>))
     ELSE IF c2 \in OPS2 THEN Tk(<<"op", c2>>, i + 2)
     ELSE IF c \in {"(", "[", "{"} THEN Lex(x, i + 1, Append(stk, c), Append(acc, <<"op", c>>))
     ELSE IF c \in {")", "]", "}"} THEN Lex(x, i + 1, PopS(stk), Append(acc, <<"op", c>>))
     ELSE IF c \in OPS1 THEN Tk(<<"op", c>>, i + 1)
     ELSE <<<<"oof">>>>

(* --------------------------------------------------------- operator table *)
(* level (tighter operators have higher ones) and associativity              *)
BIN == (";" :> <<1, "l">>) @@ ("=" :> <<3, "r">>) @@ (":=" :> <<3, "r">>) @@ ("/:" :> <<3, "r">>)
  @@ ("//" :> <<5, "l">>) @@ ("+=" :> <<8, "r">>) @@ ("-=" :> <<8, "r">>)
  @@ ("/." :> <<9, "l">>) @@ ("//." :> <<9, "l">>) @@ ("->" :> <<10, "r">>) @@ (":>" :> <<10, "r">>)
  @@ ("/;" :> <<11, "l">>) @@ (":" :> <<13, "l">>) @@ ("|" :> <<14, "l">>)
  @@ ("||" :> <<20, "l">>) @@ ("&&" :> <<22, "l">>)
  @@ ("===" :> <<26, "l">>) @@ ("=!=" :> <<26, "l">>)
  @@ ("==" :> <<27, "l">>) @@ ("!=" :> <<27, "l">>) @@ ("<" :> <<27, "l">>) @@ ("<=" :> <<27, "l">>)
  @@ (">" :> <<27, "l">>) @@ (">=" :> <<27, "l">>) @@ (";;" :> <<28, "l">>)
  @@ ("+" :> <<32, "l">>) @@ ("-" :> <<32, "l">>) @@ ("*" :> <<40, "l">>) @@ ("/" :> <<45, "l">>)
  @@ ("." :> <<48, "l">>) @@ ("^" :> <<56, "r">>) @@ ("<>" :> <<58, "l">>)
  @@ ("/@" :> <<64, "r">>) @@ ("@@" :> <<64, "r">>) @@ ("@@@" :> <<64, "r">>)
  @@ ("@" :> <<70, "r">>) @@ ("?" :> <<90, "l">>)
POST == ("&" :> 7) @@ ("!" :> 62) @@ ("'" :> 60) @@ ("++" :> 80) @@ ("--" :> 80)
PRE == ("!" :> 23) @@ ("-" :> 46) @@ ("+" :> 46) @@ ("++" :> 75) @@ ("--" :> 75)
CALL == 85
MUL == 40
Nary == (";" :> "CompoundExpression") @@ ("+" :> "Plus") @@ ("*" :> "Times") @@ ("==" :> "Equal") @@ ("!=" :> "Unequal")
  @@ ("===" :> "SameQ") @@ ("=!=" :> "UnsameQ") @@ ("<>" :> "StringJoin") @@ ("<" :> "Less") @@ ("<=" :> "LessEqual")
  @@ (">" :> "Greater") @@ (">=" :> "GreaterEqual") @@ ("||" :> "Or") @@ ("&&" :> "And") @@ ("." :> "Dot")
  @@ ("|" :> "Alternatives") @@ (";;" :> "Span")
Binary == ("=" :> "Set") @@ (":=" :> "SetDelayed") @@ ("//." :> "ReplaceRepeated") @@ ("/." :> "ReplaceAll")
  @@ ("->" :> "Rule") @@ (":>" :> "RuleDelayed") @@ ("^" :> "Power") @@ ("?" :> "PatternTest") @@ ("/;" :> "Condition")
  @@ ("@@" :> "Apply") @@ ("/@" :> "Map") @@ ("+=" :> "AddTo") @@ ("-=" :> "SubtractFrom")
Chain == {"Equal", "Unequal", "Less", "LessEqual", "Greater", "GreaterEqual"}

(* A parsed part: its term, how it was written ("op": by an operator, so that
   a further operator of the same kind extends it; "lit", "call", "par"), and
   the position of the next token.                                            *)
Bad == [t |-> <<"err">>, k |-> "err", i |-> 0]
Part3(t, k, i) == [t |-> t, k |-> k, i |-> i]
Inv(t) == E2("Power", t, I(-1))
Extend(h, l, r) == IF l.k = "op" /\ HasHead(l.t, h) THEN Append(l.t, r) ELSE E2(h, l.t, r)
\* a < b == c  is one chain of different relations
RECURSIVE ChainArgs(_, _)
ChainArgs(h, as) == IF Len(as) = 1 THEN as ELSE <<as[1], Sy(h)>> \o ChainArgs(h, Tail(as))
ChainTerm(h, l, r) ==
  IF l.k = "op" /\ HasHead(l.t, "Inequality") THEN l.t \o <<Sy(h), r>>
  ELSE IF l.k = "op" /\ HSym(l.t) \in Chain \ {h} THEN En("Inequality", ChainArgs(HSym(l.t), Args(l.t))) \o <<Sy(h), r>>
  ELSE Extend(h, l, r)
Apply2(o, l, r) ==     \* the term of  l o r, or <<"err">>
  IF o \in DOMAIN Nary THEN (IF Nary[o] \in Chain THEN ChainTerm(Nary[o], l, r.t) ELSE Extend(Nary[o], l, r.t))
  ELSE IF o \in DOMAIN Binary THEN E2(Binary[o], l.t, r.t)
  ELSE CASE o = "-" -> Extend("Plus", l, E2("Times", r.t, I(-1)))
         [] o = "/" -> E2("Times", l.t, Inv(r.t))
         [] o = "//" -> <<"e", r.t, l.t>>
         [] o = "@" -> <<"e", l.t, r.t>>
         [] o = "@@@" -> E3("Apply", l.t, r.t, Lst(<<I(1)>>))
         [] o = ":" -> E2(IF HasHead(l.t, "Pattern") THEN "Optional" ELSE "Pattern", l.t, r.t)
         [] o = "/:" -> IF r.k = "op" /\ HSym(r.t) \in {"Set", "SetDelayed"}
                        THEN E3(IF HSym(r.t) = "Set" THEN "TagSet" ELSE "TagSetDelayed", l.t, r.t[3], r.t[4]) ELSE <<"err">>
         [] OTHER -> <<"oof">>
KindOf(o) == IF o \in {"@", "//"} THEN "call" ELSE "op"
ApplyPost(o, l) ==
  CASE o = "&" -> E1("Function", l.t)
    [] o = "!" -> E1("Factorial", l.t)
    [] o = "'" -> <<"e", E1("Derivative", I(1)), l.t>>
    [] o = "++" -> E1("Increment", l.t)
    [] o = "--" -> E1("Decrement", l.t)
ApplyPre(o, r) ==
  CASE o = "-" -> IF IsInt(r.t) \/ r.t[1] = "f" THEN NegNum(r.t) ELSE E2("Times", r.t, I(-1))
    [] o = "+" -> E1("Plus", r.t)
    [] o = "!" -> E1("Not", r.t)
    [] o = "++" -> E1("PreIncrement", r.t)
    [] o = "--" -> E1("PreDecrement", r.t)

Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE <<"end", "">>
IsOp(ts, i, o) == Tok(ts, i) = <<"op", o>>
\* tokens an operand begins with that no infix or postfix operator is written with
Starts(tk) == tk[1] = "lit" \/ (tk[1] = "op" /\ tk[2] \in {"(", "{"})
CanBegin(tk) == Starts(tk) \/ (tk[1] = "op" /\ tk[2] \in DOMAIN PRE)
RECURSIVE Expr(_, _, _)
RECURSIVE Loop(_, _, _)
RECURSIVE ListOf(_, _, _, _)
\* a comma separated list up to the closing token cl: <<terms, position after it>>
ListOf(ts, i, cl, acc) ==
  LET x == Expr(ts, i, 0)
  IN IF x.k = "err" THEN <<<<>>, 0>>
     ELSE IF IsOp(ts, x.i, cl) THEN <<Append(acc, x.t), x.i + 1>>
     ELSE IF IsOp(ts, x.i, ",") THEN ListOf(ts, x.i + 1, cl, Append(acc, x.t))
     ELSE <<<<>>, 0>>
Primary(ts, i) ==
  LET tk == Tok(ts, i)
  IN IF tk[1] = "lit" THEN Part3(tk[2], "lit", i + 1)
     ELSE IF tk[1] = "end" THEN Bad
     ELSE IF tk[2] = "(" THEN LET x == Expr(ts, i + 1, 0) IN IF x.k # "err" /\ IsOp(ts, x.i, ")") THEN Part3(x.t, "par", x.i + 1) ELSE Bad
     ELSE IF tk[2] = "{" THEN (IF IsOp(ts, i + 1, "}") THEN Part3(Lst(<<>>), "call", i + 2)
                               ELSE LET r == ListOf(ts, i + 1, "}", <<>>) IN IF r[2] = 0 THEN Bad ELSE Part3(Lst(r[1]), "call", r[2]))
     ELSE IF tk[2] \in DOMAIN PRE THEN LET x == Expr(ts, i + 1, PRE[tk[2]]) IN IF x.k = "err" THEN Bad ELSE Part3(ApplyPre(tk[2], x), "op", x.i)
     ELSE Bad
Expr(ts, i, p) == LET l == Primary(ts, i) IN IF l.k = "err" THEN Bad ELSE Loop(ts, l, p)
\* extend the part l with operators of at least level p
Loop(ts, l, p) ==
  LET tk == Tok(ts, l.i)
      o == tk[2]
  IN IF tk[1] = "end" THEN l
     ELSE IF Starts(tk) THEN
       (IF MUL < p THEN l
        ELSE LET r == Expr(ts, l.i, MUL + 1) IN IF r.k = "err" THEN Bad ELSE Loop(ts, Part3(Apply2("*", l, r), "op", r.i), p))
     ELSE IF o \in DOMAIN POST THEN
       (IF POST[o] < p THEN l ELSE Loop(ts, Part3(ApplyPost(o, l), "op", l.i + 1), p))
     ELSE IF o = "[" THEN
       (IF CALL < p THEN l
        ELSE IF IsOp(ts, l.i + 1, "]") THEN Loop(ts, Part3(<<"e", l.t>>, "call", l.i + 2), p)
        ELSE LET r == ListOf(ts, l.i + 1, "]", <<>>) IN IF r[2] = 0 THEN Bad ELSE Loop(ts, Part3(<<"e", l.t>> \o r[1], "call", r[2]), p))
     ELSE IF o = "[[" THEN
       (IF CALL < p THEN l
        ELSE LET r == ListOf(ts, l.i + 1, "]]", <<>>) IN IF r[2] = 0 THEN Bad ELSE Loop(ts, Part3(En("Part", <<l.t>> \o r[1]), "call", r[2]), p))
     ELSE IF o \in DOMAIN BIN THEN
       (IF BIN[o][1] < p THEN l
        ELSE IF o = ";" /\ ~CanBegin(Tok(ts, l.i + 1)) THEN Loop(ts, Part3(Extend("CompoundExpression", l, Null), "op", l.i + 1), p)
        ELSE LET r == Expr(ts, l.i + 1, IF BIN[o][2] = "l" THEN BIN[o][1] + 1 ELSE BIN[o][1])
             IN IF r.k = "err" THEN Bad
                ELSE LET t == Apply2(o, l, r) IN IF t[1] \in {"err", "oof"} THEN Bad ELSE Loop(ts, Part3(t, KindOf(o), r.i), p))
     ELSE l
ReadTokens(ts) ==
  LET x == Expr(ts, 1, 0)
  IN IF x.k = "err" \/ x.i # Len(ts) + 1 THEN <<"err">> ELSE <<"ok", x.t>>
Tokens(text) == Lex(text, 1, <<>>, <<>>)
Read(text) ==
  LET ts == Tokens(text)
  IN IF ts = <<<<"oof">>>> \/ ts = <<>> THEN <<"oof">> ELSE TLCEval(ReadTokens(ts))
\* Forms of the Wolfram Language that have no expression here: rejected, and
\* the session goes on
Foreign == {"##", "#name", "~", "^^", "..", "=.", ">>", "<<", "@*", "/*", "**", "//@"}
IsForeign(text) == \E u \in Foreign : \E i \in 1..(Len(text) - Len(u) + 1) : SubSeq(text, i, i + Len(u) - 1) = u
=============================================================================
