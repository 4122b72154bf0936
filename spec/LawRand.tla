-------------------------------- MODULE LawRand -------------------------------
(* The draws of an expression are a run of consecutive numbers from the       *)
(* state on, each used where it was drawn; held, delayed and skipped parts    *)
(* draw none; a variable keeps the number it was given; after SeedRandom      *)
(* nothing of what came before shows.                                         *)
EXTENDS Rand, FiniteSets
CONSTANT Deep
L0 == {<<"dr">>, <<"sc", 10>>, <<"rg", -2, 3>>, <<"no", 1>>, <<"va", "x">>, <<"va", "y">>}
L1 == L0 \cup {<<"li", a, b>> : a \in L0, b \in L0} \cup {<<"ta", a, 2>> : a \in L0} \cup {<<"do", a, 3>> : a \in L0} \cup {<<"set", "x", a>> : a \in L0}
      \cup {<<"sd", "y", <<"dr">>>>, <<"se", 2>>} \cup {<<h, a>> : h \in {"ho", "f1", "f2", "an"}, a \in L0} \cup {<<h, a, b>> : h \in {"ift", "iff", "mo"}, a \in L0, b \in L0}
      \cup {<<"nl", 2, a>> : a \in L0} \cup {<<"ma", a, <<1, 5>>>> : a \in L0}
L2 == IF Deep THEN L1 ELSE L0 \cup {<<"li", <<"dr">>, <<"va", "x">>>>, <<"set", "x", <<"dr">>>>, <<"sd", "y", <<"dr">>>>, <<"se", 2>>}
VARIABLES a, b, st
Init == a \in L1 /\ b = <<"none">> /\ st \in {St0, Ev(<<"sq", <<"set", "x", <<"dr">>>>, <<"sd", "y", <<"li", <<"dr">>, <<"dr">>>>>>>>, St0).st}
Next == b = <<"none">> /\ b' \in L2 /\ UNCHANGED <<a, st>>
Spec == Init /\ [][Next]_<<a, b, st>>
RECURSIVE Drawn(_)
Drawn(v) == CASE v[1] = "d" -> {<<v[2], v[3]>>} [] v[1] = "sc" -> {<<v[4], v[5]>>}
              [] v[1] = "li" -> UNION {Drawn(v[i]) : i \in 2..Len(v)} [] OTHER -> {}
Seen(s) == UNION {IF s.env[x][1] = "val" THEN Drawn(s.env[x][2]) ELSE {} : x \in DOMAIN s.env}
Runs == \E r \in {Ev(<<"sq", a, b>>, st)} : \E q \in {Ev(<<"li", a, b>>, st)} :
          /\ r.st = q.st /\ r.v = q.v[3]
          /\ \E d \in {Drawn(q.v) \ Seen(st)} :
               \A p \in d : IF p[1] = st.seed THEN p[2] > st.k /\ (r.st.seed = st.seed => p[2] <= r.st.k) ELSE p[1] = r.st.seed /\ p[2] \in 1..r.st.k
          /\ (r.st.seed = st.seed => r.st.k >= st.k)
Quiet == \A h \in {"ho", "an"} : Ev(<<h, <<"li", a, b>>>>, st).st = st
Delayed == \E r \in {Ev(<<"sd", "z", a>>, st)} : r.st.k = st.k /\ Ev(<<"va", "z">>, r.st).v = Ev(a, st).v
Keeps == \E r \in {Ev(<<"sq", <<"set", "z", a>>, b, <<"va", "z">>>>, st)} : r.v = Ev(a, st).v
Copies == Ev(<<"ta", a, 2>>, st).v = Ev(<<"li", a, a>>, st).v
Twice == \E r \in {Ev(<<"f1", a>>, st)} : r.v[2] = r.v[3] /\ r.st = Ev(a, st).st
Forgets == \E s \in {<<"li", <<"dr">>, <<"sc", 10>>>>} : Ev(<<"sq", a, b, <<"se", 2>>, s>>, st).v = Ev(<<"sq", <<"se", 2>>, s>>, st).v
Holds == b = <<"none">> \/ (Runs /\ Quiet /\ Delayed /\ Keeps /\ Copies /\ Twice /\ Forgets)
===============================================================================
