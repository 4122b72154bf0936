---- MODULE TNum ----
EXTENDS Num
VARIABLE x
Init == x = 0
Next == UNCHANGED x
a == ZPow(<<"i",7>>, 40)
b == ZPow(<<"i",-3>>, 31)
ASSUME PrintT(a)
ASSUME PrintT(ZDivMod(a,b))
ASSUME PrintT(ZAdd(ZMul(ZDivMod(a,b)[1],b),ZDivMod(a,b)[2]) = a)
ASSUME PrintT(ZGcd(ZMul(a,<<"i",1000>>),ZMul(a,<<"i",15>>)))
ASSUME PrintT(ZDivMod(<<"i",-7>>,<<"i",-2>>))
ASSUME \A i \in -30..30: \A j \in (-30..30) \ {0}: LET d == ZDivMod(<<"i",i>>,<<"i",j>>) IN d[1][2]*j+d[2][2]=i /\ (d[2][2]=0 \/ ((d[2][2]<0) = (j<0))) /\ Abs(d[2][2])<Abs(j)
ASSUME PrintT(QRound(<<"q",<<"i",-5>>,<<"i",2>>>>))
====
