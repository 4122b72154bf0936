------------------------------- MODULE ElemTab -------------------------------
(* Points of evaluation: written by tools/mkelem.py *)
EXTENDS Integers
P1 == [q |-> 23209, m |-> 967, g |-> 20318, J |-> 333, zeta |-> 1047, pi |-> 4945, pie |-> 406, cj |-> 0, re |-> 0,
    six |-> [s \in {2,3} |-> CASE s = 2 -> 4574 [] s = 3 -> 8822],
    two |-> [s \in {2,3,5,7} |-> CASE s = 2 -> 16231 [] s = 3 -> 12509 [] s = 5 -> 5032 [] s = 7 -> 4161],
    sym |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 21331 [] s = "b" -> 1584 [] s = "c" -> 2375 [] s = "n" -> 17561 [] s = "t" -> 3086 [] s = "u" -> 11984 [] s = "w" -> 19098 [] s = "x" -> 1902 [] s = "y" -> 16629 [] s = "z" -> 7037 [] s = "a*" -> 1230 [] s = "b*" -> 2818 [] s = "c*" -> 14211 [] s = "n*" -> 13704 [] s = "t*" -> 2291 [] s = "u*" -> 7888 [] s = "w*" -> 2974 [] s = "x*" -> 18058 [] s = "y*" -> 13912 [] s = "z*" -> 1938],
    exp |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 848 [] s = "b" -> 581 [] s = "c" -> 128 [] s = "n" -> 230 [] s = "t" -> 647 [] s = "u" -> 644 [] s = "w" -> 598 [] s = "x" -> 65 [] s = "y" -> 592 [] s = "z" -> 601 [] s = "a*" -> 408 [] s = "b*" -> 52 [] s = "c*" -> 228 [] s = "n*" -> 49 [] s = "t*" -> 572 [] s = "u*" -> 881 [] s = "w*" -> 138 [] s = "x*" -> 298 [] s = "y*" -> 431 [] s = "z*" -> 149],
    lam |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 555 [] s = "b" -> 122 [] s = "c" -> 586 [] s = "n" -> 317 [] s = "t" -> 575 [] s = "u" -> 837 [] s = "w" -> 700 [] s = "x" -> 187 [] s = "y" -> 107 [] s = "z" -> 597 [] s = "a*" -> 586 [] s = "b*" -> 656 [] s = "c*" -> 194 [] s = "n*" -> 383 [] s = "t*" -> 101 [] s = "u*" -> 562 [] s = "w*" -> 731 [] s = "x*" -> 66 [] s = "y*" -> 579 [] s = "z*" -> 63],
    lamp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 635 [] s = 3 -> 212 [] s = 5 -> 510 [] s = 7 -> 698 [] s = 11 -> 546 [] s = 13 -> 439],
    logp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 10295 [] s = 3 -> 15258 [] s = 5 -> 19189 [] s = 7 -> 14851 [] s = 11 -> 11850 [] s = 13 -> 9824]]
P2 == [q |-> 45481, m |-> 379, g |-> 32932, J |-> 129, zeta |-> 15661, pi |-> 11783, pie |-> 359, cj |-> 0, re |-> 0,
    six |-> [s \in {2,3} |-> CASE s = 2 -> 8833 [] s = 3 -> 10265],
    two |-> [s \in {2,3,5,7} |-> CASE s = 2 -> 28915 [] s = 3 -> 38029 [] s = 5 -> 5006 [] s = 7 -> 16511],
    sym |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 15999 [] s = "b" -> 5366 [] s = "c" -> 37647 [] s = "n" -> 19679 [] s = "t" -> 34421 [] s = "u" -> 32449 [] s = "w" -> 22512 [] s = "x" -> 29416 [] s = "y" -> 18872 [] s = "z" -> 39910 [] s = "a*" -> 4799 [] s = "b*" -> 7739 [] s = "c*" -> 33552 [] s = "n*" -> 27404 [] s = "t*" -> 10812 [] s = "u*" -> 22418 [] s = "w*" -> 9962 [] s = "x*" -> 32046 [] s = "y*" -> 27638 [] s = "z*" -> 2571],
    exp |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 344 [] s = "b" -> 41 [] s = "c" -> 287 [] s = "n" -> 295 [] s = "t" -> 162 [] s = "u" -> 176 [] s = "w" -> 357 [] s = "x" -> 181 [] s = "y" -> 306 [] s = "z" -> 256 [] s = "a*" -> 298 [] s = "b*" -> 235 [] s = "c*" -> 37 [] s = "n*" -> 49 [] s = "t*" -> 140 [] s = "u*" -> 244 [] s = "w*" -> 358 [] s = "x*" -> 342 [] s = "y*" -> 35 [] s = "z*" -> 33],
    lam |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 376 [] s = "b" -> 361 [] s = "c" -> 160 [] s = "n" -> 333 [] s = "t" -> 297 [] s = "u" -> 350 [] s = "w" -> 230 [] s = "x" -> 147 [] s = "y" -> 368 [] s = "z" -> 199 [] s = "a*" -> 344 [] s = "b*" -> 179 [] s = "c*" -> 13 [] s = "n*" -> 238 [] s = "t*" -> 183 [] s = "u*" -> 88 [] s = "w*" -> 314 [] s = "x*" -> 61 [] s = "y*" -> 254 [] s = "z*" -> 32],
    lamp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 113 [] s = 3 -> 149 [] s = 5 -> 68 [] s = 7 -> 128 [] s = 11 -> 205 [] s = 13 -> 202],
    logp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 32541 [] s = 3 -> 5282 [] s = 5 -> 10904 [] s = 7 -> 29439 [] s = 11 -> 26324 [] s = 13 -> 36010]]
P3 == [q |-> 4729, m |-> 197, g |-> 3453, J |-> 73, zeta |-> 932, pi |-> 1123, pie |-> 112, cj |-> 0, re |-> 0,
    six |-> [s \in {2,3} |-> CASE s = 2 -> 2039 [] s = 3 -> 863],
    two |-> [s \in {2,3,5,7} |-> CASE s = 2 -> 3564 [] s = 3 -> 3070 [] s = 5 -> 510 [] s = 7 -> 1337],
    sym |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 4509 [] s = "b" -> 2282 [] s = "c" -> 3404 [] s = "n" -> 2941 [] s = "t" -> 3118 [] s = "u" -> 1892 [] s = "w" -> 1238 [] s = "x" -> 681 [] s = "y" -> 1445 [] s = "z" -> 1241 [] s = "a*" -> 1902 [] s = "b*" -> 1913 [] s = "c*" -> 100 [] s = "n*" -> 3974 [] s = "t*" -> 1495 [] s = "u*" -> 2154 [] s = "w*" -> 2311 [] s = "x*" -> 35 [] s = "y*" -> 1195 [] s = "z*" -> 3434],
    exp |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 138 [] s = "b" -> 96 [] s = "c" -> 158 [] s = "n" -> 146 [] s = "t" -> 83 [] s = "u" -> 34 [] s = "w" -> 178 [] s = "x" -> 133 [] s = "y" -> 160 [] s = "z" -> 169 [] s = "a*" -> 175 [] s = "b*" -> 191 [] s = "c*" -> 15 [] s = "n*" -> 118 [] s = "t*" -> 176 [] s = "u*" -> 145 [] s = "w*" -> 102 [] s = "x*" -> 103 [] s = "y*" -> 104 [] s = "z*" -> 102],
    lam |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 28 [] s = "b" -> 125 [] s = "c" -> 164 [] s = "n" -> 104 [] s = "t" -> 17 [] s = "u" -> 50 [] s = "w" -> 19 [] s = "x" -> 55 [] s = "y" -> 114 [] s = "z" -> 43 [] s = "a*" -> 30 [] s = "b*" -> 89 [] s = "c*" -> 155 [] s = "n*" -> 15 [] s = "t*" -> 28 [] s = "u*" -> 2 [] s = "w*" -> 147 [] s = "x*" -> 40 [] s = "y*" -> 139 [] s = "z*" -> 27],
    lamp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 95 [] s = 3 -> 159 [] s = 5 -> 8 [] s = 7 -> 20 [] s = 11 -> 55 [] s = 13 -> 159],
    logp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 3084 [] s = 3 -> 1218 [] s = 5 -> 2068 [] s = 7 -> 2847 [] s = 11 -> 2985 [] s = 13 -> 3886]]
P4 == [q |-> 26161, m |-> 109, g |-> 13440, J |-> 17, zeta |-> 11242, pi |-> 3781, pie |-> 64, cj |-> 0, re |-> 0,
    six |-> [s \in {2,3} |-> CASE s = 2 -> 92 [] s = 3 -> 9200],
    two |-> [s \in {2,3,5,7} |-> CASE s = 2 -> 20019 [] s = 3 -> 1097 [] s = 5 -> 3584 [] s = 7 -> 10119],
    sym |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 15271 [] s = "b" -> 15743 [] s = "c" -> 15856 [] s = "n" -> 10220 [] s = "t" -> 2816 [] s = "u" -> 4724 [] s = "w" -> 3350 [] s = "x" -> 24567 [] s = "y" -> 11229 [] s = "z" -> 24261 [] s = "a*" -> 8677 [] s = "b*" -> 15685 [] s = "c*" -> 22679 [] s = "n*" -> 5292 [] s = "t*" -> 16921 [] s = "u*" -> 758 [] s = "w*" -> 6726 [] s = "x*" -> 17311 [] s = "y*" -> 11855 [] s = "z*" -> 4805],
    exp |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 90 [] s = "b" -> 71 [] s = "c" -> 5 [] s = "n" -> 99 [] s = "t" -> 69 [] s = "u" -> 40 [] s = "w" -> 84 [] s = "x" -> 13 [] s = "y" -> 91 [] s = "z" -> 35 [] s = "a*" -> 68 [] s = "b*" -> 48 [] s = "c*" -> 23 [] s = "n*" -> 47 [] s = "t*" -> 100 [] s = "u*" -> 30 [] s = "w*" -> 70 [] s = "x*" -> 71 [] s = "y*" -> 101 [] s = "z*" -> 66],
    lam |-> [s \in {"a","b","c","n","t","u","w","x","y","z","a*","b*","c*","n*","t*","u*","w*","x*","y*","z*"} |-> CASE s = "a" -> 44 [] s = "b" -> 83 [] s = "c" -> 30 [] s = "n" -> 80 [] s = "t" -> 105 [] s = "u" -> 102 [] s = "w" -> 99 [] s = "x" -> 26 [] s = "y" -> 105 [] s = "z" -> 32 [] s = "a*" -> 106 [] s = "b*" -> 53 [] s = "c*" -> 96 [] s = "n*" -> 104 [] s = "t*" -> 31 [] s = "u*" -> 27 [] s = "w*" -> 68 [] s = "x*" -> 65 [] s = "y*" -> 47 [] s = "z*" -> 95],
    lamp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 5 [] s = 3 -> 5 [] s = 5 -> 103 [] s = 7 -> 37 [] s = 11 -> 62 [] s = 13 -> 35],
    logp |-> [s \in {2,3,5,7,11,13} |-> CASE s = 2 -> 6347 [] s = 3 -> 22694 [] s = 5 -> 19831 [] s = 7 -> 11283 [] s = 11 -> 14656 [] s = 13 -> 23697]]
Points == <<P1,P2,P3,P4>>
SymNames == {"a","b","c","n","t","u","w","x","y","z"}
==============================================================================
