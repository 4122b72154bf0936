"""Systematic scenarios: small universes that are enumerated (or, where they are
large, sampled) as products of constructs, positions and values."""
import itertools, random


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def rows(xs, n, m):
    """n expressions per list, m lists per scenario"""
    return chunks(["{%s}" % ",".join(c) for c in chunks(xs, n)], m)


# ------------------------------------------------------- constructs and exits
K = ["Do[%s,{i,2}]", "Do[%s,{i,2},{j,2}]", "Do[%s,{i,{a,b}}]", "Table[%s,{i,2}]", "Table[%s,{i,2},{j,2}]", "Sum[%s,{i,2}]", "Sum[%s,{i,2},{j,2}]", "Product[%s,{i,2}]", "Module[{x=1},%s]",
     "Module[{x=%s},x]", "Module[{x},x=%s;x]", "With[{x=1},%s]", "With[{x=%s},x]", "Map[(%s)&,{1,2}]", "Scan[(%s)&,{1,2}]", "Nest[(%s)&,1,2]", "NestList[(%s)&,1,2]", "Fold[(%s)&,1,{2,3}]", "FoldList[(%s)&,1,{2,3}]",
     "Select[{1,2},((%s);True)&]", "If[True,%s,0]", "If[False,0,%s]", "If[%s,1,2,3]", "Which[False,1,%s,2,True,3]", "Which[True,%s]", "Switch[1,2,0,1,%s]", "Switch[%s,2,0,_,9]", "While[n<2,n=n+1;%s]",
     "While[n=n+1;%s;n<3,0]", "For[m=0,m<2,m++,%s]", "Replace[1,x_:>(%s)]", "{1,2}/.x_Integer:>(%s)", "Cases[{1,2},x_:>(%s)]", "Array[(%s)&,2]", "Reap[%s]",
     "Catch[%s]", "(%s)&&True", "True&&(%s)", "(%s)||False", "!(%s)", "{%s,2}", "{2,%s}", "f[%s]", "hf[%s]", "hf[1,%s]", "(%s;5)", "(5;%s)", "y=(%s)", "r[1]=(%s)", "r[%s]", "rd[%s]", "NestWhile[(%s)&,1,#<2&]", "Map[f,%s]", "Apply[f,{1,%s}]",
     "Apply[(%s)&,{1,2}]", "MapIndexed[(%s)&,{1,2}]", "Function[x,%s][1]", "(%s)&[1]", "Outer[(%s)&,{1},{2}]", "Hold[Evaluate[%s]]", "ReleaseHold[Hold[%s]]", "(%s)+1", "2*(%s)", "(%s)==1", "Total[{1,%s}]", "Sort[{2,%s}]",
     "Length[%s]", "Sow[%s]", "ReplaceAll[a,a->(%s)]", "StringJoin[\"a\",%s]", "Part[{1,2},%s]", "Unevaluated[%s]", "fi[%s]", "AllTrue[{1,2},((%s);True)&]", "FixedPoint[((%s);3)&,1]"]
PRE = ["SetAttributes[hf,HoldFirst]", "rd[q_]:={q,q}", "fi[q_Integer]:=q+1", "x=7", "i=8"]


def syst_exits(rng, n, exits, wrap, after):
    pairs = [(a,) for a in K] + rng.sample(list(itertools.product(K, K)), n)
    out = []
    for p in pairs:
        e = rng.choice(exits)
        for k in reversed(p):
            e = k.replace("%s", e)
        out.append(wrap.replace("%s", e))
    return [PRE + [z for t in c for z in (t, after)] for c in chunks(out, 8)]


def c18(rng):
    return syst_exits(rng, 150, ["Throw[i]", "(lg={lg,i};Throw[{i,x}])", "If[i===2,Throw[x],lg={lg,x}]", "Throw[Throw[3]]"], "lg={};n=0;Catch[%s]", "{lg,i,j,n,m,x}") + \
        syst_exits(rng, 40, ["Throw[i]", "(lg={lg,i};Throw[{i,x}])"], "lg={};n=0;%s", "{lg,i,j,n,m,x}")


def c17(rng):
    return syst_exits(rng, 150, ["{i,j,x}", "(lg={lg,i,x};x)", "If[i===2,Throw[x],i]", "(x=i)", "Throw[j]"], "lg={};n=0;x=7;Catch[%s]", "{lg,i,j,n,m,x}") + c17ini(rng)


INI = ["x", "x=1", "x=y", "x=x+1", "y", "y=x", "y=x+1", "y=2", "y={x,y}", "x:=y", "y:=x+1", "z=x*y", "z", "x=(lg={lg,1};3)", "y=(x=9;x)", "z=f[x,y]", "x={x}", "y=Module[{x=4},x+y]"]
BOD = ["{x,y,z}", "(x=3;{x,y,z})", "f[x,Hold[x]]/.x->5", "Module[{x=5},{x,y}]", "With[{y=6},{x,y}]", "(y=x;x=z;{x,y,z})", "Map[(x=x+#)&,{1,2}]", "Table[{x,y},{x,2}]", "g[x]", "(x++;x)", "With[{x=x},x=4]", "{Function[x,x+y][10],x}", "Module[{y=x,x=y},{x,y}]",
       "(r[q_]:=q+x;r[1])", "Do[y=y+i,{i,2}];y", "{z,Hold[x]===Hold[y]}", "Module[{x,y},x=1;y=x;{x,y}]"]


def c17ini(rng):
    out = []
    for _ in range(130):
        l = []
        for z in rng.sample(INI, rng.choice([1, 2, 2, 2, 3])):
            if z[0] not in [q[0] for q in l]:
                l.append(z)
        if rng.random() < .35:
            l = [z if "=" in z else z + "=2" for z in l]
            out.append("With[{%s},%s]" % (",".join(z.replace(":=", "=") for z in l), rng.choice([b for b in BOD if "x=" not in b and "y=" not in b and "++" not in b])))
        else:
            out.append("Module[{%s},%s]" % (",".join(l), rng.choice(BOD)))
    pre = ["g[q_]:={q,x,y}", "lg={}"]
    return [pre + [w for e in c for w in (rng.choice(["x=7;y=8;z=a", "x=7;y=8;z=a", "Clear[x,y,z]"]), e, "{x,y,z,lg}")] for c in chunks(out, 5)]


def c16(rng):
    return syst_exits(rng, 120, ["(lg={lg,i};i)", "Return[i]", "If[i===2,Return[5],lg={lg,i}]", "(lg={lg,1};True)", "(lg={lg,2};False)"], "lg={};n=0;%s", "{lg,i,n,m}") + \
        syst_exits(rng, 40, ["Return[5]", "(lg={lg,1};Return[x])"], "lg={};n=0;fr[k_]:=(%s;lg={lg,k};k);fr[3]", "{lg,i,n,m}")


def c15(rng):
    return syst_exits(rng, 150, ["(lg={lg,1};a)", "(lg={lg,i};2)", "(lg={lg,2};Sequence[1,2])"], "lg={};n=0;%s", "lg")


def c29(rng):
    one = ["(Sow[2];Throw[3])", "Sow[i]", "(Sow[2];Sow[3])", "Reap[Sow[2];Throw[Sow[3]]]", "Reap[Sow[x]]"]
    return syst_exits(rng, 110, one, "n=0;Reap[Sow[1];Catch[%s];Sow[4]]", "Sow[5]") + syst_exits(rng, 30, one, "n=0;Catch[Reap[%s;Sow[6]]]", "Reap[Sow[7]]")


# ------------------------------------------------------------------- patterns
def c01(rng):
    p1 = ["x_", "x__", "x___", "_", "__", "a", "_Integer", "x_Symbol", "x:(a|1)", "a|b", "x_f", "x:f[y_]", "_?IntegerQ", "Except[a]", "Except[_f,x_]", "x_/;x=!=1", "Verbatim[a]", "HoldPattern[x_]", "x_.", "y_:5", "f[__]", "1"]
    heads = ["f", "g", "u", "v", "w", "q", "p", "Verbatim[u]", "Verbatim[v]", "Verbatim[w]", "x_", "_", "List", "Plus", "Times"]
    args = ["a", "1", "b", "f[a]"]
    pre = ["SetAttributes[u,Orderless]", "SetAttributes[v,Flat]", "SetAttributes[w,{Flat,Orderless}]", "SetAttributes[q,{Flat,OneIdentity}]", "SetAttributes[p,{Flat,Orderless,OneIdentity}]"]
    out = []
    for h in heads:
        ps = [(z,) for z in p1] + rng.sample(list(itertools.product(p1, p1)), 16) + rng.sample(list(itertools.product(p1, p1, p1)), 3)
        own = h[9:-1] if h[0] == "V" else "f" if h in ("x_", "_") else h
        for z in rng.sample(ps, 24):
            es = []
            for _ in range(5):
                n = rng.choice([0, 1, 1, 2, 2, 3, 3]) if own not in ("Plus", "Times") else rng.choice([2, 2, 3])
                es.append("%s[%s]" % (own if rng.random() < .9 else rng.choice("fuvw"), ",".join(rng.choice(args if own not in ("Plus", "Times") else ["a", "2", "b", "f[a]"]) for _ in range(n))))
            pat = "%s[%s]" % (h, ",".join(z))
            out.append("Map[Replace[#,{%s:>m[{x},{y}],_->no}]&,{%s}]" % (pat, ",".join(es)) if rng.random() < .7 else "{%s}" % ",".join("MatchQ[%s,%s]" % (e, pat) for e in es))
    rng.shuffle(out)
    return [pre + c for c in chunks(out, 12)]


# -------------------------------------------------------------------- numbers
NUMS = ["0", "1", "(-1)", "2", "(-3)", "7", "(1/2)", "(-1/2)", "(-7/3)", "(5/6)", "2147483648", "(-2147483649)", "9223372036854775807", "(-9223372036854775808)", "9223372036854775808", "(-18446744073709551617)", "18446744073709551616",
        "1000000000000000000000000000001", "(-3/1180591620717411303424)", "(7/1000000000000000000000000000000)", "(-18446744073709551617/3)", "(9223372036854775808/9223372036854775807)", "(-1/9223372036854775808)", "1.5", "(-0.25)", "2.", "Complex[1,2]", "Complex[-1/2,3]", "Complex[0,-1]"]


def c08(rng):
    out = []
    for a, b in itertools.product(NUMS, NUMS):
        out.append(rng.choice(["%s+%s", "%s-%s", "%s*%s", "%s*%s"]) % (a, b))
    out += ["%s/%s" % (a, b) for a, b in itertools.product(NUMS, NUMS) if rng.random() < .5 and "." not in a + b]
    out += ["%s^%d" % (a, k) for a in NUMS[:22] for k in (-3, -2, -1, 0, 1, 2, 3)]
    out += ["Numerator[%s]" % a for a in NUMS[:22]] + ["Denominator[%s]" % a for a in NUMS[:22]]
    out += ["%s/%s" % (a, b) for a in ("3", "(-3)", "6", "(-6)") for b in ("2", "(-2)", "2^31", "(-2^31)", "2^62", "(-2^63)", "2^64", "(-2^65)", "2^70", "(-2^70)", "3^50", "(-3^50)")]
    return rows(out, 6, 6)


def c09(rng):
    out = []
    for a, b in itertools.product(NUMS[:26], NUMS[:26]):
        out.append(rng.choice(["%s<%s", "%s<=%s", "%s>%s", "%s>=%s", "%s==%s", "%s!=%s", "Max[%s,%s]", "Min[%s,%s]", "{%s,%s}[[1]]===%s"[:0] + "%s===%s"]) % (a, b))
    return rows(out, 6, 6)


TERMS = ["a", "b", "c", "f", "1", "2", "(-1)", "(1/2)", "1.", "2.5", "Complex[0,1]", "\"a\"", "\"b\"", "f[a]", "f[b]", "f[a,b]", "f[1]", "g[a]", "f[]", "f[a][b]", "{a}", "{a,b}", "{}", "a^2", "a^3", "b^2", "a*b", "2*a", "3*a", "a+b", "a+c", "1+a",
         "2*b", "a*b^2", "a^2*b", "E", "Pi", "a^b", "a^(1/2)", "(-1)*a", "2^a", "f[a]^2", "2*f[a]", "x_", "x_Integer", "True", "Infinity", "a->b", "a==b", "Hold[b*a]", "Hold[a*b]", "-a-b", "a*c", "b*c", "(a+b)^2", "(a+b)*c"]


def c04(rng):
    ps = list(itertools.product(TERMS, TERMS))
    rng.shuffle(ps)
    out = ["Order[%s,%s]" % p for p in ps[:1500]]
    return rows(out, 15, 6) + [["Sort[{%s}]" % ",".join(rng.sample(TERMS, 12)) for _ in range(6)] for _ in range(4)]


def c06(rng):
    ps = list(itertools.product(TERMS + NUMS, TERMS + NUMS))
    rng.shuffle(ps)
    out = [rng.choice(["%s===%s", "%s=!=%s", "Length[Union[{%s},{%s}]]", "MemberQ[{%s},%s]", "Complement[{%s},{%s}]", "FreeQ[%s,%s]"]) % p for p in ps[:500]] + ["%s===%s" % (t, t) for t in TERMS + NUMS]
    return rows(out, 10, 6)


# --------------------------------------------------------------------- lists
def c21(rng):
    R = range(-4, 5)
    L = ["{a,b,c}", "f[a,b,c]", "{a}", "{}", "{{a,b},{c,d,e},{}}"]
    out = []
    for i in R:
        for l in L:
            out += ["Part[%s,%d]" % (l, i), "Take[%s,%d]" % (l, i), "Drop[%s,%d]" % (l, i)]
        out += ["Delete[{a,b,c},%d]" % i if False else "Part[{{a,b},{c,d}},%d,%d]" % (i, rng.choice(R)), "PadRight[{a,b},%d]" % max(i, 0), "PadLeft[{a,b},%d]" % max(i, 0), "RotateLeft[{a,b,c},%d]" % i, "RotateRight[{a,b,c},%d]" % i]
    for i, j in itertools.product(R, R):
        out.append("Part[{a,b,c},%d;;%d]" % (i, j) if i and j else "Part[{a,b,c},{%d,%d}]" % (i, j))
        out.append("Take[{a,b,c},{%d,%d}]" % (i, j))
        k = rng.choice([-3, -2, -1, 1, 2, 3])
        if i and j:
            out.append("Part[{a,b,c,d},%d;;%d;;%d]" % (i, j, k))
        out.append("Part[{{a,b,c},{d,e,f}},%s,%d]" % (rng.choice(["All", "1;;2", "{1,2}", "{2,-2}"]), i))
    out += ["Range[%d,%d,%s]" % (i, j, k) for i in (-2, 0, 3) for j in (-3, 0, 1, 4) for k in ("1", "-1", "2", "-2", "1/2", "-3/2")]
    out += ["Partition[{a,b,c,d,e},%d]" % k for k in range(1, 7)]
    return rows(out, 5, 6)


def c22(rng):
    S = ["0", "1", "2", "3", "-1", "-2", "-3", "{0}", "{1}", "{2}", "{-1}", "{-2}", "Infinity", "{0,Infinity}", "{-Infinity,-1}"[:0] + "{1,Infinity}"] + ["{%d,%d}" % p for p in itertools.product((-3, -2, -1, 0, 1, 2, 3), repeat=2)]
    E = ["{a,{b,{c}}}", "{f[a,g[b]],c}", "f[{1,2},g[f[3]]]", "{{a},{b,{c,{d}}}}", "a"]
    out = []
    for s in S:
        e = rng.choice(E[:4])
        out += ["Level[%s,%s]" % (e, s), "Map[h,%s,%s]" % (rng.choice(E[:4]), s), "Cases[%s,_,%s]" % (rng.choice(E[:4]), s), "Count[%s,_Symbol,%s]" % (rng.choice(E[:4]), s), "Position[%s,_Symbol,%s]" % (rng.choice(E[:4]), s) if False else "Apply[h,%s,%s]" % (e, s),
                "Replace[%s,z_Symbol:>k[z],%s]" % (rng.choice(E[:4]), s), "Level[%s,%s]" % (rng.choice(E[:4]), s)]
    return rows(out, 3, 6)


def c20(rng):
    V = ["-2", "-1", "0", "1", "2", "3", "1/2", "5/2", "1.5", "2."]
    T = ["1", "2", "-1", "-2", "1/2", "-1/2", "0.5", "3", "3/2"]
    out = []
    for a, b in itertools.product(V, V):
        t = rng.choice(T)
        out += ["Table[i,{i,%s,%s,%s}]" % (a, b, t), rng.choice(["Table[i,{i,%s,%s}]", "Sum[i,{i,%s,%s}]", "Product[i,{i,%s,%s}]", "Range[%s,%s]"]) % (a, b)]
        s1, s2 = rng.choice(["{i,%s}" % a, "{i,%s,%s}" % (a, b), "{i,{a,b}}", "{i,{}}"]), rng.choice(["{j,%s}" % b, "{j,%s,%s,%s}" % (b, a, t), "{j,{c}}", "{j,{}}"])
        out.append(rng.choice(["Table[{i,j},%s,%s]", "Sum[g[i,j],%s,%s]", "(lg={};Do[lg={lg,{i,j}},%s,%s];lg)", "Product[g[i,j],%s,%s]"]) % (s1, s2))
    return rows(out, 3, 6)


def c30(rng):
    A = ["True", "False", "a", "b", "(lg={lg,1};True)", "(lg={lg,2};False)", "(lg={lg,3};c)"]
    out = []
    for n in (1, 2, 3):
        for t in itertools.product(A, repeat=n):
            if n < 3 or rng.random() < .3:
                out.append("lg={};{%s[%s],lg}" % (rng.choice(["And", "Or", "And", "Or", "Xor"][:4]), ",".join(t)))
    for t in rng.sample(list(itertools.product(A, repeat=4)), 60):
        out.append("lg={};{%s[%s],lg}" % (rng.choice(["And", "Or"]), ",".join(t)))
    return chunks(out, 20)


def c31(rng):
    N = list(range(-7, 13)) + [30, 97, 100, 360, 1001]
    out = []
    for n in N:
        out += [z % n for z in ("PrimeQ[%d]", "EvenQ[%d]", "OddQ[%d]", "Abs[%d]", "Sign[%d]")]
        if n > 0:
            out += [z % n for z in ("Prime[%d]", "PrimePi[%d]", "FactorInteger[%d]", "EulerPhi[%d]"[:0] + "IntegerDigits[%d]", "Range[%d]" if n < 13 else "IntegerDigits[%d,2]")]
        if 0 <= n < 13:
            out += [z % n for z in ("%d!", "Fibonacci[%d]")]
        for m in (-5, -2, 1, 2, 3, 4, 6, 12):
            out += [rng.choice(["Mod[%d,%d]", "GCD[%d,%d]", "LCM[%d,%d]", "GCD[%d,%d,6]"]) % (n, m)]
            if 0 <= n < 13 and m > 0:
                out.append("Binomial[%d,%d]" % (n, m))
    return rows(out, 8, 6)


# ------------------------------------------------------- definitions, attributes
LHS = ["r[_]", "r[x_]", "r[1]", "r[2]", "r[a]", "r[x_Integer]", "r[x_Symbol]", "r[f[x_]]", "r[f[_]]", "r[f[1]]", "r[x__]", "r[x___]", "r[x_,y_]", "r[x_,x_]", "r[1,y_]", "r[x_,y___]", "r[]", "r[\"s\"]", "r[x_?IntegerQ]",
       "r[x_Integer?EvenQ]", "r[1|2]", "r[x:(1|a)]", "r[{x_}]", "r[{x__}]", "r[{}]", "r[Except[1]]", "r[x_]/;x===1", "r[x_/;x===2]", "r[x_,y_]/;x===y", "r[x_.]", "r[x_,y_:7]", "r[x_Integer,y_Integer]", "r[x:f[_]]", "r[1/2]", "r[HoldPattern[x_]]"]
PROBE = ["r[1]", "r[2]", "r[a]", "r[f[1]]", "r[f[2]]", "r[1,2]", "r[1,1]", "r[a,a]", "r[]", "r[\"s\"]", "r[{1}]", "r[{}]", "r[{1,2}]", "r[1/2]", "r[f[f[1]]]", "r[1,2,3]"]


def c13(rng):
    out = []
    for p in list(itertools.product(LHS, LHS))[::1] if False else [rng.sample(LHS, rng.choice([2, 2, 3, 4])) for _ in range(330)]:
        c = ["Clear[r]"]
        for i, l in enumerate(p):
            c.append("%s:=%s" % (l, rng.choice(["k%d" % i, "k%d" % i, "k%d[x]" % i, "{k%d,x,y}" % i, "k%d[x]/;x=!=2" % i])) if rng.random() < .8 or "/;" in l else "%s=k%d" % (l, i))
        if rng.random() < .3:
            c.append("%s:=kk" % rng.choice(p))
        c.append("{%s}" % ",".join(rng.sample(PROBE, 7)))
        if rng.random() < .4:
            c.append("DownValues[r]")
        out.append(c)
    return [[z for c in g for z in c] for g in chunks(out, 6)]


ATTRS = ["HoldFirst", "HoldRest", "HoldAll", "HoldAllComplete", "SequenceHold", "Flat", "Orderless", "OneIdentity", "Listable", "NumericFunction", "Constant"]
CALLS = ["%s[1+1,Sequence[2+3,b],4+1]", "%s[Evaluate[1+1],Evaluate[2+2],Evaluate[Sequence[3,4]]]", "%s[Unevaluated[1+1],Unevaluated[2+2]]", "%s[{1,2},{3+1,4}]", "%s[{1,2},k]", "%s[3,{k,{2}}]", "%s[{},{}]", "%s[{1,2},{3}]", "%s[b,a,c]",
         "%s[%s[b,a],c,%s[1]]", "%s[c,%s[],b]", "lg={};{%s[(lg={lg,1};1),(lg={lg,2};2),(lg={lg,3};3)],lg}", "%s[x]/.x->k", "%s[k,k]/.x_Integer:>n[x]", "%s[]", "%s[1+1]", "%s[Sequence[]]", "MatchQ[%s[a,b],%s[b,a]]",
         "Replace[%s[b,a,c],%s[x_,y_]:>{x,y}]", "Replace[%s[a,b],%s[x_,y__]:>{x,{y}}]", "MatchQ[a,%s[x_]]", "Replace[%s[a],%s[x__]:>{x}]", "%s[a,b]===%s[b,a]", "%s[%s[a]]===%s[a]", "Hold[%s[1+1,{k}]]", "%s@@{k,1+1}", "Map[%s,{k,{1,2}}]",
         "Attributes[%s]", "%s[k=5,k]", "With[{k=7},%s[k,{k}]]", "Module[{q=3},%s[q,1+1]]", "%s[1+1][1+1]", "Sort[%s[c,b,a]]", "%s[2,a,1/2,\"s\",1.5,{}]", "%s[If[True,1,2],If[False,1,2]]", "{%s[a,b],%s[b,a]}/.%s[a,x_]:>n[x]"]


def c14(rng):
    sets = [()] + [(a,) for a in ATTRS] + list(itertools.combinations(ATTRS, 2)) + rng.sample(list(itertools.combinations(ATTRS, 3)), 15)
    out = []
    for i, a in enumerate(sets):
        h = "h%d" % i
        out.append(["k=2", rng.choice(["SetAttributes[%s,{%s}]", "Attributes[%s]={%s}", "SetAttributes[{%s},{%s}]"]) % (h, ",".join(a)), "Attributes[%s]" % h] + [c.replace("%s", h) for c in (rng.sample(CALLS, 16) if len(a) > 1 else CALLS)])
        if not set(a) & {"Flat", "Listable"} and rng.random() < .6:
            out[-1] += ["%s[x_,y_]:={y,x}" % h, "%s[1+1,k]" % h, "%s[b,a]" % h, "%s[{1,2},3+1]" % h, "%s[Sequence[1,2]]" % h, "%s[Unevaluated[1+1],Evaluate[1+1]]" % h]
        if a and rng.random() < .5:
            out[-1] += ["ClearAttributes[%s,%s]" % (h, a[0]), "Attributes[%s]" % h, rng.choice(CALLS[:13]).replace("%s", h)]
    return out


# ---------------------------------------------------------------- replacement
def c19(rng):
    E = ["a", "f[a]", "f[a,b]", "{a,b,a}", "f[f[a]]", "{f[a],{f[b]}}", "a+b", "a*b+c", "a^2", "g[a][b]", "Hold[1+1,a]", "{1,2,3}", "f[]", "{}", "x->a", "\"s\"", "1/2", "f[1,{2,f[3]}]"]
    R = ["a->b", "a->f[a]", "a:>b", "f->g", "x_->k[x]", "x_Integer:>x+1", "f[x_]:>x", "f[x__]:>{x}", "f[x_,y_]:>f[y,x]", "{x___,a,y___}:>{x,y}", "_f->z", "{a->b,b->a}", "{f[x_]:>g[x],a->c}", "a+b->c", "x_Symbol:>k[x]", "{a->1,1->2}",
         "x_/;x===a:>z", "x_?AtomQ:>n[x]", "List->f", "_Integer->0", "{}", "Plus->Times", "2->two", "a->Sequence[]", "a->Sequence[1,2]", "a->Unevaluated[1+1]", "f[x_]->x", "x_List:>Length[x]", "_->w", "__->w", "Except[a]->w",
         "a|b->c", "x:f[_]:>{x}", "f[a]->a", "{{a->1},{a->2}}"]
    out = []
    for e, r in itertools.product(E, R):
        if rng.random() < .55:
            out.append("%s/.%s" % (e, r))
        if rng.random() < .25:
            out.append("Replace[%s,%s]" % (e, r))
        if rng.random() < .2 and r in ("a->b", "a:>b", "f->g", "f[x_]:>x", "f[x__]:>{x}", "{x___,a,y___}:>{x,y}", "_f->z", "{f[x_]:>g[x],a->c}", "a+b->c", "{a->1,1->2}", "List->f", "{}", "f[a]->a", "a|b->c", "x_List:>Length[x]"):
            out.append("%s//.%s" % (e, r))
    for e in ["f[a,b,c]", "{a,b,c}", "{a,{b,c},d}", "f[a]", "a"]:
        for p in ["1", "2", "-1", "3", "0", "{1}", "{2,1}", "{{1},{2}}"]:
            out.append("ReplacePart[%s,%s->z]" % (e, p))
    rng.shuffle(out)
    return chunks(out, 6)


# -------------------------------------------------------- matrices and strings
def c32(rng):
    V = ["0", "1", "-1", "2", "a", "b", "1/2", "-3", "1.5"]
    m = lambda r, c, V=V: "{%s}" % ",".join("{%s}" % ",".join(rng.choice(V) for _ in range(c)) for _ in range(r))
    v = lambda n: "{%s}" % ",".join(rng.choice(V) for _ in range(n))
    out = []
    for r, c, d in itertools.product((1, 2, 3), repeat=3):
        for _ in range(3):
            out += ["%s.%s" % (m(r, c), m(c, d)), "%s.%s" % (m(r, c), v(c)), "%s.%s" % (v(r), m(r, c)), "Transpose[%s]" % m(r, c), "Dimensions[%s]" % m(r, c), "%s.%s" % (m(r, c), m(d, r)), "MatrixQ[%s]" % m(r, c), "VectorQ[%s]" % rng.choice([v(r), m(r, c)])]
    for n in (1, 2, 2, 3, 3, 4):
        for _ in range(5):
            out += ["Det[%s]" % m(n, n, V[:8]), "Det[%s]" % m(n, n, ["0", "1", "-1", "2"])]
    for n in (2, 2, 3):
        for _ in range(8):
            out.append("Inverse[%s]" % m(n, n, ["0", "1", "-1", "2", "3"]))
    out += ["Transpose[Transpose[%s]]" % m(2, 3) for _ in range(4)] + ["Tr[%s]" % m(2, 2) for _ in range(0)] + ["IdentityMatrix[%d].%s" % (n, m(n, n)) for n in (1, 2, 3)]
    out += ["%s+%s" % (m(2, 2), m(2, 2)) for _ in range(4)] + ["%s*%s" % (rng.choice(V), m(2, 2)) for _ in range(4)] + ["Total[%s]" % m(3, 2), "%s.%s.%s" % (m(2, 2), m(2, 2), v(2)), "Transpose[%s]" % v(2), "Det[%s]" % m(2, 3), "Det[%s]" % v(2)]
    return chunks(out, 5)


def c33(rng):
    S = ['""', '"a"', '"ab"', '"abc"', '"aba"', '"日a"', '"aéb"', '" a "', '"aaaa"', '"."', '"a.c"', '"[x]"', '"$1"']
    out = []
    for s in S:
        out += ["StringLength[%s]" % s, "ToString[%s]" % s, "StringJoin[%s,%s,%s]" % (s, rng.choice(S), s), "%s<>%s" % (rng.choice(S), s)]
        for i in range(-4, 6):
            out.append(("StringTake[%s,{%d,%d}]" % (s, i, rng.randint(i - 1, 5))) if i > 0 else "StringTake[%s,{%d,%d}]" % (s, rng.randint(1, 4), i))
        for t in S[1:]:
            if rng.random() < .6:
                out.append("StringReplace[%s,%s->%s]" % (s, t, rng.choice(S)))
            if rng.random() < .25:
                out.append(rng.choice(["%s===%s", "%s==%s", "Order[%s,%s]", "Sort[{%s,%s}]", "Union[{%s,%s}]"]) % (s, t))
    out += ["ToString[%s]" % e for e in ["a", "f[a]", "1", "-2", "1/2", "{1,2}", "f[\"s\"]", "{\"a\"}", "a+b", "1+1", "{}"]]
    rng.shuffle(out)
    return chunks(out, 5)


# -------------------------------------------------------------- immutability
def c07(rng):
    VALS = ["{3,1,2}", "{b,{a,c},a}", "f[b,a]", "{{1,2},{3,4}}", "b+a", "{1.5,2/3,a}", "w[b,a]", "u[c,b,a]", "{}", "a*b+c", "{x1->1,x2->2}", "v[a,v[b]]"]
    OPS = ["Sort[x]", "Reverse[x]", "Append[x,k]", "Prepend[x,k]", "Join[x,x]", "Map[h,x]", "Apply[h,x]", "x/.a->k", "x/.b:>k", "x//.a->k", "Replace[x,_->k]", "Rest[x]", "Most[x]", "Part[x,1]", "x[[{1}]]", "Take[x,1]", "Drop[x,1]", "Union[x]",
           "Cases[x,_Integer]", "Select[x,IntegerQ]", "Total[x]", "Flatten[x]", "x+1", "x*2", "-x", "x^2", "x==x", "PadRight[x,4]", "RotateLeft[x]", "DeleteCases[x,a]", "ReplacePart[x,1->k]", "Insert[x,k,1]"[:0] + "Position[x,a]", "Table[x,{i,2}]", "Fold[h,k,x]",
           "FoldList[Plus,0,x]", "MapIndexed[h,x]", "Thread[h[x,x]]", "Outer[h,x,x]", "Transpose[x]", "Partition[x,2]", "Tally[x]"[:0] + "Count[x,a]", "Level[x,1]", "Complement[x,{a}]", "Intersection[x,x]", "w[x,x]", "u[x,k,x]", "v[x,v[x]]", "l[x]", "h[x,x]", "Module[{t=x},t=Append[t,1];t]", "AppendTo[y,k]",
           "y=Sort[x]", "(y=x;y=k)", "Sum[x,{i,2}]", "Hold[x]/.x->k", "With[{a=k},x]", "Block[{a=k},x]"[:0] + "Function[{a},x][k]"[:0] + "Map[#&,x]", "Scan[h,x]", "MatchQ[x,{q__}]", "x/.{q_,r___}:>{r,q}", "x/.q_w:>Apply[List,q]", "Reap[Sow[x]]", "Length[x]", "x===y"]
    out = []
    for v in VALS:
        c = ["SetAttributes[u,Orderless]", "SetAttributes[w,{Flat,Orderless}]", "SetAttributes[v,Flat]", "SetAttributes[l,Listable]", "x=%s" % v, "y=x", "z[t_]:={t,x,%s}" % v]
        for o in rng.sample(OPS, 30):
            c += [o, "{x,y,z[1]}"] + (["y=x"] if "y" in o else [])
        out += [c[:37], c[:7] + c[37:]]
    return out


SYST = {"C01": c01, "C02": c01, "C03": c01, "C04": c04, "C05": c04, "C06": c06, "C08": c08, "C09": c09, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C20": c20, "C21": c21, "C22": c22, "C29": c29,
        "C30": c30, "C07": c07, "C13": c13, "C14": c14, "C19": c19, "C32": c32, "C33": c33, "C31": c31}


def scenarios(pid, seed):
    return SYST[pid](random.Random("syst/%s/%s" % (pid, seed))) if pid in SYST else []
