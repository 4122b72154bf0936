"""Sessions with random numbers: trees (spec/Rand.tla) and their texts."""
SEEDS = ["1", "2", "3", "0", "-5", "42", "1000003", "2^40", "-2^33", "7", "99", "12345"]
N = 60


def text(e, k):
    h, a = e[0], e[1:]
    t = lambda x: text(x, k)
    if h == "dr":
        return "RandomReal[]"
    if h == "sc":
        return "RandomReal[%d]" % a[0]
    if h == "rg":
        return "RandomReal[{%d,%d}]" % a
    if h == "se":
        return "SeedRandom[%s]" % SEEDS[a[0] - 1]
    if h == "li":
        return "{%s}" % ",".join(map(t, a))
    if h == "ta":
        return ("Table[%s,{i,%d}]" if a[1] % 2 else "Table[%s,%d]") % (t(a[0]), a[1])
    if h == "do":
        return "Do[%s,{i,%d}]" % (t(a[0]), a[1])
    if h == "sq":
        return "(%s)" % ";".join(map(t, a))
    if h == "set":
        return "(%s%d=%s)" % (a[0], k, t(a[1]))
    if h == "sd":
        return "(%s%d:=%s)" % (a[0], k, t(a[1]))
    if h == "va":
        return "%s%d" % (a[0], k)
    if h == "no":
        return ["Length[Range[%d]]", "(%d+0)", "Sort[{%d,100}][[1]]", "Fold[Max,%d,{0,-1}]", "Total[{1,%d,-1}]"][a[0] % 5] % a[0]
    if h == "ift":
        return "If[RandomReal[]<1,%s,%s]" % (t(a[0]), t(a[1]))
    if h == "iff":
        return "If[RandomReal[]<0,%s,%s]" % (t(a[0]), t(a[1]))
    if h == "ho":
        return "Hold[%s]" % t(a[0])
    if h in ("f1", "f2"):
        return "%s%d[%s]" % (h, k, t(a[0]))
    if h == "ct":
        return "Catch[%s;Throw[%s];%s]" % tuple(map(t, a))
    if h == "an":
        return "(False&&(%s;True))" % t(a[0])
    if h == "ma":
        return "Map[(%s;RandomReal[#])&,{%s}]" % (t(a[0]), ",".join(map(str, a[1])))
    if h == "mo":
        return "Module[{v=%s},{v,%s,v}]" % (t(a[0]), t(a[1]))
    if h == "nl":
        return "NestList[(%s;#+1)&,0,%d]" % (t(a[1]), a[0])
    if h == "wh":
        return "Module[{c=0},While[c<%d,%s;c=c+1]]" % (a[0], t(a[1]))
    raise ValueError(h)


LEAF = [lambda r: ("dr",)] * 6 + [lambda r: ("sc", r.choice([1, 2, 7, 10, 100, -3])), lambda r: ("rg", r.randint(-20, 20), r.randint(-20, 20)),
                                  lambda r: ("no", r.randint(1, 9)), lambda r: ("va", r.choice("xyz"))]


def lit(e):
    """e says nothing of a variable the surrounding function or loop names"""
    return e


def tree(r, d, flat=False):
    if d == 0 or r.random() < 0.25:
        return r.choice(LEAF)(r)
    s = lambda: tree(r, d - 1)
    h = r.choice(["li", "li", "ta", "do", "sq", "set", "set", "sd", "va", "ift", "iff", "ho", "f1", "f2", "ct", "an", "ma", "mo", "nl", "wh", "se"])
    if h in ("li", "sq"):
        return (h,) + tuple(s() for _ in range(r.randint(1 if h == "li" else 2, 4)))
    if h in ("ta", "do"):
        return (h, s(), r.randint(0, 5))
    if h == "set":
        return (h, r.choice("xyz"), s())
    if h == "sd":
        # no variables, so no variable that stands for itself
        return (h, r.choice("xyz"), r.choice([("dr",), ("li", ("dr",), ("sc", 10)), ("sq", ("dr",), ("rg", 1, 5)), ("ta", ("dr",), 2)]))
    if h == "va":
        return (h, r.choice("xyz"))
    if h in ("ift", "iff", "mo"):
        return (h, s(), s())
    if h in ("ho", "f1", "f2", "an"):
        return (h, s())
    if h == "ct":
        return (h, s(), s(), s())
    if h == "ma":
        return (h, s(), tuple(r.choice([1, 2, 10, 50, -4]) for _ in range(r.randint(1, 3))))
    if h in ("nl", "wh"):
        return (h, r.randint(0, 4), s())
    return (h, r.randint(1, len(SEEDS)))


def session(r, k):
    steps = [(("sq",) + tuple(("set", v, ("no", 1)) for v in "xyz"), "x%d=1;y%d=1;z%d=1" % (k, k, k)),
             (("se", 1), "f1%d[v_]:={v,v};f2%d[v_]:={v,v};SetAttributes[f2%d,HoldAll];SeedRandom[%s]" % (k, k, k, SEEDS[0]))]
    for _ in range(r.randint(4, 9)):
        if r.random() < 0.35:
            e = ("se", r.randint(1, len(SEEDS)))
        else:
            e = tree(r, r.randint(0, 3))
        steps.append((e, text(e, k)))
    return steps
