"""Inputs whose results are printed and read back: arithmetic, relations, rules,
patterns, parts, strings, held operators in every pair, names in contexts."""

NARY = ["Plus", "Times", "And", "Or", "Equal", "Unequal", "Less", "LessEqual", "Greater", "GreaterEqual", "SameQ", "UnsameQ",
        "StringJoin", "CompoundExpression", "Alternatives", "Dot"]
TWO = ["Power", "Rule", "RuleDelayed", "Set", "SetDelayed", "ReplaceAll", "ReplaceRepeated", "Condition", "PatternTest", "Map", "Apply",
       "Part", "Pattern", "Inequality"]
ONE = ["Not", "Factorial", "Function", "Optional", "Repeated", "Increment", "PreIncrement", "Decrement", "Sqrt", "Blank", "BlankSequence",
       "BlankNullSequence", "List", "f", "Slot", "Minus"]
OTHER = ["List", "f", "If", "Hold", "Span", "Derivative", "Sequence"]
STRS = ['"s"', '""', '"a b"', '"q\\"r"', '"b\\\\"', '"\\\\\\"x"', '"a(*b*)"', '"x\\\\n"', '"]"']
ATOMS = ["a", "b", "x", "y", "foo", "$v", "2", "0", "17", "123456789012345678901", "List", "Plus", "True", "E", "Pi"]


def leaf(r):
    return r.choice(ATOMS) if r.random() < 0.85 else r.choice(STRS)


def held(r, d, h=None, calls=True):
    """a term, written out as calls"""
    if h is None:
        if d <= 0 or r.random() < 0.25:
            return leaf(r)
        h = r.choice(r.choice([NARY, TWO, ONE, OTHER]))
    if h in ("Blank", "BlankSequence", "BlankNullSequence"):
        return h + "[" + r.choice(["", "", "h", "Integer", "f[x]", "1"]) + "]"
    if h == "Slot":
        return "Slot[%d]" % r.randint(1, 3)
    if h == "Pattern":
        return "Pattern[%s,%s]" % (r.choice(["x", "y", "x", "1", "f[x]"]), held(r, d - 1, r.choice([None, "Blank", "BlankSequence", "BlankNullSequence", "Blank"])))
    if h == "Optional" and r.random() < 0.6:
        return "Optional[%s]" % held(r, d - 1, r.choice(["Blank", "Pattern"]))
    if h == "Part" and r.random() < 0.3:
        return "Part[%s,1,%s]" % (held(r, d - 1), held(r, d - 1))
    n = r.choice([2, 2, 2, 3, 3, 4]) if h in NARY else 2 if h in TWO else 1 if h in ONE else r.randint(0, 3)
    if h in NARY and r.random() < 0.06:
        n = r.choice([0, 1])
    if calls and r.random() < 0.04:
        h = held(r, 1)
    return h + "[" + ",".join(held(r, d - 1) for _ in range(n)) + "]"


def pairs(r):
    """every operator directly below every other one, in every position"""
    out = []
    for p in NARY + TWO + ONE:
        if p in ("Blank", "BlankSequence", "BlankNullSequence", "Slot"):
            continue
        n = 3 if p in NARY else 2 if p in TWO else 1
        for c in NARY + TWO + ONE:
            for i in range(min(n, 2)):
                args = [leaf(r) for _ in range(n)]
                args[i] = held(r, 1, c)
                out.append("Hold[%s[%s]]" % (p, ",".join(args)))
    return out


def signed(r):
    """numbers with a sign or a fraction below every operator"""
    out = []
    for p in NARY + TWO + ONE:
        if p in ("Blank", "BlankSequence", "BlankNullSequence", "Slot", "Set", "SetDelayed", "Function", "Pattern", "Increment", "Decrement", "Apply", "Map"):
            continue
        n = 3 if p in NARY else 2 if p in TWO else 1
        for i in range(min(n, 2)):
            for x in ("-5", "-3/2", "2/3", "-7*I", "(2-I)", "-99999999999999999999", "-1.5"):
                args = ["z%d" % j for j in range(n)]
                args[i] = x
                out.append("%s[%s]" % (p, ",".join(args)))
    return out


def num(r):
    u = r.random()
    if u < 0.5:
        return str(r.randint(-9, 12))
    if u < 0.75:
        return "%s/%s" % (r.choice(["1", "3", "-2", "-7", "5"]), r.choice(["2", "3", "4", "9"]))
    if u < 0.85:
        return r.choice(["I", "2*I", "-I", "(2+3*I)", "(1/2-I)", "(-3*I/2)"])
    if u < 0.9:
        return r.choice(["1.5", "-2.25", "0.5", "3."])
    return r.choice(["123456789012345678901", "-99999999999999999999"])


def value(r, d):
    """an input that is evaluated"""
    u = r.random()
    if d <= 0 or u < 0.16:
        return r.choice(["a", "b", "c", "x", "y", "foo"]) if r.random() < 0.65 else "(%s)" % num(r)
    v = lambda: value(r, d - 1)
    if u < 0.30:
        return "(" + "+".join(v() for _ in range(r.randint(2, 3))) + ")"
    if u < 0.36:
        return "(%s-%s)" % (v(), v())
    if u < 0.48:
        return "(" + "*".join(v() for _ in range(r.randint(2, 3))) + ")"
    if u < 0.56:
        return "(%s/%s)" % (r.choice(["a", "x", "foo", "b+c", "3"]) if r.random() < 0.5 else v(), r.choice(["y", "c", "b*c", "(a+c)", "f[x]", "y^2"]))
    if u < 0.68:
        return "(%s)^(%s)" % (r.choice(["a", "x", "y", "b+c", "b*c", "-a", "-3", "7", "f[x]", "a/b", "I*x", "-2/3", "E", "1.5"]),
                              r.choice(["2", "-1", "-2", "1/2", "-1/2", "3/2", "x", "-x", "x+1", "x*y", "x^2", "2/3", "I", "-I*x", "1.5"]))
    if u < 0.72:
        return "f[%s]" % ",".join(v() for _ in range(r.randint(0, 2)))
    if u < 0.76:
        return "{%s}" % ",".join(v() for _ in range(r.randint(0, 3)))
    if u < 0.80:
        return "(%s%s%s)" % (r.choice(["a", "x", "a+b", "a*b"]), r.choice(["->", "==", "<", ">=", "!=", "<=", ":>", "&&", "||", "|", "."]), r.choice(["b", "y", "-b", "a-b", "f[c]", "(c->b)", "{a}"]))
    if u < 0.83:
        return r.choice(["Sqrt[%s]", "!(%s)", "(%s)!", "f[%s][x]", "(#+%s)&", "f'[%s]", "Log[%s]", "Sin[%s]"]) % r.choice(["a", "a+b", "x*y", "-x", "a*I", "x^2"])
    if u < 0.87:
        return r.choice(STRS)
    if u < 0.91:
        return r.choice(["x_", "x_h", "_", "__", "x_.", "y__Integer", "x:{1,2}", "(x_/;x>1)", "(_?f)", "(a|b|c)", "x:(a|b)", "_.", "Pattern[x,_[1]]"])
    return r.choice(["f", "List", "Rule", "Alternatives", "g[x]"]) + "[%s,%s]" % (v(), v())


def inputs(r, n):
    out = []
    for _ in range(n):
        out.append("Hold[%s]" % held(r, r.choice([1, 2, 3])) if r.random() < 0.45 else value(r, r.choice([1, 2, 3])))
    return out


def named(r):
    """a session in which names belong to several contexts"""
    ctx = ["p`", "q`", "p`q`", "a`", "Global`"]
    pre = []
    for _ in range(r.randint(0, 3)):
        pre.append(r.choice(["p`x", "q`x", "p`q`x", "{p`z, q`z, p`q`z}", "a`b", "a`b`c"]))
    u = r.random()
    c = r.choice(ctx[:4])
    if u < 0.35:
        pre.append('Begin["%s"]' % c)
    elif u < 0.65:
        pre.append('BeginPackage["%s"]' % c)
    elif u < 0.85:
        pre += ['BeginPackage["%s"]' % c, "x", "z", "EndPackage[]"]
    for _ in range(r.randint(0, 2)):
        pre.append(r.choice(["x", "z", "b", "{x, y}"]))
    names = ["x", "z", "b"] + [k + v for k in ctx + ["a`b`", "System`"] for v in "xzbc"] + ["Plus"]
    texts = []
    for _ in range(8):
        n = [r.choice(names) for _ in range(3)]
        texts.append(r.choice(["%s", "{%s, %s}", "f[%s, %s]", "%s + %s*%s", "Hold[%s_%s]", "Hold[%s_]", "%s -> %s", '{%s, "%s"}']).replace("%s_%s", "%s_" + r.choice(["h", "p`h"])))
        texts[-1] = texts[-1] % tuple(n[:texts[-1].count("%s")])
    # a pattern's name is a part of its token: not qualified
    texts = [t if not ("_" in t and "`" in t.split("_")[0]) else t.replace("p`", "").replace("q`", "").replace("a`", "").replace("b`", "").replace("Global`", "").replace("System`", "") for t in texts]
    return {"pre": pre, "texts": texts}
