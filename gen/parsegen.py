"""Texts for the parser: operators in every combination, random nesting,
white space, comments, redundant parentheses, and texts that are no expression."""
import itertools

BIN = {";": 1, "=": 3, ":=": 3, "//": 5, "+=": 8, "-=": 8, "/.": 9, "//.": 9, "->": 10, ":>": 10, "/;": 11, "|": 14,
       "||": 20, "&&": 22, "===": 26, "=!=": 26, "==": 27, "!=": 27, "<": 27, "<=": 27, ">": 27, ">=": 27, ";;": 28,
       "+": 32, "-": 32, "*": 40, " ": 40, "/": 45, ".": 48, "^": 56, "<>": 58, "/@": 64, "@@": 64, "@@@": 64, "@": 70, "?": 90}
POST = {"&": 7, "'": 60, "++": 80, "--": 80, ";": 1}
PRE = {"!": 23, "-": 46, "+": 46, "++": 75, "--": 75}
RULES = ("->", ":>")
NAMES = ["a", "b", "c", "x", "y", "foo", "g2", "$v", "Zed"]
ATOMS = NAMES + ["0", "1", "2", "17", "1073741824", "1073741823", "123456789012345678901", "#", "#2", "%", "%%", "%3",
                 '"s"', '""', '"a b"', '"q\\"\\\\"', "x_", "_", "__", "___", "y__", "z___", "n_Integer", "_h", "__h", "w_.", "_.",
                 "p`q", "List", "Plus", "Global`a", "007", "0.5", "2.25", ".125", "3."]


def lvl(o):
    return BIN.get(o, 0)


def operand(r, d):
    u = r.random()
    if d <= 0 or u < 0.55:
        return [r.choice(NAMES)] if r.random() < 0.6 else [r.choice(ATOMS)]
    if u < 0.7:
        return ["("] + seq(r, d - 1) + [")"]
    if u < 0.78:
        return ["{"] + items(r, d - 1) + ["}"]
    if u < 0.92:
        return [r.choice(["f", "g", "a", "Plus", "SameQ", "Times", "And", "Equal", "List", "Less", "Alternatives", "System`SameQ", "System`Times", "System`Less", "q`Plus"]), "["] + items(r, d - 1) + ["]"]
    if u < 0.97:
        return [r.choice(NAMES), "[["] + items(r, d - 1, 1) + ["]]"]
    return ["(", r.choice(["x", "y_", "z_Integer"]), ":", r.choice([["a"], ["(", "a", "|", "b", ")"], ["_"], ["f", "[", "_", "]"], ["0"]])[0], ")"] if r.random() < 0.5 else \
        ["f", "[", r.choice(["x", "y_", "z_Integer"]), ":"] + r.choice([["a"], ["(", "a", "|", "b", ")"], ["_"], ["f", "[", "_", "]"], ["0"]]) + ["]"]


def items(r, d, lo=0):
    n = r.randint(lo, 3)
    out = []
    for i in range(n):
        out += ([","] if i else []) + seq(r, d, r.randint(1, 2))
    return out


def seq(r, d, n=None):
    """operands joined with operators"""
    n = n or r.randint(1, 4)
    ops = list(BIN)
    out = []
    left = []           # levels of the operators so far
    rule = False
    for i in range(n):
        if i:
            o = r.choice(ops)
            while o in RULES and rule:
                o = r.choice(ops)
            if o in RULES:
                rule = True
            out.append(o)
            left.append(lvl(o))
        if r.random() < 0.15:
            p = r.choice(list(PRE))
            out.append(p)
            left.append(PRE[p])
        out += operand(r, d)
        if r.random() < 0.12:
            p = r.choice(list(POST) + ["!"])
            if p == "!" and any(l > 23 for l in left):
                p = "'"
            if p == ";" and i == n - 1:
                p = "&"
            if p != ";":
                out.append(p)
    if r.random() < 0.04 and d < 3:
        out.append(";")
    return out


def tight(a, b):
    """tokens that may stand next to each other"""
    x, y = a[-1], b[0]
    if a == " " or b == " ":
        return True
    w = lambda c: c.isalnum() or c in "_$`#%\"."
    if w(x) and w(y):
        return False
    if not w(x) and not w(y):
        return (x in "()[]{}," or y in "()[]{},") and not (x == "[" and y == "[") and not (x == "]" and y == "]") and not (x == "(" and y == "*")
    if (w(x) and y in "._") or (x in "._" and w(y)):
        return False
    if (x.isdigit() or x in "#%") and y in "'`*":
        return False
    if x in "#%" and y in "#%":
        return False
    return True


def render(r, toks):
    out = ""
    for i, t in enumerate(toks):
        if t == " ":
            out += " "
            continue
        if i and not (toks[i - 1] == " "):
            if not tight(toks[i - 1], t) or r.random() < 0.35:
                out += r.choice([" ", " ", "  ", "\t", " (* c *) ", " (* a (* b *) ] *)"])
        out += t
    return r.choice(["", "", "", " "]) + out + r.choice(["", "", "", " "])


def canimul(toks):
    """an implicit multiplication only before a token that cannot continue the one before"""
    for i, t in enumerate(toks):
        if t == " ":
            nx = toks[i + 1]
            if not (nx[0].isalnum() or nx[0] in "$\"({_#%"):
                return False
            if nx[0] == "%" or toks[i - 1][-1] in "%#" or toks[i - 1] in ("?",):
                return False
    return True


def ok(toks):
    for a, b in zip(toks, toks[1:]):
        if a in ("!",) and b in ("!",):
            return False
        if a in ("=",) and b == ".":
            return False
        if a == ";" and b in ("?", ";;"):
            return False
        if a == ";;" and b in ("!", "]", ")", "}", ",", "]]", ";;", ";"):
            return False
    return canimul(toks)


def exhaustive():
    """every pair of operators, every prefix and postfix operator in every place"""
    ts = []
    for o, q in itertools.product(BIN, BIN):
        if o in RULES and q in RULES:
            continue
        ts.append(["a", o, "b", q, "c"])
    for p, o in itertools.product(PRE, BIN):
        ts.append([p, "a", o, "b"])
        ts.append(["a", o, p, "b"])
    for p, o, q in itertools.product(PRE, BIN, BIN):
        if o in RULES and q in RULES:
            continue
        ts.append(["a", o, p, "b", q, "c"])
    for p, o in itertools.product(list(POST) + ["!"], BIN):
        ts.append(["a", p, o, "b"])
        if p != "!" or BIN[o] <= 23:
            ts.append(["a", o, "b", p])
    for p, q in itertools.product(PRE, POST):
        ts.append([p, "a", q])
    for p in list(POST) + ["!"]:
        for x in ("[", "[["):
            ts.append(["a", p, x, "b", "]" * len(x)])
    for o in BIN:
        for x in ("[", "[["):
            ts.append(["a", o, "b", x, "c", "]" * len(x)])
            ts.append(["a", x, "c", "]" * len(x), o, "b"])
            ts.append(["f", "[", "a", o, "b", "]"])
        ts.append(["(", "a", o, "b", ")", o, "c"])
        ts.append(["a", o, "(", "b", o, "c", ")"])
        ts.append(["(", "a", ")", o, "(", "(", "b", ")", ")"])
    for h, o in (("System`SameQ", "==="), ("System`And", "&&"), ("System`Less", "<"), ("System`Inequality", "<"), ("Plus", "+"), ("Times", "*"), ("And", "&&"), ("Or", "||"), ("Equal", "=="), ("SameQ", "==="), ("Less", "<"), ("Dot", "."),
                 ("Alternatives", "|"), ("StringJoin", "<>"), ("CompoundExpression", ";"), ("Unequal", "!="), ("UnsameQ", "=!=")):
        for q in (o, "<", "=="):
            if BIN[q] <= BIN[o]:
                ts.append([h, "[", "a", ",", "b", "]", q, "c"])
                ts.append([h, "@", "a", q, "c"] if BIN[q] < 70 else ["a"])
                ts.append(["c", q, h, "[", "a", ",", "b", "]"])
    ts += [["-", "(", "0.5", ")"], ["-", "0.5"], ["-", "(", "2", ")"], ["-", "2"], ["-", "-", "2"], ["-", "(", "-", "2", ")"], ["2", "-", "2"], ["2", "^", "-", "1"], ["-", "2", "^", "2"], ["-", "1073741824"], ["-", "123456789012"],
           ["(", "x_", ")", ":", "5"], ["x_", ":", "5"], ["(", "(", "y_h", ")", ")", ":", "(", "5", ")"], ["x", ":", "_"], ["x", ":", "(", "a", "|", "b", ")"],
           ["a", "/:", "f", "[", "a", "]", "=", "1"], ["a", "/:", "f", "[", "a", "]", ":=", "1"], ["a", "/:", "b", "=", "c", "=", "d"], ["a", "/:", "f", "[", "a", "]"], ["a", "/:", "(", "b", "=", "c", ")"]]
    return [t for t in ts if ok(t)]


def broken(r, toks):
    """a damaged token sequence"""
    t = list(toks)
    for _ in range(r.randint(1, 2)):
        if not t:
            break
        i = r.randrange(len(t))
        u = r.random()
        if u < 0.4:
            del t[i]
        elif u < 0.7:
            t.insert(i, r.choice(["(", ")", "[", "]", "{", "}", ",", "+", "*", "==", "->", "/", "a", "]]", "[[", "="]))
        else:
            t[i] = r.choice(["(", ")", "]", "}", ",", "+", "&&", "/.", "b"])
    bad = {";;", "?", "'", ":", "++", "--", "!", "/:", " "}
    t = [x for x in t if x not in bad]
    for a, b in zip(t, t[1:] + ["]"]):
        if a == "," and b in ("]", "}", "]]"):
            return None
        if a == "=" and b == ".":
            return None
        if a in RULES and (t.count("->") + t.count(":>")) > 1:
            return None
    return t or None


def texts(r, n):
    out = []
    while len(out) < n:
        t = seq(r, r.randint(0, 3))
        if not ok(t) or len(t) > 60:
            continue
        u = r.random()
        if u < 0.2:
            t = broken(r, t)
            if not t:
                continue
        out.append(render(r, t))
    return out


FOREIGN = ["##", "##2", "{##}&", "#name", "a~f~b", "2^^101", "a..", "a...", "x=.", "a>>b", "<<a", "f@*g", "f/*g", "a**b", "f//@a", "a**b**c", "f[a]~g~h[b]", "{a..,b}", "f[##]", "(a**b)"]
AROUND = ["%s", "%s", "f[%s]", "{1,%s}", "{%s,a}", "(%s)", "f[a,%s,b]", "g[f[{%s}]]", "a+(%s)", "(%s)*b", "x=(%s)", "If[a,%s,c]"]


def foreign(r, n):
    """inputs the language has and this system does not, between inputs it has"""
    out = []
    for f in FOREIGN:
        for a in AROUND:
            out.append(a % f)
    r.shuffle(out)
    return out[:n]
