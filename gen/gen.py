"""Scenario generators, one per property decided with recorded sessions.
Every scenario is a list of top-level inputs; lower-case names get a suffix
that makes them unique to their scenario in a session."""
import random
from base import G, join

GEN = {}


def gen(*pids):
    def deco(f):
        for pid in pids:
            GEN.setdefault(pid, []).append(f)
        return f
    return deco


@gen("C23")
def c23(g):
    n = g.n(5, 22)
    out = ["x=%d" % g.n(1, 9)]
    A = lambda: g.ch(g.atom(), "x", "y", "f[x]", "x+1", "{x,y}", "r[x]")
    V = lambda: g.ch(g.small(), "x", "x+1", "f[x]", "{x,2}")
    for i in range(2, n + 1):
        k = lambda: g.n(1, i - 1)
        c = g.n(0, 26)
        out.append(["In[%d]" % k(), "Out[%s]" % g.ch(k(), k(), k(), 999, 0), "%", "%%", "%%%", "%%%d" % k(), "In[%d]+Out[%d]" % (k(), k()), "{%,%%}", "f[%]", "$Line", "x=%s" % V(), "y:=%s" % V(), "x=x+1", "%+1", "(x=%d;y)" % g.n(0, 9), "Throw[%s]" % A(),
                    "r[t_]:={t,%s}" % V(), "r[%s]" % A(), "z=%", "f[Throw[%]]", "%s" % g.expr(2), "Out[$Line-%d]" % g.n(1, 3), "x==%", "Evaluate[x=x+1]", "1;", "x", "y"][c])
    if g.p(0.3):
        out.insert(g.n(0, len(out)), g.ch("$PrePrint=h", "$PrePrint=({#}&)", "$PrePrint=Length"))
    if g.p(0.15):
        out.append("$Line=%d" % g.n(30, 60))
        out += ["f[%]", "x", "%%+1", "$Line"]
    if g.p(0.3):
        out.append(g.ch("DownValues[Out]", "DownValues[In]"))
    return out


FIXED = {
    "C15": [["r[k_]:=r[k]=s[k-1]", "r[5]", "s[k_]:=k^2", "r[5]"]],
}


def scenarios(pid, seed, n):
    rng = random.Random("%s/%s" % (pid, seed))
    fs = GEN[pid]
    out = list(FIXED.get(pid, ()))
    for i in range(n):
        f = fs[i % len(fs)]
        out.append(f(G(rng)))
    return out


# =================================================================== patterns
ATTRH = ["SetAttributes[u,Orderless]", "SetAttributes[v,Flat]", "SetAttributes[w,{Flat,Orderless}]",
         "SetAttributes[q,{Flat,OneIdentity}]", "SetAttributes[p,{Flat,Orderless,OneIdentity}]"]
HEADS = ("f", "g", "List", "u", "v", "w", "q", "p")
NAMES = ["x", "y", "z", "t", "s"]


class PG:
    """an expression and a pattern abstracted from it"""

    def __init__(self, g, heads=("f", "g", "List"), seq=True, ctl=True):
        self.g, self.heads, self.seq, self.ctl = g, heads, seq, ctl
        self.names = []

    def name(self):
        if self.names and self.g.p(0.25):
            return self.g.ch(*self.names)
        n = NAMES[len(self.names)] if len(self.names) < len(NAMES) else self.g.ch(*NAMES)
        if n not in self.names:
            self.names.append(n)
        return n

    def leaf(self, sub, kind):
        g = self.g
        h = {"sym": "Symbol", "int": "Integer", "str": "String", "rat": "Rational", "real": "Real"}.get(kind, kind)
        k = g.r.random()
        if k < 0.3:
            return self.name() + "_"
        if k < 0.42:
            return self.name() + "_" + (h if g.p(0.8) else g.ch("Integer", "Symbol", "List", "f"))
        if k < 0.52:
            return "_" if g.p(0.6) else "_" + (h if g.p(0.8) else "Integer")
        if self.ctl:
            if k < 0.58:
                return "(%s|%s)" % ((sub, g.atom()) if g.p(0.5) else (g.atom(), self.name() + "_"))
            if k < 0.62:
                return "Except[%s]" % g.atom() if g.p(0.5) else "Except[%s,%s]" % (g.atom(), self.name() + "_")
            if k < 0.68:
                return self.name() + "_?" + g.ch("EvenQ", "IntegerQ", "AtomQ", "NumberQ", "(#>1&)", "(MatchQ[#,_f]&)")
            if k < 0.71:
                return "(%s:%s)" % (self.name(), sub)
            if k < 0.74:
                return "HoldPattern[%s]" % sub
            if k < 0.77:
                return "Verbatim[%s]" % sub
        return sub

    def both(self, d):
        g = self.g
        if d == 0 or g.p(0.25):
            k = g.r.random()
            if k < 0.45:
                s, kind = g.sym(), "sym"
            elif k < 0.85:
                s, kind = str(g.n(0, 4)), "int"
            elif k < 0.93:
                s, kind = g.string(), "str"
            else:
                s, kind = "(1/2)", "rat"
            return s, self.leaf(s, kind)
        h = g.ch(*self.heads)
        parts, pats = [], []
        for _ in range(g.n(0 if g.p(0.2) else 1, 3)):
            if self.seq and g.p(0.22):
                k = g.n(0, 2)
                parts += [g.expr(1, ("f", "g"), 0, 2) for _ in range(k)]
                b = "__" if k and g.p(0.6) else "___"
                pats.append(g.ch(self.name() + b, self.name() + b, b, self.name() + b + g.ch("Integer", "Symbol", "f")))
            elif self.ctl and g.p(0.06):
                k = g.n(1, 3)
                a = g.atom()
                parts += [a] * k
                pats.append(g.ch("Repeated[%s]", "RepeatedNull[%s]") % g.ch(a, "_", "_Integer"))
            elif self.ctl and g.p(0.07):
                if g.p(0.5):
                    parts.append(g.atom())
                pats.append("%s_:%s" % (self.name(), g.ch("0", "a", "7")))
            else:
                a, b = self.both(d - 1)
                parts.append(a)
                pats.append(b)
        if g.p(0.12) and parts:
            parts.pop(g.n(0, len(parts) - 1))
        if g.p(0.1):
            parts = g.perm(parts)
        e = ("{%s}" if h == "List" else h + "[%s]") % join(parts)
        q = ("{%s}" if h == "List" else h + "[%s]") % join(pats)
        if g.p(0.1):
            q = self.leaf(e, "f" if h == "f" else "List")
        elif self.ctl and g.p(0.08) and self.names:
            q = "(%s/;%s)" % (q, g.ch("%s===%s" % (g.ch(*self.names), g.atom()), "IntegerQ[%s]" % g.ch(*self.names),
                                       "FreeQ[{%s},%s]" % (g.ch(*self.names), g.sym())))
        return e, q


def holds(names):
    return "{" + join("{%s}" % n for n in names) + "}"


def need(src, k):
    """attribute settings for the heads used"""
    return [a for a in ATTRH if any((a[14] + "[") in s for s in src)]


@gen("C01")
def c01_plain(g):
    out = []
    for _ in range(6):
        pg = PG(g)
        e, q = pg.both(g.n(1, 3))
        out.append("MatchQ[Hold[%s],Hold[%s]]" % (e, q) if g.p(0.2) else "MatchQ[%s,%s]" % (e, q))
        if g.p(0.7):
            out.append("Replace[%s,%s:>%s]" % (e, q, holds(pg.names)))
    return out


@gen("C01")
def c01_attr(g):
    out = []
    for _ in range(5):
        pg = PG(g, heads=("f", "u", "v", "w", "q", "p"), ctl=g.p(0.35))
        e, q = pg.both(g.n(1, 2))
        out.append("MatchQ[%s,%s]" % (e, q))
        if g.p(0.7):
            out.append("Replace[%s,%s:>%s]" % (e, q, holds(pg.names)))
    return need(out, 0) + out


@gen("C01")
def c01_def(g):
    """the same decision made by a definition"""
    pg = PG(g, heads=("f", "List", "u"), ctl=g.p(0.5))
    out = []
    for _ in range(3):
        pg.names = []
        e, q = pg.both(2)
        i = len(out)
        out += ["r%s[%s]:=ok%s" % ("abc"[i // 2], q, holds(pg.names)), "r%s[%s]" % ("abc"[i // 2], e)]
    return need(out, 0) + out


@gen("C01")
def c01_repeat(g):
    a, b = g.atom(), g.atom()
    l = [g.ch(a, b, g.atom()) for _ in range(g.n(2, 5))]
    h = g.ch("f", "u", "w", "v")
    pat = g.ch("x_,x_", "x_,y_,x_", "x_,y___,x_", "x__,x__", "y___,x_,z___,x_,t___", "x_,x_,y___", "x_,f[x_]", "g[x_,y_],f[y_,x_]")
    if "f[" in pat and g.p(0.8):
        l = [a, "f[%s]" % g.ch(a, b)] if "g[" not in pat else ["g[%s,%s]" % (a, b), g.ch("f[%s,%s]" % (b, a), "f[%s,%s]" % (a, b))]
    e = "%s[%s]" % (h, join(l))
    out = ["MatchQ[%s,%s[%s]]" % (e, h, pat),
           "Replace[%s,%s[%s]:>{x,{y},{z}}]" % (e, h, pat), "Cases[{%s,%s[%s],%s[%s]},%s[%s]]" % (e, h, a, h, join([a, a]), h, pat)]
    return need(out, 0) + out


@gen("C02")
def c02_seq(g):
    h = g.ch("f", "u", "v", "w", "q", "p", "List")
    if h in ("f", "List", "u", "w", "p"):
        n = g.n(0, 5 if h in "f List" else 4)
    else:
        n = g.n(0, 4)
    l = [g.ch("a", "b", "c", "1", "2", "a", "f[a]") for _ in range(n)]
    pats, names = [], []
    for nm in NAMES[:g.n(1, 3)]:
        names.append(nm)
        pats.append(nm + g.ch("_", "__", "___", "__", "_Integer", "__Symbol", "___Integer"))
    if g.p(0.2):
        pats.insert(g.n(0, len(pats)), g.ch("a", "_", "1", "f[_]"))
    if g.p(0.12) and h in ("f", "List"):
        pats.append("k_:9")
        names.append("k")
    if g.p(0.2):
        pats.append(g.ch(*pats))
    e = ("{%s}" if h == "List" else h + "[%s]") % join(l)
    q = ("{%s}" if h == "List" else h + "[%s]") % join(pats)
    out = ["ReplaceList[%s,%s->%s]" % (e, q, holds(names))]
    if g.p(0.5):
        out.append("Length[ReplaceList[%s,%s->%s]]" % (e, q, holds(names)))
    if g.p(0.4):
        out.append("Replace[%s,%s->%s]" % (e, q, holds(names)))
    return need(out, 0) + out


@gen("C02")
def c02_nested(g):
    pats = g.ch("{x___,y_,z___}", "{x__,y__}", "{___,x_,___}", "{___,x_,y_,___}", "{x___,x___}", "{x___,y__,x___}",
                "{___,f[x___,y_],z___}", "{x_,___,y_}", "{{x___},{y___,z_}}", "{x___,f[y__],z___}", "{x:(a|b)...}"[:0] + "{x__Integer,y___}",
                "{___,x_?IntegerQ,___}", "{x___,y_Symbol,z___}")
    l = g.args(lambda: g.ch("a", "b", "1", "2", "3", "f[a,b]", "f[1]", "f[a,b,c]", "{a}", "{}", "{1,2}"), 0, 5)
    return ["ReplaceList[{%s},%s->%s]" % (l, pats, holds(["x", "y", "z"]))] + \
           (["ReplaceList[{{%s},{%s}},{{x___,y_},{z__}}->{{x},{y},{z}}]" % (g.args(g.atom, 0, 3), g.args(g.atom, 0, 3))] if g.p(0.3) else [])


@gen("C02")
def c02_plus(g):
    t = g.perm(["a", "b", "c", "d*e", "f[a]", "2"])[:g.n(2, 4)]
    op = g.ch("+", "*")
    if op == "*":
        t = [x for x in t if x != "d*e"] + (["d"] if len(t) < 2 else [])
    q = g.ch("x_%sy_", "x_%sy__", "x_%sy_%sz_", "a%sx_", "a%sx__", "x_Symbol%sy_")
    q = q.replace("%s", op)
    return ["ReplaceList[%s,%s->%s]" % (op.join(t), q, holds(["x", "y", "z"])),
            "Replace[%s,%s->%s]" % (op.join(t), q, holds(["x", "y", "z"]))]


@gen("C03")
def c03(g):
    k = g.n(0, 9)
    A = lambda: g.ch("1", "2", "a", "b", "f[1]", "f[a,b]", "{1,2}", "g[2]")
    if k == 0:
        e = "f[%s,%s]" % (A(), A())
        return ["%s/.(f[x_,%s]|f[%s,x_]):>{x,y}" % (e, A(), A()), "Replace[%s,(f[x_Integer,_]|f[_,y_]):>{x,y}]" % e, "x", "y"]
    if k == 1:
        l = "{%s}" % g.args(A, 2, 4)
        return ["%s/.{{x_Integer,y_Symbol,___}:>{x,y},{z_,x__}:>r[x,y,z]}" % l, "{x,y,z}",
                "Replace[%s,{{x_,x_,___}:>s[x],{x_,y___}:>t[x,y]}]" % l]
    if k == 2:
        return ["r[x_Integer,y_]:=s[x,y]/;x>y", "r[y_,x_]:=t[x,y]", "r[%s,%s]" % (g.small(), g.small()), "r[%s,%s]" % (A(), A()),
                "r[2,1]", "r[1,2]", "DownValues[r]", "{x,y}"]
    if k == 3:
        a, b = g.small(), g.small()
        return ["f[%s,%s]/.f[x_,y_]/;x>y:>{x,y,z}" % (a, b), "f[%s,%s]/.f[x_,y_]/;(x>y&&x>1):>{x,y}" % (a, b), "z",
                "Cases[{f[%s,1],f[1,%s],f[2,2]},f[x_,y_]/;x<y]" % (a, b)]
    if k == 4:
        return ["r=(f[x_,y___]:>{x,{y},z})", "f[%s]/.r" % A(), "r", "f[%s,%s,%s]/.r" % (A(), A(), A()), "r", "{f[1],f[2,3]}/.r"]
    if k == 5:
        return ["Replace[{%s,%s,%s},{f[x_],y_,Except[x_Integer]}:>{x,y}]" % (A(), A(), A()),
                "Replace[{%s,%s},{Except[x_Integer,y_],z_}:>{x,y,z}]" % (A(), A()),
                "MatchQ[f[%s,%s],f[x_,Except[x_]]]" % (A(), A())]
    if k == 6:
        return ["r[x_,x_]:=s[x]", "r[x_,y_]:=t[x,y]", "r[%s,%s]" % (A(), A()), "r[a,a]", "r[b,a]", "r[r[1,1],r[1,1]]", "DownValues[r]"]
    if k == 7:
        return ["r[x_]:=Replace[x,{f[y_,y_]:>s[x,y],f[y_,z_]:>t[x,y,z],y_:>u[x,y]}]", "r[f[%s,%s]]" % (A(), A()), "r[%s]" % A(), "{x,y,z}",
                "DownValues[r]"]
    if k == 8:
        return ["ReplaceList[{%s},{x___,y_Integer,z___}->s[{x},y,{z},t]]" % g.args(A, 0, 4), "{x,y,z}",
                "{%s}//.{x___,y_Integer,z_Integer,t___}/;y>z:>{x,z,y,t}" % g.args(g.small, 1, 5), "{x,y,z,t}"]
    return ["r[x_]:=If[x>2,s[x],r[x+1]]", "r[%d]" % g.n(0, 3), "t[x_,y_]:=r[y]+x", "t[%d,%d]" % (g.n(1, 5), g.n(0, 5)), "DownValues[r]", "x",
            "t[x_,y_]:=Module[{z=x},z+r[y]]", "t[y,%d]" % g.n(0, 4)]


@gen("C01")
@gen("C03")
def c03_nested(g):
    """inner sequences that can match in several ways, decided by later parts"""
    out = []
    for _ in range(5):
        hs = [g.ch("List", "f", "g") for _ in range(3)]
        if g.p(0.2):
            hs[0] = g.ch("u", "v", "w")
        W = lambda h, l: ("{%s}" if h == "List" else h + "[%s]") % join(l)
        names = NAMES[:g.n(2, 3)]
        el = lambda: g.ch("1", "2", "a", "b", "1", "2")
        inner, pats = [], []
        k = g.n(2, 3)
        for i in range(k):
            if g.p(0.75):
                l = [el() for _ in range(g.n(1, 3))]
                ps = [g.ch(*names) + g.ch("_", "__", "___", "__") for _ in range(g.n(1, 3))]
                if g.p(0.15):
                    ps[-1] = g.ch(el(), "_", "___", "(%s|%s_)" % (el(), g.ch(*names)), "%s_:%s" % (g.ch(*names), el()))
                inner.append(W(hs[i], l))
                pats.append(W(hs[i], ps))
            else:
                inner.append(el())
                pats.append(g.ch(*names) + "_")
        o = g.ch("List", "f", "g", "u", "List", "f") if hs[0] in ("List", "f", "g") else "f"
        if g.p(0.6):
            # make it a match more often: bind the names to fixed sequences
            val = {n: [el() for _ in range(g.n(1, 2 if hs[0] in ("List", "f", "g") else 1))] for n in names}
            inner = []
            pats = []
            for i in range(k):
                ns = [g.ch(*names) for _ in range(g.n(1, 3))]
                l = [v for n in ns for v in val[n]]
                if hs[i] in "uw" and g.p(0.5):
                    l = g.perm(l)
                inner.append(W(hs[i], l))
                pats.append(W(hs[i], [n + ("_" if len(val[n]) == 1 and g.p(0.6) else g.ch("__", "___")) for n in ns]))
        e, q = W(o, inner), W(o, pats)
        out.append("MatchQ[%s,%s]" % (e, q))
        if g.p(0.7):
            out.append("Replace[%s,%s:>%s]" % (e, q, holds(names)))
        if g.p(0.3):
            out.append("ReplaceList[%s,%s->%s]" % (e, q, holds(names)))
    return need(out, 0) + out


@gen("C01")
@gen("C02")
def c02_optional(g):
    """optional arguments, with a default of their own or of the head"""
    out = []
    for _ in range(4):
        h = g.ch("f", "g", "List", "u", "v", "f", "Plus", "Times", "o")
        names, pats = [], []
        for nm in NAMES[:g.n(1, 4)]:
            names.append(nm)
            k = g.n(0, 9)
            pats.append(nm + ("_:%s" % g.ch("7", "8", "a", "0") if k < 4 else "_" if k < 6 else "__" if k < 7 else "___" if k < 8 else "_Integer" if k < 9 else "_"))
        if h in ("Plus", "Times", "o"):
            pats = [p_.split("_")[0] + g.ch("_.", "_", "_.") for p_ in pats][:2]
            names = names[:2]
            if h != "o" and g.p(0.4):
                pats[0] = g.ch("a", "x_Symbol", "f[x_]", "x_^y_.", "2")
                names = ["x", "y"]
        l = [g.ch("1", "2", "a", "b", "f[a]", "7") for _ in range(g.n(0, len(pats) + 1))]
        W = lambda l: ("{%s}" if h == "List" else h + "[%s]") % join(l)
        e = W(l) if g.p(0.8) else g.ch("a", "a^2", "f[a]", "3", "2*a", "1+a", "b*a")
        q = W(pats)
        out.append(g.ch("ReplaceList[%s,%s->%s]", "Replace[%s,%s:>%s]") % (e, q, holds(names)))
        out.append("MatchQ[%s,%s]" % (e, q))
    return need(out, 0) + out


# ================================================================ order, sets
@gen("C04")
def c04(g):
    T = lambda: g.expr(2, ("f", "g", "List", "h"), 0, 3) if g.p(0.6) else g.ch(g.number(), g.string(), g.sym(), "ab", "aB", '"aB"', '"ab"')
    out = []
    for _ in range(8):
        a, b = T(), T()
        if g.p(0.2):
            b = a
        out.append("{Order[%s,%s],Order[%s,%s]}" % (a, b, b, a))
    xs = [T() for _ in range(4)]
    out.append("Sort[{%s}]" % join(xs))
    if g.p(0.4):
        x, y = g.sym(), g.sym()
        out.append("{Order[%s^%s,%s],Order[%s*%s,%s],Order[%s+%s,%s^2]}" % (x, g.small(), y, g.small(), x, y, x, y, g.sym()))
    return out


@gen("C04", "C05", "C06")
def c04_held(g):
    """unevaluated products and powers, which the order treats specially"""
    def t(d):
        if d == 0 or g.p(0.25):
            return g.ch("a", "b", "1", "2", "-1", "1/2", '"a"', "f[a]", "1.5", "0")
        h = g.ch("Times", "Power", "Plus", "f", "Times", "Power")
        n = 2 if h == "Power" and g.p(0.9) else g.n(0, 3)
        return "%s[%s]" % (h, join(t(d - 1) for _ in range(n)))

    def near(x):
        return g.ch("Times[1,%s]" % x, "Power[%s,1]" % x, "Times[%s]" % x, "Power[%s,2]" % x, "Times[2,%s]" % x, "Plus[%s,1]" % x, "f[%s]" % x, x, "Times[%s,b]" % x, "Times[1,Power[%s,1]]" % x)
    out = []
    for _ in range(5):
        a = t(g.n(0, 2))
        b = near(a) if g.p(0.6) else t(2)
        c = near(b) if g.p(0.5) else near(a)
        out += ["{Order[Hold[%s],Hold[%s]],Order[Hold[%s],Hold[%s]],Order[Hold[%s],Hold[%s]]}" % (a, b, b, a, b, c),
                "{Sort[Hold[%s,%s,%s]],Sort[Hold[%s,%s,%s]]}" % (a, b, c, c, b, a), "{Hold[%s]===Hold[%s],Union[Hold[%s,%s],Hold[%s]]}" % (a, b, a, b, c)]
    return out + ["SetAttributes[oh,{HoldAll,Orderless}]", "oh[%s,%s,%s]" % (a, b, c), "oh[%s,%s,%s]===oh[%s,%s,%s]" % (a, b, c, c, a, b)]


@gen("C05")
def c05(g):
    T = lambda: g.expr(1, ("f", "g", "List"), 0, 2)
    xs = [T() for _ in range(g.n(0, 5))]
    if xs and g.p(0.4):
        xs.append(g.ch(*xs))
    out = ["Sort[{%s}]" % join(g.perm(xs)), "Sort[f[%s]]" % join(g.perm(xs)), "Sort[{%s}]===Sort[{%s}]" % (join(g.perm(xs)), join(g.perm(xs)))]
    ys = [T() for _ in range(g.n(2, 4))]

    def tree(h, l):
        if len(l) == 1 and g.p(0.7):
            return l[0]
        if len(l) <= 1 or g.p(0.3):
            return "%s[%s]" % (h, join(l))
        i = g.n(1, len(l) - 1)
        return "%s[%s,%s]" % (h, tree(h, l[:i]), tree(h, l[i:]))
    h = g.ch("u", "v", "w", "q", "p")
    src = []
    for hh in (h, g.ch("w", "p")):
        zs = g.perm(ys) if hh in "uwp" else ys
        src.append("%s[%s]" % (hh, join(zs)) if hh == "u" else tree(hh, zs))
    src.append("%s===%s" % ((tree("w", ys), tree("w", g.perm(ys)))))
    src.append("%s===%s" % (tree("v", ys), tree("v", ys)))
    out = need(src, 0) + out + src
    out.append("SetAttributes[l,Listable]")
    n = g.n(0, 3)
    L = lambda: "{%s}" % join(g.atom() for _ in range(n))
    out += ["l[%s,%s,%s]" % g.ch((L(), "a", L()), (L(), L(), L()), ("1", L(), "x"), (L(), "{%s}" % g.args(g.atom, 0, 3), "b")),
            "%s+%s" % (L(), L()), "%s*%s" % (g.sym(), L()), "l[{%s,%s},%s]" % (L(), L(), g.ch("a", "{a,b}"))]
    op = g.ch("+", "*")
    zs = [g.ch("a", "b", "2", "3", "c", "f[a]", "(1/2)") for _ in range(4)]
    out.append("(%s)===(%s)" % (op.join(g.perm(zs)), op.join(g.perm(zs))))
    out.append(op.join(g.perm(zs)))
    out.append("(%s%s(%s))" % (zs[0], op, op.join(zs[1:])))
    return out


@gen("C06")
def c06(g):
    T = lambda: g.ch("1", "2", "1.", "1.5", '"1"', '"a"', "a", "b", "f[a]", "f[1]", "f[1.]", "{1}", "{a}", "{1,2}", "{2,1}", "f[]", "{}", "(1/2)", "0.5", "f[a,b]", "a+b", "b+a",
                     "a*2", "2*a", "Complex[1,2]", "10000000000000000000000", "-1", "0", "f[f[a]]")
    k = g.n(0, 2)
    out = []
    if k == 0:
        for _ in range(6):
            a, b = T(), T()
            out.append("{%s===%s,%s=!=%s,SameQ[%s,%s,%s]}" % (a, b, a, b, a, a, b))
        a = g.expr(3)
        out.append("Hash[%s]===Hash[%s]" % (a, a))
        out.append("Hash[%s]===Hash[%s]" % ("f[%s,a+b,1+1]" % a, "f[%s,b+a,2]" % a))
        out.append("Hash[f[%s,2*a,2/4,1.5]]===Hash[f[%s,a*2,1/2,3/2.]]"[:0] + "Hash[{%s,2*a,2/4}]===Hash[{%s,a*2,1/2}]" % (a, a))
        out.append("x={%s};y={%s};{x===y,Hash[x]===Hash[y]}"[:0] + "x={%s}" % a)
        out.append("Hash[x]===Hash[{%s}]" % a)
        return out
    pool = [T() for _ in range(4)]
    L = lambda lo=0, hi=6: "{%s}" % join(g.ch(*pool) for _ in range(g.n(lo, hi)))
    if k == 1:
        out += ["Union[%s]" % L(), "Union[%s,%s]" % (L(), L()), "Intersection[%s,%s]" % (L(), L()), "Complement[%s,%s]" % (L(), L()),
                "Complement[%s,%s,%s]" % (L(), L(0, 2), L(0, 2)), "Intersection[%s,%s,%s]" % (L(3, 6), L(3, 6), L(3, 6)), "DeleteDuplicates[%s]" % L(),
                "Union[f[%s],f[%s]]" % (join(g.perm(pool)), g.ch(*pool)), "Union[%s,%s,%s]" % (L(), L(), L())]
    else:
        x = g.ch(*pool)
        out += ["Tally[%s]" % L(), "Count[%s,%s]" % (L(), x), "MemberQ[%s,%s]" % (L(), x), "FreeQ[%s,%s]" % (L(), x), "DeleteDuplicates[f[%s]]" % join(pool + pool),
                "Length[Union[%s]]" % L(), "Cases[%s,%s]" % (L(), x), "DeleteCases[%s,%s]" % (L(), x), "Tally[%s]" % L(4, 8)]
    return out


def mutate(g, e):
    """a term that differs from e = (head, args) or atom string a little"""
    if isinstance(e, str):
        return g.ch("1", "2", "-1", "1.", "2.", '"1"', '"2"', "a", "b", '"a"', "(1/2)", "(2/1)", "(-1/2)", "Complex[1,2]", "Complex[2,1]", "Complex[-1,2]", "Complex[1,-2]",
                    "Complex[1,(1/2)]", "Complex[2,-1]", "{}", "f[]", "(2/3)", "(3/2)", "12", "21", '"ab"', '"ba"', "ab", "ba", "0", '""', "0.5")
    h, l = e
    k = g.n(0, 6)
    l = list(l)
    if k == 0 and len(l) > 1:
        i = g.n(0, len(l) - 2)
        l[i], l[i + 1] = l[i + 1], l[i]
    elif k == 1 and l:
        i = g.n(0, len(l) - 1)
        l[i] = mutate(g, l[i])
    elif k == 2 and l:
        l.pop(g.n(0, len(l) - 1))
    elif k == 3:
        l.append(l[-1] if l else "a")
    elif k == 4 and len(l) > 1:
        l = [(h, l[:1])] + l[1:]
    elif k == 5:
        h = g.ch("f", "g", "List")
    elif l:
        i = g.n(0, len(l) - 1)
        l[i] = mutate(g, l[i])
    return (h, l)


def tree(g, d):
    return mutate(g, "") if d == 0 or g.p(0.35) else (g.ch("f", "List", "g"), [tree(g, d - 1) for _ in range(g.n(0, 3))])


def text(e):
    if isinstance(e, str):
        return e
    return ("{%s}" if e[0] == "List" else e[0] + "[%s]") % join(text(x) for x in e[1])


@gen("C06")
@gen("C04")
def c06_near(g):
    """terms that differ only slightly: identity, order, hash, set operations"""
    out = []
    for _ in range(4):
        a = tree(g, 2)
        b = mutate(g, a)
        c = mutate(g, g.ch(a, b))
        A, B, C = text(a), text(b), text(c)
        out.append("{%s===%s,SameQ[f[%s],f[%s]],%s===%s,UnsameQ[%s,%s],Order[%s,%s],Order[%s,%s],Order[%s,%s]}" % (A, B, A, B, A, A, B, C, A, B, B, C, C, A))
        out.append("{Sort[{%s,%s,%s}],Union[{%s},{%s,%s}],Intersection[{%s,%s},{%s}],Complement[{%s,%s},{%s}]}" % (A, B, C, A, B, C, A, B, C, A, B, C))
        out.append("{MemberQ[{%s,%s},%s],Count[{%s,%s},%s],DeleteDuplicates[{%s,%s,%s,%s}],Tally[{%s,%s,%s}],FreeQ[{%s},%s],Position[{%s,%s},%s]}"
                   .replace(",Position[{%s,%s},%s]", "") % (A, B, C, A, B, C, A, B, C, A, C, B, A, A, C))
    return out


@gen("C06")
@gen("C15")
def c06_computed(g):
    """the same term reached by different ways of calculation"""
    d = g.ch("f", "g", "q1"[:1], "h")
    out = ["z=%s" % g.ch("f", "g", "h"), "x=%s" % g.atom(), "y:=%s" % g.ch("x", "f[x]", "{x,1}"), "k[s_]:=%s" % g.ch("f[s]", "z[s]", "s[1]", "{s,x}", "f[s][z]")]
    E = lambda: g.ch("z[%s]" % g.atom(), "%s[%s]" % (g.ch("f", "g", "h"), g.atom()), "z[x]", "f[x]", "k[%s]" % g.atom(), "k[z]", "z[z]", "f[f]", "y", "{x,1}", "z[1][2]", "f[1][2]", "h[f[x]]", "z[z[x]]", "g[z[1],x]", "g[f[1],x]",
                     "k[x]", "(z[#]&)[x]", "f@@{x}", "z@@{1}", "First[{z[1]}]", "Head[z[1]][1]")
    for _ in range(6):
        a, b = E(), E()
        out.append(g.ch("{%s===%s,Order[%s,%s]}" % (a, b, a, b), "Union[{%s,%s}]" % (a, b), "{SameQ[{%s},{%s}],MatchQ[%s,%s]}" % (a, b, a, b), "{MemberQ[{%s},%s],Complement[{%s},{%s}]}" % (a, b, a, b),
                        "DeleteDuplicates[{%s,%s}]" % (a, b), "Hash[%s]===Hash[%s]"[:0] + "f[%s]===f[%s]" % (a, b), a, "{%s}/.%s->hit" % (a, b)))
    return out


@gen("C07")
@gen("C08")
def c07_numbers(g):
    """numbers as stored values"""
    N = lambda: g.ch("Complex[%d,%d]" % (g.n(-3, 3), g.ch(-2, -1, 1, 2)), "(%d/%d)" % (g.n(-7, 7), g.n(2, 5)), str(g.n(-9, 9)), "123456789012345678901234567890", "1.5", "-0.25", "2.",
                     "Complex[(1/2),3]", "Complex[1.5,2]")
    out = ["x=%s" % N(), "y=%s" % N(), "z={%s,%s,x}" % (N(), N()), "r[t_]:=t+%s" % N(), "s[t_]:=%s*t" % N()]
    for _ in range(g.n(6, 10)):
        n = N()
        o = g.ch("x+%s" % n, "%s+x" % n, "x*%s" % n, "%s*x" % n, "x*y", "x+y", "x+y+%s" % n, "x*y*%s" % n, "-x", "x-y", "x^2", "x+x", "x*x", "r[x]", "s[x]", "r[y]", "s[z]", "z+x", "z*x", "Total[z]", "z[[1]]+z[[2]]",
                 "x+a", "x*a+y", "Sort[{x,y,%s}]" % n, "x==%s" % n, "x<y", "y=x", "y=x+%s" % n, "Plus@@z", "Times@@z", "Fold[Plus,x,z]", "z[[2]]*x", "w={x,x+%s}" % n, "-z", "{x,y}.{y,x}", "x/3", "Sum[x,{k,3}]", "Abs[x]"[:0] + "2*x", "1+x+1", "Max[1,2]",
                 "r[r[x]]", "a*x*b", "x+a+y", "y+b+x+%s" % n)
        out.append(o)
        if g.p(0.7):
            out.append(g.ch("x", "y", "{x,y,z}", "z", "DownValues[r]", "DownValues[s]", "r[1]", "s[1]"))
    return out + ["{x,y,z}", "{r[1],s[1]}"]


@gen("C07")
def c07(g):
    v = g.ch("{%s}" % g.args(lambda: g.expr(1), 1, 5), "f[%s]" % g.args(lambda: g.expr(1), 1, 4), "{{%s},{%s}}" % (g.args(g.small, 2, 2), g.args(g.small, 2, 2)),
             "a+b+%s" % g.small(), "{3,1,2,{b,a},f[c,a]}", "{f[1,2],f[3],{4,5}}")
    ops = ["Append[x,%s]" % g.atom(), "Prepend[x,%s]" % g.atom(), "Sort[x]", "Reverse[x]", "x/.%s->%s" % (g.atom(), g.atom()), "Map[h,x]", "Flatten[x]",
           "Join[x,x]", "Union[x]", "h@@x", "x[[1]]", "Rest[x]", "ReplacePart[x,{1->zz}]"[:0] + "ReplacePart[x,{1->9}]", "Cases[x,_Integer]", "x//.{%s->%s}" % (g.sym(), g.small()),
           "u[x,x]", "w[x,%s]" % g.atom(), "v[x,v[x]]", "{x,x}", "y=Append[x,1]", "AppendTo[y,%s]" % g.atom(), "y=x", "z[x]", "MapIndexed[h,x]", "Apply[h,x,{1}]",
           "Map[h,x,{2}]", "Select[x,IntegerQ]", "Replace[x,{t_,s___}:>{s,t}]", "FoldList[h,x,x]", "Table[x,{k,2}]", "Thread[h[x,x]]", "x===y", "DeleteDuplicates[x]", "PadRight[x,6]",
           "PadLeft[x,6]", "l[x,1]", "w[x[[1]],b,a]", "Sort[h[x,y]]", "Module[{t=x},t=Append[t,1];t]", "Complement[x,{1}]", "Total[x]", "Count[x,_]",
           "Sow[x]", "Length[x]", "x*2", "x+1", "Dimensions[x]", "Transpose[x]", "Fold[h,0,x]", "Position"[:0] + "Depth[x]", "x[[-1]]", "x[[1;;2]]"]
    out = ["SetAttributes[u,Orderless]", "SetAttributes[w,{Flat,Orderless}]", "SetAttributes[v,Flat]", "SetAttributes[l,Listable]", "x=%s" % v, "y=x", "z[t_]:={t,x,%s}" % v]
    for _ in range(g.n(5, 8)):
        o = g.ch(*ops)
        out.append(o)
        if g.p(0.6):
            out.append(g.ch("x", "y", "{x,y}", "z[1]"))
    out += ["x", "y", "z[2]"]
    return out


@gen("C07")
def c07_rules(g):
    """rules, definitions and results as stored values"""
    e = g.expr(2)
    out = ["r={%s->%s,f[t_]:>g[t,t]}" % (g.sym(), g.expr(1)), "x=%s" % e, "d[t_]:=w[t,%s]" % e, "SetAttributes[w,{Flat,Orderless}]",
           "y=x/.r", "r", "x", "d[x]", "d[y]", "x=%s" % g.expr(1), "y", "d[1]", "DownValues[d]", "r", "z=w[x,y,w[b,a]]", "w[z,z]", "z", "y=z", "AppendTo[y,%s]" % g.atom(), "z", "y",
           "{x,z}/.r", "z//.f[t_]:>t", "z", "r"]
    return out


# ================================================================= arithmetic
@gen("C08")
def c08_num(g):
    out = []
    for _ in range(6):
        k = g.n(0, 9)
        E = g.exact
        if k == 0:
            out.append("%s+%s" % (E(), E()))
        elif k == 1:
            out.append("%s*%s" % (E(), E()))
        elif k == 2:
            out.append("%s-(%s)" % (E(), E()))
        elif k == 3:
            out.append("%s/(%s)" % (E(), E()))
        elif k == 4:
            out.append("(%s)^%d" % (g.ch(str(g.n(-12, 12)), g.rational()), g.n(-6, 12)))
        elif k == 5:
            out.append("Plus[%s]" % g.args(E, 0, 5))
        elif k == 6:
            out.append("Times[%s]" % g.args(E, 0, 4))
        elif k == 7:
            out.append("{Numerator[%s],Denominator[%s]}" % (g.rational(), g.rational()))
        elif k == 8:
            out.append("(%s+%s)*(%s)-%s" % (E(), E(), E(), E()))
        else:
            C = lambda: "Complex[%s,%s]" % (g.ch(g.small(), g.rational()), g.ch(g.small(), g.rational()))
            out.append(g.ch("%s+%s", "%s*%s", "%s-%s") % (C(), g.ch(C(), E(), C())))
    return out


@gen("C08")
def c08_sym(g):
    S = lambda: g.ch("a", "b", "c", "f[a]", "a", "b")
    C = lambda: g.ch(g.small(), g.rational(), "-1", "2")
    term = lambda: g.ch("%s*%s" % (C(), S()), S(), C(), "%s^%d" % (S(), g.n(-3, 3)), "%s*%s*%s" % (C(), S(), S()), "-%s" % S())
    out = []
    for _ in range(5):
        out.append("+".join(term() for _ in range(g.n(2, 5))))
        out.append("*".join("(%s)" % g.ch(S(), "%s^%d" % (S(), g.n(-3, 4)), C(), S()) for _ in range(g.n(2, 5))))
    out.append("%s-(%s)" % ((lambda x: (x, x))(term())))
    out.append("(%s)/(%s)" % (S(), S()))
    out.append("((%s)^%d)^%d" % (S(), g.n(-3, 3), g.n(-3, 3)))
    return out


@gen("C08")
def c08_special(g):
    X = lambda: g.ch("0", "1", "-1", "2", "Infinity", "-Infinity", "ComplexInfinity", "Indeterminate", "a", "(1/2)")
    return [g.ch("%s+%s", "%s*%s", "(%s)/(%s)", "%s-(%s)", "(%s)^0+0*(%s)") % (X(), X()) for _ in range(6)] + \
           ["0^0", "0/0", "%s/0" % g.small(), "0*a", "1*a", "a^1", "a^0", "1^a", "0+a"]


@gen("C09")
def c09(g):
    out = []
    X = lambda: g.ch(g.integer(), g.rational(), g.small(), g.dyadic(), g.small())
    Y = lambda: g.ch(X(), X(), X(), "a", "b", "f[1]", '"s"')
    for _ in range(8):
        op = g.ch("==", "!=", "<", "<=", ">", ">=", "===", "=!=")
        f = X if g.p(0.6) else Y
        x = [f() for _ in range(g.ch(2, 2, 2, 3, 4))]
        if g.p(0.3):
            x[-1] = x[0]
        out.append(op.join("(%s)" % z for z in x))
    out += ["Max[%s]" % g.args(X, 1, 5), "Min[%s]" % g.args(X, 1, 5), "Positive[%s]" % X(), "Negative[%s]" % X(),
            "Max[%s]" % g.args(lambda: g.ch(X(), "a", "b", X()), 1, 4), "Min[%s,{%s}]"[:0] + "Min[%s]" % g.args(lambda: g.ch(X(), "a"), 1, 4),
            "{Sign[%s],Abs[%s]}" % (X(), X()), "Inequality[%s,Less,%s,LessEqual,%s]" % (X(), X(), X()),
            "%s<%s<=%s" % (g.small(), g.small(), g.small()), "%s==%s" % (g.expr(2), g.expr(2)), "(a==a)&&(%s!=%s)" % (g.small(), g.small())]
    return out


@gen("C09")
def c09_chain(g):
    """chains of comparisons that mix operators, numbers and symbols"""
    out = []
    ops = [("Less", "<"), ("LessEqual", "<="), ("Equal", "=="), ("GreaterEqual", ">="), ("Greater", ">"), ("Unequal", "!=")]
    P = lambda: g.ch("0", "1", "2", "3", "(1/2)", "(-1)", "a", "b", "a", "f[1]")
    for _ in range(10):
        n = g.ch(2, 3, 3, 4, 4, 5)
        up = g.ch(ops[:3], ops[:3], ops[2:5], ops[2:5], ops[:5], ops)
        o = [g.ch(*up) for _ in range(n - 1)]
        p = [P() for _ in range(n)]
        if g.p(0.3):      # numbers in ascending or descending order with symbols at the ends
            k = sorted([0, 1, 2, 3, 4][:n], reverse=up[0][0] not in ("Less",))
            p = [str(x) for x in k]
            for j in {0, n - 1, g.n(0, n - 1)}:
                p[j] = g.ch("a", "b", p[j])
        if g.p(0.6):
            out.append("Inequality[%s]" % ",".join([p[0]] + [y for a, b in zip(o, p[1:]) for y in (a[0], b)]))
        else:
            out.append(p[0] + "".join(a[1] + b for a, b in zip(o, p[1:])))
        if g.p(0.3):
            out.append("%s /. {a->%s,b->%s}" % (out[-1], g.small(), g.small()))
    return out


# ================================================================ definitions
@gen("C13")
def c13(g):
    pats = ["x_", "x_Integer", "1", "2", "a", "x_Symbol", "x__", "x_,y_", "x_,x_", "x_,1", "1,x_", "x_Integer,y_", "x_,y_Symbol", "f[x_]", "{x_}", "{x_,y_}",
            "x_?EvenQ", "x_List", "f[1]", "{}", "x_,y_,z_", "x_?Positive", "0", "x_,y___", "f[x_,y_]", "_", "x:f[_]"[:0] + "x_f", "x_String", '"s"', "a,x_", "x_,y_:3"]
    out = []
    used = []
    for i in range(g.n(2, 6)):
        p = g.ch(*pats)
        used.append(p)
        r = "r%s[x,y]" % "abcdefgh"[i] if g.p(0.7) else g.ch("x", "ok", "{x}", "x+1")
        if g.p(0.2):
            c = g.ch("x>1", "x===a", "True", "False", "x<5")
            out.append("r[%s]:=%s/;%s" % (p, r, c))
        elif g.p(0.15):
            out.append("r[%s]=%s" % (p, "k" + "abcdefgh"[i]))
        else:
            out.append("r[%s]:=%s" % (p, r))
        if g.p(0.3):
            out.append("r[%s]" % g.ch("1", "2", "a", "1,2", "a,a"))
        if g.p(0.15):
            out.append("r[%s]:=again[x]" % g.ch(*used))
        if g.p(0.08):
            out.append("s[x_]:=r[x]")
            out.append("s[2]")
    out += ["r[%s]" % z for z in g.perm(["1", "2", "a", "1,2", "a,a", "f[1]", "f[x,y]", "{1}", "{1,2}", "{}", '"s"', "3,1", "1,a", "a,b,c", "", "-1", "0"])[:7]]
    out.append("DownValues[r]")
    if g.p(0.3):
        out += ["s[x_]:=t[x]", "Clear[r]", "r[1]", "s[1]", "DownValues[r]", "r[x_]:=n[x]", "r[1]"]
    return out


@gen("C13")
def c13_vars(g):
    out = ["x=%s" % g.expr(1), "y:=x", "y", "x=%s" % g.atom(), "y", "f[x_]:={x,y}"[:0] + "x", "r[1]=%s" % g.expr(1), "r[2]:=r[1]", "r[2]", "r[1]=%s" % g.atom(), "r[2]", "r[3]",
           "s[k_]:=k^2", "r[k_]:=r[k]=s[k-1]", "r[5]", "DownValues[r]", "r[5]", "r[6]", "r[5]", "Clear[x]", "x", "y", "Clear[r]", "r[1]", "s[3]"]
    return out


@gen("C13")
def c13_own(g):
    """own values and rules of several symbols under assignments in place and clears"""
    V = ["x", "y", "u", "v"]
    out = ["%s=%d" % (z, g.n(-3, 9)) for z in V]
    out += ["r[1]=%d" % g.n(2, 9), "s[k_]:={k,x}"]
    have = set(V)
    for _ in range(g.n(6, 12)):
        z = g.ch(*V)
        w = g.ch(*V)
        k = g.n(0, 13)
        if k <= 7 and z not in have:
            out.append("%s=%d" % (z, g.n(-3, 9)))
            have.add(z)
        if k == 0:
            out.append("{%s++,++%s,%s--,%s}" % (z, z, z, z))
        elif k == 1:
            out.append(g.ch("%s+=%d", "AddTo[%s,%d]", "SubtractFrom[%s,%d]", "TimesBy[%s,%d]", "DivideBy[%s,%d]") % (z, g.n(1, 5)))
        elif k == 2:
            out.append("{PreIncrement[%s],PreDecrement[%s],Decrement[%s],%s}" % (z, z, z, z))
        elif k == 3:
            out.append("r[1]+=%d;r[1]++;r[1]" % g.n(1, 9) if "r" in have or g.p(0.5) else "r[1]")
            out[-1] = "r[1]=%d;" % g.n(0, 9) + out[-1]
        elif k == 4 and w in have:
            out.append("%s+=%s" % (z, w))
        elif k == 5:
            out.append("SetAttributes[%s,%s]" % (z, g.ch("Listable", "Orderless", "{Flat,HoldAll}")) if z not in have else "%s=%s=%d;{%s,%s}" % (z, w, g.n(0, 9), z, w))
            have |= {w} if z in have else set()
        elif k == 6:
            out.append("%s:=%s+%d" % ("t", z, g.n(1, 5)))
        elif k == 7:
            out.append("r[%s]=%s;r[%s]" % (z, z, z))
        else:
            n = g.n(1, 3)
            t = g.perm(V + ["r", "s"])[:n]
            out.append("%s[%s]" % (g.ch("ClearAll", "ClearAll", "Clear"), join(t)))
            have -= set(t)
        out.append(g.ch("{x,y,u,v,t}", "{x,r[1],s[2]}", "{%s,Attributes[%s]}" % ("r[1]", "r"), "{s[y],t}"))
    out += ["{x,y,u,v,t}", "{r[1],s[2]}", "DownValues[s]"]
    return out


@gen("C13")
def c13_dv(g):
    """the list of rules of a symbol is read, changed and assigned back"""
    pats = ["x_", "x_Integer", "1", "2", "a", "x_Symbol", "x__", "x_,y_", "x_,1", "1,x_", "f[x_]", "{x_}", "x_?EvenQ", "x_List", "_", "x_,y___"]
    out = []
    for i in range(g.n(2, 4)):
        out.append("r[%s]:=%s" % (g.ch(*pats), "r%s[x,y]" % "abcdefgh"[i]))
    for i in range(g.n(2, 4)):
        k = g.n(0, 9)
        src = g.ch("r", "r", "s")
        dst = g.ch("r", "s", "t")
        dv = "DownValues[%s]" % src
        one = "HoldPattern[%s[%s]]%sn%d[%s]" % (src, g.ch(*pats), g.ch(":>", ":>", "->"), i, g.ch("x", "1", "x,y") if False else "1")
        e = [dv, "Reverse[%s]" % dv, "Rest[%s]" % dv if src == "r" else dv, "Append[%s,%s]" % (dv, one), "Prepend[%s,%s]" % (dv, one), "{%s}" % one, "Join[%s,{%s}]" % (dv, one),
             "{}", "Take[%s,-1]" % dv if src == "r" else "{%s}" % one, "%s/.n0->m" % dv][k]
        if src != dst:
            e = "%s/.%s->%s" % (e, src, dst)
        out.append("DownValues[%s]=%s" % (dst, e))
        out.append("DownValues[%s]" % g.ch("r", "s", "t"))
        out.append("{r[1],r[2],r[a],r[1,2],s[1],s[a],t[1]}")
        if g.p(0.4):
            out.append("%s[%s]:=%s" % (g.ch("r", "s", "t"), g.ch(*pats), "w[x]"))
        if g.p(0.15):
            out.append("d=DownValues[r]")
    out += ["%s[%s]" % (z, w) for z in "rst" for w in g.perm(["1", "2", "a", "1,2", "f[1]", "{1}", "", "3,1"])[:4]]
    out += ["d", "{DownValues[r],DownValues[s],DownValues[t]}"]
    return out


@gen("C14")
def c14(g):
    A = ["Orderless", "Flat", "Listable", "OneIdentity", "HoldAll", "HoldFirst", "HoldRest", "HoldAllComplete", "SequenceHold", "NumericFunction", "Constant"]
    out = ["r[1]:=s[1]", "lg={}", "k=2"]
    for _ in range(g.n(3, 6)):
        k = g.n(0, 5)
        a = g.perm(A)[:g.n(1, 3)]
        al = "{%s}" % join(a) if len(a) != 1 or g.p(0.4) else a[0]
        h = g.ch("r", "t", "r")
        out.append(["SetAttributes[%s,%s]" % (h, al), "Attributes[%s]={%s}" % (h, join(a)), "ClearAttributes[%s,%s]" % (h, al), "SetAttributes[{r,t},%s]" % al,
                    "SetAttributes[%s,%s]" % (h, al), "Clear[t]"][k])
        out.append("Attributes[%s]" % g.ch("r", "t", h))
        out.append(g.ch("r[1+1]", "%s[k+1,1+1,k]", "%s[Sequence[1,2],3]", "%s[b,a,%s[c,a]]", "%s[{1,2},{3,4}]", "%s[{1,2},k]", "%s[Evaluate[1+1],1+2]", "%s[Unevaluated[1+1]]", "%s[a]", "%s[lg={lg,1},lg={lg,2}]",
                        "%s[k,k]/.x_Integer->n", "MatchQ[%s[a,b,c],%s[x_,y_]]", "%s[%s[1+1],k]").replace("%s", h))
    out += ["{Attributes[r],Attributes[t]}", "r[1]", "lg", "DownValues[r]", "k"]
    return out


# ================================================================= evaluation
def effect(g, v):
    return "(lg={lg,%s};%s)" % (v, g.ch(v, "b", "1", "c"))


@gen("C15")
def c15(g):
    i = [0]

    def eff():
        i[0] += 1
        return "(lg={lg,%d};%s)" % (i[0], g.ch("a", "b", "1", "2", "f[1]", "k", "Sequence[1,2]", "{1,2}"))

    def ex(d):
        if d == 0 or g.p(0.3):
            return eff() if g.p(0.6) else g.ch("a", "k", "1", "m")
        h = g.ch("f", "{", "hh", "hf", "hr", "u", "v", "l", "r", "+", "sh", "ha", "w")
        a = [ex(d - 1) for _ in range(g.n(1, 3))]
        if g.p(0.1):
            a[0] = "Evaluate[%s]" % a[0]
        if g.p(0.06):
            a[-1] = "Unevaluated[%s]" % a[-1]
        if g.p(0.06):
            a.insert(0, "Sequence[%s]" % g.ch("", "1", "1,2"))
        if h == "{":
            return "{%s}" % join(a)
        if h == "+":
            return "(%s)" % "+".join(a)
        return "%s[%s]" % (h, join(a))
    out = ["SetAttributes[hh,HoldAll]", "SetAttributes[hf,HoldFirst]", "SetAttributes[hr,HoldRest]", "SetAttributes[u,Orderless]", "SetAttributes[v,Flat]", "SetAttributes[l,Listable]",
           "SetAttributes[ha,HoldAllComplete]", "SetAttributes[sh,SequenceHold]", "SetAttributes[w,{HoldAll,Flat,Orderless}]", "r[x_]:=s[x,x]", "r[x_,y__]:=t[y,x]", "k=7", "m:=(lg={lg,m0};3)", "lg={}"]
    for _ in range(3):
        out.append(ex(g.n(1, 3)))
        out.append("lg")
    return out


@gen("C15")
def c15_fix(g):
    out = ["r[0]=1", "r[n_Integer]:=n*r[n-1]/;n>0", "t[x_]:=u[x]", "u[x_]:=v[x]+1", "v[1]:=w", "w=5", "lg={}", "n[x_]:=(lg={lg,x};x)"]
    T = lambda: g.ch("r[%d]" % g.n(-1, 6), "t[1]", "t[2]", "u[w]", "{t[1],r[3]}", "f[t[%d]]" % g.n(0, 2), "n[n[1]+n[2]]", "{n[3],n[2],n[1]}", "n[t[1]]", "t[n[1]]", "If[n[1]==1,n[2],n[3]]", "Hold[n[9]]",
                     "f[n[1]][n[2]]", "n[5];n[6]", "x1"[:0] + "r[r[2]]")
    for _ in range(4):
        e = T()
        out += [e, "lg"]
        if "n[" not in e:
            out.append("(%s)===(%s)" % (e, e))
    out += ["v[1]=8", "t[1]", "w=6", "v[1]", "t[1]", "v[1]:=w+1", "t[1]"]
    return out


@gen("C16")
def c16(g):
    i = [0]

    def L():
        i[0] += 1
        return "lg={lg,%d}" % i[0]

    def test():
        return "(%s;%s)" % (L(), g.ch("True", "False", "1<2", "2<1", "k>2", "k<2", "q")) if g.p(0.7) else g.ch("True", "False", "q", "k==1", "EvenQ[k]")

    def st(d, loop=False, fn=False):
        c = g.n(0, 11)
        if d == 0 or c == 0:
            return L()
        if c == 1:
            return "If[%s,%s,%s]" % (test(), st(d - 1, loop, fn), st(d - 1, loop, fn))
        if c == 2:
            return "Which[%s,%s,%s,%s]" % (test(), st(d - 1, loop, fn), test(), st(d - 1, loop, fn))
        if c == 3:
            return "Switch[%s,%s,%s,%s,%s]" % (g.ch("k", "(%s;2)" % L(), "a", "1"), g.ch("1", "a", "_Symbol"), st(d - 1, loop, fn), g.ch("_Integer", "2", "_", "b"), st(d - 1, loop, fn))
        if c == 4:
            v = "ijm"[d - 1]
            return "(%s=0;While[%s<%d,%s=%s+1;%s])" % (v, v, g.n(0, 3), v, v, st(d - 1, True, fn))
        if c == 5:
            return "Do[%s,{n,%d}]" % (st(d - 1, True, fn), g.n(0, 3))
        if c == 6:
            v = "ijm"[d - 1]
            return "For[%s=0,(%s;%s<%d),%s=%s+1,%s]" % (v, L(), v, g.n(0, 3), v, v, st(d - 1, True, fn))
        if c == 7 and (loop or fn):
            return "If[%s,Return[%s]]" % (g.ch("True", "k>1", "j>1", "False", "n>1"), g.ch("", "77", L()))
        if c == 8 and loop:
            return "If[%s,Break[]]" % g.ch("True", "k>1", "j>0", "i>1", "n>1")
        if c == 9:
            return "k=%s" % g.ch("k+1", "1", "k-1", "0")
        return "(%s;%s)" % (st(d - 1, loop, fn), st(d - 1, loop, fn))
    out = ["lg={}", "k=%d" % g.n(0, 3), "i=0", "j=0", "m=0"]
    for _ in range(2):
        out += [st(3), "{lg,k}"]
    out += ["r[x_]:=(%s;%s;%s)" % (st(2, False, True), st(1, False, True), L()), "r[1]", "{lg,k}", "r[2]+r[3]", "lg",
            "o=0;While[%s,%s;%s]" % (g.ch("o<3", "o<2"), st(1, True), "o=o+1"), "{lg,k}"]
    return out


@gen("C16")
def c16_plain(g):
    n = g.n(0, 6)
    return ["s=0", "Do[s=s+i;If[i>%d,Return[s]],{i,%d}]" % (g.n(1, 4), n), "s", "s=0;For[i=%d,i<=%d,i=i+%d,s=s+i];{s,i}" % (g.n(0, 2), n, g.n(1, 3)), "i=0;While[True,i=i+1;If[i>%d,Break[]]];i" % n,
            "r[x_]:=Module[{y=x},While[y>0,y=y-%d;If[y==%d,Return[found]]];y]" % (g.n(1, 3), g.n(0, 4)), "r[%d]" % g.n(0, 9), "Which[%s>%s,a,%s==%s,b,True,c]" % (g.small(), g.small(), g.small(), g.small()),
            "Switch[%s,%s,x,%s,y,_,z]" % (g.atom(), g.atom(), g.ch("_Integer", "_Symbol", "f[_]", "1|2")), "If[%s,t,e]" % g.ch("a", "True", "False", "1==1", "a==b"), "If[%s,t]" % g.ch("a", "True", "False"),
            "If[%s<%s,a,b]" % (g.small(), g.small()), "(1;2;s=3);s", "1;2;", "Which[a,1,True,2]", "Which[False,1]", "Do[f[i],{i,0}]", "i", "k=5;Do[k=k*2,{%s,3}];k" % "i"]


@gen("C17")
def c17(g):
    i = [0]

    def body(d):
        i[0] += 1
        c = g.n(0, 11)
        v = g.ch("x", "y", "z")
        if d == 0:
            return g.ch("x", "y", "{x,y}", "x+y", "x=%d" % g.n(5, 9), "f[x]", "y=x")
        b = body(d - 1)
        return ["Module[{%s=%s},%s]" % (v, g.ch("1", "x", "y+1", "2"), b), "Module[{%s},%s=%d;%s]" % (v, v, g.n(1, 4), b), "With[{%s=%s},%s]" % (v, g.ch("3", "x", "y", "a"), b.replace(v + "=", "z=") if v != "z" else g.ch("x", "{x,y}")),
                "Block[{%s=%s},%s]" % (v, g.ch("4", "y", "x+1"), b), "Do[%s,{%s,2}]" % (b, v), "Table[%s,{%s,2}]" % (b, v), "(%s;%s)" % (b, body(d - 1)), "{%s,%s}" % (b, body(0)),
                "Catch[%s;Throw[%s];%s]" % (b, body(0), body(0)), "Sum[%s,{%s,2}]" % (g.ch("x", "y", "x+y", "1"), v), "Module[{%s,%s},{%s}]" % (v, g.ch("t", "s"), b), "Catch[Do[If[%s>1,Throw[%s]],{%s,3}]]" % (v, b, v)][c]
    out = ["x=%d" % g.n(10, 20), "y=%d" % g.n(20, 30)]
    for _ in range(4):
        out += [body(g.n(1, 3)), "{x,y,z}"]
    return out


@gen("C17")
def c17_rec(g):
    return ["x=100", "fa[n_]:=Module[{x=n},If[x<1,1,x*fa[x-1]+0*x]]", "fa[%d]" % g.n(0, 6), "x", "i=50", "Table[Table[{i,j},{i,2}],{j,%d}]" % g.n(0, 3), "i", "Do[Throw[i],{i,3}]", "i", "Catch[Do[If[i==2,Throw[{i,x}]],{i,3}]]", "i", "j",
            "Table[i,{i,%d}];i" % g.n(0, 3), "Sum[i*x,{i,3}]", "i", "Clear[i]", "Do[x=x+i,{i,3}]", "{i,x}", "r[i_]:=Table[i+k,{k,i}]", "r[%d]" % g.n(0, 3), "k", "Module[{x},x]===Module[{x},x]", "Block[{x=2},x^2]", "x",
            "With[{x=%s},f[x]]" % g.atom(), "Product[i,{i,4}]", "i", "Table[Module[{t=k},t=t+1;t],{k,3}]", "g[t_]:=Do[If[t==i,Return[i]],{i,5}]", "g[3]", "i",
            "m=Module[{c=0},Function[c=c+1]]"[:0] + "Module[{c=0},q[]:=(c=c+1)]", "q[]", "q[]", "c", "Module[{c=%d},c=c+1;{c,q[]}]" % g.n(1, 9), "q[]",
            "h[t_]:=Catch[Table[If[k>t,Throw[k]],{k,5}]]", "h[2]", "k", "k=7", "h[3]", "k", "Scan[(If[#>1,Throw[#]])&,{1,2,3}]", "k"]


@gen("C18")
def c18(g):
    i = [0]

    def L():
        i[0] += 1
        return "(lg={lg,%d};%s)" % (i[0], g.ch("1", "a", "2"))

    def ex(d):
        c = g.n(0, 15)
        if d == 0:
            return g.ch(L(), "Throw[%s]" % g.ch(L(), "1", "a", "{lg}"), L())
        a, b = ex(d - 1), ex(d - 1)
        return ["f[%s,%s]" % (a, b), "{%s,%s,%s}" % (L(), a, L()), "(%s;%s)" % (a, b), "Catch[%s]" % a, "If[%s,%s,%s]" % (g.ch("True", "k>1", a), a, b), "Do[%s,{n,2}]" % a, "Table[%s,{n,2}]" % a, "While[(%s;k<3),k=k+1;%s]" % (L(), a),
                "Module[{x=%s},%s]" % (a, b), "o=%s" % a, "(%s)+(%s)" % (a, b), "Which[%s;True,%s]" % (L(), a), "r[%s]" % a, "Map[r,{%s}]" % b, "{%s}/.x_Integer:>%s" % (L(), "x"), "Sum[%s;n,{n,2}]" % a][c]
    out = ["lg={}", "k=1", "n=9", "r[x_]:=(%s;If[x===1,Throw[r1]];x)" % L()]
    for _ in range(3):
        e = ex(g.n(1, 3))
        out += [e if g.p(0.5) else "Catch[%s]" % e, "{lg,k,n}"]
    out += ["Catch[Throw[%s];lg={lg,zz}]" % g.atom(), "Catch[%s]" % g.atom(), "Catch[f[Catch[Throw[1]],Throw[2]]]", "lg"]
    return out


@gen("C18")
def c18_ctx(g):
    """throws out of every kind of construct; the session goes on"""
    T = "(If[q%d,Throw[t%s]];v)"
    forms = ["Reap[Sow[1];Throw[2];Sow[3]]", "Module[{x=1},Throw[x]]", "Block[{x=Throw[5]},x]", "With[{x=2},Throw[x]]", "Throw[Throw[1]]", "Which[Throw[1],2]", "If[Throw[1],2,3]", "Switch[Throw[1],_,2]", "While[Throw[3],1]",
             "x=Throw[4]", "f[x_]:=Throw[x]"[:0] + "For[i=0,i<3,i=i+1,Throw[i]]", "Map[Throw,{1,2}]", "Scan[Throw,{1,2}]", "Table[Throw[i],{i,2}]", "{Throw[1],Throw[2]}", "Throw[{1,2}][3]", "Select[{1,2},Throw]"[:0] + "Sort[{Throw[a],b}]",
             "Fold[Throw,1,{2}]", "FixedPoint[Throw,3]", "1+Throw[2]", "Throw[1]&&True", "True||Throw[1]", "False||Throw[1]", "Do[Throw[i],{i,2,5}]", "Sum[Throw[i],{i,2}]", "Catch[Throw[1]]+Throw[2]", "Nest[Throw,1,2]", "a/.a:>Throw[1]", "Throw[1]/.a->b",
             "Evaluate[Throw[1]]", "Hold[Throw[1]]", "Sow[Throw[1]]", "r[x_]:=Throw[x]", "r[2]", "{r[3],r[4]}", "Catch[r[5]]", "Catch[{r[6]}]", "Apply[Throw,{1}]", "Length[Throw[{1}]]"]
    out = ["x=0", "i=77"]
    for _ in range(6):
        f = g.ch(*forms)
        out += [f if g.p(0.6) else "Catch[%s]" % f, g.ch("{x,i}", "1+1", "i", "x")]
    return out + ["Reap[Sow[%s]]" % g.small(), "Catch[a]", "{x,i}"]


@gen("C19")
def c19(g):
    E = lambda: g.expr(g.n(1, 3), ("f", "g", "List"), 0, 3)
    T = lambda v: g.ch("%s>%d" % (v, g.n(-1, 3)), "%s<%d" % (v, g.n(0, 4)), "OddQ[%s]" % v, "True", "False", "und", "%s=!=%d" % (v, g.n(0, 3)))

    def rhs(v, d):
        # a right side with conditions, nested and inside of scoping constructs
        c = g.n(0, 4)
        b = g.ch("{%s}" % v, "%s+1" % v, "h[%s,%s]" % (v, v)) if d == 0 else rhs(v, d - 1)
        return ["(%s/;%s)" % (b, T(v)), "(%s/;%s)" % (b, T(v)), "With[{w%d=%s},%s/;%s]" % (d, v, b, T("w%d" % d)), "Module[{w%d=%s},%s/;%s]" % (d, v, b, T("w%d" % d)), "(%s/;(cn=cn+1;%s))" % (b, T(v))][c]
    CR = lambda: g.ch("n_Integer:>%s", "n_Integer/;n>1:>%s", "f[n_]:>%s", "{n_,___}:>%s", "f[___,n_Integer,___]:>%s") % rhs("n", g.n(0, 2))
    R = lambda: g.ch("%s%s%s" % (g.sym(), g.ch("->", ":>"), E()), "%s->%s" % (g.small(), g.sym()), "f[x_]%sg[x,x]" % g.ch("->", ":>"), "x_Integer:>x+1", "f[x_,y_]:>g[y,x]", "g[x___]:>{x}", "{x_,y___}:>f[x,{y}]", "x_Symbol:>s[x]", "f[x_]:>x",
                         "_f->z", "x_f:>h[x]", "{x___,1,y___}:>{x,y}", CR())
    rl = lambda: "{%s}" % g.args(R, 1, 3) if g.p(0.4) else R()
    out = []
    for _ in range(3):
        e = E()
        out += ["%s/.%s" % (e, rl()), "Replace[%s,%s]" % (e, rl()), "%s//.%s" % (e, g.ch("f[x_]:>x", "{f[x_]:>g[x],g[x_]:>x}", "{a->b,b->c}", "g[x_,y___]:>f[y]", "{x_,y__}:>{y}", "x_Integer/;x>0:>x-1"))]
    cs = "cs[n_%s]:=%s" % (g.ch("", "Integer"), rhs("n", g.n(0, 2)).replace("cn=cn+1;", ""))
    out += ["cn=0", "%s/.%s" % (g.n(-1, 4), CR()), "{%s}/.%s" % (g.args(g.small, 1, 3), CR()), "f[%s]/.%s" % (g.args(g.small, 0, 3), CR()), "Replace[f[%s],%s]" % (g.small(), CR()), "cn"]
    if "Module" not in cs:
        out += [cs, "cs[0]:=zero", "{%s}" % join("cs[%d]" % g.n(-1, 4) for _ in range(3))]
    e = E()
    out += ["ReplacePart[%s,{%s}]" % (e, join("%s->%s" % (q, g.atom()) for q in g.perm(["1", "2", "{1,1}", "{2,1}", "{3}", "{1,2}"])[:g.n(1, 3)])),
            "k=1", "r=k->%s" % g.atom(), "Hold[1+1,%s]/.%s" % (g.sym(), R()), "p=3", "f[2]/.f[x_]->x+p", "f[2]/.f[x_]:>x+p", "r1=f[x_]->p;p=4;f[2]/.r1"[:0] + "s=(f[x_]->p)", "t=(f[x_]:>p)", "p=4", "f[2]/.s", "f[2]/.t",
            "Hold[f[1]]/.f[x_]:>x+1", "a+b+c/.a+b->z", "{a,b}/.{{a->1},{b->2}}"[:0] + "a+b/.{a->1,b->2}", "f[f[f[1]]]/.f[x_]:>g[x]", "f[f[f[1]]]//.f[x_]:>g[x]"]
    return out


@gen("C20")
def c20(g):
    A = lambda: g.ch(str(g.n(-3, 5)), g.rational(), str(g.n(-2, 3)))
    D = lambda: g.ch("1", "2", "-1", "(1/2)", "-2", "3", "(-1/3)")
    F = lambda: g.ch("0.5", "1.", "2.25")

    def spec(v):
        return g.ch("{%s,%d}" % (v, g.n(-1, 5)), "{%s,%s,%s}" % (v, A(), A()), "{%s,%s,%s,%s}" % (v, A(), A(), D()), "{%s,{%s}}" % (v, g.args(g.atom, 0, 3)), "{%s,%s,%s}" % (v, "n", "n+2"), "{%s,%d,%d,%d}" % (v, 5, g.n(-2, 5), -g.n(1, 2)),
                    "{%s,%s,3}" % (v, F()))
    out = ["n=%d" % g.n(0, 3), "i=90"]
    sp = spec("i")
    out += ["Table[f[i],%s]" % sp, "lg={}", "Do[lg={lg,i},%s]" % sp, "lg", "Table[{i,j},%s,%s]" % (spec("i"), spec("j")), "{i,j}"]
    nsp = g.ch("{i,%d}" % g.n(-1, 6), "{i,%d,%d}" % (g.n(-3, 3), g.n(-3, 6)), "{i,%d,%d,%d}" % (g.n(-3, 6), g.n(-3, 6), g.ch(1, 2, -1, -2)), "{i,{%s}}" % g.args(g.small, 0, 3), "{i,%s,%s,%s}" % (g.rational(), g.rational(), D()))
    out += ["Sum[i,%s]" % nsp, "Product[i+1,%s]" % nsp, "Sum[i*x,%s]" % nsp, "Table[i,%s]" % nsp, "i", "Range[%s]" % g.ch(str(g.n(-1, 6)), A() + "," + A(), "%s,%s,%s" % (A(), A(), D()), "%s,%s,%s" % (F(), "4", D())),
            "Array[f,%d]" % g.n(0, 4), "ConstantArray[%s,%d]" % (g.atom(), g.n(0, 4)), "Sum[i*j,{i,%d},{j,%d}]" % (g.n(0, 3), g.n(0, 3)), "Product[i+j,{i,%d},{j,2}]" % g.n(0, 3), "Table[f[],%s]" % spec("i"), "Table[a,%d]" % g.n(0, 3),
            "Do[lg={lg,{i,j}},%s,{j,2}]" % spec("i"), "lg", "i", "ParallelTable[i^2,%s]" % nsp, "Range[%d,%d,%d]" % (g.n(-3, 8), g.n(-3, 8), g.ch(1, 2, 3, -1, -2))]
    return out


@gen("C21")
def c21(g):
    E = lambda: g.ch(g.atom(), g.expr(1))
    l = "%s" % g.ch("{%s}", "{%s}", "f[%s]") % g.args(E, 0, 6)
    m = "{%s}" % join("{%s}" % join(g.atom() for _ in range(3)) for _ in range(g.n(1, 3)))
    k = lambda: str(g.n(-6, 6))
    out = ["x=%s" % l, "y=%s" % m]
    ops = ["x[[%s]]" % k(), "x[[{%s,%s}]]" % (k(), k()), "x[[%s;;%s]]" % (g.n(0, 4), k()), "x[[%s;;All]]" % k(), "y[[%s,%s]]" % (g.n(-3, 3), g.n(-3, 3)), "y[[All,%s]]" % g.n(1, 3), "Take[x,%s]" % k(), "Take[x,{%d,%d}]" % (g.n(1, 4), g.n(1, 6)),
           "First[x]", "Last[x]", "Rest[x]", "Append[x,%s]" % E(), "Prepend[x,%s]" % E(), "Join[x,%s]" % l, "Reverse[x]", "Flatten[x]", "Flatten[{x,{y},%s}]" % E(), "Flatten[{{a,{b,{c}}},{d}},%d]" % g.n(0, 3), "PadRight[x,%d]" % g.n(0, 8),
           "PadLeft[x,%d,z]" % g.n(0, 8), "Thread[h[%s]]" % g.ch("{1,2},{a,b}", "{1,2},c", "a,b", "{1},{2},{3}"), "Transpose[y]", "Count[x,%s]" % g.ch("_Integer", "_Symbol", "a", "_"), "Select[x,%s]" % g.ch("IntegerQ", "AtomQ", "(MatchQ[#,_Symbol]&)"),
           "Select[x,AtomQ,%d]" % g.n(0, 3), "Cases[x,%s]" % g.ch("_Integer", "f[_]", "t_Symbol->{t}", "_String", "t_Integer:>t"[:0] + "_"), "DeleteCases[x,%s]" % g.ch("_Integer", "_f", "_Symbol", "a"), "Length[x]", "Head[x]", "Depth[x]", "Total[{%s}]" % g.args(g.small, 0, 4),
           "x[[0]]", "{%s}[[%d]]" % (g.args(E, 0, 3), g.n(-4, 4)), "PrependTo[x,%s]" % E(), "AppendTo[x,%s]" % E(), "Distribute[f[h[a,b],h[c]],h]", "MemberQ[x,%s]" % E(), "Tally[x]", "Reverse[y]", "Take[y,1]", "Join[y,y]", "Flatten[y]", "Flatten[f[f[a],{f[b]},f[f[c]]]]",
           "Mean[{%s}]" % g.args(g.small, 1, 4), "LeafCount[x]", "Part[x,%s,%s]" % (g.n(1, 3), g.n(-2, 2)), "x[[2;;]]"[:0] + "x[[1;;-1]]", "Identity[x]", "MinMax[{%s}]" % g.args(g.small, 1, 4), "y[[%d]]" % g.n(-3, 3), "y[[{1},{%d,%d}]]" % (g.n(1, 3), g.n(1, 3)),
           "y[[All,{1,%d}]]" % g.n(1, 3), "y[[1;;1,2]]", "FreeQ[x,%s]" % g.sym(), "Length[%s]" % E(), "Union[x]", "Apply[Join,y]", "Fold[Append,{},x]"]
    out += g.perm(ops)[:14]
    out += ["x", "y"]
    return out


@gen("C22")
def c22(g):
    e = g.expr(3, ("f", "g", "List"), 1, 3)
    lv = lambda: g.ch("{1}", "{2}", "1", "2", "{0}", "{1,2}", "{0,1}", "{-1}", "{-2}", "{2,3}", "Infinity", "{0,Infinity}", "{1,-1}", "-1", "0", "3", "{1,Infinity}", "{-2,-1}", "{3}")
    F = lambda: g.ch("h", "h", "(q[#]&)", "(q[#,#]&)", "Function[t,q[t]]")
    ops = ["Map[%s,%s,%s]" % (F(), e, lv()), "Map[%s,%s]" % (F(), e), "MapIndexed[h,%s]" % e, "MapIndexed[h,%s,%s]" % (e, lv()), "Apply[h,%s]" % e, "Apply[h,%s,%s]" % (e, lv()), "Count[%s,%s,%s]" % (e, g.ch("_Integer", "_Symbol", "_f", "_"), g.ch("{1}", "{2}", "2", "{1,2}", "{-1}", "Infinity")),
           "Nest[h,%s,%d]" % (g.atom(), g.n(0, 4)), "NestList[%s,%s,%d]" % (F(), g.atom(), g.n(0, 4)), "Fold[h,%s,{%s}]" % (g.atom(), g.args(g.atom, 0, 4)), "Fold[h,{%s}]" % g.args(g.atom, 1, 4), "FoldList[h,%s,{%s}]" % (g.atom(), g.args(g.atom, 0, 4)), "FoldList[h,{%s}]" % g.args(g.atom, 1, 4),
           "FixedPoint[(If[#>%d,#-1,#]&),%d]" % (g.n(0, 3), g.n(0, 6)), "FixedPointList[(If[#>%d,#-1,#]&),%d]" % (g.n(0, 3), g.n(0, 6)), "NestWhile[(#-1&),%d,(#>%d&)]" % (g.n(0, 6), g.n(0, 3)), "NestWhileList[(#+2&),%d,(#<%d&)]" % (g.n(0, 4), g.n(0, 9)), "Array[%s,%d]" % (F(), g.n(0, 4)),
           "(%s&)[%s]" % (g.ch("#", "#1+#2", "{#2,#1}", "f[#,{#}]", "#1", "(#&)[#]+1", "If[#>1,a,b]"), g.args(g.small, 2, 3)), "Function[t,%s][%s]" % (g.ch("t+1", "{t,t}", "Function[s,{s,t}][2]", "t[t]"), g.atom()), "#&/@{%s}" % g.args(g.atom, 0, 3), "(h[#2,#1]&)@@{%s}" % g.args(g.atom, 2, 3),
           "h/@%s" % e, "h@@%s" % e, "Scan[(lg={lg,#})&,%s]" % g.lst(), "MapIndexed[(#1^#2[[1]]&),{%s}]" % g.args(g.sym, 0, 3), "Select[{%s},(#>2&)]" % g.args(g.small, 0, 5), "Array[(#^2&),%d]" % g.n(0, 5), "Map[Length,%s]" % e, "Fold[(#1*10+#2&),0,{%s}]" % g.args(lambda: str(g.n(0, 9)), 0, 5),
           "Nest[(#^2+1&),%d,3]" % g.n(0, 2), "NestWhileList[h,a,(False&)]", "Map[f,{}]", "Map[f,a]", "Apply[f,a]", "Nest[(1/(1+#)&),x,%d]" % g.n(0, 2), "Apply[Plus,{%s},{1}]" % join("{%s}" % g.args(g.small, 0, 3) for _ in range(2))]
    return ["lg={}"] + g.perm(ops)[:14] + ["lg"]


@gen("C29")
def c29(g):
    i = [0]

    def s():
        i[0] += 1
        return "Sow[%d]" % i[0]

    def ex(d):
        c = g.n(0, 9)
        if d == 0:
            return s() if g.p(0.8) else g.atom()
        a, b = ex(d - 1), ex(d - 1)
        return ["Reap[%s]" % a, "{%s,%s}" % (a, b), "(%s;%s)" % (a, b), "f[%s,%s]" % (a, b), "Do[%s,{n,%d}]" % (a, g.n(0, 2)), "Table[Sow[n],{n,%d}]" % g.n(0, 3), "Reap[%s;%s]" % (a, b), "r[%d]" % g.n(0, 3), "Catch[%s;Throw[%s]]" % (a, b), "If[True,%s,%s]" % (a, b)][c]
    out = ["r[n_]:=If[n>0,Sow[n];r[n-1],done]"]
    for _ in range(4):
        out.append("Reap[%s]" % ex(g.n(1, 4)) if g.p(0.8) else ex(2))
    return out + ["Sow[5]", "Reap[a]", "Reap[Sow[Sow[1]+1]]", "Reap[Sow[1];Reap[Sow[2]];Sow[3]]", "Reap[Scan[Sow,{%s}]]" % g.args(g.small, 0, 3), "Catch[Reap[Sow[1];Throw[2]]]", "Reap[Sow[%s]]" % g.atom(), "Reap[Throw[3]]", "Reap[Sow[9]]"]


@gen("C30")
def c30(g):
    i = [0]

    def t():
        i[0] += 1
        v = g.ch("True", "False", "a", "b", "1<2", "2<1", "a==a", "!b")
        return "(lg={lg,%d};%s)" % (i[0], v) if g.p(0.5) else v

    def ex(d):
        if d == 0:
            return t()
        c = g.n(0, 3)
        n = g.n(1, 3)
        if c == 0:
            return "And[%s]" % join(ex(d - 1) for _ in range(g.n(0, 3)))
        if c == 1:
            return "Or[%s]" % join(ex(d - 1) for _ in range(g.n(0, 3)))
        if c == 2:
            return "Not[%s]" % ex(d - 1)
        return g.ch("(%s)&&(%s)", "(%s)||(%s)") % (ex(d - 1), ex(d - 1))
    out = ["lg={}"]
    for _ in range(3):
        out += [ex(g.n(1, 3)), "lg"]
    out += ["TrueQ[%s]" % t(), "Boole[%s]" % t(), "AllTrue[{%s},%s]" % (g.args(g.small, 0, 4), g.ch("EvenQ", "Positive", "(#<5&)", "OddQ")), "BooleanQ[%s]" % t(), "lg", "e=(a&&(b||c))", "a=%s" % g.ch("True", "False"), "b=%s" % g.ch("True", "False"), "a&&b", "a||b", "!a", "a&&!b||c", "TrueQ[a&&b]", "Boole[{a,b,c}]"[:0] + "Boole[a||b]"]
    return out


@gen("C31")
def c31(g):
    I = lambda: str(g.n(-60, 60)) if g.p(0.75) else g.integer()
    S = lambda: str(g.n(-5, 30))
    P = lambda: str(g.n(1, 400))
    ops = lambda: g.ch("GCD[%s,%s]" % (I(), I()), "GCD[%s]" % g.args(I, 1, 4), "LCM[%s,%s]" % (S(), S()), "Mod[%s,%d]" % (I(), g.ch(1, 2, 3, 7, 10, 12)), "PowerMod[%d,%d,%d]" % (g.n(-5, 20), g.ch(g.n(0, 20), g.n(-4, 3)), g.ch(g.n(1, 30), g.n(-9, 9))), "Mod[%s,%d]" % (I(), g.n(-9, 9)), "LCM[%s,%s]" % (I(), I()), "Fibonacci[%s]" % g.ch(str(g.n(-12, 0)), "a", "1/2"), "IntegerDigits[%d]" % g.n(-40, 0), "PrimeQ[%d]" % g.n(-20, 5), "EulerPhi[%d]" % g.n(-30, 0), "FactorInteger[%s]" % g.ch(str(g.n(-60, 1)), "%d/%d" % (g.n(-20, 20), g.n(1, 20))), "IntegerPart[%s]" % g.rational(), "FractionalPart[%s]" % g.rational(), "PrimeQ[%s]" % g.ch(I(), P()), "Prime[%d]" % g.n(1, 40), "FactorInteger[%s]" % g.ch(P(), I(), str(g.n(2, 5000))),
                       "EulerPhi[%s]" % g.ch(P(), str(g.n(1, 40))), "Fibonacci[%d]" % g.n(0, 20), "Factorial[%d]" % g.n(0, 25), "%d!" % g.n(0, 12), "Multinomial[%s]" % g.args(lambda: str(g.n(0, 5)), 1, 4), "IntegerDigits[%s]" % g.ch(str(g.n(0, 99999)), str(g.n(0, 9))), "IntegerDigits[%d,%d]" % (g.n(0, 500), g.n(2, 16)), "FromDigits[{%s}]" % g.args(lambda: str(g.n(0, 9)), 1, 6),
                       "FromDigits[{%s},2]" % g.args(lambda: str(g.n(0, 1)), 1, 8), "EvenQ[%s]" % g.ch(I(), "a", "1/2"), "OddQ[%s]" % g.ch(I(), "a", "1.5"), "Sign[%s]" % g.ch(I(), g.rational()), "Abs[%s]" % g.ch(I(), g.rational()), "IntegerPartitions[%d]" % g.n(0, 8), "Permutations[{%s}]" % g.args(lambda: g.ch("a", "b", "1", "2", "c"), 1, 4), "Tuples[{%s},%d]" % (g.args(g.atom, 1, 3), g.n(0, 3)),
                       "Tuples[{{%s},{%s}}]" % (g.args(g.atom, 1, 3), g.args(g.atom, 1, 3)), "PrimePi[%d]" % g.n(2, 60), "Mod[%s,%d]" % (g.integer(), g.n(1, 1000)), "GCD[%s,%s]" % (g.integer(), g.integer()), "IntegerQ[%s]" % g.number(), "EvenQ[%s]" % g.integer(), "Fibonacci[%d]" % g.n(0, 12), "LCM[%d,%d,%d]" % (g.n(1, 12), g.n(1, 12), g.n(1, 12)), "Numerator[%s]" % g.rational(), "IntegerPartitions[%d,%d]" % (g.n(1, 8), g.n(1, 4)))
    return [ops() for _ in range(12)]


@gen("C32")
def c32(g):
    A = lambda: g.ch(g.small(), g.small(), g.rational(), "a", "b")
    N = lambda: g.ch(g.small(), g.small(), g.rational())
    def mat(f, r, c):
        return "{%s}" % join("{%s}" % join(f() for _ in range(c)) for _ in range(r))
    def vec(f, n):
        return "{%s}" % join(f() for _ in range(n))
    r, c, d = g.n(1, 3), g.n(1, 3), g.n(1, 3)
    n = g.n(1, 3)
    out = ["%s.%s" % (mat(N, r, c), mat(N, c, d)), "%s.%s" % (mat(A, r, c), mat(A, c, d)), "%s.%s" % (vec(A, c), vec(A, c)), "%s.%s" % (vec(A, c), vec(A, d)), "%s.%s" % (mat(N, n, n), vec(N, n)), "Transpose[%s]" % mat(A, r, c), "Dimensions[%s]" % mat(A, r, c), "Dimensions[{%s,%s}]" % (vec(A, c), vec(A, d)),
           "Dimensions[%s]" % g.ch("a", "{}", "{{}}", "{{},{}}", "f[a,b]", "{{{1,2},{3,4}},{{5,6},{7,8}}}", "{{{1,2},{3,4}},{{5,6},{7}}}", "{{1,2},3}", "f[f[1,2],f[3,4]]"), "IdentityMatrix[%d]" % g.n(1, 4), "Det[%s]" % mat(N, n, n), "Det[%s]" % mat(lambda: g.ch("a", "b", "1", "0"), min(n, 2), min(n, 2)),
           "Inverse[%s]" % mat(N, min(n, 2), min(n, 2)), "VectorQ[%s]" % g.ch(vec(A, c), mat(A, r, c), "a", "{}", "{a,{b}}"), "MatrixQ[%s]" % g.ch(vec(A, c), mat(A, r, c), "a", "{{1,2},{3}}", "{{1,2},3}", "{{{1}}}"), "Total[%s]" % vec(A, c), "Total[%s]" % mat(N, r, c), "%s+%s" % (mat(A, r, c), mat(A, r, c)), "%s*%s" % (A(), mat(A, r, c)),
           "%s.%s" % (mat(N, r, c), mat(N, g.n(1, 3), d)), "IdentityMatrix[%d].%s" % (n, mat(N, n, n)), "Transpose[Transpose[%s]]" % mat(A, r, c)]
    return out


@gen("C33")
def c33(g):
    W = lambda: '"' + "".join(g.ch("a", "b", "c", "A", " ", "1", "ab", "x", ".", "-") for _ in range(g.n(0, 6))) + '"'
    s = W()
    L = len(s) - 2
    i = g.n(0, L)
    return ["s=%s" % s, "StringLength[s]", "StringLength[%s]" % W(), "StringJoin[%s]" % g.args(W, 0, 4), "%s<>%s<>%s" % (W(), W(), W()), "StringTake[s,{%d,%d}]" % (g.n(-1, L + 1), g.n(-1, L + 2)), "StringTake[s,{%d,%d}]" % (g.n(1, max(1, L)), g.n(1, max(1, L))), "StringTake[%s,{1,%d}]" % (s, g.n(0, 7)),
            "StringReplace[%s,%s->%s]" % (W(), g.ch('"a"', '"ab"', '"b"', '"x"', '" "', '"aa"'), W()), "StringReplace[s,\"a\"->\"aa\"]", "ToString[%s]" % g.ch(W(), g.integer(), "{%s}" % g.args(W, 0, 3)), "ToString[{%s}]" % g.args(g.small, 0, 4), "s===%s" % W(), "s==%s" % g.ch(s, W()),
            "StringJoin[StringTake[s,{1,%d}],StringTake[s,{%d,%d}]]===s" % (i, i + 1, L), "StringLength[StringJoin[s,%s]]" % W(), "StringJoin[%s,a]" % W(), "StringLength[a]", "Sort[{%s}]" % g.args(W, 0, 4), "Union[{%s}]" % g.args(W, 0, 4), "ToString[%s,InputForm]" % g.ch("a+b", "f[a,{1}]", "1/2", "a^2", "f[g[1]]"),
            "{%s}/.%s->1" % (g.args(W, 1, 3), s), "StringJoin[{%s}]"[:0] + "{StringLength[%s],StringLength[%s]}" % (W(), W()), "Order[%s,%s]" % (W(), W())]


@gen("C33")
def c33_wide(g):
    """characters of more than one byte, empty strings, and positions of any size"""
    W = lambda: '"' + "".join(g.ch("a", "b", "\u00e9", "\u00fc", "\u65e5", "\u03b1", "z", " ", "ab") for _ in range(g.n(0, 5))) + '"'
    s = W()
    L = len(s) - 2
    i = g.n(0, L)
    big = lambda: g.ch("18446744073709551617", "-18446744073709551615", "4294967297", "9223372036854775808")
    return ["s=%s" % s, "StringLength[s]", "StringTake[s,{%d,%d}]" % (g.n(1, L + 1), g.n(0, L + 1)), "StringJoin[StringTake[s,{1,%d}],StringTake[s,{%d,%d}]]===s" % (i, i + 1, L),
            "StringTake[s,{1,%s}]" % big(), "StringTake[s,{%s,2}]" % big(), "StringReplace[s,%s->%s]" % (g.ch('"\u00e9"', '"a"', '"\u65e5\u00e9"', '"b\u00fc"', '"ab"'), W()), "StringLength[%s<>%s]" % (W(), W()),
            "ToString[{s,%s}]" % W(), "Sort[{%s}]" % g.args(W, 0, 5), "{s==%s,s===%s}" % (W(), W()), "StringLength[StringReplace[s,\"a\"->\"\"]]", "MatchQ[s,_String]", "s/.%s->1" % s,
            "StringReplace[s,{\"a\"->\"b\"}]", "StringReplace[s,\"a\"->1]", "StringTake[s,2]"[:0] + "StringTake[s,{1}]", "StringTake[s,{1,a}]", "StringTake[a,{1,1}]", "StringLength[s,s]", "StringJoin[]", "StringJoin[s]", "StringJoin[s,1]"]


@gen("C21", "C22", "C31")
def wide(g):
    """positions, levels and counts beyond the machine integers"""
    B = lambda: g.ch("18446744073709551617", "-18446744073709551615", "4294967297", "9223372036854775808", "-4294967295", "18446744073709551618")
    P = lambda: g.ch("18446744073709551617", "4294967297", "9223372036854775809")
    e = "{a,{b,{c,1}},f[2,{a}]}"
    ops = ["%s[[%s]]" % (e, B()), "%s[[1;;%s]]" % (e, B()), "%s[[2,%s]]" % (e, B()), "Map[h,%s,{%s}]" % (e, B()), "Map[h,%s,{1,%s}]" % (e, P()), "Map[h,%s,%s]" % (e, P()), "Apply[h,%s,{%s}]" % (e, B()), "Apply[h,%s,{0,%s}]" % (e, P()),
           "Count[%s,_Symbol,%s]" % (e, P()), "Count[%s,_,{%s}]" % (e, B()), "MapIndexed[h,%s,{%s}]" % (e, B()), "Flatten[%s,%s]" % (e, P()), "Select[{1,2,3,4},EvenQ,%s]" % P(), "Select[{1,2,3,4},EvenQ,-%s]" % P(), "Take[{1,2,3},%s]" % B(),
           "NestWhileList[(#+1&),1,(#<4&),1,%s]" % P(), "Nest[h,a,-%s]" % P(), "PrimePi[-%s]" % P(), "MatchQ[{1,1},{Repeated[1,{%s}]}]" % B(), "ReplacePart[{1,2},{%s->3}]" % B(),
           "Fibonacci[-%s]"[:0] + "EvenQ[%s]" % B(), "IntegerDigits[%s]" % P(), "GCD[%s,%s]" % (B(), B()), "Mod[%s,%d]" % (B(), g.n(1, 9)), "Table[i,{i,%s,%s}]" % ((P(),) * 2)[:2], "ConstantArray[a,%s]"[:0] + "{1,2,3}[[{1,%s}]]" % B()]
    return ["\x1d" + x for x in g.perm(ops)[:12]]


@gen("C22")
def c22_nest(g):
    """all arguments of the NestWhile family, folds and arrays over other heads"""
    F = lambda: g.ch("h", "(#+1&)", "(#+2&)", "(2*#&)", "Function[t,t+1]", "(#-1&)")
    T = lambda: g.ch("(#<%d&)" % g.n(0, 8), "(#1<%d&)" % g.n(0, 8), "(#1!=#2&)", "(True&)", "(False&)", "(#1+#2<%d&)" % g.n(0, 9), "(Length[{##}]<3&)"[:0] + "(#2<%d&)" % g.n(1, 6))
    def nw(n):
        t, m = T(), g.ch("1", "2", "2", "3", "All", "0")
        if m in "10":
            t = g.ch("(#<%d&)" % g.n(0, 8), "(True&)", "(False&)")
        a = [F(), g.ch("0", "1", "2"), t, m, str(g.n(0, 6))] + ([str(g.n(0, 3))] if g.p(0.4) else [])
        return "%s[%s]" % (n, ",".join(a))
    e = lambda: g.ch("{%s}", "f[%s]", "g[%s]") % g.args(g.atom, 0, 5)
    fn = lambda: g.ch("h", "(#1&)", "(#2&)", "({#1,#2}&)", "Plus", "Function[{#2,#1}]", "List")
    return [nw("NestWhileList"), nw("NestWhile"), nw("NestWhileList"), nw("NestWhileList"), "Fold[%s,%s,%s]" % (fn(), g.atom(), e()), "FoldList[%s,%s,%s]" % (fn(), g.atom(), e()), "FoldList[%s,%s]" % (fn(), e()), "Fold[%s,%s]" % (fn(), e()),
            "NestList[%s,%s,%d]" % (F(), g.small(), g.n(0, 5)), g.ch("FixedPointList[(If[#<%d,#+1,#]&),%d]" % (g.n(0, 6), g.n(0, 6)), "FixedPointList[%s,%s]" % (g.ch("Identity", "(#/.{f[x_]:>x}&)", "(a&)"), g.ch("0", "2", "f[f[a]]", "{b,a}")), "FixedPointList[Sort,{b,a,1}]"),
            "MapIndexed[h,%s,%s]" % (g.expr(3, ("f", "g", "List"), 1, 3), g.ch("{1,2}", "{2}", "Infinity", "{-1}", "{1,-2}", "{0,-2}", "{0,2}", "{-3,2}", "{-2,3}")), "Array[%s,%d]" % (g.ch("h", "(#^2&)", "({#}&)", "Identity"), g.n(0, 6)),
            "Map[h,%s,%s]" % (g.expr(3, ("f", "g", "List"), 1, 3), g.ch("{-3,2}", "{2,-1}", "{2,-2}", "{-2,-1}", "{-1,-1}", "{-3,-2}", "{0,-1}", "{-1,3}", "-2", "-3", "{3,1}")), "Apply[h,%s,%s]" % (g.expr(3, ("f", "g", "List"), 1, 3), g.ch("{-3,2}", "{1,-2}", "{-2}", "{-3}", "{0,-2}", "-2", "{2,3}"))]


@gen("C28")
def c28(g):
    S = ["f1", "g1", "h1", "x1", "y1"]
    V = lambda: g.ch(g.integer(), g.rational(), g.dyadic(), "0", "-1", "0.", "Complex[%s,%s]" % (g.small(), g.n(1, 3)), "Complex[1/2,-3]", '""', '"a b"', '"q\\"w"', '"\\\\"', "{}", "{1,{2,{}}}", "p1", "p1[z1]", "p1[]", "p1[1][2]", "p1[z1]+2", "z1^2+3*z1", "1/z1", "Hold[1+1]", "#+1&", "(#^2&)", "a_Integer", "x_->y_", "Hold[x__?OddQ/;True]", "True", "Null", "12345678901234567890123", "-99999999999999999999/7", '"' + "s" * g.n(1, 300) + '"', "{%s}" % g.args(g.number, 1, 6), "Verbatim[x_]", "{a->1,b:>2}", "Infinity", "f1[b1,a1]", "g1[2]", "h1[{1,2}]")
    P = ["k_", "k_Integer", "k_,m_", "k__", "k___", "1", "z1", "k_,1", "k_?EvenQ", "{k_,m_}", "k_,m_:4", "k_,k_", "k:(1|2|z1)", "k_List", "k_/;k>3", "Except[3]", "1.5", '"s"', "1/2", "k_,m_Integer", "k:Repeated[_]", "Verbatim[_]", "k_Symbol", "0"]
    B = lambda: g.ch("k+1", "{k}", "{k,m}", "g1[k]", "ok", V(), "If[k>1,2,k]", "k^2", "x1", "Module[{t=k},t+1]", "Table[j,{j,2}]", "h1[k]/.{z1->3}", "%s" % V())
    def defs(n):
        out = []
        for _ in range(n):
            c = g.n(0, 9)
            f = g.ch(*S)
            if c < 5:
                r = "%s[%s]:=%s" % (f, g.ch(*P), B())
                if g.p(0.15):
                    r += "/;k>%d" % g.n(0, 3)
                out.append(r)
            elif c < 6:
                out.append("%s=%s" % (g.ch("x1", "y1"), V()))
            elif c < 7:
                out.append("%s:=%s" % (g.ch("x1", "y1"), g.ch("f1[3]", "p1+1", V())))
            elif c < 8:
                out.append("%s[%s]=%s" % (f, g.ch("1", "2", "z1", '"s"', "1/2", "-3"), V()))
            else:
                out.append("SetAttributes[%s,%s]" % (g.ch("f1", "g1", "h1"), g.ch("Orderless", "Listable", "HoldFirst", "{HoldAll,Listable}", "{Orderless,NumericFunction}", "Constant", "SequenceHold", "HoldRest")))
        return out
    def queries(n):
        return ["%s[%s]" % (g.ch("f1", "g1", "h1"), g.ch("1", "2", "4", "z1", "2,1", "1,2", "{1,2}", '"s"', "1/2", "1.5", "1.", "", "-3", "0", "1,1", "1,2,3", "w1", "k_", "{1,2},{3,4}", "b1,a1")) for _ in range(n)] + g.perm(["x1", "y1", "DownValues[f1]", "DownValues[g1]", "{Attributes[f1],Attributes[g1]}", "Attributes[h1]", "DownValues[h1]", "{x1,y1}"])[:4]
    def save():
        sub = g.perm(S)[:g.n(1, 4)]
        if g.p(0.08):
            return g.ch('Save["A.mx",{}]', 'Save["A.mx",{"Global`never1"}]', 'Save["A.mx",f1]', 'Save["NODIR/A.mx",{"Global`f1"}]', 'Save["A.mx"]')
        return 'Save["%s.mx",{%s}]' % (g.ch("A", "A", "B"), ",".join('"Global`%s"' % x for x in sub))
    get = lambda: 'Get["%s.mx"]' % g.ch("A", "A", "A", "B", "C")
    out = ["{%s}" % ",".join(S)] + defs(g.n(3, 8))
    if g.p(0.3):
        out += queries(2)
    out.append(save())
    if g.p(0.4):
        out += defs(g.n(1, 3)) + [save()]
    k = g.n(0, 3)
    if k == 0:
        out += defs(g.n(1, 4)) + [get()] + queries(5)     # in the same session
    if g.p(0.8):
        out.append("!NEW")
        if g.p(0.4):
            out += defs(g.n(1, 3))
        if g.p(0.3):
            out += queries(2)
        out += [get()] + queries(6)
        if g.p(0.5):
            out += defs(g.n(1, 3)) + queries(4)
        if g.p(0.3):
            out += ['Save["B.mx",{"Global`f1"}]', "!NEW", 'Get["B.mx"]'] + queries(5)
    if g.p(0.35):
        sep = g.ch("\n", "\n\n", "\n(* c; [ *)\n", " \n ", "\n\n\n")
        body = defs(g.n(1, 5)) + g.ch([], ["x1"], ["{f1[2],\nx1}"], ["x1=7", "x1"])
        if g.p(0.2):
            body.insert(g.n(0, len(body)), "\x1e" + g.ch("x1=6]", "x1=)3", "{1,2]", "x1=(3}") )
        out += ["!FILE\x1fD.WL\x1f" + sep + "\x1f" + "\x1f".join(body), g.ch('Get["D.WL"]', '<<"D.WL"'[:0] + 'Get["D.WL"]', "{Get[\"D.WL\"],1}")] + queries(5)
    return out


# ========================================================= shapes of arguments
SHAPE = {
    "C05": ["Sort", "Thread", "l", "Orderless"[:0] + "u", "v", "w", "q", "p", "Plus", "Times", "OrderedQ"],
    "C06": ["Union", "Intersection", "Complement", "DeleteDuplicates", "Tally", "Count", "MemberQ", "FreeQ", "SameQ", "UnsameQ", "Cases", "DeleteCases"],
    "C09": ["Equal", "Unequal", "Less", "LessEqual", "Greater", "GreaterEqual", "SameQ", "UnsameQ", "Max", "Min", "Positive", "Negative", "Sign", "Abs"],
    "C19": ["Replace", "ReplaceAll", "ReplaceRepeated"[:0] + "ReplacePart", "ReplaceList"],
    "C21": ["Part", "Take", "First", "Last", "Rest", "Append", "Prepend", "Join", "Reverse", "Flatten", "PadRight", "PadLeft", "Thread", "Transpose", "Count", "Select", "Cases", "DeleteCases", "Length", "Head", "Depth", "Total",
            "MemberQ", "Mean", "LeafCount", "Range", "ConstantArray", "Union", "Intersection", "Complement", "Distribute"],
    "C22": ["Map", "MapIndexed", "Apply", "Fold", "FoldList", "Nest", "NestList", "Array", "Scan", "Select", "Count"],
    "C30": ["And", "Or", "Not", "TrueQ", "Boole", "AllTrue", "BooleanQ", "If", "Which", "Xor"[:0] + "Switch"],
    "C31": ["GCD", "LCM", "Mod", "PowerMod", "PrimeQ", "FactorInteger", "EulerPhi", "Fibonacci", "Multinomial", "IntegerDigits", "FromDigits", "EvenQ", "OddQ", "Sign", "Abs", "IntegerPartitions", "Permutations", "Tuples", "PrimePi", "IntegerQ", "Numerator",
            "Denominator", "Max", "Min", "Prime"],
    "C32": ["Dot", "Transpose", "Dimensions", "Det", "Inverse", "VectorQ", "MatrixQ", "Total", "IdentityMatrix", "Plus", "Times"],
    "C33": ["StringJoin", "StringLength", "StringTake", "StringReplace", "ToString", "SameQ", "Equal", "Sort", "Order", "Union"],
}
FNS = ["h", "List", "Plus", "(#&)", "({#,1}&)", "Function[t,{t}]", "IntegerQ", "EvenQ", "f", "(#1->#2&)"]


def shaped(pid):
    heads = SHAPE[pid]

    def f(g):
        def atomish():
            return g.ch("a", "b", "1", "2", "0", "-1", "3", "(1/2)", "1.5", '"s"', '"st"', "True", "c")

        def lst(d=1, lo=0, hi=4):
            h = g.ch("{%s}", "{%s}", "{%s}", "f[%s]", "g[%s]")
            n = g.n(lo, hi)
            same = lst(d - 1) if d > 1 and g.p(0.4) else None
            return h % join(same if same else lst(d - 1) if d > 1 and g.p(0.5) else atomish() for _ in range(n))

        def arg():
            k = g.r.random()
            if k < 0.3:
                return atomish()
            if k < 0.55:
                return lst()
            if k < 0.7:
                return lst(2, 0, 3)
            if k < 0.78:
                return g.ch("_", "_Integer", "_Symbol", "a|1", "x_", "f[_]", "_List", "{_,__}", "Except[a]", "_?EvenQ")
            if k < 0.86:
                return g.ch(*FNS)
            if k < 0.93:
                return g.ch("a->b", "1->x", "x_Integer:>x+1", "{1}->z", "{a->1,b->2}", "_->0", "f[x_]:>x", '"s"->"tt"', "{2,1}->q", "{a->b,_->c}", "x_->{x}")
            return g.ch("{1,2}", "{-1}", "{1}", "2;;3", "All", "Infinity", "{0,1}", "{2}", "1;;2", "a+b", "2*a", "a<b", "a==a")

        def call():
            h = g.ch(*heads)
            n = g.ch(0, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5)
            if g.p(0.35):      # the same arguments, or arguments of the same shape, again and again
                pool = [arg() for _ in range(2)] + [lst(1, 2, 3)]
                a = [g.ch(*pool) for _ in range(n)]
            elif g.p(0.4):     # lists over few elements
                k = g.n(0, 3)
                a = ["{%s}" % join(g.ch("a", "b", "1", "2") for _ in range(k if g.p(0.8) else g.n(0, 3))) for _ in range(n)]
            else:
                a = [arg() for _ in range(n)]
            if h == "IntegerDigits" and n != 1:      # runs forever in base 1
                a = [str(g.n(-60, 300)), str(g.n(2, 20))]
            elif h == "Tuples":
                a = [lst(), str(g.n(-1, 3))][:n] + a[2:]
            elif h == "Fibonacci":      # runs forever for anything else
                a = [str(g.n(0, 20))]
            elif pid == "C31" and g.p(0.6):
                a = [str(g.n(-5, 40)) if g.p(0.8) else g.ch("a", "(1/2)", "1.5") for _ in a]
            return "%s[%s]" % (h, join(a))
        out = [call() for _ in range(16)]
        pre = need(out, 0)
        if any("l[" in s for s in out):
            pre.append("SetAttributes[l,Listable]")
        return pre + ["\x1d" + x for x in out]      # independent of each other
    return f


for _pid in SHAPE:
    GEN.setdefault(_pid, []).append(shaped(_pid))
