"""Inputs for the elementary functions of C35: expressions whose value the evaluation has to keep."""

TRIG = ["Sin", "Cos", "Tan", "Cot", "Sec", "Csc"]
HYP = ["Sinh", "Cosh", "Tanh", "Coth", "Sech", "Csch"]


class G:
    def __init__(self, r):
        self.r = r

    def n(self, a, b):
        return self.r.randint(a, b)

    def ch(self, *xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    def rat(self):
        return self.ch("1/2", "-1/2", "2/3", "-3/4", "1/3", "3/2", "-5/2", "5/6", "-1/6", "7/3", "-4/3", "5/4")

    def num(self):
        return self.ch(str(self.n(-9, 9)), str(self.n(1, 4)), self.rat(), "I", "%d I" % self.n(2, 4), "(%d%+d I)" % (self.n(-3, 3), self.ch(-2, -1, 1, 2)))

    def v(self):
        return self.ch("x", "x", "y", "a", "b", "z")

    def piang(self):
        """a multiple of Pi/12"""
        return self.ch("Pi", "-Pi", "%d Pi" % self.n(-6, 6), "%d Pi/%d" % (self.n(-13, 13), self.ch(2, 2, 3, 4, 6)), "(%d/%d)*Pi" % (self.n(-13, 13), self.ch(2, 3, 4, 6, 12)), "%d Degree" % (15 * self.n(-19, 19)))

    def lin(self):
        """a linear combination"""
        co = lambda: self.ch("", "", "-", "2 ", "-3 ", "I ", "-I ", "2 I ", "-1/2*", "3/2*")
        k = self.n(1, 3)
        vs = [self.ch("x", "y", "a", "b", "x*y", "x^2", "Pi", "a*b*x") for _ in range(k)]
        t = ["%s%s" % (co(), v) for v in vs]
        if self.p(0.3):
            t.append(self.ch(self.piang(), str(self.n(-5, 5)), self.rat(), "Pi/2", "-Pi/2", "Pi"))
        self.r.shuffle(t)
        return "+".join("(%s)" % x for x in t) if self.p(0.8) else "(%s)*(%s)" % (self.ch("2", "-1", "I", "-I", "1/2", "x"), "+".join("(%s)" % x for x in t))

    def imlin(self):
        """a sum of imaginary terms"""
        return "+".join(self.ch("I x", "2 I y", "-I a", "I x*y", "I/2 b", "I", "-3 I z") for _ in range(self.n(1, 3)))

    def ang(self):
        return self.ch(self.piang, self.piang, self.lin, self.lin, self.v, self.imlin, lambda: "-" + self.v(), lambda: self.ch("0", "-1", "2", "-1/2", "I", "-2 I"))()

    def trig(self):
        return self.ch(lambda: "%s[%s]" % (self.ch(*TRIG[:2]), self.ang()), lambda: "%s[%s]" % (self.ch(*TRIG), self.ang()), lambda: "%s[%s]" % (self.ch(*HYP), self.ang()),
                       lambda: self.ch("Sin[ArcSin[%s]]", "Cos[ArcCos[%s]]", "Tan[ArcTan[%s]]") % self.ch("x", "a*b", "1/3", "-2", "x+1"), lambda: "%s[ArcTan[%s]]" % (self.ch("Sin", "Cos"), self.ch("1/2", "2", "-1/2", "1", "0", "-1", "3", "1/7")))()

    def arc(self):
        return self.ch(lambda: "%s[%s]" % (self.ch("ArcSin", "ArcTan", "ArcCos"), self.ch("0", "1", "-1", "1/2", "-1/2", "x", "-x", "-2 x", "x+y", "-x-y", "x-1", "-3", "1-x", "a*b")), lambda: "ArcTan[%s,%s]" % (self.ch("1", "-1", "2", "-1/2", "3"), self.ch("0", "1", "-1", "2", "-3", "1/2")))()

    def root(self):
        b = self.ch("2", "3", "4", "6", "8", "9", "12", "18", "24", "27", "32", "48", "1/2", "3/4", "2/3", "8/9", "1/12", "9/4", "27/8", "16", "36", "108", "1/8")
        b = self.ch(b, b, b, "-" + b)
        e = self.ch("1/2", "-1/2", "3/2", "-3/2", "5/2", "1/3", "2/3", "-2/3", "4/3", "5/6", "-7/3", "7/2", "-5/3")
        return self.ch(lambda: "(%s)^(%s)" % (b, e), lambda: "(%s)^(%s)" % (b, e), lambda: "Sqrt[%s]" % b, lambda: "%s^(%s)" % (self.v(), e), lambda: "(%s %s)^(%s)" % (b.strip("-"), self.v(), self.ch("1/2", "-1/2", "3/2", "1/3")), lambda: "Sqrt[%s]" % self.v(),
                       lambda: "Sqrt[%s]" % self.ch("5", "7", "10", "14", "20", "45", "35", "5/7"))()

    def power(self):
        e = self.ch("x", "2 x", "x+y", "x+1", "-x", "x-2", "a*x", "x/2", "x-1/2" if self.p(0.2) else "x", "3", "-2", "0", "x^2")
        b = self.ch("2", "3", "4", "6", "1/2", "x", "a", "2/3", "1", "10", "E", "E", "y", "-2", "2 x", "-2 x", "x+1", "3 a*x", "-x")
        return "(%s)^(%s)" % (b, e)

    def expo(self):
        return self.ch(lambda: "E^(%s)" % self.lin(), lambda: "E^(%s)" % self.lin(), lambda: "Exp[%s]" % self.lin(), lambda: "E^(%s I*%s)" % (self.ch("", "-", "2", "1/2*"), self.piang()), lambda: "E^(%s)" % self.num(),
                       lambda: "E^(%s Log[%s]%s)" % (self.ch("", "2 ", "-", "-3 ", "1/2*", "x "), self.ch("x", "2", "y", "6", "1/2"), self.ch("", "", "+y", "-1", "+I Pi", "+Log[3]", "+a+b")), lambda: "E^(%s)*E^(%s)" % (self.lin(), self.lin()), lambda: "E^Log[%s]" % self.ch("x", "x*y", "x+1", "-2", "3"))()

    def log(self):
        return self.ch(lambda: "Log[%s]" % self.ch("2", "3", "6", "12", "1", "10", "1/2", "1/3", "2/3", "-1", "-2", "-1/2", "-3/4", "E", "36", "25", "1/7"), lambda: "Log[E^(%s)]" % self.ch("2", "-3", "1/2", "I", "2 I", "-3 I", "4 I", "7 I", "1+4 I", "-1-9 I", "I Pi/3", "-2 I Pi/3", "5 I Pi/2", "10 I", "3/2 I"),
                       lambda: "Log[%s]" % self.ch("x", "x*y", "2 x", "3 x", "x^2", "x/2", "x+1", "2/3*x"))()

    def cx(self):
        t = self.ch(lambda: self.lin(), lambda: self.num(), lambda: "(%s)*(%s)" % (self.num(), self.v()), lambda: "(%s)*(%s)+%s" % (self.num(), self.v(), self.num()), lambda: "E^(%s)" % self.ch("I", "2 I", "1+I", "I Pi/3", "I/2", "3", "-I"), lambda: "(%s)*(%s)*(%s)" % (self.num(), self.v(), self.v()),
                    lambda: "x+I y", lambda: "(x+I y)*(a-I b)", lambda: "Sqrt[%d]*(%s)" % (self.n(2, 8), self.num()), lambda: self.ch("Pi", "-Pi", "I Pi", "2+Pi I", "Sqrt[2]+I", "Sqrt[3] I", "-2 Sqrt[2]", "2^(1/3)*I", "-3 Sqrt[5]+4 I"))()
        f = self.ch("Re[%s]", "Im[%s]", "Conjugate[%s]", "ReIm[%s]", "Abs[%s]", "Re[%s]+I Im[%s]", "ComplexExpand[Re[%s]]", "ComplexExpand[Im[%s]]", "ComplexExpand[Conjugate[%s]]", "ComplexExpand[%s]", "ComplexExpand[Abs[%s]]")
        return f.replace("%s", t)

    def absn(self):
        return self.ch(lambda: "Abs[%s]" % self.ch("-3", "2", "-1/2", "3+4 I", "-5 I", "-x", "-2 x", "x*y", "-x*y", "I x", "-I x", "0", "1+I", "5/3", "-a*b*x", "Pi", "-Pi", "3-4 I", "1/2+I/2"), lambda: "Sign[%s]" % self.ch("-3", "0", "5", "-1/2", "2/3"), lambda: "Arg[%s]" % self.ch("1", "-1", "I", "-I", "1+I", "-1+I", "-2-2 I", "1-I", "3", "-1/2", "2+I", "-2+3 I"))()

    def diff(self):
        u = lambda: self.ch("x", "2 x", "x^2", "a*x", "x+1", "x*y", "-x", "3 x+b", "1/x", "a x^2+b")
        f = lambda: self.ch("Sin[%s]", "Cos[%s]", "E^(%s)", "Log[%s]", "Sqrt[%s]" if self.p(0.3) else "Sqrt[x]+%s", "Exp[%s]", "(%s)^3", "(%s)^(-2)", "2^(%s)", "(%s)^a", "(%s)^x", "Tan[%s]" if self.p(0.3) else "Sin[%s]", "Sin[%s]^2", "Cos[%s]^3", "x^(3/2)*(%s)", "Sin[Cos[%s]]", "Log[Sin[%s]]", "E^Sin[%s]", "Cos[E^(%s)]") % u()
        e = self.ch(lambda: f(), lambda: "%s*%s" % (f(), f()), lambda: "%s+%s" % (f(), f()), lambda: "%s/%s" % (f(), f()), lambda: "x*%s" % f(), lambda: "%s*%s*%s" % (self.ch("3", "a", "x^2", "-1/2"), f(), f()), lambda: "{%s,%s}" % (f(), f()))()
        if e.startswith("{"):
            return "D[%s,x]" % e
        return self.ch("D[%s,x]", "D[%s,x]", "D[%s,x]", "D[%s,{x,2}]", "D[%s,y]") % e

    def same(self):
        e = self.ch(self.term, self.term, self.sum2)()
        return self.ch("TrigToExp[%s]", "TrigToExp[%s]", "Expand[%s]", "Simplify[%s]", "TrigExpand[%s]", "Together[%s]", "ExpandAll[%s]", "ComplexExpand[%s]") % e

    def prod(self):
        c = self.ch("Cosh[a]*Csch[a]^%d" % self.n(1, 3), "Cosh[x]*Csch[x]^2*y", "Sin[x]^2+Cos[x]^2", "Tan[x]^(-1)", "Cot[x]^(-1)", "1/Tan[%s]" % self.lin(), "1/Cot[%s]" % self.lin(), "Tan[%s+Pi/2]" % self.lin(), "Cot[%s+Pi/2]" % self.lin(), "Sec[%s-Pi/2]" % self.lin(), "Cot[-%s+%s]" % (self.v(), self.ch("y", "b+c", "2", "2 b", "y+Pi/2")), "RotationMatrix[%s]" % self.ang())
        return c

    def term(self):
        return self.ch(self.trig, self.trig, self.arc, self.root, self.power, self.expo, self.log)()

    def sum2(self):
        op = self.ch("(%s)*(%s)", "(%s)+(%s)", "(%s)/(%s)", "(%s)-(%s)", "(%s)*(%s)^(-2)", "(%s)^2+(%s)", "(%s)^2*(%s)", "2*(%s)-3/2*(%s)")
        same = self.ch(self.root, self.power, self.expo, self.trig)
        return op % (self.ch(self.term, same)(), same())

    def chain(self):
        """products of roots and powers"""
        if self.p(0.3):                                  # roots with the same exponent
            e = self.ch("1/2", "1/3", "2/3", "-1/2", "-1/3", "-2/3", "5/6", "3/2", "4/3")
            return "*".join("(%s)^(%s)" % (self.ch("2", "3", "6", "-2", "-3", "-1", "12", "-6", "-8", "x", "4", "-18", "1/2", "-1/2"), self.ch(e, e, e, "-" + e)) for _ in range(self.n(2, 4)))
        f = self.ch(self.root, self.power, self.expo)
        return "*".join("(%s)%s" % (f(), self.ch("", "", "", "^2", "^(-1)")) for _ in range(self.n(2, 4)))

    def text(self):
        return self.ch(self.trig, self.trig, self.arc, self.root, self.root, self.power, self.expo, self.expo, self.log, self.cx, self.cx, self.absn, self.diff, self.diff, self.same, self.prod, self.sum2, self.sum2, self.chain, self.chain)()


def texts(r, n):
    g = G(r)
    return [g.text() for _ in range(n)]
