"""Inputs for the algebra of C34: {Hold[fn], e1, .., ek, fn[e1, .., ek]}."""


class G:
    def __init__(self, r):
        self.r = r

    def n(self, a, b):
        return self.r.randint(a, b)

    def ch(self, *xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    def coef(self):
        return self.ch("1", "2", "3", "-1", "-2", "5", "7", "1/2", "-3/4", "12", "-6", "2/3")

    def mono(self, vs, d=3):
        k = self.n(0, min(2, len(vs)))
        v = self.r.sample(vs, k)
        return "*".join(["(%s)" % self.coef()] + ["%s^%d" % (x, self.n(1, d)) if self.p(0.6) else x for x in v])

    def poly(self, vs, k=4, d=3):
        return "+".join(self.mono(vs, d) for _ in range(self.n(1, k)))

    def uni(self, x, d=4):
        return "+".join("(%s)*%s^%d" % (self.coef(), x, i) if i else "(%s)" % self.coef() for i in range(self.n(0, d) + 1) if self.p(0.8)) or "%s-1" % x

    def lin(self, x):
        return "(%s%+d)" % (x if self.p(0.7) else "%d*%s" % (self.n(2, 3), x), self.ch(-3, -2, -1, 1, 2, 3))

    def prod(self, vs):
        """products of powers of sums"""
        f = lambda: self.ch("(%s)" % self.poly(vs, 2, 2), self.lin(self.ch(*vs)), self.ch(*vs))
        return "*".join(f() + (self.ch("", "", "^2", "^3")) for _ in range(self.n(1, 3)))

    def ratf(self, vs):
        den = lambda: self.ch(self.lin(self.ch(*vs)), self.ch(*vs), "(%s)" % self.poly(vs, 2, 2), self.lin(vs[0]) + "^2")
        return self.ch(lambda: "(%s)/%s" % (self.poly(vs, 3, 2), den()), lambda: "%s/%s+%s/%s" % (self.coef(), den(), self.coef(), den()), lambda: "(%s)/(%s*%s)" % (self.poly(vs, 2, 2), den(), den()),
                       lambda: "%s^(-%d)*%s" % (self.lin(vs[0]), self.n(1, 2), self.prod(vs)))()

    def expr(self, vs):
        return self.ch(self.poly, self.prod, self.ratf, self.nest)(vs)

    def nest(self, vs):
        return self.ch("(%s)*(%s)+%s", "((%s)+(%s))*%s", "(%s)-(%s)*(%s)", "((%s)*(%s))^2-(%s)") % tuple(self.ch(self.poly(vs, 2, 2), self.lin(self.ch(*vs)), self.ch(*vs)) for _ in range(3))

    def fun(self, x):
        u = self.ch(x, "2*%s" % x, "%s^2" % x, "%s+1" % x, "a*%s" % x)
        return self.ch("Sin[%s]", "Cos[%s]", "Log[%s]", "E^(%s)", "Sqrt[%s]", "(%s)^(1/3)", "(%s)^(5/2)", "(%s)^a", "2^(%s)", "(%s)^2") % u

    def call(self, fn, *a):
        if fn == "NumDen":
            return "{Hold[NumDen],%s,{Numerator[%s],Denominator[%s]}}" % (a[0], a[0], a[0])
        return "{Hold[%s],%s,%s[%s]}" % (fn, ",".join(a), fn, ",".join(a))

    def text(self):
        vs = self.ch(["x"], ["x", "y"], ["x", "y"], ["x", "y", "z"])
        x = self.ch(*vs)
        c = self.call
        k = min(25, self.n(0, 27))
        if k in (0, 1, 2):
            return c(self.ch("Expand", "Expand", "ExpandAll"), self.expr(vs))
        if k == 3:
            return c("Together", self.ratf(vs[:2]))
        if k == 4:
            return self.ch(lambda: c("Apart", self.ratf(["x"])), lambda: c("Apart", self.ratf(["x"]), "x"))()
        if k == 5:
            return c(self.ch("FactorTerms", "FactorSquareFree", "Factor"), self.ch(self.uni("x"), self.lin("x") + "^%d*" % self.n(1, 3) + self.lin("x")))
        if k == 6:
            return c(self.ch("Simplify", "FullSimplify"), self.ch(self.poly, self.nest, self.ratf)(["x"] if self.p(0.5) else ["x", "y"]))
        if k == 7:
            return c("PowerExpand", "(%s*%s)^%d" % (self.ch("x", "y", "2"), self.ch("x^2", "z", "y", "1/y"), self.n(-3, 4)))
        if k in (8, 9):
            return c("D", self.expr(vs), x)
        if k == 10:
            return c("D", "(%s)*%s" % (self.poly(["x"], 2, 2), self.fun("x")) if self.p(0.5) else "%s+%s" % (self.fun("x"), self.poly(["x"], 2)), "x")
        if k == 11:
            return c("D", self.ch(self.poly, self.prod)(vs), "{%s,%d}" % (x, self.n(0, 3))) if self.p(0.5) else c("Grad", self.poly(["x", "y"]), self.ch("{x,y}", "{y,x}", "{x}"))
        if k == 12:
            return c("NumDen", self.expr(vs))
        if k == 13:
            return self.ch(lambda: c("Coefficient", self.ch(self.poly, self.prod)(["x", "y"]), "x%s*y%s" % (self.ch("", "^2"), self.ch("", "^2"))), lambda: c("Coefficient", self.ch(self.poly, self.prod)(vs), x), lambda: c("Coefficient", self.ch(self.poly, self.prod)(vs), x, str(self.n(0, 3))))()
        if k == 14:
            return c("CoefficientList", self.ch(self.poly, self.prod)(vs), x)
        if k == 15:
            return c("Exponent", self.ch(self.poly, self.prod)(vs), x)
        if k == 16:
            return self.ch(lambda: c("Variables", self.poly(["x", "y", "z"])), lambda: c("PolynomialQ", self.ch(self.poly, self.prod)(vs), x))()
        if k == 17:
            if self.p(0.1):
                return c(self.ch("PolynomialQuotientRemainder", "PolynomialQuotient", "PolynomialRemainder"), "x^%d+%s" % (self.n(15, 26), self.uni("x", 2)), self.lin("x"), "x")
            return c(self.ch("PolynomialQuotientRemainder", "PolynomialQuotient", "PolynomialRemainder"), self.uni("x", 5), self.ch(self.uni("x", 2) + "+2*x^2", self.lin("x"), self.lin("x") + "*x", "3"), "x")
        if k == 18:
            g = self.lin("x")
            return c("PolynomialGCD", self.ch("%s*%s" % (g, self.lin("x")), self.uni("x", 3)), self.ch("%s*(%s)" % (g, self.uni("x", 2)), "%s^2" % g))
        if k == 19:
            return c("SquareFreeQ", self.ch(self.uni("x"), self.lin("x") + "*" + self.lin("x"), self.lin("x") + "^2*" + self.lin("x")))
        if k == 20:
            it = self.ch("{i,%d,%d}", "{i,%d,%d}", "{i,%%d,%%d,%d}" % self.ch(1, 2, 3), "{i,%%d,%%d,%d}" % self.ch(1, 2)) % (self.n(-2, 2), self.n(-1, 6))
            return c(self.ch("Sum", "Sum", "Product") if it.count(",") == 2 else "Sum", self.poly(["i", "x"], 2), it)
        if k == 21:
            return c("Sum", self.ch("i", "2*i", "a*i", "1", "i+1", "i^2", "3", "a"), "{i,%s,n}" % self.ch("1", "0"))
        if k == 23:
            q = lambda: self.ch("1", "2", "-3", "1/2", "0", "-1/3")
            z = lambda: "(%s+(%s)*I)" % (q(), q())
            return c(self.ch("Re", "Im", "Conjugate", "ComplexExpand"), self.ch("%s*%s" % (z(), z()), z(), "%s^%d" % (z(), self.n(1, 4)), "%s+%s" % (z(), z()), "1/(%s+2*I)" % self.coef(), q()))
        if k == 24:
            co = lambda: str(self.n(-3, 4))
            e = lambda: ("(%s)*x+(%s)*y" % (co(), co()), co())
            (a, b), (d, f) = e(), e()
            return "{Hold[SolveSys],%s,%s,%s,%s,{x,y},Solve[{%s==%s,%s==%s},{x,y}]}" % (a, b, d, f, a, b, d, f)
        if k == 25:
            return self.ch(lambda: c("Together", "+".join("%s/%s" % (self.coef(), self.ch(self.lin("x"), "x", "y", "(x+y)")) for _ in range(3))),
                           lambda: c("Numerator" if False else "NumDen", self.ch("x^(-2)*y", "2/3*x/y", "Sqrt[x]/y", "x^a/2", "x^(-a)", "E^(-x)", "1/Sqrt[2]", "-x/(y+1)", "2^(-x)*y", "(x/y)/(z/2)", "3/4", "x^(-1/2)")),
                           lambda: c("Expand", self.ch("(Sqrt[2]+1)^2", "(Sqrt[x]+1)^3", "(x+I)^2", "(1+Sqrt[3])*(1-Sqrt[3])", "(x^a+1)^2", "(x+y+z)^3", "x*(x^(-1)+x)", "(2*x+3*y)^4", "(a+b)^2/(a+b)", "(x+1)^5-(x-1)^5", "(f[x]+1)^2")),
                           lambda: c("Expand", "(%s)^%d" % ("+".join(self.r.sample(["x", "y", "z", "w", "1", "2*x*y", "x^2", "1/x", "-3", "a"], self.n(3, 5))), self.n(2, 5))),
                           lambda: c("Expand", "(%s)^%d*(%s)" % ("+".join(self.r.sample(["x", "y", "z", "1", "x^2", "-y^2"], self.n(2, 4))), self.n(2, 4), self.poly(["x", "y"], 3))),
                           lambda: c("D", self.ch("x^x", "Sin[x]^2", "Sin[x]*Cos[x]", "Log[x^2+1]", "E^(x^2)", "1/Sin[x]", "Sqrt[x^2+1]", "a^x", "x^a", "Log[x]/x", "Sin[Cos[x]]", "E^(a*x)*x", "Sin[a]*x", "f[a]*x^2", "Cos[x]^3", "(x^2+1)^a", "x^(1/3)*Log[x]", "Sin[x*y]"), "x"),
                           lambda: "{Hold[Solve],a*x^2+b*x+c,0,x,Solve[a*x^2+b*x+c==0,x]}",
                           lambda: (lambda l, r: "{Hold[Solve],%s,%s,x,Solve[%s==%s,x]}" % (l, r, l, r))(*self.ch(("x^2+a", "0"), ("(x-a)*(x-b)", "0"), ("x^2", "a^2"), ("a*x", "b*x+1"), ("x^3", "8"), ("x/(x+a)", "b"), ("x^2+2*x+a", "1"), ("x", "a+b"), ("3", "x"), ("x^2-2", "0"), ("x^2+1", "0"))))()
        # (an equation is given by its sides)
        l, r = self.ch((self.uni("x", 1) + "+x", self.coef()), (self.uni("x", 1) + "+3*x", "2*x" if self.p(0.3) else self.coef()), (self.lin("x") + "*" + self.lin("x"), "0"), ("x^2", self.coef()),
                       ("a*x+b", "c"), ("x^2+(%s)*x" % self.coef(), self.coef()), ("1/x", self.coef()), ("(x+1)^2", "4"), ("2*x^2-8", "0"), ("x/3+1", "x"), (self.lin("x") + "/" + self.lin("x"), "2"))
        return "{Hold[Solve],%s,%s,x,Solve[%s==%s,x]}" % (l, r, l, r)


def texts(r, n):
    g = G(r)
    return [g.text() for _ in range(n)]
