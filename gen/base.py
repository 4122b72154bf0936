"""Building blocks of the scenario generators."""
import random


class G:
    def __init__(self, rng):
        self.r = rng

    def ch(self, *xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def n(self, a, b):
        return self.r.randint(a, b)

    def args(self, f, lo, hi):
        return ",".join(f() for _ in range(self.n(lo, hi)))

    # ------------------------------------------------------------- atoms
    def small(self):
        return str(self.n(-3, 9))

    def integer(self):
        k = self.r.random()
        if k < 0.6:
            return str(self.n(-12, 12))
        if k < 0.75:
            return str(self.n(-1000, 1000))
        if k < 0.85:
            return str(self.ch(-1, 1) * (2 ** self.ch(15, 16, 30, 31, 32, 62, 63, 64) + self.n(-2, 2)))
        return str(self.ch(-1, 1) * self.r.randrange(10 ** self.n(3, 30)))

    def rational(self):
        return "(%d/%d)" % (self.n(-9, 9), self.n(1, 9))

    def dyadic(self):
        return self.ch("0.5", "1.5", "2.", "-0.25", "3.75", "0.125", "-4.")

    def exact(self):
        return self.integer() if self.p(0.65) else self.rational()

    def number(self):
        k = self.r.random()
        if k < 0.5:
            return self.integer()
        if k < 0.8:
            return self.rational()
        if k < 0.92:
            return self.dyadic()
        return "Complex[%s,%s]" % (self.n(-3, 3), self.ch(-2, -1, 1, 2))

    def sym(self):
        return self.ch("a", "b", "c", "d", "e", "k")

    def string(self):
        return '"' + self.ch("", "a", "b", "ab", "B", "x y", "zz", "a1", "1") + '"'

    def atom(self):
        k = self.r.random()
        if k < 0.4:
            return self.sym()
        if k < 0.8:
            return self.small()
        if k < 0.88:
            return self.string()
        if k < 0.95:
            return self.rational()
        return self.ch("1.5", "0.5", "2.")

    # --------------------------------------------------------- expressions
    def expr(self, d=2, heads=("f", "g", "h", "List"), lo=0, hi=3):
        if d == 0 or self.p(0.3):
            return self.atom()
        h = self.ch(*heads)
        a = self.args(lambda: self.expr(d - 1, heads, lo, hi), lo, hi)
        if h == "List":
            return "{" + a + "}"
        if self.p(0.05):
            return "%s[%s][%s]" % (h, a, self.atom())
        return "%s[%s]" % (h, a)

    def lst(self, f=None, lo=0, hi=5):
        return "{" + self.args(f or self.atom, lo, hi) + "}"

    def perm(self, xs):
        xs = list(xs)
        self.r.shuffle(xs)
        return xs


def join(xs):
    return ",".join(xs)
