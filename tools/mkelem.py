"""Writes spec/ElemTab.tla: points of evaluation in prime fields for spec/Elem.tla."""
import os, random
R = random.Random(7)
FIELDS = [(23209, 967), (45481, 379), (4729, 197), (26161, 109)]
SYMS = ["a", "b", "c", "n", "t", "u", "w", "x", "y", "z"]
PRIMES = [2, 3, 5, 7, 11, 13]


def root(v, k, q, also=lambda w: True):
    c = [w for w in range(q) if pow(w, k, q) == v % q and also(w)]
    return c[0] if c else None


def point(q, m):
    zeta = next(pow(h, (q - 1) // 24, q) for h in range(2, q) if all(pow(h, (q - 1) // 24 * d, q) != 1 for d in (8, 12)))
    g = next(pow(h, (q - 1) // m, q) for h in range(2, q) if all(pow(h, (q - 1) // m * (m // p), q) != 1 for p in range(2, m + 1) if m % p == 0 and all(p % d for d in range(2, p))))
    zi = pow(zeta, -1, q)
    r2, r3 = (pow(zeta, 3, q) + pow(zi, 3, q)) % q, (zeta ** 2 + zi * zi) % q
    w = {2: root(2, 6, q, lambda w: pow(w, 3, q) == r2), 3: root(3, 6, q, lambda w: pow(w, 3, q) == r3)}
    s = {2: r2, 3: r3, 5: root(5, 2, q), 7: root(7, 2, q)}
    assert all(w.values()) and all(s.values())
    rnd = lambda: R.randrange(2, q)
    rm = lambda: R.randrange(2, m)
    f = lambda d: "[s \\in {%s} |-> CASE %s]" % (",".join('"%s"' % k for k in d), " [] ".join('s = "%s" -> %s' % kv for kv in d.items()))
    fi = lambda d: "[s \\in {%s} |-> CASE %s]" % (",".join(str(k) for k in d), " [] ".join('s = %s -> %s' % kv for kv in d.items()))
    syms = SYMS + [x + "*" for x in SYMS]
    return ("[q |-> %d, m |-> %d, g |-> %d, J |-> %d, zeta |-> %d, pi |-> %d, pie |-> %d, cj |-> 0, re |-> 0,\n    six |-> %s,\n    two |-> %s,\n    sym |-> %s,\n    exp |-> %s,\n    lam |-> %s,\n    lamp |-> %s,\n    logp |-> %s]"
            % (q, m, g, rm(), zeta, rnd(), rm(), fi(w), fi(s), f({k: rnd() for k in syms}), f({k: rm() for k in syms}), f({k: rm() for k in syms}), fi({k: rm() for k in PRIMES}), fi({k: rnd() for k in PRIMES})))


out = "------------------------------- MODULE ElemTab -------------------------------\n(* Points of evaluation: written by tools/mkelem.py *)\nEXTENDS Integers\n"
for i, (q, m) in enumerate(FIELDS):
    out += "P%d == %s\n" % (i + 1, point(q, m))
out += "Points == <<%s>>\nSymNames == {%s}\n" % (",".join("P%d" % (i + 1) for i in range(len(FIELDS))), ",".join('"%s"' % s for s in SYMS))
out += "=" * 78 + "\n"
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "ElemTab.tla"), "w").write(out)
