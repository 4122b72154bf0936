"""C26: rendered graphics (spec/Graphics.tla)."""
import itertools, random, time
import vlib


def prim(r, d, bad):
    u = r.random()
    if u < 0.32:
        return ["line"] + [[r.randint(-40, 40), r.randint(-40, 40)] for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
    if u < 0.62:
        ds = []
        for _ in range(r.randint(0, 3)):
            v = r.random()
            ds.append(["rgb"] + [r.randint(0, 4) for _ in range(3)] if v < 0.4 else ["op", r.randint(0, 4)] if v < 0.65 else ["th", r.randint(0, 20)] if v < 0.9 else ["oth", r.randint(0, 3)])
        return ["dir"] + ds
    if u < 0.7:
        return r.choice([["oth", r.randint(0, 3)], ["rgb", 4, 0, 0], ["op", 2], ["th", 8]])
    if bad and u < 0.73:
        return ["bad", r.randint(0, 5)]
    if d == 0:
        return ["line", [1, 2], [3, 4]]
    return ["list"] + [prim(r, d - 1, bad) for _ in range(r.randint(0, 4))]


def small():
    """all lists of up to three parts over a small set of primitives, nested once"""
    L, R, O, T = ["line", [0, 0], [4, 4]], ["dir", ["rgb", 4, 0, 2]], ["dir", ["op", 2]], ["dir", ["th", 6], ["rgb", 0, 1, 0]]
    inner = [["list"] + list(x) for n in (1, 2) for x in itertools.product([L, R, O, T], repeat=n)]
    for n in (1, 2, 3):
        for x in itertools.product([L, R, O, None], repeat=n):
            if x.count(None) > 1:
                continue
            for i in inner if None in x else [None]:
                yield ["list"] + [i if y is None else y for y in x] + [L]


def run():
    rep = vlib.Report("C26", "model_checking", "TLC trace validation")
    rounds = 1 if vlib.TIER == "quick" else 40
    for i in range(rounds):
        r = random.Random("C26/%d/%d" % (vlib.SEED, i))
        gs = (list(small()) if i == 0 else []) + [["list"] + [prim(r, 3, k % 2) for _ in range(r.randint(1, 6))] if r.random() < .9 else prim(r, 3, False) for k in range(1200)]
        rec = vlib.drive("gfx", [{"id": k + 1, "g": g, "args": 1 + k % 2} for k, g in enumerate(gs)])
        vlib.check_traces(rep, "Graphics", rec, lambda o, p: {"graphics": gs[o["id"] - 1], "series": o.get("series"), "error": o.get("err")}, "graphics")
        if rep.violations or time.time() - vlib.T0 > 1200:
            break
    return rep.finish()
