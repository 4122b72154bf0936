"""C25: time counters (spec/Counters.tla)."""
import random, time
import vlib


def history(r, k):
    keys = ["k%d" % i for i in range(r.choice([2, 3, 5, 40]))] + ["f[x, y]", "a, 1, b", "", "{1, 2}"]
    steps = []
    big = len(keys) > 20
    for i in range(r.randint(3, 60 if big else 16) + (40 if big else 0)):
        u = r.random()
        s = {"k": "add", "g": r.randint(0, 3), "h": 0, "c": 1, "key": "", "v": 0}
        if u < 0.62 or (big and u < 0.9):
            if big:
                s["g"] = r.choice([0, 0, 0, 1])
            s.update(c=r.choice([1, 1, 3, 4]) if big else r.randint(1, 4), key=r.choice(keys), v=r.choice([0, 1, 2, 3, 5, 8, 400, 4000000]) if r.random() < .5 else 4)
        elif u < 0.82:
            s.update(k="merge", h=r.randint(0, 3))
        else:
            s.update(k="show")
        steps.append(s)
    for g in range(4):
        steps.append({"k": "show", "g": g, "h": 0, "c": 1, "key": "", "v": 0})
    return {"id": k, "steps": steps}


def run():
    rep = vlib.Report("C25", "model_checking", "TLC trace validation")
    rounds = 1 if vlib.TIER == "quick" else 40
    for i in range(rounds):
        r = random.Random("C25/%d/%d" % (vlib.SEED, i))
        rec = vlib.drive("tc", [history(r, k + 1) for k in range(800)])
        vlib.check_traces(rep, "Counters", rec, lambda o, p: {"history": [[s["k"], s["g"], s["h"], s["c"], s["key"], s["v"]] for s in o["steps"][:p]], "observed": o["steps"][(p or 1) - 1]["out"]}, "time counters")
        if rep.violations or time.time() - vlib.T0 > 1200:
            break
    return rep.finish()
