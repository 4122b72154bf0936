"""C36: random numbers (spec/Rand.tla, spec/RandTrace.tla)."""
import os, random, sys, time
import vlib
sys.path.insert(0, os.path.join(vlib.VERIF, "gen"))
import randgen


def describe(o, p):
    if not p:
        return {"texts": [s["text"] for s in o.get("steps", [])][:6] or o.get("texts")}
    return {"texts": [s["text"] for s in o["steps"][:p]], "result": o["steps"][p - 1]["res"]}


def rows(rep):
    """the draws of every seed, one statement each, from a process of its own"""
    rec = vlib.drive("rand", [{"id": 0, "texts": [t for s in randgen.SEEDS for t in ["SeedRandom[%s]" % s] + ["RandomReal[]"] * randgen.N]}])
    if "steps" not in rec[0]:
        rep.violation("drawing random numbers: the implementation stops", {"seeds": randgen.SEEDS})
        return None
    res = [s["res"] for s in rec[0]["steps"]]
    k = randgen.N + 1
    return [res[i * k + 1:(i + 1) * k] for i in range(len(randgen.SEEDS))]


def batch(rep, r, n, rw):
    sess = [randgen.session(r, i) for i in range(n)]
    rec = vlib.drive("rand", [{"id": i, "texts": [t for _, t in s]} for i, s in enumerate(sess)])
    ok = []
    for o in rec:
        if "steps" in o:
            for s, (e, _) in zip(o["steps"], sess[o["id"]]):
                s["ast"] = e
            rep.extra["statements_judged"] = rep.extra.get("statements_judged", 0) + len(o["steps"])
            ok.append(o)
        else:
            o["texts"] = [t for _, t in sess[o["id"]]]
            rep.violation("random numbers: the implementation stops or does not end", {"texts": o["texts"]})
    if ok:
        ok[0]["rows"] = rw
        vlib.check_traces(rep, "RandTrace", ok, describe, "random numbers")


def run():
    rep = vlib.Report("C36", "model_checking", "TLC trace validation")
    quick = vlib.TIER == "quick"
    out, st, tr = vlib.tlc_ok("LawRand", cfg="LawRand" + ("" if quick else "T"), timeout=1800)
    rep.add(st, tr)
    rep.extra["laws_checked_on_spec"] = ["LawRand"]
    rw = rows(rep)
    lim = 30 if quick else 600
    for i in range(2 if quick else 60):
        if rw is None or rep.violations or time.time() - vlib.T0 > lim:
            break
        batch(rep, random.Random("C36/%d/%d" % (vlib.SEED, i)), 600, rw)
    return rep.finish()
