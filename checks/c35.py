"""C35: elementary functions keep the value (spec/Elem.tla, spec/ElemTrace.tla)."""
import os, random, sys, time
import vlib
sys.path.insert(0, os.path.join(vlib.VERIF, "gen"))
import elemgen


def describe(o, p):
    if not p:
        return {"texts": [s["text"] for s in o.get("steps", [])][:4] or o.get("texts")}
    s = o["steps"][p - 1]
    return {"text": s["text"], "result": vlib.show(s["res"])}


def batch(rep, texts, k=10):
    objs = [{"id": i, "texts": texts[i * k:i * k + k]} for i in range((len(texts) + k - 1) // k)]
    rec = vlib.drive("alg", objs)
    lost = [t for o in rec if "steps" not in o for t in objs[o["id"]]["texts"]]
    rec = [o for o in rec if "steps" in o]
    if lost:
        alone = vlib.drive("alg", [{"id": 10**6 + i, "texts": [t]} for i, t in enumerate(lost)])
        for o in alone:
            if "steps" not in o:
                o["texts"] = [lost[o["id"] - 10**6]]
        rec += alone
    for o in rec:
        rep.extra["calls_judged"] = rep.extra.get("calls_judged", 0) + len(o.get("steps", []))
    vlib.check_traces(rep, "ElemTrace", rec, describe, "elementary")


def run():
    rep = vlib.Report("C35", "model_checking", "TLC trace validation")
    quick = vlib.TIER == "quick"
    out, st, tr = vlib.tlc_ok("LawElem", cfg="LawElem" + ("" if quick else "T"), timeout=3600)
    rep.add(st, tr)
    rep.extra["laws_checked_on_spec"] = ["LawElem"]
    lim = 36 if quick else 1500
    for i in range(3 if quick else 100):
        if rep.violations or time.time() - vlib.T0 > lim:
            break
        batch(rep, elemgen.texts(random.Random("C35/%d/%d" % (vlib.SEED, i)), 4000))
    return rep.finish()
