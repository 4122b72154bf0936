"""C10: the expression a text denotes (spec/Parser.tla, spec/ParseTrace.tla)."""
import os, random, sys, time
import vlib
sys.path.insert(0, os.path.join(vlib.VERIF, "gen"))
import parsegen

KNOWN = {k["text"]: k["id"] for k in vlib.known() if k["property"] == "C10" and k.get("status") == "finding"}


def describe(o, p):
    return {"text": o["steps"][p - 1]["text"], "read as": vlib.show(o["steps"][p - 1]["out"][-1]) if o["steps"][p - 1]["out"][0] == "ok" else o["steps"][p - 1]["out"][0]} \
        if p else {"texts": [s["text"] for s in o.get("steps", [])][:4] or o.get("texts")}


def batch(rep, texts, foreign=()):
    objs = [{"id": i, "texts": texts[i * 20:i * 20 + 20]} for i in range((len(texts) + 19) // 20)]
    rec = vlib.drive("parse", objs)
    # a text that ends the process takes its group with it: look for it alone
    lost = [t for o in rec if "crash" in o or "hang" in o for t in objs[o["id"]]["texts"]]
    rec = [o for o in rec if "steps" in o]
    if lost:
        alone = vlib.drive("parse", [{"id": 10**6 + i, "texts": [t]} for i, t in enumerate(lost)])
        for o in alone:
            if "steps" not in o:
                o["texts"] = [lost[o["id"] - 10**6]]
        rec += alone
    for o in rec:
        for s in o.get("steps", []):
            if s["text"] in foreign:
                s["foreign"] = True
        if "steps" in o:
            rep.extra["texts_read"] = rep.extra.get("texts_read", 0) + len(o["steps"])
            rep.extra["texts_rejected"] = rep.extra.get("texts_rejected", 0) + sum(s["out"][0] == "err" for s in o["steps"])
    vlib.check_traces(rep, "ParseTrace", rec, describe, "reading")


def probes(rep):
    """the listed findings, each one text"""
    rec = vlib.drive("parse", [{"id": i, "texts": [t]} for i, t in enumerate(KNOWN)])
    sub = vlib.Report("C10", rep.level, rep.method)
    vlib.check_traces(sub, "ParseTrace", rec, describe, "reading")
    for _, d in sub.violations:
        rep.known_hits.append(KNOWN[d["text"] if "text" in d else d["texts"][0]])
    rep.add(sub.cov["states"], sub.cov["transitions"], len(rec))


def run():
    rep = vlib.Report("C10", "model_checking", "TLC trace validation")
    r = random.Random("C10/%d" % vlib.SEED)
    ex = [parsegen.render(r, t) for t in parsegen.exhaustive()]
    rep.extra["operator_combinations"] = len(ex)
    batch(rep, ex)
    fo = parsegen.foreign(r, 240)
    batch(rep, [x for t, u in zip(fo, parsegen.texts(random.Random("C10/f/%d" % vlib.SEED), len(fo))) for x in (t, u)], set(fo))
    rep.extra["foreign_inputs"] = len(fo)
    if KNOWN:
        probes(rep)
    lim = 36 if vlib.TIER == "quick" else 1500
    for i in range(3 if vlib.TIER == "quick" else 60):
        if rep.violations or time.time() - vlib.T0 > lim:
            break
        batch(rep, parsegen.texts(random.Random("C10/%d/%d" % (vlib.SEED, i)), 3000))
    return rep.finish()
