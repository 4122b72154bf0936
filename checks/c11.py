"""C11: the printed text of an expression denotes it (spec/PrintTrace.tla, spec/Parser.tla)."""
import os, random, sys, time
import vlib
sys.path.insert(0, os.path.join(vlib.VERIF, "gen"))
import printgen

KNOWN = {k["text"]: k["id"] for k in vlib.known() if k["property"] == "C11" and k.get("status") == "finding"}


def describe(o, p):
    if not p:
        return {"texts": [s["text"] for s in o.get("steps", [])][:4] or o.get("texts"), "pre": o.get("pre")}
    s = o["steps"][p - 1]
    return {"pre": o.get("pre"), "text": s["text"], "result": vlib.show(s["res"]),
            "round trips": ["%s: %s  reads back as %s" % (f["form"], f["shown"], vlib.show(f["val"])) for f in s["forms"]]}


def run_groups(rep, objs):
    rec = vlib.drive("print", objs)
    by = {o["id"]: o for o in objs}
    lost = [o["id"] for o in rec if "steps" not in o]
    rec = [o for o in rec if "steps" in o]
    if lost:
        # a text that ends the process takes its group with it: look for it alone
        one = [(10**6 + 100 * i + j, i, t) for i in lost for j, t in enumerate(by[i]["texts"])]
        rec += vlib.drive("print", [{"id": k, "pre": by[i].get("pre", []), "texts": [t]} for k, i, t in one])
        by.update({k: {"pre": by[i].get("pre", []), "texts": [t]} for k, i, t in one})
    for o in rec:
        o["pre"] = by[o["id"]].get("pre", [])
        o["named"] = len(o["pre"]) > 0
        if "steps" not in o:
            o["texts"] = by[o["id"]]["texts"]
        else:
            rep.extra["expressions_printed"] = rep.extra.get("expressions_printed", 0) + len(o["steps"])
    return rec


def batch(rep, texts, k=12):
    objs = [{"id": i, "texts": texts[i * k:i * k + k]} for i in range((len(texts) + k - 1) // k)]
    vlib.check_traces(rep, "PrintTrace", run_groups(rep, objs), describe, "printed text")


def run():
    rep = vlib.Report("C11", "model_checking", "TLC trace validation")
    seed = "C11/%d" % vlib.SEED
    out, st, tr = vlib.tlc_ok("LawPrint", cfg="LawPrint" + ("T" if vlib.TIER == "thorough" else ""), timeout=3600)
    rep.add(st, tr)
    rep.extra["laws_checked_on_spec"] = ["LawPrint"]
    batch(rep, printgen.pairs(random.Random(seed)))
    batch(rep, printgen.signed(random.Random(seed)))
    r = random.Random(seed + "/names")
    objs = [dict(printgen.named(r), id=i) for i in range(60 if vlib.TIER == "quick" else 600)]
    vlib.check_traces(rep, "PrintTrace", run_groups(rep, objs), describe, "printed name")
    lim = 36 if vlib.TIER == "quick" else 1500
    for i in range(4 if vlib.TIER == "quick" else 80):
        if rep.violations or time.time() - vlib.T0 > lim:
            break
        batch(rep, printgen.inputs(random.Random("%s/%d" % (seed, i)), 2000))
    return rep.finish()
