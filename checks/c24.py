"""C24: output streams and the log switch (spec/Streams.tla)."""
import random, time
import vlib

ALPHA = ["a", "b", "%", "%d", "\\", "\"", "\n", "é", "λ", " ", "\t", "x" * 40, "{}", "stdout"]


def history(r, k):
    log = k % 3 == 0
    steps = []
    for i in range(r.randint(3, 14)):
        s = {"es": r.randint(0, 1), "name": "", "idx": "", "text": "", "n": 0, "bad": 0}
        u = r.random()
        mark = "<%d.%d>" % (k, i)
        if log:
            if u < 0.16:
                s.update(k="level", name=r.choice(["Debug", "Info", "Notice"]))
            elif u < 0.26:
                s.update(k="off")
            elif u < 0.4:
                s.update(k="on", n=r.randint(0, 5))
            elif u < 0.5:
                s.update(k="setstate", n=r.randint(0, 1))
            else:
                s.update(k=r.choice(["debugf", "infof", "errorf"]), text=mark)
        elif u < 0.75:
            s.update(k=r.choice(["ws", "ws", "api"]), name=r.choice(["stdout", "stdout", "stderr", "stderr", "stdin", "", "Stdout", "stdout "]),
                     idx=r.choice(["", "", "", "1", "1", "2", "2", "0", "3", "12", "4294967297", "4294967298"]))
            t = "".join(r.choice(ALPHA) for _ in range(r.randint(0, 8)))
            v = r.random()
            if v < 0.08:
                t = ""
            elif v < 0.14:
                t = mark + "y" * 70000 + t
            else:
                t = mark + t
            s["text"] = t
            if s["k"] == "ws" and r.random() < 0.12:
                s["idx"] = r.choice(["-1", "-2", "18446744073709551617", "18446744073709551618", "-18446744073709551615"])
                s["bad"] = 1
                s["text"] = mark
        elif u < 0.84:
            s.update(k="print", text=mark)
        elif u < 0.92:
            s.update(k="bad", n=r.randint(0, 5), text=mark)
        else:
            s.update(k="streams")
        steps.append(s)
    return {"id": k, "steps": steps}


def run():
    rep = vlib.Report("C24", "model_checking", "TLC trace validation")
    n = 600
    rounds = 1 if vlib.TIER == "quick" else 30
    for i in range(rounds):
        r = random.Random("C24/%d/%d" % (vlib.SEED, i))
        hs = [history(r, k + 1) for k in range(n)]
        bads = {(h["id"], j): s["bad"] for h in hs for j, s in enumerate(h["steps"])}
        rec = vlib.drive("streams", hs)
        for h in rec:
            for j, s in enumerate(h.get("steps", [])):
                s["bad"] = bads[h["id"], j]
        vlib.check_traces(rep, "Streams", rec, lambda o, p: {"history": [{x: y for x, y in s.items() if x in ("k", "es", "name", "idx", "text", "n")} for s in o["steps"][:p]][-6:], "observed": o["steps"][(p or 1) - 1]}, "output streams")
        if rep.violations or time.time() - vlib.T0 > 1200:
            break
    return rep.finish()
