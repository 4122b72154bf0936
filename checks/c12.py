"""C12: name resolution. Histories of context changes and uses of names are
run in the real interpreter and have to be behaviours of spec/Contexts.tla."""
import os, random, time
import vlib


def history(r, k):
    C = lambda c: c[:-1] + "%d`" % k if not c.startswith("`") else c
    names = ["x%d" % k, "y%d" % k, "z%d" % k]
    ctxs = [C("A`"), C("B`"), C("P`")]
    allc = ctxs + [ctxs[2] + "Private`", "Global`", ctxs[0] + "Private`"]
    steps = []
    pkg = inner = False

    def tok():
        u = r.random()
        if u < 0.72:
            return r.choice(names)
        if u < 0.8:
            return r.choice(["Length", "Plus", "Map"])
        return r.choice(allc) + r.choice(names)
    n = r.randint(4, 18)
    for _ in range(n):
        u = r.random()
        if u < 0.36:
            t = [tok() for _ in range(r.randint(1, 3))]
            steps.append({"k": "use", "src": "{%s}" % ",".join(t), "toks": t})
        elif u < 0.5:
            t = [r.choice(names) if r.random() < 0.75 else r.choice(allc) + r.choice(names)]
            v = str(r.randint(1, 99))
            steps.append({"k": "set", "src": "%s=%s" % (t[0], v), "toks": t, "arg": v})
        elif u < 0.6:
            a = r.choice(allc)
            steps.append({"k": "names", "src": 'Names["%s*"]' % a, "arg": a, "toks": []})
            if a == "Global`":
                steps[-1] = {"k": "use", "src": "{%s}" % names[0], "toks": [names[0]]}
        elif u < 0.8:
            if inner:
                steps.append({"k": "end", "src": "End[]"})
                inner = False
            else:
                a = r.choice(["`Private`"] + ctxs + ["Global`"])
                steps.append({"k": "begin", "src": 'Begin["%s"]' % a, "arg": a})
                inner = True
        elif u < 0.94:
            if inner:
                steps.append({"k": "end", "src": "End[]"})
                inner = False
            elif pkg:
                steps.append({"k": "epkg", "src": "EndPackage[]"})
                pkg = False
            else:
                a = r.choice(ctxs)
                steps.append({"k": "bpkg", "src": 'BeginPackage["%s"]' % a, "arg": a})
                pkg = True
        elif not inner and not pkg:
            if r.random() < 0.5:
                a = r.choice(ctxs + ["Global`"])
                steps.append({"k": "setctx", "src": '$Context="%s"' % a, "arg": a})
            else:
                p = r.sample(ctxs + ["Global`"], r.randint(0, 3))
                p.insert(r.randint(0, len(p)), "System`")
                steps.append({"k": "setpath", "src": "$ContextPath={%s}" % ",".join('"%s"' % q for q in p), "p": p})
    while inner or pkg:
        steps.append({"k": "end", "src": "End[]"} if inner else {"k": "epkg", "src": "EndPackage[]"})
        if inner:
            inner = False
        else:
            pkg = False
        steps.append({"k": "use", "src": "{%s}" % ",".join(names), "toks": names})
    for s in steps:
        for f, d in (("toks", []), ("arg", ""), ("p", [])):
            s.setdefault(f, d)
    return {"id": k, "steps": steps}


def run():
    rep = vlib.Report("C12", "model_checking", "TLC trace validation")
    n = 500
    rounds = 1 if vlib.TIER == "quick" else 40
    for i in range(rounds):
        r = random.Random("C12/%d/%d" % (vlib.SEED, i))
        rec = vlib.drive("ctx", [history(r, k + 1) for k in range(n)])
        vlib.check_traces(rep, "Contexts", rec, lambda o, p: {"inputs": [s["src"] for s in o["steps"]][:p], "observed": o["steps"][(p or 1) - 1]} if "steps" in o else o, "name resolution")
        if rep.violations or time.time() - vlib.T0 > 1500:
            break
    return rep.finish()
