"""C27: concurrent sessions, parallel tables and the definition store.
Sessions that run at the same time each have to be behaviours of the Session
specification; ParallelTable is Table there; concurrent histories of the
definition map have to be linearizable (spec/DefMap.tla)."""
import json, os, random, time
import vlib, gen

MIX = ("C01", "C05", "C08", "C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22", "C30")


def bodies(r):
    I = lambda: r.choice(["i", "i", "i+1", "2*i", "i-3", "i^2", "10-i"])
    x = lambda: r.choice([I(), str(r.randint(-3, 9)), "a", "b", "w[i]"])
    return r.choice([
        "h[%s]" % I(), "fi[Mod[i,9]]", "w[%s,%s]" % (x(), I()), "Map[h,{%s,%s}]" % (I(), I()), "o[b,%s,a,%s]" % (x(), x()), "{%s,%s}/.{k_,l_}->k*l" % (I(), I()),
        "Sort[{%s,%s,%s}]" % (x(), x(), x()), "StringJoin[\"a\",ToString[%s]]" % I(), "%s+%s*%s" % (x(), x(), I()), "If[EvenQ[i],%s,%s]" % (x(), x()), "MatchQ[{%s,%s},{k_,k_}]" % (x(), x()),
        "v[%s,v[%s,c]]" % (x(), x()), "li[{%s,%s}]" % (I(), x()), "Cases[{%s,%s,2,3},k_/;IntegerQ[k]]" % (x(), x()), "Apply[Plus,{%s,%s,1}]" % (x(), I()), "{i,{i},h[i]}", "Range[Mod[i,5]]", "Reverse[{%s,%s}]" % (x(), I()),
        "Union[{%s,%s,1}]" % (x(), x()), "(i+a)*(i-1)", "%s/(i^2+1)" % I(), "MemberQ[{1,2,%s},i]" % x(), "Fold[Plus,0,{%s,%s}]" % (I(), I()), "g[i]/.g[n_]->h[n]", "Nest[h,i,2]", "i", "a"])


def ptable(r):
    out = ["h[z_]:=z^2+1", "w[y_,z_]:={z,y}", "fi[k_]:=If[k<2,k,fi[k-1]+fi[k-2]]", "SetAttributes[o,Orderless]", "SetAttributes[v,Flat]", "SetAttributes[li,Listable]"]
    for _ in range(5):
        it = r.choice(["{i,%d}" % r.randint(1, 40), "{i,%d,%d}" % (r.randint(-5, 3), r.randint(4, 30)), "{i,1,%d,%d}" % (r.randint(5, 60), r.randint(1, 4)), "{i,{1,3,5,2}}", "{i,0}"])
        b = bodies(r)
        if r.random() < 0.2:
            b, it = r.choice(["i*j", "w[i,j]", "h[i+j]", "{i,j,a}"]), "{i,%d},{j,%d}" % (r.randint(1, 6), r.randint(1, 6))
        out.append("ParallelTable[%s,%s]" % (b, it))
    n = r.randint(2, 120)
    k = r.randint(0, 2)
    out += [["ParallelTable[q[i]=h[i],{i,%d}];" % n, "Length[DownValues[q]]", "Table[q[i],{i,%d}]" % n],
            ["ParallelTable[q[i,2]=i,{i,%d}];" % n, "q[k_,3]:=k", "Table[q[i,2],{i,%d}]" % n, "{q[1,3],q[2,2]}"],
            ["ParallelTable[%s,{i,%d}]===Table[%s,{i,%d}]" % (("h[i]", n) * 2)]][k]
    return out


def groups(seed, n, per):
    r = random.Random("C27/%s" % seed)
    pool = {p: gen.scenarios(p, "C27/%s/%s" % (p, seed), 3 * n) for p in MIX}
    gs = []
    for g in range(n):
        sess = []
        for s in range(per):
            scens = []
            for j in range(4):
                p = MIX[(g + s * 5 + j) % len(MIX)]
                scens.append(r.choice(pool[p]) if r.random() < 0.6 else ptable(r))
            # the same names in every session of the group
            sess.append([[vlib.suffix(x, j + 1) for x in sc] for j, sc in enumerate(scens)])
        gs.append(sess)
    return gs


def conc(rep, seed, n, per=6):
    gs = groups(seed, n, per)
    rec = vlib.drive("conc", [{"id": i, "sess": [[[x.lstrip(vlib.IND) for x in sc] for sc in q] for q in s]} for i, s in enumerate(gs)], timeout=800)
    segs = vlib.Segs()
    segs.indep = {(i * per + k, j, t) for i, s in enumerate(gs) for k, q in enumerate(s) for j, sc in enumerate(q) for t, x in enumerate(sc) if x.startswith(vlib.IND)}
    for o in rec:
        if "crash" in o or "hang" in o:
            rep.violation("concurrent sessions: the process %s" % ("died: " + o["crash"][:400] if "crash" in o else "did not end"), {"sessions": gs[o["id"]]})
            continue
        for k, st in enumerate(o["steps"]):
            segs[o["id"] * per + k] = [[(x["sc"], x["st"], x["in"], x["out"]) for x in st]]
    mism, stats = vlib.validate(segs)
    rep.add(stats["states"], stats["transitions"], len(segs))
    rep.extra["inputs_checked"] = rep.extra.get("inputs_checked", 0) + stats["steps"] - stats["oofsteps"] - stats["skipped"]
    rep.extra["inputs_outside_model"] = rep.extra.get("inputs_outside_model", 0) + stats["oofsteps"]
    for (sid, sc, st, exp) in mism[:8]:
        g, k = divmod(sid, per)
        got = [o for (c, t, i_, o) in segs[sid][0] if (c, t) == (sc, st)]
        src = gs[g][k][sc]
        rep.violation("session %d of %d that ran at the same time: input %d of %s evaluates to %s, the specification gives %s" % (k + 1, per, st + 1, json.dumps(src)[:400], vlib.show(got[0])[:300] if got else "?", vlib.showtla(exp)[:300]),
                      {"sessions": gs[g], "session": k, "scenario": sc, "step": st, "observed": vlib.show(got[0]) if got else None, "expected": vlib.showtla(exp)})
    rep.sample(json.dumps(gs[0][0][0])[:300])


def known_bodies(rep):
    """bodies that keep state of their own in the interpreter (known finding)"""
    for k in vlib.known():
        if k["property"] != "C27" or k.get("status") != "finding":
            continue
        rec = vlib.drive("conc", [{"id": i, "sess": [[k["scenario"]]]} for i in range(8)])
        bad = {}
        for o in rec:
            for x in o.get("steps", [[]])[0]:
                bad.setdefault(x["st"], set()).add(json.dumps(x["out"]))
        if any(len(v) > 1 for v in bad.values()) or any(json.dumps(k["expected"]) not in v for v in bad.values()):
            rep.known_hits.append(k["id"])


def linear(rep, seed, n):
    r = random.Random("C27lin/%s" % seed)
    hs = []
    for i in range(n):
        v = 0
        thr = []
        for k in range(r.randint(2, 4)):
            ops = []
            for _ in range(r.randint(2, 6)):
                v += 1
                u = r.random()
                ops.append({"k": "set" if u < 0.45 else "get" if u < 0.94 else "lock", "key": r.choice(["a", "a", "b", "c"]), "v": v})
            thr.append(ops)
        hs.append({"id": i + 1, "thr": thr})
    rec = vlib.drive("defs", hs)
    good = [o for o in rec if "thr" in o and "crash" not in o and "hang" not in o]
    for o in rec:
        if o not in good:
            rep.violation("concurrent use of the definition store: the process %s" % ("died: " + o["crash"][:300] if "crash" in o else "did not end"), hs[o["id"] - 1])
    tf = os.path.join(vlib.work(), "defmap.ndjson")
    open(tf, "w").write("".join(json.dumps(o) + "\n" for o in good))
    out, st, tr = vlib.tlc_ok("DefMap", env={"TRACES": tf})
    done = {int(l.split()[1]) for l in vlib.said(out) if l.startswith("DONE ")}
    for i, o in enumerate(good):
        if i + 1 not in done:
            rep.violation("no order of atomic operations explains this history of the definition store: %s" % json.dumps(o["thr"])[:600], o)
    rep.add(st, tr, len(good))


def run():
    rep = vlib.Report("C27", "model_checking", "TLC trace validation and linearizability")
    if vlib.TIER == "quick":
        conc(rep, vlib.SEED, 16)
        linear(rep, vlib.SEED, 1500)
    else:
        k = 0
        while time.time() - vlib.T0 < 1500 and not rep.violations and k < 40:
            conc(rep, "%d.%d" % (vlib.SEED, k), 48, per=8)
            linear(rep, "%d.%d" % (vlib.SEED, k), 4000)
            k += 1
    known_bodies(rep)
    return rep.finish()
