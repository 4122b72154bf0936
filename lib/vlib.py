"""Shared machinery of the checks: building the driver from /repo's working
tree, recording sessions of the real interpreter, validating them with TLC
against the specification, reporting."""
import atexit, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = 8
T0 = time.time()


class Infra(Exception):
    """the check itself could not run"""


_work = None


def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="vx_")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def goenv():
    env = dict(os.environ)
    env.update({"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly"})
    env.setdefault("HOME", "/root")
    return env


def overlay():
    rep = {}
    if not os.path.exists(REPO + "/expreduce/rubi_snapshot/rubi_resources.go"):
        rep[REPO + "/expreduce/rubi_snapshot/rubi_resources.go"] = VERIF + "/harness/stub/rubi_resources.go"
    d = VERIF + "/harness/driver"
    for f in sorted(os.listdir(d)):
        rep[REPO + "/zz_verif/driver/" + f] = d + "/" + f
    p = os.path.join(work(), "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


_drv = {}


def driver(race=False):
    if race in _drv:
        return _drv[race]
    out = os.path.join(work(), "driver" + ("_race" if race else ""))
    cmd = ["go", "build", "-overlay", overlay(), "-o", out] + (["-race"] if race else []) + ["./zz_verif/driver"]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        raise Infra("cannot build the driver:\n" + r.stdout + r.stderr)
    _drv[race] = out
    return out


def tlc(module, env=None, cfg=None, workers=NPROC, timeout=600, extra=(), xss="900m", heap="12g"):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=work())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss" + xss, "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dsun.jnu.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, encoding="utf-8", errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    states = int(st[-1][1]) if st else 0
    trans = int(st[-1][0]) if st else 0
    return r.returncode, r.stdout, states, trans


def tlc_ok(module, **kw):
    rc, out, st, tr = tlc(module, **kw)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise Infra("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-3000:]))
    return out, st, tr


def said(out):
    """the strings printed with PrintT"""
    r = []
    for l in out.splitlines():
        if len(l) >= 2 and l[0] == '"' and l[-1] == '"':
            r.append(l[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    return r


# ------------------------------------------------------------------ sessions
def suffix(src, k):
    """give the lower-case identifiers of a source text a scenario suffix"""
    out = []
    for i, part in enumerate(re.split(r'("(?:[^"\\]|\\.)*")', src)):
        if i % 2 == 1:
            out.append(part)
        else:
            out.append(re.sub(r"(?<![A-Za-z0-9$`])([a-z][a-z]*)(?![A-Za-z0-9$`])", lambda m: m.group(1) + str(k), part))
    return "".join(out)


def _run_one(drv, sess):
    """one driver process over a list of sessions; returns records"""
    pend = [dict(s, **{"from": 0}) for s in sess]
    recs = []
    while pend:
        inp = "\n".join(json.dumps(s) for s in pend) + "\n"
        scratch = tempfile.mkdtemp(prefix="run_", dir=work())
        try:
            p = subprocess.run([drv, "sess"], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=900, cwd=scratch, env=dict(os.environ, GOMEMLIMIT="2GiB", GOMAXPROCS="2"))
            out = p.stdout
        except subprocess.TimeoutExpired:
            raise Infra("driver timed out")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        last = None
        for l in out.decode("utf-8", "replace").splitlines():
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if r.get("begin") == 1:
                last = r
                continue
            recs.append(r)
            if r.get("begin") == 2:
                continue
            last = r if r.get("out") == ["hang"] else None
        if last is None:
            if p.returncode != 0:
                raise Infra("driver failed without an input, rc %d" % p.returncode)
            break
        if last.get("out") is None:
            recs.append({"id": last["id"], "sc": last["sc"], "st": last["st"], "in": last.get("in"), "out": ["crash"]})
        recs.append({"id": last["id"], "sc": last["sc"] + 1, "st": -1, "begin": 2})
        # the rest of that session goes on in a fresh interpreter
        idx = [i for i, s in enumerate(pend) if s["id"] == last["id"]][0]
        cur = dict(pend[idx])
        cur["from"] = last["sc"] + 1
        pend = ([cur] if cur["from"] < len(cur["scen"]) else []) + pend[idx + 1:]
    return recs


class Segs(dict):
    """recorded sessions; indep: the steps that do not depend on their scenario"""
    indep = frozenset()


IND = "\x1d"       # a source text that starts with it is independent of its neighbours


def record(sessions):
    """sessions: [[scenario: [src, ...], ...], ...] -> per session list of
    segments, a segment being a list of (scenario, step, in, out)"""
    drv = driver()
    objs = [{"id": i, "scen": [[x.lstrip(IND) for x in sc] for sc in s]} for i, s in enumerate(sessions)]
    chunks = [objs[i::NPROC] for i in range(NPROC)]
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(lambda c: _run_one(drv, c) if c else [], chunks))
    segs = Segs({i: [[]] for i in range(len(sessions))})
    segs.indep = {(i, j, k) for i, ss in enumerate(sessions) for j, sc in enumerate(ss) for k, x in enumerate(sc) if x.startswith(IND)}
    for r in [x for y in rs for x in y]:
        if r.get("begin") == 2:
            segs[r["id"]].append([])
            continue
        i = r.get("in")
        o = r.get("out")
        if i is None:
            i = ["nil"]
        if o == ["crash"] or o == ["hang"] or o == ["panic"]:
            i = i if i != ["nil"] else ["nil"]
        segs[r["id"]][-1].append((r["sc"], r["st"], i, o))
    return segs


def validate(segs, timeout=700, module="Session", cfg=None):
    """-> (mismatches [(sess, sc, st, expected)], stats)"""
    tf = os.path.join(work(), "traces_%d.ndjson" % random.randrange(10**9))
    index = []
    noin = []
    with open(tf, "w") as f:
        for sid in sorted(segs):
            for seg in segs[sid]:
                steps = []
                keys = []
                for (sc, st, i, o) in seg:
                    if i == ["nil"]:
                        noin.append((sid, sc, st))      # died while reading or evaluating
                        continue
                    steps.append({"n": sc * 1000 + (st if (sid, sc, st) in getattr(segs, "indep", ()) else 999), "in": i, "out": o})
                    keys.append((sid, sc, st))
                if steps:
                    f.write(json.dumps({"id": len(index), "steps": steps}) + "\n")
                    index.append(keys)
    stats = {"steps": sum(len(k) for k in index), "oof": {}, "big": 0, "states": 0, "transitions": 0, "oofsteps": 0, "skipped": 0}
    mism = []
    if index:
        ok = False
        for attempt in range(8):
            rc, out, st, tr = tlc(module, env={"TRACES": tf}, timeout=timeout, cfg=cfg)
            if rc == 0 and "Model checking completed. No error has been found." in out:
                ok = True
                break
            # an input the specification cannot evaluate: leave its scenario out
            m = re.findall(r"/\\ pos = (\d+)\n(?:.*\n)*?/\\ sess = (\d+)|/\\ sess = (\d+)\n(?:.*\n)*?/\\ pos = (\d+)", out)
            if not m:
                break
            ps, ss = (m[-1][0], m[-1][1]) if m[-1][0] else (m[-1][3], m[-1][2])
            key = index[int(ss) - 1][int(ps) - 1]
            stats.setdefault("speceval", []).append(key)
            if os.environ.get("VERIF_DEBUG"):
                print("SPEC ERROR at", key, [l for l in out.splitlines() if l.startswith((":", "but", "produced", "Attempted", "In ", "java", "The ")) or "rror" in l][:14], out[out.find("Error"):][900:1700], file=sys.stderr)
            lines = open(tf).read().splitlines()
            o = json.loads(lines[int(ss) - 1])
            n = o["steps"][int(ps) - 1]["n"]
            for x in o["steps"]:
                if x["n"] == n:
                    x["in"] = ["e", ["s", "$Version"]]
            lines[int(ss) - 1] = json.dumps(o)
            open(tf, "w").write("\n".join(lines) + "\n")
        if not ok:
            raise Infra("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-3000:]))
        stats["states"], stats["transitions"] = st, tr
        ns = [[x["n"] for x in json.loads(l)["steps"]] for l in open(tf)]
        done = set()
        for l in said(out):
            k, _, rest = l.partition(" ")
            if k not in ("OOF", "BIG", "MISMATCH", "DONE"):
                continue
            tid, p, why = rest.split(" ", 2) if rest.count(" ") >= 2 else (rest.split(" ") + [""])[:3]
            tid, p = int(tid), int(p)
            if k == "DONE":
                done.add(tid)
                continue
            key = index[tid][p - 1]
            stats["skipped"] += ns[tid][p:].count(ns[tid][p - 1])
            if k == "OOF":
                stats["oof"][why] = stats["oof"].get(why, 0) + 1
                stats["oofsteps"] += 1
            elif k == "BIG":
                stats["big"] += 1
            else:
                mism.append(key + (why,))
        if len(done) != len(index):
            raise Infra("TLC did not finish all sessions (%d of %d)" % (len(done), len(index)))
    os.unlink(tf)
    for k in noin:
        mism.append(k + ("<the process died>",))
    return sorted(mism), stats


def show(t):
    """readable form of an encoded term"""
    if not isinstance(t, list) or not t:
        return str(t)
    g = t[0]
    if g == "s":
        return t[1].replace("Global`", "")
    if g == "i":
        return str(t[1])
    if g == "z":
        return ("-" if t[1] < 0 else "") + str(sum(d * 10000**i for i, d in enumerate(t[2])))
    if g == "q":
        return "(%s/%s)" % (show(t[1]), show(t[2]))
    if g == "f":
        return "(%s/%s.)" % (show(t[1]), show(t[2]))
    if g == "t":
        return json.dumps(t[1])
    if g == "c":
        return "Complex[%s,%s]" % (show(t[1]), show(t[2]))
    if g == "e":
        return show(t[1]) + "[" + ", ".join(show(x) for x in t[2:]) + "]"
    return str(t)


_tok = re.compile(r'<<|>>|,|"(?:[^"\\]|\\.)*"|-?\d+|\s+')


def tlaval(s):
    """parse a printed TLA+ tuple term"""
    pos = 0
    toks = [t for t in _tok.findall(s) if t.strip() and t != ","]
    st = [[]]
    for t in toks:
        if t == "<<":
            st.append([])
        elif t == ">>":
            x = st.pop()
            st[-1].append(x)
        elif t[0] == '"':
            st[-1].append(t[1:-1])
        else:
            st[-1].append(int(t))
    return st[0][0] if st[0] else s


def showtla(s):
    try:
        return show(tlaval(s))
    except Exception:
        return s


# ------------------------------------------------------------------ reporting
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


class Report:
    def __init__(self, prop, level, method, assumptions=()):
        self.prop, self.level, self.method = prop, level, method
        self.violations = []
        self.known_hits = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = list(assumptions)

    def add(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def violation(self, what, data):
        self.violations.append((what, data))

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for k in [k for k in known() if k["property"] == self.prop and k.get("status") == "finding"]:
            if k["id"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        lines = []
        for i, (what, data) in enumerate(self.violations[:int(os.environ.get("VERIF_MAXV", "10"))]):
            p = os.path.join(ev, "replay_%s_%d.json" % (self.prop, i))
            json.dump({"property": self.prop, "what": what, "data": data, "seed": SEED, "tier": TIER}, open(p, "w"), indent=1)
            lines.append((what, p))
        cov = dict(self.cov)
        cov.update(self.extra)
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        e = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
             "wall_s": round(time.time() - T0, 2), "assumptions": self.assumptions,
             "violations": [{"what": w, "replay": p} for w, p in lines]}
        json.dump(e, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for what, p in lines:
            print(what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %s, %d violations, %.1f s" % (self.prop, json.dumps({k: v for k, v in cov.items() if k != "samples"})[:600], len(self.violations), time.time() - T0))
        return 1 if self.violations else 0


def sessions_of(scens, per=12, seed=0):
    """scenarios -> sessions with scenario-unique symbols"""
    ss = []
    for i in range(0, len(scens), per):
        ss.append([[suffix(x, j + 1) for x in sc] for j, sc in enumerate(scens[i:i + per])])
    return ss


def check_scenarios(rep, scens, per=12, module="Session", maxconf=12, cfg=None):
    """record and validate scenarios, confirm the mismatches, fill the report"""
    sess = sessions_of(scens, per)
    segs = record(sess)
    mism, stats = validate(segs, module=module, cfg=cfg)
    rep.add(stats["states"], stats["transitions"], len(scens))
    rep.extra["inputs_checked"] = rep.extra.get("inputs_checked", 0) + stats["steps"] - stats["oofsteps"] - stats["big"] - stats["skipped"]
    rep.extra["inputs_outside_model"] = rep.extra.get("inputs_outside_model", 0) + stats["oofsteps"]
    rep.extra["inputs_skipped_after_those"] = rep.extra.get("inputs_skipped_after_those", 0) + stats["skipped"]
    o = rep.extra.setdefault("outside_model_reasons", {})
    for k, v in stats["oof"].items():
        o[k] = o.get(k, 0) + v
    for sc in scens[:3]:
        rep.sample(" ;; ".join(sc)[:300])
    seen = set()
    fresh = []
    kf = {json.dumps(k["scenario"]): k for k in known() if k["property"] == rep.prop and k.get("status") == "finding" and "scenario" in k}
    for (sid, sc, st, exp) in mism:
        src = scens[sid * per + sc]
        key = json.dumps(src)
        if key in kf:
            rep.known_hits.append(kf[key]["id"])
            continue
        if key in seen:
            continue
        seen.add(key)
        fresh.append((sid, sc, st, exp, src))
    if not fresh:
        return stats
    # confirm in isolation; if it needs its history, in its session
    cand = fresh[:maxconf]
    iso = [[sess[sid][sc]] for (sid, sc, st, exp, src) in cand] + [sess[sid] for sid in sorted({c[0] for c in cand})]
    segs2 = record(iso)
    m2, _ = validate(segs2, module=module, cfg=cfg)
    sids = sorted({c[0] for c in cand})
    for i, (sid, sc, st, exp, src) in enumerate(cand):
        hit = [m for m in m2 if m[0] == i]
        hist = [m for m in m2 if m[0] == len(cand) + sids.index(sid) and m[1] == sc]
        if not hit and not hist:
            rep.extra["unconfirmed"] = rep.extra.get("unconfirmed", 0) + 1
            continue
        m = (hit or hist)[0]
        seg = segs2[m[0]]
        got = [o for s in seg for (c, t, i_, o) in s if (c, t) == (m[1], m[2])]
        rep.violation("input %d of %s evaluates to %s, the specification gives %s" %
                      (m[2] + 1, json.dumps(src)[:400], show(got[0])[:300] if got else "?", showtla(m[3])[:300]),
                      {"inputs": sess[sid][sc], "scenario": src, "step": m[2], "observed": show(got[0]) if got else None,
                       "expected": showtla(m[3]), "needs_history": not hit, "session": None if hit else sess[sid]})
    return stats


# ------------------------------------------------- other recorded behaviours
def drive(mode, objs, timeout=600, race=False, env=None):
    """run the driver in a mode over JSON lines, in parallel; -> JSON lines"""
    drv = driver(race)
    chunks = [c for c in (objs[i::NPROC] for i in range(NPROC)) if c]

    def one(c):
        scratch = tempfile.mkdtemp(prefix="run_", dir=work())
        try:
            p = subprocess.run([drv, mode], input=("\n".join(json.dumps(o) for o in c) + "\n").encode(), capture_output=True,
                               timeout=timeout, cwd=scratch, env=dict(os.environ, GOMEMLIMIT="2GiB", **(env or {})))
        except subprocess.TimeoutExpired:
            return [{"id": o["id"], "hang": 1} for o in c]
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        out = []
        for l in p.stdout.decode("utf-8", "replace").splitlines():
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
        have = {o["id"] for o in out}
        if p.returncode != 0:
            lost = [o for o in c if o["id"] not in have]
            if not lost:
                raise Infra("driver %s failed: %s" % (mode, p.stderr[-500:].decode("utf-8", "replace")))
            out.append({"id": lost[0]["id"], "crash": p.stderr[-1500:].decode("utf-8", "replace")})
            if len(lost) > 1:
                out += one(lost[1:])
        return out
    with ThreadPoolExecutor(NPROC) as ex:
        return sorted((x for y in ex.map(one, chunks) for x in y), key=lambda o: o["id"])


def check_traces(rep, module, objs, describe, what, cfg=None, timeout=700):
    """objs: recorded behaviours {"id", ...}; TLC decides which are behaviours
    of the module (it prints MISMATCH <trace> <step>)"""
    good = [o for o in objs if "crash" not in o and "hang" not in o]
    for o in objs:
        if "crash" in o or "hang" in o:
            rep.violation("%s: the implementation %s" % (what, "crashed: " + o["crash"][:300] if "crash" in o else "does not end"), describe(o, None))
    if good:
        tf = os.path.join(work(), module + "_%d.ndjson" % random.randrange(10**9))
        open(tf, "w").write("".join(json.dumps(o) + "\n" for o in good))
        out, st, tr = tlc_ok(module, env={"TRACES": tf}, cfg=cfg, timeout=timeout)
        os.unlink(tf)
        done = set()
        for l in said(out):
            w = l.split(" ")
            if w[0] == "DONE":
                done.add(int(w[1]))
            elif w[0] == "OOF":
                rep.extra["outside_model"] = rep.extra.get("outside_model", 0) + 1
            elif w[0] == "MISMATCH":
                o = good[int(w[1]) - 1]
                d = describe(o, int(w[2]))
                rep.violation("%s: step %s of %s is not a step of the specification%s" % (what, w[2], json.dumps(d)[:500], (" (expected %s)" % " ".join(w[3:])[:300]) if len(w) > 3 else ""), d)
        if len(done) != len(good):
            raise Infra("TLC did not finish all traces (%d of %d)" % (len(done), len(good)))
        rep.add(st, tr, len(good))
        for o in good[:3]:
            rep.sample(json.dumps(describe(o, None))[:300])
