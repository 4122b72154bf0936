"""Properties decided by recorded sessions: generated inputs run in the real
interpreter, every recorded result checked by TLC against the Session spec."""
import os, time
import vlib, gen, systgen

QUICK = {"C23": 128, "C28": 128}
OPTS = {"C23": {"per": 1, "cfg": "History"}, "C28": {"per": 1}}
# modules that check the declarative statement of the property on the
# specification itself (the thorough tier on a larger universe)
LAWS = {"C01": ["LawMatch"], "C02": ["LawMatch"], "C03": ["LawMatch"], "C04": ["LawOrder"], "C05": ["LawOrder"], "C06": ["LawOrder"],
        "C08": ["LawNum"], "C09": ["LawNum"], "C31": ["LawInt"], "C20": ["LawList"], "C21": ["LawList"], "C22": ["LawList"], "C30": ["LawLogic"]}


# a property is also decided by what the inputs of neighbouring ones show
RELATED = {"C01": ("C02", "C03"), "C02": ("C01", "C03"), "C03": ("C01", "C02", "C13", "C19"), "C04": ("C05",), "C05": ("C04", "C06"),
           "C06": ("C04", "C05"), "C07": ("C19", "C15", "C21"), "C08": ("C32",), "C09": ("C30",), "C13": ("C14", "C15"), "C14": ("C05", "C13"),
           "C15": ("C07", "C13", "C14", "C16"), "C16": ("C17", "C18", "C20"), "C17": ("C16", "C20", "C22"), "C18": ("C16", "C17", "C29"),
           "C19": ("C01", "C03"), "C20": ("C16", "C17"), "C21": ("C22", "C07"), "C22": ("C21",), "C29": ("C18",), "C30": ("C09", "C16"),
           "C31": ("C08",), "C32": ("C08", "C21")}


def batch(pid, seed, n):
    out = gen.scenarios(pid, seed, n)
    for q in RELATED.get(pid, ()):
        out += gen.scenarios(q, seed + "/" + pid, n // (2 * len(RELATED[pid])))
    return out + systgen.scenarios(pid, seed)


def run(pid):
    rep = vlib.Report(pid, "model_checking", "TLC trace validation",
                      ["inputs the specification does not cover are counted in inputs_outside_model and not judged"])
    n = QUICK.get(pid, 288)
    thorough = vlib.TIER == "thorough"
    for m in LAWS.get(pid, ()):
        out, st, tr = vlib.tlc_ok(m, cfg=m + ("T" if thorough else ""), timeout=3600)
        rep.add(st, tr)
        rep.extra.setdefault("laws_checked_on_spec", []).append(m)
    lawtime = min(40, time.time() - vlib.T0)
    vlib.check_scenarios(rep, systgen.scenarios(pid, str(vlib.SEED)) + gen.scenarios(pid, str(vlib.SEED), n), **OPTS.get(pid, {}))
    budget = float(os.environ.get("VERIF_BUDGET", "1500" if thorough else "42")) + lawtime
    k = 0
    last = 0
    while time.time() - vlib.T0 + (0 if thorough else last) < budget and not rep.violations and k < 60:
        k += 1
        t = time.time()
        vlib.check_scenarios(rep, batch(pid, "%d.%d" % (vlib.SEED, k), (4 if thorough else 1) * n), **OPTS.get(pid, {}))
        last = time.time() - t
    if rep.extra["inputs_outside_model"] * 2 > rep.extra["inputs_checked"] + rep.extra["inputs_outside_model"]:
        raise vlib.Infra("most inputs were outside of the model: %s" % rep.extra["outside_model_reasons"])
    return rep.finish()
