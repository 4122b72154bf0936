#!/usr/bin/env python3
# Writes /verif/MANIFEST.json (run by hand).
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
sys.path[:0]=[V+'/lib',V+'/gen']
import gen
SESS=set(gen.GEN)
NOTE={"C36":("TLA+ state machine of seeds, draws and variables (Rand.tla), laws checked with TLC; generated sessions run by the real code and validated against it by TLC (RandTrace.tla)","bounded: seeded generated sessions over twelve seeds; evenness by a fixed sample of 720 numbers"),
"C35":("TLA+ spec of elementary functions as homomorphisms onto prime fields (Elem.tla), laws checked with TLC; evaluations of the real code recorded and judged by TLC (ElemTrace.tla)","bounded: seeded generated expressions; different images under a homomorphism prove different values"),
"C34":("TLA+ spec of rational functions and their derivatives (Algebra.tla), laws checked with TLC; calls of the real code recorded and judged by TLC (AlgTrace.tla)","bounded: seeded generated polynomials, rational functions and equations; equality of the denoted rational functions decides each")}
OWN={f[:-3].upper() for f in os.listdir(V+'/checks') if f.startswith('c') and f.endswith('.py')}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in OWN or i in SESS:
        t="TLA+ spec checked with TLC; recorded sessions of the real interpreter validated against the spec by TLC" if i not in OWN else "TLA+ spec checked with TLC; behaviours generated from the spec replayed on the real code, observations compared"
        n="bounded: seeded generated sessions, every result compared with the executable TLA+ semantics; the spec covers the listed heads only" if i not in OWN else "bounded: all behaviours of the small model and seeded longer ones, replayed on the real code"
        checks.append({"property":i,"quick_cmd":"bin/check %s quick"%i,"thorough_cmd":"bin/check %s thorough"%i,"technique":NOTE.get(i,(t,n))[0],"level":"model_checking","level_note":NOTE.get(i,(t,n))[1],"evidence_file":"evidence/%s.json"%i})
    else: na.append({"property":i,"reason":"no check yet"})
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,"notes":"TLA+ with TLC. See DESIGN.md. No hooks in /repo; the driver is compiled through an overlay. /repo carries fix: commits only."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1);print(len(checks),[x['property'] for x in na])
