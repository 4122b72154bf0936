"""tools/addfix.py HASH PROP: list a fix commit in known_findings.json"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
repo = os.environ.get("VERIF_REPO", "/repo")
h, prop = sys.argv[1][:7], sys.argv[2]
s = subprocess.run(["git", "-C", repo, "log", "-1", "--format=%s", h], capture_output=True, text=True).stdout.strip()
k = json.load(open(p))
assert s.startswith("fix:")
k.append({"id": "fix-" + h, "property": prop, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, h, s[5:])})
json.dump(k, open(p, "w"), indent=1)
