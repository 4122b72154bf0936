#!/usr/bin/env python3
"""Build /verif/seeded/<id> from a definition and confirm it in a scratch copy.

usage: mkseed.py DEF.py [ID...]   DEF.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], inp=..., needs, what)]
"""
import os, sys, subprocess, json, shutil, tempfile
R = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly")
MAIN = '''package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func main() {
	es := expreduce.NewEvalState()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		res := expreduce.EvalInterp(sc.Text(), es)
		fmt.Println(res.StringForm(expreduceapi.ToStringParams{
			Form:        "FullForm",
			Context:     atoms.NewString("Global`"),
			ContextPath: atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List"), atoms.NewString("System`")}),
			Esi:         es,
		}))
	}
}
'''
DEMO = '''#!/bin/bash
# Runs the statements of in.m with the code in the current directory and
# compares what comes out with expected.txt.
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
t=$(mktemp -d)
trap 'rm -r -- "$t"' EXIT
stub=
[ -e "$r/expreduce/rubi_snapshot/rubi_resources.go" ] || stub=", \\"$r/expreduce/rubi_snapshot/rubi_resources.go\\": \\"$d/rubi_stub.go.txt\\""
echo "{\\"Replace\\": {\\"$r/zz_demo/main.go\\": \\"$d/main.go.txt\\"$stub}}" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 3
(cd "$t" && timeout 60 ./demo < "$d/in.m") > "$t/out.txt" 2> "$t/err.txt"
echo "exit $?" >> "$t/out.txt"
diff "$d/expected.txt" "$t/out.txt"
'''
STUB = open(V + "/harness/stub/rubi_resources.go").read()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = set(sys.argv[2:])
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    wt = w + "/repo"
    subprocess.run(["git", "clone", "-q", R, wt], check=True)
    bad = []
    for s in g["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = V + "/seeded/" + s["id"]
        if os.path.exists(d) and not only:
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            for f, old, new in s["edits"]:
                t = open(wt + "/" + f).read()
                if t.count(old) != 1:
                    raise Exception("%s: %d occurrences in %s of %r" % (s["id"], t.count(old), f, old[:60]))
            open(d + "/main.go.txt", "w").write(s.get("main", MAIN))
            open(d + "/rubi_stub.go.txt", "w").write(STUB)
            open(d + "/in.m", "w").write(s.get("inp", "").strip("\n") + "\n")
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/expected.txt", "w").write("")
            r = sh(["bash", d + "/demo.sh"], wt, timeout=300)
            exp = "".join(l[2:] + "\n" for l in r.stdout.split("\n") if l.startswith("> "))
            if not exp.strip():
                raise Exception(s["id"] + ": no output\n" + r.stdout + r.stderr)
            open(d + "/expected.txt", "w").write(exp)
            r = sh(["bash", d + "/demo.sh"], wt, timeout=300)
            if r.returncode:
                raise Exception(s["id"] + ": demo not reproducible " + r.stdout)
            for f, old, new in s["edits"]:
                t = open(wt + "/" + f).read()
                open(wt + "/" + f, "w").write(t.replace(old, new))
            p = sh(["git", "diff"], wt).stdout
            open(d + "/patch.diff", "w").write(p)
            r = sh("go vet ./expreduce/matcher >/dev/null 2>&1; go build $PKGS && go test -vet=off -count=1 ./expreduce/matcher", wt) if 0 else \
                subprocess.run(". /opt/vp/env.sh; go build $PKGS && go test -vet=off -count=1 ./expreduce/matcher/...", shell=True, cwd=wt, capture_output=True, text=True, executable="/bin/bash")
            if r.returncode:
                raise Exception(s["id"] + ": build or tests fail " + r.stdout[-1500:] + r.stderr[-1500:])
            r = sh(["bash", d + "/demo.sh"], wt, timeout=300)
            if r.returncode == 0:
                raise Exception(s["id"] + ": demo passes with the patch")
            print("==", s["id"], s["prop"], "rc", r.returncode)
            print("expected:\n" + exp + "diff:\n" + r.stdout[:1500] + r.stderr[-300:])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        except Exception as e:
            print("XX", e)
            bad.append(s["id"])
            shutil.rmtree(d, ignore_errors=True)
        finally:
            sh(["git", "checkout", "-q", "--", "."], wt)
    shutil.rmtree(w)
    print("bad:", bad)


main()
