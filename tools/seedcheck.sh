#!/bin/bash
# usage: seedcheck.sh ID [PROP...]: run checks against a planted bug in a scratch clone of /repo
v=$(cd "$(dirname "$0")/.." && pwd)
s=$1; shift
d=$v/seeded/$s
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/sc_XXXXXX)
trap 'rm -rf -- "$t"' EXIT
git clone -q "${REPO:-/repo}" "$t/repo" && git -C "$t/repo" apply "$d/patch.diff" || exit 9
for q in $p; do
  o=$(VERIF_REPO=$t/repo VERIF_SEED=${SEED:-1} timeout 900 "$v/bin/check" $q quick 2>&1); r=$?
  echo "$s $q exit $r $(echo "$o" | grep -c ^VIOLATION) $(echo "$o" | grep -m1 -A0 ^VIOLATION)"
  [ $r = 1 ] || echo "$o" | tail -4
done
