#!/bin/bash
# seed.sh ID [check...]: verify a planted bug and run checks against it.
# The patch is applied to /repo and undone again.
id=$1; shift
d=/verif/seeded/$id
. /opt/vp/env.sh
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash "$d/demo.sh" >/tmp/seed.demo0 2>&1 && echo "demo clean: ok" || { echo "demo FAILS on the clean tree"; tail -5 /tmp/seed.demo0; }
git apply "$d/patch.diff" || exit 1
bash /opt/vp/build.sh || { echo "does not build"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
l=b.get('stable') or b.get('passed') or b
l=l if isinstance(l,list) else list(l)
miss=[t for t in l if t not in d['passed']]
print('tests:', 'ok' if not miss else ('BROKEN', miss))
P
bash "$d/demo.sh" >/tmp/seed.demo1 2>&1 && echo "demo patched: DOES NOT FAIL" || { echo "demo patched: fails as it should"; tail -3 /tmp/seed.demo1; }
[ -n "$NOCHECK" ] && exit
[ $# -gt 0 ] || set -- "$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")"
for c in "$@"; do (cd /verif; SIM_SECONDS=${SIM_SECONDS:-40} SIM_MINIMISE=${SIM_MINIMISE:-10} ./check.sh $c 2>&1 | grep -v KNOWN | cut -c1-300 | tail -5); done
