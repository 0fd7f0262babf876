#!/bin/bash
# seed.sh <id> : the planted change is in /repo's working tree; seeded/<id>/ holds demo.cpp and meta.json.
# Records the patch, confirms it (builds, passes the tests, the demonstration tells both trees apart) and runs the property's check.
set -u
id=$1; d=/verif/seeded/$id
cp --update=none /verif/tools/demo/demo.sh "$d/"; cp /verif/tools/demo/{demo,rig}.hpp /verif/harness/{mockvk.hpp,mockvk.cpp,explore.hpp,explore.cpp,sim.hpp,frames.hpp} "$d/"
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));d=json.load(open('/tmp/seed.json'));p=set(d['passed'])
w=b.get('stable_passing') or b.get('passed') or b
w=set(w if isinstance(w,list) else [x for v in w.values() if isinstance(v,list) for x in v])
print('tests: passed',len(p),'missing',sorted(w-p)[:3])"
(cd /repo && bash "$d/demo.sh" > /tmp/seed-demo.log 2>&1); echo "demo with the change: $? $(tail -1 /tmp/seed-demo.log | cut -c1-300)"
for p in $(python3 -c "import json;m=json.load(open('$d/meta.json'));print(m['property'],*m.get('also',[]))"); do
	(cd /verif && timeout 900 python3 run.py $p quick > /tmp/seed-check.log 2>&1); echo "check $p: $? $(grep -m1 VIOLATION /tmp/seed-check.log)"; grep -m1 -A1 '\[' /tmp/seed-check.log | cut -c1-250
done
git -C /repo checkout -- .
(cd /repo && bash "$d/demo.sh" > /tmp/seed-demo2.log 2>&1); echo "demo unchanged: $? $(tail -1 /tmp/seed-demo2.log | cut -c1-200)"
