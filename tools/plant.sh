#!/bin/bash
# plant.sh <id>: with /tmp/bug (a copy of /repo holding the edit), writes seeded/<id>/patch.diff and confirms
# demo (0 unchanged, nonzero changed), the stable tests, and whether the property's check reports it.
id=$1; D=/verif/seeded/$id; mkdir -p $D
git -C /tmp/bug diff > $D/patch.diff
git -C /repo apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
T=$(mktemp -d); mkdir $T/d; for f in $D/*; do case $f in *.diff|*meta.json) ;; *) cp -r $f $T/d/;; esac; done
git -C /repo checkout -q -- .
(cd /repo; timeout 300 bash $T/d/demo.sh >$T/o1 2>&1); a=$?
git -C /repo apply $D/patch.diff
(cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1) || echo BUILD-FAILS
(cd /repo; timeout 300 bash $T/d/demo.sh >$T/o2 2>&1); b=$?
bash /opt/vp/test.sh $T/r.json >/dev/null 2>&1
python3 - $T/r.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=r.get('passed',r); p=set(p if isinstance(p,list) else [k for k,v in p.items() if v in ('pass','passed',True)])
print('tests', 'ok' if s<=p else ('MISSING', s-p))
P
echo "demo unchanged=$a changed=$b"; [ $a != 0 ] && tail -5 $T/o1; tail -3 $T/o2
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cmd=$(python3 -c "import json;print(next((c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$prop'),'echo UNCLAIMED'))")
(cd /verif; timeout 900 $cmd 2>&1 | grep -E "VIOLATION|UNCLAIMED|KNOWN|Error|OK" | cut -c1-260 | head -4)
rm -rf "$T"
