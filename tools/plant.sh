#!/bin/bash
# plant.sh save ID PROP       keeps /repo's current diff as seeded/ID/patch.diff (demo.sh and meta.json are written by hand)
# plant.sh try ID [nocheck]   clean demo, patched build + stable tests + demo + check, then undone
V=/verif; S=$V/seeded/$2
case $1 in
save) mkdir -p $S; git -C /repo diff > $S/patch.diff; git -C /repo checkout -- .; wc -l $S/patch.diff;;
try)
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo dirty; exit 1; }
  git -C /repo apply $S/patch.diff || exit 1
  bash /opt/vp/build.sh >/tmp/pb.txt 2>&1 || { echo "$2: BUILD FAILED"; tail -20 /tmp/pb.txt; git -C /repo checkout -- .; exit 1; }
  bash /opt/vp/test.sh /tmp/pt.json >/dev/null 2>&1
  python3 - <<X
import json
o=json.load(open('/tmp/pt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b
print("$2: tests", len(o['passed']), "passed", o['failed'][:5])
X
  (cd /repo; timeout 300 bash $S/demo.sh >/tmp/pd.txt 2>&1; echo "$2: demo patched rc=$?"; tail -2 /tmp/pd.txt | cut -c1-200)
  if [ "$3" != nocheck ]; then
  for p in $P; do t0=$(date +%s); timeout 900 python3 $V/check.py $p > /tmp/pc.txt 2>&1; echo "$2: check $p rc=$? in $(($(date +%s)-t0)) s"; grep -a "^VIOLATION\|^plan" /tmp/pc.txt | cut -c1-300; done
  fi
  git -C /repo checkout -- .
  if [ "$3" != fast ]; then bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo; timeout 300 bash $S/demo.sh >/tmp/pd.txt 2>&1; echo "$2: demo clean rc=$?"); fi
  ;;
esac
