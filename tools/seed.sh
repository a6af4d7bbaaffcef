#!/bin/bash
# Development aid (not a check): tries a planted bug in scratch copies that are bind-mounted over /repo
# and /verif in a mount namespace of their own, so the real trees are never touched.
#   tools/seed.sh ID [--notest] [PROP...]     (PROP defaults to the property in meta.json)
set -u
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$id
W=${SEED_WORK:-/tmp/seedwork}
test=1; [ "${1:-}" = --notest ] && { test=0; shift; }
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"))
mkdir -p $W
rsync -a --delete --exclude target /repo/ $W/repo/ 2>/dev/null || { mkdir -p $W/repo; (cd /repo && tar c --exclude=target .) | tar x -C $W/repo; }
mkdir -p $W/verif; (cd $V && tar c --exclude=target --exclude=evidence --exclude=.git .) | tar x -C $W/verif
[ -d $W/repo/target ] || cp -a /repo/target $W/repo/target
for c in symex native kani ke; do [ -d $W/verif/$c/target ] || cp -a $V/$c/target $W/verif/$c/target 2>/dev/null; done
(cd $W/repo && git checkout -q -- . && git apply "$S/patch.diff") || { echo "$id: patch does not apply"; exit 2; }
rm -rf "$W/demo"; cp -a "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
unshare -Urm bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
if [ $test = 1 ]; then
  bash /opt/vp/build.sh > $W/build.log 2>&1 && echo '$id: builds' || { echo '$id: BUILD FAILS'; tail -30 $W/build.log; exit 2; }
  bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$W/out.json'))
bad=[x for x in b if x not in o['passed']]
print('$id: stable tests', 'pass' if not bad else 'FAIL %s' % bad)
P
  timeout 300 bash $W/demo/demo.sh > $W/demo.log 2>&1; echo \"$id: demo with patch exits \$?\"; tail -3 $W/demo.log
fi
for p in ${props[*]}; do
  cd /verif; t=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py \$p quick > $W/check.\$p.log 2>&1; rc=\$?
  echo \"$id: check \$p exits \$rc (\$(( \$(date +%s)-t )) s): \$(grep -m1 -E 'VIOLATION|no answer|held' $W/check.\$p.log)\"
done
"
